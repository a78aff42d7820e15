From 86e7ecbdbdec26d7f1142ba19a258517c6555f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 01/91] fix: full covariance densities crash as torch.cholesky
 was removed from torch

---
 beer/dists/normal.py        | 6 +++---
 beer/dists/normalwishart.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index e1279ef..351ce59 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -83,7 +83,7 @@ class NormalFullCovariance(ExponentialFamily):
         prec = nparams[:, dim: dim * (dim + 1)].reshape(-1, dim, dim)
 
         # Log determinant of all the covariance matrix.
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
 
         # Quadratic term of the log-normalizer: -.5 * mu^T S mu
@@ -153,7 +153,7 @@ class NormalFullCovariance(ExponentialFamily):
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
 
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
         prec = cov.inverse()
         Sm = torch.matmul(prec, mean[:, :, None]).view(-1, dim)
@@ -168,7 +168,7 @@ class NormalFullCovariance(ExponentialFamily):
         if len(size) <= 1:
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         noise = torch.randn(mean.shape[0], nsamples, mean.shape[1],
                             dtype=mean.dtype, device=mean.device)
         retval = mean[:, None, :] + torch.matmul(noise, L.permute(0, 2, 1))
diff --git a/beer/dists/normalwishart.py b/beer/dists/normalwishart.py
index e2edbb6..e233f73 100644
--- a/beer/dists/normalwishart.py
+++ b/beer/dists/normalwishart.py
@@ -192,7 +192,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         mean_quad = mean[:, :, None] * mean[:, None, :]
@@ -226,7 +226,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         return (.5 * dof * logdet + .5 * dof * dim * math.log(2) \
-- 
2.43.0


From b4c3c273a6878f23d998b17517fe24462ba5fbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 02/91] fix: entropy() crashes on an undefined name and has the
 wrong sign

---
 beer/dists/basedist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/basedist.py b/beer/dists/basedist.py
index 147e003..a8bf933 100644
--- a/beer/dists/basedist.py
+++ b/beer/dists/basedist.py
@@ -268,5 +268,5 @@ def entropy(pdf):
     nparams = pdf.natural_parameters()
     exp_stats = pdf.expected_sufficient_statistics()
     lnorm = pdf.log_norm()
-    return torch.sum(exp_stats * nparams1, dim=-1) - lnorm
+    return lnorm - torch.sum(exp_stats * nparams, dim=-1)
 
-- 
2.43.0


From 090dd059deb176fd1691d18d4420fc7c619cd0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:50 +0000
Subject: [PATCH 03/91] fix: len() of a Gamma density crashes

---
 beer/dists/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 1227181..733a141 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -86,7 +86,7 @@ class Gamma(ExponentialFamily):
     _std_params_cls = GammaStdParams
 
     def __len__(self):
-        paramshape = self.params.mean.shape
+        paramshape = self.params.shape.shape
         return 1 if len(paramshape) <= 1 else paramshape[0]
 
     @property
-- 
2.43.0


From 46c9b3ea828e9ec19519af4a4365c545be7e8377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 04/91] fix: sign of the sufficient statistics of the Gamma
 likelihood

---
 beer/dists/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 733a141..fdafbee 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -22,7 +22,7 @@ class GammaLikelihood(ConjugateLikelihood):
     def sufficient_statistics(data):
         dim, dtype, device = data.shape[1], data.dtype, data.device
         return torch.cat([
-            -data,
+            data,
             data.log(),
             torch.ones(len(data), 1, dtype=data.dtype, device=data.device)
         ], dim=-1)
-- 
2.43.0


From 7c25042b0224c2a4c7b761921c21c49b20a56875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 05/91] fix: expected log-likelihood of the Gamma model crashes

---
 beer/models/gamma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beer/models/gamma.py b/beer/models/gamma.py
index c9bb059..ba657e4 100644
--- a/beer/models/gamma.py
+++ b/beer/models/gamma.py
@@ -67,17 +67,17 @@ class Gamma(Model):
 
     def expected_log_likelihood(self, stats):
         nparams = self.rate.natural_form()
-        dim = nparams.shape[-1]
+        dim = nparams.shape[-1] // 2
         rate = nparams[:dim]
         log_rate = nparams[dim:]
         lnorm = torch.lgamma(self.shape) - self.shape * log_rate
-        lnorm = lnorm.sum(dim=-1, keepdims=True)
+        lnorm = lnorm.sum(dim=-1, keepdim=True)
         final_nparams = torch.cat([
             -rate, 
             (self.shape - 1), 
             -lnorm,
         ], dim=-1)
-        return self.rate.likelihood_fn(nparams, stats)
+        return self.rate.likelihood_fn(final_nparams, stats)
 
     def accumulate(self, stats):
         dim = stats.shape[-1] // 2
-- 
2.43.0


From d1a55f7ed21c7654177ce30d408533a05ca1dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 06/91] fix: standard parameters of the diagonal Normal do not
 invert its natural parameters

---
 beer/dists/normaldiag.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 8c55cde..99d2fdf 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -57,10 +57,10 @@ class NormalDiagonalCovarianceStdParams(torch.nn.Module):
 
     @classmethod
     def from_natural_parameters(cls, natural_params):
-        dim = (len(natural_params)) // 2
-        np1 = natural_params[:dim]
-        np2 = natural_params[dim:2 * dim]
-        diag_cov = 1. / (-2 * np2)
+        dim = natural_params.shape[-1] // 2
+        np1 = natural_params[..., :dim]
+        np2 = natural_params[..., dim:2 * dim]
+        diag_cov = 1. / np2
         mean = diag_cov * np1
         return cls(mean, diag_cov)
 
-- 
2.43.0


From 3557c2e6564ae73409878a6bbcf1b50a3f63a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 07/91] fix: expected statistics of a set of diagonal Normals
 are concatenated along the wrong axis

---
 beer/dists/normaldiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 99d2fdf..d641e32 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -134,7 +134,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         return torch.cat([
             self.params.mean,
             -.5 * (self.params.diag_cov + self.params.mean ** 2)
-        ])
+        ], dim=-1)
 
     def expected_value(self):
         return self.params.mean
-- 
2.43.0


From 389e705d549efa9f016a4d5b0a27270fe2d7554d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 08/91] fix: log-likelihood of a set of diagonal Normals mixes
 the normalizers of the pdfs

---
 beer/dists/normaldiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index d641e32..370fee1 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -101,7 +101,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         if pdfwise:
             return torch.sum(nparams * stats, dim=-1) - lnorm \
                    + log_basemeasure
-        retval = nparams @ stats.t() - lnorm + log_basemeasure
+        retval = nparams @ stats.t() - lnorm[:, None] + log_basemeasure
         if len(size) <= 1:
             return retval.reshape(-1)
         return retval
-- 
2.43.0


From 8b71cd3d47ddb1379cf3a4f52286abeaab1ec62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 09/91] fix: standard parameters of the full covariance Normal
 do not invert its natural parameters

---
 beer/dists/normal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 351ce59..8bfa09c 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -41,8 +41,8 @@ class NormalFullCovarianceStdParams(torch.nn.Module):
 
         np1 = natural_params[:, :dim]
         np2 = natural_params[:, dim: dim * (dim + 1)]
-        cov = np2.inverse()
-        mean = cov * np1
+        cov = np2.reshape(-1, dim, dim).inverse()
+        mean = torch.matmul(cov, np1[:, :, None])
 
         if len(npsize) == 1:
             return cls(mean.view(-1), cov.view(dim, dim))
-- 
2.43.0


From 08da660664bf9cc366dca3075f1f2e04511010ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 10/91] fix: log-likelihood of a single full covariance Normal
 crashes

---
 beer/dists/normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 8bfa09c..9470b02 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -76,6 +76,7 @@ class NormalFullCovariance(ExponentialFamily):
         dim = self.dim
         if len(size) <= 1:
             mean = mean.view(1, -1)
+            cov = cov.view(1, dim, dim)
             nparams = nparams.view(1, -1)
 
         # Get the precision matrix from the natural parameters not
-- 
2.43.0


From 11c3996ba4eef1b5751bc7ef590a337f52283058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 11/91] fix: isotropic Normal pdf vectors read the
 log-precision from the mean

---
 beer/dists/isonormalgamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index 82e5388..ad6f778 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -33,7 +33,7 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
     def pdfvectors_from_rvectors(rvecs):
         dim = rvecs.shape[-1] - 1
         mean = rvecs[:, :dim]
-        log_precision = rvecs[:, -2:-1]
+        log_precision = rvecs[:, -1:]
         precision = torch.exp(log_precision)
         return torch.cat([
             precision * mean,
-- 
2.43.0


From ee3777614c5e8a9582f626b36056d931aa3a5b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:15 +0000
Subject: [PATCH 12/91] fix: parameters of a set of isotropic Normals cannot be
 recovered from their pdf vectors

---
 beer/dists/isonormalgamma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index ad6f778..7aecf2e 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -47,11 +47,11 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
         size = pdfvec.shape
         if len(size) == 1:
             pdfvec = pdfvec.view(1, -1)
-        precision = pdfvec[:, -3]
+        precision = pdfvec[:, -3:-2]
         mean = pdfvec[:, :-3] / precision
         if len(size) == 1:
             return mean.view(-1), precision.view(-1)
-        return mean.view(-1, dim), precision.view(-1, dim)
+        return mean, precision
 
     def __call__(self, pdfvecs, stats):
         if len(pdfvecs.shape) == 1:
-- 
2.43.0


From 125d6fb6333b0f4e6ce8f1b1b94a204de679dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:33 +0000
Subject: [PATCH 13/91] fix: filter bank creation crashes as np.float was
 removed from numpy

---
 beer/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/features.py b/beer/features.py
index 232b3a0..27524fc 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -31,7 +31,7 @@ def bark2hz(bark):
 def __triangle(center, start, end, freqs):
     'Create triangular filter.'
     slopes = 1. / (center - start), 1./ (end - center)
-    retval = np.zeros_like(freqs).astype(np.float)
+    retval = np.zeros_like(freqs).astype(float)
     idxs = np.logical_and(freqs >= start, freqs <= center)
     retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start),
                                slopes[0] * (freqs[idxs][-1] - start),
-- 
2.43.0


From dbd36699c1b2d008a222ec1491878c6de53ecfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:33 +0000
Subject: [PATCH 14/91] fix: fbank ignores the sampling rate when building the
 filters

---
 beer/features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/features.py b/beer/features.py
index 27524fc..299ad96 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -198,7 +198,8 @@ def fbank(signal, flen=0.025, frate=0.01, hifreq=8000, lowfreq=20, nfilters=26,
     magspec = np.abs(np.fft.rfft(frames, n=fft_len, axis=-1)[:, :-1])
 
     # Filtering.
-    filters = create_fbank(nfilters, fft_len, lowfreq=lowfreq, highfreq=hifreq)
+    filters = create_fbank(nfilters, fft_len, srate=srate, lowfreq=lowfreq,
+                           highfreq=hifreq)
     melspec = magspec @ filters.T
 
     return np.log(melspec + 1)
-- 
2.43.0


From 660535c7c296e5df21ade89bb87cc492d43b9663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:33 +0000
Subject: [PATCH 15/91] fix: make_symposdef crashes as torch.symeig was removed
 from torch

---
 beer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/utils.py b/beer/utils.py
index b84e66c..d498d93 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -149,7 +149,7 @@ def make_symposdef(mat, eval_threshold=1e-1):
 
     '''
     sym_mat = symmetrize_matrix(mat)
-    evals, evecs = torch.symeig(sym_mat, eigenvectors=True)
+    evals, evecs = torch.linalg.eigh(sym_mat)
 
     threshold = torch.tensor(eval_threshold, dtype=sym_mat.dtype,
                              device=sym_mat.device)
-- 
2.43.0


From 5cb0e6b8ea6c684a74d4d06aa60b4b3ac0a02323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:33 +0000
Subject: [PATCH 16/91] fix: jacobians accumulates the gradient of the previous
 rows

---
 beer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index d498d93..05e3e5a 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -197,9 +197,9 @@ def jacobians(outputs, inputs):
     dim, dtype, device = len(outputs), outputs.dtype, outputs.device
     jac_matrices = [torch.zeros(dim, len(tensor.view(-1)), dtype=dtype,
                     device=device) for tensor in inputs]
-    for input_tensor in inputs:
-        input_tensor.grad = None
     for i in range(dim):
+        for input_tensor in inputs:
+            input_tensor.grad = None
         autograd.backward(outputs[i], retain_graph=True)
         for j, in_tensor in enumerate(inputs):
             jac_matrices[j][i, :] = in_tensor.grad.view(-1)
-- 
2.43.0


From a885408d41808806532be5f747bcd05d6bc4f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 17/91] fix: "features extract" ignores the sampling rate when
 building the filters

---
 beer/cli/subcommands/features/extract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/cli/subcommands/features/extract.py b/beer/cli/subcommands/features/extract.py
index 02c591b..78ee836 100644
--- a/beer/cli/subcommands/features/extract.py
+++ b/beer/cli/subcommands/features/extract.py
@@ -118,6 +118,7 @@ def main(args, logger):
         if feaconf['apply_fbank']:
             logger.debug(f'applying filter bank (F={feaconf["nfilters"]})')
             fbank = beer.features.create_fbank(feaconf['nfilters'], fft_len,
+                                               srate=feaconf['srate'],
                                                lowfreq=feaconf['cutoff_lfreq'],
                                                highfreq=feaconf['cutoff_hfreq'])
             melspec = melspec @ fbank.T
-- 
2.43.0


From ca919be3baa3cc65d057400a20962d9db106564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 18/91] fix: unknown covariance types are not rejected with the
 documented error

---
 beer/models/normal.py    | 2 +-
 beer/models/normalset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/normal.py b/beer/models/normal.py
index 2c63439..bdc2ac9 100644
--- a/beer/models/normal.py
+++ b/beer/models/normal.py
@@ -91,7 +91,7 @@ class Normal(Model):
             :any:`Normal`
 
         '''
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
diff --git a/beer/models/normalset.py b/beer/models/normalset.py
index f1ac5cd..0729a0a 100644
--- a/beer/models/normalset.py
+++ b/beer/models/normalset.py
@@ -89,7 +89,7 @@ class NormalSet(ModelSet):
                           'supported anymore. The argument will be ignored.',
                           DeprecationWarning, stacklevel=2)
 
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
-- 
2.43.0


From cd1b3b29224e15ce0265a5eb9f7c0e095b86b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 19/91] fix: posteriors of a mixture crashes

---
 beer/models/mixture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/models/mixture.py b/beer/models/mixture.py
index dbebdab..a743696 100644
--- a/beer/models/mixture.py
+++ b/beer/models/mixture.py
@@ -108,8 +108,9 @@ class Mixture(DiscreteLatentModel):
 
     def posteriors(self, data):
         stats = self.modelset.sufficient_statistics(data)
-        log_weights = self.weights.expected_natural_parameters().view(1, -1)
+        tensorconf = {'dtype': stats.dtype, 'device': stats.device}
+        log_weights = self._log_weights(tensorconf).view(1, -1)
         per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
-        per_component_exp_llh += log_weights
+        per_component_exp_llh = per_component_exp_llh + log_weights
         lognorm = torch.logsumexp(per_component_exp_llh, dim=1).view(-1)
         return torch.exp(per_component_exp_llh - lognorm.view(-1, 1))
-- 
2.43.0


From 84370a445411b636d35671111ef88a1549e88088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 20/91] fix: MixtureSet.create ignores the type of the
 components

---
 beer/models/mixtureset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 1a7fb39..1c84f39 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -46,7 +46,8 @@ class MixtureSet(ModelSet):
         dtype, device = tensor.dtype, tensor.device
 
         ncomp_per_mixture = len(modelset) // size
-        weights = torch.ones(size, ncomp_per_mixture) / ncomp_per_mixture
+        weights = torch.ones(size, ncomp_per_mixture, dtype=dtype, device=device)
+        weights /= ncomp_per_mixture
         categoricalset = CategoricalSet.create(weights, prior_strength)
         return cls(categoricalset, modelset)
 
-- 
2.43.0


From 055a76c597fafb23193782644e6f9b96e46b51b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 21/91] fix: HMM posteriors scale the statistics instead of the
 log-likelihoods

---
 beer/models/hmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 6c5dd2c..a187743 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -116,7 +116,7 @@ class HMM(DiscreteLatentModel):
     def posteriors(self, data, inference_graph=None, scale=1.0):
         if inference_graph is None:
             inference_graph = self.graph
-        stats = self.modelset.sufficient_statistics(data) * scale
-        pc_llhs = self._pc_llhs(stats, inference_graph)
+        stats = self.modelset.sufficient_statistics(data)
+        pc_llhs = scale * self._pc_llhs(stats, inference_graph)
         return self._inference(pc_llhs, inference_graph)[0]
 
-- 
2.43.0


From c3b336b6d454fe6447f7c7d344978a8cdf54b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 22/91] fix: VAE log-likelihood has one value per pair of
 frames instead of one per frame

---
 beer/models/vae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/vae.py b/beer/models/vae.py
index eba1a7f..8f998e1 100644
--- a/beer/models/vae.py
+++ b/beer/models/vae.py
@@ -73,7 +73,7 @@ class VAE(Model):
         s_samples = self.prior.sufficient_statistics(samples.view(-1, samples.shape[-1]))
         s_samples = s_samples.reshape(len(samples), -1, s_samples.shape[-1]).mean(dim=1)
         self.cache['prior_stats'] = s_samples
-        xent = -self.prior.expected_log_likelihood(s_samples)
+        xent = -self.prior.expected_log_likelihood(s_samples).reshape(-1)
         local_kl_div = xent - ent
         
         # Approximate the expected log-likelihood with the
@@ -81,7 +81,7 @@ class VAE(Model):
         pdfs = self.pdfs(samples.view(-1, samples.shape[-1]))
         r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])
         llh = pdfs(pdfs.sufficient_statistics(r_data), pdfwise=True)
-        llh = llh.reshape(len(data), nsamples, -1).mean(dim=1)
+        llh = llh.reshape(len(data), nsamples).mean(dim=1)
         
         return llh_weight * llh - kl_weight * local_kl_div
 
-- 
2.43.0


From 5efbb67e4289b68ef64a81b9b761e36448c26456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:20 +0000
Subject: [PATCH 23/91] fix: view of a subspace parameter has no natural form

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index b5a3f32..8bac50b 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -397,7 +397,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)
 
     def natural_form(self):
-        self.pdfvec
+        return self.pdfvec
 
     def kl_div_posterior_prior(self):
         return self.param.kl_div_posterior_prior()
-- 
2.43.0


From 140a6f2abd6fe0459e966a3ff8a82dd415e5f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:20 +0000
Subject: [PATCH 24/91] fix: replace_parameters ignores the members of a joint
 model set

---
 beer/models/basemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/basemodel.py b/beer/models/basemodel.py
index c190832..a8761da 100644
--- a/beer/models/basemodel.py
+++ b/beer/models/basemodel.py
@@ -90,7 +90,7 @@ class Model(torch.nn.Module, metaclass=abc.ABCMeta):
         for name, child in module.named_children():
             if child in paramsmap:
                 module.add_module(name, paramsmap[child])
-            elif isinstance(child, Model):
+            elif isinstance(child, (Model, torch.nn.ModuleList)):
                 Model._replace_params(child, paramsmap)
 
     def replace_parameters(self, paramsmap):
-- 
2.43.0


From 8dfba8c3a09f4b17850befae2a044d57d08f1d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:20 +0000
Subject: [PATCH 25/91] fix: training a bigram phone loop with alignments
 crashes

---
 beer/models/phoneloop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index ad82538..cf2f74e 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -187,5 +187,6 @@ class BigramPhoneLoop(HMM):
         else:
             fake_stats = torch.zeros_like(self.categoricalset.mean,
                                           requires_grad=False)
-            retval.update(self.categoricalset.accumulate(fake_stats[None, :]))
+            retval.update(
+                self.categoricalset.accumulate_from_jointresps(fake_stats[None]))
         return retval
-- 
2.43.0


From eaa3fc3f88f530e9f5d49dc5ba53278329513cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:20 +0000
Subject: [PATCH 26/91] fix: slices of a MixtureSet do not select the
 components of the mixtures

---
 beer/models/mixtureset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 1c84f39..097a55b 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -121,13 +121,14 @@ class MixtureSet(ModelSet):
     def __getitem__(self, key):
         ncpm = self.n_comp_per_mixture
         if isinstance(key, int):
+            key = key + len(self) if key < 0 else key
             s = slice(key * ncpm, (key + 1) * ncpm)
             return Mixture(self.categoricalset[key], self.modelset[s])
         if isinstance(key, slice):
-            start = 0 if key.start is None else key.start * ncpm
-            stop = len(self) if key.stop is None else key.stop * ncpm
-            step = 1 if key.step is None else key.step * ncpm
-            new_s = slice(start, stop, step)
+            start, stop, step = key.indices(len(self))
+            if step != 1:
+                raise IndexError(f'Unsupported index: {key}')
+            new_s = slice(start * ncpm, max(start, stop) * ncpm)
             return self.__class__(self.categoricalset[key],
                                   self.modelset[new_s])
         raise IndexError(f'Unsupported index: {key}')
-- 
2.43.0


From 9e33072c57ef98b1ee3512ea86faddb9e6d4f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:20 +0000
Subject: [PATCH 27/91] fix: weights of the paths through non-emitting states
 are lost when compiling a graph

---
 beer/graph.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index f5457f2..a732ebd 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -154,33 +154,35 @@ class Graph:
         del self._states[old_state_id]
 
     def find_next_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight) for arc in self.arcs(start_state)]
-        visited = set([start_state])
+        # The states visited are specific to each path as a state may be
+        # reached by several non-emitting paths.
+        to_explore = [(arc, init_weight, {start_state})
+                      for arc in self.arcs(start_state)]
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, visited = to_explore.pop()
             pdf_id = self._states[arc.end].pdf_id
             if pdf_id is not None:
                 yield arc.end, weight * arc.weight
             else:
                 if arc.end not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.end)]
-                    visited.add(arc.end)
+                    to_explore += [(next_arc, arc.weight * weight,
+                                    visited | {arc.end})
+                                   for next_arc in self.arcs(arc.end)]
 
     def find_previous_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight)
+        to_explore = [(arc, init_weight, {start_state})
                       for arc in self.arcs(start_state, incoming=True)]
-        visited = set([start_state])
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, visited = to_explore.pop()
             pdf_id = self._states[arc.start].pdf_id
             if pdf_id is not None:
                 yield arc.start, weight * arc.weight
             else:
                 if arc.start not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.start, incoming=True)]
-                    visited.add(arc.start)
+                    to_explore += [(next_arc, arc.weight * weight,
+                                    visited | {arc.start})
+                                   for next_arc in self.arcs(arc.start,
+                                                             incoming=True)]
 
     def compile(self):
         'Compile the graph.'
-- 
2.43.0


From 3f9cc8291fe7c2977cdfda8584a0f24b1ad95c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:20 +0000
Subject: [PATCH 28/91] fix: replacing a state having a self-loop crashes

---
 beer/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beer/graph.py b/beer/graph.py
index a732ebd..3bd8388 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -139,8 +139,13 @@ class Graph:
         new_arcs = []
         for arc in self.arcs(old_state_id):
             to_delete.append(arc)
-            new_arcs.append((new_states[graph.end_state], arc.end, arc.weight))
+            end = arc.end
+            if end == old_state_id:
+                end = new_states[graph.start_state]
+            new_arcs.append((new_states[graph.end_state], end, arc.weight))
         for arc in self.arcs(old_state_id, incoming=True):
+            if arc.start == old_state_id:
+                continue
             to_delete.append(arc)
             new_arcs.append((arc.start, new_states[graph.start_state], arc.weight))
 
-- 
2.43.0


From eb0d6c3581aeef856e78f4f5f2fa59a2e70fdff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:44 +0000
Subject: [PATCH 29/91] fix: merging transforms overwrites the input of an
 identity transform

---
 beer/nnet/neuralnetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/neuralnetwork.py b/beer/nnet/neuralnetwork.py
index aab4f82..872201a 100644
--- a/beer/nnet/neuralnetwork.py
+++ b/beer/nnet/neuralnetwork.py
@@ -63,7 +63,7 @@ class MergeTransform(torch.nn.Module):
     def forward(self, *inputs):
         retval = self.transforms[0](inputs[0])
         for input_data, transform in zip(inputs[1:], self.transforms[1:]):
-            retval += transform(input_data)
+            retval = retval + transform(input_data)
         return retval
 
 
-- 
2.43.0


From 382c7842803a04dd63db12a54f41ffa0b0c897ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:44 +0000
Subject: [PATCH 30/91] fix: auto-regressive network of dimension 1 cannot be
 created

---
 beer/nnet/arnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/nnet/arnet.py b/beer/nnet/arnet.py
index 215fe14..300d18b 100644
--- a/beer/nnet/arnet.py
+++ b/beer/nnet/arnet.py
@@ -107,7 +107,8 @@ def AutoRegressiveNetwork(dim_in, flow_params_dim, depth, width, activation):
     ordering = range(dim_in)
     layer_connections = []
     for i in range(depth):
-        layer_connections.append(random.choices(range(0, dim_in - 1), k=width))
+        layer_connections.append(random.choices(range(0, max(1, dim_in - 1)),
+                                                k=width))
     arch = []
     previous_ordering = ordering
     previous_dim = dim_in
-- 
2.43.0


From a3059b6f72bd361109e6441907c9b0d21591ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:44 +0000
Subject: [PATCH 31/91] fix: log-likelihood of the mean sample of a flow misses
 the normalization constant

---
 beer/nnet/problayers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/nnet/problayers.py b/beer/nnet/problayers.py
index ba18f4b..55c415e 100644
--- a/beer/nnet/problayers.py
+++ b/beer/nnet/problayers.py
@@ -182,7 +182,8 @@ class InverseAutoRegressiveFlow(ProbabilisticLayer):
         dim = means.shape[-1]
         if use_mean:
             flow = means
-            llhs = torch.zeros_like(means[:, 0])
+            llhs = torch.zeros_like(means[:, 0]) \
+                - .5 * dim * math.log(2 * math.pi)
         else:
             dtype, device = means.dtype, means.device
             noise = torch.randn(*means.shape, dtype=dtype, device=device)
-- 
2.43.0


From be45724e9517bbdbe86090d0065b7fc8356ae571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 32/91] fix: "hmm accumulate" and "hmm decode" crash on
 utterances without features

---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 beer/cli/subcommands/hmm/decode.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 3aeb481..4718bd0 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -42,7 +42,7 @@ def main(args, logger):
         try:
             utt = dataset[uttid]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttid} in {args.dataset}')
             continue
         aligraph = None
         if alis:
diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 60f10ec..8fa942d 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -67,7 +67,7 @@ def main(args, logger):
         try:
             utt = dataset[uttname]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttname} in {args.dataset}')
             continue
 
         aligraph = None
-- 
2.43.0


From 5b3668ebba8a5adbf457a7b37f041d6057312993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 33/91] fix: "hmm decode" cannot load the alignment graphs

---
 beer/cli/subcommands/hmm/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 8fa942d..45ad3a3 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -51,7 +51,7 @@ def main(args, logger):
     alis = None
     if args.alis:
         logger.debug('loading alignment graphs')
-        alis = np.load(args.alis)
+        alis = np.load(args.alis, allow_pickle=True)
 
     if args.utts:
         if args.utts == '-':
-- 
2.43.0


From 7b7b19f854062ae257f33632422d8bec6d404909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 34/91] fix: "hmm posteriors" ignores the last state of the
 units

---
 beer/cli/subcommands/hmm/posteriors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/posteriors.py b/beer/cli/subcommands/hmm/posteriors.py
index db3edb3..35798b5 100644
--- a/beer/cli/subcommands/hmm/posteriors.py
+++ b/beer/cli/subcommands/hmm/posteriors.py
@@ -31,7 +31,7 @@ def state2phone(posts, start_pdf, end_pdf):
     retval = np.zeros((len(posts), len(start_pdf)))
     for i, unit in enumerate(start_pdf):
         start, end = start_pdf[unit], end_pdf[unit]
-        retval[:, i] = posts[:, start:end].sum(axis=-1)
+        retval[:, i] = posts[:, start:end + 1].sum(axis=-1)
     return retval
 
 
-- 
2.43.0


From b4818db796b258d8ebbb6b7a52a34d8cbb11168e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 35/91] fix: "hmm train" uses an optimizer that does not exist
 anymore

---
 beer/cli/subcommands/hmm/train.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index f36fbdf..3e36627 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -31,8 +31,10 @@ def main(args, logger):
         dataset = pickle.load(f)
 
     logger.debug('create the optimizer')
-    optim = beer.BayesianModelOptimizer(model.mean_field_factorization(),
-                                        lrate=args.lrate)
+    optim = beer.VBConjugateOptimizer(
+        model.conjugate_bayesian_parameters(keepgroups=True),
+        lrate=args.lrate
+    )
 
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
-- 
2.43.0


From ef12319fc73aa48aaf778413bd28be92b3159016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 36/91] fix: "hmm train" updates the model after each utterance
 when asked for a single batch

---
 beer/cli/subcommands/hmm/train.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index 3e36627..14e4e8d 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -36,6 +36,7 @@ def main(args, logger):
         lrate=args.lrate
     )
 
+    batch_size = args.batch_size if args.batch_size > 0 else len(dataset)
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
         optim.init_step()
@@ -45,12 +46,12 @@ def main(args, logger):
                                               datasize=dataset.size)
 
             # Update the model after N utterances.
-            if i % args.batch_size == 0:
+            if i % batch_size == 0:
                 elbo.backward()
                 optim.step()
                 logger.info(f'{"epoch=" + str(epoch):<20}  ' \
-                            f'{"batch=" + str(i // args.batch_size) + "/" + str(int(len(dataset) / args.batch_size)):<20} ' \
-                            f'{"ELBO=" + str(round(float(elbo) / (args.batch_size * dataset.size), 3)):<20}')
+                            f'{"batch=" + str(i // batch_size) + "/" + str(int(len(dataset) / batch_size)):<20} ' \
+                            f'{"ELBO=" + str(round(float(elbo) / (batch_size * dataset.size), 3)):<20}')
                 elbo = beer.evidence_lower_bound(datasize=dataset.size)
                 optim.init_step()
 
-- 
2.43.0


From 2239ccd5a60688db1b918cabc7af4437b1da2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:28 +0000
Subject: [PATCH 37/91] fix: default prior of "hmm mkphoneloopbigram" is not
 one of the supported priors

---
 beer/cli/subcommands/hmm/mkphoneloopbigram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/mkphoneloopbigram.py b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
index 00fa5f0..435b21a 100644
--- a/beer/cli/subcommands/hmm/mkphoneloopbigram.py
+++ b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
@@ -25,7 +25,7 @@ priors = {
 
 
 def setup(parser):
-    parser.add_argument('--weights-prior', default='gamma_dirichlet_process',
+    parser.add_argument('--weights-prior', default='hierarchical_dirichlet_process',
                         choices=[key for key in priors],
                         help='type of prior over the phone weights')
     parser.add_argument('phoneloop', help='unigram phone loop')
-- 
2.43.0


From de27b7f985a315366f83b146c1ceb5bbce20fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:01 +0000
Subject: [PATCH 38/91] fix: Viterbi training of a HMM crashes on utterances
 shorter than the number of states

---
 beer/models/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index a187743..73ee043 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -55,7 +55,7 @@ class HMM(DiscreteLatentModel):
                 retval = posts, trans_posts
             else:
                 retval = posts
-            llh = pc_llhs[path].sum()
+            llh = pc_llhs[range(len(path)), path].sum()
         else:
             retval, llh = inference_graph.posteriors(pc_llhs,
                                                 trans_posteriors=trans_posteriors)
-- 
2.43.0


From 4f24f005b4c862f5b7f097185cd85754c41f0d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:01 +0000
Subject: [PATCH 39/91] fix: phone loop trained with an alignment reuses the
 transitions of a previous call

---
 beer/models/hmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 73ee043..76249fa 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -83,6 +83,8 @@ class HMM(DiscreteLatentModel):
         if trans_posts:
             self.cache['resps'], self.cache['trans_resps'] = all_resps
         else:
+            # Discard the transitions of a previous call.
+            self.cache.pop('trans_resps', None)
             self.cache['resps'] = all_resps
         exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)
         self.cache['scale'] = scale
-- 
2.43.0


From cba0e63db087fd0c7a8bd14a49e05db715933f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 40/91] fix: bigram phone loop with a Dirichlet prior reads the
 transposed transition probabilities

---
 beer/models/categoricalset.py | 2 +-
 beer/models/phoneloop.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 26fba4a..297367d 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -298,7 +298,7 @@ class SBCategoricalSet(Model):
 
     def expected_log_likelihood(self, stats):
         log_prob, _ = self._log_prob()
-        return stats @ log_prob[:, self.reverse_ordering]
+        return stats @ log_prob[:, self.reverse_ordering].t()
 
     def accumulate(self, stats):
         raise NotImplementedError 
diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index cf2f74e..1ddeb56 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -154,7 +154,7 @@ class BigramPhoneLoop(HMM):
             loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
             residual_log_prob = (1 - loop_prob).log()
             self.graph.trans_log_probs[end_idx, start_idxs] = \
-                    residual_log_prob + log_weights[i]
+                    residual_log_prob + log_weights[:, i]
 
     ####################################################################
     # Model interface.
-- 
2.43.0


From 33ae144ea26a9cc278c2d823f3d2c448d734331e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 41/91] fix: prior of a set of stick-breaking processes ignores
 the order of its root

---
 beer/models/categoricalset.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 297367d..02707c7 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -170,7 +170,10 @@ def _default_set_sb_param(n_components, root_sb_categorical, prior_strength):
     params = torch.ones(n_components, len(root_sb_categorical.stickbreaking), 2,
                         **tensorconf)
     params[:, :, 0] = prior_strength * mean
-    params[:, :, 1] = prior_strength * (1 - mean.cumsum(dim=0))
+    # The sticks are broken in the order of the root.
+    cumsum = mean[root_sb_categorical.ordering].cumsum(dim=0)
+    cumsum = cumsum[root_sb_categorical.reverse_ordering]
+    params[:, :, 1] = prior_strength * (1 - cumsum)
     params = params.reshape(-1, 2)
     prior = Dirichlet.from_std_parameters(params)
     post = root_sb_categorical.stickbreaking.posterior
-- 
2.43.0


From 1d6b74996351d200936209e7af0e1af8498aaf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 42/91] fix: subspace model of mixtures with a single component
 crashes

---
 beer/models/gsm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 8bac50b..1ba6729 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -433,7 +433,8 @@ def _pdfvecs(params, rvecs):
         dim = lhf.sufficient_statistics_dim(zero_stats=False)
         npdfs = len(param)
         totdim = dim * npdfs
-        param_rvecs = rvecs[:, idx: idx + totdim].reshape(-1, dim)
+        param_rvecs = rvecs[:, idx: idx + totdim]
+        param_rvecs = param_rvecs.reshape(len(rvecs) * npdfs, dim)
         pdfvec = lhf.pdfvectors_from_rvectors(param_rvecs)
         totdim_with_zerostats = npdfs * pdfvec.shape[-1]
         idx += totdim
-- 
2.43.0


From 4f4db22471a21597d293081247f6835c856ef3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 43/91] fix: features archive alters identifiers containing the
 extension

---
 beer/cli/subcommands/features/archive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/features/archive.py b/beer/cli/subcommands/features/archive.py
index 0122773..88efe59 100644
--- a/beer/cli/subcommands/features/archive.py
+++ b/beer/cli/subcommands/features/archive.py
@@ -20,7 +20,9 @@ def main(args, logger):
     with ZipFile(args.out, 'w') as f:
         for path in glob.glob(os.path.join(args.feadir, '*' + args.extension)):
             logger.debug(f'adding {path} to the archive')
-            arcname = os.path.basename(path).replace('.' + args.extension, '')
+            arcname = os.path.basename(path)
+            if arcname.endswith('.' + args.extension):
+                arcname = arcname[:-len('.' + args.extension)]
             f.write(path, arcname=arcname)
             counts += 1
     logger.info(f'created archive from {counts} features files')
-- 
2.43.0


From 5260d472f5cf98a5245bbd19a049f46064f0e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 44/91] fix: features extraction crashes with an empty
 configuration

---
 beer/cli/subcommands/features/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/features/extract.py b/beer/cli/subcommands/features/extract.py
index 78ee836..44159ad 100644
--- a/beer/cli/subcommands/features/extract.py
+++ b/beer/cli/subcommands/features/extract.py
@@ -61,7 +61,7 @@ def main(args, logger):
 
     # Override the default configuration.
     with open(args.feaconf, 'r') as fid:
-        new_conf = yaml.load(fid)
+        new_conf = yaml.load(fid) or {}
 
     # Check for unknown options.
     for key in new_conf:
-- 
2.43.0


From 163520855fc70284a7a4e604683cf452cfdf0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:05 +0000
Subject: [PATCH 45/91] fix: creation of HMMs crashes when a configured group
 has no unit

---
 beer/cli/subcommands/hmm/mkphones.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beer/cli/subcommands/hmm/mkphones.py b/beer/cli/subcommands/hmm/mkphones.py
index df84e89..fd61c67 100644
--- a/beer/cli/subcommands/hmm/mkphones.py
+++ b/beer/cli/subcommands/hmm/mkphones.py
@@ -109,6 +109,9 @@ def main(args, logger):
                                                     start_pdf_id)
             units[name] = graph
             tot_emitting_states += count_emitting_state(graph)
+        if tot_emitting_states == 0:
+            logger.debug(f'no unit in group "{group}"')
+            continue
         pdfs.append(create_pdfs(mean, var, tot_emitting_states, group_conf))
     emissions = beer.JointModelSet(pdfs)
 
-- 
2.43.0


From ac4e26f8d3043c4032e2e83149eaff03f750a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 46/91] fix: accumulation over utterances that are all missing
 ends with an error

---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 4718bd0..7be64e5 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -62,7 +62,7 @@ def main(args, logger):
     with open(args.out, 'wb') as f:
         pickle.dump((elbo, count), f)
 
-    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (count * dataset.size) :.3f}.')
+    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / max(1, count * dataset.size) :.3f}.')
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From d2f69e4d4d6c3711651c3ff8ab60cbe2852320f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:36 +0000
Subject: [PATCH 47/91] fix: reserve_gpu works without a logger

---
 beer/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index 05e3e5a..53421da 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -60,7 +60,8 @@ def reserve_gpu(max_retry=12, logger=None, wait_time=10):
         active_gpus = get_active_gpus()
         for gpu, gpu_idx in gpus.items():
             if gpu not in active_gpus:
-                logger.debug(f'trying to reserve gpu {gpu_idx}')
+                if logger is not None:
+                    logger.debug(f'trying to reserve gpu {gpu_idx}')
                 os.environ['CUDA_VISIBLE_DEVICES'] = str(gpu_idx)
                 # Reserve the GPU by allocating some dummy data.
                 try:
@@ -72,7 +73,8 @@ def reserve_gpu(max_retry=12, logger=None, wait_time=10):
             if gpu_reserved:
                 break
         else:
-            logger.debug(f'waiting {wait_time} seconds...')
+            if logger is not None:
+                logger.debug(f'waiting {wait_time} seconds...')
             time.sleep(wait_time)
         count += 1
 
-- 
2.43.0


From e0c7aaa2c93bdf217c1aafc5469d6060249b95a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:52 +0000
Subject: [PATCH 48/91] fix: score the boundaries of utterances without
 reference boundary

---
 recipes/aud/utils/score_boundaries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/aud/utils/score_boundaries.py b/recipes/aud/utils/score_boundaries.py
index f4c2afb..570de4e 100644
--- a/recipes/aud/utils/score_boundaries.py
+++ b/recipes/aud/utils/score_boundaries.py
@@ -30,6 +30,8 @@ def boundaries(utt):
 
 def get_hits(ref_bounds_, hyp_bounds, delta=1):
     hits = 0
+    if len(ref_bounds_) == 0:
+        return hits
     ref_bounds = copy.deepcopy(ref_bounds_)
     for b in hyp_bounds:
         diff = np.abs(b - ref_bounds)
-- 
2.43.0


From 449250f9369ce40c9d3f20de8b5eab0ba69199ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:52 +0000
Subject: [PATCH 49/91] fix: score_boundaries2 matches each boundary at most
 once

---
 recipes/aud/utils/score_boundaries2.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/recipes/aud/utils/score_boundaries2.py b/recipes/aud/utils/score_boundaries2.py
index 32b4b31..e66adcf 100644
--- a/recipes/aud/utils/score_boundaries2.py
+++ b/recipes/aud/utils/score_boundaries2.py
@@ -28,11 +28,14 @@ def boundaries(utt):
 
 def get_hits(ref_bounds, hyp_bounds, delta=1):
     hits = 0
+    if len(hyp_bounds) == 0:
+        return hits
+    hyp_bounds = hyp_bounds.copy()
     for b in ref_bounds:
         min_dist = np.abs(b - hyp_bounds).min()
         if min_dist <= delta:
             hits += 1
-            ref_bounds[np.abs(b-hyp_bounds).argmin()] = 1000000
+            hyp_bounds[np.abs(b-hyp_bounds).argmin()] = 1000000
     return hits
 
 
@@ -93,9 +96,18 @@ def main():
         ref_bounds_count += len(ref_bounds)
         hyp_bounds_count += len(hyp_bounds)
 
-    recall = hits / ref_bounds_count
-    prec = hits / hyp_bounds_count
-    fscore = 2 * (prec * recall) / (prec + recall)
+    if ref_bounds_count > 0:
+        recall = hits / ref_bounds_count
+    else:
+        recall = 0.
+    if hyp_bounds_count > 0:
+        prec = hits / hyp_bounds_count
+    else:
+        prec = 0.
+    if recall + prec > 0:
+        fscore = 2 * (prec * recall) / (prec + recall)
+    else:
+        fscore = 0.
 
     print('recall (%), precision (%), f-score (%)')
     print(f'{100 * recall:.2f}, {100 * prec:.2f}, {100 * fscore: .2f}')
-- 
2.43.0


From 952b758c5bc318718a951836f4a899200452118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 50/91] fix: unknown units of the reference and the hypothesis
 share no symbol in score_boundaries

---
 recipes/aud/utils/score_boundaries.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/recipes/aud/utils/score_boundaries.py b/recipes/aud/utils/score_boundaries.py
index 570de4e..644f9df 100644
--- a/recipes/aud/utils/score_boundaries.py
+++ b/recipes/aud/utils/score_boundaries.py
@@ -57,13 +57,11 @@ def load_mapping(path):
 
 def map_trans(trans, mapfile):
     new_trans = {}
-    oov_i = 1
     for utt, utt_trans in trans.items():
         tmp = []
         for token in utt_trans:
             if token not in mapfile:
-                mapfile[token] = '<oov_' + str(oov_i) +'>'
-                oov_i += 1
+                mapfile[token] = '<oov_' + str(len(mapfile)) +'>'
             new_token = mapfile[token]
             tmp.append(new_token)
         new_trans[utt] = tmp
-- 
2.43.0


From 8d301ec7da977e659d72bd59e0bb928c16c84257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 51/91] fix: views of the parameters of a set can be loaded in
 a new process

---
 beer/dists/basedist.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/beer/dists/basedist.py b/beer/dists/basedist.py
index a8bf933..5136caa 100644
--- a/beer/dists/basedist.py
+++ b/beer/dists/basedist.py
@@ -48,12 +48,14 @@ class ParametersView(torch.nn.Module):
         super().__init__()
         self.ref = ref
         self.idx = idx
-        for name in names:
-            def getter(self, name=name):
-                return getattr(self.ref, name)[self.idx]
-            setattr(self.__class__, name, property(fget=getter))
         self.names = names
 
+    # Called only when the attribute is not found by the usual means.
+    def __getattr__(self, name):
+        if name in self.__dict__.get('names', ()):
+            return getattr(self.ref, name)[self.idx]
+        return super().__getattr__(name)
+
     def __repr__(self):
         paramstr = ', '.join([f'{name}={getattr(self, name)}'
                               for name in self.names])
-- 
2.43.0


From b23900cfd5a6fe073d2a2cde73378f70da1742e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 52/91] fix: the value of a subspace parameter follows the type
 and device of its model

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 1ba6729..43a574b 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -350,7 +350,7 @@ class SubspaceBayesianParameter(ConjugateBayesianParameter):
                  likelihood_fn=None, pdfvec=None):
         super().__init__(prior, posterior, init_stats, likelihood_fn)
         pdfvec = pdfvec if pdfvec is not None else torch.zeros_like(self.stats)
-        self.pdfvec = pdfvec
+        self.register_buffer('pdfvec', pdfvec)
 
     def value(self):
         return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)
-- 
2.43.0


From 392a26f3c0bc87c04e3273c61358f73f3127747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:04 +0000
Subject: [PATCH 53/91] fix: models generated by a subspace keep no computation
 graph (copy, repeated training after loading)

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 43a574b..c25ba12 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -447,7 +447,7 @@ def _update_params(params, pdfvecs):
     for param in params:
         totdim = param.stats.numel()
         shape = param.stats.shape
-        param.pdfvec = pdfvecs[idx: idx + totdim].reshape(shape)
+        param.pdfvec = pdfvecs[idx: idx + totdim].reshape(shape).detach()
         idx += totdim
 
 # Update the models given a set of pdf-vectors.
-- 
2.43.0


From 98370362aa46cb7b658ef29ed0c2317543e9c676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:19 +0000
Subject: [PATCH 54/91] fix: jacobians of outputs that do not depend on one of
 the inputs

---
 beer/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beer/utils.py b/beer/utils.py
index 53421da..a7b3779 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -204,7 +204,10 @@ def jacobians(outputs, inputs):
             input_tensor.grad = None
         autograd.backward(outputs[i], retain_graph=True)
         for j, in_tensor in enumerate(inputs):
-            jac_matrices[j][i, :] = in_tensor.grad.view(-1)
+            # The gradient is not set for the inputs the output does not
+            # depend on.
+            if in_tensor.grad is not None:
+                jac_matrices[j][i, :] = in_tensor.grad.view(-1)
     return jac_matrices
 
 
-- 
2.43.0


From ee05174f331f24d9060ffa5b21259ed19f9e687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:22 +0000
Subject: [PATCH 55/91] fix: logsumexp of a vector

---
 beer/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index a7b3779..27d5a18 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -120,9 +120,7 @@ def logsumexp(tensor, dim=0):
          tmax,
          tmax + (tensor - tmax).exp_().sum(dim=dim, keepdim=True).log_()
          )
-    new_size = list(tensor.size())
-    del new_size[dim]
-    return retval.view(*new_size)
+    return retval.squeeze(dim)
 
 
 def symmetrize_matrix(mat):
-- 
2.43.0


From 7910efce968dc23c3f8b235b98f898dbb185f905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:40 +0000
Subject: [PATCH 56/91] fix: shmm mksphoneloop reads the initial posteriors
 instead of destroying them

---
 beer/cli/subcommands/shmm/mksphoneloop.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index a9b610c..bff0dbf 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -158,8 +158,11 @@ def main(args, logger):
         gsm = beer.GSM.create(tpl, args.latent_dim, latent_prior)
         latent_posts = gsm.new_latent_posteriors(len(units))
         if args.posteriors:
-            with open(args.posteriors, 'wb') as f:
-                init_posts = pickle.load(f)[0]
+            with open(args.posteriors, 'rb') as f:
+                latent_posts = pickle.load(f)[0]
+            if len(latent_posts) != len(units):
+                raise ValueError(f'{len(latent_posts)} posteriors for ' \
+                                 f'{len(units)} units')
         pdfvecs = gsm.expected_pdfvecs(latent_posts)
         gsm.update_models(units, pdfvecs)
     else:
-- 
2.43.0


From 192ea20fe568a7c7510041ddcbd02f63c1ae8fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:49 +0000
Subject: [PATCH 57/91] fix: hshmm init selects the group of units as the other
 commands

---
 beer/cli/subcommands/hshmm/init.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hshmm/init.py b/beer/cli/subcommands/hshmm/init.py
index 15f32d6..4c52a82 100644
--- a/beer/cli/subcommands/hshmm/init.py
+++ b/beer/cli/subcommands/hshmm/init.py
@@ -69,8 +69,9 @@ def main(args, logger):
     logger.debug('loading the units')
     nunits = len(units_dict[lang])
     units_emissions = sploop[lang].modelset.original_modelset.modelsets[groupidx]
-    if len(units_emissions)// nstates < 2:
-        units_emissions = sploop[lang].modelset.original_modelset.modelsets[1 - groupidx]
+    for group in sploop[lang].modelset.original_modelset.modelsets:
+        if len(group) > len(units_emissions):
+            units_emissions = group
     units = [unit for unit in iterate_units(units_emissions, nunits, nstates)]
 
     logger.info(f'initializing the phone loop')
-- 
2.43.0


From a236ddbe568891bf8e30bd813f394cce7f6d70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:48 +0000
Subject: [PATCH 58/91] fix: splitting a list again into another number of
 chunks kept the former chunks

---
 recipes/aud/utils/parallel/split.sh      | 3 +++
 recipes/timit_v2/utils/parallel/split.sh | 3 +++
 recipes/zrc2019/utils/parallel/split.sh  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/recipes/aud/utils/parallel/split.sh b/recipes/aud/utils/parallel/split.sh
index ded7940..a3f981d 100755
--- a/recipes/aud/utils/parallel/split.sh
+++ b/recipes/aud/utils/parallel/split.sh
@@ -13,6 +13,9 @@ n_split=$2
 split_dir=$3
 mkdir -p $split_dir
 
+# Remove the chunks of a former run.
+find $split_dir -maxdepth 1 -name 'x[0-9]*' -delete
+
 
 nsuff=${#n_split}
 cp $list $split_dir/list
diff --git a/recipes/timit_v2/utils/parallel/split.sh b/recipes/timit_v2/utils/parallel/split.sh
index ded7940..a3f981d 100755
--- a/recipes/timit_v2/utils/parallel/split.sh
+++ b/recipes/timit_v2/utils/parallel/split.sh
@@ -13,6 +13,9 @@ n_split=$2
 split_dir=$3
 mkdir -p $split_dir
 
+# Remove the chunks of a former run.
+find $split_dir -maxdepth 1 -name 'x[0-9]*' -delete
+
 
 nsuff=${#n_split}
 cp $list $split_dir/list
diff --git a/recipes/zrc2019/utils/parallel/split.sh b/recipes/zrc2019/utils/parallel/split.sh
index ded7940..a3f981d 100755
--- a/recipes/zrc2019/utils/parallel/split.sh
+++ b/recipes/zrc2019/utils/parallel/split.sh
@@ -13,6 +13,9 @@ n_split=$2
 split_dir=$3
 mkdir -p $split_dir
 
+# Remove the chunks of a former run.
+find $split_dir -maxdepth 1 -name 'x[0-9]*' -delete
+
 
 nsuff=${#n_split}
 cp $list $split_dir/list
-- 
2.43.0


From 12bfe8de8ee83fecad4383c8d3c794b57338560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:03 +0000
Subject: [PATCH 59/91] fix: failed parallel jobs were not reported to the
 training steps

---
 recipes/aud/utils/parallel/submit_parallel.sh      | 3 +++
 recipes/timit_v2/utils/parallel/submit_parallel.sh | 2 +-
 recipes/zrc2019/utils/parallel/submit_parallel.sh  | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/utils/parallel/submit_parallel.sh b/recipes/aud/utils/parallel/submit_parallel.sh
index 4987ea8..3dac00b 100755
--- a/recipes/aud/utils/parallel/submit_parallel.sh
+++ b/recipes/aud/utils/parallel/submit_parallel.sh
@@ -24,6 +24,7 @@ utils/parallel/split.sh $list $njobs $outdir/split
 # Submit the jobs
 utils/parallel/$parallel_env/parallel.sh $name "$opts" $outdir/split "$cmd" \
     $outdir/log 2>&1 > $outdir/log/parallel.log
+status=$?
 
 # Check if something went wrong.
 nerrors=$(cat $outdir/log/* | grep ERROR | wc -l)
@@ -33,3 +34,5 @@ if [ ! "$nwarnings" = "0" ] || [ ! "$nerrors" = "0" ]; then
          "errors (see $outdir/log/*) <!>"
 fi
 
+# Tell the caller if some jobs have failed.
+exit $status
diff --git a/recipes/timit_v2/utils/parallel/submit_parallel.sh b/recipes/timit_v2/utils/parallel/submit_parallel.sh
index 9493598..96e23aa 100755
--- a/recipes/timit_v2/utils/parallel/submit_parallel.sh
+++ b/recipes/timit_v2/utils/parallel/submit_parallel.sh
@@ -23,5 +23,5 @@ utils/parallel/split.sh $list $njobs $outdir/split
 
 # Submit the jobs
 utils/parallel/$parallel_env/parallel.sh $name "$opts" $outdir/split "$cmd" \
-    $outdir/log 2>&1 > $outdir/log/parallel.log
+    $outdir/log 2>&1 > $outdir/log/parallel.log || exit 1
 
diff --git a/recipes/zrc2019/utils/parallel/submit_parallel.sh b/recipes/zrc2019/utils/parallel/submit_parallel.sh
index 9493598..96e23aa 100755
--- a/recipes/zrc2019/utils/parallel/submit_parallel.sh
+++ b/recipes/zrc2019/utils/parallel/submit_parallel.sh
@@ -23,5 +23,5 @@ utils/parallel/split.sh $list $njobs $outdir/split
 
 # Submit the jobs
 utils/parallel/$parallel_env/parallel.sh $name "$opts" $outdir/split "$cmd" \
-    $outdir/log 2>&1 > $outdir/log/parallel.log
+    $outdir/log 2>&1 > $outdir/log/parallel.log || exit 1
 
-- 
2.43.0


From 05780236b74f3a5a8f2eedee74c3c1cd124fb60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 60/91] fix: files left by an interrupted run were used by the
 next one

---
 recipes/aud/steps/align.sh               | 3 +++
 recipes/aud/steps/aud.sh                 | 1 +
 recipes/aud/steps/aud_bigram.sh          | 1 +
 recipes/aud/steps/decode.sh              | 3 +++
 recipes/aud/steps/hsubspace_aud.sh       | 1 +
 recipes/aud/steps/hsubspace_monophone.sh | 1 +
 recipes/aud/steps/monophone.sh           | 1 +
 recipes/aud/steps/subspace_aud.sh        | 1 +
 recipes/aud/steps/subspace_monophone.sh  | 1 +
 9 files changed, 13 insertions(+)

diff --git a/recipes/aud/steps/align.sh b/recipes/aud/steps/align.sh
index eba2d8d..d8edb7c 100755
--- a/recipes/aud/steps/align.sh
+++ b/recipes/aud/steps/align.sh
@@ -60,6 +60,9 @@ mkdir -p $outdir
 if [ ! -f $outdir/trans ]; then
     echo "decoding $dataset dataset..."
 
+    # Remove the transcriptions left by an interrupted run.
+    rm -f $outdir/trans_*
+
     cmd="beer hmm decode --per-frame -a $alis -s $acoustic_scale --utts - \
          $model $dataset >$outdir/trans_JOBID"
     utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index f8a8aff..d4c1cc9 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -109,6 +109,7 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
         echo "epoch: $epoch"
 
         # Accumulate the statistics in parallel.
+        rm -f $outdir/epoch${epoch}/elbo_*.pkl
         cmd="beer -s $seed  hmm accumulate -s $acoustic_scale \
              $outdir/$mdl $dataset \
              $outdir/epoch${epoch}/elbo_JOBID.pkl"
diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index 0f66137..b18530b 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -92,6 +92,7 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
         echo "epoch: $epoch"
 
         # Accumulate the statistics in parallel.
+        rm -f $outdir/epoch${epoch}/elbo_*.pkl
         cmd="beer hmm accumulate -s $acoustic_scale \
              $outdir/$mdl $dataset \
              $outdir/epoch${epoch}/elbo_JOBID.pkl"
diff --git a/recipes/aud/steps/decode.sh b/recipes/aud/steps/decode.sh
index a17f940..d822c43 100755
--- a/recipes/aud/steps/decode.sh
+++ b/recipes/aud/steps/decode.sh
@@ -65,6 +65,9 @@ mkdir -p $outdir
 if [ ! -f $outdir/trans ]; then
     echo "decoding $dataset dataset..."
 
+    # Remove the transcriptions left by an interrupted run.
+    rm -f $outdir/trans_*
+
     cmd="beer hmm decode $per_frame -s $acoustic_scale --utts - \
          $model $dataset >$outdir/trans_JOBID"
     utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/hsubspace_aud.sh b/recipes/aud/steps/hsubspace_aud.sh
index 8467708..6440cf5 100755
--- a/recipes/aud/steps/hsubspace_aud.sh
+++ b/recipes/aud/steps/hsubspace_aud.sh
@@ -185,6 +185,7 @@ if [ ! -f $outdir/final.mdl ]; then
 
         # Accumulate the statistics in parallel.
 	if [ ! -f $outdir/epoch${epoch}/.done.acc ]; then
+            rm -f $outdir/epoch${epoch}/elbo_*.pkl
             cmd="beer hmm accumulate ${alis} $outdir/${mdl}_${language} \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
             utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index af56d49..35f2dbc 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -215,6 +215,7 @@ if [ ! -f $outdir/final.mdl ]; then
 		alis=""
 	    fi
 	    if [ ! -f $outdir/epoch${epoch}/$lang/.done.acc ]; then
+		rm -f $outdir/epoch${epoch}/$lang/elbo_*.pkl
 		cmd="beer hmm accumulate ${alis} $outdir/${mdl}_${lang} \
                     	  ${datasets_arr[$lang]} $outdir/epoch${epoch}/$lang/elbo_JOBID.pkl"
 		utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/monophone.sh b/recipes/aud/steps/monophone.sh
index 320db1b..fde4f84 100755
--- a/recipes/aud/steps/monophone.sh
+++ b/recipes/aud/steps/monophone.sh
@@ -125,6 +125,7 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
         echo "epoch: $epoch"
 
         # Accumulate the statistics in parallel.
+        rm -f $outdir/epoch${epoch}/elbo_*.pkl
         cmd="beer hmm accumulate --alis $outdir/alis.npz $outdir/$mdl \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
         utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/subspace_aud.sh b/recipes/aud/steps/subspace_aud.sh
index ad51a17..8bb12b1 100755
--- a/recipes/aud/steps/subspace_aud.sh
+++ b/recipes/aud/steps/subspace_aud.sh
@@ -151,6 +151,7 @@ if [ ! -f $outdir/final.mdl ]; then
         echo "epoch: $epoch"
 
         # Accumulate the statistics in parallel.
+        rm -f $outdir/epoch${epoch}/elbo_*.pkl
         cmd="beer hmm accumulate ${alis} $outdir/$mdl \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
         utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/subspace_monophone.sh b/recipes/aud/steps/subspace_monophone.sh
index a9bd2ee..973eb5e 100755
--- a/recipes/aud/steps/subspace_monophone.sh
+++ b/recipes/aud/steps/subspace_monophone.sh
@@ -136,6 +136,7 @@ if [ ! -f $outdir/final.mdl ]; then
         echo "epoch: $epoch"
 
         # Accumulate the statistics in parallel.
+        rm -f $outdir/epoch${epoch}/elbo_*.pkl
         cmd="beer hmm accumulate ${alis} $outdir/$mdl \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
         utils/parallel/submit_parallel.sh \
-- 
2.43.0


From e67a8d8c1339ec0b001652bbd061779e595dfad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:16 +0000
Subject: [PATCH 61/91] fix: adding a corpus selected the lines mentioning an
 utterance rather than those of the utterances

---
 recipes/aud/utils/add_corpus.sh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/utils/add_corpus.sh b/recipes/aud/utils/add_corpus.sh
index d3d90ad..225cc9f 100755
--- a/recipes/aud/utils/add_corpus.sh
+++ b/recipes/aud/utils/add_corpus.sh
@@ -33,8 +33,10 @@ outdir=$2
 for x in train dev test; do
     mkdir -p $outdir/$x
     cat $corpus/$x/uttids | shuf | head -n $max_utts >> $outdir/$x/uttids
-    cat $corpus/$x/wav.scp | grep -w -f $outdir/$x/uttids >> $outdir/$x/wav.scp
-    cat $corpus/$x/trans | grep -w -f $outdir/$x/uttids >> $outdir/$x/trans
+    awk 'NR==FNR {keep[$1]; next} $1 in keep' $outdir/$x/uttids \
+        $corpus/$x/wav.scp >> $outdir/$x/wav.scp
+    awk 'NR==FNR {keep[$1]; next} $1 in keep' $outdir/$x/uttids \
+        $corpus/$x/trans >> $outdir/$x/trans
 done
 
 mkdir -p $outdir/lang
-- 
2.43.0


From 05c4d36c8c11852f9a081d78321fca1787d8e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:41 +0000
Subject: [PATCH 62/91] fix: failing updates, archives and single jobs were not
 reported by the recipes

---
 recipes/aud/steps/aud.sh                     | 3 +++
 recipes/aud/steps/aud_bigram.sh              | 3 +++
 recipes/aud/steps/extract_features.sh        | 2 +-
 recipes/aud/steps/extract_mbn_features.sh    | 2 +-
 recipes/aud/steps/hsubspace_aud.sh           | 1 +
 recipes/aud/steps/hsubspace_monophone.sh     | 1 +
 recipes/aud/steps/monophone.sh               | 3 +++
 recipes/aud/steps/subspace_aud.sh            | 3 +++
 recipes/aud/steps/subspace_monophone.sh      | 3 +++
 recipes/timit_v2/utils/parallel/sge/job.qsub | 2 +-
 recipes/zrc2019/steps/extract_features.sh    | 4 ++--
 recipes/zrc2019/utils/parallel/sge/job.qsub  | 2 +-
 12 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index d4c1cc9..1dec2b8 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -2,6 +2,9 @@
 
 . path.sh
 
+# A pipeline fails if one of its commands fails.
+set -o pipefail
+
 acoustic_scale=1.
 seed=1
 prior=gamma_dirichlet_process
diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index b18530b..6143b9f 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -2,6 +2,9 @@
 
 . path.sh
 
+# A pipeline fails if one of its commands fails.
+set -o pipefail
+
 acoustic_scale=1.
 prior=gamma_dirichlet_process
 parallel_env=sge
diff --git a/recipes/aud/steps/extract_features.sh b/recipes/aud/steps/extract_features.sh
index 9f0283f..be8ccb1 100755
--- a/recipes/aud/steps/extract_features.sh
+++ b/recipes/aud/steps/extract_features.sh
@@ -72,7 +72,7 @@ if [ ! -f $feadir/${feaname}.npz ]; then
         $feadir || exit 1
 
     # Put all the features files into a single archive.
-    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz
+    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz || exit 1
 
     # We don't need the original features anymore as they are stored in
     # the archive.
diff --git a/recipes/aud/steps/extract_mbn_features.sh b/recipes/aud/steps/extract_mbn_features.sh
index 5ca3577..2177fc5 100755
--- a/recipes/aud/steps/extract_mbn_features.sh
+++ b/recipes/aud/steps/extract_mbn_features.sh
@@ -66,7 +66,7 @@ if [ ! -f $feadir/${feaname}.npz ]; then
         $feadir || exit 1
 
     # Put all the features files into a single archive.
-    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz
+    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz || exit 1
 
     # We don't need the original features anymore as they are stored in
     # the archive.
diff --git a/recipes/aud/steps/hsubspace_aud.sh b/recipes/aud/steps/hsubspace_aud.sh
index 6440cf5..9481b70 100755
--- a/recipes/aud/steps/hsubspace_aud.sh
+++ b/recipes/aud/steps/hsubspace_aud.sh
@@ -2,6 +2,7 @@
 
 . path.sh
 set -e
+set -o pipefail
 
 echo "$0 $@"
 
diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index 35f2dbc..b19304b 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -2,6 +2,7 @@
 
 . path.sh
 set -e
+set -o pipefail
 
 echo "$0 $@"
 
diff --git a/recipes/aud/steps/monophone.sh b/recipes/aud/steps/monophone.sh
index fde4f84..2bc8f37 100755
--- a/recipes/aud/steps/monophone.sh
+++ b/recipes/aud/steps/monophone.sh
@@ -2,6 +2,9 @@
 
 . path.sh
 
+# A pipeline fails if one of its commands fails.
+set -o pipefail
+
 prior=gamma_dirichlet_process
 parallel_env=sge
 parallel_opts=""
diff --git a/recipes/aud/steps/subspace_aud.sh b/recipes/aud/steps/subspace_aud.sh
index 8bb12b1..0cbcd52 100755
--- a/recipes/aud/steps/subspace_aud.sh
+++ b/recipes/aud/steps/subspace_aud.sh
@@ -4,6 +4,9 @@ set -e
 
 . path.sh
 
+# A pipeline fails if one of its commands fails.
+set -o pipefail
+
 prior=gamma_dirichlet_process
 concentration=50
 
diff --git a/recipes/aud/steps/subspace_monophone.sh b/recipes/aud/steps/subspace_monophone.sh
index 973eb5e..cc7b206 100755
--- a/recipes/aud/steps/subspace_monophone.sh
+++ b/recipes/aud/steps/subspace_monophone.sh
@@ -4,6 +4,9 @@ set -e
 
 . path.sh
 
+# A pipeline fails if one of its commands fails.
+set -o pipefail
+
 gsm_latent_dim=10
 gsm_init_epochs=15000
 gsm_epochs=1000
diff --git a/recipes/timit_v2/utils/parallel/sge/job.qsub b/recipes/timit_v2/utils/parallel/sge/job.qsub
index 9f578b8..2c93117 100644
--- a/recipes/timit_v2/utils/parallel/sge/job.qsub
+++ b/recipes/timit_v2/utils/parallel/sge/job.qsub
@@ -18,7 +18,7 @@ echo "# ${cmd}"
 . path.sh
 
 # Run the command.
-time $cmd
+time $cmd || exit 1
 
 echo "job succeeded on date $(date)"
 
diff --git a/recipes/zrc2019/steps/extract_features.sh b/recipes/zrc2019/steps/extract_features.sh
index 159e9fc..6888398 100755
--- a/recipes/zrc2019/steps/extract_features.sh
+++ b/recipes/zrc2019/steps/extract_features.sh
@@ -24,11 +24,11 @@ if [ ! -f $feadir/${feaname}.npz ]; then
         $feadir/${feaname}_tmp || exit 1
 
     # Put all the features files into a single archive.
-    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz
+    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz || exit 1
 
     # We don't need the original features anymore as they are stored in
     # the archive.
-    rm -fr $feadir/${feanaame}_tmp
+    rm -fr $feadir/${feaname}_tmp
 else
     echo "Features already extracted ($feadir/${feaname}.npz). Skipping."
 fi
diff --git a/recipes/zrc2019/utils/parallel/sge/job.qsub b/recipes/zrc2019/utils/parallel/sge/job.qsub
index 9f578b8..2c93117 100644
--- a/recipes/zrc2019/utils/parallel/sge/job.qsub
+++ b/recipes/zrc2019/utils/parallel/sge/job.qsub
@@ -18,7 +18,7 @@ echo "# ${cmd}"
 . path.sh
 
 # Run the command.
-time $cmd
+time $cmd || exit 1
 
 echo "job succeeded on date $(date)"
 
-- 
2.43.0


From 6969358dd2ba669dd92937a260d7eeacbc4a5edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 63/91] fix: failing jobs of one of the languages were ignored
 by the hierarchical training

---
 recipes/aud/steps/hsubspace_monophone.sh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index b19304b..b5ae76e 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -208,6 +208,7 @@ if [ ! -f $outdir/final.mdl ]; then
 
         # Accumulate the statistics in parallel.
 	[ -f $outdir/${epoch}_sphoneloop_to_lang.txt ] && rm $outdir/${epoch}_sphoneloop_to_lang.txt
+	pids=""
 	for lang in $langs; do
 	    hmmdir_=${hmmdirs_arr[$lang]}
 	    if [ -f ${hmmdir_}/alis.npz ]; then
@@ -227,18 +228,25 @@ if [ ! -f $outdir/final.mdl ]; then
 		    "${datadirs_arr[$lang]}/uttids" \
 		    "$cmd" \
 		    $outdir/epoch${epoch}/$lang && touch $outdir/epoch${epoch}/$lang/.done.acc || exit 1 &
+		pids="$pids $!"
 	    fi
 	done
-	wait
-	
+	for pid in $pids; do
+	    wait $pid || exit 1
+	done
+
+	pids=""
 	for lang in $langs; do
             # Update the model' parameters.
             find $outdir/epoch${epoch}/$lang -name '*pkl' | \
 		beer hmm update -o $outdir/optim_state.pth $outdir/${mdl}_${lang} \
                      $outdir/${lang}_tmp.mdl 2>&1 | tee -a $outdir/training_${lang}.log && \
 		echo "$outdir/${lang}_tmp.mdl $lang" >> $outdir/${epoch}_sphoneloop_to_lang.txt || exit 1 &
+	    pids="$pids $!"
+	done
+	for pid in $pids; do
+	    wait $pid || exit 1
 	done
-	wait
 
         if [ $epoch -eq $epochs ]; then
             train_epochs=$gsm_smoothing_epochs
-- 
2.43.0


From 0f4829d4b91742cb69120f775856d0db34e77a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 64/91] fix: the updates of the languages overwrote the
 optimizer state of each other

---
 recipes/aud/steps/hsubspace_monophone.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index b5ae76e..9788f6b 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -239,7 +239,7 @@ if [ ! -f $outdir/final.mdl ]; then
 	for lang in $langs; do
             # Update the model' parameters.
             find $outdir/epoch${epoch}/$lang -name '*pkl' | \
-		beer hmm update -o $outdir/optim_state.pth $outdir/${mdl}_${lang} \
+		beer hmm update -o $outdir/optim_state_${lang}.pth $outdir/${mdl}_${lang} \
                      $outdir/${lang}_tmp.mdl 2>&1 | tee -a $outdir/training_${lang}.log && \
 		echo "$outdir/${lang}_tmp.mdl $lang" >> $outdir/${epoch}_sphoneloop_to_lang.txt || exit 1 &
 	    pids="$pids $!"
-- 
2.43.0


From 73ea986abfc93b72f080656759281ed129bf734e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:27 +0000
Subject: [PATCH 65/91] fix: score_aud.sh ignored the mapping given by
 --au-mapping

---
 recipes/aud/steps/score_aud.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recipes/aud/steps/score_aud.sh b/recipes/aud/steps/score_aud.sh
index fbdbe95..f735ebb 100755
--- a/recipes/aud/steps/score_aud.sh
+++ b/recipes/aud/steps/score_aud.sh
@@ -36,12 +36,12 @@ outdir=$3
 mkdir -p $outdir
 
 
-if [ ! -f $oudir/au_phone_counts.yml ]; then
+if [ ! -f $outdir/au_phone_counts.yml ] || [ ! -f $outdir/au_phone ]; then
     echo "creating a mapping acoustic unit -> phone"
     python utils/maxoverlap_mapping.py $ref_ali $hyp_ali \
-        --counts $outdir/au_phone_counts.yml $outdir/au_phone
-    au_mapping=$outdir/au_phone
+        --counts $outdir/au_phone_counts.yml $outdir/au_phone || exit 1
 fi
+au_mapping=${au_mapping:-$outdir/au_phone}
 
 if [ ! -f $outdir/eq_per ]; then
    echo "mapping the acoustic unit to phones"
-- 
2.43.0


From 53ad1f4c413b0f1074e1308e1066c90bc4a1b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:27 +0000
Subject: [PATCH 66/91] fix: a failed scoring was taken as done by the next run

---
 recipes/aud/steps/score_aud.sh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/recipes/aud/steps/score_aud.sh b/recipes/aud/steps/score_aud.sh
index f735ebb..6086264 100755
--- a/recipes/aud/steps/score_aud.sh
+++ b/recipes/aud/steps/score_aud.sh
@@ -46,24 +46,27 @@ au_mapping=${au_mapping:-$outdir/au_phone}
 if [ ! -f $outdir/eq_per ]; then
    echo "mapping the acoustic unit to phones"
    python utils/maptrans.py --unk '<unk>' $au_mapping $hyp_ali \
-           > $outdir/au_phone_trans
+           > $outdir/au_phone_trans || exit 1
 
    echo "computing the equivalent Phone Error Rate"
    python utils/ter.py --no-repeat $mapping $ref_ali \
-       $outdir/au_phone_trans > $outdir/eq_per || exit 1
+       $outdir/au_phone_trans > $outdir/eq_per.tmp || exit 1
+   mv $outdir/eq_per.tmp $outdir/eq_per
 fi
 echo "PER: $(tail -n 1 $outdir/eq_per)"
 
 if [ ! -f $outdir/nmi ]; then
     echo "computing the NMI"
-    python utils/nmi.py $outdir/au_phone_counts.yml > $outdir/nmi || exit 1
+    python utils/nmi.py $outdir/au_phone_counts.yml > $outdir/nmi.tmp || exit 1
+    mv $outdir/nmi.tmp $outdir/nmi
 fi
 echo "NMI: $(tail -n 1 $outdir/nmi)"
 
 
 if [ ! -f $outdir/entropy_rate ]; then
     echo "evaluating the entropy rate"
-    python utils/entropy_rate.py $hyp_ali > $outdir/entropy_rate || exit 1
+    python utils/entropy_rate.py $hyp_ali > $outdir/entropy_rate.tmp || exit 1
+    mv $outdir/entropy_rate.tmp $outdir/entropy_rate
 fi
 echo "entropy rate, perplexity: $(tail -n 1 $outdir/entropy_rate)"
 
@@ -71,7 +74,8 @@ echo "entropy rate, perplexity: $(tail -n 1 $outdir/entropy_rate)"
 if [ ! -f $outdir/phone_boundaries ]; then
     echo "evaluating the segmentation"
     python utils/score_boundaries.py $ref_ali $hyp_ali \
-        > $outdir/phone_boundaries || exit 1
+        > $outdir/phone_boundaries.tmp || exit 1
+    mv $outdir/phone_boundaries.tmp $outdir/phone_boundaries
 fi
 echo "recall, precision, fscore: $(tail -n 1 $outdir/phone_boundaries)"
 
-- 
2.43.0


From 344ce799fcd2fa9c7ec83171b53756678257638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:36 +0000
Subject: [PATCH 67/91] fix: the final model of a shorter training was kept
 after an interrupted extension

---
 recipes/aud/steps/aud.sh        | 4 ++++
 recipes/aud/steps/aud_bigram.sh | 4 ++++
 recipes/aud/steps/monophone.sh  | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index 1dec2b8..8aa03e9 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -97,6 +97,10 @@ fi
 
 # Training.
 if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # If the training is extended and interrupted, the final model of the
+    # former training is not the one that was asked for.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index 6143b9f..26e24fc 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -80,6 +80,10 @@ fi
 
 # Training.
 if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # If the training is extended and interrupted, the final model of the
+    # former training is not the one that was asked for.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
diff --git a/recipes/aud/steps/monophone.sh b/recipes/aud/steps/monophone.sh
index 2bc8f37..f4889ca 100755
--- a/recipes/aud/steps/monophone.sh
+++ b/recipes/aud/steps/monophone.sh
@@ -113,6 +113,10 @@ fi
 
 # Training.
 if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # If the training is extended and interrupted, the final model of the
+    # former training is not the one that was asked for.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
-- 
2.43.0


From c4bcbfb3176234bee7c5546fbf2ecd58d1ae2266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:08 +0000
Subject: [PATCH 68/91] fix: probabilities recovered from large log-odds are
 not nan

---
 beer/dists/dirichlet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/beer/dists/dirichlet.py b/beer/dists/dirichlet.py
index 8350099..8c8e55a 100644
--- a/beer/dists/dirichlet.py
+++ b/beer/dists/dirichlet.py
@@ -33,9 +33,8 @@ class CategoricalLikelihood(ConjugateLikelihood):
             pdfvec = pdfvec.view(1, -1)
         retval = torch.zeros_like(pdfvec, requires_grad=False)
         lnorm = CategoricalLikelihood.log_norm(pdfvec[:, :-1])
-        remainder = (-lnorm).exp()
-        retval[:, :-1] = pdfvec[:, :-1].exp() * remainder[:, None]
-        retval[:, -1] = remainder
+        retval[:, :-1] = (pdfvec[:, :-1] - lnorm[:, None]).exp()
+        retval[:, -1] = (-lnorm).exp()
         if len(size) == 1:
             return retval.view(-1)
         return retval.view(-1, self.dim)
-- 
2.43.0


From 0e35d0d828f4564acd1ca8fdba0e9150185645a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 69/91] fix: the statistics of a data set overflowed or were
 rounded in the type of its features

---
 beer/cli/subcommands/dataset/create.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beer/cli/subcommands/dataset/create.py b/beer/cli/subcommands/dataset/create.py
index e1121f7..8846b86 100644
--- a/beer/cli/subcommands/dataset/create.py
+++ b/beer/cli/subcommands/dataset/create.py
@@ -27,9 +27,12 @@ def accumulate(feature_file):
     tot_square_sum = np.zeros(dim)
     tot_counts = 0
     for k in keys:
-        nframes_per_utt = len(feats[k])
-        per_square_sum = (feats[k] ** 2).sum(axis=0)
-        tot_sum += feats[k].sum(axis=0)
+        # Sums and squares overflow (or are rounded) in the type of the
+        # features when it is small.
+        utt_feats = feats[k].astype(np.float64)
+        nframes_per_utt = len(utt_feats)
+        per_square_sum = (utt_feats ** 2).sum(axis=0)
+        tot_sum += utt_feats.sum(axis=0)
         tot_square_sum += per_square_sum
         tot_counts += nframes_per_utt
     mean = tot_sum / tot_counts
-- 
2.43.0


From c975dd59445d296b1dd45140fe505bca53cda96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 70/91] fix: utterances without hypothesis were compared with
 the previous one

---
 recipes/timit_v2/utils/compare-alignments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/timit_v2/utils/compare-alignments.py b/recipes/timit_v2/utils/compare-alignments.py
index c55760b..376691f 100644
--- a/recipes/timit_v2/utils/compare-alignments.py
+++ b/recipes/timit_v2/utils/compare-alignments.py
@@ -57,6 +57,7 @@ def main():
         except KeyError:
             logging.warning(f'{file} is in reference alignments but not ' \
                             'not the hypothesis alignments')
+            continue
 
         logging.debug(f'processing alignments for utterance {file}')
         for ref_state, hyp_state in zip(ref_ali, hyp_ali):
-- 
2.43.0


From 4aa412c1a40b8e411da55614ff3178fff7ded866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 71/91] fix: the central frame could be outside of its token

---
 recipes/timit_v2/utils/features-extract-central-frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/timit_v2/utils/features-extract-central-frame.py b/recipes/timit_v2/utils/features-extract-central-frame.py
index 760a80e..e9a13a3 100644
--- a/recipes/timit_v2/utils/features-extract-central-frame.py
+++ b/recipes/timit_v2/utils/features-extract-central-frame.py
@@ -19,7 +19,7 @@ def get_cf(ali, pdf_mapping):
         if label != previous_lab:
             cf = int(start + .5 * (i - start))
             cfs.append((previous_lab, cf))
-            start = i + 1
+            start = i
             previous_lab = label
     cf = int(start + .5 * (i - start))
     cfs.append((previous_lab, cf))
-- 
2.43.0


From 3fcd4918712d27381ce78b1330de1659672041e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 72/91] fix: the filters of the TIMIT recipe ignored the
 sampling rate

---
 recipes/timit_v2/utils/features-extract-parallel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/timit_v2/utils/features-extract-parallel.py b/recipes/timit_v2/utils/features-extract-parallel.py
index 826b0c5..f38507c 100644
--- a/recipes/timit_v2/utils/features-extract-parallel.py
+++ b/recipes/timit_v2/utils/features-extract-parallel.py
@@ -101,6 +101,7 @@ def main():
         # Filter bank.
         if feaconf['apply_fbank']:
             fbank = beer.features.create_fbank(feaconf['nfilters'], fft_len,
+                                               srate=feaconf['srate'],
                                                lowfreq=feaconf['cutoff_lfreq'],
                                                highfreq=feaconf['cutoff_hfreq'])
             features = features @ fbank.T
-- 
2.43.0


From 781a1548d7bbeaa8de1b8dcd8cd2099c59808143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 73/91] fix: hmm-align.py could not load alignment graphs

---
 recipes/timit_v2/utils/hmm-align.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/timit_v2/utils/hmm-align.py b/recipes/timit_v2/utils/hmm-align.py
index 350da41..a803d2c 100644
--- a/recipes/timit_v2/utils/hmm-align.py
+++ b/recipes/timit_v2/utils/hmm-align.py
@@ -31,7 +31,7 @@ def main():
 
     ali_graphs = None
     if args.ali_graphs:
-        ali_graphs = np.load(args.ali_graphs)
+        ali_graphs = np.load(args.ali_graphs, allow_pickle=True)
 
     with open(args.hmm, 'rb') as fh:
         model = pickle.load(fh)
-- 
2.43.0


From c1b2d758e563f42683aec78f990efb692499a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 74/91] fix: prepare-alignments.py wrote a test file in the
 current directory

---
 recipes/timit_v2/utils/prepare-alignments.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/recipes/timit_v2/utils/prepare-alignments.py b/recipes/timit_v2/utils/prepare-alignments.py
index 10bd4d4..1ab5973 100644
--- a/recipes/timit_v2/utils/prepare-alignments.py
+++ b/recipes/timit_v2/utils/prepare-alignments.py
@@ -63,10 +63,6 @@ def main():
         graph = np.array([graph])
         np.save(path, graph)
 
-    with open('test.pkl', 'wb') as fid:
-        pickle.dump(graph, fid)
-
-
 
 if __name__ == '__main__':
     main()
-- 
2.43.0


From 8e22342478f6f3d2a0a4632f6bb1d92a045db006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:41 +0000
Subject: [PATCH 75/91] fix: the statistics of the TIMIT features overflowed or
 were rounded in the type of the features

---
 recipes/timit_v2/utils/features-stats.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/recipes/timit_v2/utils/features-stats.py b/recipes/timit_v2/utils/features-stats.py
index 94a8718..93dbdea 100644
--- a/recipes/timit_v2/utils/features-stats.py
+++ b/recipes/timit_v2/utils/features-stats.py
@@ -18,9 +18,12 @@ def accumulate(feature_file):
     tot_square_sum = np.zeros(dim)
     tot_counts = 0
     for k in keys:
-        nframes_per_utt = len(feats[k])
-        per_square_sum = (feats[k] ** 2).sum(axis=0)
-        tot_sum += feats[k].sum(axis=0)
+        # Sums and squares overflow (or are rounded) in the type of the
+        # features when it is small.
+        utt_feats = feats[k].astype(np.float64)
+        nframes_per_utt = len(utt_feats)
+        per_square_sum = (utt_feats ** 2).sum(axis=0)
+        tot_sum += utt_feats.sum(axis=0)
         tot_square_sum += per_square_sum
         tot_counts += nframes_per_utt
     mean = tot_sum / tot_counts
-- 
2.43.0


From 1c99faaa4f4e2030746cccbcfbdef8019df1134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:38 +0000
Subject: [PATCH 76/91] fix: the preparation of TIMIT went on without the lists
 of speakers

---
 recipes/aud/local/timit/prepare_data.sh     | 7 +++++++
 recipes/timit_v2/local/timit_data_prep.sh   | 7 +++++++
 recipes/zrc2019/local/timit/prepare_data.sh | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/recipes/aud/local/timit/prepare_data.sh b/recipes/aud/local/timit/prepare_data.sh
index 70f421e..fab90eb 100755
--- a/recipes/aud/local/timit/prepare_data.sh
+++ b/recipes/aud/local/timit/prepare_data.sh
@@ -17,6 +17,13 @@ set -e
 rootdir=/mnt/matylda2/data/TIMIT/timit
 
 
+error_exit() {
+    echo -e "$@" >&2
+    exit 1
+}
+
+PROG=$(basename $0)
+
 if [ $# -ne 1 ]; then
     echo "$0 <out-dir>"
     exit 1;
diff --git a/recipes/timit_v2/local/timit_data_prep.sh b/recipes/timit_v2/local/timit_data_prep.sh
index 362b3ea..c563723 100755
--- a/recipes/timit_v2/local/timit_data_prep.sh
+++ b/recipes/timit_v2/local/timit_data_prep.sh
@@ -8,6 +8,13 @@
 # This is a slightly adapted version of the original Kaldi script.
 #
 
+error_exit() {
+    echo -e "$@" >&2
+    exit 1
+}
+
+PROG=$(basename $0)
+
 if [ $# -ne 3 ]; then
     echo "$0 /path/to/timit langdir confdir"
     exit 1;
diff --git a/recipes/zrc2019/local/timit/prepare_data.sh b/recipes/zrc2019/local/timit/prepare_data.sh
index a1801a0..53f57a6 100755
--- a/recipes/zrc2019/local/timit/prepare_data.sh
+++ b/recipes/zrc2019/local/timit/prepare_data.sh
@@ -9,6 +9,13 @@
 #
 rootdir=/export/corpora5/LDC/LDC93S1/timit/TIMIT
 
+error_exit() {
+    echo -e "$@" >&2
+    exit 1
+}
+
+PROG=$(basename $0)
+
 if [ $# -ne 1 ]; then
     echo "$0 <out-dir>"
     exit 1;
-- 
2.43.0


From e100d7a1dcfc455d018460544606d665c23ce3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:51 +0000
Subject: [PATCH 77/91] fix: errors of the normalisation of the TIMIT
 transcriptions were ignored

---
 recipes/aud/local/timit/prepare_data.sh   | 5 +++--
 recipes/timit_v2/local/timit_data_prep.sh | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/recipes/aud/local/timit/prepare_data.sh b/recipes/aud/local/timit/prepare_data.sh
index fab90eb..c7ebb64 100755
--- a/recipes/aud/local/timit/prepare_data.sh
+++ b/recipes/aud/local/timit/prepare_data.sh
@@ -107,9 +107,10 @@ for x in train dev test; do
          | sort -k1,1 > $dir/${x}.trans
 
     # Do normalization steps.
-    cat $dir/${x}.trans | python $conf/timit-norm-trans.py \
+    python $conf/timit-norm-trans.py \
         --map-60-48  $conf/phones.60-48-39.map \
-        | sort > $dir/${x}.text || exit 1;
+        < $dir/${x}.trans > $tmpdir/${x}.text || exit 1;
+    sort $tmpdir/${x}.text > $dir/${x}.text || exit 1;
 
     # Create wav.scp
     awk '{printf("%s sph2pipe -f wav %s |\n", $1, $2);}' < $dir/${x}_sph.scp \
diff --git a/recipes/timit_v2/local/timit_data_prep.sh b/recipes/timit_v2/local/timit_data_prep.sh
index c563723..174bf0d 100755
--- a/recipes/timit_v2/local/timit_data_prep.sh
+++ b/recipes/timit_v2/local/timit_data_prep.sh
@@ -98,9 +98,10 @@ for x in train dev test; do
          | sort -k1,1 > $dir/${x}.trans
 
     # Do normalization steps.
-    cat $dir/${x}.trans | python $local/timit-norm-trans.py \
+    python $local/timit-norm-trans.py \
         --map-60-48  $conf/phones.60-48-39.map \
-        | sort > $dir/${x}.text || exit 1;
+        < $dir/${x}.trans > $tmpdir/${x}.text || exit 1;
+    sort $tmpdir/${x}.text > $dir/${x}.text || exit 1;
 
     # Create wav.scp
     awk '{printf("%s sph2pipe -f wav %s |\n", $1, $2);}' < $dir/${x}_sph.scp \
-- 
2.43.0


From 9024670a7a498499a825f20ef47a65059aba1523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:03 +0000
Subject: [PATCH 78/91] fix: preparing a language of google_lr again skipped
 the other languages

---
 recipes/aud/local/google_lr/prepare_data.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/aud/local/google_lr/prepare_data.sh b/recipes/aud/local/google_lr/prepare_data.sh
index 1e4c3c3..9141894 100755
--- a/recipes/aud/local/google_lr/prepare_data.sh
+++ b/recipes/aud/local/google_lr/prepare_data.sh
@@ -16,7 +16,7 @@ for language in $languages; do
     cmddir=$(dirname $0)
     for subset in train; do
 	datadir=$outdir/$language
-	[ -f $outdir/$language/$subset/uttids ] && exit 0
+	[ -f $outdir/$language/$subset/uttids ] && continue
 	echo $outdir/$language/$subset/uttids
        	mkdir -p $outdir/$language/$subset
 	find -L $rootdir/$language -name "*.wav" | \
-- 
2.43.0


From bed7082448173783fd73098918528c1f1a725bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:03 +0000
Subject: [PATCH 79/91] fix: the preparation of google_lr failed without
 (optional) alignment

---
 recipes/aud/local/google_lr/prepare_data.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recipes/aud/local/google_lr/prepare_data.sh b/recipes/aud/local/google_lr/prepare_data.sh
index 9141894..37f4085 100755
--- a/recipes/aud/local/google_lr/prepare_data.sh
+++ b/recipes/aud/local/google_lr/prepare_data.sh
@@ -42,5 +42,7 @@ for language in $languages; do
 	tr ' ' '\n' | \
 	sort -u | grep -v sil | \
 	awk '{print $0, "speech-unit"}' >> $outdir/$language/lang/units
-    [ -f $cmddir/ali ] && cp $cmddir/ali $outdir/$language/train/
+    if [ -f $cmddir/ali ]; then
+	cp $cmddir/ali $outdir/$language/train/
+    fi
 done
-- 
2.43.0


From 53ed105f0ee382cb23f77ea0b3bee014563a1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:03 +0000
Subject: [PATCH 80/91] fix: the audio was not found below a directory with a
 dot in its name

---
 recipes/aud/local/alffa/prepare_data.sh     | 2 +-
 recipes/aud/local/google_lr/prepare_data.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/local/alffa/prepare_data.sh b/recipes/aud/local/alffa/prepare_data.sh
index 9e4c046..e1fe7fa 100644
--- a/recipes/aud/local/alffa/prepare_data.sh
+++ b/recipes/aud/local/alffa/prepare_data.sh
@@ -24,7 +24,7 @@ for language in $languages; do
 	[ -f $outdir/$language/$subset/uttids ] && continue
        	mkdir -p $outdir/$language/$subset
 	find $datadir/data/$subset/ -name "*.wav" | \
-	    awk -F . '{split($1, a, "/"); print a[length(a)], $0}' \
+	    awk '{n = split($0, a, "/"); sub(/\.wav$/, "", a[n]); print a[n], $0}' \
 		> $datadir/data/$subset/all_wavs.txt
 	python3 $cmddir/prepare_transcripts.py \
 		--lang $language \
diff --git a/recipes/aud/local/google_lr/prepare_data.sh b/recipes/aud/local/google_lr/prepare_data.sh
index 37f4085..ce6cd74 100755
--- a/recipes/aud/local/google_lr/prepare_data.sh
+++ b/recipes/aud/local/google_lr/prepare_data.sh
@@ -20,7 +20,7 @@ for language in $languages; do
 	echo $outdir/$language/$subset/uttids
        	mkdir -p $outdir/$language/$subset
 	find -L $rootdir/$language -name "*.wav" | \
-	    awk -F . '{split($1, a, "/"); print a[length(a)], $0}' \
+	    awk '{n = split($0, a, "/"); sub(/\.wav$/, "", a[n]); print a[n], $0}' \
 		> $datadir/$subset/all_wavs.txt
 	cat $rootdir/$language/*/line_index.tsv > $datadir/$subset/all_trans.txt
 
-- 
2.43.0


From 5ece23986bd279e5ef185bf49ca3197bc4b95491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:16 +0000
Subject: [PATCH 81/91] fix: a failed download of the Mboshi data was taken as
 an empty corpus

---
 recipes/aud/local/mboshi/prepare_data.sh     | 2 +-
 recipes/zrc2019/local/mboshi/prepare_data.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/local/mboshi/prepare_data.sh b/recipes/aud/local/mboshi/prepare_data.sh
index 3c45c59..a8e8b16 100755
--- a/recipes/aud/local/mboshi/prepare_data.sh
+++ b/recipes/aud/local/mboshi/prepare_data.sh
@@ -16,7 +16,7 @@ cwd=$(dirname $0)
 # Download the data.
 if [ ! -d $datadir/local/mboshi ]; then
     echo "Downloading the MBOSHI database..."
-    git clone $url $datadir/local/mboshi
+    git clone $url $datadir/local/mboshi || exit 1
 else
     echo "Data already downloaded. Skipping."
 fi
diff --git a/recipes/zrc2019/local/mboshi/prepare_data.sh b/recipes/zrc2019/local/mboshi/prepare_data.sh
index 4889107..fc10c55 100755
--- a/recipes/zrc2019/local/mboshi/prepare_data.sh
+++ b/recipes/zrc2019/local/mboshi/prepare_data.sh
@@ -16,7 +16,7 @@ datadir=$1
 # Download the data.
 if [ ! -d $datadir/local/mboshi ]; then
     echo "Downloading the MBOSHI database..."
-    git clone $url $datadir/local/mboshi
+    git clone $url $datadir/local/mboshi || exit 1
 else
     echo "Data already downloaded. Skipping."
 fi
-- 
2.43.0


From 6d8a4a6292a0452d225d7a2d5f3d4792a06152af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:16 +0000
Subject: [PATCH 82/91] fix: the preparation of the Mboshi data failed without
 alignment and mixed utterances up in it

---
 recipes/aud/local/mboshi/prepare_data.sh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/recipes/aud/local/mboshi/prepare_data.sh b/recipes/aud/local/mboshi/prepare_data.sh
index a8e8b16..54c4f61 100755
--- a/recipes/aud/local/mboshi/prepare_data.sh
+++ b/recipes/aud/local/mboshi/prepare_data.sh
@@ -46,10 +46,11 @@ for x in train dev; do
         find $datadir/local/mboshi/full_corpus_newsplit/${x}.fixed -name '*wav' \
             -exec bash -c 'scp_line "$0"' {} {} \; \
             | sort | uniq > $datadir/$x/wav.scp
+        if [ -f $cwd/mboshi.ali ]; then
+            awk 'NR==FNR {keep[$1]; next} $1 in keep' \
+                $datadir/$x/wav.scp $cwd/mboshi.ali > $datadir/$x/ali
+        fi
         cat $datadir/$x/wav.scp | awk '{print $1}' >$datadir/$x/uttids
-
-        cat $cwd/mboshi.ali | grep -w -f $datadir/$x/uttids \
-            > $datadir/$x/ali
     else
         echo "Dataset \"${x}\" already prepared. Skipping."
     fi
-- 
2.43.0


From 597a489acefae7b666c5404df531330e44b3a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 83/91] fix: the preparation of ALFFA was not executable

---
 recipes/aud/local/alffa/prepare_data.sh | 0
 1 file changed, 0 insertions(+), 0 deletions(-)
 mode change 100644 => 100755 recipes/aud/local/alffa/prepare_data.sh

diff --git a/recipes/aud/local/alffa/prepare_data.sh b/recipes/aud/local/alffa/prepare_data.sh
old mode 100644
new mode 100755
-- 
2.43.0


From 024ae293f14b2efa88b9c6d386319faf44b55eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 84/91] fix: the archive of ZRC 2019 could not be extracted,
 which was taken as an empty corpus

---
 recipes/aud/local/zrc2019/prepare_data.sh     | 2 +-
 recipes/zrc2019/local/zrc2019/prepare_data.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/local/zrc2019/prepare_data.sh b/recipes/aud/local/zrc2019/prepare_data.sh
index 4687c64..aef3686 100755
--- a/recipes/aud/local/zrc2019/prepare_data.sh
+++ b/recipes/aud/local/zrc2019/prepare_data.sh
@@ -17,7 +17,7 @@ datadir=$1
 if [ ! -f $datadir/local/.done ]; then
     echo "Extracting data..."
     mkdir -p $datadir/local/
-    tar -xvzf $datapath -C $datadir/local
+    tar -xvf $datapath -C $datadir/local || exit 1
     date > $datadir/local/.done
 else
     echo "Data already extracted. Skipping."
diff --git a/recipes/zrc2019/local/zrc2019/prepare_data.sh b/recipes/zrc2019/local/zrc2019/prepare_data.sh
index 4687c64..aef3686 100755
--- a/recipes/zrc2019/local/zrc2019/prepare_data.sh
+++ b/recipes/zrc2019/local/zrc2019/prepare_data.sh
@@ -17,7 +17,7 @@ datadir=$1
 if [ ! -f $datadir/local/.done ]; then
     echo "Extracting data..."
     mkdir -p $datadir/local/
-    tar -xvzf $datapath -C $datadir/local
+    tar -xvf $datapath -C $datadir/local || exit 1
     date > $datadir/local/.done
 else
     echo "Data already extracted. Skipping."
-- 
2.43.0


From 9949c81e0c448eda47ae3a22488ecaeed97190b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 85/91] fix: the audio of ZRC 2019 was listed in a file unknown
 to the recipe

---
 recipes/aud/local/zrc2019/prepare_data.sh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recipes/aud/local/zrc2019/prepare_data.sh b/recipes/aud/local/zrc2019/prepare_data.sh
index aef3686..6e8bdbf 100755
--- a/recipes/aud/local/zrc2019/prepare_data.sh
+++ b/recipes/aud/local/zrc2019/prepare_data.sh
@@ -35,13 +35,13 @@ export -f scp_line
 
 
 if [ ! -f $datadir/train/uttids ]; then
-    echo "creating wavs.scp file..."
+    echo "creating wav.scp file..."
     find $datadir/local/samples -name '*wav' \
         -exec bash -c 'scp_line "$0"' {} {} \; \
-        | sort | uniq > $datadir/train/wavs.scp
+        | sort | uniq > $datadir/train/wav.scp
 
     echo "creating uttids file..."
-    cat $datadir/train/wavs.scp | awk '{print $1}' >$datadir/train/uttids
+    cat $datadir/train/wav.scp | awk '{print $1}' >$datadir/train/uttids
 else
     echo "training data already prepared. Skipping."
 fi
-- 
2.43.0


From 55d0b8b963acc02a1ff3ef84c61ba935fdc32443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 86/91] fix: once a language of GlobalPhone was prepared the
 others were skipped

---
 recipes/aud/local/globalphone/prepare_data.sh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/recipes/aud/local/globalphone/prepare_data.sh b/recipes/aud/local/globalphone/prepare_data.sh
index c6a7dd0..9cca868 100755
--- a/recipes/aud/local/globalphone/prepare_data.sh
+++ b/recipes/aud/local/globalphone/prepare_data.sh
@@ -12,7 +12,13 @@ outdir=$1
 languages=$2
 mkdir -p $outdir
 
-if [ -f $outdir/.done ]; then
+todo=""
+for lang in $languages; do
+    [ -f $outdir/$lang/.done ] || todo="$todo $lang"
+done
+languages=$(echo $todo)
+
+if [ -z "$languages" ]; then
     echo "data already prepared"
     exit 0
 fi
@@ -86,9 +92,10 @@ for lang in $languages; do
 
     # Rename "eval" to "test" for consistency with other corpora.
     if [ -d $outdir/$lang/eval ]; then
+        rm -fr $outdir/$lang/test
         mv -f $outdir/$lang/eval $outdir/$lang/test
     fi
-done
 
-date > $outdir/.done
+    date > $outdir/$lang/.done
+done
 
-- 
2.43.0


From e27d74db490a42ac01ffd8ca8645ddf2b75004f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 87/91] fix: preparing GlobalPhone again listed the utterances
 several times

---
 recipes/aud/local/globalphone/gp_convert_audio.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/aud/local/globalphone/gp_convert_audio.sh b/recipes/aud/local/globalphone/gp_convert_audio.sh
index 5413d16..ecc89f6 100755
--- a/recipes/aud/local/globalphone/gp_convert_audio.sh
+++ b/recipes/aud/local/globalphone/gp_convert_audio.sh
@@ -57,6 +57,8 @@ do
   esac
 done
 OLIST=${OLIST:-/dev/null}  # Default for output list
+# Forget the files listed by a former run.
+[ "$OLIST" = /dev/null ] || rm -f "$OLIST"
 
 # Checking for shorten and sox. Since 'errexit' option is set, the script will
 # terminate if shorten and sox are not found.
-- 
2.43.0


From a4ecbf835eaf9714089c724849003ef3bb4891c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:56 +0000
Subject: [PATCH 88/91] fix: the first label of an utterance named as it was
 lost by ali2trans.py

---
 recipes/aud/utils/ali2trans.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/recipes/aud/utils/ali2trans.py b/recipes/aud/utils/ali2trans.py
index a03045e..3f858d1 100644
--- a/recipes/aud/utils/ali2trans.py
+++ b/recipes/aud/utils/ali2trans.py
@@ -12,7 +12,9 @@ def run():
 
     with open(args.ali, 'r') as f:
         for line in f:
-            seq = [x[0] for x in groupby(line.strip().split())]
+            tokens = line.strip().split()
+            # The utterance id. is not a label.
+            seq = tokens[:1] + [x[0] for x in groupby(tokens[1:])]
             print(' '.join(seq), file=sys.stdout)
 
 
-- 
2.43.0


From 8431823d2b86be50234c6cb2ee230bd532d786e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:35 +0000
Subject: [PATCH 89/91] fix: a part of a part of a set of subspace models is
 taken from the whole set

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index c25ba12..a7f0852 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -403,7 +403,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.param.kl_div_posterior_prior()
 
     def __getitem__(self, key):
-        return SubspaceBayesianParameterView(key, self.param)
+        return SubspaceBayesianParameterView(key, self)
 
 
 ########################################################################
-- 
2.43.0


From 0efd1d1823fd680855bc8f412273d97b1dc91408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:55 +0000
Subject: [PATCH 90/91] fix: the mean of several Normals of fixed covariance
 was read from the first vectors

---
 beer/dists/normaldiag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 370fee1..1e57bda 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -29,7 +29,7 @@ class NormalFixedDiagonalCovarianceLikelihood(ConjugateLikelihood):
         ], dim=-1)
 
     def parameters_from_pdfvector(self, pdfvec):
-        return pdfvec[:self.dim]
+        return pdfvec[..., :self.dim]
 
     def pdfvectors_from_rvectors(self, rvecs):
         return torch.cat([rvecs, rvecs**2], dim=-1)
-- 
2.43.0


From 632fe1cc326adb47c45ae64c021d3851da0b66a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:40 +0000
Subject: [PATCH 91/91] fix: German quotation marks and hyphens at the ends of
 an utterance were kept

---
 recipes/aud/local/globalphone/gp_norm_trans_GE.pl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/recipes/aud/local/globalphone/gp_norm_trans_GE.pl b/recipes/aud/local/globalphone/gp_norm_trans_GE.pl
index 85a544e..374080c 100755
--- a/recipes/aud/local/globalphone/gp_norm_trans_GE.pl
+++ b/recipes/aud/local/globalphone/gp_norm_trans_GE.pl
@@ -54,9 +54,9 @@ while (<T>) {
   my $trans = $2;
 
   $trans =~ s/^\s*//; $trans =~ s/\s*$//;  # Normalize spaces
-  $trans =~ s/ \,(.*?)\'/ $1/g;  # Remove quotation marks.
-  $trans =~ s/ \-/ /g;  # conjoined noun markers, don't need them.
-  $trans =~ s/\- / /g;  # conjoined noun markers, don't need them.
+  $trans =~ s/(^| )\,(.*?)\'/$1$2/g;  # Remove quotation marks.
+  $trans =~ s/(^| )\-/$1/g;  # conjoined noun markers, don't need them.
+  $trans =~ s/\-( |$)/$1/g;  # conjoined noun markers, don't need them.
   $trans = &rmn2utf8_GE($trans) unless (defined($keep_rmn));
 
   print $utt_id;
-- 
2.43.0

