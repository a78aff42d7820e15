"""C17: subspace models."""
import copy
import math

import numpy as np
import torch
from hypothesis import strategies as st

from vf import dens, mods
from vf.core import facet
from props import c04

RULE = ('A case is a template model (Normal, Normal set, mixture, set of mixtures; all or part of its parameters in '
        'the subspace), covariance types, latent dimensions, numbers of samples and random parameters.  Non-trivial: '
        'at least two models or two samples.')
ASSUMPTIONS = ['the samples drawn from the posteriors handed to the model are recorded (on the density object) and '
               'the reference is computed from them with numpy', 'float64']

KINDS = ['normal', 'normalset', 'mixture', 'mixtureset', 'partial']
COVS = ['isotropic', 'diagonal', 'full']


# -- densities recording their samples --------------------------------------

def wrap(dist):
    'Records the samples drawn from this density.'
    if 'drawn' not in dist.__dict__:
        cls = type(dist)

        def sample(nsamples):
            s = cls.sample(dist, nsamples)
            dist.__dict__['drawn'].append(s.detach().clone())
            return s
        dist.__dict__['sample'] = sample
        dist.__dict__['drawn'] = []
    dist.drawn.clear()
    return dist


def last(ctx, dist, what):
    'The samples of the single draw made since the last call.'
    d, dist.drawn[:] = list(dist.drawn), []
    if len(d) != 1:
        ctx.fail(f'{len(d)} draws from {what}, the value cannot be an average over one set of samples')
    return d[0].numpy()


# -- reference parameter map --------------------------------------------------

def layout(model):
    '[(covariance type or categorical, dimension, number of pdfs)] of the subspace parameters, in order.'
    out = []
    for p in model.bayesian_parameters():
        if not type(p).__name__.startswith('SubspaceBayesianParameter'):
            continue
        lf = p.likelihood_fn
        kind = {'IsotropicNormalLikelihood': 'isotropic', 'NormalDiagonalLikelihood': 'diagonal',
                'NormalLikelihood': 'full', 'CategoricalLikelihood': 'categorical'}[type(lf).__name__]
        out.append((p, kind, lf.dim, len(p)))
    return out


def pdfvec(kind, dim, r):
    p = c04.rvec_params(kind, dim, r)
    if kind == 'categorical':
        z = np.concatenate([r, [0.]])
        return np.concatenate([r, [-mods.logsumexp(z, 0)]])
    m, P = p
    if kind == 'isotropic':
        return np.concatenate([P * m, P, P * (m @ m), np.log(P)])
    if kind == 'diagonal':
        return np.concatenate([P * m, P, [np.sum(P * m ** 2), np.sum(np.log(P))]])
    return np.concatenate([P @ m, P.ravel(), [m @ P @ m, np.linalg.slogdet(P)[1]]])


def svec(lay, rvec):
    'Concatenated pdf vectors of a model from its real vector.'
    out, i = [], 0
    for _, kind, dim, n in lay:
        k = c04.rdim(kind, dim)
        for _ in range(n):
            out.append(pdfvec(kind, dim, rvec[i:i + k]))
            i += k
    assert i == len(rvec)
    return np.concatenate(out)


def sdim(lay):
    return sum(c04.rdim(kind, dim) * n for _, kind, dim, n in lay)


def template(kind, cov, dim, k, prior, rng):
    import beer
    if kind == 'normal':
        m = mods.normal_model(cov, dim, rng)
    elif kind == 'normalset':
        m = mods.normal_set(cov, dim, k, rng)
    elif kind in ('mixture', 'partial'):
        m = beer.Mixture(mods.random_categorical(k, rng), mods.normal_set(cov, dim, k, rng))
    else:
        m = beer.MixtureSet(mods.random_categorical_set(2, k, rng), mods.normal_set(cov, dim, 2 * k, rng))
    pars = list(m.bayesian_parameters())
    if kind == 'partial':
        pars = [p for p in pars if mods.family_of(p.prior) != 'dirichlet']
    m.replace_parameters({p: beer.SubspaceBayesianParameter.from_parameter(p, prior) for p in pars})
    return m


def set_affine(rng, t, scale=.4):
    'Random parameters for the posteriors (and priors) of a transform; posteriors record their samples.'
    for p in ([t.weights, t.bias] if hasattr(t, 'bias') else [t.weights]):
        for d in (p.prior, p.posterior):
            n = d.params.mean.shape[-1]
            d.params.mean.data = mods.t64(rng.normal(size=n) * scale)
            d.params.log_diag_cov.data = mods.t64(rng.uniform(-4, 0, size=n))
        p.posterior = wrap(p.posterior)


def set_latent(rng, dist, scale=.7):
    p = dist.params
    p.mean.data = mods.t64(rng.normal(size=tuple(p.mean.shape)) * scale)
    for name in ('log_diag_cov', 'log_diag_L'):
        if hasattr(p, name):
            v = getattr(p, name)
            v.data = mods.t64(rng.uniform(-3, 0, size=tuple(v.shape)))
    if hasattr(p, 'L_offdiag'):
        p.L_offdiag.data = mods.t64(rng.normal(size=tuple(p.L_offdiag.shape)) * .3)


def latent_cov(dist):
    'Covariance matrices documented for the parameters of the latent posteriors.'
    p = dist.params
    if hasattr(p, 'log_diag_cov'):
        v = 1e-4 + np.exp(p.log_diag_cov.detach().numpy())
        return np.stack([np.diag(a) for a in np.atleast_2d(v)])
    ld, off = (np.atleast_2d(a.detach().numpy()) for a in (p.log_diag_L, p.L_offdiag))
    n, d = ld.shape
    L = np.zeros((n, d, d))
    L[:, np.arange(d), np.arange(d)] = 1e-3 + np.exp(ld)
    i, j = np.tril_indices(d, -1)
    if len(i):
        L[:, i, j] = off
    return L @ L.transpose(0, 2, 1)


def logq(dist, h):
    'Log-density of samples h [n, s, d] under the densities of the set.'
    means = np.atleast_2d(dist.params.mean.detach().numpy())
    out = []
    for m, C, x in zip(means, latent_cov(dist), h):
        dx = x - m
        out.append(-.5 * np.einsum('si,ij,sj->s', dx, np.linalg.inv(C), dx)
                   - .5 * np.linalg.slogdet(C)[1] - .5 * len(m) * math.log(2 * math.pi))
    return np.stack(out)


def logp(prior, h):
    'Expected log-density of samples [n, s, d] under a conjugate Normal model.'
    n, s, d = h.shape
    par = prior.mean_precision
    fam = mods.family_of(par.posterior)
    p, = mods.std_of(par.posterior)
    return mods.expected_llh(fam, p, h.reshape(-1, d)).reshape(n, s)


def kl_affine(t):
    out = 0.
    for p in ([t.weights, t.bias] if hasattr(t, 'bias') else [t.weights]):
        a, b = ({'mean': d.params.mean.detach().numpy(),
                 'diag_cov': 1e-4 + np.exp(d.params.log_diag_cov.detach().numpy())} for d in (p.posterior, p.prior))
        out += dens.kl('normaldiag', a, b)
    return out


def kl_model(m):
    return sum(mods.kl_of(p.posterior, p.prior) for p in mods.conj_params(m))


def affine_ref(ctx, t, h, what='the transform'):
    '[n, s, d] latent samples -> [n, s * k, out] real vectors (k samples of the transform).'
    W = last(ctx, t.weights.posterior, f'the weights of {what}')
    W = W.reshape(len(W), t.in_dim, t.out_dim)
    b = last(ctx, t.bias.posterior, f'the bias of {what}') if hasattr(t, 'bias') else np.zeros((len(W), t.out_dim))
    r = np.einsum('nsi,kio->nsko', h, W) + b[None, None]
    return r.reshape(len(h), -1, t.out_dim)


def linked(gsm):
    'The recording posteriors must be those used by the transform.'
    return gsm.transform


def check_models(ctx, models, ref, lay, x, msg):
    'Values and likelihoods of the generated models against the reference pdf vectors.'
    for i, (m, v) in enumerate(zip(models, ref)):
        j = 0
        vecs = {}
        for (p, kind, dim, n), (_, *_r) in zip(layout(m), lay):
            q = len(pdfvec(kind, dim, np.zeros(c04.rdim(kind, dim))))
            vv = v[j:j + q * n].reshape(n, q)
            j += q * n
            got = p.natural_form().detach().numpy().reshape(n, q)
            sc = 1 + np.abs(vv).max()
            ctx.allclose(got, vv, f'{msg}: parameters of the model {i}', rtol=1e-8, scale=sc)
            val = p.value()
            val = val if isinstance(val, tuple) else (val,)
            if kind == 'categorical':
                want = (np.exp(vv + np.concatenate([np.tile(vv[:, -1:], (1, dim - 1)), np.zeros((n, 1))], 1)),)
                if not np.allclose(want[0].sum(1), 1, rtol=0, atol=1e-12):
                    want = None                      # average of several samples: value not a plain map
            else:
                d = dim
                P = vv[:, d:d + d * d].reshape(n, d, d) if kind == 'full' else vv[:, d:-2]
                if kind == 'full':
                    mean = np.stack([np.linalg.solve(a, b) for a, b in zip(P, vv[:, :d])])
                else:
                    mean = vv[:, :d] / P
                want = (mean, P)
            if want is not None:
                for a, b in zip(val, want):
                    a = a.detach().numpy()
                    ctx.allclose(a.reshape(b.shape), b, f'{msg}: value of the parameters of the model {i}',
                                 rtol=1e-6, scale=1 + np.abs(b).max())
            vecs[kind] = vv
        # Likelihood.
        cov = [k for k in vecs if k != 'categorical'][0]
        fam = mods.COV[cov]
        llh = mods.T(fam, x) @ vecs[cov].T - .5 * x.shape[1] * math.log(2 * math.pi)
        if hasattr(m, 'categorical') or hasattr(m, 'categoricalset'):
            if 'categorical' in vecs:
                lw = vecs['categorical']
                lw = lw[:, -1:] + np.concatenate([lw[:, :-1], np.zeros((len(lw), 1))], 1)
            else:
                par = m.categorical.weights
                pp = mods.std_of(par.posterior)
                from props import c08
                lw = np.stack([c08.elog_weights(a) for a in pp])
            llh = mods.logsumexp(llh.reshape(len(x), len(lw), -1) + lw[None], 2)
        got = m.expected_log_likelihood(m.sufficient_statistics(mods.t64(x)))
        got = got.detach().numpy().reshape(len(x), -1)
        ctx.allclose(got, llh, f'{msg}: log-likelihood of the model {i}', rtol=1e-7, scale=1 + np.abs(llh).max())


base = {
    'kind': st.sampled_from(KINDS), 'cov': st.sampled_from(COVS), 'dim': st.integers(1, 2), 'k': mods.sizes(2, 3, (4, 20), 20),
    'latent': st.integers(1, 3), 'lcov': st.sampled_from(['diagonal', 'full']), 'n': mods.sizes(1, 3, (4, 70), 20),
    'ls': st.integers(1, 3), 'ps': st.integers(1, 3), 'seed': st.integers(0, 10 ** 6),
    'pcov': st.sampled_from(COVS)}


def make_gsm(spec, rng):
    import beer
    prior = mods.normal_model(spec['pcov'], spec['latent'], rng)
    tpl = template(spec['kind'], spec['cov'], spec['dim'], spec['k'], prior, rng)
    gsm = beer.GSM.create(tpl, spec['latent'], prior, prior_strength=float(rng.uniform(.5, 2))).double()
    return gsm, prior, tpl


def give_stats(ctx, models, spec, rng):
    'Statistics of random data stored in each model; returned as one vector per model.'
    out = []
    for m in models:
        vec = []
        for p, kind, dim, n in layout(m):
            if kind == 'categorical':
                s = np.stack([mods.T('dirichlet', rng.gamma(1., size=(3, dim))).sum(0) for _ in range(n)])
            else:
                s = np.stack([mods.T(mods.COV[kind], rng.normal(size=(4, dim))).sum(0) for _ in range(n)])
            p.stats = mods.t64(s.reshape(tuple(p.stats.shape)))
            vec.append(s.ravel())
        out.append(np.concatenate(vec))
    return np.stack(out)


def seen(spec, ctx):
    for k in ('kind', 'cov', 'lcov'):
        ctx.label(f'{k} {spec[k]}')
    ctx.nontrivial(spec['n'] > 1 or spec['ls'] * spec['ps'] > 1)


@facet(st.fixed_dictionaries(base), quick=700)
def generated_models(spec, ctx):
    'Parameters and likelihoods of the models generated by the subspace.'
    rng = np.random.default_rng(spec['seed'])
    torch.manual_seed(spec['seed'])
    seen(spec, ctx)
    gsm, prior, tpl = make_gsm(spec, rng)
    lay = layout(tpl)
    ctx.equal((gsm.transform.in_dim, gsm.transform.out_dim), (spec['latent'], sdim(lay)), 'size of the transform')
    # Created prior and posterior of the transform.
    t = gsm.transform
    set_affine(rng, t)
    models, posts = gsm.new_models(spec['n'], spec['lcov'], latent_nsamples=spec['ls'], params_nsamples=spec['ps'])
    ctx.equal((len(models), len(posts)), (spec['n'], spec['n']), 'number of models and posteriors')
    ctx.ensure((posts.params.mean == 0).all(), 'latent posteriors are not centred at creation')
    x = rng.normal(size=(4, spec['dim']))
    for m in models:
        for p, *_ in layout(m):
            ctx.ensure(p.posterior is posts, 'models do not share the latent posteriors')
            ctx.ensure(float(p.kl_div_posterior_prior()) == 0, 'divergence counted twice')
    for q in (t.weights.posterior, t.bias.posterior):
        q.drawn.clear()
    set_latent(rng, posts)
    rec = wrap(posts)
    # Explicit computation, then update of the models.
    pv = gsm.expected_pdfvecs(rec, latent_nsamples=spec['ls'], params_nsamples=spec['ps'])
    h = last(ctx, rec, 'the latent posteriors')
    ctx.equal(h.shape, (spec['n'], spec['ls'], spec['latent']), 'shape of the latent samples')
    r = affine_ref(ctx, t, h)
    ref = np.stack([np.mean([svec(lay, v) for v in vs], 0) for vs in r])
    ctx.equal(r.shape[1], spec['ls'] * spec['ps'], 'number of samples')
    ctx.allclose(pv, ref, 'expected parameters', rtol=1e-8, scale=1 + np.abs(ref).max())
    gsm.update_models(models, pv.detach())
    check_models(ctx, models, ref, lay, x, 'updated models')
    # Reproducible with the random state.
    torch.manual_seed(spec['seed'] + 1)
    a = gsm.expected_pdfvecs(posts, spec['ls'], spec['ps'])
    torch.manual_seed(spec['seed'] + 1)
    b = gsm.expected_pdfvecs(posts, spec['ls'], spec['ps'])
    ctx.ensure(torch.equal(a, b), 'samples are not reproducible with the random state')


@facet(st.fixed_dictionaries({**base, 'update': st.booleans()}), quick=900)
def bound(spec, ctx):
    'The bound of a subspace model from its terms, its statistics and the update of the models.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    torch.manual_seed(spec['seed'])
    seen(spec, ctx)
    gsm, prior, tpl = make_gsm(spec, rng)
    lay = layout(tpl)
    models, posts = gsm.new_models(spec['n'], spec['lcov'])
    set_affine(rng, gsm.transform)
    set_latent(rng, posts)
    rec = wrap(posts)
    stats = give_stats(ctx, models, spec, rng)
    before = [[p.natural_form().detach().clone() for p, *_ in layout(m)] for m in models]
    elbo = beer.evidence_lower_bound(gsm, models, latent_posts=rec, latent_nsamples=spec['ls'],
                                     params_nsamples=spec['ps'], update_models=spec['update'])
    h = last(ctx, rec, 'the latent posteriors')
    r = affine_ref(ctx, gsm.transform, h)
    ref = np.stack([np.mean([svec(lay, v) for v in vs], 0) for vs in r])
    kl = (logq(posts, h) - logp(prior, h)).mean(1)
    glob = kl_affine(gsm.transform) + kl_model(prior)
    llh = (ref * stats).sum(1)
    sc = 1 + np.abs(ref * stats).sum() + np.abs(kl).sum() + abs(glob)
    ctx.allclose(elbo.value.reshape(()), llh.sum() - kl.sum() - glob, 'evidence lower bound', rtol=1e-8, scale=sc)
    x = rng.normal(size=(3, spec['dim']))
    if spec['update']:
        check_models(ctx, models, ref, lay, x, 'models after the evaluation')
    else:
        ctx.label('models not updated')
        for m, bb in zip(models, before):
            for (p, *_), v in zip(layout(m), bb):
                ctx.ensure(torch.equal(p.natural_form(), v), 'models updated although not requested')
    # Conjugate update of the latent prior.
    par = prior.mean_precision
    pri, = mods.std_of(par.prior)
    optim = beer.VBConjugateOptimizer(gsm.conjugate_bayesian_parameters(keepgroups=True), lrate=1.)
    optim.init_step()
    elbo.backward()
    grads = [p.grad for p in posts.parameters()]
    ctx.ensure(all(g is not None for g in grads if g is None or g.numel()), 'latent posteriors get no gradient')
    optim.step()
    d = spec['latent']
    w = np.full(spec['n'] * spec['ls'], 1. / spec['ls'])
    want = mods.conj_update(mods.family_of(par.prior), pri, h.reshape(-1, d), w)
    got, = mods.std_of(par.posterior)
    for k in want:
        ctx.allclose(got[k].reshape(want[k].shape), want[k], f'latent prior after the update: {k}', rtol=1e-7,
                     scale=1 + np.abs(want[k]).max())


@facet(st.fixed_dictionaries({**base, 'which': st.integers(0, 10 ** 6)}), quick=350)
def gradients(spec, ctx):
    'Gradients of the bound match finite differences under the same random state.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    torch.manual_seed(spec['seed'])
    seen(spec, ctx)
    gsm, prior, tpl = make_gsm(spec, rng)
    models, posts = gsm.new_models(spec['n'], spec['lcov'])
    set_affine(rng, gsm.transform)
    set_latent(rng, posts)
    give_stats(ctx, models, spec, rng)

    def value():
        torch.manual_seed(spec['seed'] + 7)
        return beer.evidence_lower_bound(gsm, models, latent_posts=posts, latent_nsamples=spec['ls'],
                                         params_nsamples=spec['ps'], update_models=False)
    elbo = value()
    pars = [p for p in list(posts.parameters()) + list(gsm.parameters()) if p.numel()]
    ctx.equal(len(pars), len([p for p in posts.parameters() if p.numel()]) + 4, 'number of trainable parameters')
    for p in pars:
        p.grad = None
    elbo.backward()
    for i, p in enumerate(pars):
        j = (spec['which'] + i * 7919) % p.numel()
        flat, eps = p.data.view(-1), 1e-5
        v0 = float(flat[j])
        vals = []
        for s in (eps, -eps):
            flat[j] = v0 + s
            vals.append(float(value()))
        flat[j] = v0
        fd = -(vals[0] - vals[1]) / (2 * eps)
        sc = 1 + abs(fd) + 1e-5 * abs(vals[0])
        ctx.allclose(float(p.grad.reshape(-1)[j]), fd, f'gradient of the parameter {i}', rtol=2e-4, scale=sc)


@facet(st.fixed_dictionaries({
    'in': st.integers(1, 4), 'out': st.integers(1, 5), 'n': st.integers(1, 4), 'ns': st.integers(1, 3),
    'strength': st.sampled_from([1., 1e-3, 10., .5]), 'linear': st.booleans(), 'seed': st.integers(0, 10 ** 6)}),
    quick=400)
def transforms(spec, ctx):
    'Affine and linear maps: sampled images and divergences.'
    import beer
    from beer.models.gsm import LinearTransform
    rng = np.random.default_rng(spec['seed'])
    torch.manual_seed(spec['seed'])
    t = (LinearTransform if spec['linear'] else beer.AffineTransform).create(
        spec['in'], spec['out'], prior_strength=spec['strength']).double()
    ctx.label('linear' if spec['linear'] else 'affine')
    ctx.nontrivial(spec['n'] > 1 and spec['out'] > 1)
    for p in ([t.weights] if spec['linear'] else [t.weights, t.bias]):
        ctx.ensure((p.prior.params.mean == 0).all() and (p.posterior.params.mean == 0).all(), 'means at creation')
        ctx.allclose(p.prior.params.diag_cov, np.full(p.prior.params.mean.shape, 1 / spec['strength']),
                     'prior variance at creation', rtol=1e-3, atol=2e-4)
    set_affine(rng, t)
    ctx.equal((t.in_dim, t.out_dim), (spec['in'], spec['out']), 'dimensions')
    x = rng.normal(size=(spec['n'], spec['in']))
    got = t(mods.t64(x), spec['ns'])
    ref = affine_ref(ctx, t, x[:, None])
    ctx.allclose(got, ref, 'images', rtol=1e-9, scale=1 + np.abs(ref).max())
    kl = kl_affine(t)
    ctx.allclose(t.kl_div_posterior_prior(), kl, 'divergence of the transform', rtol=1e-8, scale=1 + kl)


@facet(st.fixed_dictionaries({
    **base, 'classes': st.integers(1, 3), 'dlatent': st.integers(1, 2), 'labelled': st.booleans()}), quick=500)
def classes(spec, ctx):
    'Subspace models with one discriminant offset per class, inside a mixture.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    torch.manual_seed(spec['seed'])
    seen(spec, ctx)
    prior = mods.normal_model(spec['pcov'], spec['latent'], rng)
    dprior = mods.normal_model(spec['pcov'], spec['dlatent'], rng)
    tpl = template(spec['kind'], spec['cov'], spec['dim'], spec['k'], prior, rng)
    C, n = spec['classes'], spec['n']
    strength = float(rng.choice([1., .1, 5.]))
    gset = beer.GSMSet.create(tpl, C, spec['latent'], spec['dlatent'], prior, dprior,
                              prior_strength=strength).double()
    ctx.equal(len(gset), C, 'size of the set')
    for p in (gset.transform.weights, gset.transform.bias, gset.disc_transform.weights):
        ctx.allclose(p.prior.params.diag_cov, np.full(p.prior.params.mean.shape, 1 / strength),
                     'prior variance of the transforms', rtol=1e-3, atol=2e-4)
    mix = beer.Mixture(mods.random_categorical(C, rng), gset)
    lay = layout(tpl)
    models, posts = gset.new_models(n, spec['lcov'])
    set_affine(rng, gset.transform)
    set_affine(rng, gset.disc_transform)
    set_latent(rng, posts)
    set_latent(rng, gset.means.posterior)
    gset.means.posterior = wrap(gset.means.posterior)
    rec = wrap(posts)
    stats = give_stats(ctx, models, spec, rng)
    labels = rng.integers(0, C, size=n)
    kw = {'labels': torch.from_numpy(labels)} if spec['labelled'] else {}
    s = mix.sufficient_statistics(models)
    ctx.allclose(s, stats, 'statistics of the models', rtol=1e-12)
    got = mix.expected_log_likelihood(s, latent_posts=rec, latent_nsamples=spec['ls'], params_nsamples=spec['ps'], **kw)
    h = last(ctx, rec, 'the latent posteriors')
    hm = last(ctx, gset.means.posterior, 'the class posteriors')
    r = affine_ref(ctx, gset.transform, h)
    rm = affine_ref(ctx, gset.disc_transform, hm, 'the class transform')
    ref = np.stack([[np.mean([svec(lay, v) for v in r[i] + rm[c]], 0) for i in range(n)] for c in range(C)])
    kl = (logq(posts, h) - logp(prior, h)).mean(1)
    per = ((ref * stats[None]).sum(2) - kl).T
    sc = 1 + np.abs(ref * stats[None]).sum() + np.abs(kl).sum()
    if spec['labelled']:
        ctx.label('labelled')
        resp = np.eye(C)[labels]
        want = (resp * per).sum(1)
    else:
        from props import c08
        p, = mods.std_of(mix.categorical.weights.posterior)
        lw = c08.elog_weights(p)
        want = mods.logsumexp(per + lw, 1)
        resp = np.exp(per + lw - want[:, None])
    ctx.allclose(got, want, 'log-likelihood of the models', rtol=1e-8, scale=sc)
    dkl = (logq(gset.means.posterior, hm) - logp(dprior, hm)).mean(1).sum()
    glob = kl_affine(gset.transform) + kl_affine(gset.disc_transform) + kl_model(prior) + kl_model(dprior)
    glob += mods.kl_of(mix.categorical.weights.posterior, mix.categorical.weights.prior)
    ctx.allclose(float(mix.kl_div_posterior_prior()), dkl + glob, 'divergence of the parameters', rtol=1e-8,
                 scale=1 + abs(glob) + abs(dkl))
    acc = mix.accumulate(s)
    upd = np.einsum('nc,cnq->nq', resp, ref)
    check_models(ctx, models, upd, lay, rng.normal(size=(3, spec['dim'])), 'updated models')
    for m, hh, name in ((prior, h, 'latent prior'), (dprior, hm, 'class prior')):
        d = hh.shape[-1]
        par = m.mean_precision
        w = mods.T(mods.family_of(par.prior), hh.reshape(-1, d)).reshape(len(hh), -1, par.stats.shape[-1]).mean(1).sum(0)
        ctx.allclose(acc[par], w, f'statistics of the {name}', rtol=1e-8, scale=1 + np.abs(w).max())


@facet(st.fixed_dictionaries({
    **base, 'langs': st.integers(1, 3), 'ulatent': st.integers(1, 2), 'us': st.integers(1, 2)}), quick=300)
def hierarchy(spec, ctx):
    'Hierarchical subspace: the transforms of the children are generated by the root subspace.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    torch.manual_seed(spec['seed'])
    seen(spec, ctx)
    L, u, d = spec['langs'], spec['ulatent'], spec['latent']
    uprior = mods.normal_model(spec['pcov'], u, rng)
    priors = [mods.normal_model(spec['pcov'], d, rng) for _ in range(L)]
    tpls = [template(spec['kind'], spec['cov'], spec['dim'], spec['k'], p, rng) for p in priors]
    lay = layout(tpls[0])
    D = sdim(lay)
    root_t = beer.AffineTransform.create(u, D * (d + 1)).double()
    root = beer.HierarchicalGSM(root_t, uprior)
    gsms, pairs, posts = [], [], []
    for p, tpl in zip(priors, tpls):
        g = beer.GSM.create(tpl, d, p).double()
        g.transform = beer.HierarchicalAffineTransform.create(uprior, d, D, root_t, spec['lcov']).double()
        ctx.equal((g.transform.in_dim, g.transform.out_dim), (d, D), 'dimensions of the generated transform')
        models, lp = g.new_models(spec['n'], spec['lcov'])
        set_latent(rng, lp)
        set_latent(rng, g.transform.latent_posterior)
        g.transform.latent_posterior = wrap(g.transform.latent_posterior)
        gsms.append(g)
        pairs.append((g, models))
        posts.append(wrap(lp))
    set_affine(rng, root_t, .2)
    for g in gsms:
        ctx.ensure(g.transform.root_transform is root_t, 'children do not share the root transform')
    stats = [give_stats(ctx, m, spec, rng) for _, m in pairs]
    elbo = beer.evidence_lower_bound(root, pairs, latent_posts=posts, univ_latent_nsamples=spec['us'],
                                     latent_nsamples=spec['ls'], params_nsamples=spec['ps'])
    Ws, bs = list(root_t.weights.posterior.drawn), list(root_t.bias.posterior.drawn)
    ctx.equal((len(Ws), len(bs)), (L, L), 'draws of the root transform')
    hs = [last(ctx, lp, 'the latent posteriors') for lp in posts]
    drawn = [[v.numpy() for v in g.transform.latent_posterior.drawn] for g in gsms]
    ctx.ensure(all(len(v) == 2 for v in drawn), 'draws from the posterior of a language')

    def expected(first):
        'One draw gives the transform, the other one the divergence of the language posterior.'
        total, lp_stats, sc, refs = 0., 0., 1., []
        for i, ((g, models), lp, s, h) in enumerate(zip(pairs, posts, stats, hs)):
            hl, hk = drawn[i][first], drawn[i][1 - first]
            W = Ws[i].numpy().reshape(-1, u, D * (d + 1))
            b = bs[i].numpy()
            rv = (np.einsum('si,kio->sko', hl[0], W) + b[None]).reshape(-1, D * (d + 1))
            w, bb = rv[:, :d * D].reshape(-1, d, D), rv[:, d * D:]
            r = (np.einsum('nsi,kio->nsko', h, w) + bb[None, None]).reshape(len(h), -1, D)
            ref = np.stack([np.mean([svec(lay, v) for v in vs], 0) for vs in r])
            kl = (logq(lp, h) - logp(priors[i], h)).mean(1)
            klu = float((logq(g.transform.latent_posterior, hk) - logp(uprior, hk)).mean())
            total += (ref * s).sum() - kl.sum() - kl_model(priors[i]) - klu
            sc += np.abs(ref * s).sum() + np.abs(kl).sum() + abs(klu)
            lp_stats = lp_stats + mods.T(mods.family_of(uprior.mean_precision.prior), hk[0]).mean(0)
            refs.append(ref)
        glob = kl_affine(root_t) + kl_model(uprior)
        return total - glob, lp_stats, sc + abs(glob), refs

    # Which draw is used for which term is not specified.
    want, lp_stats, sc, refs = min((expected(f) for f in (0, 1)), key=lambda e: abs(e[0] - float(elbo)))
    ctx.allclose(elbo.value.reshape(()), want, 'evidence lower bound', rtol=1e-8, scale=sc)
    for (g, models), ref in zip(pairs, refs):
        check_models(ctx, models, ref, lay, rng.normal(size=(2, spec['dim'])), 'models of a child')
    elbo.backward()
    ctx.allclose(uprior.mean_precision.stats.reshape(-1), lp_stats, 'statistics of the prior of the languages',
                 rtol=1e-8, scale=1 + np.abs(lp_stats).max())


@facet(st.fixed_dictionaries({
    'cov': st.sampled_from(COVS), 'dim': st.integers(1, 2), 'k': st.integers(1, 3), 'units': mods.sizes(1, 4, (5, 40), 20),
    'states': mods.sizes(1, 3, (4, 8), 20), 'latent': st.integers(1, 2), 'n': mods.sizes(1, 5, (30, 200), 20), 'rounds': st.integers(1, 3),
    'seed': st.integers(0, 10 ** 6)}), quick=300)
def views(spec, ctx):
    'Units which are slices of one set: refreshing them refreshes the whole set and conversely.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    torch.manual_seed(spec['seed'])
    U, S, k = spec['units'], spec['states'], spec['k']
    ctx.nontrivial(U > 1 and S > 1)
    whole = beer.MixtureSet(mods.random_categorical_set(U * S, k, rng),
                            mods.normal_set(spec['cov'], spec['dim'], U * S * k, rng))
    prior = mods.normal_model('full', spec['latent'], rng)
    whole.replace_parameters({p: beer.SubspaceBayesianParameter.from_parameter(p, prior)
                              for p in whole.bayesian_parameters()})
    units = [whole[i * S:(i + 1) * S] for i in range(U)]
    lay = layout(units[0])
    gsm = beer.GSM.create(copy.deepcopy(units[0]), spec['latent'], prior).double()
    ctx.equal(gsm.transform.out_dim, sdim(lay), 'size of the transform')
    set_affine(rng, gsm.transform)
    posts = gsm.new_latent_posteriors(U)
    x = rng.normal(size=(spec['n'], spec['dim']))
    for _ in range(spec['rounds']):
        set_latent(rng, posts)
        rec = wrap(posts)
        stats = give_stats(ctx, units, spec, rng)
        elbo = beer.evidence_lower_bound(gsm, units, latent_posts=rec)
        h = last(ctx, rec, 'the latent posteriors')
        r = affine_ref(ctx, gsm.transform, h)
        ref = np.stack([svec(lay, v[0]) for v in r])
        check_models(ctx, units, ref, lay, x, 'units')
        # The whole set holds the same values, in the same order.
        got = whole.expected_log_likelihood(whole.sufficient_statistics(mods.t64(x))).detach().numpy()
        want = np.concatenate([u.expected_log_likelihood(u.sufficient_statistics(mods.t64(x))).detach().numpy()
                               for u in units], axis=1)
        ctx.allclose(got, want, 'log-likelihoods of the set of all units', rtol=1e-10, scale=1 + np.abs(want).max())
        # States and components of a unit, parts of a unit.
        for u, unit in enumerate(units):
            sc = 1 + np.abs(want).max()
            a, b = sorted(rng.integers(0, S + 1, size=2).tolist())
            for m, col, what in ([(unit[j], slice(u * S + j, u * S + j + 1), 'a state of a unit') for j in range(S)]
                                 + [(unit[a:b], slice(u * S + a, u * S + b), 'a part of a unit')] * (a < b)):
                ll = m.expected_log_likelihood(m.sufficient_statistics(mods.t64(x))).detach().numpy()
                ctx.allclose(ll.reshape(len(x), -1), want[:, col], f'log-likelihoods of {what}', rtol=1e-10, scale=sc)
            comp = whole.modelset
            ref = comp.expected_log_likelihood(comp.sufficient_statistics(mods.t64(x))).detach().numpy()
            j, c = int(rng.integers(S)), int(rng.integers(k))
            m = unit[j].modelset[c]
            ll = m.expected_log_likelihood(m.sufficient_statistics(mods.t64(x))).detach().numpy().reshape(-1)
            ctx.allclose(ll, ref[:, (u * S + j) * k + c], 'log-likelihoods of a component of a state of a unit', rtol=1e-10,
                         scale=1 + np.abs(ref).max())
            ctx.allclose(m.mean_precision.stats, whole.modelset.means_precisions.stats[(u * S + j) * k + c],
                         'statistics of a component of a state of a unit', rtol=0, atol=0)
        for name, par in (('weights', whole.categoricalset.weights), ('means', whole.modelset.means_precisions)):
            parts = torch.cat([(u.categoricalset.weights if name == 'weights' else u.modelset.means_precisions).stats
                               for u in units])
            ctx.allclose(par.stats, parts, 'statistics of the set of all units', rtol=0, atol=0)
