"""C18: variational auto-encoder."""
import contextlib
import math

import numpy as np
import torch
from hypothesis import strategies as st

from vf import dens, mods, zoo
from vf.core import facet
from props import c08

RULE = ('A case is an auto-encoder (sizes, networks, random weights), a latent prior (Normal, mixture, HMM), data, '
        'numbers of samples and weights of the terms.  Non-trivial: several frames and several latent dimensions or '
        'samples.')
ASSUMPTIONS = ['latent samples are recorded where they are drawn and the reference is computed from them with numpy; '
               'the encoder and decoder networks are called as they are', 'float64']


@contextlib.contextmanager
def recorded():
    'Records the draws from diagonal Normal densities.'
    from beer.dists import NormalDiagonalCovariance as N
    orig, drawn = N.sample, []

    def sample(self, n):
        s = orig(self, n)
        drawn.append(s.detach().clone().numpy())
        return s
    N.sample = sample
    try:
        yield drawn
    finally:
        N.sample = orig


class Net(torch.nn.Module):
    def __init__(self, dim_in, dim_out, act):
        super().__init__()
        self.lin = torch.nn.Linear(dim_in, dim_out)
        self.act = act
        self.dim_in, self.dim_out = dim_in, dim_out

    def forward(self, x):
        return self.act(self.lin(x))


def make_prior(kind, cov, dim, rng):
    if kind == 'normal':
        return mods.normal_model(cov, dim, rng)
    return zoo.random_model('mixture' if kind == 'mixture' else 'hmm', cov, dim, 2, rng)


def net(kind, dim_in, dim_out, rng):
    import beer
    if kind == 'residual':
        return beer.nnet.ResidualFeedForwardNet(dim_in, nblocks=int(rng.integers(1, 3)), block_width=4)
    return Net(dim_in, dim_out, {'tanh': torch.nn.Tanh(), 'linear': torch.nn.Identity()}[kind])


def make(spec, rng):
    import beer
    torch.manual_seed(spec['seed'])
    D, d = spec['dim'], spec['latent']
    prior = make_prior(spec['prior'], spec['cov'], d, rng)
    vae = beer.VAE(prior, net(spec['enc'], D, 3, rng), net(spec['dec'], d, 4, rng)).double()
    for p in vae.parameters():
        p.data = mods.t64(rng.normal(size=tuple(p.shape)) * .5, watch=False)
    return vae, prior


def lin(layer, h):
    return h @ layer.weight.detach().numpy().T + layer.bias.detach().numpy()


def gauss(x, m, v):
    return -.5 * np.sum((x - m) ** 2 / v + np.log(v) + math.log(2 * math.pi), axis=-1)


def encode(vae, x):
    h = vae.encoder(mods.t64(x)).detach().numpy()
    return lin(vae.enc_mean_layer, h), 1e-5 + np.exp(lin(vae.enc_var_layer, h))


def decode(vae, z):
    h = vae.decoder(mods.t64(z)).detach().numpy()
    return lin(vae.dec_mean_layer, h), 1e-5 + np.exp(lin(vae.dec_var_layer, h))


def prior_llh(prior, kind, z):
    'Expected log-likelihood of the averaged statistics of the samples z [n, s, d].'
    n, s, d = z.shape
    def by(par):
        fam = mods.family_of(par.posterior)
        S = mods.T(fam, z.reshape(-1, d)).reshape(n, s, -1).mean(1)
        return np.stack([S @ dens.mean_stats(fam, p) - .5 * d * math.log(2 * math.pi)
                         for p in mods.std_of(par.posterior)], axis=1), S
    if kind == 'normal':
        l, S = by(prior.mean_precision)
        return l[:, 0], {prior.mean_precision: S.sum(0)}
    par = prior.modelset.means_precisions if kind == 'mixture' else prior.modelset.original_modelset.means_precisions
    l, S = by(par)
    if kind == 'mixture':
        p, = mods.std_of(prior.categorical.weights.posterior)
        j = l + c08.elog_weights(p)
        tot = mods.logsumexp(j, 1)
        r = np.exp(j - tot[:, None])
        return tot, {par: r.T @ S, prior.categorical.weights: mods.T('dirichlet', r).sum(0)}
    g = prior.graph
    ids = list(g.pdf_id_mapping)
    pl = l[:, ids]
    post, _, _ = zoo.forward_backward(*(np.exp(v.numpy()) for v in
                                        (g.init_log_probs, g.final_log_probs, g.trans_log_probs)), pl)
    r = np.zeros_like(l)
    for k, i in enumerate(ids):
        r[:, i] += post[:, k]
    return (post * pl).sum(1), {par: r.T @ S}


def reference(ctx, vae, spec, x, drawn, llh_weight=1., kl_weight=1.):
    if len(drawn) != 1:
        ctx.fail(f'{len(drawn)} draws of latent samples')
    z = drawn[0]
    n, s, d = z.shape
    ctx.equal((n, d), (len(x), spec['latent']), 'shape of the latent samples')
    m, v = encode(vae, x)
    ent = -gauss(z, m[:, None], v[:, None]).mean(1)
    plh, acc = prior_llh(vae.prior, spec['prior'], z)
    dm, dv = decode(vae, z.reshape(-1, d))
    rec = gauss(np.repeat(x, s, axis=0), dm, dv).reshape(n, s).mean(1)
    return llh_weight * rec - kl_weight * (-plh - ent), acc, 1 + np.abs(rec) + np.abs(plh) + np.abs(ent)


base = {
    'prior': st.sampled_from(['normal', 'normal', 'mixture', 'hmm']), 'cov': st.sampled_from(['isotropic', 'diagonal', 'full']),
    'dim': st.integers(1, 3), 'latent': st.integers(1, 3), 'enc': st.sampled_from(['residual', 'tanh', 'linear']),
    'dec': st.sampled_from(['residual', 'tanh', 'linear']), 'n': mods.sizes(3, 6, (40, 150)), 'ns': st.integers(1, 4),
    'seed': st.integers(0, 10 ** 6)}


def seen(spec, ctx):
    for k in ('prior', 'enc', 'dec'):
        ctx.label(f'{k} {spec[k]}')
    ctx.nontrivial(spec['n'] > 1 and (spec['latent'] > 1 or spec['ns'] > 1))


@facet(st.fixed_dictionaries({**base, 'lw': st.sampled_from([None, 1., .3, 2.]), 'kw': st.sampled_from([None, 1., 0., .5])}),
       quick=1200)
def terms(spec, ctx):
    'Per-frame objective recomputed from its terms.'
    rng = np.random.default_rng(spec['seed'])
    vae, prior = make(spec, rng)
    seen(spec, ctx)
    x = rng.normal(size=(spec['n'], spec['dim'])) * 1.5
    kw = {}
    if spec['lw'] is not None:
        kw['llh_weight'] = spec['lw']
    if spec['kw'] is not None:
        kw['kl_weight'] = spec['kw']
    with recorded() as drawn:
        got = vae.expected_log_likelihood(vae.sufficient_statistics(mods.t64(x)), nsamples=spec['ns'], **kw)
    ctx.equal(tuple(got.shape), (spec['n'],), 'one value per frame')
    want, _, sc = reference(ctx, vae, spec, x, drawn, **kw)
    ctx.equal(drawn[0].shape[1], spec['ns'], 'number of latent samples')
    ctx.allclose(got, want, 'objective of each frame', rtol=1e-9, scale=float(sc.max()))
    # Densities of the encoder and the decoder.
    post = vae.posteriors(mods.t64(x))
    m, v = encode(vae, x)
    ctx.allclose(post.params.mean, m, 'encoder means', rtol=1e-9, scale=1.)
    ctx.allclose(post.params.diag_cov, v, 'encoder variances', rtol=1e-9)
    z = rng.normal(size=(3, spec['latent']))
    pdfs = vae.pdfs(mods.t64(z))
    m, v = decode(vae, z)
    ctx.allclose(pdfs.params.mean, m, 'decoder means', rtol=1e-9, scale=1.)
    ctx.allclose(pdfs.params.diag_cov, v, 'decoder variances', rtol=1e-9)
    ctx.ensure((pdfs.params.diag_cov > 0).all() and (post.params.diag_cov > 0).all(), 'variances are positive')


@facet(st.fixed_dictionaries({**base, 'datasize': st.sampled_from([-1, 50]), 'which': st.integers(0, 10 ** 6)}), quick=500)
def training(spec, ctx):
    'Bound of a mini-batch, update of the latent prior, gradients against finite differences.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    vae, prior = make(spec, rng)
    seen(spec, ctx)
    n = spec['n']
    x = rng.normal(size=(n, spec['dim'])) * 1.5
    N = spec['datasize'] if spec['datasize'] > 0 else n

    def value():
        torch.manual_seed(spec['seed'] + 3)
        return beer.evidence_lower_bound(vae, mods.t64(x), datasize=spec['datasize'], nsamples=spec['ns'])
    with recorded() as drawn:
        elbo = value()
    want, acc, sc = reference(ctx, vae, spec, x, drawn)
    kl = sum(mods.kl_of(p.posterior, p.prior) for p in mods.conj_params(prior))
    tot = N / n * want.sum() - kl
    ctx.allclose(elbo.value.reshape(()), tot, 'evidence lower bound', rtol=1e-9, scale=N / n * sc.sum() + abs(kl))
    pars = list(vae.parameters())
    for p in pars:
        p.grad = None
    optim = beer.VBConjugateOptimizer(vae.conjugate_bayesian_parameters(keepgroups=True))
    optim.init_step()
    elbo.backward()
    if spec['prior'] == 'normal':
        # The other priors treat their responsibilities as constant.
        for i, p in enumerate(pars):
            j = (spec['which'] + i * 7919) % p.numel()
            flat, eps = p.data.view(-1), 1e-5
            v0 = float(flat[j])
            vals = []
            for e in (eps, -eps):
                flat[j] = v0 + e
                vals.append(float(value()))
            flat[j] = v0
            fd = -(vals[0] - vals[1]) / (2 * eps)
            ctx.allclose(float(p.grad.reshape(-1)[j]), fd, f'gradient of the parameter {i}', rtol=2e-4,
                         scale=1 + abs(fd) + 1e-5 * abs(vals[0]))
    else:
        ctx.ensure(all(p.grad is not None for p in pars), 'parameters without gradient')
    stats = {p: N / n * v for p, v in acc.items()}
    nat = {p: mods.nat_of(p.prior) for p in mods.conj_params(prior)}
    groups = vae.mean_field_factorization()
    for _ in groups:
        optim.step()
    for p, v in stats.items():
        if not any(q is p for g in groups for q in g):
            continue
        want = nat[p] + v.reshape(nat[p].shape)
        ctx.allclose(mods.nat_of(p.posterior), want, 'latent prior after the update', rtol=1e-8, scale=1 + np.abs(want).max())


@facet(st.fixed_dictionaries({
    'dim': st.integers(1, 3), 'latent': st.integers(1, 2), 'n': st.integers(1, 3), 'cov': st.sampled_from(
        ['isotropic', 'diagonal', 'full']), 'seed': st.integers(0, 10 ** 6)}), quick=200)
def linear_gaussian(spec, ctx):
    'Linear decoder: the objective averages to its closed form and stays below the exact log-likelihood.'
    rng = np.random.default_rng(spec['seed'])
    spec = dict(spec, prior='normal', enc='tanh', dec='linear')
    vae, prior = make(spec, rng)
    ctx.nontrivial(spec['latent'] > 1 or spec['dim'] > 1)
    vae.dec_var_layer.weight.data.zero_()           # constant variance
    n, d, D = spec['n'], spec['latent'], spec['dim']
    x = rng.normal(size=(n, D)) * 1.5
    S = 4000
    torch.manual_seed(spec['seed'] + 1)
    got = vae.expected_log_likelihood(mods.t64(x), nsamples=S).detach().numpy()
    # p(x|z) = N(A z + b, V)
    L1, L2 = vae.decoder.lin, vae.dec_mean_layer
    A = L2.weight.detach().numpy() @ L1.weight.detach().numpy()
    b = L2.weight.detach().numpy() @ L1.bias.detach().numpy() + L2.bias.detach().numpy()
    V = decode(vae, np.zeros((1, d)))[1][0]
    m, v = encode(vae, x)
    # E log p(z): quadratic form.
    fam = mods.family_of(prior.mean_precision.posterior)
    p, = mods.std_of(prior.mean_precision.posterior)
    ms = dens.mean_stats(fam, p)
    P = {'isotropic': lambda: ms[d] * np.eye(d), 'diagonal': lambda: np.diag(ms[d:2 * d]),
         'full': lambda: ms[d:d + d * d].reshape(d, d)}[spec['cov']]()
    h = ms[:d]
    c = mods.expected_llh(fam, p, np.zeros((1, d)))[0]
    for i in range(n):
        Q = np.diag(v[i])
        e_rec = gauss(x[i], A @ m[i] + b, V) - .5 * np.trace(A.T @ np.diag(1 / V) @ A @ Q)
        e_pri = c + h @ m[i] - .5 * (m[i] @ P @ m[i] + np.trace(P @ Q))
        ent = .5 * np.sum(np.log(2 * np.pi * math.e * v[i]))
        closed = e_rec + e_pri + ent
        # Exact integral of the (unnormalised) prior times the likelihood.
        La = A.T @ np.diag(1 / V) @ A + P
        mu = np.linalg.solve(La, A.T @ ((x[i] - b) / V) + h)
        log_ev = (gauss(x[i], A @ mu + b, V) + c + h @ mu - .5 * mu @ P @ mu
                  + .5 * d * math.log(2 * math.pi) - .5 * np.linalg.slogdet(La)[1])
        # Standard deviation of one sample, by an independent simulation.
        z = m[i] + np.sqrt(v[i]) * rng.normal(size=(4000, d))
        one = (gauss(x[i], z @ A.T + b, V) + c + z @ h - .5 * np.einsum('si,ij,sj->s', z, P, z) - gauss(z, m[i], v[i]))
        se = one.std() / math.sqrt(S) * 8 + 1e-8 * (1 + abs(closed))
        ctx.ensure(abs(got[i] - closed) <= se,
                   lambda: f'average objective {got[i]} of the frame {i}, closed form {closed} (tolerance {se})')
        ctx.ensure(got[i] <= log_ev + se, lambda: f'objective {got[i]} above the log-likelihood {log_ev}')
