"""C04: likelihood functions are exact log-densities; parameters are recoverable."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy import stats as sps
from scipy.special import gammaln

from vf import dens, mods
from vf.core import facet

RULE = ('A case is an observation model, a dimension (1-5), 1-4 parameter vectors, 1-5 frames, a '
        'spread, a float type and a seed.  Non-trivial: dimension > 1 and several vectors or frames.')
ASSUMPTIONS = ['scipy log-densities are the reference', 'CPU tensors']

MODELS = ['isotropic', 'diagonal', 'full', 'categorical', 'gamma']


def lik(model, dim):
    import beer.dists as d
    return {'isotropic': d.IsotropicNormalLikelihood, 'diagonal': d.NormalDiagonalLikelihood,
            'full': d.NormalLikelihood, 'categorical': d.CategoricalLikelihood,
            'gamma': d.GammaLikelihood}[model](dim)


case = st.fixed_dictionaries({
    'model': st.sampled_from(MODELS), 'dim': mods.sizes(1, 5, (6, 20), 20), 'k': mods.sizes(1, 4, (5, 80), 20),
    'n': mods.sizes(1, 5, (6, 300), 20), 'seed': st.integers(0, 10 ** 6), 'spread': st.integers(0, 2),
    'unit': st.sampled_from([0, 0, 0, -3, -2, 2, 3]),    # decades of the unit of the data
    'dtype': st.sampled_from(['float64', 'float64', 'float32'])})


def prepare(spec, ctx):
    m, dim = spec['model'], spec['dim']
    if spec['dtype'] == 'float32' or spec['spread'] > 1:
        dim = min(dim, 5)
    if m == 'categorical':
        dim = dim + 1
    ctx.label(m)
    ctx.label(spec['dtype'])
    ctx.nontrivial(dim > 1 and spec['k'] * spec['n'] > 1)
    rng = np.random.default_rng(spec['seed'])
    return m, dim, rng, lik(m, dim), getattr(torch, spec['dtype'])


def data_for(m, dim, n, rng, spread, unit=1.):
    if m == 'categorical':
        x = np.zeros((n, dim))
        x[np.arange(n), rng.integers(0, dim, size=n)] = 1
        return x
    if m == 'gamma':
        return dens.pos(rng, (n, dim), spread) * unit
    return rng.normal(size=(n, dim)) * (1 + spread) * unit


def reference(m, params, x):
    'Log-densities [n, k] from standard parameters.'
    cols = []
    for p in params:
        if m == 'categorical':
            cols.append(x @ (p[1] if len(p) > 1 else np.log(p[0])))
        elif m == 'gamma':
            a, b = p
            cols.append(np.sum(a * np.log(b) - gammaln(a) + (a - 1) * np.log(x) - b * x, axis=1))
        else:
            mean, prec = p
            dim = len(mean)
            P = prec if m == 'full' else np.diag(np.broadcast_to(prec, (dim,)))
            dx = x - mean
            cols.append(-.5 * np.einsum('ni,ij,nj->n', dx, P, dx) - .5 * dim * math.log(2 * math.pi)
                        + .5 * np.linalg.slogdet(P)[1])
    return np.stack(cols, axis=1)


def rvec_params(m, dim, r):
    'Parameters documented for an unconstrained vector.'
    if m == 'categorical':
        z = np.concatenate([r, [0.]])
        lp = z - z.max()
        lp = lp - np.log(np.sum(np.exp(lp)))
        return np.exp(lp), lp
    if m == 'gamma':
        return np.exp(r[:dim] + 1e-6), np.exp(r[dim:] + 1e-6)
    if m == 'isotropic':
        return r[:dim], np.exp(r[dim:])
    if m == 'diagonal':
        return r[:dim], np.exp(r[dim:])
    L = np.zeros((dim, dim))
    L[np.tril_indices(dim, -1)] = r[2 * dim:]
    L[np.arange(dim), np.arange(dim)] = np.exp(.5 * r[dim:2 * dim])
    return r[:dim], L @ L.T


def rdim(m, dim):
    return {'categorical': dim - 1, 'gamma': 2 * dim, 'isotropic': dim + 1,
            'diagonal': 2 * dim, 'full': 2 * dim + dim * (dim - 1) // 2}[m]


@facet(case, quick=4000)
def from_real_vectors(spec, ctx):
    'Unconstrained vectors: recovered parameters and log-densities of all pairs.'
    m, dim, rng, lk, dt = prepare(spec, ctx)
    ctx.equal(lk.sufficient_statistics_dim(zero_stats=False), rdim(m, dim), 'number of free parameters')
    s = (.4 + .5 * spec['spread']) / max(1, dim / 5) ** .5
    r = rng.normal(size=(spec['k'], rdim(m, dim))) * s
    u = spec.get('unit', 0)
    if m == 'categorical':
        r = r * [1., 10., 100., 1000.][abs(u)]      # very unlikely categories
    elif m == 'gamma':
        r[:, dim:] -= u * math.log(10)
    else:
        r[:, :dim] *= 10. ** u
        r[:, dim:dim + (1 if m == 'isotropic' else dim)] -= 2 * u * math.log(10)
        r[:, 2 * dim:] *= 10. ** -u
    x = data_for(m, dim, spec['n'], rng, spec['spread'], 10. ** spec.get('unit', 0))
    tr = torch.from_numpy(r).to(dt)
    if dt == torch.float32:
        r = tr.double().numpy()
        x = x.astype(np.float32).astype(np.float64)
    params = [rvec_params(m, dim, v) for v in r]
    vecs = lk.pdfvectors_from_rvectors(tr)
    ctx.ensure(vecs.dtype == dt, 'parameter vectors change the float type')
    stats = lk.sufficient_statistics(torch.from_numpy(x).to(dt))
    ctx.ensure(stats.dtype == dt, 'statistics change the float type')
    ref = reference(m, params, x)
    t = dens.tol(spec, 1e-8, 5e-3)
    scale = float((stats.double().abs() @ vecs.double().abs().t()).max()) + 1
    got = lk(vecs, stats)
    ctx.allclose(got, ref, 'log-likelihood of all pairs', rtol=t, scale=scale)
    one = lk(vecs[0], stats)
    ctx.ensure(one.numel() == spec['n'], 'log-likelihood for a single parameter vector')
    ctx.allclose(one.reshape(-1), ref[:, 0], 'log-likelihood for a single parameter vector',
                 rtol=t, scale=scale)
    recovered(ctx, lk, m, vecs, params, t)
    # Each frame and each vector is independent of the other ones.
    ctx.allclose(lk(vecs[-1:], stats[-1:]), got[-1:, -1:], 'log-likelihood of the last pair alone',
                 rtol=1e-5 if dt == torch.float32 else 1e-12, scale=scale)


def recovered(ctx, lk, m, vecs, params, t):
    back = lk.parameters_from_pdfvector(vecs)
    single = lk.parameters_from_pdfvector(vecs[0])
    back = back if isinstance(back, tuple) else (back,)
    single = single if isinstance(single, tuple) else (single,)
    if m == 'full':
        # The means are recovered by solving with the precision matrices.
        t = max(t, 20 * max(np.linalg.cond(p[1]) for p in params) * torch.finfo(vecs.dtype).eps)
    for i, got in enumerate(back):
        want = np.stack([p[i] for p in params])
        sc = float(np.abs(want).max())
        # 1e-5: the documented map adds a small constant for the Gamma.
        ctx.allclose(got, want, f'recovered parameters ({i})', rtol=max(t, 1e-8), scale=sc)
        ctx.allclose(single[i], want[0], f'recovered parameters of one vector ({i})',
                     rtol=max(t, 1e-8), scale=sc)


@facet(case, quick=2500)
def from_parameters(spec, ctx):
    'Vectors written directly from parameters give exact log-densities.'
    m, dim, rng, lk, dt = prepare(spec, ctx)
    params, vecs = [], []
    for _ in range(spec['k']):
        c = 10. ** spec.get('unit', 0)
        mean = rng.normal(size=dim) * (1 + spec['spread']) * c
        if m == 'categorical':
            p = dens.pos(rng, dim, spec['spread'])
            p /= p.sum()
            params.append((p,))
            vecs.append(np.concatenate([np.log(p[:-1] / p[-1]), [np.log(p[-1])]]))
        elif m == 'gamma':
            a, b = dens.pos(rng, dim, spec['spread']), dens.pos(rng, dim, spec['spread']) / c
            params.append((a, b))
            vecs.append(np.concatenate([-b, a - 1, [np.sum(a * np.log(b) - gammaln(a))]]))
        elif m == 'isotropic':
            pr = dens.pos(rng, 1, spec['spread']) / c ** 2
            params.append((mean, pr))
            vecs.append(np.concatenate([pr * mean, pr, pr * (mean @ mean), np.log(pr)]))
        elif m == 'diagonal':
            pr = dens.pos(rng, dim, spec['spread']) / c ** 2
            params.append((mean, pr))
            vecs.append(np.concatenate([pr * mean, pr, [np.sum(pr * mean ** 2), np.sum(np.log(pr))]]))
        else:
            P = dens.spd(rng, dim, spec['spread']) / c ** 2
            params.append((mean, P))
            vecs.append(np.concatenate([P @ mean, P.ravel(), [mean @ P @ mean, np.linalg.slogdet(P)[1]]]))
    x = data_for(m, dim, spec['n'], rng, spec['spread'], 10. ** spec.get('unit', 0))
    tv = torch.from_numpy(np.stack(vecs)).to(dt)
    keep = tv.clone()
    data = torch.from_numpy(x).to(dt)
    dkeep = data.clone()
    stats = lk.sufficient_statistics(data)
    ctx.ensure(torch.equal(data, dkeep), 'computing the statistics changes the data')
    t = dens.tol(spec, 1e-9, 5e-3)
    scale = float((stats.double().abs() @ tv.double().abs().t()).max()) + 1
    ctx.allclose(lk(tv, stats), reference(m, params, x), 'log-likelihood of all pairs', rtol=t, scale=scale)
    recovered(ctx, lk, m, tv, params, t)
    ctx.ensure(torch.equal(keep, tv), 'parameter vectors changed')


@facet(st.tuples(st.integers(2, 6), st.integers(1, 5), st.integers(0, 10 ** 6),
                 st.booleans()), quick=600)
def count_statistics(case_, ctx):
    'Categorical statistics are linear in (possibly fractional) counts, of any leading shape.'
    K, n, seed, three = case_
    import beer.dists as d
    rng = np.random.default_rng(seed)
    lk = d.CategoricalLikelihood(K)
    x = rng.gamma(1., size=(2, n, K)) if three else rng.gamma(1., size=(n, K))
    ctx.nontrivial()
    ctx.label('3-d', three)
    s = lk.sufficient_statistics(torch.from_numpy(x)).numpy()
    ctx.equal(s.shape, x.shape, 'shape of the statistics')
    ctx.allclose(s[..., :-1], x[..., :-1], 'counts', rtol=1e-12)
    ctx.allclose(s[..., -1], x.sum(-1), 'total count', rtol=1e-12)


@facet(st.fixed_dictionaries({
    'dim': st.integers(1, 5), 'k': st.integers(1, 4), 'n': st.integers(1, 5), 'seed': st.integers(0, 10 ** 6),
    'spread': st.integers(0, 2), 'dtype': st.sampled_from(['float64', 'float64', 'float32'])}), quick=600)
def known_covariance(spec, ctx):
    'Normal with unit covariance (the likelihood of which a Normal is the conjugate): ratios of densities, recovered means.'
    import beer.dists as d
    rng, dim, dt = np.random.default_rng(spec['seed']), spec['dim'], getattr(torch, spec['dtype'])
    ctx.nontrivial(dim > 1 and spec['k'] > 1)
    prior = d.NormalDiagonalCovariance.from_std_parameters(torch.zeros(1, dim, dtype=dt), torch.ones(1, dim, dtype=dt))
    lk = prior.conjugate()
    r = torch.from_numpy(rng.normal(size=(spec['k'], dim)) * (1 + spec['spread'])).to(dt)
    x = torch.from_numpy(rng.normal(size=(spec['n'], dim)) * (1 + spec['spread'])).to(dt)
    ctx.equal(lk.sufficient_statistics_dim(zero_stats=False), dim, 'number of free parameters')
    vecs, stats = lk.pdfvectors_from_rvectors(r), lk.sufficient_statistics(x)
    got = lk(vecs, stats)
    ctx.ensure(vecs.dtype == stats.dtype == got.dtype == dt, 'the float type changes')
    mu, fr = r.double().numpy(), x.double().numpy()
    want = -.5 * ((fr[:, None] - mu[None]) ** 2).sum(-1)
    t = 1e-9 if dt == torch.float64 else 5e-4
    scale = float((stats.double().abs() @ vecs.double().abs().t()).max()) + 1
    g = got.double().numpy()
    ctx.equal(g.shape, want.shape, 'shape of the log-likelihood')
    ctx.allclose(g - g[:, :1], want - want[:, :1], 'log-likelihood of the vectors with respect to the first one', rtol=t, scale=scale)
    ctx.allclose(lk(vecs[-1], stats).reshape(-1), g[:, -1], 'log-likelihood for a single parameter vector', rtol=t, scale=scale)
    ctx.allclose(lk.parameters_from_pdfvector(vecs), mu, 'recovered means', rtol=t)
    ctx.allclose(lk.parameters_from_pdfvector(vecs[-1]), mu[-1], 'recovered mean of one vector', rtol=t)
