"""C02: the log-normaliser generates the moments; log-densities are exact."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy import integrate, stats as sps
from scipy.special import digamma, gammaln

from vf import dens
from vf.core import facet
from props.c01 import far, setup, stacked

RULE = ('A case is a family, dimension (1-6), set size (single or 1-5), spread, float type and a '
        'seed expanding to parameters, data and directions.  Non-trivial: dimension > 1 or several '
        'densities; for the one-dimensional quadrature cases, any case.')
ASSUMPTIONS = ['closed forms of scipy/numpy and adaptive quadrature are the reference',
               'the constant (D/2)log(2 pi) omitted by the documented log-normaliser of the '
               'Normal-Gamma densities belongs to the base measure']


def scale_of(p, fam):
    return float(np.abs(dens.natural(fam, p)) @ np.abs(dens.mean_stats(fam, p))) + 1.


@facet(dens.spec_strategy(), quick=2500)
def moments(spec, ctx):
    'Expected statistics, expected value and log-normaliser against closed forms.'
    plist, d = setup(spec, ctx)
    fam = spec['family']
    t = dens.tol(spec, 1e-9, 2e-3)
    ref = stacked(spec, [dens.mean_stats(fam, p) for p in plist])
    ctx.allclose(d.expected_sufficient_statistics(), ref, 'expected sufficient statistics',
                 rtol=t, scale=max(1., float(np.abs(ref).max())))
    ln = stacked(spec, [dens.log_norm(fam, p) for p in plist])
    ln = ln.reshape(()) if spec['n'] == 0 else ln.reshape(-1)
    got = d.log_norm()
    ctx.allclose(got.reshape(ln.shape) if got.numel() == ln.size else got, ln,
                 'log-normaliser', rtol=t, scale=max(scale_of(p, fam) for p in plist))
    ev = d.expected_value()
    want = {
        'dirichlet': lambda p: [p['concentrations'] / p['concentrations'].sum()],
        'gamma': lambda p: [p['shape'] / p['rate']],
        'isonormalgamma': lambda p: [p['mean'], p['shape'] / p['rate']],
        'normalgamma': lambda p: [p['mean'], p['shape'] / p['rates']],
        'normalwishart': lambda p: [p['mean'], p['dof'] * p['scale_matrix']],
        'normaldiag': lambda p: [p['mean']],
        'normalfull': lambda p: [p['mean']],
    }[fam]
    vals = [want(p) for p in plist]
    if not isinstance(ev, tuple):
        ev = (ev,)
    ctx.ensure(len(ev) == len(vals[0]), 'number of expected values')
    for i, got in enumerate(ev):
        w = vals[0][i] if spec['n'] == 0 else np.stack([v[i] for v in vals])
        ctx.allclose(got, w, f'expected value ({i})', rtol=t, scale=float(np.abs(w).max()))
    # Asking for moments does not change the density.
    nat = stacked(spec, [dens.natural(fam, p) for p in plist])
    ctx.allclose(d.natural_parameters(), nat, 'natural parameters after computing the moments',
                 rtol=t, scale=max(1., float(np.abs(nat).max())))


def direction(fam, dim, rng, q):
    v = rng.normal(size=q)
    if fam in ('normalwishart', 'normalfull'):
        m = v[dim:dim + dim * dim].reshape(dim, dim)
        v[dim:dim + dim * dim] = (.5 * (m + m.T)).ravel()
    return v


@facet(dens.spec_strategy(dtypes=('float64',), spread=1, units=(0,)), quick=1500)
def gradient(spec, ctx):
    'Directional derivatives of the log-normaliser are inner products with E[T].'
    plist, d = setup(spec, ctx)
    fam = spec['family']
    if fam in ('normaldiag', 'normalfull'):
        # Their statistics pair the precision with -x x^T / 2 and the documented
        # log-normaliser has no other convention: the same law applies.
        pass
    nat = stacked(spec, [dens.natural(fam, p) for p in plist])
    stats = d.expected_sufficient_statistics().numpy()
    rng = np.random.default_rng([spec['seed'], 5])
    q = nat.shape[-1]

    def lnorm(eta):
        dd = dens.build(spec, plist)
        dd.update_from_natural_parameters(torch.from_numpy(eta.copy()))
        return dd.log_norm().detach().numpy().reshape(-1)

    rows = np.atleast_2d(nat)
    for _ in range(3):
        v = np.stack([direction(fam, spec['dim'], rng, q) for _ in rows])
        # A step small enough to stay in the domain for well conditioned cases.
        h = 1e-5 * np.abs(rows).clip(1e-2).min()
        v = v.reshape(nat.shape)

        def der(h):
            return (lnorm(nat + h * v) - lnorm(nat - h * v)) / (2 * h)
        num = (4 * der(h) - der(2 * h)) / 3
        want = np.sum(np.atleast_2d(stats) * np.atleast_2d(v), axis=-1)
        a = np.abs(lnorm(nat)).max() + 1
        ctx.allclose(num, want, 'derivative of the log-normaliser', rtol=1e-5,
                     atol=1e-5 + a * 1e-14 / h + 1e-5 * np.abs(want).max())


@facet(st.tuples(st.sampled_from(['gamma', 'dirichlet', 'normaldiag', 'normalgamma']),
                 st.integers(0, 10 ** 6)), quick=150, shards=4)
def quadrature(case, ctx):
    'One-dimensional members integrate to their normaliser, with the reported moments.'
    fam, seed = case
    dim = 2 if fam == 'dirichlet' else 1
    spec = {'family': fam, 'dim': dim, 'n': 0, 'seed': seed, 'spread': 0, 'dtype': 'float64'}
    plist = dens.make(spec)
    p = plist[0]
    if fam in ('gamma',):
        p['shape'] = p['shape'] + 1
    if fam == 'dirichlet':
        p['concentrations'] = p['concentrations'] + 1
    if fam == 'normalgamma':
        p['shape'] = p['shape'] + 1
    d = dens.build(spec, plist)
    ctx.label(fam)
    ctx.nontrivial()
    eta = d.natural_parameters().numpy()
    A = float(d.log_norm().reshape(()))
    et = d.expected_sufficient_statistics().numpy()

    def q1(T, lo, hi):
        g = lambda x: math.exp(T(x) @ eta - A)
        z = integrate.quad(g, lo, hi, epsabs=1e-11, epsrel=1e-9, limit=400)[0]
        m = [integrate.quad(lambda x: T(x)[i] * g(x), lo, hi, epsabs=1e-11, epsrel=1e-9,
                            limit=400)[0] for i in range(len(eta))]
        return z, np.array(m)
    if fam == 'gamma':
        z, m = q1(lambda x: np.array([x, math.log(x)]), 0, 80 / p['rate'][0])
    elif fam == 'dirichlet':
        # Density on the simplex w.r.t. the Lebesgue measure on the first weight.
        z, m = q1(lambda x: np.array([math.log(x) - math.log1p(-x), math.log1p(-x)]), 0, 1)
    elif fam == 'normaldiag':
        s = math.sqrt(p['diag_cov'][0])
        z, m = q1(lambda x: np.array([x, -.5 * x * x]), p['mean'][0] - 14 * s, p['mean'][0] + 14 * s)
    else:
        m0, k, a, b = p['mean'][0], p['scale'][0], p['shape'][0], p['rates'][0]
        # Gauss-Hermite over the mean given the precision, then over the precision.
        x, w = np.polynomial.hermite_e.hermegauss(12)

        def inner(lam):
            mu = m0 + x / math.sqrt(k * lam)
            T = np.stack([lam * mu, lam + 0 * mu, lam * mu ** 2, math.log(lam) + 0 * mu])
            # integrand / N(mu; m0, 1/(k lam)) is constant up to rounding
            logg = eta @ T - A
            lognorm = -.5 * k * lam * (mu - m0) ** 2 + .5 * math.log(k * lam / (2 * math.pi))
            r = np.exp(logg - lognorm) * w / math.sqrt(2 * math.pi)
            return np.concatenate([[r.sum()], (T * r).sum(-1)])
        vals = [integrate.quad(lambda l: inner(l)[i], 0, 80 / b, epsabs=1e-10, epsrel=1e-9,
                               limit=400)[0] for i in range(5)]
        vals = np.array(vals) / math.sqrt(2 * math.pi)   # base measure of the mean
        z, m = vals[0], vals[1:]
    ctx.allclose(z, 1., 'integral of the density', rtol=1e-6)
    ctx.allclose(et, m, 'expected statistics against quadrature', rtol=1e-6, atol=1e-6)


@facet(st.tuples(dens.spec_strategy(['normaldiag', 'normalfull']), st.one_of(st.integers(1, 5), st.sampled_from([1, 2, 33, 150]))), quick=1500)
def log_density(case, ctx):
    'forward() is the Normal log-density for all pairs (or matching pairs).'
    spec, nf = case
    plist, d = setup(spec, ctx)
    rng = np.random.default_rng([spec['seed'], 9])
    x = rng.normal(size=(nf, spec['dim'])) * 2
    dt = getattr(torch, spec['dtype'])
    stats = d.sufficient_statistics(torch.from_numpy(x).to(dt))
    ctx.ensure(stats.dtype == dt, 'statistics change the float type')
    cov = [np.diag(p['diag_cov']) if 'diag_cov' in p else p['cov'] for p in plist]
    ref = np.stack([np.atleast_1d(sps.multivariate_normal(p['mean'], c).logpdf(x)).reshape(nf)
                    for p, c in zip(plist, cov)])
    want = ref[0] if spec['n'] == 0 else ref
    t = dens.tol(spec, 1e-9, 3e-3)
    ctx.allclose(d(stats), want, 'log-density of all pairs', rtol=t, scale=max(1., np.abs(ref).max()))
    if spec['n'] == 0:
        pair, wantp = d(stats, pdfwise=True), ref[0]
    else:
        xs = x[np.arange(spec['n']) % nf]
        st_ = d.sufficient_statistics(torch.from_numpy(xs).to(dt))
        pair = d(st_, pdfwise=True)
        wantp = ref[np.arange(spec['n']), np.arange(spec['n']) % nf]
    ctx.allclose(pair, wantp, 'log-density of matching pairs', rtol=t, scale=max(1., np.abs(ref).max()))
    # E[T] of the density is what the statistics of its samples average to (shape level).
    ctx.ensure(stats.shape[-1] == d.natural_parameters().shape[-1], 'dimension of the statistics')


@facet(dens.spec_strategy(['normaldiag', 'normalfull'], max_dim=3, max_n=3, dtypes=('float64', 'float32'),
                          spread=1), quick=120, shards=4)
def sampling(spec, ctx):
    'Samples have the mean and covariance of the density (6 sigma over 20000 draws).'
    plist, d = setup(spec, ctx)
    ns = 20000
    s = d.sample(ns)
    ctx.ensure(s.dtype == getattr(torch, spec['dtype']), 'samples change the float type')
    shape = (ns, spec['dim']) if spec['n'] == 0 else (spec['n'], ns, spec['dim'])
    ctx.ensure(tuple(s.shape) == shape, f'shape of the samples {tuple(s.shape)}')
    s = s.double().numpy().reshape(-1, ns, spec['dim'])
    for x, p in zip(s, plist):
        cov = np.diag(p['diag_cov']) if 'diag_cov' in p else p['cov']
        sd = np.sqrt(np.diag(cov))
        z = np.abs(x.mean(0) - p['mean']) / (sd / math.sqrt(ns))
        ctx.ensure(z.max() < 7, f'sample mean is {z.max():.1f} standard errors away')
        c = np.cov(x.T).reshape(spec['dim'], spec['dim'])
        se = np.sqrt((np.outer(np.diag(cov), np.diag(cov)) + cov ** 2) / ns)
        z = np.abs(c - cov) / se
        ctx.ensure(z.max() < 7, f'sample covariance is {z.max():.1f} standard errors away')
    if len(plist) > 1:
        # Different densities of a set use independent noise.
        r = (s[0][:, 0] - plist[0]['mean'][0]), (s[1][:, 0] - plist[1]['mean'][0])
        ctx.ensure(abs(np.corrcoef(*r)[0, 1]) < 7 / math.sqrt(ns), 'samples of a set are correlated')


@facet(far(), quick=1200)
def any_count(spec, ctx):
    'Moments and log-normaliser, whatever the number of observations (1e-5 to 1e5).'
    plist, d = setup(spec, ctx)
    fam = spec['family']
    stats, ln = d.expected_sufficient_statistics(), d.log_norm()
    if spec['n'] == 0:
        stats = stats[None]
    ln = ln.reshape(-1)
    ctx.ensure(len(ln) == len(plist), 'number of log-normalisers')
    for i, p in enumerate(plist):
        ref = dens.mean_stats(fam, p)
        # Each entry is a sum of terms; psi(x) is about -1/x below one.
        terms = np.concatenate([np.ravel(p[k]) for k in ('concentrations', 'shape', 'dof') if k in p])
        if fam == 'normalwishart':
            terms = terms - spec['dim'] + 1
        big = np.abs(digamma(.5 * terms)).sum()
        if fam == 'dirichlet':
            ctx.allclose(stats[i], ref, 'expected sufficient statistics', rtol=1e-9, atol=1e-12 * big)
        else:
            ctx.allclose(stats[i][:-spec['dim'] if fam == 'gamma' else -1],
                         ref[:-spec['dim'] if fam == 'gamma' else -1],
                         'expected sufficient statistics', rtol=1e-9, atol=1e-9)
            ctx.allclose(stats[i], ref, 'expected sufficient statistics (all)', rtol=1e-9,
                         atol=1e-9 + 1e-12 * big)
        want = float(dens.log_norm(fam, p))
        size = sum(np.abs(gammaln(.5 * terms)).sum() + np.abs(terms * np.log(terms)).sum()
                   for _ in range(2)) + abs(want) + 1 + 10 * float(np.sum(terms))
        ctx.allclose(ln[i], want, 'log-normaliser', rtol=1e-10, atol=1e-11 * size)
