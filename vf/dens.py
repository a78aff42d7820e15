"""Exponential-family densities: generated parameters and independent references.

`make(spec)` gives float64 numpy standard parameters; the reference functions
below never call the code under test.
"""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import digamma, gammaln, multigammaln

FAMILIES = ['dirichlet', 'gamma', 'isonormalgamma', 'normalgamma', 'normalwishart',
            'normaldiag', 'normalfull']
PARAMS = {
    'dirichlet': ['concentrations'],
    'gamma': ['shape', 'rate'],
    'isonormalgamma': ['mean', 'scale', 'shape', 'rate'],
    'normalgamma': ['mean', 'scale', 'shape', 'rates'],
    'normalwishart': ['mean', 'scale', 'scale_matrix', 'dof'],
    'normaldiag': ['mean', 'diag_cov'],
    'normalfull': ['mean', 'cov'],
}


def cls(family):
    import beer.dists as d
    return {
        'dirichlet': d.Dirichlet, 'gamma': d.Gamma,
        'isonormalgamma': d.IsotropicNormalGamma, 'normalgamma': d.NormalGamma,
        'normalwishart': d.NormalWishart, 'normaldiag': d.NormalDiagonalCovariance,
        'normalfull': d.NormalFullCovariance}[family]


def spec_strategy(families=FAMILIES, max_dim=6, max_n=5, dtypes=('float64', 'float64', 'float32'),
                  spread=2, units=(0, 0, 0, 0, -3, -2, 2, 3)):
    large = [None] * 15 + (['dim', 'n'] if max_dim > 4 else [])

    def sizes(spec):
        spec = dict(spec)
        big = spec.pop('large')
        if big and spec['dtype'] == 'float64':
            if big == 'dim':
                spec['dim'] = 7 + spec['seed'] % 20
                spec['spread'] = min(spec['spread'], 1)
            else:
                spec['n'] = 6 + spec['seed'] % 70
        elif big == 'dim':
            spec['dim'] = 7 + spec['seed'] % 34
            spec['spread'] = 0
        return spec
    return st.fixed_dictionaries({
        'large': st.sampled_from(large),
        'family': st.sampled_from(list(families)),
        'dim': st.integers(1, max_dim),
        'n': st.integers(0, max_n),          # 0: a single density
        'seed': st.integers(0, 10 ** 6),
        'spread': st.integers(0, spread),    # decades of the positive parameters
        'unit': st.sampled_from(list(units)),   # decades of the unit of the data
        'dtype': st.sampled_from(list(dtypes)),
    }).map(sizes)


def spd(rng, dim, spread):
    'Well conditioned random symmetric positive-definite matrix.'
    q, _ = np.linalg.qr(rng.normal(size=(dim, dim)) + 1e-3 * np.eye(dim))
    ev = pos(rng, (dim,), min(spread, 1))
    m = (q * ev) @ q.T
    return .5 * (m + m.T)


def pos(rng, shape, spread):
    return np.exp(rng.uniform(-1, 1, size=shape) * (0.3 + spread * math.log(10) / 2))


def make1(family, dim, rng, spread):
    mean = rng.normal(size=dim) * (1 + spread)
    if family == 'dirichlet':
        return {'concentrations': pos(rng, dim, spread)}
    if family == 'gamma':
        return {'shape': pos(rng, dim, spread), 'rate': pos(rng, dim, spread)}
    if family == 'isonormalgamma':
        return {'mean': mean, 'scale': pos(rng, 1, spread), 'shape': pos(rng, 1, spread),
                'rate': pos(rng, 1, spread)}
    if family == 'normalgamma':
        return {'mean': mean, 'scale': pos(rng, 1, spread), 'shape': pos(rng, 1, spread),
                'rates': pos(rng, dim, spread)}
    if family == 'normalwishart':
        return {'mean': mean, 'scale': pos(rng, 1, spread), 'scale_matrix': spd(rng, dim, spread),
                'dof': dim - 1 + pos(rng, 1, spread)}
    if family == 'normaldiag':
        return {'mean': mean, 'diag_cov': pos(rng, dim, spread)}
    if family == 'normalfull':
        return {'mean': mean, 'cov': spd(rng, dim, spread)}
    raise ValueError(family)


def make(spec, salt=0):
    'List of the standard parameters (one dict per density).'
    rng = np.random.default_rng([spec['seed'], salt])
    counts = np.random.default_rng([spec['seed'], salt, 1]) if spec.get('wide') else None
    return [in_unit(spec['family'], counted(make1(spec['family'], spec['dim'], rng, spec['spread']),
                                            spec['dim'], counts),
                    10. ** spec.get('unit', 0))
            for _ in range(max(1, spec['n']))]


def counted(p, dim, rng):
    """The density with the parameters that play the part of a number of
    observations drawn over ten decades (each on its own, or all alike)."""
    if rng is None:
        return p
    p, base = dict(p), rng.uniform(-5, 5)
    alike = rng.random() < .5
    for k in ('concentrations', 'scale', 'shape', 'dof'):
        if k in p:
            e = base + rng.normal(size=np.shape(p[k])) * .3 if alike \
                else rng.uniform(-5, 5, size=np.shape(p[k]))
            p[k] = 10. ** e + (dim - 1 if k == 'dof' else 0)
    return p


def in_unit(family, p, c):
    'The same density when the data are measured in another unit (c times the numbers).'
    if c == 1 or family == 'dirichlet':
        return p
    f = {'mean': c, 'rates': c ** 2, 'scale_matrix': c ** -2, 'diag_cov': c ** 2, 'cov': c ** 2,
         'rate': 1 / c if family == 'gamma' else c ** 2}
    return {k: v * f.get(k, 1.) for k, v in p.items()}


def build(spec, plist, dtype=None):
    'The density (or set of densities) of the library with these parameters.'
    import torch
    dt = getattr(torch, dtype or spec['dtype'])
    fam = spec['family']
    args = []
    for name in PARAMS[fam]:
        if spec['n'] == 0:
            v = plist[0][name]
        else:
            v = np.stack([p[name] for p in plist])
        args.append(torch.from_numpy(np.array(v)).to(dt))
    return cls(fam).from_std_parameters(*args)


def tol(spec, f64=1e-8, f32=2e-3):
    return f64 if spec['dtype'] == 'float64' else f32


# ----------------------------------------------------------------------
# References.  T(x) conventions are those documented in the code.

def natural(family, p):
    if family == 'dirichlet':
        a = p['concentrations']
        return np.concatenate([a[:-1] - 1, [np.sum(a - 1)]])
    if family == 'gamma':
        return np.concatenate([-p['rate'], p['shape'] - 1])
    if family == 'isonormalgamma':
        m, k, a, b = p['mean'], p['scale'], p['shape'], p['rate']
        return np.concatenate([k * m, -.5 * k * (m @ m) - b, -.5 * k, a - 1 + .5 * len(m)])
    if family == 'normalgamma':
        m, k, a, b = p['mean'], p['scale'], p['shape'], p['rates']
        return np.concatenate([k * m, -.5 * k * m ** 2 - b, -.5 * k, a - .5])
    if family == 'normalwishart':
        m, k, W, v = p['mean'], p['scale'], p['scale_matrix'], p['dof']
        return np.concatenate([k * m, (-.5 * (np.linalg.inv(W) + k * np.outer(m, m))).ravel(),
                               -.5 * k, .5 * (v - len(m))])
    if family == 'normaldiag':
        return np.concatenate([p['mean'] / p['diag_cov'], 1 / p['diag_cov']])
    if family == 'normalfull':
        P = np.linalg.inv(p['cov'])
        return np.concatenate([P @ p['mean'], P.ravel()])


def mean_stats(family, p):
    'E[T(x)] from textbook moments.'
    if family == 'dirichlet':
        a = p['concentrations']
        return np.concatenate([digamma(a[:-1]) - digamma(a[-1]),
                               [digamma(a[-1]) - digamma(a.sum())]])
    if family == 'gamma':
        return np.concatenate([p['shape'] / p['rate'], digamma(p['shape']) - np.log(p['rate'])])
    if family == 'isonormalgamma':
        m, k, a, b = p['mean'], p['scale'], p['shape'], p['rate']
        return np.concatenate([a / b * m, a / b, a / b * (m @ m) + len(m) / k,
                               digamma(a) - np.log(b)])
    if family == 'normalgamma':
        m, k, a, b = p['mean'], p['scale'], p['shape'], p['rates']
        return np.concatenate([a / b * m, a / b, np.sum(a / b * m ** 2) + len(m) / k,
                               [np.sum(digamma(a) - np.log(b))]])
    if family == 'normalwishart':
        m, k, W, v = p['mean'], p['scale'], p['scale_matrix'], p['dof']
        d = len(m)
        S = v * W
        elogdet = sum(digamma(.5 * (v - i)) for i in range(d)) + d * math.log(2) \
            + np.linalg.slogdet(W)[1]
        return np.concatenate([S @ m, S.ravel(), d / k + m @ S @ m, elogdet])
    if family == 'normaldiag':
        return np.concatenate([p['mean'], -.5 * (p['diag_cov'] + p['mean'] ** 2)])
    if family == 'normalfull':
        return np.concatenate([p['mean'],
                               -.5 * (p['cov'] + np.outer(p['mean'], p['mean'])).ravel()])


def base(family, dim):
    '''Constant left out of the documented log-normaliser (it depends on the
    dimension only and is part of the base measure).'''
    return .5 * dim * math.log(2 * math.pi) if family in ('normalgamma', 'isonormalgamma') else 0.


def log_norm(family, p):
    if family == 'dirichlet':
        a = p['concentrations']
        return np.sum(gammaln(a)) - gammaln(np.sum(a))
    if family == 'gamma':
        return np.sum(gammaln(p['shape']) - p['shape'] * np.log(p['rate']))
    if family == 'isonormalgamma':
        d, k, a, b = len(p['mean']), p['scale'][0], p['shape'][0], p['rate'][0]
        return gammaln(a) - a * np.log(b) - .5 * d * np.log(k)
    if family == 'normalgamma':
        d, k, a, b = len(p['mean']), p['scale'][0], p['shape'][0], p['rates']
        return np.sum(gammaln(a) - a * np.log(b)) - .5 * d * np.log(k)
    if family == 'normalwishart':
        d, k, W, v = len(p['mean']), p['scale'][0], p['scale_matrix'], p['dof'][0]
        return (.5 * v * np.linalg.slogdet(W)[1] + .5 * v * d * math.log(2)
                + multigammaln(.5 * v, d) - .5 * d * np.log(k) + .5 * d * math.log(2 * math.pi))
    if family == 'normaldiag':
        return .5 * np.sum(p['mean'] ** 2 / p['diag_cov'] + np.log(p['diag_cov'])
                           + math.log(2 * math.pi))
    if family == 'normalfull':
        m, C = p['mean'], p['cov']
        return .5 * (m @ np.linalg.solve(C, m) + np.linalg.slogdet(C)[1]
                     + len(m) * math.log(2 * math.pi))


# -- textbook divergences (not through natural parameters) ---------------

def _kl_gauss(m1, C1, m2, C2):
    P2 = np.linalg.inv(C2)
    d = m2 - m1
    return .5 * (np.trace(P2 @ C1) + d @ P2 @ d - len(m1)
                 + np.linalg.slogdet(C2)[1] - np.linalg.slogdet(C1)[1])


def _kl_gamma(a1, b1, a2, b2):
    return ((a1 - a2) * digamma(a1) - gammaln(a1) + gammaln(a2)
            + a2 * (np.log(b1) - np.log(b2)) + a1 * (b2 - b1) / b1)


def kl(family, p, q):
    if family == 'dirichlet':
        a, b = p['concentrations'], q['concentrations']
        return (gammaln(a.sum()) - gammaln(a).sum() - gammaln(b.sum()) + gammaln(b).sum()
                + np.sum((a - b) * (digamma(a) - digamma(a.sum()))))
    if family == 'gamma':
        return np.sum(_kl_gamma(p['shape'], p['rate'], q['shape'], q['rate']))
    if family in ('isonormalgamma', 'normalgamma'):
        rn = 'rate' if family == 'isonormalgamma' else 'rates'
        d = len(p['mean'])
        e_prec = np.broadcast_to(p['shape'] / p[rn], (d,))
        k1, k2 = p['scale'][0], q['scale'][0]
        cond = .5 * (d * k1 ** -1 * k2 + k2 * np.sum(e_prec * (p['mean'] - q['mean']) ** 2)
                     - d + d * np.log(k1 / k2))
        return cond + np.sum(_kl_gamma(p['shape'], p[rn], q['shape'], q[rn]))
    if family == 'normalwishart':
        d = len(p['mean'])
        v1, v2 = p['dof'][0], q['dof'][0]
        W1, W2 = p['scale_matrix'], q['scale_matrix']
        k1, k2 = p['scale'][0], q['scale'][0]
        dm = p['mean'] - q['mean']
        cond = .5 * (d * k2 / k1 + k2 * v1 * dm @ W1 @ dm - d + d * np.log(k1 / k2))
        psi = sum(digamma(.5 * (v1 - i)) for i in range(d))
        wish = (.5 * (v1 - v2) * psi + multigammaln(.5 * v2, d) - multigammaln(.5 * v1, d)
                + .5 * v2 * (np.linalg.slogdet(W2)[1] - np.linalg.slogdet(W1)[1])
                + .5 * v1 * (np.trace(np.linalg.solve(W2, W1)) - d))
        return cond + wish
    if family == 'normaldiag':
        return _kl_gauss(p['mean'], np.diag(p['diag_cov']), q['mean'], np.diag(q['diag_cov']))
    if family == 'normalfull':
        return _kl_gauss(p['mean'], p['cov'], q['mean'], q['cov'])


def entropy(family, p):
    'Entropy with respect to the base measure of the documented form.'
    return log_norm(family, p) - natural(family, p) @ mean_stats(family, p)
