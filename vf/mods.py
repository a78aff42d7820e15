"""Building blocks shared by the checks of models (reference side: numpy only)."""
import numpy as np

from vf import dens

COV = {'isotropic': 'isonormalgamma', 'diagonal': 'normalgamma', 'full': 'normalwishart'}


def sizes(low, high, big=(65, 300), usual=14):
    'Numbers between low and high, and now and then large ones.'
    from hypothesis import strategies as st
    return st.one_of(*[st.integers(low, high)] * usual, st.integers(*big))


GIVEN = []      # the tensors handed to the library by the running case


def t64(x, watch=True):
    import torch
    x = torch.from_numpy(np.array(x, dtype=np.float64))
    if watch:
        GIVEN.append((x, x.clone()))
    return x


def check_given():
    'The library does not overwrite what it is given.'
    import torch
    for x, copy in GIVEN:
        if x.shape != copy.shape or not torch.equal(x.detach().nan_to_num(), copy.nan_to_num()):
            raise AssertionError('an argument of the library was overwritten')


def family_of(dist):
    return {'Dirichlet': 'dirichlet', 'Gamma': 'gamma', 'IsotropicNormalGamma': 'isonormalgamma',
            'NormalGamma': 'normalgamma', 'NormalWishart': 'normalwishart',
            'NormalDiagonalCovariance': 'normaldiag', 'NormalFullCovariance': 'normalfull'
            }[type(dist).__name__]


def std_of(dist):
    'List of standard parameters (numpy) of a density object.'
    fam = family_of(dist)
    vals = {}
    for name in dens.PARAMS[fam]:
        vals[name] = getattr(dist.params, name).detach().double().numpy()
    first = dens.PARAMS[fam][0]
    if vals[first].ndim == 1:
        # 0-d and [1] are both used for the scalars of a single density.
        return [{k: (v.reshape(1) if v.ndim == 0 else v).copy() for k, v in vals.items()}]
    return [{k: v[i].copy() for k, v in vals.items()} for i in range(len(vals[first]))]


def nat_of(dist):
    fam = family_of(dist)
    return np.stack([dens.natural(fam, p) for p in std_of(dist)])


def kl_of(post, prior):
    fam = family_of(post)
    return sum(float(dens.kl(fam, p, q)) for p, q in zip(std_of(post), std_of(prior)))


def conj_params(model):
    'Distinct conjugate parameters found by walking the module tree.'
    seen, out = set(), []
    for m in model.modules():
        if type(m).__name__ == 'ConjugateBayesianParameter' and id(m) not in seen:
            seen.add(id(m))
            out.append(m)
    return out


def other_etas(pars, rng):
    'Natural parameters of another random posterior for each parameter.'
    out = []
    for p in pars:
        fam, now = family_of(p.posterior), std_of(p.posterior)
        new = [dens.make1(fam, len(v[dens.PARAMS[fam][0]]), rng, 1) for v in now]
        out.append(t64(np.stack([dens.natural(fam, v) for v in new])).reshape(
            p.posterior.natural_parameters().shape))
    return out


def T(fam, x):
    'Sufficient statistics (documented convention) of frames x [n, d].'
    n, d = x.shape
    one = np.ones((n, 1))
    if fam == 'dirichlet':
        return np.concatenate([x[:, :-1], x.sum(1, keepdims=True)], axis=1)
    if fam == 'isonormalgamma':
        return np.concatenate([x, -.5 * (x ** 2).sum(1, keepdims=True), -.5 * one, .5 * d * one], axis=1)
    if fam == 'normalgamma':
        return np.concatenate([x, -.5 * x ** 2, -.5 * one, .5 * one], axis=1)
    if fam == 'normalwishart':
        q = (x[:, :, None] * x[:, None, :]).reshape(n, d * d)
        return np.concatenate([x, -.5 * q, -.5 * one, .5 * one], axis=1)
    raise ValueError(fam)


def expected_llh(fam, p, x):
    '''E_q[log p(x | theta)] per frame for a density q over the parameters, from
    textbook moments.'''
    s = T(fam, x) @ dens.mean_stats(fam, p)
    if fam != 'dirichlet':
        s = s - .5 * x.shape[1] * np.log(2 * np.pi)
    return s


def conj_update(fam, p, x, w=None):
    'Textbook posterior from prior p and (weighted) data x.'
    w = np.ones(len(x)) if w is None else w
    N = w.sum()
    d = x.shape[1]
    if fam == 'dirichlet':
        return {'concentrations': p['concentrations'] + w @ x}
    sx = w @ x
    k = p['scale'] + N
    m = (p['scale'] * p['mean'] + sx) / k
    xb = sx / N if N > 0 else np.zeros(d)
    dx = x - xb
    diff = xb - p['mean']
    if fam == 'normalwishart':
        S = (dx * w[:, None]).T @ dx
        Winv = np.linalg.inv(p['scale_matrix']) + S + (p['scale'] * N / k) * np.outer(diff, diff)
        return {'mean': m, 'scale': k, 'scale_matrix': np.linalg.inv(Winv), 'dof': p['dof'] + N}
    S = w @ dx ** 2 + p['scale'] * N / k * diff ** 2
    if fam == 'normalgamma':
        return {'mean': m, 'scale': k, 'shape': p['shape'] + .5 * N, 'rates': p['rates'] + .5 * S}
    if fam == 'isonormalgamma':
        return {'mean': m, 'scale': k, 'shape': p['shape'] + .5 * N * d,
                'rate': p['rate'] + .5 * S.sum()}
    raise ValueError(fam)


def random_param(fam, dim, n, rng, spread=1):
    'Conjugate parameter with unrelated random prior and posterior.'
    from beer.models import ConjugateBayesianParameter
    spec = {'family': fam, 'dim': dim, 'n': n, 'dtype': 'float64'}
    mk = lambda: [dens.make1(fam, dim, rng, spread) for _ in range(max(1, n))]
    return ConjugateBayesianParameter(dens.build(spec, mk()), dens.build(spec, mk()))


def normal_model(cov, dim, rng, spread=1):
    import beer
    return beer.Normal(random_param(COV[cov], dim, 0, rng, spread))


def normal_set(cov, dim, n, rng, spread=1):
    import beer
    return beer.NormalSet(random_param(COV[cov], dim, n, rng, spread))


def random_categorical(n, rng):
    import beer
    return beer.Categorical(random_param('dirichlet', n, 0, rng, 1))


def random_categorical_set(n, k, rng):
    import beer
    return beer.CategoricalSet(random_param('dirichlet', k, n, rng, 1))


def set_llh(model_set_param, x):
    'Expected log-likelihood matrix [frames, models] of a conjugate Normal set.'
    fam = family_of(model_set_param.posterior)
    return np.stack([expected_llh(fam, p, x) for p in std_of(model_set_param.posterior)], axis=1)


def logsumexp(a, axis):
    m = np.max(a, axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.)
    with np.errstate(divide='ignore'):
        return (m + np.log(np.sum(np.exp(a - m), axis=axis, keepdims=True))).squeeze(axis)
