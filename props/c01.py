"""C01: natural and standard parameters are inverse maps; selection from sets."""
import numpy as np
import torch
from hypothesis import strategies as st

from vf import dens
from vf.core import facet

RULE = ('A case is a family, a dimension (1-6), a set size (single density or 1-5), a spread of '
        'the parameters, a float type and a seed expanding to parameters.  Non-trivial: dimension '
        '> 1 or a set of several densities.')
ASSUMPTIONS = ['CPU tensors', 'parameters of the shapes documented for single densities and sets']


def setup(spec, ctx):
    plist = dens.make(spec)
    ctx.label(spec['family'])
    ctx.label('single' if spec['n'] == 0 else 'set')
    ctx.label(spec['dtype'])
    ctx.nontrivial(spec['dim'] > 1 or spec['n'] > 1)
    return plist, dens.build(spec, plist)


def stacked(spec, rows):
    rows = [np.atleast_1d(r) for r in rows]
    return rows[0] if spec['n'] == 0 else np.stack(rows)


def check_params(ctx, d, spec, plist, msg, rtol):
    for name in dens.PARAMS[spec['family']]:
        want = plist[0][name] if spec['n'] == 0 else np.stack([p[name] for p in plist])
        ctx.allclose(getattr(d.params, name), want, f'{msg}: {name}', rtol=rtol,
                     atol=rtol * max(1., float(np.abs(want).max())))


@facet(dens.spec_strategy(), quick=2500)
def natural_then_standard(spec, ctx):
    'std -> natural equals the documented map; natural -> std is its inverse.'
    plist, d = setup(spec, ctx)
    t = dens.tol(spec, 1e-9, 1e-3)
    nat = d.natural_parameters()
    ref = stacked(spec, [dens.natural(spec['family'], p) for p in plist])
    big = max(1., float(np.abs(ref).max()))
    ctx.ensure(nat.dtype == getattr(torch, spec['dtype']), 'natural parameters change the float type')
    ctx.allclose(nat, ref, 'natural parameters', rtol=t, scale=big)
    back = type(d)(type(d.params).from_natural_parameters(nat.clone()))
    check_params(ctx, back, spec, plist, 'standard parameters from natural ones', t * 10)
    ctx.ensure(len(d) == max(1, spec['n']), f'len() is {len(d)} for {max(1, spec["n"])} densities')
    ctx.ensure(len(back) == len(d), 'len() changes through the natural parameters')
    # Reading the natural parameters neither changes the density nor aliases it.
    nat.mul_(0).add_(7)
    check_params(ctx, d, spec, plist, 'after overwriting the returned natural parameters', t)


def other(spec):
    s = dict(spec)
    s['seed'] = spec['seed'] + 1
    return s


@facet(dens.spec_strategy(), quick=2000)
def write_then_read(spec, ctx):
    'update_from_natural_parameters then natural_parameters is the identity.'
    plist, d = setup(spec, ctx)
    t = dens.tol(spec, 1e-9, 2e-3)
    new = dens.make(spec, salt=1)
    eta = stacked(spec, [dens.natural(spec['family'], p) for p in new])
    teta = torch.from_numpy(eta).to(getattr(torch, spec['dtype']))
    keep = teta.clone()
    d.update_from_natural_parameters(teta)
    ctx.ensure(torch.equal(keep, teta), 'update_from_natural_parameters changed its argument')
    big = max(1., float(np.abs(eta).max()))
    ctx.allclose(d.natural_parameters(), eta, 'natural parameters after an update', rtol=t, scale=big)
    check_params(ctx, d, spec, new, 'standard parameters after an update', t * 10)
    # A second update starts from nothing but its argument.
    d.update_from_natural_parameters(d.natural_parameters())
    ctx.allclose(d.natural_parameters(), eta, 'natural parameters after two updates',
                 rtol=2 * t, scale=big)


@facet(st.tuples(dens.spec_strategy(max_n=6), st.lists(st.integers(-6, 5), min_size=1, max_size=4),
                 st.sampled_from(['int', 'slice', 'list']), st.integers(1, 3)), quick=2000)
def selection(case, ctx):
    'Selected densities equal the same densities built alone.'
    spec, idx, kind, step = case
    spec = dict(spec, n=max(1, spec['n']))
    plist, d = setup(spec, ctx)
    n = spec['n']
    ctx.label(kind)
    if kind == 'int':
        i = idx[0] % n if idx[0] >= 0 else -((-idx[0] - 1) % n) - 1
        sel, sub, ns = d[i], [plist[i]], 0
        ctx.label('negative index', i < 0)
    elif kind == 'slice':
        a, b = sorted([idx[0] % n, idx[-1] % n])
        s = slice(a, b + 1, step)
        sel, sub = d[s], plist[s]
        ns = len(sub)
    else:
        ids = [i % n for i in idx]
        sel, sub = d[ids], [plist[i] for i in ids]
        ns = len(sub)
    sspec = dict(spec, n=ns)
    alone = dens.build(sspec, sub)
    t = dens.tol(spec, 1e-12, 1e-5)
    ctx.ensure(len(sel) == len(alone), f'selection has {len(sel)} densities instead of {len(alone)}')
    for what in ('natural_parameters', 'expected_sufficient_statistics', 'log_norm'):
        want = getattr(alone, what)()
        ctx.allclose(getattr(sel, what)(), want, f'{what} of a selection', rtol=t,
                     scale=max(1., float(want.abs().max())))
    check_params(ctx, sel, sspec, sub, 'parameters of a selection', t)
    check_params(ctx, d, spec, plist, 'parameters after a selection', t)
    ctx.ensure(type(sel) is type(d), 'type of a selection')


CONJ = ['dirichlet', 'gamma', 'isonormalgamma', 'normalgamma', 'normalwishart']


@facet(dens.spec_strategy(CONJ), quick=1000)
def conjugate_description(spec, ctx):
    'The conjugate likelihood has statistics as long as the natural parameters.'
    plist, d = setup(spec, ctx)
    fam, dim = spec['family'], spec['dim']
    lik = d.conjugate()
    ctx.ensure(lik.dim == dim, f'dimension of the conjugate likelihood is {lik.dim}')
    dt = getattr(torch, spec['dtype'])
    rng = np.random.default_rng(spec['seed'])
    data = torch.from_numpy(rng.gamma(2., size=(3, dim))).to(dt)
    if fam == 'dirichlet':
        data = torch.eye(dim, dtype=dt)
    stats = lik.sufficient_statistics(data)
    nat = d.natural_parameters()
    ctx.ensure(stats.dtype == dt, 'sufficient statistics change the float type')
    want = nat.shape[-1] + (1 if fam == 'gamma' else 0)
    ctx.ensure(stats.shape == (len(data), want),
               f'shape of the statistics {tuple(stats.shape)} for {nat.shape[-1]} natural parameters')
    free = {'dirichlet': dim - 1, 'gamma': 2 * dim, 'isonormalgamma': dim + 1,
            'normalgamma': 2 * dim, 'normalwishart': 2 * dim + dim * (dim - 1) // 2}[fam]
    ctx.ensure(lik.sufficient_statistics_dim(zero_stats=False) == free,
               f'number of free parameters {lik.sufficient_statistics_dim(zero_stats=False)}')
    if fam != 'normalwishart':
        ctx.ensure(lik.sufficient_statistics_dim(zero_stats=True) == stats.shape[-1],
                   'dimension of the sufficient statistics')


def far(max_n=4):
    'Densities with very small or very large numbers of observations.'
    return dens.spec_strategy(CONJ, max_n=max_n, dtypes=('float64',), spread=1, units=(0,)).map(
        lambda s: dict(s, wide=True))


@facet(far(), quick=1200)
def any_count(spec, ctx):
    'The maps are inverse of each other whatever the number of observations (1e-5 to 1e5).'
    plist, d = setup(spec, ctx)
    nat = d.natural_parameters()
    ref = stacked(spec, [dens.natural(spec['family'], p) for p in plist])
    ctx.allclose(nat, ref, 'natural parameters', rtol=1e-9, atol=1e-11)
    back = type(d)(type(d.params).from_natural_parameters(nat.clone()))
    d.update_from_natural_parameters(nat.clone())
    for i, p in enumerate(plist):
        big = 1 + float(np.abs(np.atleast_2d(ref)[i]).max())
        for name in dens.PARAMS[spec['family']]:
            for what, x in (('standard parameters from natural ones', back),
                            ('standard parameters after an update', d)):
                v = getattr(x.params, name)
                ctx.allclose(v if spec['n'] == 0 else v[i], p[name], f'{what}: {name}',
                             rtol=1e-8, atol=1e-12 * big)
