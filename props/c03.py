"""C03: KL divergence and entropy."""
import numpy as np
from hypothesis import strategies as st

from vf import dens
from vf.core import facet
from props.c01 import far, setup, stacked
from props.c02 import scale_of

RULE = ('A case is a pair of densities (family, dimension 1-6, single or sets of 1-5, spread, float '
        'type, seed).  Non-trivial: dimension > 1 or several densities.')
ASSUMPTIONS = ['textbook closed forms computed with scipy are the reference',
               'entropies are with respect to the base measure of the documented form']


@facet(dens.spec_strategy(), quick=3000)
def divergence(spec, ctx):
    'kl_div equals the textbook divergence, density by density.'
    import beer.dists as bd
    plist, d1 = setup(spec, ctx)
    fam = spec['family']
    qlist = dens.make(spec, salt=1)
    d2 = dens.build(spec, qlist)
    want = np.array([float(dens.kl(fam, p, q)) for p, q in zip(plist, qlist)])
    mag = max(scale_of(p, fam) + float(np.abs(dens.natural(fam, q)) @ np.abs(dens.mean_stats(fam, p)))
              for p, q in zip(plist, qlist))
    t = dens.tol(spec, 1e-9, 1e-3)
    got = bd.kl_div(d1, d2)
    ctx.ensure(got.numel() == len(plist), f'shape of the divergence {tuple(got.shape)}')
    ctx.allclose(got.reshape(-1), want, 'divergence', rtol=t, scale=mag)
    ctx.ensure(float(got.min()) >= -t * mag, 'negative divergence')
    same = bd.kl_div(d1, dens.build(spec, plist))
    ctx.allclose(same.reshape(-1), np.zeros(len(plist)), 'divergence from itself', atol=t * mag)
    self_ = bd.kl_div(d1, d1)
    ctx.allclose(self_.reshape(-1), np.zeros(len(plist)), 'divergence of one object', atol=t * mag)
    # Neither argument is changed.
    for d, pl in ((d1, plist), (d2, qlist)):
        nat = stacked(spec, [dens.natural(fam, p) for p in pl])
        ctx.allclose(d.natural_parameters(), nat, 'parameters after the divergence',
                     rtol=t, scale=max(1., float(np.abs(nat).max())))


@facet(dens.spec_strategy(), quick=2000)
def entropy(spec, ctx):
    'entropy equals minus the expected log-density.'
    from beer.dists import entropy as H
    plist, d = setup(spec, ctx)
    fam = spec['family']
    want = np.array([float(dens.entropy(fam, p)) for p in plist])
    mag = max(scale_of(p, fam) + abs(float(dens.log_norm(fam, p))) for p in plist)
    t = dens.tol(spec, 1e-9, 1e-3)
    got = H(d)
    ctx.ensure(got.numel() == len(plist), f'shape of the entropy {tuple(got.shape)}')
    ctx.allclose(got.reshape(-1), want, 'entropy', rtol=t, scale=mag)


@facet(st.tuples(dens.spec_strategy(dtypes=('float64',)), dens.spec_strategy(dtypes=('float64',))),
       quick=600)
def mismatch(case, ctx):
    'Densities of different families or different dimensions are rejected.'
    import beer.dists as bd
    from beer.dists import basedist
    a, b = case
    d1, d2 = dens.build(a, dens.make(a)), dens.build(b, dens.make(b))
    ctx.nontrivial()
    if a['family'] != b['family']:
        ctx.label('family')
        ctx.raises(basedist.DistributionTypeMismatch, lambda: bd.kl_div(d1, d2),
                   'divergence between different families')
    elif a['dim'] != b['dim']:
        ctx.label('dimension')
        ctx.raises(basedist.SupportDimensionMismatch, lambda: bd.kl_div(d1, d2),
                   'divergence between different dimensions')
    else:
        ctx.label('compatible')


@facet(st.tuples(dens.spec_strategy(dtypes=('float64',), max_n=5), st.integers(0, 4)), quick=800)
def selected(case, ctx):
    'The divergence of a selected density is the entry of the divergence of the set.'
    import beer.dists as bd
    spec, i = case
    spec = dict(spec, n=max(1, spec['n']))
    i = i % spec['n']
    p, d1 = setup(spec, ctx)
    q = dens.make(spec, salt=1)
    d2 = dens.build(spec, q)
    full = bd.kl_div(d1, d2).reshape(-1)
    one = bd.kl_div(d1[i], d2[i]).reshape(-1)
    mag = scale_of(p[i], spec['family']) + abs(float(full[i]))
    ctx.allclose(one, full[i:i + 1], 'divergence of a selected density', rtol=1e-9, scale=mag)
    h = bd.entropy(d1).reshape(-1)
    ctx.allclose(bd.entropy(d1[i]).reshape(-1), h[i:i + 1], 'entropy of a selected density',
                 rtol=1e-9, scale=mag)


@facet(st.tuples(dens.spec_strategy(dtypes=('float64',), max_dim=4), st.integers(1, 60),
                 st.sampled_from([0, 1, 2, 3])), quick=2500)
def nearly_equal(case, ctx):
    'The divergence of nearly equal densities is small but exact, never rounded to zero.'
    import beer.dists as bd
    spec, k, far = case
    rel = 10 ** (-k / 10.)
    fam = spec['family']
    plist = dens.make(spec)
    rng = np.random.default_rng([spec['seed'], 3])
    qlist = []
    for p in plist:
        for name in p:
            # Sharp densities: many observations, a mean far from the origin.
            if name in ('concentrations', 'dof') or (name == 'shape' and fam == 'gamma'):
                p[name] = p[name] * 10. ** far
            if name == 'mean':
                p[name] = p[name] * 10. ** min(far, 2)
        q = dict(p)
        names = sorted(p)
        which = [n for n in names if rng.random() < .5] or [names[rng.integers(len(names))]]
        for n in which:
            low = spec['dim'] - 1 if n == 'dof' else 0
            q[n] = low + (p[n] - low) * (1 + rel * rng.choice([-1, 1]) * rng.uniform(.5, 1))
        qlist.append(q)
    d1, d2 = dens.build(spec, plist), dens.build(spec, qlist)
    want = np.array([float(dens.kl(fam, p, q)) for p, q in zip(plist, qlist)])
    mag = np.array([scale_of(p, fam) + float(np.abs(dens.natural(fam, q)) @ np.abs(dens.mean_stats(fam, p)))
                    for p, q in zip(plist, qlist)])
    got = bd.kl_div(d1, d2).reshape(-1).numpy()
    ctx.label(f'{fam}')
    if np.any(want > 2e-12 * mag):
        ctx.nontrivial()
    err = np.abs(got - want)
    ctx.ensure(bool(np.all(err <= 2e-13 * mag)), f'divergence {got} instead of {want}')


@facet(far(), quick=1200)
def any_count(spec, ctx):
    'Divergence and entropy, whatever the number of observations (1e-5 to 1e5).'
    import beer.dists as bd
    fam = spec['family']
    p, d1 = setup(spec, ctx)
    q = dens.make(spec, salt=1)
    d2 = dens.build(spec, q)
    got, h = bd.kl_div(d1, d2).reshape(-1), bd.entropy(d1).reshape(-1)
    ctx.ensure(len(got) == len(p) and len(h) == len(p), 'number of values')
    for i, (a, b) in enumerate(zip(p, q)):
        mag = scale_of(a, fam) + abs(float(dens.log_norm(fam, a))) + abs(float(dens.log_norm(fam, b))) \
            + float(np.abs(dens.natural(fam, b)) @ np.abs(dens.mean_stats(fam, a)))
        ctx.allclose(got[i], float(dens.kl(fam, a, b)), 'divergence', rtol=1e-10, atol=1e-11 * mag)
        ctx.ensure(float(got[i]) >= -1e-12 * mag, f'negative divergence {float(got[i])}')
        ctx.allclose(h[i], float(dens.entropy(fam, a)), 'entropy', rtol=1e-10, atol=1e-11 * mag)


@facet(st.fixed_dictionaries({
    'family': st.sampled_from(['normaldiag', 'normalfull', 'normalfull', 'normalgamma', 'normalwishart', 'dirichlet', 'gamma']),
    'dim': st.integers(7, 40), 'n': st.integers(0, 3), 'seed': st.integers(0, 10 ** 6), 'spread': st.just(0),
    'unit': st.sampled_from([-3, -2, -1, 1, 2, 3]), 'dtype': st.sampled_from(['float32', 'float32', 'float64'])}), quick=400)
def many_dimensions(spec, ctx):
    'Divergence and entropy of densities with as many dimensions as acoustic features, in any unit.'
    import beer.dists as bd
    fam = spec['family']
    p, d1 = setup(spec, ctx)
    q = dens.make(spec, salt=1)
    got, h = bd.kl_div(d1, dens.build(spec, q)).reshape(-1), bd.entropy(d1).reshape(-1)
    ctx.ensure(len(got) == len(p) and len(h) == len(p), 'number of values')
    t = dens.tol(spec, 1e-9, 1e-3)
    for i, (a, b) in enumerate(zip(p, q)):
        mag = scale_of(a, fam) + abs(float(dens.log_norm(fam, a))) \
            + float(np.abs(dens.natural(fam, b)) @ np.abs(dens.mean_stats(fam, a)))
        ctx.allclose(got[i], float(dens.kl(fam, a, b)), 'divergence', rtol=t, atol=t * mag)
        ctx.allclose(h[i], float(dens.entropy(fam, a)), 'entropy', rtol=t, atol=t * mag)
