"""C05: conjugate updates give the exact Bayesian posterior."""
import numpy as np
import torch
from hypothesis import strategies as st

from vf import dens, mods
from vf.core import facet

RULE = ('A case is a model kind, dimension (1-4), a prior and posterior, data, and a history of '
        'steps (mini-batch, learning rate, split into parts, order).  Non-trivial: more than one '
        'frame and, for histories, several steps or parts.')
ASSUMPTIONS = ['textbook conjugate updates computed with numpy are the reference', 'float64']

KINDS = ['isotropic', 'diagonal', 'full', 'categorical', 'gamma']


def build(kind, dim, rng):
    'A model with unrelated random prior and posterior.'
    import beer
    if kind == 'categorical':
        return mods.random_categorical(dim + 1, rng)
    if kind == 'gamma':
        return beer.Gamma(mods.t64(dens.pos(rng, dim, 1)), mods.random_param('gamma', dim, 0, rng))
    return mods.normal_model(kind, dim, rng)


def data(kind, dim, n, rng):
    if kind == 'categorical':
        x = np.zeros((n, dim + 1))
        x[np.arange(n), rng.integers(0, dim + 1, size=n)] = 1
        return x
    if kind == 'gamma':
        return dens.pos(rng, (n, dim), 1)
    return rng.normal(size=(n, dim)) * 2 + 1


def closed_form(kind, model, prior, x):
    if kind == 'gamma':
        s = model.shape.double().numpy()
        return {'shape': prior['shape'] + len(x) * s, 'rate': prior['rate'] + x.sum(0)}
    return mods.conj_update({'categorical': 'dirichlet'}.get(kind) or mods.COV[kind], prior, x)


def the_param(model):
    p, = mods.conj_params(model)
    return p


def compare_std(ctx, dist, want, msg, rtol=1e-8):
    got = mods.std_of(dist)
    ctx.ensure(len(got) == len(want), f'{msg}: number of densities')
    for g, w in zip(got, want):
        for k in w:
            sc = max(1., float(np.abs(w[k]).max()))
            ctx.allclose(g[k].reshape(w[k].shape), w[k], f'{msg}: {k}', rtol=rtol, scale=sc)


@facet(st.fixed_dictionaries({
    'kind': st.sampled_from(KINDS), 'dim': st.integers(1, 4), 'n': mods.sizes(1, 30, (65, 3000)),
    'parts': st.integers(1, 5), 'seed': st.integers(0, 10 ** 6)}), quick=1200)
def full_update(spec, ctx):
    'One update with all data, in any order and any partition, is the textbook posterior.'
    import beer
    kind, dim, n = spec['kind'], spec['dim'], spec['n']
    rng = np.random.default_rng(spec['seed'])
    model = build(kind, dim, rng)
    x = data(kind, dim, n, rng)
    par = the_param(model)
    prior, = mods.std_of(par.prior)
    ctx.label(kind)
    ctx.nontrivial(n > 1)
    order = rng.permutation(n)
    parts = [p for p in np.array_split(order, min(spec['parts'], n)) if len(p)]
    ctx.label('several parts', len(parts) > 1)
    optim = beer.VBConjugateOptimizer(model.mean_field_factorization(), lrate=1.)
    optim.init_step()
    elbo = beer.evidence_lower_bound(datasize=n)
    for p in parts:
        xt = mods.t64(x[p])
        keep = xt.clone()
        elbo += beer.evidence_lower_bound(model, xt, datasize=n)
        ctx.ensure(torch.equal(xt, keep), 'the data is modified')
    elbo.backward()
    optim.step()
    compare_std(ctx, par.posterior, [closed_form(kind, model, prior, x)], 'posterior')
    compare_std(ctx, par.prior, [prior], 'prior after the update', rtol=1e-12)


step = st.tuples(st.integers(1, 12), st.sampled_from([1., .5, .1, .013, 0.]), st.integers(1, 3),
                 st.booleans())


@facet(st.fixed_dictionaries({
    'kind': st.sampled_from(KINDS), 'dim': st.integers(1, 3), 'n': mods.sizes(1, 60, (65, 3000)),
    'steps': st.lists(step, min_size=1, max_size=6), 'seed': st.integers(0, 10 ** 6)}), quick=900)
def history(spec, ctx):
    'Histories of mini-batches and learning rates follow the natural-parameter recursion.'
    import beer
    kind, dim = spec['kind'], spec['dim']
    rng = np.random.default_rng(spec['seed'])
    model = build(kind, dim, rng)
    par = the_param(model)
    fam = mods.family_of(par.prior)
    prior_std = mods.std_of(par.prior)
    prior = mods.nat_of(par.prior)[0]
    post = mods.nat_of(par.posterior)[0]
    optim = beer.VBConjugateOptimizer(model.mean_field_factorization(), lrate=1.)
    ctx.label(kind)
    ctx.nontrivial(len(spec['steps']) > 1)
    big = np.abs(prior).max() + np.abs(post).max()
    for i, (nb, lrate, parts, stale) in enumerate(spec['steps']):
        datasize = spec['n'] if spec['n'] >= nb else nb
        x = data(kind, dim, nb, rng)
        if not stale:
            # Without init_step the statistics of a step still replace the former ones.
            optim.init_step()
        optim.lrate = lrate
        elbo = beer.evidence_lower_bound(datasize=datasize)
        for p in np.array_split(np.arange(nb), min(parts, nb)):
            elbo += beer.evidence_lower_bound(model, mods.t64(x[p]), datasize=datasize)
        elbo.backward()
        optim.step()
        if kind == 'gamma':
            s = model.shape.double().numpy()
            tot = np.concatenate([-x.sum(0), nb * s])
        else:
            tot = mods.T(fam, x).sum(0)
        target = prior + datasize / nb * tot
        post = post + lrate * (target - post)
        big = max(big, np.abs(target).max())
        ctx.label(f'lrate {lrate}')
        ctx.label('scaled mini-batch', datasize > nb)
        ctx.allclose(par.posterior.natural_parameters(), post,
                     f'natural parameters after step {i + 1}', rtol=1e-8, scale=big)
    compare_std(ctx, par.prior, prior_std, 'prior after the history', rtol=1e-12)


@facet(st.fixed_dictionaries({
    'kind': st.sampled_from(KINDS), 'dim': st.integers(1, 4), 'n': mods.sizes(1, 20, (65, 500)),
    'rates': st.lists(st.sampled_from([1., .5, .1, 1e-2, 1e-4, 1e-6, 1e-8, 0.]), min_size=1, max_size=8),
    'repeat': st.sampled_from([1, 1, 5, 40]), 'seed': st.integers(0, 10 ** 6)}), quick=400)
def same_statistics(spec, ctx):
    'Several updates from the same statistics, however small: the distance to the target shrinks by 1 - r each time.'
    kind, dim, n = spec['kind'], spec['dim'], spec['n']
    rng = np.random.default_rng(spec['seed'])
    model = build(kind, dim, rng)
    par = the_param(model)
    prior_std = mods.std_of(par.prior)
    prior = mods.nat_of(par.prior)[0]
    start = post = mods.nat_of(par.posterior)[0]
    acc = model.accumulate(model.sufficient_statistics(mods.t64(data(kind, dim, n, rng))))
    stats, keep = acc[par], acc[par].clone()
    par.store_stats(stats)
    target = prior + keep.numpy().reshape(prior.shape)
    rates = spec['rates'] * spec['repeat']
    ctx.label(kind)
    ctx.label('small rates only', max(rates) <= 1e-4)
    ctx.nontrivial(len(rates) > 1 and max(rates) > 0)
    for r in rates:
        par.natural_grad_update(r)
    # The share of the way done, without losing the small rates.
    done = -np.expm1(np.sum(np.log1p(-np.array(rates)))) if 1. not in rates else 1.
    got = par.posterior.natural_parameters().detach().numpy().reshape(prior.shape) - start
    want = done * (target - start)
    big = max(np.abs(prior).max(), np.abs(start).max(), np.abs(target).max())
    ctx.allclose(got, want, 'change of the natural parameters', rtol=1e-7, atol=len(rates) * 1e-12 * big)
    ctx.ensure(torch.equal(stats, keep), 'the accumulated statistics are modified')
    compare_std(ctx, par.prior, prior_std, 'prior after the updates', rtol=1e-12)


@facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['isotropic', 'diagonal', 'full', 'categorical']),
    'dim': st.integers(1, 3), 'k': mods.sizes(1, 4, (5, 40)), 'n': mods.sizes(1, 15, (65, 1500)),
    'hard': st.booleans(), 'seed': st.integers(0, 10 ** 6)}), quick=900)
def sets(spec, ctx):
    'Each model of a set gets the posterior of the data weighted by its responsibilities.'
    import beer
    kind, dim, k, n = spec['kind'], spec['dim'], spec['k'], spec['n']
    rng = np.random.default_rng(spec['seed'])
    if kind == 'categorical':
        mset, fam = mods.random_categorical_set(k, dim + 1, rng), 'dirichlet'
    else:
        mset, fam = mods.normal_set(kind, dim, k, rng), mods.COV[kind]
    par = the_param(mset)
    priors = mods.std_of(par.prior)
    x = data(kind, dim, n, rng)
    if spec['hard']:
        r = np.eye(k)[rng.integers(0, k, size=n)]
    else:
        r = rng.dirichlet(np.ones(k), size=n)
    ctx.label(kind)
    ctx.label('hard' if spec['hard'] else 'soft')
    ctx.nontrivial(k > 1 and n > 1)
    optim = beer.VBConjugateOptimizer(mset.mean_field_factorization(), lrate=1.)
    optim.init_step()
    stats = mset.sufficient_statistics(mods.t64(x))
    acc = mset.accumulate(stats, mods.t64(r))
    ctx.ensure(set(acc) == {par}, 'statistics for other parameters')
    par.store_stats(acc[par])
    optim.step()
    want = [mods.conj_update(fam, p, x, r[:, i]) for i, p in enumerate(priors)]
    compare_std(ctx, par.posterior, want, 'posterior')
    compare_std(ctx, par.prior, priors, 'prior after the update', rtol=1e-12)
    if kind == 'categorical':
        joint = rng.gamma(1., size=(n, k, dim + 1))
        acc = mset.accumulate_from_jointresps(mset.sufficient_statistics(mods.t64(joint)))
        par.store_stats(acc[par])
        optim.step()
        want = [{'concentrations': p['concentrations'] + joint[:, i].sum(0)}
                for i, p in enumerate(priors)]
        compare_std(ctx, par.posterior, want, 'posterior from joint counts')


@facet(st.fixed_dictionaries({
    'cov': st.sampled_from(['isotropic', 'diagonal', 'full']), 'dim': st.integers(1, 4),
    'size': st.integers(0, 4), 'covform': st.sampled_from(['full', 'diag', 'scalar']),
    'strength': st.sampled_from([1., .5, 10., 3.7]), 'noise': st.sampled_from([0., 1., .1]),
    'seed': st.integers(0, 10 ** 6), 'dtype': st.sampled_from(['float64', 'float32'])}), quick=700)
def creation(spec, ctx):
    'Created models are centred on the mean and covariance they are created from.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    dim, cov = spec['dim'], spec['cov']
    mean = rng.normal(size=dim) * 3
    full = {'full': dens.spd(rng, dim, 1), 'diag': np.diag(dens.pos(rng, dim, 1)),
            'scalar': float(dens.pos(rng, 1, 1)[0]) * np.eye(dim)}[spec['covform']]
    given = {'full': full, 'diag': np.diag(full), 'scalar': full[0, :1]}[spec['covform']]
    dt = getattr(torch, spec['dtype'])
    m, c = torch.from_numpy(mean).to(dt), torch.from_numpy(np.array(given)).to(dt)
    s = spec['strength']
    ctx.label(f'{cov} from {spec["covform"]}')
    ctx.nontrivial(dim > 1 or spec['size'] > 1)
    if spec['size'] == 0:
        model = beer.Normal.create(m, c, prior_strength=s, cov_type=cov)
    else:
        model = beer.NormalSet.create(m, c, spec['size'], prior_strength=s, noise_std=spec['noise'],
                                      cov_type=cov)
        ctx.equal(len(model), spec['size'], 'size of the set')
    par = the_param(model)
    t = 1e-9 if dt == torch.float64 else 1e-3
    want_prec = {'full': np.linalg.inv(full), 'diagonal': 1 / np.diag(full),
                 'isotropic': np.array([1 / np.diag(full).max()])}[cov]
    sc = float(np.abs(want_prec).max())
    for d in (par.prior, par.posterior):
        ctx.ensure(d.natural_parameters().dtype == dt, 'float type of the created model')
        for p in mods.std_of(d):
            prec = {'full': lambda: p['dof'] * p['scale_matrix'],
                    'diagonal': lambda: p['shape'] / p['rates'],
                    'isotropic': lambda: p['shape'] / p['rate']}[cov]()
            ctx.allclose(prec, want_prec, 'expected precision at creation', rtol=t, scale=sc)
            ctx.allclose(p['scale'], [s], 'strength of the prior over the mean', rtol=1e-6)
            dofs = p['dof'] - dim + 1 if cov == 'full' else p['shape']
            ctx.allclose(dofs, [s], 'strength of the prior over the precision', rtol=1e-5)
            if d is par.prior or spec['size'] == 0 or spec['noise'] == 0:
                ctx.allclose(p['mean'], mean, 'expected mean at creation', rtol=t, scale=3.)
            else:
                z = np.abs(p['mean'] - mean) / (spec['noise'] * np.sqrt(np.diag(full)))
                ctx.ensure(z.max() < 8, 'noise added to the initial means is not scaled by '
                           'the standard deviation')
    if spec['size'] == 0:
        ctx.allclose(model.mean, mean, 'mean of the model', rtol=t, scale=3.)
        wc = {'full': full, 'diagonal': np.diag(np.diag(full)),
              'isotropic': np.diag(full).max() * np.eye(dim)}[cov]
        ctx.allclose(model.cov, wc, 'covariance of the model', rtol=t * 10, scale=float(np.abs(wc).max()))
    elif spec['noise'] > 0 and spec['size'] > 1:
        ms = np.stack([p['mean'] for p in mods.std_of(par.posterior)])
        ctx.ensure(len(np.unique(ms[:, 0])) == spec['size'], 'initial means of a set are not distinct')


@facet(st.fixed_dictionaries({
    'k': mods.sizes(1, 5, (6, 60)), 'n': st.integers(0, 4), 'strength': st.sampled_from([1., 5., .3]),
    'seed': st.integers(0, 10 ** 6)}), quick=300)
def creation_categorical(spec, ctx):
    'Created categoricals have the given mean weights; Gamma models the given mean.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    k, n, s = spec['k'], spec['n'], spec['strength']
    w = rng.dirichlet(np.ones(k) * 2, size=max(n, 1))
    ctx.nontrivial(k > 1)
    model = (beer.Categorical if n == 0 else beer.CategoricalSet).create(
        mods.t64(w[0] if n == 0 else w), prior_strength=s)
    ctx.allclose(model.mean, w[0] if n == 0 else w, 'mean weights', rtol=1e-9)
    par = the_param(model)
    for d in (par.prior, par.posterior):
        for p, ww in zip(mods.std_of(d), w):
            ctx.allclose(p['concentrations'], s * ww, 'concentrations', rtol=1e-9)
    mean, shape = dens.pos(rng, k, 1), dens.pos(rng, k, 1)
    g = beer.Gamma.create(mods.t64(mean), mods.t64(shape), prior_strength=s)
    ctx.allclose(g.mean, mean, 'mean of the Gamma model', rtol=1e-8)
