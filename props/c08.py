"""C08: mixture models."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.special import digamma

from vf import dens, mods, zoo
from vf.core import facet

RULE = ('A case is a mixture or set of mixtures (covariance type, nested or joint components, Dirichlet or '
        'stick-breaking weights), with unrelated random priors and posteriors, and frames near or far from the '
        'components.  Non-trivial: at least two components and two frames.')
ASSUMPTIONS = ['numpy reference of the inference over components', 'float64 unless stated']

covs = st.sampled_from(['isotropic', 'diagonal', 'full'])


def elog_weights(p):
    a = p['concentrations']
    return digamma(a) - digamma(a.sum())


def cat_logw(cat):
    'Expected log-weights of a categorical model.'
    if type(cat).__name__ == 'Categorical':
        p, = mods.std_of(cat.weights.posterior)
        return elog_weights(p)
    # Independent sticks in the current order (C14 checks this in detail).
    c = cat.stickbreaking.posterior.params.concentrations.double().numpy()
    order = cat.ordering.tolist()
    out, rest = np.zeros(len(c)), 0.
    for k in order:
        out[k] = digamma(c[k, 0]) - digamma(c[k].sum()) + rest
        rest += digamma(c[k, 1]) - digamma(c[k].sum())
    return out


def make_cat(prior, k, rng):
    import beer
    if prior == 'dirichlet':
        return mods.random_categorical(k, rng)
    if prior == 'default':
        return None
    if prior == 'sb':
        cat = beer.SBCategorical.create(k, prior_strength=float(rng.uniform(.5, 4))).double()
    else:
        cat = beer.SBCategoricalHyperPrior.create(k, prior_strength=float(rng.uniform(.5, 4))).double()
    # A random current state.
    cat.stickbreaking.stats = mods.t64(rng.gamma(1., 5., size=k))
    cat.stickbreaking.natural_grad_update(1.)
    return cat


def make_set(kind, cov, dim, k, rng):
    'Components and their expected log-likelihood as a function of the frames.'
    import beer
    if kind == 'normal':
        s = mods.normal_set(cov, dim, k, rng)
        return s, lambda x: mods.set_llh(s.means_precisions, x)
    if kind == 'joint':
        a = int(rng.integers(1, k + 1))
        parts = [mods.normal_set(cov, dim, n, rng) for n in (a, k - a) if n > 0]
        return beer.JointModelSet(parts), \
            lambda x: np.concatenate([mods.set_llh(s.means_precisions, x) for s in parts], axis=1)
    if kind == 'nested':
        cs = mods.random_categorical_set(k, 2, rng)
        s = mods.normal_set(cov, dim, 2 * k, rng)
        return beer.MixtureSet(cs, s), lambda x: mixset_llh(cs, s, x)
    raise ValueError(kind)


def mixset_joint(cs, s, x):
    'Weighted log-likelihoods [frames, mixtures, components].'
    lw = np.stack([elog_weights(p) for p in mods.std_of(cs.weights.posterior)])
    l = mods.set_llh(s.means_precisions, x)
    return l.reshape(len(x), len(lw), -1) + lw[None]


def mixset_llh(cs, s, x):
    return mods.logsumexp(mixset_joint(cs, s, x), 2)


def frames(n, dim, far, rng):
    return rng.normal(size=(n, dim)) * (1e3 if far else 2)


base = {'cov': covs, 'dim': st.integers(1, 4), 'k': mods.sizes(1, 5, (6, 70)), 'n': mods.sizes(1, 12, (65, 700)),
        'far': st.sampled_from([False, False, True]), 'seed': st.integers(0, 10 ** 6)}


@facet(st.fixed_dictionaries({
    **base, 'set': st.sampled_from(['normal', 'normal', 'joint', 'nested']),
    'prior': st.sampled_from(['dirichlet', 'dirichlet', 'default', 'sb', 'sbhyper'])}), quick=900)
def inference(spec, ctx):
    'Responsibilities, likelihoods and statistics of a mixture.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    k, n, dim = spec['k'], spec['n'], spec['dim']
    mset, ref = make_set(spec['set'], spec['cov'], dim, k, rng)
    model = beer.Mixture.create(mset, make_cat(spec['prior'], k, rng), prior_strength=float(rng.uniform(.5, 5)))
    x = frames(n, dim, spec['far'], rng)
    llh = ref(x)
    lw = cat_logw(model.categorical)
    ctx.label(spec['set'])
    ctx.label(spec['prior'])
    ctx.label('far frames', spec['far'])
    ctx.nontrivial(k > 1 and n > 1)
    scale = 1 + float(np.abs(llh).max())
    want = mods.logsumexp(llh + lw, 1)
    post = np.exp(llh + lw - want[:, None])
    xt = mods.t64(x)
    stats = model.sufficient_statistics(xt)
    rtol = 1e-8
    got = model.expected_log_likelihood(stats)
    ctx.allclose(got, want, 'log-likelihood per frame', rtol=rtol, scale=scale)
    ptol = 1e-9 * scale + 1e-8
    ctx.allclose(model.posteriors(xt), post, 'posteriors', rtol=0, atol=ptol)
    ctx.allclose(model.posteriors(xt).sum(1), np.ones(n), 'posteriors sum to one', rtol=1e-9)
    if spec['far']:
        return
    acc = model.accumulate(stats)
    ctx.ensure(set(acc) == set(mods.conj_params(model)) - set(
        [model.categorical.concentration] if spec['prior'] == 'sbhyper' else []), 'parameters having statistics')
    if spec['prior'] in ('dirichlet', 'default'):
        ctx.allclose(acc[model.categorical.weights], mods.T('dirichlet', post).sum(0),
                     'statistics of the weights', rtol=1e-7, scale=n)
    else:
        ctx.allclose(acc[model.categorical.stickbreaking], post.sum(0), 'counts of the components',
                     rtol=1e-7, scale=n)
    if spec['set'] == 'normal':
        fam = mods.COV[spec['cov']]
        s = post.T @ mods.T(fam, x)
        ctx.allclose(acc[mset.means_precisions], s, 'statistics of the components', rtol=1e-7,
                     scale=float(np.abs(mods.T(fam, x)).max()) * n)
    elif spec['set'] == 'nested':
        j = mixset_joint(mset.categoricalset, mset.modelset, x)
        r = np.exp(j - mods.logsumexp(j, 2)[:, :, None]) * post[:, :, None]
        w = np.stack([mods.T('dirichlet', r[:, i]).sum(0) for i in range(k)])
        ctx.allclose(acc[mset.categoricalset.weights], w, 'statistics of the inner weights', rtol=1e-7, scale=n)
        fam = mods.COV[spec['cov']]
        s = r.reshape(n, -1).T @ mods.T(fam, x)
        ctx.allclose(acc[mset.modelset.means_precisions], s, 'statistics of the inner components', rtol=1e-7,
                     scale=float(np.abs(mods.T(fam, x)).max()) * n)


@facet(st.fixed_dictionaries(base), quick=300)
def labels(spec, ctx):
    'With labels each frame is explained by its labelled component alone.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    k, n = spec['k'], spec['n']
    mset, ref = make_set('normal', spec['cov'], spec['dim'], k, rng)
    model = beer.Mixture.create(mset, mods.random_categorical(k, rng))
    x = frames(n, spec['dim'], False, rng)
    y = rng.integers(0, k, size=n)
    ctx.nontrivial(k > 1 and n > 1)
    stats = model.sufficient_statistics(mods.t64(x))
    got = model.expected_log_likelihood(stats, labels=torch.from_numpy(y))
    llh = ref(x)
    ctx.allclose(got, llh[np.arange(n), y], 'log-likelihood given the labels', rtol=1e-8,
                 scale=1 + float(np.abs(llh).max()))
    acc = model.accumulate(stats)
    r = np.eye(k)[y]
    ctx.allclose(acc[model.categorical.weights], mods.T('dirichlet', r).sum(0), 'label counts', rtol=1e-9)
    fam = mods.COV[spec['cov']]
    s = r.T @ mods.T(fam, x)
    ctx.allclose(acc[mset.means_precisions], s, 'statistics of the components', rtol=1e-8,
                 scale=1 + float(np.abs(s).max()))


@facet(st.fixed_dictionaries({**base, 'size': st.integers(1, 4)}), quick=600)
def mixture_sets(spec, ctx):
    'Sets of mixtures: likelihoods, statistics, size, indexing and slicing.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    size, c, n, dim = spec['size'], min(spec['k'], 3), spec['n'], spec['dim']
    cs = mods.random_categorical_set(size, c, rng)
    s = mods.normal_set(spec['cov'], dim, size * c, rng)
    model = beer.MixtureSet(cs, s)
    ctx.equal(len(model), size, 'number of mixtures')
    x = frames(n, dim, False, rng)
    ctx.nontrivial(size > 1 and c > 1 and n > 1)
    j = mixset_joint(cs, s, x)
    llh = mods.logsumexp(j, 2)
    scale = 1 + float(np.abs(llh).max())
    stats = model.sufficient_statistics(mods.t64(x))
    ctx.allclose(model.expected_log_likelihood(stats), llh, 'log-likelihoods', rtol=1e-8, scale=scale)
    r = rng.dirichlet(np.ones(size), size=n)
    acc = model.accumulate(stats, mods.t64(r))
    rr = np.exp(j - llh[:, :, None]) * r[:, :, None]
    ctx.allclose(acc[cs.weights], np.stack([mods.T('dirichlet', rr[:, i]).sum(0) for i in range(size)]),
                 'statistics of the weights', rtol=1e-7, scale=n)
    fam = mods.COV[spec['cov']]
    T = mods.T(fam, x)
    ctx.allclose(acc[s.means_precisions], rr.reshape(n, -1).T @ T, 'statistics of the components',
                 rtol=1e-7, scale=float(np.abs(T).max()) * n)
    # Selections.
    xt = mods.t64(x)
    for i in list(range(size)) + [-1]:
        one = model[i]
        want = llh[:, i]
        ctx.allclose(one.expected_log_likelihood(one.sufficient_statistics(xt)), want,
                     f'log-likelihood of mixture {i} of the set', rtol=1e-8, scale=scale)
        ctx.allclose(one.posteriors(xt), np.exp(j[:, i] - llh[:, [i]]), f'posteriors of mixture {i}', rtol=1e-6)
    a, b = sorted(int(v) for v in rng.integers(0, size + 1, size=2))
    for sl in (slice(a, b), slice(None), slice(a, None), slice(None, b)):
        w = llh[:, sl]
        if w.shape[1] == 0:
            continue
        part = model[sl]
        ctx.equal(len(part), w.shape[1], f'size of the slice {sl}')
        ctx.allclose(part.expected_log_likelihood(part.sufficient_statistics(xt)), w,
                     f'log-likelihoods of the slice {sl}', rtol=1e-8, scale=scale)
        pp = set(mods.conj_params(part))
        ctx.ensure(len(pp) == 2, 'parameters of the slice')
        # Slices use the same distributions (the first mixtures of the set stay untouched).


@facet(st.fixed_dictionaries({
    **base, 'prior': st.sampled_from(['dirichlet', 'default']),
    'set': st.sampled_from(['normal', 'normal', 'nested', 'joint']),
    'steps': st.integers(2, 8)}), quick=350)
def training(spec, ctx):
    'Full-batch updates never decrease the bound.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    k, dim = spec['k'], spec['dim']
    mset, _ = make_set(spec['set'], spec['cov'], dim, k, rng)
    # Stick-breaking weights re-order their elements, which changes the prior of the
    # process: the bound is monotone for a fixed order only.
    model = beer.Mixture.create(mset, make_cat(spec['prior'], k, rng), prior_strength=float(rng.uniform(.5, 5)))
    n = spec['n'] + 3
    x = mods.t64(np.concatenate([rng.normal(size=(n, dim)) + c for c in rng.normal(size=(2, dim)) * 4]))
    optim = beer.VBConjugateOptimizer(model.mean_field_factorization(), lrate=1.)
    ctx.label(spec['set'])
    ctx.nontrivial(k > 1)
    hist, scale = [], 1.
    for _ in range(spec['steps']):
        optim.init_step()
        elbo = beer.evidence_lower_bound(model, x)
        hist.append(float(elbo))
        scale = max(scale, abs(hist[-1]))
        if len(hist) > 1:
            ctx.ensure(hist[-1] >= hist[-2] - 1e-8 * scale,
                       lambda: f'the bound decreases: {hist}')
        elbo.backward()
        for _ in range(len(model.mean_field_factorization())):
            optim.step()


@facet(st.fixed_dictionaries(base), quick=400)
def permutations(spec, ctx):
    'Permuting components or frames permutes the results, also after training.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    k, n, dim, fam = spec['k'], spec['n'] + 1, spec['dim'], mods.COV[spec['cov']]
    mk = lambda f, d, m: [dens.make1(f, d, rng, 1) for _ in range(m)]
    comp = [(mk(fam, dim, k), mk(fam, dim, k))]
    cat = mk('dirichlet', k, 2)

    def build(perm):
        from beer.models import ConjugateBayesianParameter as P
        sp = {'family': fam, 'dim': dim, 'n': k, 'dtype': 'float64'}
        a, b = comp[0]
        s = beer.NormalSet(P(dens.build(sp, [a[i] for i in perm]), dens.build(sp, [b[i] for i in perm])))
        cp = {'family': 'dirichlet', 'dim': k, 'n': 0, 'dtype': 'float64'}
        c = P(*[dens.build(cp, [{'concentrations': v['concentrations'][perm]}]) for v in cat])
        return beer.Mixture(beer.Categorical(c), s)

    perm = rng.permutation(k)
    order = rng.permutation(n)
    m1, m2 = build(np.arange(k)), build(perm)
    x = frames(n, dim, False, rng)
    x1, x2 = mods.t64(x), mods.t64(x[order])
    ctx.nontrivial(k > 1 and (perm != np.arange(k)).any())
    for step in range(3):
        e1, e2 = beer.evidence_lower_bound(m1, x1), beer.evidence_lower_bound(m2, x2)
        ctx.allclose(float(e2), float(e1), f'bound after {step} updates', rtol=1e-7, scale=1 + abs(float(e1)))
        p1, p2 = m1.posteriors(x1).numpy(), m2.posteriors(x2).numpy()
        ctx.allclose(p2, p1[order][:, perm], f'posteriors after {step} updates', rtol=0, atol=1e-6)
        for m, e in ((m1, e1), (m2, e2)):
            o = beer.VBConjugateOptimizer(m.mean_field_factorization(), lrate=1.)
            o.init_step()
            e.backward()
            o.step()


@facet(st.fixed_dictionaries({
    'k': st.integers(1, 6), 'size': st.integers(1, 4), 'cov': covs, 'dim': st.integers(1, 3),
    'strength': st.sampled_from([1., .2, 7.]), 'dtype': st.sampled_from(['float32', 'float64']),
    'seed': st.integers(0, 10 ** 6)}), quick=250)
def creation(spec, ctx):
    'Created mixtures have uniform weights of the given strength and the type of their components.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    k, size, dt = spec['k'], spec['size'], getattr(torch, spec['dtype'])
    mset = mods.normal_set(spec['cov'], spec['dim'], k, rng).to(dt)
    model = beer.Mixture.create(mset, prior_strength=spec['strength'])
    ctx.nontrivial(k > 1)
    ctx.allclose(model.categorical.mean, np.ones(k) / k, 'weights', rtol=1e-5)
    pp, = mods.std_of(model.categorical.weights.prior)
    ctx.allclose(pp['concentrations'], np.ones(k) * spec['strength'] / k, 'prior of the weights', rtol=1e-5)
    x = torch.from_numpy(rng.normal(size=(4, spec['dim']))).to(dt)
    got = model.expected_log_likelihood(model.sufficient_statistics(x))
    ctx.ensure(got.dtype == dt, 'type of the log-likelihood')
    full = mods.normal_set(spec['cov'], spec['dim'], k * size, rng).to(dt)
    ms = beer.MixtureSet.create(size, full, prior_strength=spec['strength'])
    ctx.equal(len(ms), size, 'number of mixtures')
    ctx.equal(ms.n_comp_per_mixture, k, 'number of components')
    ctx.allclose(ms.categoricalset.mean, np.ones((size, k)) / k, 'weights of the set', rtol=1e-5)
    for q in (ms.categoricalset.weights.prior, ms.categoricalset.weights.posterior):
        for p in mods.std_of(q):
            ctx.allclose(p['concentrations'], np.ones(k) * spec['strength'] / k, 'prior of the weights', rtol=1e-5)
    got = ms.expected_log_likelihood(ms.sufficient_statistics(x))
    ctx.ensure(got.dtype == dt, 'type of the log-likelihoods')
    ctx.equal(tuple(got.shape), (4, size), 'shape of the log-likelihoods')


op = st.tuples(st.sampled_from(['posteriors', 'llh', 'bound', 'labels', 'update', 'update', 'set', 'load', 'frames', 'clear']),
               st.integers(0, 10 ** 6))


@facet(st.fixed_dictionaries({
    **base, 'set': st.sampled_from(['normal', 'nested', 'joint']),
    'prior': st.sampled_from(['dirichlet', 'dirichlet', 'default', 'sb']),
    'ops': st.lists(op, min_size=3, max_size=12)}), quick=700)
def histories(spec, ctx):
    'Every result follows the current parameters and frames, whatever was computed before.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    k, n, dim = spec['k'] + 1, spec['n'], spec['dim']
    mk = lambda r: make_set(spec['set'], spec['cov'], dim, k, r)
    seed = int(rng.integers(10 ** 6))
    mset, ref = mk(np.random.default_rng(seed))
    model = beer.Mixture.create(mset, make_cat(spec['prior'], k, rng))
    other, _ = mk(np.random.default_rng(seed))
    other = beer.Mixture.create(other, make_cat(spec['prior'], k, rng))
    etas = mods.other_etas(mods.conj_params(other), rng)
    for p, eta in zip(mods.conj_params(other), etas):
        p.posterior.update_from_natural_parameters(eta)
    other = {key: v.clone() for key, v in other.state_dict().items()}
    x = frames(n, dim, False, rng)
    changes = 0
    for name, seed in spec['ops']:
        r = np.random.default_rng(seed)
        xt = mods.t64(x)
        llh = ref(x)
        j = llh + cat_logw(model.categorical)
        want = mods.logsumexp(j, 1)
        scale = 1 + float(np.abs(llh).max())
        if name == 'posteriors':
            ctx.allclose(model.posteriors(xt), np.exp(j - want[:, None]), f'posteriors after {changes} changes',
                         rtol=0, atol=1e-8 * scale)
        elif name in ('llh', 'bound'):
            stats = model.sufficient_statistics(xt)
            ctx.allclose(model.expected_log_likelihood(stats), want, f'log-likelihood after {changes} changes',
                         rtol=1e-8, scale=scale)
            if name == 'bound' and spec['prior'] != 'sb':
                kl = sum(mods.kl_of(p.posterior, p.prior) for p in mods.conj_params(model))
                e = beer.evidence_lower_bound(model, xt)
                ctx.allclose(float(e), want.sum() - kl, f'bound after {changes} changes', rtol=1e-8,
                             scale=scale * n + kl)
        elif name == 'labels':
            y = r.integers(0, k, size=len(x))
            got = model.expected_log_likelihood(model.sufficient_statistics(xt), labels=torch.from_numpy(y))
            ctx.allclose(got, llh[np.arange(len(x)), y], 'log-likelihood given the labels', rtol=1e-8, scale=scale)
        elif name == 'update':
            e = beer.evidence_lower_bound(model, xt, datasize=50)
            o = beer.VBConjugateOptimizer(model.mean_field_factorization(), lrate=float(r.choice([1., .3])))
            o.init_step()
            e.backward()
            o.step()
            changes += 1
        elif name == 'set':
            pars = mods.conj_params(model)
            i = int(r.integers(len(pars)))
            if spec['prior'] != 'sb':
                pars[i].posterior.update_from_natural_parameters(etas[i])
                changes += 1
        elif name == 'load':
            if spec['prior'] != 'sb':
                model.load_state_dict(other)
                changes += 1
        elif name == 'clear':
            model.clear_cache()
        else:
            x = frames(int(r.integers(1, 9)), dim, False, r)
    ctx.label(spec['set'])
    ctx.nontrivial(changes > 0)
