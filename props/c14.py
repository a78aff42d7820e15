"""C14: stick-breaking categoricals."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.special import digamma

from vf import mods
from vf.core import facet

RULE = ('A case is a kind of stick-breaking categorical, its size and strengths, and a history of updates with '
        'count vectors (with ties and zeros), learning rates and relabellings.  Non-trivial: at least two '
        'elements and one update.')
ASSUMPTIONS = ['reference: independent Beta sticks in numpy, in the order reported by the model after checking '
               'that this order sorts the counts', 'every update follows the storing of new counts']

counts_kind = st.sampled_from(['real', 'real', 'int', 'zeros', 'spiky'])


def counts(kind, k, rng):
    if kind == 'real':
        return rng.gamma(.7, 10., size=k)
    if kind == 'int':
        return rng.integers(0, 4, size=k).astype(float)
    if kind == 'zeros':
        return rng.gamma(1., 10., size=k) * (rng.random(k) < .5)
    return rng.permutation(np.array([1e5] + [1e-3] * (k - 1)))


def logw(c, order):
    'Expected log-weights from stick parameters c [K, 2] in this order.'
    out, rest = np.zeros(len(c)), 0.
    for k in order:
        tot = digamma(c[k].sum())
        out[k] = digamma(c[k, 0]) - tot + rest
        rest += digamma(c[k, 1]) - tot
    return out


def meanw(c, order):
    out, rest = np.zeros(len(c)), 1.
    for k in order:
        out[k] = c[k, 0] / c[k].sum() * rest
        rest *= c[k, 1] / c[k].sum()
    return out


def sticks(dist):
    return dist.params.concentrations.detach().double().numpy().copy()


def nat(c):
    return np.stack([c[:, 0] - 1, c.sum(1) - 2], axis=1)


def unnat(n):
    return np.stack([n[:, 0] + 1, n[:, 1] - n[:, 0] + 1], axis=1)


def stick_stats(n, order):
    'a1 += own count, a2 += counts of the later elements.'
    out, rest = np.zeros((len(n), 2)), 0.
    for k in reversed(list(order)):
        out[k] = n[k], n[k] + rest
        rest += n[k]
    return out


def check_weights(ctx, cat, c, order, what, rtol=1e-5):
    K = len(c)
    dt = cat.mean.dtype
    ctx.allclose(cat.mean, meanw(c, order), f'mean weights {what}', rtol=rtol)
    eye = torch.eye(K, dtype=dt)
    w = logw(c, order)
    got = cat.expected_log_likelihood(cat.sufficient_statistics(eye))
    ctx.allclose(got, w, f'expected log-weights {what}', rtol=rtol, scale=1 + np.abs(w).max())


step = st.fixed_dictionaries({'kind': counts_kind, 'lrate': st.sampled_from([1., 1., .5, .1]),
                              'seed': st.integers(0, 10 ** 6)})
specs = {'K': mods.sizes(1, 7, (8, 120)), 'strength': st.sampled_from([1., .3, 5., 20.]),
         'hyper': st.sampled_from([None, None, 1., .5, 4.]), 'dtype': st.sampled_from(['float32', 'float64', 'float64']),
         'steps': st.lists(step, min_size=0, max_size=5), 'seed': st.integers(0, 10 ** 6)}


def create(spec):
    import beer
    if spec['hyper'] is None:
        cat = beer.SBCategorical.create(spec['K'], prior_strength=spec['strength'])
    else:
        cat = beer.SBCategoricalHyperPrior.create(spec['K'], prior_strength=spec['strength'],
                                                  hyper_prior_strength=spec['hyper'])
    return cat.to(getattr(torch, spec['dtype']))


@facet(st.fixed_dictionaries({**specs, 'optim': st.booleans()}), quick=1500)
def histories(spec, ctx):
    'Weights, order, sticks and concentration over histories of updates.'
    import beer
    cat, K = create(spec), spec['K']
    dt = getattr(torch, spec['dtype'])
    par = cat.mean_field_factorization()[0][0]
    ctx.label('hyper-prior', spec['hyper'] is not None)
    ctx.nontrivial(K > 1 and len(spec['steps']) > 0)
    rtol = 1e-8 if spec['dtype'] == 'float64' else 2e-3
    prior = np.stack([np.ones(K), np.full(K, spec['strength'])], axis=1)
    post = prior.copy()
    ctx.allclose(sticks(par.prior), prior, 'prior at creation', rtol=1e-5)
    ctx.allclose(sticks(par.posterior), post, 'posterior at creation', rtol=1e-5)
    if spec['hyper'] is not None:
        h = spec['hyper']
        shape0, rate0 = h, h / spec['strength']
        ctx.allclose(cat.concentration.value(), [spec['strength']], 'expected concentration', rtol=1e-5)
    check_weights(ctx, cat, sticks(par.posterior), range(K), 'at creation', rtol * 10)
    optim = beer.VBConjugateOptimizer(cat.mean_field_factorization())
    for i, s in enumerate(spec['steps']):
        rng = np.random.default_rng(s['seed'])
        n = counts(s['kind'], K, rng)
        n = torch.from_numpy(n).to(dt).double().numpy()
        ctx.label(s['kind'])
        # The counts come from responsibilities of several frames.
        frac = rng.dirichlet(np.ones(3), size=K).T
        data = torch.from_numpy(frac * n).to(dt)
        acc = cat.accumulate(cat.sufficient_statistics(data))
        ctx.equal(list(acc), [par], 'parameters having statistics')
        par.store_stats(acc[par] if i % 2 else torch.from_numpy(n).to(dt))
        before, bprior = sticks(par.posterior), sticks(par.prior)
        used = par.stats.double().numpy().copy()
        ctx.allclose(used, n, 'accumulated counts', rtol=1e-5, scale=float(n.sum()))
        if spec['optim']:
            optim.lrate = s['lrate']
            optim.step()
        else:
            par.natural_grad_update(s['lrate'])
        order = cat.ordering.tolist()
        ctx.equal(sorted(order), list(range(K)), 'the order is a permutation')
        ctx.ensure(all(used[a] >= used[b] for a, b in zip(order, order[1:])),
                   lambda: f'the order {order} does not sort the counts {used.tolist()}')
        inv = cat.reverse_ordering.tolist()
        ctx.equal([order[j] for j in inv], list(range(K)), 'inverse of the order')
        st_ = stick_stats(used, order)
        want = unnat(nat(before) + s['lrate'] * (nat(bprior) + st_ - nat(before)))
        sc = 1 + float(np.abs(st_).max() + np.abs(before).max())
        ctx.allclose(sticks(par.posterior), want, f'sticks after update {i + 1}', rtol=rtol, scale=sc)
        now = sticks(par.posterior)
        if (now <= 1e-4).any() or (spec['dtype'] == 'float32' and sc > 1e4):
            return      # the small stick parameters have no significant digit left in float32
        check_weights(ctx, cat, now, order, f'after update {i + 1}', rtol * 10)
        if spec['hyper'] is not None:
            tot = digamma(now.sum(1))
            slog = float((digamma(now[:, 1]) - tot).sum())
            shape, rate = shape0 + K, rate0 - slog
            q = cat.concentration.posterior.params
            ctx.allclose([float(q.shape), float(q.rate)], [shape, rate], 'posterior of the concentration',
                         rtol=rtol * 10)
            ctx.allclose(sticks(par.prior), np.stack([np.ones(K), np.full(K, shape / rate)], axis=1),
                         'prior given the concentration', rtol=rtol * 10)
            p = cat.concentration.prior.params
            ctx.allclose([float(p.shape), float(p.rate)], [shape0, rate0], 'prior of the concentration', rtol=1e-5)
        else:
            ctx.allclose(sticks(par.prior), prior, 'prior after the update', rtol=1e-5)


@facet(st.fixed_dictionaries({**specs, 'perm': st.integers(0, 10 ** 6)}), quick=500)
def relabelling(spec, ctx):
    'Relabelling the elements relabels the weights.'
    spec = {**spec, 'dtype': 'float64'}
    a, b, K = create(spec), create(spec), spec['K']
    perm = np.random.default_rng(spec['perm']).permutation(K)
    ctx.nontrivial(K > 1 and bool(spec['steps']))
    wa = wb = None
    for s in spec['steps']:
        rng = np.random.default_rng(s['seed'])
        n = rng.gamma(.7, 10., size=K)          # no ties
        for cat, v in ((a, n), (b, n[perm])):
            par = cat.mean_field_factorization()[0][0]
            par.store_stats(mods.t64(v, watch=False))
            # A full step: former sticks (of another order) are forgotten.
            par.natural_grad_update(1.)
        ctx.allclose(b.mean, a.mean.numpy()[perm], 'relabelled weights', rtol=1e-9)
        ctx.ensure(bool((a.mean > 0).all()) and float(a.mean.sum()) <= 1 + 1e-9, 'weights are probabilities')
        eye = torch.eye(K, dtype=torch.float64)
        ctx.allclose(b.expected_log_likelihood(eye), a.expected_log_likelihood(eye).numpy()[perm],
                     'relabelled log-weights', rtol=1e-9)
        order = a.ordering.tolist()
        ctx.equal(b.ordering.tolist(), [int(np.argwhere(perm == o)[0, 0]) for o in order], 'relabelled order')


@facet(st.fixed_dictionaries({
    'K': mods.sizes(1, 5, (6, 60)), 'strength': st.sampled_from([1., .4, 6.]), 'root_strength': st.sampled_from([1., 4.]),
    'root_steps': st.integers(0, 2), 'later': st.booleans(), 'hyper': st.booleans(), 'n': st.integers(1, 5),
    'steps': st.lists(step, min_size=0, max_size=3), 'seed': st.integers(0, 10 ** 6)}), quick=900)
def tied_sets(spec, ctx):
    'Sets tied to a root: prior centred on the root, order of the root, exact updates.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    K, n = spec['K'], spec['n']
    cls = beer.SBCategoricalHyperPrior if spec['hyper'] else beer.SBCategorical
    root = cls.create(K, prior_strength=spec['root_strength']).double()
    for _ in range(spec['root_steps']):
        root.stickbreaking.store_stats(mods.t64(rng.gamma(.7, 10., size=K), watch=False))
        root.stickbreaking.natural_grad_update(1.)
    order = root.ordering.tolist()
    ctx.label('re-ordered root', order != sorted(order))
    ctx.nontrivial(K > 1)
    cset_order = order
    cset = beer.SBCategoricalSet.create(n, root, prior_strength=spec['strength']).double()
    par = cset.mean_field_factorization()[0][0]
    ctx.equal(cset.ordering.tolist(), order, 'order of the set')
    rc = sticks(root.stickbreaking.posterior)
    prior = sticks(par.prior).reshape(n, K, 2)
    for i in range(n):
        ctx.allclose(meanw(prior[i], order), meanw(rc, order), 'prior mean of a set is the mean of its root',
                     rtol=1e-6)
        ctx.allclose(prior[i, :, 0], spec['strength'] * meanw(rc, order), 'strength of the prior', rtol=1e-6)
    post = np.stack([rc] * n)
    for i in range(len(spec['steps']) + 1):
        got = sticks(par.posterior).reshape(n, K, 2)
        ctx.allclose(got, post, f'sticks after {i} updates', rtol=1e-8, scale=1 + float(np.abs(post).max()))
        if (post <= 1e-6 * max(1., float(post.max()))).any():
            return      # a stick parameter is lost in the rounding of the natural parameters
        w = np.stack([meanw(c, order) for c in got])
        ctx.allclose(cset.mean, w, 'mean weights', rtol=1e-6)
        lw = np.stack([logw(c, order) for c in got])
        x = np.eye(K)[rng.integers(0, K, size=K + 2)]
        ll = cset.expected_log_likelihood(cset.sufficient_statistics(mods.t64(x)))
        ctx.allclose(ll, x @ lw.T, 'log-likelihood of each frame for each member', rtol=1e-6,
                     scale=1 + float(np.abs(lw).max()))
        if i == len(spec['steps']):
            break
        s = spec['steps'][i]
        srng = np.random.default_rng(s['seed'])
        if spec['later'] and s['seed'] % 2:
            # The root learns (and is ordered) anew: the sticks are broken in the order of the root.
            root.stickbreaking.store_stats(mods.t64(srng.gamma(.7, 10., size=K), watch=False))
            root.stickbreaking.natural_grad_update(1.)
            order, rc = root.ordering.tolist(), sticks(root.stickbreaking.posterior)
            ctx.label('root re-ordered later', order != cset_order)
            ctx.equal(cset.ordering.tolist(), order, 'order of the set after the root was re-ordered')
            ctx.equal(cset.reverse_ordering.tolist(), np.argsort(order).tolist(), 'inverse of this order')
            w = np.stack([meanw(c, order) for c in post])
            ctx.allclose(cset.mean, w, 'mean weights after the root was re-ordered', rtol=1e-6)
        cnt = np.stack([counts(s['kind'], K, srng) for _ in range(n)])
        frac = srng.dirichlet(np.ones(3), size=(n, K)).transpose(2, 0, 1)
        joint = mods.t64(frac * cnt)
        acc = cset.accumulate_from_jointresps(cset.sufficient_statistics(joint))
        ctx.equal(list(acc), [par], 'parameters having statistics')
        par.store_stats(acc[par])
        par.natural_grad_update(s['lrate'])
        for j in range(n):
            a = nat(post[j])
            post[j] = unnat(a + s['lrate'] * (nat(prior[j]) + stick_stats(cnt[j], order) - a))
        ctx.label('updates')
    ctx.allclose(sticks(par.prior).reshape(n, K, 2), prior, 'prior after the updates', rtol=1e-9)
    ctx.allclose(sticks(root.stickbreaking.posterior), rc, 'the root changes with the set', rtol=1e-12)
