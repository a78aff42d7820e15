"""Random composed models with unrelated priors and posteriors."""
import numpy as np

from vf import dens, mods


def compiled(init, final, trans, pdf_ids, dtype='float64'):
    'CompiledGraph with the given probabilities (numpy).'
    import torch
    from beer.graph import CompiledGraph
    with np.errstate(divide='ignore'):
        a, b, c = (torch.from_numpy(np.log(np.array(v, dtype=np.float64, order="C"))) for v in (init, final, trans))
    dt = getattr(torch, dtype)
    return CompiledGraph(a.to(dt), b.to(dt), c.to(dt), list(pdf_ids))


def random_graph(n_states, n_pdfs, rng, sparse=True):
    'Random compiled graph in which every state is on a path of every length >= n_states.'
    K = n_states
    trans = rng.gamma(1., size=(K, K)) + .05
    if sparse:
        mask = rng.random((K, K)) < .5
        mask[np.arange(K), np.arange(K)] = True          # self loops
        mask[np.arange(K), (np.arange(K) + 1) % K] = True
        trans = trans * mask
    if rng.random() < .25:
        # Some very unlikely transitions.
        trans = trans * 10. ** -np.where(rng.random((K, K)) < .4, rng.uniform(3, 14, size=(K, K)), 0)
    trans /= trans.sum(1, keepdims=True)
    init = rng.gamma(1., size=K) + .05
    final = rng.gamma(1., size=K) + .05
    if sparse and K > 1:
        init *= np.arange(K) < max(1, K // 2)
        final *= np.arange(K) >= K - max(1, K // 2)
    init /= init.sum()
    final /= final.sum()
    ids = rng.integers(0, n_pdfs, size=K)
    ids[:min(K, n_pdfs)] = np.arange(min(K, n_pdfs))
    return init, final, trans, [int(i) for i in ids]


def unit_loop(units, rng, graph_cls=None):
    '''Uncompiled loop over units; units = list of number of states (left-to-right
    with self-loops).  Returns graph, start and end maps (compiled indices).'''
    from beer.graph import Graph
    g = Graph()
    start, pin, pout, end = (g.add_state() for _ in range(4))
    g.start_state, g.end_state = start, end
    g.add_arc(start, pin)
    starts, ends, pdf = {}, {}, 0
    for u, n in enumerate(units):
        ids = []
        for _ in range(n):
            ids.append(g.add_state(pdf_id=pdf))
            pdf += 1
        g.add_arc(pin, ids[0])
        for a, b in zip(ids[:-1], ids[1:]):
            p = float(rng.uniform(.2, .8))
            g.add_arc(a, a, p)
            g.add_arc(a, b, 1 - p)
        p = float(rng.uniform(.2, .8))
        g.add_arc(ids[-1], ids[-1], p)
        g.add_arc(ids[-1], pout, 1 - p)
        starts[f'u{u}'] = pdf - n
        ends[f'u{u}'] = pdf - 1
    g.add_arc(pout, pin)
    g.add_arc(pout, end)
    g.normalize()
    return g, starts, ends


def emissions(kind, cov, dim, n, rng, spread=1):
    'A set of n emission models.'
    import beer
    if kind == 'normal':
        return mods.normal_set(cov, dim, n, rng, spread)
    if kind == 'mixture':
        c = 2
        return beer.MixtureSet(mods.random_categorical_set(n, c, rng),
                               mods.normal_set(cov, dim, n * c, rng, spread))
    if kind == 'joint':
        a = int(rng.integers(0, n + 1))
        parts = [mods.normal_set(cov, dim, s, rng, spread) for s in (a, n - a) if s > 0]
        return beer.JointModelSet(parts)
    raise ValueError(kind)


def phone_loop(units, em, rng, prior='dirichlet', bigram=False):
    import beer
    g, starts, ends = unit_loop(units, rng)
    cg = g.compile().double()
    n = len(units)
    if bigram:
        return beer.BigramPhoneLoop.create(cg, starts, ends, em, mods.random_categorical_set(n, n, rng))
    if prior == 'dirichlet':
        cat = mods.random_categorical(n, rng)
    elif prior == 'dirichlet_process':
        cat = beer.SBCategorical.create(n, prior_strength=float(rng.uniform(.5, 3))).double()
    else:
        cat = beer.SBCategoricalHyperPrior.create(
            n, prior_strength=float(rng.uniform(.5, 3)),
            hyper_prior_strength=float(rng.uniform(.5, 3))).double()
    return beer.PhoneLoop.create(cg, starts, ends, em, cat)


def random_model(kind, cov, dim, k, rng):
    import beer
    if kind == 'normal':
        return mods.normal_model(cov, dim, rng)
    if kind == 'normalset':
        return mods.normal_set(cov, dim, k, rng)
    if kind == 'categorical':
        return mods.random_categorical(k, rng)
    if kind == 'categoricalset':
        return mods.random_categorical_set(k, 3, rng)
    if kind == 'mixture':
        return beer.Mixture(mods.random_categorical(k, rng), mods.normal_set(cov, dim, k, rng))
    if kind == 'jointmixture':
        # Several parameters of the same family and size.
        parts = [mods.normal_set(cov, dim, k, rng) for _ in range(int(rng.integers(2, 4)))]
        n = k * len(parts)
        return beer.Mixture(mods.random_categorical(n, rng), beer.JointModelSet(parts))
    if kind == 'nested':
        return beer.Mixture(mods.random_categorical(k, rng), emissions('mixture', cov, dim, k, rng))
    if kind == 'jointhmm':
        em = beer.JointModelSet([emissions('mixture', cov, dim, k, rng) for _ in range(2)]
                                + [mods.normal_set(cov, dim, k, rng)])
        init, final, trans, ids = random_graph(3 * k, 3 * k, rng)
        return beer.HMM.create(compiled(init, final, trans, ids), em)
    if kind == 'mixtureset':
        return emissions('mixture', cov, dim, k, rng)
    if kind in ('hmm', 'hmm-mixture'):
        em = emissions('normal' if kind == 'hmm' else 'mixture', cov, dim, k, rng)
        init, final, trans, ids = random_graph(k + 1, k, rng)
        return beer.HMM.create(compiled(init, final, trans, ids), em)
    if kind in ('phoneloop', 'bigram'):
        units = [2] * k
        return phone_loop(units, emissions('normal', cov, dim, 2 * k, rng), rng, bigram=kind == 'bigram')
    raise ValueError(kind)


# -- reference inference (numpy, log domain) ------------------------------

def forward_backward(init, final, trans, llh):
    'State posteriors, transition posteriors, log evidence (probabilities as numpy).'
    with np.errstate(divide='ignore'):
        li, lf, lt = np.log(init), np.log(final), np.log(trans)
    T, K = llh.shape
    a = np.full((T, K), -np.inf)
    b = np.full((T, K), -np.inf)
    a[0] = li + llh[0]
    for t in range(1, T):
        a[t] = llh[t] + mods.logsumexp(a[t - 1][:, None] + lt, 0)
    b[-1] = lf
    for t in range(T - 2, -1, -1):
        b[t] = mods.logsumexp(lt + llh[t + 1][None] + b[t + 1][None], 1)
    total = mods.logsumexp(a[-1] + lf, 0)
    post = np.exp(a + b - total)
    if T > 1:
        xi = np.exp(a[:-1, :, None] + lt[None] + (llh + b)[1:, None, :] - total)
    else:
        xi = np.zeros((0, K, K))
    return post, xi, float(total)


def viterbi(init, final, trans, llh):
    'Best score (log).'
    with np.errstate(divide='ignore'):
        li, lf, lt = np.log(init), np.log(final), np.log(trans)
    w = li + llh[0]
    for t in range(1, len(llh)):
        w = llh[t] + np.max(w[:, None] + lt, axis=0)
    return float(np.max(w + lf))


def path_score(init, final, trans, llh, path):
    with np.errstate(divide='ignore'):
        li, lf, lt = np.log(init), np.log(final), np.log(trans)
    s = li[path[0]] + llh[0, path[0]]
    for t in range(1, len(path)):
        s += lt[path[t - 1], path[t]] + llh[t, path[t]]
    return float(s + lf[path[-1]])
