"""C10: forward-backward against enumeration of all paths."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from vf import mods, zoo
from vf.core import facet

RULE = ('A case is a compiled graph (dense or with impossible transitions, left-to-right, with unnormalised rows), '
        'a number of frames and log-likelihoods of moderate or extreme range.  Non-trivial: at least two states '
        'and two frames.')
ASSUMPTIONS = ['reference: enumeration of every state path for small cases, an independent log-domain recursion '
               'otherwise', 'sequences for which no path exists are outside the domain']

shapes = st.fixed_dictionaries({
    'K': st.integers(1, 4), 'N': st.integers(1, 5),
    'kind': st.sampled_from(['dense', 'sparse', 'left-right', 'ring', 'defective']),
    'spread': st.sampled_from([1., 1., 10., 300., 5000.]), 'offset': st.sampled_from([0., 0., -1e4, 1e4]),
    'ties': st.booleans(),
    'dtype': st.sampled_from(['float64', 'float64', 'float32']), 'seed': st.integers(0, 10 ** 6)})


def model(spec, rng=None):
    'Probabilities (init, final, trans) and log-likelihoods; a path always exists.'
    rng = rng or np.random.default_rng(spec['seed'])
    K, N, kind = spec['K'], spec['N'], spec['kind']
    t = rng.gamma(1., size=(K, K)) + .02
    i, f = rng.gamma(1., size=K) + .02, rng.gamma(1., size=K) + .02
    if kind == 'sparse':
        t *= rng.random((K, K)) < .5
        t += np.eye(K) * .3
        i *= rng.random(K) < .6
        f *= rng.random(K) < .6
    elif kind == 'left-right':
        t = t * (np.triu(np.ones((K, K))) - np.triu(np.ones((K, K)), 2))
        i *= np.arange(K) == 0
        f *= np.arange(K) >= min(K, N) - 1
    elif kind == 'ring':
        t = np.roll(np.eye(K), 1, axis=1) * t
        f[:] = 1.
    if i.sum() == 0:
        i[0] = 1.
    # Make the last state of some path final.
    reach = i > 0
    for _ in range(N - 1):
        reach = (reach[:, None] & (t > 0)).any(0)
    if not (reach & (f > 0)).any():
        f[np.argmax(reach)] = 1.
    i, f = i / i.sum(), f / f.sum()
    t = t / t.sum(1, keepdims=True)
    if kind == 'defective':
        t *= rng.uniform(.3, 1., size=(K, 1))       # weight leaving to the end
    if spec['ties']:
        llh = rng.integers(-1, 2, size=(N, K)) * spec['spread']
    else:
        llh = rng.normal(size=(N, K)) * spec['spread']
    return i, f, t, llh.astype(np.float64) + spec['offset']


def enumerate_paths(i, f, t, llh):
    'All (path, log-score) pairs.'
    N, K = llh.shape
    out = []
    for path in itertools.product(range(K), repeat=N):
        s = zoo.path_score(i, f, t, llh, path)
        if s > -np.inf:
            out.append((path, s))
    return out


def brute(i, f, t, llh):
    N, K = llh.shape
    paths = enumerate_paths(i, f, t, llh)
    sc = np.array([s for _, s in paths])
    tot = float(mods.logsumexp(sc, 0))
    w = np.exp(sc - tot)
    post, xi = np.zeros((N, K)), np.zeros((N - 1, K, K))
    for (p, _), v in zip(paths, w):
        post[np.arange(N), p] += v
        for n in range(N - 1):
            xi[n, p[n], p[n + 1]] += v
    return post, xi, tot


def tolerance(spec, llh):
    eps = 1e-11 if spec['dtype'] == 'float64' else 2e-5
    return eps * (1 + np.abs(llh).max()) * len(llh)


def check(spec, ctx, ref):
    i, f, t, llh = model(spec)
    dt = getattr(torch, spec['dtype'])
    if spec['dtype'] == 'float32' and np.abs(llh).max() > 50:
        llh = llh / np.abs(llh).max() * 50
    lt = torch.from_numpy(llh).to(dt)
    llh = lt.double().numpy()
    cg = zoo.compiled(i, f, t, range(spec['K']), spec['dtype'])
    N, K = llh.shape
    ctx.label(spec['kind'])
    ctx.label('one frame', N == 1)
    ctx.label('large range', spec['spread'] > 100)
    ctx.nontrivial(K > 1 and N > 1)
    keep = lt.clone()
    post, xi, tot = ref(i, f, t, llh)
    tol = tolerance(spec, llh)
    got, ev = cg.posteriors(lt)
    (got2, gxi), ev2 = cg.posteriors(lt, trans_posteriors=True)
    ctx.ensure(torch.equal(lt, keep), 'the log-likelihoods are modified')
    for g, e in ((got, ev), (got2, ev2)):
        ctx.allclose(g, post, 'state posteriors', rtol=0, atol=tol + 1e-9)
        ctx.allclose(float(e), tot, 'log-likelihood of the sequence', rtol=0, atol=tol + 1e-9)
        ctx.allclose(g.sum(1), np.ones(N), 'state posteriors sum to one', rtol=0, atol=tol + 1e-9)
    ctx.allclose(gxi, xi, 'transition posteriors', rtol=0, atol=tol + 1e-9)
    if N > 1:
        ctx.allclose(gxi.sum(2), got[:-1], 'transition posteriors summed over the next state', rtol=0,
                     atol=tol * 2 + 1e-8)
        ctx.allclose(gxi.sum(1), got[1:], 'transition posteriors summed over the previous state', rtol=0,
                     atol=tol * 2 + 1e-8)
    ctx.ensure(bool((got[torch.from_numpy(post == 0)] == 0).all()), 'impossible states have posterior zero')
    return cg, lt, got, gxi, float(ev), tol


@facet(shapes, quick=2500)
def enumeration(spec, ctx):
    'Posteriors and evidence equal the sums over all enumerated paths.'
    if spec['K'] ** spec['N'] > 300:
        spec = {**spec, 'N': 4 if spec['K'] == 4 else 5}
    check(spec, ctx, brute)


@facet(st.fixed_dictionaries({
    'K': st.integers(1, 12), 'N': st.integers(1, 60),
    'kind': st.sampled_from(['dense', 'sparse', 'left-right', 'ring', 'defective']),
    'spread': st.sampled_from([1., 10., 300., 5000.]), 'offset': st.sampled_from([0., 0., -1e4, 1e4]),
    'ties': st.booleans(),
    'dtype': st.sampled_from(['float64', 'float64', 'float32']), 'seed': st.integers(0, 10 ** 6)}), quick=800)
def long_sequences(spec, ctx):
    'Long sequences and many states against an independent recursion.'
    check(spec, ctx, zoo.forward_backward)


@facet(st.fixed_dictionaries({
    'K': st.sampled_from([60, 130, 257, 300]), 'N': st.integers(2, 12),
    'kind': st.sampled_from(['dense', 'sparse', 'left-right', 'ring', 'defective']),
    'spread': st.sampled_from([1., 10., 300.]), 'offset': st.just(0.), 'ties': st.booleans(),
    'dtype': st.sampled_from(['float64', 'float64', 'float32']), 'seed': st.integers(0, 10 ** 6)}), quick=40)
def many_states(spec, ctx):
    'Graphs of hundreds of states, as those of a phone loop or of a word transcription.'
    check(spec, ctx, zoo.forward_backward)


@facet(st.fixed_dictionaries({'model': shapes, 'frame': st.integers(0, 100),
                              'shift': st.sampled_from([1., -3.5, 250., -1e4])}), quick=600)
def offsets(spec, ctx):
    'A constant added to a frame shifts the total only; reversing time transposes the posteriors.'
    m = {**spec['model'], 'dtype': 'float64'}
    i, f, t, llh = model(m)
    cg = zoo.compiled(i, f, t, range(m['K']))
    (a, xa), ea = cg.posteriors(mods.t64(llh), trans_posteriors=True)
    l2 = llh.copy()
    l2[spec['frame'] % len(llh)] += spec['shift']
    (b, xb), eb = cg.posteriors(mods.t64(l2), trans_posteriors=True)
    tol = tolerance(m, l2) + tolerance(m, llh) + 1e-9
    ctx.nontrivial(m['K'] > 1 and m['N'] > 1)
    ctx.allclose(b, a, 'posteriors after a shift', rtol=0, atol=tol)
    ctx.allclose(xb, xa, 'transition posteriors after a shift', rtol=0, atol=tol)
    ctx.allclose(float(eb) - spec['shift'], float(ea), 'total after a shift', rtol=0, atol=tol)
    rev = zoo.compiled(f, i, t.T, range(m['K']))
    (c, xc), ec = rev.posteriors(mods.t64(llh[::-1].copy()), trans_posteriors=True)
    ctx.allclose(c.flip(0), a, 'posteriors of the reversed sequence', rtol=0, atol=tol)
    ctx.allclose(xc.flip(0).transpose(1, 2), xa, 'transition posteriors of the reversed sequence', rtol=0, atol=tol)
    ctx.allclose(float(ec), float(ea), 'total of the reversed sequence', rtol=0, atol=tol)
    # Relabelling the states.
    perm = np.random.default_rng(m['seed']).permutation(m['K'])
    p = zoo.compiled(i[perm], f[perm], t[np.ix_(perm, perm)], range(m['K']))
    d, ed = p.posteriors(mods.t64(llh[:, perm]))
    ctx.allclose(d, a.numpy()[:, perm], 'posteriors of relabelled states', rtol=0, atol=tol)
    ctx.allclose(float(ed), float(ea), 'total of relabelled states', rtol=0, atol=tol)
