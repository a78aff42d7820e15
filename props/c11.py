"""C11: Viterbi decoding."""
import numpy as np
import torch
from hypothesis import strategies as st

from vf import mods, zoo
from vf.core import facet
from props import c10

RULE = ('A case is a compiled graph (dense, sparse, left-to-right...), log-likelihoods (with ties), or a HMM with '
        'shared densities and an acoustic scale.  Non-trivial: at least two states and two frames.')
ASSUMPTIONS = ['any path of maximal score is accepted (ties)',
               'enumeration of every path for small cases, an independent recursion otherwise']


def judge(ctx, i, f, t, llh, path, best, tol):
    N, K = llh.shape
    ctx.equal(len(path), N, 'length of the path')
    ctx.ensure(all(0 <= s < K for s in path), 'states of the path')
    sc = zoo.path_score(i, f, t, llh, path)
    ctx.ensure(sc > -np.inf, lambda: f'the path {path} is impossible')
    ctx.ensure(sc >= best - tol, lambda: f'the path {path} has score {sc}, the best score is {best}')


@facet(c10.shapes, quick=2500)
def enumeration(spec, ctx):
    'The decoded path has the highest score of all enumerated paths.'
    if spec['K'] ** spec['N'] > 300:
        spec = {**spec, 'N': 4 if spec['K'] == 4 else 5}
    run(spec, ctx, lambda *a: max(s for _, s in c10.enumerate_paths(*a)))


@facet(st.fixed_dictionaries({
    'K': st.integers(1, 12), 'N': st.integers(1, 60),
    'kind': st.sampled_from(['dense', 'sparse', 'left-right', 'ring', 'defective']),
    'spread': st.sampled_from([1., 10., 300., 5000.]), 'offset': st.sampled_from([0., 0., -1e4]),
    'ties': st.booleans(),
    'dtype': st.sampled_from(['float64', 'float64', 'float32']), 'seed': st.integers(0, 10 ** 6)}), quick=800)
def long_sequences(spec, ctx):
    'Long sequences against an independent recursion.'
    run(spec, ctx, zoo.viterbi)


@facet(st.fixed_dictionaries({
    'K': st.sampled_from([100, 257, 300, 600]), 'N': st.integers(2, 25),
    'kind': st.sampled_from(['dense', 'sparse', 'left-right', 'ring', 'defective']),
    'spread': st.sampled_from([1., 10., 300.]), 'offset': st.just(0.), 'ties': st.booleans(),
    'dtype': st.sampled_from(['float64', 'float64', 'float32']), 'seed': st.integers(0, 10 ** 6)}), quick=60)
def many_states(spec, ctx):
    'Graphs of hundreds of states, as those of a phone loop or of a word transcription.'
    run(spec, ctx, zoo.viterbi)


def run(spec, ctx, ref):
    i, f, t, llh = c10.model(spec)
    dt = getattr(torch, spec['dtype'])
    if spec['dtype'] == 'float32' and np.abs(llh).max() > 50:
        llh = llh / np.abs(llh).max() * 50
    lt = torch.from_numpy(llh).to(dt)
    llh = lt.double().numpy()
    cg = zoo.compiled(i, f, t, range(spec['K']), spec['dtype'])
    N, K = llh.shape
    ctx.label(spec['kind'])
    ctx.label('ties', spec['ties'])
    ctx.label('one frame', N == 1)
    ctx.nontrivial(K > 1 and N > 1)
    keep = lt.clone()
    path = cg.best_path(lt)
    ctx.ensure(torch.equal(lt, keep), 'the log-likelihoods are modified')
    judge(ctx, i, f, t, llh, [int(s) for s in path], ref(i, f, t, llh), c10.tolerance(spec, llh) + 1e-9)


@facet(st.fixed_dictionaries({
    'states': st.integers(1, 6), 'pdfs': st.integers(1, 4), 'cov': st.sampled_from(['isotropic', 'diagonal', 'full']),
    'em': st.sampled_from(['normal', 'mixture', 'joint']),
    'dim': st.integers(1, 3), 'n': st.integers(6, 20), 'scale': st.sampled_from([1., 1., .1, 2.5]),
    'align': st.booleans(), 'seed': st.integers(0, 10 ** 6)}), quick=800)
def hmm(spec, ctx):
    'Decoding a HMM: best path of the scaled expected log-likelihoods, as densities.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    K, P = spec['states'], min(spec['pdfs'], spec['states'])
    em = zoo.emissions(spec['em'], spec['cov'], spec['dim'], P, rng)
    i, f, t, ids = zoo.random_graph(K, P, rng)
    model = beer.HMM.create(zoo.compiled(i, f, t, ids), em)
    x = mods.t64(rng.normal(size=(spec['n'], spec['dim'])) * 2)
    graph = None
    if spec['align']:
        K = int(rng.integers(1, 6))
        i, f, t, ids = zoo.random_graph(K, 1, rng)
        ids = [int(v) for v in rng.integers(0, P, size=K)]
        graph = zoo.compiled(i, f, t, ids)
    llh = em.expected_log_likelihood(em.sufficient_statistics(x)).detach().numpy()[:, ids] * spec['scale']
    best = zoo.viterbi(i, f, t, llh)
    tol = 1e-9 * (1 + np.abs(llh).max()) * len(llh)
    ctx.label('alignment graph', spec['align'])
    ctx.label(spec['em'])
    ctx.label('shared densities', len(set(ids)) < len(ids))
    ctx.nontrivial(K > 1)
    args = {'scale': spec['scale'], 'inference_graph': graph}
    pdfs = [int(s) for s in model.decode(x, **args)]
    ctx.equal(len(pdfs), len(llh), 'length of the decoded sequence')
    if len(set(ids)) == len(ids):
        judge(ctx, i, f, t, llh, [ids.index(p) for p in pdfs], best, tol)
    else:
        # Some best path must carry these densities.
        masked = np.where(np.array(ids)[None] == np.array(pdfs)[:, None], llh, -np.inf)
        ctx.ensure(zoo.viterbi(i, f, t, masked) >= best - tol, 'no best path has the decoded densities')
