"""C12: inference and training of hidden Markov models."""
import numpy as np
import torch
from hypothesis import strategies as st

from vf import mods, zoo
from vf.core import facet
from props import c08

RULE = ('A case is a HMM (random compiled graph, shared densities, emission sets of Normals, mixtures or joint '
        'sets) and a history of utterances with scale, inference type, alignment graph or given path.  '
        'Non-trivial: at least two states and two frames.')
ASSUMPTIONS = ['independent log-domain forward-backward and Viterbi recursions (checked against enumeration in '
               'C10/C11) and textbook expected log-likelihoods', 'a path exists for every utterance', 'float64']

covs = st.sampled_from(['isotropic', 'diagonal', 'full'])
model_spec = {
    'em': st.sampled_from(['normal', 'normal', 'nested', 'joint']), 'cov': covs, 'dim': st.integers(1, 3),
    'pdfs': st.integers(1, 4), 'states': mods.sizes(1, 5, (6, 40), 30), 'seed': st.integers(0, 10 ** 6)}


def make(spec, rng):
    import beer
    em, ref = c08.make_set(spec['em'], spec['cov'], spec['dim'], min(spec['pdfs'], spec['states']), rng)
    K = spec['states']
    i, f, t, ids = zoo.random_graph(K, len(em), rng)
    rng.shuffle(ids)
    return beer.HMM.create(zoo.compiled(i, f, t, ids), em), em, ref, (i, f, t, ids)


def responsibilities(g, llh, mode):
    i, f, t, _ = g
    if mode == 'viterbi':
        return np.eye(len(i))[best_path(i, f, t, llh)]
    return zoo.forward_backward(i, f, t, llh)[0]


def best_path(i, f, t, llh):
    with np.errstate(divide='ignore'):
        li, lf, lt = np.log(i), np.log(f), np.log(t)
    w, back = li + llh[0], []
    for n in range(1, len(llh)):
        h = w[:, None] + lt
        back.append(h.argmax(0))
        w = llh[n] + h.max(0)
    path = [int((w + lf).argmax())]
    for b in reversed(back):
        path.insert(0, int(b[path[0]]))
    return path


def density_resps(post, ids, n):
    out = np.zeros((len(post), n))
    for s, k in enumerate(ids):
        out[:, k] += post[:, s]
    return out


def check_stats(ctx, spec, em, x, w, acc, msg):
    'Statistics of the emission parameters for density responsibilities w.'
    fam = mods.COV[spec['cov']]
    T = mods.T(fam, x)
    big = (1 + np.abs(T).max()) * (1 + np.abs(w).sum())
    if spec['em'] == 'normal':
        ctx.allclose(acc[em.means_precisions], w.T @ T, msg, rtol=1e-8, scale=big)
    elif spec['em'] == 'nested':
        j = c08.mixset_joint(em.categoricalset, em.modelset, x)
        r = np.exp(j - mods.logsumexp(j, 2)[:, :, None]) * w[:, :, None]
        ctx.allclose(acc[em.modelset.means_precisions], r.reshape(len(x), -1).T @ T, msg, rtol=1e-8, scale=big)
        c = np.stack([mods.T('dirichlet', r[:, k]).sum(0) for k in range(w.shape[1])])
        ctx.allclose(acc[em.categoricalset.weights], c, msg + ' (weights)', rtol=1e-8, scale=big)
    else:
        start = 0
        for part in em.modelsets:
            ctx.allclose(acc[part.means_precisions], w[:, start:start + len(part)].T @ T, msg, rtol=1e-8, scale=big)
            start += len(part)


call = st.fixed_dictionaries({
    'n': mods.sizes(1, 8), 'scale': st.sampled_from([1., 1., 1., .1, 2.5]),
    'mode': st.sampled_from(['exact', 'exact', 'viterbi', 'path']), 'align': st.booleans(),
    'change': st.sampled_from([None, None, 'set', 'update', 'load', 'clear']), 'seed': st.integers(0, 10 ** 6)})


def change(model, how, rng, ctx):
    'Changes the parameters of a model: the next results have to follow.'
    pars = mods.conj_params(model)
    if how == 'clear':
        model.clear_cache()
    elif how in ('set', 'update'):
        i = int(rng.integers(len(pars)))
        eta = mods.other_etas(pars, rng)[i]
        if how == 'set':
            pars[i].posterior.update_from_natural_parameters(eta)
        else:
            pars[i].store_stats(eta - pars[i].prior.natural_parameters())
            pars[i].natural_grad_update(float(rng.choice([1., .5])))
    elif how == 'load':
        keep = [p.posterior.natural_parameters().clone() for p in pars]
        for p, eta in zip(pars, mods.other_etas(pars, rng)):
            p.posterior.update_from_natural_parameters(eta)
        saved = {k: v.clone() for k, v in model.state_dict().items()}
        for p, eta in zip(pars, keep):
            p.posterior.update_from_natural_parameters(eta)
        model.load_state_dict(saved)
    ctx.label('changed parameters', how in ('set', 'update', 'load'))


@facet(st.fixed_dictionaries({**model_spec, 'calls': st.lists(call, min_size=1, max_size=4)}), quick=900)
def inference(spec, ctx):
    'Responsibilities, log-likelihoods, statistics and posteriors, over histories of calls.'
    rng = np.random.default_rng(spec['seed'])
    model, em, ref, own = make(spec, rng)
    P = len(em)
    ctx.label(spec['em'])
    ctx.label('shared densities', len(set(own[3])) < len(own[3]))
    for c in spec['calls']:
        crng = np.random.default_rng(c['seed'])
        change(model, c.get('change'), crng, ctx)
        g, arg = own, {}
        if c['align']:
            K = int(crng.integers(1, 5))
            i, f, t, _ = zoo.random_graph(K, 1, crng)
            ids = [int(v) for v in crng.integers(0, P, size=K)]
            g = (i, f, t, ids)
            arg['inference_graph'] = zoo.compiled(i, f, t, ids)
        K = len(g[0])
        n = c['n'] + K          # long enough for a path through the graph
        x = crng.normal(size=(n, spec['dim'])) * 2
        llh = ref(x)[:, g[3]] * c['scale']
        arg['scale'] = c['scale']
        ctx.label('alignment', c['align'])
        ctx.label(c['mode'])
        ctx.nontrivial(K > 1)
        xt = mods.t64(x)
        stats = model.sufficient_statistics(xt)
        if c['mode'] == 'path':
            path = [int(v) for v in crng.integers(0, K, size=n)]
            post = np.eye(K)[path]
            got = model.expected_log_likelihood(stats, state_path=torch.LongTensor(path), **arg)
        else:
            post = responsibilities(g, llh, c['mode'])
            got = model.expected_log_likelihood(stats, viterbi=c['mode'] == 'viterbi', **arg)
        tol = 1e-9 * (1 + np.abs(llh).max()) * n
        ctx.allclose(got, (post * llh).sum(1), 'expected log-likelihood per frame', rtol=0,
                     atol=tol * (1 + np.abs(llh).max()))
        acc = model.accumulate(stats)
        ctx.ensure(set(acc) == set(mods.conj_params(em)), 'parameters having statistics')
        w = density_resps(post, g[3], P) * c['scale']
        check_stats(ctx, spec, em, x, w, acc, 'statistics')
        got = model.posteriors(xt, **arg)
        ctx.allclose(got, zoo.forward_backward(*g[:3], llh)[0], 'state posteriors', rtol=0, atol=tol)


@facet(st.fixed_dictionaries({
    **model_spec, 'utts': st.one_of(*[st.lists(st.integers(1, 8), min_size=1, max_size=4)] * 20, st.lists(mods.sizes(1, 8, (30, 100), 3), min_size=4, max_size=12)), 'steps': st.integers(2, 6),
    'mode': st.sampled_from(['exact', 'exact', 'viterbi']), 'scale': st.sampled_from([1., 1., .3]),
    'align': st.booleans()}), quick=350)
def training(spec, ctx):
    'Full-batch training never decreases the bound computed independently.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    model, em, ref, own = make(spec, rng)
    P, K = len(em), spec['states']
    utts, graphs = [], []
    for n in spec['utts']:
        if spec['align']:
            k = int(rng.integers(1, 4))
            i, f, t, _ = zoo.random_graph(k, 1, rng)
            graphs.append((i, f, t, [int(v) for v in rng.integers(0, P, size=k)]))
        else:
            graphs.append(own)
        utts.append(rng.normal(size=(n + 4, spec['dim'])) * 2 + rng.normal(size=spec['dim']))
    n = sum(map(len, utts))
    pars = mods.conj_params(model)
    optim = beer.VBConjugateOptimizer(model.mean_field_factorization(), lrate=1.)
    ctx.label(spec['mode'])
    ctx.label(spec['em'])
    ctx.nontrivial(K > 1)
    hist = []
    for _ in range(spec['steps']):
        kl = sum(mods.kl_of(p.posterior, p.prior) for p in pars)
        bound = -kl
        optim.init_step()
        elbo = beer.evidence_lower_bound(datasize=n)
        for x, g in zip(utts, graphs):
            llh = ref(x)[:, g[3]] * spec['scale']
            if spec['mode'] == 'viterbi':
                bound += zoo.viterbi(*g[:3], llh)
            else:
                bound += zoo.forward_backward(*g[:3], llh)[2]
            arg = {'inference_graph': zoo.compiled(*g)} if spec['align'] else {}
            elbo += beer.evidence_lower_bound(model, mods.t64(x), datasize=n, scale=spec['scale'],
                                              viterbi=spec['mode'] == 'viterbi', **arg)
        hist.append(bound)
        if len(hist) > 1:
            ctx.ensure(hist[-1] >= hist[-2] - 1e-7 * (1 + max(map(abs, hist))),
                       lambda: f'the bound decreases: {hist}')
        elbo.backward()
        for _ in range(len(model.mean_field_factorization())):
            optim.step()


@facet(st.fixed_dictionaries({**model_spec, 'n': st.integers(1, 10)}), quick=250)
def evaluation_is_pure(spec, ctx):
    'Decoding, posteriors and objectives change neither the model nor the results of one another.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    model, em, ref, (i, f, t, ids) = make(spec, rng)
    xs = [mods.t64(rng.normal(size=(spec['n'] + spec['states'], spec['dim']))) for _ in range(2)]
    ctx.nontrivial(spec['states'] > 1)

    def look(x):
        return [model.posteriors(x), model.decode(x).double(),
                torch.tensor(float(beer.evidence_lower_bound(model, x)))]

    state = {k: v.clone() for k, v in model.state_dict().items()}
    first = look(xs[0])
    look(xs[1])
    beer.evidence_lower_bound(model, xs[1], viterbi=True, scale=.5)
    for a, b in zip(first, look(xs[0])):
        ctx.ensure(torch.equal(a, b), 'results depend on former calls')
    for k, v in model.state_dict().items():
        ctx.ensure(torch.equal(v, state[k]), f'{k} changes when the model is evaluated')
