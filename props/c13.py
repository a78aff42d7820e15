"""C13: phone-loop transitions and counts."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.special import digamma

from vf import mods, zoo
from vf.core import facet
from props import c08, c12

RULE = ('A case is a loop over units with generated topologies, a prior over units (Dirichlet, stick-breaking, '
        'with hyper-prior; per-unit Dirichlet or hierarchical stick-breaking for bigrams) and a history of '
        'utterances, alignments and updates.  Non-trivial: at least two units and one update.')
ASSUMPTIONS = ['expected counts from an independent forward-backward on the current transitions',
               'units have distinct start and end states (single-state units: see known-findings.txt)',
               'start and end maps list the units in the same order']

PRIORS = ['dirichlet', 'default', 'dp', 'gdp', 'bigram-dirichlet', 'bigram-default', 'bigram-hdp', 'bigram-hdp']
unit = st.fixed_dictionaries({'n': st.integers(2, 4), 'endloop': st.sampled_from([True, True, False]),
                              'skip': st.booleans()})
specs = {'units': st.one_of(*[st.lists(unit, min_size=1, max_size=4)] * 14, st.lists(unit, min_size=5, max_size=24)), 'prior': st.sampled_from(PRIORS),
         'cov': st.sampled_from(['isotropic', 'diagonal', 'full']), 'dim': st.integers(1, 2),
         'start': st.sampled_from(['weighted', 'flat']), 'perm': st.booleans(),
         'enter': st.sampled_from([False, False, True]), 'seed': st.integers(0, 10 ** 6)}


def loop_graph(spec, rng):
    'Compiled loop and start/end maps, units possibly listed in another order than created.'
    from beer.graph import Graph
    g = Graph()
    start, pin, pout, end = (g.add_state() for _ in range(4))
    g.start_state, g.end_state = start, end
    g.add_arc(start, pin)
    starts, ends, pdf = {}, {}, 0
    order = list(range(len(spec['units'])))
    if spec['perm']:
        order = [int(v) for v in rng.permutation(len(order))]
    maps = []
    for u in order:
        d = spec['units'][u]
        ids = [g.add_state(pdf_id=pdf + k) for k in range(d['n'])]
        g.add_arc(pin, ids[0], float(rng.uniform(.2, 2)) if spec['start'] == 'weighted' else 1.)
        for k in range(d['n'] - 1):
            p = float(rng.uniform(.2, .8))
            g.add_arc(ids[k], ids[k], p)
            g.add_arc(ids[k], ids[k + 1], 1 - p)
            if d['skip'] and k + 2 < d['n']:
                g.add_arc(ids[k], ids[k + 2], .3)
        p = float(rng.uniform(.2, .8))
        if d['endloop']:
            g.add_arc(ids[-1], ids[-1], p)
        g.add_arc(ids[-1], pout, 1 - p)
        if spec.get('enter'):
            # Utterances starting in the middle of a unit.
            g.add_arc(start, ids[int(rng.integers(1, d['n']))], float(rng.uniform(.2, 2)))
        maps.append((u, pdf, pdf + d['n'] - 1))
        pdf += d['n']
    g.add_arc(pout, pin)
    g.add_arc(pout, end)
    g.normalize()
    for u, s, e in sorted(maps):
        starts[f'u{u}'], ends[f'u{u}'] = s, e
    return g.compile().double(), starts, ends, pdf


def set_logw(cs):
    'Expected log-weights [previous unit, unit].'
    if type(cs).__name__ == 'CategoricalSet':
        return np.stack([c08.elog_weights(p) for p in mods.std_of(cs.weights.posterior)])
    c = cs.stickbreaking.posterior.params.concentrations.double().numpy()
    order = cs.root_sb_categorical.ordering.tolist()
    n = len(order)
    c = c.reshape(-1, n, 2)
    out = np.zeros((len(c), n))
    for r in range(len(c)):
        rest = 0.
        for k in order:
            out[r, k] = digamma(c[r, k, 0]) - digamma(c[r, k].sum()) + rest
            rest += digamma(c[r, k, 1]) - digamma(c[r, k].sum())
    return out


def make(spec, rng):
    import beer
    cg, starts, ends, pdf = loop_graph(spec, rng)
    n = len(starts)
    em = mods.normal_set(spec['cov'], spec['dim'], pdf, rng)
    prior = spec['prior']
    s = float(rng.uniform(.5, 4))
    strength = {'prior_strength': s}
    cat = None
    if prior == 'dirichlet':
        cat = mods.random_categorical(n, rng)
    elif prior == 'dp':
        cat = beer.SBCategorical.create(n, prior_strength=s).double()
    elif prior == 'gdp':
        cat = beer.SBCategoricalHyperPrior.create(n, prior_strength=s).double()
    elif prior == 'bigram-dirichlet':
        cat = mods.random_categorical_set(n, n, rng)
    elif prior == 'bigram-hdp':
        root = beer.SBCategorical.create(n, prior_strength=s).double()
        root.stickbreaking.stats = mods.t64(rng.gamma(1., 10., size=n))
        root.stickbreaking.natural_grad_update(1.)
        cat = beer.SBCategoricalSet.create(n, root, prior_strength=s).double()
        if rng.random() < .7:
            cat.stickbreaking.stats = mods.t64(rng.gamma(1., 5., size=(n, n)))
            cat.stickbreaking.natural_grad_update(1.)
    cls = beer.BigramPhoneLoop if prior.startswith('bigram') else beer.PhoneLoop
    base = {k: v.clone().numpy() for k, v in
            (('i', cg.init_log_probs), ('f', cg.final_log_probs), ('t', cg.trans_log_probs))}
    model = cls.create(cg, starts, ends, em, cat, **strength)
    return model, em, starts, ends, base


def check_trans(ctx, model, starts, ends, base, what):
    bigram = hasattr(model, 'categoricalset')
    if bigram:
        lw = set_logw(model.categoricalset)
    else:
        lw = np.tile(c08.cat_logw(model.categorical), (len(starts), 1))
    want = base['t'].copy()
    for u, (e, name) in enumerate((e, n) for n, e in ends.items()):
        loop = np.exp(base['t'][e, e])
        want[e, list(starts.values())] = np.log(1 - loop) + lw[u]
    g = model.graph
    got = g.trans_log_probs.numpy()
    ctx.allclose(np.exp(got), np.exp(want), f'transition probabilities {what}', rtol=1e-6, atol=1e-12)
    ctx.ensure(np.array_equal(g.init_log_probs.numpy(), base['i']), f'initial probabilities {what}')
    ctx.ensure(np.array_equal(g.final_log_probs.numpy(), base['f']), f'final probabilities {what}')
    return np.exp(base['i']), np.exp(base['f']), np.exp(got)


call = st.fixed_dictionaries({
    'n': mods.sizes(0, 8), 'mode': st.sampled_from(['exact', 'exact', 'exact', 'viterbi', 'align']),
    'scale': st.sampled_from([1., 1., .3]), 'lrate': st.sampled_from([1., 1., .4, None]),
    'seed': st.integers(0, 10 ** 6)})


@facet(st.fixed_dictionaries({**specs, 'calls': st.lists(call, min_size=1, max_size=4)}), quick=700)
def histories(spec, ctx):
    'Transitions at creation and after each update, counts of every utterance.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    model, em, starts, ends, base = make(spec, rng)
    n_units = len(starts)
    bigram = spec['prior'].startswith('bigram')
    cat = model.categoricalset if bigram else model.categorical
    par = cat.mean_field_factorization()[0][0]
    s, e = list(starts.values()), list(ends.values())
    ctx.label(spec['prior'])
    ctx.nontrivial(n_units > 1)
    probs = check_trans(ctx, model, starts, ends, base, 'at creation')
    optim = beer.VBConjugateOptimizer(model.mean_field_factorization(), lrate=1.)
    K = len(base['i'])
    shortest = min(u['n'] for u in spec['units'])
    for step, c in enumerate(spec['calls']):
        crng = np.random.default_rng(c['seed'])
        n = c['n'] + shortest + 1
        x = crng.normal(size=(n, spec['dim'])) * 2
        ctx.label(c['mode'])
        arg = {'scale': c['scale']}
        llh = mods.set_llh(em.means_precisions, x) * c['scale']
        if c['mode'] == 'align':
            k = int(crng.integers(1, 4))
            i, f, t, _ = zoo.random_graph(k, 1, crng)
            ids = [int(v) for v in crng.integers(0, K, size=k)]
            arg['inference_graph'] = zoo.compiled(i, f, t, ids)
            n += k
            x = crng.normal(size=(n, spec['dim'])) * 2
            llh = mods.set_llh(em.means_precisions, x)[:, ids] * c['scale']
            post = zoo.forward_backward(i, f, t, llh)[0]
            w = c12.density_resps(post, ids, K)
            counts = np.zeros((n_units, n_units)) if bigram else np.zeros(n_units)
        else:
            if c['mode'] == 'viterbi':
                arg['viterbi'] = True
                path = c12.best_path(*probs, llh)
                post = np.eye(K)[path]
                xi = np.zeros((n - 1, K, K))
                xi[np.arange(n - 1), path[:-1], path[1:]] = 1
            else:
                post, xi, _ = zoo.forward_backward(*probs, llh)
            w = post
            trans = xi.sum(0)[np.ix_(e, s)]
            counts = trans if bigram else trans.sum(0) + post[0][s]
        stats = model.sufficient_statistics(mods.t64(x))
        model.expected_log_likelihood(stats, **arg)
        acc = model.accumulate(stats)
        ctx.ensure(set(acc) == {em.means_precisions, par}, 'parameters having statistics')
        if 'dirichlet' in spec['prior'] or 'default' in spec['prior']:
            want = mods.T('dirichlet', np.atleast_2d(counts))
            want = want if bigram else want[0]
        else:
            want = counts
        ctx.allclose(acc[par], want, f'unit counts of utterance {step + 1} ({c["mode"]})', rtol=1e-5,
                     atol=1e-6, scale=n)
        T = mods.T(mods.COV[spec['cov']], x)
        ctx.allclose(acc[em.means_precisions], c['scale'] * w.T @ T, 'statistics of the densities', rtol=1e-7,
                     scale=(1 + np.abs(T).max()) * n)
        check_trans(ctx, model, starts, ends, base, 'after inference')
        if c['lrate'] is None:
            continue
        optim.lrate = c['lrate']
        optim.init_step()
        elbo = beer.evidence_lower_bound(model, mods.t64(x), datasize=2 * n, **arg)
        elbo.backward()
        optim.step()
        ctx.label('updates')
        probs = check_trans(ctx, model, starts, ends, base, f'after update {step + 1}')


@facet(st.fixed_dictionaries({'n': st.integers(1, 3), 'seed': st.integers(0, 10 ** 6)}), quick=20, shards=1)
def single_state_units(spec, ctx):
    'Units of one state keep their self-loop.'
    rng = np.random.default_rng(spec['seed'])
    import beer
    n = spec['n']
    g, starts, ends = zoo.unit_loop([1] * n, rng)
    cg = g.compile().double()
    loops = np.exp(np.diag(cg.trans_log_probs.numpy())).copy()
    model = beer.PhoneLoop.create(cg, starts, ends, mods.normal_set('full', 2, n, rng))
    ctx.nontrivial()
    got = np.exp(np.diag(model.graph.trans_log_probs.numpy()))
    w = np.exp(c08.cat_logw(model.categorical))
    if np.allclose(got, (1 - loops) * w, rtol=1e-6):
        # Exactly the finding: the loop is replaced by the probability to enter the unit.
        ctx.finding('single-state-units', 'the self-loop of a single-state unit is overwritten by the '
                    'probability to enter the unit')
    ctx.allclose(got, loops + (1 - loops) * w, 'loop of a single-state unit', rtol=1e-6)
