"""C23: commands building graphs and models."""
import os
import pickle
import re

import numpy as np
import torch
import yaml
from hypothesis import strategies as st

from vf import cli, mods, zoo
from vf.core import facet
from props import c09

RULE = ('A case is a configuration of groups (topologies, emission settings), a list of units, loop constraints and '
        'transcriptions, pushed through the commands.  Non-trivial: several units, one of several states.')
ASSUMPTIONS = ['units have one entry and one exit emitting state; groups share the covariance type',
               'reference: plain python graphs, silent paths enumerated in float64',
               'the initial emissions are compared with the library constructors (judged by C05 and C08)']

SEED = st.integers(0, 2**31 - 1)
NAME = st.from_regex(r'\A[a-zA-Z]{1,3}[0-9]{0,3}\Z')
POOL = ['a', 'B', 'au1', 'au2', 'au10', 'AU11', 'sil', 'n1', 'x_y', 'é', '10', '2', "b'", 'q-1']


@st.composite
def topology(draw, loops=False, numbers=False):
    'Number of emitting states, arcs between 0 .. n+1 and the emitting states in the order of the unit.'
    n = draw(st.sampled_from([2, 3, 1, 4]))
    arcs = {(0, 1): 1.}
    for i in range(1, n + 1):
        out = {}
        if loops or draw(st.integers(0, 4)):
            out[i] = draw(st.integers(1, 5))
        out[i + 1] = draw(st.integers(1, 5))
        if i < n:
            for j in draw(st.lists(st.integers(1, n), max_size=2)):
                if draw(st.booleans()) and j > 1 or j > i:
                    out.setdefault(j, draw(st.integers(1, 5)))
        tot = float(sum(out.values()))
        out = {j: w / tot for j, w in out.items()}
        for j, w in out.items():
            arcs[i, j] = w
    order = draw(st.permutations(sorted(arcs)))
    # The emitting states may be numbered in another order than the one in which they are visited.
    num = [0, *(draw(st.permutations(range(1, n + 1))) if numbers and draw(st.booleans()) else range(1, n + 1)), n + 1]
    return {'n': n, 'arcs': [[num[i], num[j], arcs[i, j]] for i, j in order], 'chain': num[1:-1]}


def group(loops=False, noise=(0., 0., .3), numbers=False):
    return st.fixed_dictionaries({'topology': topology(loops, numbers), 'ncomp': st.integers(1, 3),
                                  'strength': st.sampled_from([.5, 1., 10.]), 'noise': st.sampled_from(noise)})


@st.composite
def worlds(draw, max_units=5, **kw):
    ng = draw(st.integers(1, 3))
    groups = [draw(group(**kw)) for _ in range(ng)]
    size = min(max_units, draw(st.sampled_from([3, 2, 4, 1, 5])))
    names = draw(st.lists(st.sampled_from(POOL), min_size=size, max_size=size, unique=True))
    where = [draw(st.integers(0, ng - 1)) for _ in names]
    return {'seed': draw(SEED), 'groups': groups, 'units': [[n, w] for n, w in zip(names, where)],
            'cov': draw(st.sampled_from(['isotropic', 'diagonal', 'full'])), 'dim': draw(st.integers(1, 3)),
            'data': draw(st.booleans())}


def groupname(i):
    return ['speech', 'non-speech', 'other'][i]


def used_groups(w):
    return sorted({g for _, g in w['units']})


class World:
    'Files of the commands, with the reference description of the units.'

    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.tmp = ctx.tmpdir()
        if os.path.exists(self.path('hmm.yml')):         # another world of the same case
            self.tmp = self.path('other')
            os.mkdir(self.tmp)
        self.conf = [{
            'group_name': groupname(i), 'n_normal_per_state': g['ncomp'], 'prior_strength': g['strength'],
            'noise_std': g['noise'], 'cov_type': spec['cov'], 'shared_cov': False,
            'topology': [{'start_id': a, 'end_id': b, 'trans_prob': w} for a, b, w in g['topology']['arcs']],
        } for i, g in enumerate(spec['groups'])]
        with open(self.path('hmm.yml'), 'w') as f:
            f.write(yaml.dump(self.conf))
        with open(self.path('units'), 'w') as f:
            f.writelines(f'{n} {groupname(g)}\n' for n, g in spec['units'])
        # Units in the order of the groups, densities numbered in this order.
        self.names = [n for g in range(len(spec['groups'])) for n, h in spec['units'] if h == g]
        self.group = dict(map(tuple, spec['units']))
        self.refs, self.chain, self.first, self.last, pdf = {}, {}, {}, {}, 0
        for n in self.names:
            top = spec['groups'][self.group[n]]['topology']
            k = top['n']
            self.refs[n] = c09.Ref({i: pdf + i - 1 if 0 < i <= k else None for i in range(k + 2)},
                                   {(a, b): w for a, b, w in top['arcs']}, 0, k + 1)
            self.chain[n] = [pdf + i - 1 for i in top.get('chain', range(1, k + 1))]
            self.first[n], self.last[n] = self.chain[n][0], self.chain[n][-1]
            pdf += k
        self.npdf = pdf
        rng = np.random.default_rng(spec['seed'])
        self.rng = rng
        self.mean, self.var = torch.zeros(spec['dim']), torch.ones(spec['dim'])

    def path(self, name):
        return os.path.join(self.tmp, name)

    def load(self, name):
        with open(self.path(name), 'rb') as f:
            return pickle.load(f)

    def dataset(self, utts=None):
        'A data set of random utterances {id: frames}.'
        if utts is None:
            utts = {f'utt{i}': self.rng.normal(size=(4 + i, self.spec['dim'])) * 2 + 1 for i in range(3)}
        np.savez(self.path('f.npz'), **utts)
        cli.ok(self.ctx, 'dataset', 'create', self.tmp, self.path('f.npz'), self.path('data'))
        return utts

    def mkphones(self):
        if self.spec['data']:
            self.dataset()
            ds = self.load('data')
            self.mean, self.var = ds.mean, ds.var
            arg = ['-d', self.path('data')]
        else:
            arg = ['-D', self.spec['dim']]
        cli.ok(self.ctx, 'hmm', 'mkphones', *arg, self.path('hmm.yml'), self.path('units'), self.path('hmms'))
        return self.load('hmms')

    def loop(self, group=None):
        opt = [] if group is None else ['-s', groupname(group)]
        cli.ok(self.ctx, 'hmm', 'mkphoneloopgraph', *opt, self.path('units'), self.path('loop'))
        return self.load('loop')

    def loop_ref(self, group=None):
        'Reference loop over the unit names (states are names).'
        names = [n for n, _ in self.spec['units']]
        edge = ['#pivot'] if group is None else [n for n, g in self.spec['units'] if g == group]
        label = {n: n for n in names}
        label.update({'#start': None, '#end': None, '#pivot': None})
        arcs = {}
        for e in edge:
            arcs['#start', e] = 1.
            arcs[e, '#end'] = 1.
        for n in names:
            arcs['#pivot', n] = 1.
            arcs[n, '#pivot'] = 1.
        ref = c09.Ref(label, arcs, '#start', '#end')
        ref.normalize()
        return ref

    def decode(self):
        cli.ok(self.ctx, 'hmm', 'mkdecodegraph', self.path('loop'), self.path('hmms'), self.path('decode'))
        return self.load('decode')

    def decode_ref(self, group=None):
        ref = self.loop_ref(group)
        for n in self.names:
            ref.replace(n, self.refs[n], n)
        ref.normalize()
        return ref

    def phoneloop(self, prior='dirichlet', conc=None, out='ploop'):
        opt = ['--weights-prior', prior] if prior else []
        if conc:
            opt += ['-c', conc]
        cli.ok(self.ctx, 'hmm', 'mkphoneloop', *opt, self.path('decode'), self.path('hmms'), self.path(out))
        return self.load(out)

    def save(self, name, obj):
        with open(self.path(name), 'wb') as f:
            pickle.dump(obj, f)

    def state_index(self):
        'Compiled states in the order of the densities.'
        return [p for n in self.names for p in sorted(self.chain[n])]


def same_tables(ctx, got, want, what, rtol=1e-6):
    'Two graphs with the same weights between labelled states (labels are distinct).'
    def named(r):
        out = []
        for t in r.tables():
            out.append({tuple(r.label[i] for i in k) if isinstance(k, tuple) and k not in r.label else (r.label[k],): v
                        for k, v in t.items()})
        return out
    for g, w, name in zip(named(got), named(want), ('initial', 'final', 'transition')):
        ctx.equal(sorted(g), sorted(w), f'{what}: possible {name} events')
        for k in w:
            ctx.allclose(g[k], w[k], f'{what}: {name} weight {k}', rtol=rtol)


def by_pdf(ref, n):
    'Compiled probabilities ordered by density.'
    nodes = sorted((i for i in ref.label if ref.label[i] is not None), key=lambda i: ref.label[i])
    return c09.expected(ref, nodes)


def check_compiled(ctx, cg, want, what):
    'A compiled graph (any order of the states) against probabilities ordered by density.'
    ids = list(cg.pdf_id_mapping)
    n = len(want[0])
    ctx.equal(sorted(ids), list(range(n)), f'{what}: densities of the states')
    a, b, t = want
    sel = np.array(ids)
    for g, w, name in zip((cg.init_log_probs, cg.final_log_probs, cg.trans_log_probs),
                          (a[sel], b[sel], t[np.ix_(sel, sel)]), ('initial', 'final', 'transition')):
        ctx.allclose(g.double().exp(), w, f'{what}: {name} probabilities', rtol=1e-5, atol=1e-7)
        ctx.equal(np.isinf(g.double().numpy()).tolist(), (w == 0).tolist(), f'{what}: impossible {name} events')


def self_loop_too_strong(ref):
    return any(w > .97 for (i, j), w in ref.tables()[2].items() if i == j)


# ------------------------------------------------------------------ facets

@facet(worlds(numbers=True), quick=250, shards=4)
def phones(spec, ctx):
    'Units: topology, probabilities, names and densities of the configuration.'
    import beer
    w = World(spec, ctx)
    ctx.nontrivial(len(w.names) > 1 and w.npdf > len(w.names))
    ctx.label('group without units', len(used_groups(spec)) < len(spec['groups']))
    units, em = w.mkphones()
    ctx.equal(sorted(units), sorted(w.names), 'units')
    for n in w.names:
        ref = w.refs[n]
        g = c09.Ref.of_lib(units[n])
        ctx.equal((len(g.label), g.label[g.start], g.label[g.end]), (len(ref.label), None, None), f'states of {n}')
        ctx.equal(sorted(p for p in g.label.values() if p is not None),
                  sorted(p for p in ref.label.values() if p is not None), f'densities of {n}')
        same_tables(ctx, g, ref, f'unit {n}')
    ctx.equal(len(em), w.npdf, 'number of densities')
    # Emissions as the constructors of the library make them.
    x = mods.t64(w.rng.normal(size=(5, spec['dim']))).float()
    got = em.expected_log_likelihood(em.sufficient_statistics(x))
    ctx.equal(tuple(got.shape), (5, w.npdf), 'densities evaluated')
    ctx.ensure(torch.isfinite(got).all(), 'initial densities are not finite')
    pdf = 0
    for gi, g in enumerate(spec['groups']):
        k = g['topology']['n'] * sum(h == gi for _, h in spec['units'])
        if not k:
            continue
        ref = beer.MixtureSet.create(k, beer.NormalSet.create(
            w.mean, w.var, size=k * g['ncomp'], prior_strength=g['strength'], noise_std=0., cov_type=spec['cov']),
            prior_strength=g['strength'])
        if g['noise'] == 0:
            want = ref.expected_log_likelihood(ref.sufficient_statistics(x))
            ctx.allclose(got[:, pdf:pdf + k], want, f'densities of the group {groupname(gi)}', 1e-4, 1e-4)
        else:
            ctx.label('noise')
            if g['ncomp'] * k > 1:
                m = got[:, pdf:pdf + k]
                ctx.ensure(k == 1 or not torch.allclose(m[:, 0], m[:, -1]), 'initial densities are identical')
        pdf += k
    names = [type(p.prior).__name__ for p in mods.conj_params(em)]
    ctx.equal(sum(n != 'Dirichlet' for n in names), len(em.modelsets), 'sets of Normal densities')
    ngot = [len(mods.std_of(p.prior)) for p in mods.conj_params(em) if type(p.prior).__name__ != 'Dirichlet']
    nwant = [g['topology']['n'] * g['ncomp'] * sum(h == gi for _, h in spec['units']) for gi, g in enumerate(spec['groups'])]
    ctx.equal([n for n in ngot if n], [n for n in nwant if n], 'number of Normal densities per group')
    for p in mods.conj_params(em):
        if type(p.prior).__name__ != 'Dirichlet':
            for q in mods.std_of(p.prior):
                ctx.allclose(q['mean'], w.mean, 'prior mean of the densities', 1e-5, 1e-5)
    # List of phones.
    res = cli.ok(ctx, 'hmm', 'phonelist', w.path('hmms'))
    ctx.equal(sorted(res.lines), sorted(w.names), 'listed phones')
    simple = [n for n in res.lines if re.fullmatch(r'[a-zA-Z]+[0-9]*', n)]
    key = lambda s: [int(t) if t.isdigit() else t for t in re.split(r'(\d+)', s.lower()) if t]
    ctx.equal(simple, sorted(simple, key=key), 'order of the phones')


@facet(st.fixed_dictionaries({'world': worlds(numbers=True), 'edge': st.booleans(), 'edge_group': st.integers(0, 2)}),
       quick=220, shards=4)
def loops(spec, ctx):
    'Phone loop and decoding graph: allowed sequences, probabilities, entry and exit densities.'
    ws = spec['world']
    w = World(ws, ctx)
    ctx.nontrivial(len(w.names) > 1 and w.npdf > len(w.names))
    used = used_groups(ws)
    group = used[spec['edge_group'] % len(used)] if spec['edge'] else None
    ctx.label('start/end group', group is not None)
    w.mkphones()
    g = w.loop(group)
    got = c09.Ref.of_lib(g)
    names = {n for n, _ in ws['units']}
    ctx.ensure(names <= set(g.symbols.values()), 'units are missing in the symbols')
    ctx.equal(len(set(g.symbols.values())), len(g.symbols), 'symbols are distinct')
    ctx.equal(set(g.symbols), set(g.states()), 'every state has a symbol')
    got.label = {s: g.symbols[s] if g.symbols[s] in names else None for s in got.label}
    same_tables(ctx, got, w.loop_ref(group), 'phone loop')
    graph, first, last = w.decode()
    ctx.equal(dict(first), w.first, 'entry densities')
    ctx.equal(dict(last), w.last, 'exit densities')
    ctx.equal(list(first), list(last), 'order of the units')
    ref = w.decode_ref(group)
    same_tables(ctx, c09.Ref.of_lib(graph), ref, 'decoding graph')
    if self_loop_too_strong(ref):
        return
    cg = graph.compile()
    check_compiled(ctx, cg, by_pdf(ref, w.npdf), 'compiled decoding graph')
    if not w.loop_ref(group).label:
        return
    # Random accepted and refused sequences of densities.
    a, b, t = (np.exp(v.double().numpy()) for v in (cg.init_log_probs, cg.final_log_probs, cg.trans_log_probs))
    idx = {p: i for i, p in enumerate(cg.pdf_id_mapping)}
    for _ in range(3):
        # Spell a random path of the reference.
        i0 = w.loop_ref(group)
        init, final, tr = i0.tables()
        seq = [sorted(init)[int(w.rng.integers(len(init)))]]
        for _ in range(int(w.rng.integers(0, 4))):
            nxt = sorted(j for (i, j) in tr if i == seq[-1])
            if not nxt:
                break
            seq.append(nxt[int(w.rng.integers(len(nxt)))])
        if seq[-1] not in final:
            continue
        path = [p for n in seq for p in w.chain[n]]
        pr = a[idx[path[0]]] * b[idx[path[-1]]]
        for u, v in zip(path[:-1], path[1:]):
            pr *= t[idx[u], idx[v]]
        ctx.ensure(pr > 0, f'the unit sequence {seq} is refused')
        if w.first[seq[0]] != w.last[seq[0]]:
            ctx.label('incomplete unit')
            ctx.equal(float(b[idx[w.first[seq[-1]]]]) if w.first[seq[-1]] != w.last[seq[-1]] else 0., 0.,
                      'a path may end within a unit')


PRIORS = ['dirichlet', 'dirichlet2', 'dirichlet_process', 'gamma_dirichlet_process', 'hierarchical_dirichlet_process']


@facet(st.fixed_dictionaries({'world': worlds(4), 'prior': st.sampled_from([None] + PRIORS),
                              'conc': st.sampled_from([None, .5, 1., 7.]),
                              'prior2': st.sampled_from([None, 'dirichlet2', 'hierarchical_dirichlet_process'])}),
       quick=200, shards=4)
def models(spec, ctx):
    'Phone-loop models: the graph, maps, emissions and weights prior that were asked for.'
    import beer
    w = World(spec['world'], ctx)
    w.mkphones()
    w.loop()
    graph, first, last = w.decode()
    if self_loop_too_strong(w.decode_ref()):
        ctx.label('strong self-loop')
        return
    K = len(w.names)
    if K < 2:
        ctx.label('one unit')
        if spec['prior'] in ('dirichlet', 'dirichlet2'):
            return                      # a Dirichlet over one event is not defined
    ctx.nontrivial(K > 1)
    prior = spec['prior'] or 'gamma_dirichlet_process'
    ctx.label(prior)
    model = w.phoneloop(spec['prior'], spec['conc'])
    conc = spec['conc'] or K / 2
    units, em = w.load('hmms')
    two = prior in ('dirichlet2', 'hierarchical_dirichlet_process')

    def weights(p, c):
        if p == 'dirichlet':
            return beer.Categorical.create(torch.ones(K) / K, prior_strength=c)
        if p == 'dirichlet2':
            return beer.CategoricalSet.create(torch.ones(K, K) / K, prior_strength=c)
        if p == 'dirichlet_process':
            return beer.SBCategorical.create(K, prior_strength=c)
        if p == 'gamma_dirichlet_process':
            return beer.SBCategoricalHyperPrior.create(K, prior_strength=c, hyper_prior_strength=1.)
        return beer.SBCategoricalSet.create(K, beer.SBCategorical.create(K, prior_strength=c), prior_strength=c)

    def library(cat, two):
        cls = beer.BigramPhoneLoop if two else beer.PhoneLoop
        return cls.create(graph.compile(), first, last, pickle.loads(pickle.dumps(em)), cat)
    want = library(weights(prior, conc), two)
    compare(ctx, w, model, want, 'phone loop')
    # Bigram loop from the unigram one.
    # The unigram loop merges the self-loop and the entry of units of one state (known finding of C13).
    if not two and K > 1 and all(len(w.chain[n]) > 1 for n in w.names):
        opt = ['--weights-prior', spec['prior2']] if spec['prior2'] else []
        p2 = spec['prior2'] or 'hierarchical_dirichlet_process'
        if p2 == 'hierarchical_dirichlet_process' and prior not in ('dirichlet_process', 'gamma_dirichlet_process'):
            return
        ctx.label('bigram from unigram')
        cli.ok(ctx, 'hmm', 'mkphoneloopbigram', *opt, w.path('ploop'), w.path('big'))
        big = w.load('big')
        if p2 == 'dirichlet2':
            cat = beer.CategoricalSet.create(torch.ones(K, K) / K, prior_strength=1)
        else:
            cat = beer.SBCategoricalSet.create(K, model.categorical, prior_strength=K / 2)
        compare(ctx, w, big, library(cat, True), 'bigram phone loop')


def compare(ctx, w, model, want, what):
    'Two models with the same behaviour.'
    ctx.equal(type(model).__name__, type(want).__name__, f'{what}: type of the model')
    cats = [getattr(m, 'categorical', None) or getattr(m, 'categoricalset') for m in (model, want)]
    ctx.equal(type(cats[0]).__name__, type(cats[1]).__name__, f'{what}: type of the weights')
    ctx.equal((dict(model.start_pdf), dict(model.end_pdf)), (w.first, w.last), f'{what}: entry and exit densities')
    kl = lambda m: float(m.kl_div_posterior_prior().sum())
    ctx.allclose(kl(model), kl(want), f'{what}: divergence from the prior', 1e-4, 1e-4)
    for a, b in zip(mods.conj_params(model), mods.conj_params(want)):
        ctx.equal(type(a.prior).__name__, type(b.prior).__name__, f'{what}: type of a prior')
        for m in ('prior', 'posterior'):
            ctx.allclose(getattr(a, m).natural_parameters(), getattr(b, m).natural_parameters(),
                         f'{what}: {m}', 1e-4, 1e-4)
    ctx.equal(len(mods.conj_params(model)), len(mods.conj_params(want)), f'{what}: number of parameters')
    ga, gb = model.graph, want.graph
    ctx.equal(list(ga.pdf_id_mapping), list(gb.pdf_id_mapping), f'{what}: densities')
    for name in ('init_log_probs', 'final_log_probs', 'trans_log_probs'):
        ctx.allclose(getattr(ga, name).exp(), getattr(gb, name).exp(), f'{what}: {name}', 1e-4, 1e-5)
    n0 = w.names[0]
    for T in (w.npdf + 4, 2 * (w.last[n0] - w.first[n0] + 1)):
        x = torch.from_numpy(w.rng.normal(size=(T, w.spec['dim']))).float()
        ref = want.expected_log_likelihood(want.sufficient_statistics(x)).sum()
        if torch.isfinite(ref):               # topologies without self-loops do not accept all lengths
            ctx.label('likelihood compared')
            ctx.allclose(model.expected_log_likelihood(model.sufficient_statistics(x)).sum(), ref,
                         f'{what}: log-likelihood', 1e-4, 1e-3)


# Transcriptions: an utterance may be made of the units of the previous one.
KINDS = {'new': lambda new, old: new, 'same': lambda new, old: old, 'reversed': lambda new, old: old[::-1],
         'sorted': lambda new, old: sorted(old), 'twice': lambda new, old: old * 2, 'start': lambda new, old: old[:-1],
         'rotated': lambda new, old: old[1:] + old[:1], 'longer': lambda new, old: old + new[:1]}


def related(entries):
    out, old = [], [0, 1]
    for u, kind, new in entries:
        old = KINDS[kind](new, old)[:8]
        out.append([u, old])
    return out


TRANS = st.lists(st.tuples(st.sampled_from(['u1', 'u2', 'spk-utt', 'a.b', 'Z', '7']), st.sampled_from(['new'] * 6 + sorted(KINDS)),
                           st.lists(st.integers(0, 9), max_size=5)), min_size=1, max_size=5, unique_by=lambda t: t[0]).map(related)


@facet(st.fixed_dictionaries({'world': worlds(4, numbers=True), 'trans': TRANS,
                              'ws': st.sampled_from([' ', '  ', '\t'])}), quick=200, shards=4)
def alignments(spec, ctx):
    'Alignment graphs accept the spelled units, in order, and nothing else.'
    w = World(spec['world'], ctx)
    w.mkphones()
    out = w.path('ali')
    os.mkdir(out)
    seqs = {u: [w.names[i % len(w.names)] for i in s] for u, s in spec['trans']}
    text = ''.join(u + spec['ws'] + spec['ws'].join(s) + '\n' for u, s in seqs.items())
    cli.ok(ctx, 'hmm', 'mkaligraph', w.path('hmms'), out, stdin=text)
    ctx.equal(sorted(os.listdir(out)), sorted(u + '.npy' for u, s in seqs.items() if s), 'alignment graphs')
    for u, seq in seqs.items():
        if not seq:
            ctx.label('no transcription')
            continue
        ctx.nontrivial(len(seq) > 1)
        ctx.label('repeated unit', len(set(seq)) < len(seq))
        cg = np.load(os.path.join(out, u + '.npy'), allow_pickle=True)[0]
        label = {i: None for i in range(len(seq) + 2)}
        ref = c09.Ref(label, {(i, i + 1): 1. for i in range(len(seq) + 1)}, 0, len(seq) + 1)
        for i, n in enumerate(seq):
            ref.replace(i + 1, w.refs[n], f'{i}')
        ref.normalize()
        if self_loop_too_strong(ref):
            continue
        ctx.label('states visited in another order', any(w.chain[n] != sorted(w.chain[n]) for n in seq))
        want_ids = [p for n in seq for p in sorted(w.chain[n])]
        ctx.equal(list(cg.pdf_id_mapping), want_ids, f'densities of the graph of {u}')
        # Nodes position by position, densities in order within a unit.
        nodes = [(str(i), s) for i, n in enumerate(seq) for s in range(1, len(w.chain[n]) + 1)]
        c09.compare_compiled(ctx, cg, c09.expected(ref, nodes), want_ids, f'alignment graph of {u}')
