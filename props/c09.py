"""C09: graph operations and compilation."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf.core import facet, Skip

RULE = ('A case is a graph drawn as a list of emitting/silent states, weighted arcs (forward, backward and '
        'self-loops, without cycles of silent states) and an order of creation, or a sequence of replacements '
        'and normalisations.  Non-trivial: some silent state besides start and end, or a replacement.')
ASSUMPTIONS = ['reference: explicit enumeration of silent paths in float64',
               'start and end are silent, without incoming/outgoing arcs',
               'compiled probabilities are float32']

weights = st.one_of(st.sampled_from([1., 1., .5, .25]), st.floats(.05, 4).map(lambda v: round(v, 3)))


@st.composite
def graphs(draw, max_states=7, first_pdf=0, dup=False, min_states=1):
    '''{'emit': [...], 'arcs': [[i, j, w]], 'pdf': [...], 'order': permutation}; node 0 is the
    start, the last node is the end.'''
    n = draw(st.integers(min_states, max_states)) + 2
    often = [True, True, False]
    # Long chains of silent states, now and then.
    long = max_states > 4 and draw(st.integers(0, 19)) == 19
    if long:
        n, often = draw(st.integers(14, 26)), [False] * 12 + [True]
    emit = [False] + [draw(st.sampled_from(often)) for _ in range(n - 2)] + [False]
    if not any(emit):
        emit[1 + draw(st.integers(0, n - 3))] = True
    arcs = {}
    for i in range(n - 1):
        arcs[i, i + 1] = draw(weights)
    for _ in range(draw(st.integers(0, 4 if long else 2 * n))):
        i, j = draw(st.integers(0, n - 2)), draw(st.integers(1, n - 1))
        if j <= i and not (emit[i] or emit[j]):
            continue                        # may close a cycle of silent states
        arcs.setdefault((i, j), draw(weights))
    pdf, nxt = [], first_pdf
    for e in emit:
        if not e:
            pdf.append(None)
        elif dup and nxt > first_pdf and draw(st.booleans()):
            pdf.append(draw(st.integers(first_pdf, nxt - 1)))
        else:
            pdf.append(nxt)
            nxt += 1
    order = draw(st.permutations(range(n)))
    akeys = draw(st.permutations(sorted(arcs)))
    return {'emit': emit, 'arcs': [[i, j, arcs[i, j]] for i, j in akeys], 'pdf': pdf, 'order': list(order)}


def build(spec):
    'The library graph and the map node -> state id.'
    from beer.graph import Graph
    g = Graph()
    ids = {}
    for node in spec['order']:
        ids[node] = g.add_state(pdf_id=spec['pdf'][node])
    for i, j, w in spec['arcs']:
        g.add_arc(ids[i], ids[j], w)
    g.start_state, g.end_state = ids[0], ids[len(spec['emit']) - 1]
    return g, ids


class Ref:
    'Plain graph: labels {node: pdf or None}, arcs {(i, j): w}.'

    def __init__(self, label, arcs, start, end):
        self.label, self.arcs, self.start, self.end = label, arcs, start, end

    @classmethod
    def of_spec(cls, spec):
        return cls({i: p for i, p in enumerate(spec['pdf'])},
                   {(i, j): w for i, j, w in spec['arcs']}, 0, len(spec['emit']) - 1)

    @classmethod
    def of_lib(cls, g):
        return cls({s: g.state_from_id(s).pdf_id for s in g.states()},
                   {(a.start, a.end): a.weight for a in g.arcs()}, g.start_state, g.end_state)

    def normalize(self):
        tot = {}
        for (i, _), w in self.arcs.items():
            tot[i] = tot.get(i, 0.) + w
        self.arcs = {(i, j): w / tot[i] for (i, j), w in self.arcs.items()}

    def replace(self, node, sub, tag):
        new = lambda s: (tag, s)
        for s, l in sub.label.items():
            self.label[new(s)] = l
        arcs = {(new(i), new(j)): w for (i, j), w in sub.arcs.items()}
        for (i, j), w in self.arcs.items():
            arcs[new(sub.end) if i == node else i, new(sub.start) if j == node else j] = w
        self.arcs = arcs
        del self.label[node]

    def out(self, i):
        return [(j, w) for (a, j), w in self.arcs.items() if a == i]

    def reach(self, node, weight=1.):
        'All silent paths from node: list of (emitting node or end, weight).'
        res, todo = [], [(j, weight * w) for j, w in self.out(node)]
        while todo:
            j, w = todo.pop()
            if self.label[j] is not None or j == self.end:
                res.append((j, w))
            else:
                todo += [(k, w * v) for k, v in self.out(j)]
        return res

    def tables(self):
        'Summed weights: init {node}, final {node}, trans {(node, node)}.'
        init, final, trans = {}, {}, {}
        for j, w in self.reach(self.start):
            if j != self.end:
                init[j] = init.get(j, 0.) + w
        for i in self.label:
            if self.label[i] is None:
                continue
            for j, w in self.reach(i):
                if j == self.end:
                    final[i] = final.get(i, 0.) + w
                else:
                    trans[i, j] = trans.get((i, j), 0.) + w
        return init, final, trans


def expected(ref, nodes):
    'Compiled probabilities for the emitting nodes in this order.'
    init, final, trans = ref.tables()
    n = len(nodes)
    a = np.array([init.get(i, 0.) for i in nodes])
    b = np.array([final.get(i, 0.) for i in nodes])
    t = np.array([[trans.get((i, j), 0.) for j in nodes] for i in nodes]).reshape(n, n)
    for i in range(n):
        off = t[i].sum() - t[i, i]
        if t[i, i] > 0 and off > 0:
            d = t[i, i]
            t[i] *= (1 - d) / off
            t[i, i] = d
    return a / a.sum(), b / b.sum(), t


def compare_compiled(ctx, cg, want, mapping, what):
    got_map = list(cg.pdf_id_mapping)
    ctx.equal(got_map, mapping, f'{what}: densities of the compiled states')
    ctx.equal(cg.n_states, len(mapping), f'{what}: number of states')
    for g, w, n in zip((cg.init_log_probs, cg.final_log_probs, cg.trans_log_probs), want,
                       ('initial', 'final', 'transition')):
        ctx.allclose(g.double().exp(), w, f'{what}: {n} probabilities', rtol=1e-5, atol=1e-7)
        ctx.equal((np.isinf(g.double().numpy())).tolist(), (w == 0).tolist(),
                  f'{what}: impossible {n} events')


@facet(st.fixed_dictionaries({'graph': graphs(dup=True), 'norm': st.sampled_from([True, True, False])}), quick=2500)
def compilation(spec, ctx):
    'Compiled probabilities are the summed weights of the paths through silent states.'
    sp = spec['graph']
    g, ids = build(sp)
    ref = Ref.of_spec(sp)
    if spec['norm']:
        g.normalize()
        ref.normalize()
    else:
        # Self-loops of weight 1 or more cannot be turned into probabilities.
        _, _, tr = ref.tables()
        if any(w > .95 for (i, j), w in tr.items() if i == j):
            ref.normalize()
            g.normalize()
    silent = sum(1 for e in sp['emit'][1:-1] if not e)
    ctx.label('silent states', silent)
    ctx.label('several silent states', silent > 1)
    ctx.label('self-loops', any(i == j for i, j, _ in sp['arcs']))
    ctx.nontrivial(silent > 0)
    nodes = [n for n in sp['order'] if sp['emit'][n]]
    _, final, tr = ref.tables()
    ctx.label('parallel paths', len(sp['arcs']) > len(sp['emit']))
    before = Ref.of_lib(g)
    compare_compiled(ctx, g.compile(), expected(ref, nodes), [sp['pdf'][n] for n in nodes], 'compiled graph')
    after = Ref.of_lib(g)
    ctx.ensure(before.arcs == after.arcs and before.label == after.label, 'compiling changes the graph')
    compare_compiled(ctx, g.compile(), expected(ref, nodes), [sp['pdf'][n] for n in nodes], 'compiled again')


@facet(graphs(dup=True), quick=1500)
def normalisation(spec, ctx):
    'Outgoing arcs sum to one, ratios and topology are kept, twice is once.'
    g, ids = build(spec)
    ref = Ref.of_spec(spec)
    ctx.nontrivial(len(spec['arcs']) > len(spec['emit']))
    before = {(i, j): w for i, j, w in spec['arcs']}
    for _ in range(2):
        g.normalize()
        got = {(a.start, a.end): a.weight for a in g.arcs()}
        ctx.equal(sorted(got), sorted((ids[i], ids[j]) for i, j in before), 'arcs of the normalised graph')
        for i in ref.label:
            out = {j: w for (a, j), w in before.items() if a == i}
            tot = sum(out.values())
            for j, w in out.items():
                ctx.allclose(got[ids[i], ids[j]], w / tot, f'weight of the arc {i}->{j}', rtol=1e-9)
        for s in g.states():
            outs = [a.weight for a in g.arcs(s)]
            if outs:
                ctx.allclose(sum(outs), 1., 'sum of the outgoing weights', rtol=1e-9)


@facet(graphs(dup=True), quick=600)
def access(spec, ctx):
    'States and arcs are listed as they were added.'
    g, ids = build(spec)
    ctx.nontrivial(len(ids) > 4)
    ctx.equal(list(g.states()), [ids[n] for n in spec['order']], 'states')
    ctx.equal(len(set(ids.values())), len(ids), 'identifiers are distinct')
    for n, i in ids.items():
        ctx.equal(g.state_from_id(i).pdf_id, spec['pdf'][n], 'density of a state')
        for inc in (False, True):
            got = sorted((a.start, a.end, a.weight) for a in g.arcs(i, incoming=inc))
            want = sorted((ids[a], ids[b], w) for a, b, w in spec['arcs'] if (b if inc else a) == n)
            ctx.equal(got, want, 'incoming arcs' if inc else 'outgoing arcs')
    ctx.equal(sorted((a.start, a.end, a.weight) for a in g.arcs()),
              sorted((ids[a], ids[b], w) for a, b, w in spec['arcs']), 'arcs')


op = st.one_of(st.just('normalize'), st.integers(0, 6))


@st.composite
def replacements(draw):
    main = draw(graphs(max_states=4))
    subs = [draw(graphs(max_states=3, first_pdf=100 * (i + 1))) for i in range(draw(st.integers(1, 3)))]
    return {'main': main, 'subs': subs,
            'ops': draw(st.lists(op, min_size=1, max_size=5)), 'reuse': draw(st.booleans())}


def has_silent_path(sub):
    return any(j == sub.end for j, _ in sub.reach(sub.start))


@facet(replacements(), quick=1500)
def replacement(spec, ctx):
    'Replacing states by graphs keeps all paths and their weights.'
    main, ids = build(spec['main'])
    ref = Ref.of_spec(spec['main'])
    idmap = dict(ids)
    n = len(spec['main']['emit'])
    free = [i for i in range(1, n - 1)]
    done = 0
    for step, o in enumerate(spec['ops']):
        if o == 'normalize':
            main.normalize()
            ref.normalize()
            continue
        if not free:
            break
        node = free[o % len(free)]
        k = 0 if spec['reuse'] else done % len(spec['subs'])
        sub_spec = spec['subs'][k]
        sub, _ = build(sub_spec)
        rsub = Ref.of_spec(sub_spec)
        # A path of silent states through the new graph may close a silent cycle.
        if has_silent_path(rsub):
            ctx.label('sub-graph with silent path')
            probe = copy.deepcopy(ref)
            probe.replace(node, rsub, 'probe')
            if silent_cycle(probe):
                continue
        free.remove(node)
        ctx.label('self-loop on the replaced state', (node, node) in ref.arcs)
        ref.replace(node, rsub, f's{step}')
        before = Ref.of_lib(sub)
        old = set(main.states())
        main.replace_state(ids[node], sub)
        after = Ref.of_lib(sub)
        ctx.ensure(before.label == after.label and before.arcs == after.arcs, 'the inserted graph is modified')
        ctx.ensure(ids[node] not in set(main.states()), 'the replaced state is still there')
        ctx.ensure(all(a.start != ids[node] and a.end != ids[node] for a in main.arcs()),
                   'arcs of the replaced state are still there')
        ctx.ensure(old - {ids[node]} <= set(main.states()), 'other states are lost')
        done += 1
    ctx.nontrivial(done > 0)
    ctx.label('several replacements', done > 1)
    got, want = Ref.of_lib(main), ref
    ctx.equal(sorted(map(str, got.label.values())), sorted(map(str, want.label.values())), 'densities of the states')
    # Weights are summed per pair of densities (a density may be used several times).
    key = lambda r: [fold(t, r.label) for t in r.tables()]
    for g, w, name in zip(key(got), key(want), ('initial', 'final', 'transition')):
        ctx.equal(sorted(g), sorted(w), f'possible {name} events')
        for k in w:
            ctx.allclose(g[k], w[k], f'{name} weight {k}', rtol=1e-9)
    # The compiled graph agrees with its own (library) structure.
    g = Ref.of_lib(main)
    _, _, tr = g.tables()
    if any(w > .95 for (i, j), w in tr.items() if i == j) or not g.tables()[0] or not g.tables()[1]:
        return
    nodes = [s for s in main.states() if g.label[s] is not None]
    compare_compiled(ctx, main.compile(), expected(g, nodes), [g.label[s] for s in nodes], 'compiled graph')


def silent_cycle(ref):
    sil = [i for i in ref.label if ref.label[i] is None]
    idx = {s: k for k, s in enumerate(sil)}
    m = np.zeros((len(sil), len(sil)), dtype=int)
    for (i, j) in ref.arcs:
        if i in idx and j in idx:
            m[idx[i], idx[j]] = 1
    p = np.eye(len(sil), dtype=int)
    for _ in range(len(sil) + 1):
        p = ((p @ m) > 0).astype(int)
    return bool(p.any())


def fold(table, label):
    out = {}
    for k, w in table.items():
        kk = (label[k[0]], label[k[1]]) if isinstance(k, tuple) and len(k) == 2 and k[0] in label and k[1] in label \
            else (label[k],)
        out[kk] = out.get(kk, 0.) + w
    return out
