"""C24: decoding and posteriors commands."""
import os

import numpy as np
import torch
from hypothesis import strategies as st

from vf import cli, mods, zoo
from vf.core import facet
from props import c23

RULE = ('A case is a phone loop built by the commands (units of several groups, weights prior), a data set, alignments, '
        'lists with unknown utterances and options.  Non-trivial: several units and several utterances.')
ASSUMPTIONS = ['every state has a self-loop and utterances are long enough for the alignment',
               'reference: numpy Viterbi and forward-backward over the frame log-likelihoods of the emissions '
               '(judged by C05 and C08)', 'float32 models']

PRIORS = [None, 'dirichlet', 'dirichlet2', 'dirichlet_process', 'hierarchical_dirichlet_process']
UTT = st.fixed_dictionaries({'T': mods.sizes(0, 12, (65, 200), 20), 'trans': st.lists(st.integers(0, 9), min_size=1, max_size=3),
                             'ali': st.sampled_from([True, True, False])})
IDS = st.sampled_from(['utt{}', 'utt{}', 'utt.{}', '{}', 'B-{}_x.wav'])
CASE = st.fixed_dictionaries({
    'world': c23.worlds(4, loops=True, noise=(1., 3.)), 'prior': st.sampled_from(PRIORS),
    'utts': st.one_of(*[st.lists(UTT, min_size=2, max_size=4)] * 20, st.lists(UTT, min_size=9, max_size=14)), 'scale': st.sampled_from([None, 1., .3, 2., 0.]),
    'list': st.lists(st.one_of(st.integers(0, 3), st.sampled_from(['nope', 'utt'])), max_size=5),
    'how': st.sampled_from(['all', 'file', 'stdin']), 'ids': IDS})


class Setup:
    def __init__(self, spec, ctx):
        self.w = w = c23.World(spec['world'], ctx)
        w.mkphones()
        w.loop()
        w.decode()
        prior = spec['prior']
        if prior in ('dirichlet', 'dirichlet2') and len(w.names) < 2:
            prior = None
        self.model = w.phoneloop(prior, out='model')
        shortest = min(w.last[n] - w.first[n] + 1 for n in w.names)
        self.trans, utts = {}, {}
        name = spec.get('ids', 'utt{}').format
        for i, u in enumerate(spec['utts']):
            seq = []
            for k in u['trans']:
                n = w.names[k % len(w.names)]
                if not (seq and n == seq[-1] and w.first[n] == w.last[n]):   # not visible in a path
                    seq.append(n)
            need = sum(w.last[n] - w.first[n] + 1 for n in seq)
            uid = name(i)
            self.trans[uid] = seq
            T = max(need if u['ali'] else shortest, u['T'])
            utts[uid] = w.rng.normal(size=(T, spec['world']['dim'])) * 2
        self.utts = w.dataset(utts)
        self.ali = {name(i) for i, u in enumerate(spec['utts']) if u['ali']}
        # Utterances given to the commands.
        if spec['how'] == 'all':
            self.ids, self.opt, self.stdin = sorted(utts), [], ''
        else:
            names = [x if isinstance(x, str) else name(x) for x in spec['list']]
            text = ''.join(n + (' and more\n' if i % 2 else '\n') for i, n in enumerate(names))
            self.ids = [n for n in names if n in utts]
            if spec['how'] == 'stdin':
                self.opt, self.stdin = ['-u', '-'], text
            else:
                with open(w.path('list'), 'w') as f:
                    f.write(text)
                self.opt, self.stdin = ['-u', w.path('list')], ''
            ctx.label('unknown utterance', len(self.ids) < len(names))
        self.scale = 1. if spec['scale'] is None else spec['scale']
        if spec['scale'] is not None:
            self.opt += ['-s', self.scale]
        ctx.nontrivial(len(w.names) > 1 and len(utts) > 1)

    def llh(self, uid):
        x = torch.from_numpy(self.utts[uid]).float()
        m = self.model.modelset
        return m.expected_log_likelihood(m.sufficient_statistics(x)).detach().double().numpy() * self.scale

    def probs(self, graph):
        return [np.exp(v.double().numpy()) for v in
                (graph.init_log_probs, graph.final_log_probs, graph.trans_log_probs)]


def spell(path, first, per_frame):
    'Units of a path of densities (independent of the command).'
    entry = {p: n for n, p in first.items()}
    out, frames = [], []
    for t, p in enumerate(path):
        if t == 0 or (p != path[t - 1] and p in entry):
            out.append(entry[p])
        frames.append(out[-1])
    return frames if per_frame else out


@facet(st.fixed_dictionaries({'case': CASE, 'alis': st.sampled_from([True, True, False]), 'per_frame': st.booleans()}), quick=240, shards=4)
def decoding(spec, ctx):
    'Decoded units: those of a best path, of the listed utterances, within the alignment when there is one.'
    s = Setup(spec['case'], ctx)
    w = s.w
    opt = list(s.opt)
    graphs = {}
    if spec['alis']:
        ctx.label('alignments')
        os.mkdir(w.path('ali'))
        text = ''.join(f'{u} {" ".join(s.trans[u])}\n' for u in sorted(s.ali))
        cli.ok(ctx, 'hmm', 'mkaligraph', w.path('hmms'), w.path('ali'), stdin=text)
        cli.ok(ctx, 'features', 'archive', w.path('ali'), w.path('ali.npz'))
        opt += ['-a', w.path('ali.npz')]
        graphs = {u: np.load(w.path(f'ali/{u}.npy'), allow_pickle=True)[0] for u in s.ali}
    if spec['per_frame']:
        opt.append('--per-frame')
    res = cli.ok(ctx, 'hmm', 'decode', *opt, w.path('model'), w.path('data'), stdin=s.stdin)
    lines = [l.split(' ') for l in res.lines if l]
    ctx.equal([l[0] for l in lines], s.ids, 'decoded utterances')
    for uid, *units in lines:
        graph = graphs.get(uid, s.model.graph)
        llh = s.llh(uid)[:, list(graph.pdf_id_mapping)]
        T = len(llh)
        a, b, t = s.probs(graph)
        best = zoo.viterbi(a, b, t, llh)
        if spec['per_frame']:
            ctx.equal(len(units), T, f'frames of {uid}')
        ctx.ensure(set(units) <= set(w.names), f'unknown units {units}')
        if uid in graphs:
            ctx.label('aligned')
            got = units if not spec['per_frame'] else [u for i, u in enumerate(units) if i == 0 or u != units[i - 1]]
            want = s.trans[uid]
            if spec['per_frame']:
                want = [u for i, u in enumerate(want) if i == 0 or u != want[i - 1]]
            ctx.equal(got, want, f'units of the aligned utterance {uid}')
        # The printed units are those of a path with the best score.
        x = torch.from_numpy(s.utts[uid]).float()
        ids = s.model.decode(x, inference_graph=graphs.get(uid), scale=s.scale)
        path = [int(p) for p in ids]
        score = constrained(a, b, t, llh, graph, w, units, spec['per_frame'])
        ctx.ensure(score >= best - 1e-3 * (1 + abs(best)),
                   lambda: f'{uid}: the units {units} have the score {score}, the best path {best}')
        # Exactly those of the decoded path.
        ctx.equal(units, spell(path, w.first, spec['per_frame']), f'units of {uid}')


def constrained(a, b, t, llh, graph, w, units, per_frame):
    'Best score of the paths that read as these units (dynamic programming over the position).'
    ids = list(graph.pdf_id_mapping)
    entry = {w.first[n]: n for n in w.names}
    owner = {p: n for n in w.names for p in range(w.first[n], w.last[n] + 1)}
    T, K = llh.shape
    n = len(units)
    with np.errstate(divide='ignore'):
        la, lb, lt = np.log(a), np.log(b), np.log(t)
    if per_frame:
        # Frame by frame: the unit of the state is the printed one.
        ok = np.array([[owner[ids[k]] == units[f] for k in range(K)] for f in range(T)])
        v = np.where(ok[0], la + llh[0], -np.inf)
        for f in range(1, T):
            v = np.where(ok[f], llh[f] + np.max(v[:, None] + lt, axis=0), -np.inf)
        return float(np.max(v + lb))
    NEG = -np.inf
    v = np.full((n, K), NEG)
    for k in range(K):
        if owner[ids[k]] == units[0]:
            v[0, k] = la[k] + llh[0, k]
    for f in range(1, T):
        new = np.full((n, K), NEG)
        for k in range(K):
            for j in range(K):
                if np.isneginf(lt[j, k]):
                    continue
                jump = ids[k] != ids[j] and ids[k] in entry
                for i in range(n):
                    src = i - 1 if jump else i
                    if src < 0 or owner[ids[k]] != units[i]:
                        continue
                    c = v[src, j] + lt[j, k]
                    if c > new[i, k]:
                        new[i, k] = c
        v = new + llh[f][None]
    return float(np.max(v[n - 1] + lb))


@facet(st.fixed_dictionaries({'case': CASE, 'state': st.booleans(), 'log': st.booleans()}), quick=200, shards=4)
def posteriors(spec, ctx):
    'Posteriors of the states or units, per utterance.'
    s = Setup(spec['case'], ctx)
    w = s.w
    out = w.path('posts')
    os.mkdir(out)
    opt = s.opt + (['-S'] if spec['state'] else []) + (['-l'] if spec['log'] else [])
    cli.ok(ctx, 'hmm', 'posteriors', *opt, w.path('model'), w.path('data'), out, stdin=s.stdin)
    ctx.equal(sorted(os.listdir(out)), sorted({u + '.npy' for u in s.ids}), 'utterances with posteriors')
    graph = s.model.graph
    ids = list(graph.pdf_id_mapping)
    a, b, t = s.probs(graph)
    for uid in set(s.ids):
        got = np.load(os.path.join(out, uid + '.npy'))
        post, _, _ = zoo.forward_backward(a, b, t, s.llh(uid)[:, ids])
        if spec['state']:
            # In the order of the compiled states, which are those of the densities.
            want = np.zeros((len(post), w.npdf))
            np.add.at(want.T, ids, post.T)
        else:
            want = np.stack([sum(post[:, ids.index(p)] for p in range(w.first[n], w.last[n] + 1))
                             for n in s.model.start_pdf], axis=1)
        ctx.allclose(want.sum(1), np.ones(len(want)), 'reference', 1e-6, 1e-6)
        if spec['log']:
            ctx.allclose(np.exp(got) - 1e-5, want, f'posteriors (log) of {uid}', 2e-3, 2e-4)
        else:
            ctx.allclose(got, want, f'posteriors of {uid}', 2e-3, 2e-4)
            ctx.allclose(got.sum(1), np.ones(len(got)), 'sum of the posteriors', 1e-4, 1e-4)
