"""C35: alignment, unit and feature tools of the TIMIT recipe."""
import math
import os
import pickle
from fractions import Fraction

import numpy as np
import torch
import yaml
from hypothesis import strategies as st
from scipy.io import wavfile

from vf import cli, mods, texts, zoo
from vf.core import REPO, facet
from props import c22, c27

RULE = ('A case is a set of utterances (transcriptions, frame alignments, speakers or features) with a table of units, a '
        'configuration or a graph, given to one or several of the tools.  Non-trivial: several utterances, or a set of '
        'several units.')
ASSUMPTIONS = ['visits of units go through their states in order, starting with the first one and ending with the last one; '
               'a unit of a single state is not visited twice in a row',
               'groups of symbols for the confusion matrix are disjoint', 'audio of one channel with at least one frame']

V2 = os.path.join(REPO, 'recipes', 'timit_v2')
SEED = st.integers(0, 2**31 - 1)
UTTS = texts.utts(st.one_of(texts.tokens(), texts.runs(), texts.tokens(1, 25)), 1, 5)


def call(name, *argv, stdin=''):
    return cli.run_script(os.path.join(V2, 'utils', name), argv, stdin)


def tool(ctx, name, *argv, stdin=''):
    res = call(name, *argv, stdin=stdin)
    ctx.ensure(res.code == 0, lambda: f'{name}: exit status {res.code}: {res.err[-300:]}')
    return res


def put(ctx, name, lines):
    path = texts.tmp(ctx, name)
    with open(path, 'w') as f:
        f.writelines(l + '\n' for l in lines)
    return path


def npz(ctx, name, table):
    path = texts.tmp(ctx, name)
    np.savez(path, **table)
    return path


# ---------------------------------------------------------------- scoring

def edited(toks):
    return st.one_of(st.just(list(toks)), texts.tokens(0, 10), st.lists(st.tuples(st.sampled_from('kkkkksdi'), texts.token),
                     min_size=len(toks), max_size=len(toks)).map(lambda ops: [
                         x for t, (o, n) in zip(toks, ops) for x in {'k': [t], 's': [n], 'd': [], 'i': [t, n]}[o]]))


@facet(st.fixed_dictionaries({
    'utts': texts.utts(texts.tokens(0, 10).flatmap(lambda r: st.tuples(st.just(r), edited(r))), 1, 5),
    'remove': st.one_of(st.none(), st.lists(texts.token, min_size=1, max_size=3)), 'duplicate': st.sampled_from([None, 'yes', 'no']),
    'map': st.one_of(st.none(), st.lists(texts.token, min_size=len(texts.TOKENS), max_size=len(texts.TOKENS))),
    'shift': st.integers(0, 4), 'other': st.booleans(), 'fmt': texts.spacing}), quick=500, thorough=10000, shards=2)
def score(spec, ctx):
    'The phone error rate is the minimal number of edits over the number of reference phones.'
    utts, rem = spec['utts'], [r for r in spec['remove'] or [] if not r.startswith('-')]
    table = dict(zip(texts.TOKENS, spec['map'])) if spec['map'] else None

    def clean(toks):
        toks = [t for t in toks if t not in rem and (not table or table[t] not in rem)]
        toks = [table[t] for t in toks] if table else toks
        return texts.collapse(toks) if spec['duplicate'] == 'no' else toks

    ref = [[u, r] for u, (r, h) in utts]
    hyp = [[u, h] for u, (r, h) in utts]
    hyp = hyp[spec['shift'] % len(hyp):] + hyp[:spec['shift'] % len(hyp)]
    total = sum(len(clean(r)) for _, r in ref)
    if not total:
        return
    opts = (['--remove', ' '.join(rem)] if rem else []) + (['--duplicate', spec['duplicate']] if spec['duplicate'] else [])
    if table:
        opts += ['--phone_map', put(ctx, 'map', [f'{k} {v}' for k, v in table.items()])]
    args = opts + [texts.write(texts.tmp(ctx, 'ref'), ref, spec['fmt']), texts.write(texts.tmp(ctx, 'hyp'), hyp, spec['fmt'])]
    ctx.label('removed tokens', bool(rem))
    ctx.label('mapping', bool(table))
    ctx.label('merged', spec['duplicate'] == 'no')
    ctx.nontrivial(len(utts) > 1)
    errors = sum(texts.edit_distance(clean(r), clean(h)) for _, (r, h) in utts)
    res = tool(ctx, 'score.py', *args)
    ctx.ensure(abs(float(res.out) - 100 * errors / total) < .00501, lambda: f'{res.out!r} for {errors} errors and {total} phones')
    if spec['other']:
        texts.write(texts.tmp(ctx, 'hyp'), hyp[:-1] + [['other', hyp[-1][1]]])
        ctx.ensure(call('score.py', *args).code != 0, 'different utterances are not refused')


# ---------------------------------------------------------------- units and alignments

UNITS = ['sil', 'a', 'aa', 'b', 'é', '1', 'a:b', 'no']


@st.composite
def alignments(draw, same_states=False):
    'Units with their states, utterances as visits [unit, frames of each state].'
    names = draw(st.lists(st.sampled_from(UNITS), min_size=1, max_size=5, unique=True))
    n = draw(st.integers(1, 3))
    states = [n if same_states else draw(st.integers(1, 3)) for _ in names]
    utts = []
    for u in draw(st.lists(st.sampled_from(texts.UTTIDS), min_size=1, max_size=4, unique=True)):
        visits = []
        for _ in range(draw(st.integers(1, 5))):
            k = draw(st.integers(0, len(names) - 1))
            if visits and visits[-1][0] == k and states[k] == 1:
                continue
            visits.append([k, [draw(st.sampled_from([1, 1, 2, 3, 6])) for _ in range(states[k])]])
        utts.append([u, visits])
    return {'names': names, 'states': states, 'utts': utts}


def first_states(spec):
    return [sum(spec['states'][:k]) for k in range(len(spec['states']))]


def path(spec, visits):
    first = first_states(spec)
    return [first[k] + s for k, durs in visits for s, d in enumerate(durs) for _ in range(d)]


def pdf_lines(spec):
    return [f'{p} {n}' for n, p0, s in zip(spec['names'], first_states(spec), spec['states']) for p in range(p0, p0 + s)]


def labels(spec, visits):
    return [spec['names'][k] for k, durs in visits for _ in range(sum(durs))]


def several(spec, ctx):
    ctx.nontrivial(len(spec['utts']) > 1 and len(spec['names']) > 1)
    ctx.label('unit visited twice in a row', any(a[0] == b[0] for _, v in spec['utts'] for a, b in zip(v, v[1:])))
    ctx.label('unit of a single state', 1 in spec['states'])


@facet(alignments(), quick=500, thorough=10000, shards=2)
def pdf2unit(spec, ctx):
    'State alignments to units: one symbol per frame, or one per visit.'
    several(spec, ctx)
    table = put(ctx, 'pdfs', pdf_lines(spec))
    text = texts.text([[u, map(str, path(spec, v))] for u, v in spec['utts']])
    res = tool(ctx, 'pdf2unit.py', table, stdin=text)
    ctx.equal(texts.parse(res.out), [[u, labels(spec, v)] for u, v in spec['utts']], 'frames')
    res = tool(ctx, 'pdf2unit.py', '--phone-level', table, stdin=text)
    ctx.equal(texts.parse(res.out), [[u, [spec['names'][k] for k, _ in v]] for u, v in spec['utts']], 'units')


@facet(alignments(True), quick=400, thorough=10000, shards=2)
def states2phones(spec, ctx):
    'State sequences to phones: one symbol per visit.'
    several(spec, ctx)
    n = spec['states'][0]
    with open(texts.tmp(ctx, 'conf'), 'w') as f:
        yaml.dump({'n_state_per_unit': n}, f)
    phones = put(ctx, 'phones', [f'{name} {i}' for i, name in enumerate(spec['names'])])
    hyp = texts.write(texts.tmp(ctx, 'hyp'), [[u, map(str, path(spec, v))] for u, v in spec['utts']])
    tool(ctx, 'convert_states_to_phone.py', hyp, texts.tmp(ctx, 'out'), phones, texts.tmp(ctx, 'conf'))
    with open(texts.tmp(ctx, 'out')) as f:
        ctx.equal(texts.parse(f.read()), [[u, [spec['names'][k] for k, _ in v]] for u, v in spec['utts']], 'phones')
    # The other way round, phones to states.
    ids = npz(ctx, 'ids.npz', {u: np.array([k for k, _ in v]) for u, v in spec['utts']})
    tool(ctx, 'prepare_state_labels.py', phones, ids, texts.tmp(ctx, 'conf'), ctx.tmpdir())
    with np.load(texts.tmp(ctx, 'states.int.npz')) as got:
        ctx.equal({k: got[k].tolist() for k in got.files},
                  {u: [k * n + s for k, _ in v for s in range(n)] for u, v in spec['utts']}, 'states of the phones')


@facet(alignments(), quick=400, thorough=8000, shards=2)
def best_path(spec, ctx):
    'State alignments to the sequence of unit identifiers, runs of one unit merged.'
    several(spec, ctx)
    ids = {n: 3 * i + 1 for i, n in enumerate(spec['names'])}
    ali = npz(ctx, 'ali.npz', {u: np.array(path(spec, v)) for u, v in spec['utts']})
    os.mkdir(texts.tmp(ctx, 'out'))
    tool(ctx, 'convert-ali-to-best-path.py', ali, put(ctx, 'pdfs', pdf_lines(spec)),
         put(ctx, 'units', [f'{n} {i}' for n, i in ids.items()]), texts.tmp(ctx, 'out'))
    ctx.equal({f: np.load(os.path.join(texts.tmp(ctx, 'out'), f)).tolist() for f in os.listdir(texts.tmp(ctx, 'out'))},
              {u + '.npy': [ids[n] for n in texts.collapse(labels(spec, v))] for u, v in spec['utts']}, 'units')


@facet(st.fixed_dictionaries({'utts': UTTS, 'fmt': texts.spacing, 'start': st.integers(0, 3),
                              'speakers': st.lists(st.integers(0, 3), min_size=5, max_size=5)}), quick=300, thorough=6000, shards=2)
def integers(spec, ctx):
    'Transcriptions and speakers as integers: one array per utterance, following the printed table.'
    utts = spec['utts']
    ctx.nontrivial(len(utts) > 1)
    ids = {t: i * 2 + spec['start'] for i, t in enumerate(texts.TOKENS)}
    out = texts.tmp(ctx, 'out.npz')
    tool(ctx, 'prepare_trans.py', put(ctx, 'phones', [f'{t} {i}' for t, i in ids.items()]), out, stdin=texts.text(utts, spec['fmt']))
    with np.load(out) as got:
        ctx.equal({k: got[k].tolist() for k in got.files}, {u: [ids[t] for t in toks] for u, toks in utts}, 'identifiers')
    spk = {u: f'spk{i}' for (u, _), i in zip(utts, spec['speakers'])}
    res = tool(ctx, 'prepare-spk-labels.py', put(ctx, 'utt2spk', [f'{u} {s}' for u, s in spk.items()]), out)
    table = {l.split()[0]: int(l.split()[1]) for l in res.lines}
    ctx.equal(sorted(table), sorted(set(spk.values())), 'speakers')
    ctx.equal(sorted(table.values()), list(range(len(table))), 'numbers of the speakers')
    with np.load(out) as got:
        ctx.equal({k: got[k].tolist() for k in got.files}, {u: [table[s]] for u, s in spk.items()}, 'labels of the utterances')


# ---------------------------------------------------------------- confusion matrix

def bits(counts):
    tot = sum(counts)
    return -sum(c / tot * math.log2(c / tot) for c in counts if c)


@facet(st.fixed_dictionaries({
    'ref': alignments(), 'hyp': alignments(), 'noise': st.integers(0, 10), 'seed': SEED,
    'missing': st.lists(st.booleans(), min_size=4, max_size=4), 'extra': st.booleans(),
    'groups': st.sampled_from([None, None, 1, 2, 3]), 'all': st.booleans()}), quick=500, thorough=10000, shards=2)
def confusion(spec, ctx):
    'Joint counts of two alignments over their common utterances, and the information they carry.'
    rng = np.random.default_rng(spec['seed'])
    R, H = spec['ref'], spec['hyp']
    ref = {u: path(R, v) for u, v in R['utts']}
    hyp = {}
    for u, p in ref.items():
        m = rng.integers(0, sum(H['states']), size=sum(R['states']))
        h = m[p]
        noisy = rng.random(len(p)) < spec['noise'] / 10
        hyp[u] = np.where(noisy, rng.integers(0, sum(H['states']), size=len(p)), h).tolist()
    missing = [u for u, m in zip(ref, spec['missing']) if m][:len(ref) - 1]
    for u in missing:
        del hyp[u]
    if spec['extra']:
        hyp['only here'] = [0, 0]
    rsym = [n for n, s in zip(R['names'], R['states']) for _ in range(s)]
    hsym = [n for n, s in zip(H['names'], H['states']) for _ in range(s)]
    joint, rc, hc = {}, {}, {}
    for u in ref:
        if u in hyp:
            for a, b in zip(ref[u], hyp[u]):
                a, b = rsym[a], hsym[b]
                joint[a, b] = joint.get((a, b), 0) + 1
                rc[a], hc[b] = rc.get(a, 0) + 1, hc.get(b, 0) + 1
    opts, whole = [], True
    if spec['groups']:
        names = [n for n in R['names'] if ':' not in n]
        whole = len(names) == len(R['names'])
        which = {n: f'group{i % spec["groups"]}' for i, n in enumerate(names)}
        if not spec['all'] and len(which) > 1:
            whole = False
            del which[names[0]]
        opts = ['--groups', put(ctx, 'groups', [f'{g}: ' + ' '.join(n for n in which if which[n] == g)
                                                for g in sorted(set(which.values()))])]
        if not which:
            return
        new, nr = {}, {}
        for (a, b), c in joint.items():
            if a in which:
                new[which[a], b] = new.get((which[a], b), 0) + c
                nr[which[a]] = nr.get(which[a], 0) + c
        joint, rc = new, nr
    ctx.label('groups', bool(spec['groups']))
    ctx.label('missing hypothesis', bool(missing))
    ctx.nontrivial(len(ref) > 1 and len(rc) > 1)
    tool(ctx, 'compare-alignments.py', *opts, npz(ctx, 'ref.npz', ref), put(ctx, 'rpdf', pdf_lines(R)),
         npz(ctx, 'hyp.npz', hyp), put(ctx, 'hpdf', pdf_lines(H)), texts.tmp(ctx, 'out'))
    with open(texts.tmp(ctx, 'out'), 'rb') as f:
        gj, gr, gh = pickle.load(f)
    tiny = 1e-6
    ctx.equal({(a, b): round(c) for a in gj for b, c in gj[a].items() if c > tiny}, joint, 'joint counts')
    ctx.equal({a: round(c) for a, c in gr.items() if c > tiny}, rc, 'reference counts')
    ctx.equal({b: round(c) for b, c in gh.items() if c > tiny}, hc, 'hypothesis counts')
    ctx.ensure(all(abs(c - round(c)) < tiny for d in (gr, gh, *gj.values()) for c in d.values()), 'counts are not whole')
    if not whole or not joint:
        return
    res = tool(ctx, 'mutual-information.py', texts.tmp(ctx, 'out'))
    hx, hy = bits(hc.values()), bits(rc.values())
    mi = hx + hy - bits(joint.values())
    got = [float(l.split('=')[1].split()[0]) for l in res.lines if 'MI' in l]
    ctx.ensure(abs(got[0] - mi) < .00502, lambda: f'mutual information {got[0]} instead of {mi}')
    if hy > 1e-3:
        ctx.ensure(abs(got[1] - 100 * mi / hy) < .00502 + 1e-6 / hy, lambda: f'normalised information {got[1]} instead of {100 * mi / hy}')


# ---------------------------------------------------------------- features

@facet(st.fixed_dictionaries({'ali': alignments(), 'seed': SEED, 'dim': st.integers(1, 3), 'context': st.sampled_from([None, 0, 1, 2, 5]),
                               'type': st.sampled_from([None, 'float32', 'float16', 'int16']), 'shift': st.sampled_from([0, 1000.])}),
       quick=400, thorough=8000, shards=2)
def frames(spec, ctx):
    'Central frames belong to the middle of their token; stacked features hold the neighbours of each frame; statistics.'
    ali = spec['ali']
    several(ali, ctx)
    rng = np.random.default_rng(spec['seed'])
    fea, n = {}, 0
    for u, v in ali['utts']:
        N = len(labels(ali, v))
        fea[u] = np.concatenate([np.arange(n, n + N)[:, None], rng.normal(size=(N, spec['dim'] - 1)) * 10], axis=1)
        n += N
    fp = npz(ctx, 'fea.npz', fea)
    order = [u for u, _ in reversed(ali['utts'])]
    ids = {name: i for i, name in enumerate(ali['names'])}
    tool(ctx, 'features-extract-central-frame.py', put(ctx, 'phones', [f'{k} {v}' for k, v in ids.items()]),
         npz(ctx, 'ali.npz', {u: path(ali, v) for u, v in ali['utts']}), put(ctx, 'pdfs', pdf_lines(ali)), fp, texts.tmp(ctx, 'cf.npz'),
         stdin=''.join(u + '\n' for u in order))
    with np.load(texts.tmp(ctx, 'cf.npz')) as got:
        gf, gl = got['features'], got['labels'].tolist()
    want = []
    for u in order:
        labs = labels(ali, dict(ali['utts'])[u])
        start = 0
        for i in range(1, len(labs) + 1):
            if i == len(labs) or labs[i] != labs[start]:
                want.append((u, labs[start], start, i - 1))
                start = i
    ctx.equal(gl, [ids[w[1]] for w in want], 'labels')
    ctx.equal(len(gf), len(want), 'number of central frames')
    for row, (u, lab, first, last) in zip(gf, want):
        t = int(row[0] - fea[u][0, 0])
        ctx.ensure(first <= t <= last, lambda: f'{u}: frame {t} for the token {lab} of the frames {first} to {last}')
        ctx.ensure(abs(t - (first + last) / 2) <= 1, lambda: f'{u}: frame {t} is not the centre of {first} to {last}')
        ctx.allclose(row, fea[u][t], 'central frame', 0, 0)
    # Stacking.
    os.mkdir(texts.tmp(ctx, 'stack'))
    c = 1 if spec['context'] is None else spec['context']
    tool(ctx, 'features-stack-parallel.py', fp, texts.tmp(ctx, 'stack'), *([] if spec['context'] is None else ['--context', c]),
         stdin=''.join(u + '\n' for u in order))
    ctx.equal(sorted(os.listdir(texts.tmp(ctx, 'stack'))), sorted(u + '.npy' for u in fea), 'stacked utterances')
    for u, x in fea.items():
        got = np.load(os.path.join(texts.tmp(ctx, 'stack'), u + '.npy'))
        ctx.equal(got.shape, (len(x), (2 * c + 1) * x.shape[1]), 'shape of the stacked features')
        for k in range(-c, c + 1):
            want = x[np.clip(np.arange(len(x)) + k, 0, len(x) - 1)]
            ctx.allclose(got[:, (k + c) * x.shape[1]:(k + c + 1) * x.shape[1]], want, f'neighbours at {k}', 0, 0)
    # Statistics.
    tool(ctx, 'features-stats.py', fp, texts.tmp(ctx, 'stats.npz'))
    if spec['type']:
        # Features of a smaller type, around another value.
        fea = {u: (v + spec['shift']).astype(spec['type']) for u, v in fea.items()}
        fp = npz(ctx, 'typed.npz', fea)
        tool(ctx, 'features-stats.py', fp, texts.tmp(ctx, 'stats.npz'))
        ctx.label(f'{spec["type"]} features')
    allf = np.concatenate(list(fea.values())).astype(np.float64)
    with np.load(texts.tmp(ctx, 'stats.npz')) as got:
        ctx.equal(int(got['nframes']), len(allf), 'number of frames')
        ctx.allclose(got['mean'], allf.mean(axis=0), 'mean', 1e-9, 1e-9 * np.abs(allf).max())
        ctx.allclose(got['var'], allf.var(axis=0), 'variance', 1e-9, 1e-9 * np.square(allf).max())


@facet(st.fixed_dictionaries({
    'seed': SEED, 'conf': c22.CONF, 'utts': st.lists(c22.UTT, min_size=1, max_size=3, unique_by=lambda u: u['id'])}), quick=120, shards=4)
def extraction(spec, ctx):
    'Features of the audio files of a list.'
    conf = c22.fix_conf({'utt_mnorm': True, **spec['conf']})
    conf.pop('add_energy', None)
    full = dict(c22.DEFAULTS, **conf, add_energy=False)
    rng = np.random.default_rng(spec['seed'])
    step, flen = int(full['srate'] * full['framerate']), int(full['srate'] * full['window_len'])
    lines, want = [], {}
    os.mkdir(texts.tmp(ctx, 'fea'))
    for i, u in enumerate(spec['utts']):
        sig = (rng.normal(size=flen + step * (u['nfr'] - 1) + int(u['extra'] * step)) * 3000).astype('int16')
        wav = texts.tmp(ctx, f'audio{i}.wav')
        wavfile.write(wav, full['srate'], sig)
        lines.append(f"{u['id']} {'cat ' + wav + ' |' if u['how'] == 'pipe' else wav}")
        want[u['id']] = c22.ref_features(sig, full)
    ctx.nontrivial(len(lines) > 1)
    with open(texts.tmp(ctx, 'conf'), 'w') as f:
        yaml.dump(conf, f)
    tool(ctx, 'features-extract-parallel.py', texts.tmp(ctx, 'conf'), texts.tmp(ctx, 'fea'), stdin=''.join(l + '\n' for l in lines))
    ctx.equal(sorted(os.listdir(texts.tmp(ctx, 'fea'))), sorted(k + '.npy' for k in want), 'files')
    for k in want:
        got = np.load(os.path.join(texts.tmp(ctx, 'fea'), k + '.npy'))
        ctx.allclose(got, want[k], f'features of {k}', 1e-6, 1e-6 * (1 + np.abs(want[k]).max()))


# ---------------------------------------------------------------- graphs and models

def arcs_of(g):
    return {(g.symbols[a.start], g.symbols[a.end]): a.weight for a in g.arcs()}


@facet(st.fixed_dictionaries({
    'phones': st.lists(st.sampled_from(UNITS), min_size=1, max_size=6, unique=True), 'sil': st.booleans(),
    'arcs': st.lists(st.tuples(st.integers(0, 6), st.integers(0, 6), st.sampled_from([None, 1., .5, 3., .001])), min_size=1, max_size=14)}),
    quick=300, thorough=6000, shards=2)
def text_graph(spec, ctx):
    'Text graphs: exactly the given arcs, normalised; the phone loop in text form goes through every phone.'
    phones, sil = spec['phones'], spec['sil'] and len(spec['phones']) > 1
    ctx.nontrivial(len(phones) > 1)

    def load(lines):
        tool(ctx, 'prepare-decode-graph.py', put(ctx, 'txt', lines), texts.tmp(ctx, 'graph'))
        with open(texts.tmp(ctx, 'graph'), 'rb') as f:
            g = pickle.load(f)
        ctx.equal((g.symbols[g.start_state], g.symbols[g.end_state]), ('[s]', '[/s]'), 'start and end')
        return g

    names = (['[s]', '[/s]'] + phones)[:7]
    arcs = {(names[i % len(names)], names[j % len(names)]): w for i, j, w in spec['arcs']}
    arcs.setdefault(('[s]', phones[0]), 1.)
    arcs.setdefault((phones[0], '[/s]'), None)
    g = load([f'{a} {b}' + (f' {w}' if w is not None else '') for (a, b), w in arcs.items()])
    got = arcs_of(g)
    ctx.equal(sorted(got), sorted(arcs), 'arcs')
    ctx.equal(sorted(g.symbols.values()), sorted({s for a in arcs for s in a}), 'states')
    for (a, b), w in arcs.items():
        tot = sum(1. if x is None else x for (c, _), x in arcs.items() if c == a)
        ctx.allclose(got[a, b], (1. if w is None else w) / tot, f'weight of {a} -> {b}', 1e-9)
    res = tool(ctx, 'create-decode-graph.py', *(['--use-silence'] if sil else []), put(ctx, 'phones', phones))
    got = arcs_of(load(res.lines))
    inner = phones[1:] if sil else phones
    joint = next(b for (a, b) in got if a == (phones[0] if sil else '[s]') and b not in phones + ['[/s]'])
    want = {('[s]', phones[0] if sil else joint): 1.}
    if sil:
        want.update({(phones[0], '[/s]'): .5, (phones[0], joint): .5, (joint, phones[0]): 1 / len(phones)})
        want.update({(joint, p): 1 / len(phones) for p in inner})
    else:
        want.update({(joint, p): 1 / (len(phones) + 1) for p in inner})
        want[joint, '[/s]'] = 1 / (len(phones) + 1)
    want.update({(p, joint): 1. for p in inner})
    ctx.equal(sorted(got), sorted(want), 'arcs of the phone loop')
    for k, w in want.items():
        ctx.allclose(got[k], w, f'weight of {k}', 1e-9)


@facet(st.fixed_dictionaries({
    'groups': st.lists(st.fixed_dictionaries({'units': st.integers(1, 3), 'states': st.integers(1, 3), 'ncomp': st.integers(1, 2),
                                              'shared': st.booleans()}), min_size=1, max_size=2),
    'cov': st.sampled_from(['isotropic', 'diagonal', 'full']),
    'utts': st.lists(st.lists(st.integers(0, 5), min_size=1, max_size=3), min_size=1, max_size=3), 'stats': st.booleans(),
    'dim': st.integers(1, 2), 'seed': SEED}), quick=120, shards=4)
def models(spec, ctx):
    'Unit graphs, emissions, decoding and forced alignment agree with the library.'
    import beer
    torch.manual_seed(spec['seed'])
    rng = np.random.default_rng(spec['seed'])
    conf, phones, states, D = [], [], [], spec['dim']
    for g in spec['groups']:
        n = g['states']
        topo = {(0, 1): 1.}
        for s in range(1, n + 1):
            topo[s, s], topo[s, s + 1] = .5, float(rng.choice([.5, .25, 1.]))
            if s + 2 <= n and rng.random() < .5:
                topo[s, s + 2] = .25
        conf.append({'n_units': g['units'], 'n_state_per_unit': n + 2, 'emission_type': 'GMM', 'n_normal_per_state': g['ncomp'],
                     'prior_strength': 1., 'noise_std': .5, 'cov_type': spec['cov'], 'shared_cov': False, 'shared_emissions': g['shared'],
                     'topology': [{'start_id': a, 'end_id': b, 'trans_prob': w} for (a, b), w in topo.items()]})
        for _ in range(g['units']):
            phones.append(UNITS[len(phones)])
            states.append((n, topo))
    ctx.nontrivial(len(phones) > 1)
    with open(texts.tmp(ctx, 'conf'), 'w') as f:
        yaml.dump(conf, f)
    mean, var = rng.normal(size=D), rng.uniform(.5, 2, size=D)
    stats = ['--stats', npz(ctx, 'stats.npz', {'mean': mean, 'var': var, 'nframes': 10})] if spec['stats'] else ['--dim', D]
    plist = put(ctx, 'phones', [f'{p} {i}' for i, p in enumerate(phones)])
    graphs, emis = texts.tmp(ctx, 'graphs'), texts.tmp(ctx, 'emissions')
    tool(ctx, 'hmm-create-graph-and-emissions.py', *stats, texts.tmp(ctx, 'conf'), plist, graphs, emis)
    with open(graphs, 'rb') as f:
        units = pickle.load(f)
    with open(emis, 'rb') as f:
        emissions = pickle.load(f)
    first = [sum(n for n, _ in states[:k]) for k in range(len(states))]
    total = sum(n for n, _ in states)
    ctx.equal(list(units), phones, 'units')
    ctx.equal(len(emissions), total, 'number of densities')
    for p, p0, (n, topo) in zip(phones, first, states):
        g = units[p]
        sids = list(g.states())
        ctx.equal([g.state_from_id(s).pdf_id for s in sids], [None] + list(range(p0, p0 + n)) + [None], f'densities of {p}')
        ctx.equal((g.start_state, g.end_state), (sids[0], sids[-1]), f'start and end of {p}')
        got = {(sids.index(a.start), sids.index(a.end)): a.weight for a in g.arcs()}
        ctx.equal(sorted(got), sorted(topo), f'arcs of {p}')
        for (a, b), w in topo.items():
            ctx.allclose(got[a, b], w / sum(x for (c, _), x in topo.items() if c == a), f'weights of {p}', 1e-9)
    res = tool(ctx, 'hmm-pdf-id-mapping.py', graphs)
    ctx.equal([l.split() for l in res.lines], [[str(p0 + s), p] for p, p0, (n, _) in zip(phones, first, states) for s in range(n)],
              'mapping of the densities')
    # Model over the phone loop, decoding.
    text = tool(ctx, 'create-decode-graph.py', plist).lines
    tool(ctx, 'prepare-decode-graph.py', put(ctx, 'txt', text), texts.tmp(ctx, 'loop'))
    tool(ctx, 'hmm-create.py', texts.tmp(ctx, 'loop'), graphs, emis, texts.tmp(ctx, 'hmm'))
    with open(texts.tmp(ctx, 'hmm'), 'rb') as f:
        hmm = pickle.load(f)
    fea, trans = {}, {}
    for i, seq in enumerate(spec['utts']):
        seq = [k % len(phones) for k in seq]
        trans[f'u{i}'] = seq
        n = sum(states[k][0] for k in seq) + int(rng.integers(0, 4))
        fea[f'u{i}'] = (rng.normal(size=(n, D)) * 2).astype(np.float32)
    fp = npz(ctx, 'fea.npz', fea)
    dirs = [texts.tmp(ctx, d) for d in ('dec', 'ali', 'graphdir', 'plain')]
    for d in dirs:
        os.mkdir(d)
    stdin = ''.join(u + '\n' for u in fea)
    tool(ctx, 'hmm-decode-parallel.py', texts.tmp(ctx, 'hmm'), fp, dirs[0], stdin=stdin)
    tool(ctx, 'hmm-align.py', texts.tmp(ctx, 'hmm'), fp, dirs[3], stdin=stdin)
    here = os.getcwd()
    os.chdir(dirs[2])
    try:
        before = set(os.listdir('.'))
        tool(ctx, 'prepare-alignments.py', graphs, dirs[1],
             stdin=''.join(f'{u} ' + ' '.join(phones[k] for k in s) + '\n' for u, s in trans.items()))
        ctx.equal(set(os.listdir('.')) - before, set(), 'files left in the current directory')
    finally:
        os.chdir(here)
    ali = {}
    for u in fea:
        ali[u] = np.load(os.path.join(dirs[1], u + '.npy'), allow_pickle=True)
    graph = npz(ctx, 'graphs.npz', ali)
    tool(ctx, 'hmm-align.py', '--ali-graphs', graph, texts.tmp(ctx, 'hmm'), fp, dirs[2], stdin=stdin)
    for u, x in fea.items():
        x = torch.from_numpy(x)
        want = hmm.decode(x).tolist()
        for d in (dirs[0], dirs[3]):
            ctx.equal(np.load(os.path.join(d, u + '.npy')).tolist(), want, f'best path of {u}')
        got = np.load(os.path.join(dirs[2], u + '.npy')).tolist()
        ctx.equal(got, hmm.decode(x, inference_graph=ali[u][0]).tolist(), f'alignment of {u}')
        # The best path through the units of the transcription, in order.
        i, f, t, ids = chain([states[k] for k in trans[u]], [first[k] for k in trans[u]])
        llh = emissions.expected_log_likelihood(emissions.sufficient_statistics(x)).detach().double().numpy()[:, ids]
        ctx.equal(len(got), len(llh), f'frames of the alignment of {u}')
        best = zoo.viterbi(i, f, t, llh)
        masked = np.where(np.array(ids)[None] == np.array(got)[:, None], llh, -np.inf)
        ctx.ensure(zoo.viterbi(i, f, t, masked) >= best - 1e-4 * (1 + np.abs(llh).max()) * len(llh),
                   lambda: f'{u}: the alignment {got} is not the best one of the units {trans[u]}')


def chain(units, first):
    'Probabilities of the states of a sequence of units, and the densities of the states.'
    base = [sum(n for n, _ in units[:s]) for s in range(len(units))]
    ids = [p + j for (n, _), p in zip(units, first) for j in range(n)]
    K = len(ids)
    i, f, t = np.zeros(K), np.zeros(K), np.zeros((K, K))
    for s, ((n, topo), b) in enumerate(zip(units, base)):
        # Every unit is entered by its first state.
        for (u, v), w in topo.items():
            if u == 0:
                continue
            w = w / sum(x for (c, _), x in topo.items() if c == u)
            if v <= n:
                t[b + u - 1, b + v - 1] += w
            elif s + 1 < len(units):
                t[b + u - 1, base[s + 1]] += w
            else:
                f[b + u - 1] += w
    i[0] = 1.
    return i, f, t, ids


# ---------------------------------------------------------------- phone tables

@facet(st.fixed_dictionaries({
    'rows': st.lists(st.tuples(st.integers(0, 9), st.integers(0, 6)), min_size=1, max_size=20, unique_by=lambda r: r[0]),
    'silences': st.integers(1, 3), 'q': st.booleans(), 'where': st.sampled_from(['timit_v2', 'aud'])}), quick=200, thorough=4000, shards=2)
def phone_tables(spec, ctx):
    'Lists of the phones of TIMIT and the mapping between them.'
    n48 = ['aa', 'b', 'cl', 'epi', 'ix', 'vcl', 'zh', 'en', 'k', 'z']
    n39 = ['aa', 'b', 'sil', 'ih', 'sh', 'n', 'k']
    # Every phone of the 48 has one image; closures become silences.
    image = {n48[a]: n39[b] for a, b in spec['rows']}
    image['cl'] = 'sil'
    rows = [[f'{p}{j}', p, m] for j, (p, m) in enumerate(image.items())] + [[f'h#{i}', 'sil', 'sil'] for i in range(spec['silences'])]
    rows += [[p + 'x', p, m] for p, m in list(image.items())[::2]]
    if spec['q']:
        rows.insert(len(rows) // 2, ['q'])
    ctx.nontrivial(len(image) > 2)
    table = put(ctx, 'map', [' '.join(r) for r in rows])
    out = texts.tmp(ctx, 'new/lang')
    script = os.path.join(REPO, 'recipes', 'timit_v2/local/timit_lang_prep.py' if spec['where'] == 'timit_v2' else
                          'aud/local/timit/timit_lang_prep.py')
    res = cli.run_script(script, [out, table])
    ctx.ensure(res.code == 0, lambda: f'exit status {res.code}: {res.err[-300:]}')

    def read(name):
        with open(os.path.join(out, name)) as f:
            return [l.split() for l in f]

    phones = ['sil'] + sorted(image)
    if spec['where'] == 'timit_v2':
        ctx.equal(read('phones.txt'), [[p, str(i)] for i, p in enumerate(phones)], 'phones')
    else:
        ctx.equal(read('units'), [[p, 'non-speech-unit' if p in ('sil', 'epi') else 'speech-unit'] for p in phones], 'units')
    ctx.equal(read('phones_48_to_39.txt'), [[p, {'sil': 'sil', **image}[p]] for p in phones], 'mapping')
    small = ['sil'] + sorted(set(image.values()) - {'sil'})
    ctx.equal(read('phones_39.txt'), [[p, str(i)] for i, p in enumerate(small)], 'reduced set of phones')
