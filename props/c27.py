"""C27: segmentation and clustering scores."""
import math
from collections import Counter

import yaml
from hypothesis import strategies as st

from vf import texts
from vf.core import facet

RULE = ('A case is a set of utterances with a reference and a hypothesis frame labelling.  Non-trivial: some but not all '
        'boundaries match, or several units overlap several labels.')
ASSUMPTIONS = ['every utterance of the reference has a hypothesis, with at least one frame',
               'the normalised mutual information is only defined when the labels are not all the same',
               'matching is greedy: each boundary of one side, in order, takes the closest free boundary of the other']


def perturbed(ref):
    'Another labelling of about the same segments: boundaries moved, segments split, merged and renamed.'
    def apply(args):
        shift, names, cuts = args
        out = []
        for i in range(len(ref)):
            j = min(max(i + shift[i % len(shift)], 0), len(ref) - 1)
            out.append(names.get(ref[j], ref[j]))
        for c, t in cuts:
            out[c % len(out)] = t
        return out
    return st.tuples(st.lists(st.integers(-2, 2), min_size=1, max_size=3),
                     st.dictionaries(texts.token, texts.token, max_size=3),
                     st.lists(st.tuples(st.integers(0, 60), texts.token), max_size=3)).map(apply)


REF = st.one_of(texts.runs(4, 10), texts.runs(2, 8), texts.runs(3, 14, st.sampled_from('ab')), st.tuples(texts.token, st.integers(1, 6)).map(
    lambda a: [a[0]] * a[1]))
SAME = REF.flatmap(lambda r: st.tuples(st.just(r), perturbed(r)))
ANY = st.tuples(REF, REF)
UTTS = texts.utts(st.one_of(SAME, SAME, ANY), 1, 4)


PAD = st.one_of(*[st.just(0)] * 8, st.integers(975, 1001), st.sampled_from([90, 245, 490, 4090, 9990]))


def bounds(labels):
    'Position of the first frame of every segment but the first.'
    return [i for i in range(1, len(labels)) if labels[i] != labels[i - 1]]


def greedy(first, second, delta):
    free, hits = list(second), 0
    for b in first:
        if free:
            best = min(free, key=lambda x: (abs(x - b), x))
            if abs(best - b) <= delta:
                free.remove(best)
                hits += 1
    return hits


def matching(a, b, delta):
    'Largest number of pairs of boundaries within the tolerance (two sorted lists).'
    hits, j = 0, 0
    for x in a:
        while j < len(b) and b[j] < x - delta:
            j += 1
        if j < len(b) and b[j] <= x + delta:
            hits += 1
            j += 1
    return hits


def ratio(a, b):
    return a / b if b else 0.


@facet(st.fixed_dictionaries({
    'utts': UTTS, 'delta': st.sampled_from([None, 0, 1, 2, 3, 5]), 'which': st.sampled_from([1, 1, 2]),
    'mapping': st.one_of(st.none(), st.dictionaries(texts.token, texts.token, max_size=6)), 'fmt': texts.spacing,
    'pad': PAD}),
    quick=900, thorough=20000, shards=4,
    examples=[{'utts': [['u1', [['a', 'a'], ['a', 'b']]]], 'delta': None, 'which': w, 'mapping': None, 'fmt': 0} for w in (1, 2)]
    + [{'utts': [['u1', [['a', 'b'], ['a', 'a']]]], 'delta': None, 'which': w, 'mapping': None, 'fmt': 0} for w in (1, 2)])
def boundaries(spec, ctx):
    'Recall, precision and F-score of the boundaries.'
    # Long utterances: the segments of interest come after many frames.
    pad = ['z'] * spec.get('pad', 0)
    ref = [[u, pad + p[0]] for u, p in spec['utts']]
    hyp = [[u, pad + p[1]] for u, p in spec['utts']]
    ctx.label('long utterances', bool(pad))
    name = 'score_boundaries.py' if spec['which'] == 1 else 'score_boundaries2.py'
    opts = [] if spec['delta'] is None else ['-d', spec['delta']]
    delta = 2 if spec['delta'] is None else spec['delta']
    rmap = lambda labels: labels
    if spec['mapping'] is not None:
        table = dict(spec['mapping'])
        if spec['which'] == 2:      # this script drops unknown labels: map them all
            used = [t for _, x in ref + hyp for t in x]
            table = {t: table.get(t, t) for t in used}
        with open(texts.tmp(ctx, 'map'), 'w') as f:
            f.writelines(f'{k} {v}\n' for k, v in table.items())
        opts += ['--mapping', texts.tmp(ctx, 'map')]
        # Unknown labels stay distinct labels.
        rmap = lambda labels: [table.get(t, ('unknown', t)) for t in labels]
        ctx.label('mapping')
    hits = nref = nhyp = best = 0
    for (_, r), (_, h) in zip(ref, hyp):
        br, bh = bounds(rmap(r)), bounds(rmap(h))
        nref, nhyp = nref + len(br), nhyp + len(bh)
        got = greedy(bh, br, delta) if spec['which'] == 1 else greedy(br, bh, delta)
        most = matching(br, bh, delta)
        assert most <= 2 * got and got <= most
        hits, best = hits + got, best + most
        ctx.label('no boundary', not br or not bh)
    ctx.label('greedy is not optimal', hits != best)
    ctx.nontrivial(0 < hits < max(nref, nhyp))
    res = texts.run(ctx, name, *opts, texts.write(texts.tmp(ctx, 'ref'), ref, spec['fmt']),
                    texts.write(texts.tmp(ctx, 'hyp'), hyp, spec['fmt']))
    ctx.equal(res.lines[-2], 'recall (%), precision (%), f-score (%)', 'header')
    got = [float(x) for x in res.lines[-1].split(',')]
    r, p = ratio(hits, nref), ratio(hits, nhyp)
    ctx.allclose(got, [100 * r, 100 * p, 100 * ratio(2 * r * p, r + p)],
                 f'recall, precision, F-score ({hits} hits, {nref} and {nhyp} boundaries)', 0, .0051)


def overlaps(utts):
    'Unit -> label -> number of frames.'
    counts = {}
    for _, (r, h) in utts:
        for x, y in zip(r, h):
            counts.setdefault(y, Counter())[x] += 1
    return counts


@facet(st.fixed_dictionaries({'utts': UTTS, 'counts': st.booleans(), 'fmt': texts.spacing, 'rev': st.booleans()}),
       quick=500, thorough=10000, shards=2)
def mapping(spec, ctx):
    'Each unit is sent to the label it overlaps most with; the counts are the numbers of common frames.'
    ref = [[u, p[0]] for u, p in spec['utts']]
    hyp = [[u, p[1]] for u, p in spec['utts']]
    if spec['rev']:
        hyp.reverse()
    want = overlaps(spec['utts'])
    opts = ['--counts', texts.tmp(ctx, 'counts')] if spec['counts'] else []
    ctx.nontrivial(len(want) > 1 and any(len(c) > 1 for c in want.values()))
    texts.run(ctx, 'maxoverlap_mapping.py', *opts, texts.write(texts.tmp(ctx, 'ref'), ref, spec['fmt']),
              texts.write(texts.tmp(ctx, 'hyp'), hyp, spec['fmt']), texts.tmp(ctx, 'map'))
    with open(texts.tmp(ctx, 'map')) as f:
        lines = [l.split() for l in f]
    ctx.equal(sorted(l[0] for l in lines), sorted(want), 'mapped units')
    for unit, label in lines:
        top = max(want[unit].values())
        ctx.equal(want[unit].get(label, 0), top, f'overlap of unit {unit!r} with {label!r}')
        ctx.label('tie', sum(c == top for c in want[unit].values()) > 1)
    if spec['counts']:
        with open(texts.tmp(ctx, 'counts')) as f:
            got = yaml.safe_load(f)
        ctx.equal(got, {u: dict(c) for u, c in want.items()}, 'counts')
        ctx.label('counts')


def entropy(counts):
    total = sum(counts)
    return -sum(c / total * math.log2(c / total) for c in counts if c)


def nmi_ref(counts, old):
    units = [sum(c.values()) for c in counts.values()]
    labels = Counter()
    for c in counts.values():
        labels.update(c)
    hx, hy = entropy(units), entropy(labels.values())
    hxy = entropy([n for c in counts.values() for n in c.values()])
    mi = hx + hy - hxy
    denom = hy if old else (hx + hy) / 2
    return 100 * mi / denom if denom > 1e-9 else None


COUNTS = st.one_of(
    UTTS.map(lambda u: {k: dict(v) for k, v in overlaps(u).items()}),
    st.dictionaries(texts.token, st.dictionaries(texts.token, st.one_of(st.integers(1, 9), st.integers(1, 10 ** 6)),
                                                 min_size=1, max_size=5), min_size=1, max_size=6))


@facet(st.fixed_dictionaries({'counts': COUNTS, 'old': st.booleans()}), quick=600, thorough=12000, shards=2)
def information(spec, ctx):
    'The normalised mutual information of joint counts.'
    counts = spec['counts']
    want = nmi_ref(counts, spec['old'])
    if want is None:
        ctx.label('undefined')
        return
    ctx.nontrivial(len(counts) > 1 and .5 < want < 99.5)
    with open(texts.tmp(ctx, 'counts'), 'w') as f:
        yaml.dump(counts, f, default_flow_style=False)
    res = texts.run(ctx, 'nmi.py', *(['--old'] if spec['old'] else []), texts.tmp(ctx, 'counts'))
    ctx.equal(res.lines[:2], [f'# units: {len(counts)}', 'NMI (%)'], 'header')
    ctx.allclose(float(res.lines[2]), want, 'normalised mutual information', 0, .0052)


@facet(st.fixed_dictionaries({'utts': texts.utts(st.one_of(texts.runs(), texts.tokens(1, 12))), 'fmt': texts.spacing}),
       quick=400, thorough=8000, shards=2)
def rate(spec, ctx):
    'The entropy of the tokens of a transcription, repeated tokens counted once.'
    count = Counter(t for _, toks in spec['utts'] for t in texts.collapse(toks))
    ctx.nontrivial(len(count) > 1 and len(set(count.values())) > 1)
    res = texts.run(ctx, 'entropy_rate.py', texts.write(texts.tmp(ctx, 'trans'), spec['utts'], spec['fmt']))
    ctx.equal(res.lines[0], 'entropy rate (bits), perplexity', 'header')
    h = entropy(count.values())
    got = [float(x) for x in res.lines[1].split(',')]
    ctx.allclose(got, [h, 2 ** h], 'entropy and perplexity', 0, .0051)


@facet(st.fixed_dictionaries({'utts': UTTS, 'fmt': texts.spacing}), quick=200, thorough=4000, shards=2)
def pipeline(spec, ctx):
    'Scoring of discovered units as in the recipe: mapping, mapped transcription, equivalent error rate, information.'
    ref = [[u, p[0]] for u, p in spec['utts']]
    hyp = [[u, p[1]] for u, p in spec['utts']]
    fr, fh = texts.write(texts.tmp(ctx, 'ref'), ref, spec['fmt']), texts.write(texts.tmp(ctx, 'hyp'), hyp, spec['fmt'])
    texts.run(ctx, 'maxoverlap_mapping.py', '--counts', texts.tmp(ctx, 'counts'), fr, fh, texts.tmp(ctx, 'map'))
    res = texts.run(ctx, 'maptrans.py', '--unk', '<unk>', texts.tmp(ctx, 'map'), fh)
    with open(texts.tmp(ctx, 'mapped'), 'w') as f:
        f.write(res.out)
    with open(texts.tmp(ctx, 'map')) as f:
        table = dict(l.split() for l in f)
    want = [[u, [table.get(t, '<unk>') for t in h]] for u, h in hyp]
    ctx.equal(texts.parse(res.out), want, 'mapped transcription')
    res = texts.run(ctx, 'ter.py', '--no-repeat', fr, texts.tmp(ctx, 'mapped'))
    errors = sum(texts.edit_distance(texts.collapse(r), texts.collapse(h)) for (_, r), (_, h) in zip(ref, want))
    total = sum(len(texts.collapse(r)) for _, r in ref)
    ctx.allclose(float(res.lines[-1]), 100 * errors / total, 'equivalent error rate', 0, .0051)
    counts = overlaps(spec['utts'])
    info = nmi_ref(counts, False)
    if info is not None:
        res = texts.run(ctx, 'nmi.py', texts.tmp(ctx, 'counts'))
        ctx.allclose(float(res.lines[-1]), info, 'normalised mutual information', 0, .0052)
        ctx.nontrivial(1 < info < 99 and errors > 0)
