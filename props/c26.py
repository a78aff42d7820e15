"""C26: token error rate."""
import os
import random
import runpy

from hypothesis import strategies as st

from vf import cli, texts
from vf.core import facet

RULE = ('A case is a pair of token sequences, or of transcription files with options.  Non-trivial: the two differ and '
        'neither is empty.')
ASSUMPTIONS = ['the reference has at least one token after mapping', 'no blank line in the transcriptions',
               'utterances without hypothesis are not scored']

_ter = {}


def ter():
    if not _ter:
        _ter.update(runpy.run_path(os.path.join(cli.UTILS, 'ter.py'), run_name='ter'))
    return _ter


def edited(ref):
    'A hypothesis: unrelated, or an edited copy of the reference.'
    def apply(edits):
        out = list(ref)
        for kind, pos, tok in edits:
            pos = pos % (len(out) + 1)
            if kind == 'ins':
                out.insert(pos, tok)
            elif out and kind == 'del':
                del out[pos % len(out)]
            elif out and kind == 'sub':
                out[pos % len(out)] = tok
            elif out and kind == 'dup':
                out.insert(pos % len(out), out[pos % len(out)])
        return out
    edits = st.lists(st.tuples(st.sampled_from(['ins', 'del', 'sub', 'dup']), st.integers(0, 40), texts.token), max_size=6)
    return st.one_of(edits.map(apply), texts.tokens(0, 10))


LONG = st.one_of(texts.tokens(0, 10), texts.tokens(0, 30, st.sampled_from('ab')), texts.tokens(5, 40))
PAIR = LONG.flatmap(lambda r: st.tuples(st.just(r), edited(r)))


@facet(st.fixed_dictionaries({'pair': PAIR, 'third': LONG}), quick=1500, thorough=40000, shards=4,
       examples=[{'pair': [[], []], 'third': []}, {'pair': [['a'] * 3, []], 'third': ['b']}])
def distance(spec, ctx):
    'The number of errors is the minimal number of edits.'
    wer = ter()['wer']
    r, h = spec['pair']
    d = int(wer(r, h))
    ctx.nontrivial(bool(r) and bool(h) and r != h)
    ctx.equal(d, texts.edit_distance(r, h), 'errors')
    ctx.equal(int(wer(h, r)), d, 'errors, sequences exchanged')
    ctx.equal(d == 0, r == h, 'no error only for equal sequences')
    ctx.ensure(abs(len(r) - len(h)) <= d <= max(len(r), len(h)), f'{d} errors for lengths {len(r)}, {len(h)}')
    t = spec['third']
    ctx.ensure(d <= int(wer(r, t)) + int(wer(t, h)), 'triangle inequality')
    ctx.equal(int(wer(r + t, h + t)), d, 'errors with a common suffix') if t else None
    ctx.equal(int(wer(t + r, t + h)), d, 'errors with a common prefix') if t else None


LENGTH = st.one_of(st.sampled_from([0, 1, 5, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300]), st.integers(0, 320))


@facet(st.fixed_dictionaries({'n': LENGTH, 'm': LENGTH, 'period': st.integers(1, 7), 'other': st.booleans(),
                              'seed': st.integers(0, 10 ** 6)}), quick=60, thorough=1500, shards=4,
       examples=[{'n': 320, 'm': 100, 'period': 1, 'other': True, 'seed': 0},
                 {'n': 100, 'm': 320, 'period': 1, 'other': True, 'seed': 0}])
def long_sequences(spec, ctx):
    'Sequences of hundreds of tokens.'
    rng = random.Random(spec['seed'])
    r = [f't{i % spec["period"]}' if rng.random() < .9 else 'x' for i in range(spec['n'])]
    h = [('y' if spec['other'] else 't') + str(i % spec['period']) if rng.random() < .9 else 'x' for i in range(spec['m'])]
    ctx.nontrivial(min(spec['n'], spec['m']) > 100)
    ctx.label('more than 255 tokens', max(spec['n'], spec['m']) > 255)
    ctx.equal(int(ter()['wer'](r, h)), texts.edit_distance(r, h), 'errors')


def mapped(toks, mapping):
    return [mapping[t] for t in toks if t in mapping]


MAPPING = st.dictionaries(texts.token, texts.token, max_size=8).map(lambda d: [[k, v] for k, v in sorted(d.items())])


@facet(st.fixed_dictionaries({
    'utts': texts.utts(st.one_of(PAIR, texts.runs().flatmap(lambda r: st.tuples(st.just(r), edited(r))))),
    'absent': st.integers(-1, 4), 'extra': st.booleans(), 'merge': st.booleans(),
    'mapping': st.one_of(st.none(), MAPPING, MAPPING.map(lambda m: m + [[t, t] for t in texts.TOKENS if t not in dict(m)])),
    'junk': st.booleans(), 'fmt': texts.spacing, 'rev': st.booleans(), 'examples': st.booleans()}),
    quick=600, thorough=12000, shards=4)
def script(spec, ctx):
    'The reported rate: errors over reference tokens, after mapping and merging.'
    ref = [[u, list(p[0])] for u, p in spec['utts']]
    hyp = [[u, list(p[1])] for i, (u, p) in enumerate(spec['utts']) if i != spec['absent']]
    if spec['extra']:
        hyp.append(['other', ['a', 'b']])
    if spec['rev']:
        hyp.reverse()
    opts = []
    if spec['mapping'] is not None:
        with open(texts.tmp(ctx, 'map'), 'w') as f:
            for i, (k, v) in enumerate(spec['mapping']):
                if spec['junk'] and i == 1:
                    f.write('q\n\n')
                f.write(f'{k} {v}\n')
        opts += ['--mapping', texts.tmp(ctx, 'map')]
        ctx.label('mapping')
    if spec['merge']:
        opts.append('--no-repeat')
        ctx.label('merge')
    if spec['examples']:
        opts.append('--examples')
        hyp += [[u, []] for u, _ in ref if u not in dict(hyp)]
    hyp_by = dict(hyp)
    errors = total = 0
    for u, r in ref:
        if u not in hyp_by:
            ctx.label('absent')
            continue
        h = hyp_by[u]
        if spec['mapping'] is not None:
            r, h = mapped(r, dict(spec['mapping'])), mapped(h, dict(spec['mapping']))
        if spec['merge']:
            r, h = texts.collapse(r), texts.collapse(h)
        errors += texts.edit_distance(r, h)
        total += len(r)
    if not total:
        ctx.label('no reference token')
        return
    ctx.nontrivial(errors > 0 and errors != total)
    res = texts.run(ctx, 'ter.py', *opts, texts.write(texts.tmp(ctx, 'ref'), ref, spec['fmt']),
                    texts.write(texts.tmp(ctx, 'hyp'), hyp, spec['fmt']))
    ctx.equal(res.lines[-2], 'TER (%)', 'header')
    ctx.allclose(float(res.lines[-1]), 100. * errors / total, f'rate ({errors} errors, {total} tokens)', 0, .0051)
