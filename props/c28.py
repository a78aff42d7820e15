"""C28: text preparation tools."""
import os
import random
import subprocess

from hypothesis import strategies as st

from vf import cli, texts
from vf.core import facet

RULE = ('A case is a set of utterance lines with a mapping, a lexicon or options.  Non-trivial: several utterances, '
        'several distinct tokens.')
ASSUMPTIONS = ['utterance identifiers are distinct',
               'no blank line in the transcriptions', 'alignment files give the first and the last frame of each segment']

AUD = os.path.join(os.path.dirname(cli.UTILS))
TRANS = st.one_of(texts.tokens(), texts.runs(), texts.tokens(0, 30))
UTTS = texts.utts(TRANS, 1, 6)


def interesting(ctx, utts):
    ctx.nontrivial(len(utts) > 1 and len({t for _, toks in utts for t in toks}) > 1)


def aud(ctx, name, *argv, stdin=''):
    res = cli.run_script(os.path.join(AUD, name), argv, stdin)
    ctx.ensure(res.code == 0, lambda: f'{name}: exit status {res.code}: {res.err[-300:]}')
    return res


@facet(st.fixed_dictionaries({'utts': UTTS, 'fmt': texts.spacing, 'named': st.sampled_from([0, 0, 0, 1, 2])}), quick=400, thorough=8000, shards=2)
def collapse(spec, ctx):
    'Alignments to transcriptions: runs of equal labels become one label.'
    # Utterances named as their first label, too.
    utts = [[u, [u] * spec['named'] + t] for u, t in spec['utts']]
    interesting(ctx, utts)
    res = texts.run(ctx, 'ali2trans.py', texts.write(texts.tmp(ctx, 'ali'), utts, spec['fmt']))
    ctx.equal(texts.parse(res.out), [[u, texts.collapse(t)] for u, t in utts], 'transcriptions')


@facet(st.fixed_dictionaries({
    'utts': UTTS, 'fmt': texts.spacing, 'mapping': st.dictionaries(texts.token, texts.token, max_size=10),
    'full': st.booleans(), 'unk': st.sampled_from(['', '<unk>', 'a', 'X'])}), quick=500, thorough=10000, shards=2)
def maptrans(spec, ctx):
    'Mapping replaces each token by its image, in order; unknown tokens by the symbol for them, or an error.'
    utts, table = spec['utts'], dict(spec['mapping'])
    used = [t for _, toks in utts for t in toks]
    if spec['full']:
        for i, t in enumerate(used):
            table.setdefault(t, texts.TOKENS[i % len(texts.TOKENS)])
    interesting(ctx, utts)
    with open(texts.tmp(ctx, 'map'), 'w') as f:
        f.writelines(f'{k} {v}\n' for k, v in table.items())
    opts = ['--unk', spec['unk']] if spec['unk'] else []
    args = opts + [texts.tmp(ctx, 'map'), texts.write(texts.tmp(ctx, 'trans'), utts, spec['fmt'])]
    unknown = [t for t in used if t not in table]
    if unknown and not spec['unk']:
        ctx.label('refused')
        ctx.raises(KeyError, lambda: texts.run(ctx, 'maptrans.py', *args), 'token without image')
        return
    ctx.label('unknown token', bool(unknown))
    res = texts.run(ctx, 'maptrans.py', *args)
    ctx.equal(texts.parse(res.out), [[u, [table.get(t, spec['unk']) for t in toks]] for u, toks in utts], 'transcriptions')


@facet(st.fixed_dictionaries({
    'utts': UTTS, 'fmt': texts.spacing, 'prefix': st.sampled_from(['x_', 'GE_', 'a', '1', 'é']),
    'exclude': st.one_of(st.none(), st.lists(texts.token, min_size=1, max_size=4))}), quick=400, thorough=8000, shards=2)
def prefix(spec, ctx):
    'A prefix is put before every token but the excluded ones; identifiers are unchanged.'
    utts, ex = spec['utts'], spec['exclude'] or []
    interesting(ctx, utts)
    opts = ['-e', ','.join(ex)] if ex and not ex[0].startswith('-') else []
    if not opts:
        ex = []
    res = texts.run(ctx, 'add_prefix.py', *opts, texts.write(texts.tmp(ctx, 'trans'), utts, spec['fmt']), spec['prefix'])
    ctx.label('excluded', any(t in ex for _, toks in utts for t in toks))
    ctx.equal(texts.parse(res.out), [[u, [t if t in ex else spec['prefix'] + t for t in toks]] for u, toks in utts],
              'transcriptions')


@facet(st.fixed_dictionaries({
    'utts': texts.utts(texts.tokens(0, 6), 1, 6), 'fmt': texts.spacing, 'sil': st.booleans(),
    'lexicon': st.dictionaries(texts.token, texts.tokens(0, 4), max_size=8), 'full': st.booleans()}),
    quick=500, thorough=10000, shards=2)
def lexicon(spec, ctx):
    'Phone transcriptions concatenate the pronunciations; utterances with an unknown word are reported and skipped.'
    utts, lex = spec['utts'], dict(spec['lexicon'])
    if spec['full']:
        for i, t in enumerate(t for _, toks in utts for t in toks):
            lex.setdefault(t, texts.TOKENS[i % 5:i % 5 + 2])
    interesting(ctx, utts)
    with open(texts.tmp(ctx, 'lex'), 'w') as f:
        f.writelines(f'{k} {" ".join(v)}\n' for k, v in lex.items())
    res = texts.run(ctx, 'prepare_phone_trans.py', *(['--add-sil'] if spec['sil'] else []), texts.tmp(ctx, 'lex'),
                    texts.write(texts.tmp(ctx, 'trans'), utts, spec['fmt']))
    want, skipped = [], []
    for u, words in utts:
        if any(w not in lex for w in words):
            skipped.append(u)
            continue
        phones = [p for w in words for p in lex[w]]
        want.append([u, ['sil'] + phones + ['sil'] if spec['sil'] else phones])
    ctx.label('skipped utterance', bool(skipped))
    ctx.equal(texts.parse(res.out), want, 'transcriptions')
    # The wording of the reports is free.
    lines = [l for l in res.err.split('\n') if l.strip()]
    ctx.equal([u for u in skipped if not any(u in l for l in lines)], [], 'skipped utterances that are not reported')


@facet(st.fixed_dictionaries({
    'utts': st.dictionaries(st.sampled_from(texts.UTTIDS), st.lists(st.tuples(st.integers(1, 20), st.integers(0, 12)),
                                                                    min_size=1, max_size=6), min_size=1, max_size=4),
    'order': st.integers(0, 9)}), quick=200, thorough=4000, shards=2)
def frames(spec, ctx):
    'Segment files to frame labels: each segment gives its unit once per frame, both ends included.'
    ids = list(spec['utts'])
    random.Random(spec['order']).shuffle(ids)
    ctx.nontrivial(len(ids) > 1)
    os.mkdir(texts.tmp(ctx, 'ali'))
    want = []
    for u in ids:
        start, labels = 0, []
        with open(texts.tmp(ctx, f'ali/{u}.algn'), 'w') as f:
            for n, unit in spec['utts'][u]:
                f.write(f'{start} {start + n - 1} {unit}\n')
                start += n
                labels += [f'au{unit}'] * n
        want.append([u, labels])
    res = texts.run(ctx, 'convert_align.py', texts.tmp(ctx, 'ali'), stdin=''.join(u + '\n' for u in ids))
    ctx.equal(texts.parse(res.out), want, 'frame labels')
    # Back to one label per run.
    with open(texts.tmp(ctx, 'frames'), 'w') as f:
        f.write(res.out)
    res = texts.run(ctx, 'ali2trans.py', texts.tmp(ctx, 'frames'))
    ctx.equal(texts.parse(res.out), [[u, texts.collapse([f'au{x}' for _, x in spec['utts'][u]])] for u in ids],
              'transcriptions of the frames')


@facet(st.fixed_dictionaries({'n': st.integers(0, 150), 'sil': st.booleans()}), quick=60, thorough=300)
def units(spec, ctx):
    'The list of units of a discovery system.'
    ctx.nontrivial(spec['n'] > 1)
    res = texts.run(ctx, 'prepare_lang_aud.py', *(['--non-speech-unit'] if spec['sil'] else []), spec['n'])
    want = ['sil non-speech-unit'] if spec['sil'] else []
    want += [f'au{i + 1} speech-unit' for i in range(spec['n'])]
    ctx.equal(res.out, ''.join(l + '\n' for l in want), 'units')


@facet(st.fixed_dictionaries({
    'lines': st.lists(st.text('ab1_-', min_size=7, max_size=12), min_size=2, max_size=40), 'n': st.integers(1, 14)}),
    quick=80, thorough=1500, shards=4)
def split(spec, ctx):
    '''Splitting a list for parallel jobs puts every line in exactly one part, in order (list longer than the number of jobs:
    split of coreutils 9.4 fails on files with fewer bytes than parts).'''
    n, lines = spec['n'], spec['lines']
    ctx.nontrivial(n > 1 and len(lines) > n)
    ctx.label('more jobs than lines', n > len(lines))
    src, out = texts.tmp(ctx, 'list'), texts.tmp(ctx, 'parts')
    with open(src, 'w') as f:
        f.writelines(l + '\n' for l in lines)
    res = subprocess.run(['bash', os.path.join(cli.UTILS, 'parallel', 'split.sh'), src, str(n), out], capture_output=True,
                         text=True, timeout=60)
    ctx.equal(res.returncode, 0, f'exit status ({res.stderr[-200:]})')
    parts = sorted(os.listdir(out))
    # Names expected by the job scripts: x followed by the task number.
    ctx.equal(parts, [f'x{i + 1:0{len(str(n))}d}' for i in range(n)], 'parts')
    got = []
    for p in parts:
        with open(os.path.join(out, p)) as f:
            got += f.read().splitlines()
    ctx.equal(got, lines, 'lines of all parts')
    with open(src) as f:
        ctx.equal(f.read().splitlines(), lines, 'the list itself')


PHONES = ['aa', 'b', 'sil', 'q', 'epi', 'h#', 'aw']


@facet(st.fixed_dictionaries({
    'utts': st.lists(st.tuples(st.sampled_from(['spkA', 'spkB']), st.sampled_from(['sx1', 'si.2', 'sa3']),
                               st.lists(st.tuples(st.integers(1, 4000), st.sampled_from(PHONES)), min_size=1, max_size=6)),
                     min_size=1, max_size=4, unique_by=lambda u: u[:2]),
    'rate': st.sampled_from([None, [100, 16000], [100, 8000], [50, 16000], [200, 16000]]), 'blank': st.booleans()}),
    quick=200, thorough=4000, shards=2)
def timit(spec, ctx):
    'TIMIT label files to frame labels: frame i has the label covering its start.'
    frate, srate = spec['rate'] or (100, 16000)
    want = []
    with open(texts.tmp(ctx, 'list'), 'w') as flist:
        for spk, name, segs in spec['utts']:
            os.makedirs(texts.tmp(ctx, spk), exist_ok=True)
            path = texts.tmp(ctx, f'{spk}/{name}.phn')
            flist.write(path + '\n')
            labels, start = [], 0
            with open(path, 'w') as f:
                for n, ph in segs:
                    f.write(f'{start} {start + n} {ph}\n')
                    if spec['blank']:
                        f.write('\n')
                    labels += [ph] * ((start + n) * frate // srate - start * frate // srate)
                    start += n
            want.append([f'{spk}_{name}', labels])
    ctx.nontrivial(len(want) > 1 and any(len(set(l)) > 1 for _, l in want))
    opts = [] if spec['rate'] is None else ['--frate', frate, '--srate', srate]
    res = aud(ctx, 'local/timit/phone_ali.py', *opts, texts.tmp(ctx, 'list'))
    ctx.equal(texts.parse(res.out), want, 'frame labels')


@facet(st.fixed_dictionaries({
    'phones': st.lists(st.sampled_from(['aa', 'ao', 'b', 'bcl', 'h#', 'pau', 'epi', 'ux', 'uw']), min_size=1, max_size=9,
                       unique=True),
    'to48': st.lists(st.sampled_from(['aa', 'b', 'vcl', 'sil', 'uw']), min_size=9, max_size=9),
    'to39': st.fixed_dictionaries({p: st.sampled_from(['aa', 'b', 'sil', 'uw']) for p in ['aa', 'b', 'vcl', 'sil', 'uw']}),
    'q': st.booleans(), 'which': st.booleans(), 'utts': texts.utts(st.lists(st.integers(0, 20), max_size=10), 1, 4),
    'fmt': texts.spacing}), quick=200, thorough=4000, shards=2)
def normalise(spec, ctx):
    'TIMIT normalisation maps phones by the requested table and removes those without image.'
    m60 = dict(zip(spec['phones'], spec['to48']))
    lines = [[p, m60[p], spec['to39'][m60[p]]] for p in spec['phones']]
    if spec['q']:
        lines.insert(len(lines) // 2, ['q'])
    with open(texts.tmp(ctx, 'map'), 'w') as f:
        f.writelines(' '.join(l) + '\n' for l in lines)
    table = m60 if spec['which'] else {p: spec['to39'][p] for p in m60.values()}
    names = list(table) + (['q'] if spec['q'] else [])
    utts = [[u, [names[i % len(names)] for i in idx]] for u, idx in spec['utts']]
    interesting(ctx, utts)
    res = aud(ctx, 'local/timit/timit-norm-trans.py', '--map-60-48' if spec['which'] else '--map-48-39',
              texts.tmp(ctx, 'map'), stdin=texts.text(utts, spec['fmt']))
    ctx.equal(texts.parse(res.out), [[u, [table[t] for t in toks if t in table]] for u, toks in utts], 'transcriptions')
