"""C36: the preparation of the corpora."""
import itertools
import os
import shutil
import subprocess
import sys

from hypothesis import strategies as st

from vf.core import REPO, facet
from vf.recipes import PYTHON, Recipe

RULE = ('A case is a corpus (files of audio, transcriptions, labels, lexicons) and a history of runs of the preparation script, '
        'some of them killed before one of their commands or failing on a defective corpus.  Non-trivial: at least two utterances '
        'and either several sets (or languages) or several runs.')
ASSUMPTIONS = ['the directory of the corpus is the only thing edited in the scripts, as their documentation asks',
               'every set has an utterance',
               'identifiers, file names and words without white space; text files end with a newline',
               'stand-ins for git, sph2pipe, shorten, sox and soxi; mktemp makes its directories in the scratch directory']

KILL = '''case "$0" in *prepare_data.sh|*data_prep.sh)
if [ -n "$VF_KILL" ]; then trap 'if [ "$((vf_n=${vf_n:-0}+1))" = "$VF_KILL" ]; then : > $VF_STATE/killed; kill -9 0; fi' DEBUG; fi;;
esac
'''
MKTEMP = '''#!/bin/sh
exec /usr/bin/mktemp -d "$VF_STATE/tmp.XXXXXX"
'''
GIT = '''#!/bin/sh
[ "$1" = clone ] || exit 9
if [ ! -d "$VF_STATE/remote" ]; then echo "fatal: unable to access" >&2; exit 128; fi
mkdir -p "$3" && cp -r "$VF_STATE/remote/." "$3"
'''
SPH2PIPE = '''#!/bin/sh
[ "$1 $2" = "-f wav" ] && exec cat "$3"
exit 9
'''
SHORTEN = '''#!/bin/sh
[ "$1" = -x ] || exit 9
grep -q BROKEN "$2" && exit 1
sed 's/^packed //' "$2" > "$3"
'''
SOX = '''#!/bin/sh
while [ $# -gt 2 ]; do raw="$last"; last="$1"; shift; done
in=$(echo "$VF_STATE"/tmp.*/raw/"$(basename "$2" .wav)".raw)
for f in $in; do src=$f; done
grep -q UNSOUND "$src" && exit 2
sed 's/^/wav /' "$src" > "$2"
'''
SOXI = '''#!/bin/sh
sed -n 's/.*samples=\\([0-9]*\\).*/\\1/p' "$2"
'''
FIX = '''#!/bin/bash
sed 's/^/fixed /' "$1" > "$2/$(basename "$1")"
'''
PLACES = {'/mnt/matylda2/data': '', '/export/corpora5/LDC/LDC93S1/timit/TIMIT': 'TIMIT/timit'}


class Corpus(Recipe):
    def __init__(self, ctx, recipe, where):
        super().__init__(ctx, recipe=recipe)
        self.corpus = self.path(where)
        for d, _, names in os.walk(os.path.join(REPO, 'recipes', recipe, 'local')):
            rel = os.path.relpath(d, os.path.join(REPO, 'recipes', recipe))
            for n in names:
                with open(os.path.join(d, n), 'rb') as f:
                    data = f.read()
                for p, q in PLACES.items():
                    data = data.replace(p.encode(), self.path(os.path.join(where, q) if q else where).encode())
                self.write(os.path.join(rel, n), data, 0o755)
        os.remove(self.path('bin/python'))
        self.write('bin/python', f'#!/bin/sh\nPYTHONPATH={REPO} PYTHONDONTWRITEBYTECODE=1 exec {sys.executable} "$@"\n', 0o755)
        for name, text in (('mktemp', MKTEMP), ('git', GIT), ('sph2pipe', SPH2PIPE), ('shorten', SHORTEN), ('sox', SOX),
                           ('soxi', SOXI)):
            self.write('bin/' + name, text, 0o755)
        self.write('kill.sh', KILL)

    def put(self, name, text):
        self.write(os.path.relpath(os.path.join(self.corpus, name), self.root), text)

    def history(self, cmd, runs, out, check):
        'Killed runs, a complete one and one more which changes nothing.'
        for k in runs:
            if self.exists('state/killed'):
                os.remove(self.path('state/killed'))
            code = self.run(*cmd, env={'BASH_ENV': self.path('kill.sh'), 'VF_KILL': str(k)})
            killed = self.exists('state/killed')
            self.ctx.label('killed', killed)
            if not killed:
                self.ctx.equal(code, 0, f'exit status (complete run): {self.out()[-500:]}')
        self.ctx.equal(self.run(*cmd), 0, f'exit status: {self.out()[-500:]}')
        check()
        before = {n: v[0] for n, v in self.files(out).items()}
        self.ctx.equal(self.run(*cmd), 0, f'exit status of the second run: {self.out()[-500:]}')
        after = {n: v[0] for n, v in self.files(out).items()}
        done = {n for n in before if n.endswith('.done')}
        self.ctx.equal(sorted(after), sorted(before), 'files after one more run')
        for n in before:
            if n not in done:
                self.ctx.equal(after[n], before[n], f'{n} after one more run')

    def table(self, name, what):
        'A file with one line per utterance.'
        rows = [line.split() for line in self.read(name).split('\n')]
        if rows and not rows[-1]:
            rows.pop()
        if any(not r for r in rows):
            self.ctx.fail(f'{what}: {name} has empty lines')
        keys = [r[0] for r in rows]
        if len(set(keys)) != len(keys):
            self.ctx.fail(f'{what}: {name} has an utterance several times')
        return {r[0]: r[1:] for r in rows}

    def audio(self, name, what):
        'The audio of a list: files or commands.'
        out = {}
        for line in self.lines(name):
            utt, _, source = line.strip().partition(' ')
            source = source.strip()
            if utt in out:
                self.ctx.fail(f'{what}: {name} has {utt} several times')
            if source.endswith('|'):
                r = subprocess.run(['bash', '-c', source[:-1]], cwd=self.root, capture_output=True, stdin=subprocess.DEVNULL,
                                   env={'PATH': self.path('bin') + ':/usr/bin:/bin', 'VF_STATE': self.state})
                self.ctx.equal(r.returncode, 0, f'{what}: command of {utt}: {source}')
                out[utt] = r.stdout.decode()
            else:
                if not os.path.isfile(os.path.join(self.root, source)):
                    self.ctx.fail(f'{what}: the audio of {utt} is not a file: {source!r}')
                out[utt] = self.read(source)
        return out

    def units(self, name, speech, silence, what):
        rows = [line.split() for line in self.lines(name)]
        self.ctx.equal(sorted(map(tuple, rows)), sorted([(u, 'speech-unit') for u in speech] +
                                                        [(u, 'non-speech-unit') for u in silence]), what)


kills = st.lists(st.one_of(st.integers(1, 20), st.integers(1, 150)), max_size=2)
where = st.sampled_from(['corpora', 'my.corpora/v1.0'])


# ----------------------------------------------------------------------
# TIMIT

def phone_map():
    with open(os.path.join(REPO, 'recipes/aud/local/timit/phones.60-48-39.map')) as f:
        return [line.split() for line in f if line.strip()]


PHONES = '''aa ae ah ao aw ax ax-h axr ay b bcl ch d dcl dh dx eh el em en eng epi er ey f g gcl h# hh hv ih ix iy jh k kcl l m n ng nx
ow oy p pau pcl q r s sh t tcl th uh uw ux v w y z zh'''.split()
CORE = '''mdab0 mwbt0 felc0 mtas1 mwew0 fpas0 mjmp0 mlnt0 fpkt0 mlll0 mtls0 fjlm0 mbpm0 mklt0 fnlp0 mcmj0 mjdh0 fmgd0 mgrt0 mnjm0
fdhc0 mjln0 mpam0 fmld0'''.split()
DEV = '''faks0 fdac1 fjem0 mgwt0 mjar0 mmdb1 mmdm2 mpdf0 fcmh0 fkms0 mbdg0 mbwm0 mcsh0 fadg0 fdms0 fedw0 mgjf0 mglb0 mrtk0 mtaa0 mtdt0
mthc0 mwjg0 fnmr0 frew0 fsem0 mbns0 mmjr0 mdls0 mdlf0 mdvc0 mers0 fmah0 fdrw0 mrcs0 mrjm4 fcal1 mmwh0 fjsj0 majc0 mjsw0 mreb0 fgjd0
fjmg0 mroa0 mteb0 mjfc0 mrjr0 fmml0 mrws1'''.split()
OTHER = ['mxyz0', 'fabc9', 'mqrs5', 'fnop7']

# The code of a speaker: the sex, the initials and a digit.
code = st.one_of(st.sampled_from(['fpsa1', 'msa20', 'mssi1', 'fsx10', 'mwav0', 'fphn0', 'mtes0', 'ftra1', 'mdr10']),
                 st.tuples(st.sampled_from('mf'), st.text(alphabet='abcdefghijklmnopqrstuvwxyz', min_size=3, max_size=3),
                           st.sampled_from('0123456789')).map(''.join))
speaker = st.fixed_dictionaries({
    'region': st.integers(1, 8),
    'utts': st.lists(st.tuples(st.sampled_from(['sa1', 'sa2', 'si', 'sx']), st.integers(1, 2400)), max_size=4,
                     unique_by=lambda t: t[0] if t[0][1] == 'a' else t),
})
segments = st.lists(st.tuples(st.sampled_from(PHONES + ['q', 'h#', 'epi', 'pau']), st.one_of(
    st.integers(1, 400), st.sampled_from([160, 320, 1600]), st.integers(1, 4000))), min_size=1, max_size=8)


@facet(st.fixed_dictionaries({
    'recipe': st.sampled_from(['aud', 'aud', 'zrc2019', 'timit_v2']), 'where': where, 'upper': st.booleans(),
    'train': st.lists(speaker, min_size=1, max_size=3), 'codes': st.lists(code, max_size=3, unique=True), 'dev': st.lists(speaker, min_size=1, max_size=3), 'test': st.lists(speaker, min_size=1, max_size=3),
    'rest': st.lists(speaker, max_size=2), 'pick': st.integers(0, 10 ** 6), 'labels': st.lists(segments, min_size=1, max_size=6),
    'defect': st.sampled_from([None, None, None, 'list', 'corpus', 'label']), 'kills': kills}), quick=70, thorough=2500, shards=8)
def timit(spec, ctx):
    'TIMIT: sets by the lists of speakers, si and sx sentences only, normalised phones, frame by frame alignments.'
    recipe, upper = spec['recipe'], spec['upper']
    case = str.upper if upper else str.lower
    rec = Corpus(ctx, recipe, spec['where'])
    mapping = phone_map()
    ctx.equal(sorted(r[0] for r in mapping), sorted(PHONES), 'phones of the table')
    to48 = {r[0]: r[1] for r in mapping if len(r) == 3}
    to39 = {r[1]: r[2] for r in mapping if len(r) == 3}
    ctx.equal(sorted(set(to48)), sorted(set(PHONES) - {'q'}), 'mapped phones')
    top = 'TIMIT/timit'
    for d in ('TRAIN', 'TEST'):
        os.makedirs(os.path.join(rec.corpus, top, case(d)), exist_ok=True)
    ids = itertools.count()
    pick = lambda names, n: [names[(spec['pick'] + 7 * i) % len(names)] for i in range(n)]
    codes = [c for c in spec['codes'] if c not in DEV + CORE + OTHER] + ['mtrn%d' % i for i in range(3)]
    who = {'train': codes[:len(spec['train'])], 'dev': pick(DEV, len(spec['dev'])),
           'test': pick(CORE, len(spec['test'])), 'rest': OTHER[:len(spec['rest'])]}
    expect = {x: {} for x in ('train', 'dev', 'test')}
    files = []
    for x, names in who.items():
        for name, s in zip(names, spec[x]):
            d = case(f'{"train" if x == "train" else "test"}/dr{s["region"]}/{name}')
            # Even the speakers without any sentence have a directory.
            os.makedirs(os.path.join(rec.corpus, top, d), exist_ok=True)
            rec.put(f'{top}/{d}/README', '')
            # Every set has one utterance at least.
            for kind, num in s['utts'] + ([('si', 2401)] if name == names[0] else []):
                n = next(ids)
                base = case(kind if kind[1] == 'a' else f'{kind}{num}')
                labels = spec['labels'][n % len(spec['labels'])]
                text, at, frames = '', 0, []
                for phone, length in labels:
                    text += f'{at} {at + length} {phone}\n'
                    frames += [phone] * ((at + length) // 160 - at // 160)
                    at += length
                audio = f'audio {n}\n'
                rec.put(f'{top}/{d}/{base}{case(".wav")}', audio)
                rec.put(f'{top}/{d}/{base}{case(".phn")}', text)
                rec.put(f'{top}/{d}/{base}{case(".txt")}', 'words\n')
                if x != 'rest' and kind[1] != 'a':
                    expect[x][case(name) + '_' + base] = (audio, [p for p, _ in labels], frames, case(name))
                    files.append((f'{top}/{d}/{base}{case(".phn")}', text))
    ctx.nontrivial(sum(map(len, expect.values())) > 1 and sum(1 for v in expect.values() if v) > 1)
    ctx.label('upper case', upper)
    ctx.label('recipe', recipe)
    if recipe == 'timit_v2':
        for n in ('dev_spk.list', 'test_spk.list', 'phones.60-48-39.map'):
            with open(os.path.join(REPO, 'recipes/timit_v2/conf', n)) as f:
                rec.write('conf/' + n, f.read())
        conf, out = 'conf', 'data'
        cmd = ['local/timit_data_prep.sh', os.path.join(rec.corpus, top), rec.path('data/lang'), rec.path('conf')]
    else:
        conf, out = 'local/timit', 'data/timit'
        cmd = ['local/timit/prepare_data.sh', out]
    # The lists of speakers themselves are judged by `speakers` below.
    if listed(recipe, 'test_spk.list') == DEV:
        rec.write(conf + '/test_spk.list', ''.join(c + '\n' for c in CORE))

    # A defect of the corpus, repaired afterwards.
    defect = spec['defect']
    if defect == 'label' and (recipe == 'zrc2019' or not files):
        defect = None
    if defect == 'list':
        name = conf + '/' + ['dev_spk.list', 'test_spk.list', 'phones.60-48-39.map'][spec['pick'] % 3]
        keep = rec.read(name)
        os.remove(rec.path(name))
    elif defect == 'corpus':
        name = os.path.join(rec.corpus, top, case('TEST'))
        os.rename(name, name + '.away')
    elif defect == 'label':
        name, keep = files[spec['pick'] % len(files)]
        rec.put(name, keep + '999999 999999 nophone\n')
    if defect:
        ctx.label('defect', defect)
        code = rec.run(*cmd)
        if code == 0:
            ctx.fail(f'the preparation succeeds although {defect} is defective: {rec.out()[-300:]}')
        if defect == 'list':
            rec.write(name, keep)
        elif defect == 'corpus':
            os.rename(name + '.away', name)
        else:
            rec.put(name, keep)

    def check():
        loc = 'data/local/data' if recipe == 'timit_v2' else out + '/local'
        for x, utts in expect.items():
            what = f'{recipe}, {x}'
            uttids = f'{loc}/{x}.uttids' if recipe == 'timit_v2' else f'{out}/{x}/uttids'
            ctx.equal(sorted(rec.table(uttids, what).items()), sorted((u, []) for u in utts), f'{what}: list')
            scp = {'aud': f'{out}/{x}/wav.scp', 'zrc2019': f'{out}/{x}/wavs.scp', 'timit_v2': f'{loc}/{x}_wav.scp'}[recipe]
            ctx.equal(rec.audio(scp, what), {u: v[0] for u, v in utts.items()}, f'{what}: audio')
            ctx.equal(rec.table(f'{loc}/{x}.utt2spk', what), {u: [v[3]] for u, v in utts.items()}, f'{what}: speakers')
            ctx.equal(rec.table(f'{loc}/{x}.trans', what), {u: v[1] for u, v in utts.items()}, f'{what}: 61 phones')
            if recipe != 'zrc2019':
                trans = {u: [to48[p] for p in v[1] if p in to48] for u, v in utts.items()}
                ctx.equal(rec.table(f'{loc}/{x}.text' if recipe == 'timit_v2' else f'{out}/{x}/trans', what), trans,
                          f'{what}: phones')
            if recipe == 'aud':
                ctx.equal(rec.table(f'{out}/{x}/ali', what), {u: v[2] for u, v in utts.items()}, f'{what}: alignment')
        if recipe == 'zrc2019':
            return
        lang = out + '/lang/'
        names = sorted(to39)
        if recipe == 'aud':
            rec.units(lang + 'units', [p for p in names if p not in ('sil', 'epi')], ['sil', 'epi'], 'units')
            ctx.equal(rec.lines(lang + 'units')[0].split()[0], 'sil', 'first unit')
            got = [line.split() for line in rec.lines(lang + 'phones_61_to_39.txt')]
            ctx.equal({r[0]: r[1:] for r in got}, {r[0]: r[2:3] for r in mapping}, '61 to 39 phones')
            ctx.equal(len(got), len(mapping), '61 to 39 phones')
        else:
            got = {r[0]: r[1] for r in (line.split() for line in rec.lines(lang + 'phones.txt'))}
            ctx.equal(got, {p: str(i) for i, p in enumerate(['sil'] + [p for p in names if p != 'sil'])}, 'identifiers of the phones')
            arcs = sorted(tuple(line.split()[:2]) for line in rec.lines(lang + 'phone_graph.txt'))
            hub = [a[1] for a in arcs if a[0] == 'sil' and a[1] != '[/s]']
            ctx.equal(len(hub), 1, 'arcs of the silence')
            others = [p for p in names if p != 'sil']
            ctx.equal(arcs, sorted([('[s]', 'sil'), ('sil', '[/s]'), ('sil', hub[0]), (hub[0], 'sil')] +
                                   [(hub[0], p) for p in others] + [(p, hub[0]) for p in others]), 'loop of phones')
        ctx.equal(rec.table(lang + 'phones_48_to_39.txt', 'map'), {p: [to39[p]] for p in names}, '48 to 39 phones')
        got = [line.split() for line in rec.lines(lang + 'phones_39.txt')]
        ctx.equal(sorted(got, key=lambda r: int(r[1])), [[p, str(i)] for i, p in enumerate(
            ['sil'] + sorted(set(to39.values()) - {'sil'}))], '39 phones')

    rec.history(cmd, spec['kills'], out, check)


def listed(recipe, name):
    with open(os.path.join(REPO, 'recipes', recipe, 'conf' if recipe == 'timit_v2' else 'local/timit', name)) as f:
        return f.read().split()


@facet(st.fixed_dictionaries({
    'recipe': st.sampled_from(['aud', 'zrc2019', 'timit_v2']), 'set': st.sampled_from(['dev', 'test']),
    'pick': st.integers(0, 49)}), quick=100, shards=1)
def speakers(spec, ctx):
    'Any speaker of the development set and of the core test set is listed once in its own list and not in the other.'
    recipe = spec['recipe']
    dev, test = (listed(recipe, f'{x}_spk.list') for x in ('dev', 'test'))
    names = DEV if spec['set'] == 'dev' else CORE
    name = names[spec['pick'] % len(names)]
    ctx.nontrivial()
    ctx.label('recipe', recipe)
    if recipe != 'aud' and dev == DEV and test == DEV:
        ctx.finding('test-is-dev', f'{recipe}: the list of the test speakers is the one of the development speakers')
    ctx.equal((dev.count(name), test.count(name)), (1, 0) if spec['set'] == 'dev' else (0, 1), f'{recipe}: lists with {name}')
    ctx.equal((sorted(dev), sorted(test)), (sorted(DEV), sorted(CORE)), f'{recipe}: speakers')


# ----------------------------------------------------------------------
# Lists of audio files

name = st.builds('_'.join, st.lists(st.text('abcXYZ0123456789-', min_size=1, max_size=5).filter(
    lambda s: not s.startswith('-')), min_size=1, max_size=3))
names = st.lists(name, max_size=8, unique=True)


@facet(st.fixed_dictionaries({
    'recipe': st.sampled_from(['aud', 'zrc2019']), 'train': names, 'dev': names, 'dots': st.booleans(),
    'ali': st.booleans(), 'more': st.lists(st.sampled_from(['-x', '.1', '-0', 'x', '_2', '0']), max_size=3), 'order': st.integers(0, 999),
    'offline': st.integers(0, 1), 'kills': kills}), quick=50, thorough=2500, shards=8)
def mboshi(spec, ctx):
    'Mboshi: the corrected audio of each set, the alignments of its utterances only, failing downloads.'
    recipe = spec['recipe']
    rec = Corpus(ctx, recipe, 'corpora')
    remote = 'state/remote'
    sets = {'train': spec['train'], 'dev': [n for n in spec['dev'] if n not in spec['train']]}
    text = {}
    for x, utts in sets.items():
        os.makedirs(rec.path(f'{remote}/full_corpus_newsplit/{x}'))
        rec.write(f'{remote}/full_corpus_newsplit/{x}/README', '')
        for i, u in enumerate(utts):
            text[u] = f'audio of {u} {i}\n'
            rec.write(f'{remote}/full_corpus_newsplit/{x}/{u}.wav', text[u])
            rec.write(f'{remote}/full_corpus_newsplit/{x}/{u}.mb.cleaned', 'words\n')
    rec.write(f'{remote}/script/fix_wav.sh', FIX)
    ali = {}
    if spec['ali']:
        for i, u in enumerate(sets['train'] + sets['dev']):
            ali[u] = [f'p{(i + j) % 5}' for j in range(1 + i % 4)]
        near = {u + m: ['wrong', u] for u in list(ali) for m in spec['more'] if u + m not in ali}
        rows = sorted(list(ali.items()) + list(near.items()), key=lambda t: hash((spec['order'], len(t[0]))))
        rec.write('local/mboshi/mboshi.ali', ''.join(f'{u} {" ".join(a)}\n' for u, a in rows))
    ctx.nontrivial(sum(map(len, sets.values())) > 1)
    cmd = ['local/mboshi/prepare_data.sh', 'data/mboshi']
    if spec['offline']:
        os.rename(rec.path(remote), rec.path('state/away'))
        if rec.run(*cmd) == 0:
            ctx.fail('the preparation succeeds without the data')
        os.rename(rec.path('state/away'), rec.path(remote))
        ctx.label('offline first')

    def check():
        for x, utts in sets.items():
            what = f'{recipe}, {x}'
            d = f'data/mboshi/{x}/'
            ctx.equal(sorted(rec.table(d + 'uttids', what).items()), sorted((u, []) for u in utts), f'{what}: list')
            ctx.equal(rec.audio(d + ('wav.scp' if recipe == 'aud' else 'wavs.scp'), what), {u: 'fixed ' + text[u] for u in utts},
                      f'{what}: audio')
            if recipe == 'aud' and spec['ali']:
                ctx.equal(rec.table(d + 'ali', what), {u: ali[u] for u in utts}, f'{what}: alignment')

    rec.history(cmd, spec['kills'], 'data/mboshi', check)


@facet(st.fixed_dictionaries({
    'recipe': st.sampled_from(['aud', 'zrc2019']), 'utts': names, 'dirs': st.integers(1, 3), 'absent': st.booleans(), 'kills': kills}),
    quick=20, thorough=800, shards=8)
def zrc2019(spec, ctx):
    'ZRC 2019: the audio files of the archive; a missing or damaged archive.'
    recipe = spec['recipe']
    rec = Corpus(ctx, recipe, 'corpora')
    for i, u in enumerate(spec['utts']):
        rec.write(f'state/samples/part{i % spec["dirs"]}/{u}.wav', f'audio of {u}\n')
    os.makedirs(rec.path('state/samples'), exist_ok=True)
    rec.write('state/samples/README', '')
    cmd = ['local/zrc2019/prepare_data.sh', 'data/zrc2019']
    if spec['absent']:
        if len(spec['utts']) % 2:
            rec.write('samples.tar.bz2', b'BZh9 damaged')
        if rec.run(*cmd) == 0:
            ctx.fail('the preparation succeeds without the data')
        ctx.label('without data first')
    subprocess.run(['tar', '-cjf', rec.path('samples.tar.bz2'), '-C', rec.state, 'samples'], check=True, stdin=subprocess.DEVNULL)
    ctx.nontrivial(len(spec['utts']) > 1 and (spec['absent'] or spec['kills']))

    def check():
        d = 'data/zrc2019/train/'
        ctx.equal(sorted(rec.table(d + 'uttids', recipe).items()), sorted((u, []) for u in spec['utts']), f'{recipe}: list')
        ctx.equal(rec.audio(d + ('wav.scp' if recipe == 'aud' else 'wavs.scp'), recipe),
                  {u: f'audio of {u}\n' for u in spec['utts']}, f'{recipe}: audio')

    rec.history(cmd, spec['kills'], 'data/zrc2019', check)


# ----------------------------------------------------------------------
# Corpora with a lexicon

word = st.text('abcdefgh', min_size=1, max_size=3)
LANGS = ['swahili', 'amharic', 'wolof']


@facet(st.fixed_dictionaries({
    'where': where,
    'langs': st.lists(st.fixed_dictionaries({
        'broadcast': st.booleans(), 'length': st.booleans(),
        'lexicon': st.dictionaries(word, st.lists(st.sampled_from(['a', 'b', 'aa', 'E', 'SIL', 'tS', 'O:']), min_size=1, max_size=4),
                                   min_size=1, max_size=6),
        'nonsilence': st.booleans(),
        'train': st.lists(st.tuples(name, st.lists(st.integers(0, 7), max_size=4)), max_size=5, unique_by=lambda t: t[0]),
        'test': st.lists(st.tuples(name, st.lists(st.integers(0, 7), max_size=4)), max_size=3, unique_by=lambda t: t[0]),
        'extra': st.lists(name, max_size=2)}), min_size=1, max_size=2),
    'apart': st.booleans(), 'kills': kills}), quick=50, thorough=2500, shards=8)
def alffa(spec, ctx):
    'ALFFA: words to phones by the lexicon, utterances with unknown words left out, several languages.'
    rec = Corpus(ctx, 'aud', spec['where'])
    expect = {}
    for lang, s in zip(LANGS, spec['langs']):
        top = f'ALFFA/data_{"broadcastnews" if s["broadcast"] else "readspeech"}_{lang}'
        words = sorted(s['lexicon'])
        lex = f'{top}/{"lang_o3g_LengthContrast" if s["length"] else "lang"}/'
        rec.put(lex + 'lexicon.txt', ''.join(f'{w}\t{" ".join(p)}\n' for w, p in s['lexicon'].items()))
        keep = {p for ps in s['lexicon'].values() for p in ps}
        if s['nonsilence']:
            keep -= {'SIL'}
            rec.put(lex + 'nonsilence_phones.txt', ''.join(p + '\n' for p in sorted(keep)))
        expect[lang] = {}
        for x in ('train', 'test'):
            lines, good = [], {}
            for i, (u, text) in enumerate(s[x]):
                text = [words[w] if w < len(words) else 'oov%d' % w for w in text]
                lines.append(' '.join([u] + text) + '\n')
                audio = f'audio of {lang} {x} {u}\n'
                rec.put(f'{top}/data/{x}/{u[:2]}/{u}.wav', audio)
                if all(w in s['lexicon'] for w in text):
                    good[u] = (audio, [p for w in text for p in s['lexicon'][w] if p in keep])
            for u in s['extra']:
                if u not in [t[0] for t in s[x]]:
                    rec.put(f'{top}/data/{x}/{u}.wav', 'audio without transcription\n')
            rec.put(f'{top}/data/{x}/text', ''.join(lines))
            expect[lang][x] = good
        ctx.label('unknown words', any(len(expect[lang][x]) < len(s[x]) for x in ('train', 'test')))
    ctx.nontrivial(sum(len(v) for e in expect.values() for v in e.values()) > 1)
    langs = LANGS[:len(spec['langs'])]
    out = 'data/alffa'
    if spec['apart']:
        ctx.equal(rec.run('local/alffa/prepare_data.sh', out, langs[0]), 0, f'exit status: {rec.out()[-500:]}')

    def check():
        for lang, sets in expect.items():
            ids = {r[0]: r[1] for r in (line.split() for line in rec.lines(f'{out}/{lang}/lang/phones.txt'))}
            s = spec['langs'][LANGS.index(lang)]
            ctx.equal(sorted(ids), sorted({p for ps in s['lexicon'].values() for p in ps}), f'{lang}: phones')
            ctx.equal(len(set(ids.values())), len(ids), f'{lang}: names of the phones')
            if any(not i.startswith(lang + '_') for i in ids.values()):
                ctx.fail(f'{lang}: names without the language: {ids}')
            for x, utts in sets.items():
                what, d = f'{lang}, {x}', f'{out}/{lang}/{x}/'
                ctx.equal(sorted(rec.table(d + 'uttids', what).items()), sorted((u, []) for u in utts), f'{what}: list')
                ctx.equal(rec.audio(d + 'wav.scp', what), {u: v[0] for u, v in utts.items()}, f'{what}: audio')
                ctx.equal(rec.table(d + 'trans', what), {u: ['sil'] + [ids[p] for p in v[1]] + ['sil'] for u, v in utts.items()},
                          f'{what}: phones')
            rec.units(f'{out}/{lang}/lang/units', sorted({ids[p] for v in sets['train'].values() for p in v[1]}), ['sil'],
                      f'{lang}: units')

    rec.history(['local/alffa/prepare_data.sh', out, ' '.join(langs)], spec['kills'], out, check)


LETTERS = ['a', 'e', 'o', 'b', 'g', 'k', 'B', 'G', 'ẹ', 'ọ', 'é', 'n', 'ṣ']
MARKS = ['\u0300', '\u0301', '\u0323', '\u0304']
letter = st.tuples(st.one_of(st.sampled_from(LETTERS), st.sampled_from(['g', 'b', 'G', 'gb'])),
                   st.one_of(st.just([]), st.lists(st.sampled_from(MARKS), max_size=2, unique=True)))
yword = st.tuples(st.lists(st.tuples(letter, st.sampled_from(['', '', '', '-', '.', ',', '_', "'"])), max_size=5),
                  st.sampled_from(['', '', '', ',', '.', '?'])).map(
    lambda t: ''.join(l + ''.join(m) + p for (l, m), p in t[0]) + t[1])
ywords = st.lists(st.one_of(yword, yword, st.sampled_from(['[breath]', '[snap]', '-', '.'])), max_size=5).map(
    lambda ws: [w for w in ws if w])


def spell(word):
    'The letters of a word, with their marks; "gb" is one sound.'
    import unicodedata
    sounds = []
    for c in word.lower():
        if unicodedata.combining(c):
            sounds[-1] += c
        elif c.isalnum():
            if c == 'b' and sounds and sounds[-1] == 'g':
                sounds[-1] = 'gb'
            else:
                sounds.append(c)
    return [''.join(sorted(s)) for s in sounds]


@facet(st.fixed_dictionaries({
    'where': where,
    'langs': st.lists(st.lists(st.tuples(name, st.booleans(), ywords), min_size=1, max_size=6, unique_by=lambda t: t[0]),
                      min_size=1, max_size=3),
    'extra': st.lists(name, max_size=2), 'ali': st.booleans(), 'apart': st.booleans(), 'kills': kills}),
    quick=50, thorough=2500, shards=8)
def google_lr(spec, ctx):
    'Google low resource: letters with their marks as units, pauses, optional alignment, several languages.'
    rec = Corpus(ctx, 'aud', spec['where'])
    langs = ['yoruba', 'igbo', 'hausa'][:len(spec['langs'])]
    expect = {}
    ali = {}
    for lang, utts in zip(langs, spec['langs']):
        lines = {'male': '', 'female': ''}
        expect[lang] = {}
        for u, male, text in utts:
            sex = 'male' if male else 'female'
            lines[sex] += f'{u}\t{" ".join(text)}\n'
            rec.put(f'google_lr/{lang}/{sex}/{u}.wav', f'audio of {lang} {u}\n')
            sounds = []
            for w in text:
                if w.startswith('['):
                    if sounds and sounds[-1] != 'sil':
                        sounds.append('sil')
                else:
                    sounds += spell(w)
            expect[lang][u] = ['sil'] + sounds + ['sil']
            ali[u] = ['sil'] + sounds[:2]
        for sex, text in lines.items():
            rec.put(f'google_lr/{lang}/{sex}/line_index.tsv', text)
        for u in spec['extra']:
            if u not in expect[lang]:
                rec.put(f'google_lr/{lang}/male/{u}.wav', 'audio without transcription\n')
    if spec['ali']:
        rec.write('local/google_lr/ali', ''.join(f'{u} {" ".join(a)}\n' for u, a in ali.items()))
    ctx.nontrivial(sum(map(len, expect.values())) > 1)
    ctx.label('languages', len(langs))
    out = 'data/google_lr'
    if spec['apart']:
        ctx.equal(rec.run('local/google_lr/prepare_data.sh', out, langs[0]), 0, f'exit status: {rec.out()[-500:]}')

    def check():
        for lang, utts in expect.items():
            d = f'{out}/{lang}/train/'
            ids = {r[0]: r[1] for r in (line.split() for line in rec.lines(f'{out}/{lang}/lang/phones.txt'))}
            ctx.equal(sorted(ids), sorted({p for t in utts.values() for p in t}), f'{lang}: sounds')
            ctx.equal(ids['sil'], 'sil', f'{lang}: silence')
            ctx.equal(len(set(ids.values())), len(ids), f'{lang}: names of the sounds')
            if any(not i.startswith(lang) for p, i in ids.items() if p != 'sil'):
                ctx.fail(f'{lang}: names without the language: {ids}')
            ctx.equal(sorted(rec.table(d + 'uttids', lang).items()), sorted((u, []) for u in utts), f'{lang}: list')
            ctx.equal(rec.audio(d + 'wav.scp', lang), {u: f'audio of {lang} {u}\n' for u in utts}, f'{lang}: audio')
            ctx.equal(rec.table(d + 'trans', lang), {u: [ids[p] for p in t] for u, t in utts.items()}, f'{lang}: sounds')
            rec.units(f'{out}/{lang}/lang/units', sorted({ids[p] for t in utts.values() for p in t} - {'sil'}), ['sil'],
                      f'{lang}: units')
            if spec['ali']:
                got = rec.table(d + 'ali', lang)
                ctx.equal({u: got.get(u) for u in utts}, {u: ali[u] for u in utts}, f'{lang}: alignment')

    rec.history(['local/google_lr/prepare_data.sh', out, ' '.join(langs)], spec['kills'], out, check)


FULL = {'FR': 'French', 'GE': 'German', 'SP': 'Spanish', 'PL': 'Polish', 'CZ': 'Czech'}
SETS = {'FR': ([82, 83, 89], [91, 98], [1, 8, 11, 99]), 'GE': ([1, 10], [18, 73], [5, 11, 19]), 'SP': ([1, 10], [11, 18], [19, 21, 100]),
        'PL': ([97, 46], [50, 33], [2, 6, 99]), 'CZ': ([83, 101], [84, 102], [1, 82, 103])}
gword = st.text('bdfklmo', min_size=1, max_size=3)
GPHONES = ['A', 'b', 'aI', 'k', 'EU', 'x']


@facet(st.fixed_dictionaries({
    'where': where, 'langs': st.lists(st.sampled_from(sorted(FULL)), min_size=1, max_size=2, unique=True), 'apart': st.booleans(),
    'romanized': st.booleans(), 'dos': st.booleans(),
    'lexicon': st.dictionaries(gword, st.lists(st.lists(st.sampled_from(GPHONES), min_size=1, max_size=3), min_size=1, max_size=2),
                               min_size=1, max_size=5),
    'speakers': st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3), st.lists(st.tuples(
        st.integers(1, 120), st.lists(st.integers(0, 6), min_size=1, max_size=4), st.sampled_from(
            ['good'] * 8 + ['broken', 'unsound', 'short', 'untranscribed', 'silent'])), min_size=1, max_size=4,
        unique_by=lambda t: t[0])), max_size=4, unique_by=lambda t: t[:2]),
    'kills': kills}), quick=40, thorough=2000, shards=8)
def globalphone(spec, ctx):
    'GlobalPhone: sets by the lists of speakers, audio that can be converted, words of the lexicon, several languages.'
    rec = Corpus(ctx, 'aud', spec['where'])
    lexicon = spec['lexicon']
    words = sorted(lexicon)
    eol = '\r\n' if spec['dos'] else '\n'
    expect = {}
    for lang in spec['langs']:
        top = 'GLOBALPHONE/' + FULL[lang]
        for d in ('adc', 'rmn', 'trl'):
            os.makedirs(os.path.join(rec.corpus, top, d))
        text = ''
        for w in words:
            for i, pron in enumerate(lexicon[w]):
                p = ['{M_%s WB}' % q if j in (0, len(pron) - 1) else 'M_' + q for j, q in enumerate(pron)]
                text += '{%s%s} {%s}%s' % (w, f'({i + 1})' if i else '', ' '.join(p), eol)
        rec.put(f'GLOBALPHONE/Dictionaries/{lang}/{FULL[lang]}-GPDict.txt', '{SIL} {SIL}' + eol + text)
        expect[lang] = {x: {} for x in ('train', 'dev', 'test')}
        # Every set has one speaker at least.
        speakers = {(x, 0): [(1, [0], 'good')] for x in range(3)}
        speakers.update({(x, i): u for x, i, u in spec['speakers'] if i < len(SETS[lang][x])})
        for (x, i), utts in speakers.items():
            spk = '%03d' % SETS[lang][x][i]
            trans = f';SprecherID {spk}{eol}'
            if not any(k == 'good' and max(t) < len(words) for _, t, k in utts):
                utts = utts + [(121, [0], 'good')]
            for num, text, kind in utts:
                u = f'{lang}{spk}_{num}'
                text = [words[w] if w < len(words) else 'zzz%d' % w for w in text]
                if kind != 'untranscribed':
                    trans += f'; {num}:{eol}{" ".join(text) if kind != "silent" else ""}{eol}'
                note = {'broken': 'BROKEN', 'unsound': 'UNSOUND'}.get(kind, '')
                rec.put(f'{top}/adc/{spk}/{u}.adc.shn', f'packed audio of {u} {note} samples={900 if kind == "short" else 1001 + num}\n')
                if kind == 'good' and all(w in lexicon for w in text):
                    expect[lang][('dev', 'test', 'train')[x]][u] = (f'wav audio of {u}  samples={1001 + num}\n', text)
            rec.put(f'{top}/{"rmn" if spec["romanized"] else "trl"}/{lang}{spk}.{"rmn" if spec["romanized"] else "trl"}', trans)
    ctx.nontrivial(sum(len(v) for e in expect.values() for v in e.values()) > 3)
    ctx.label('languages', len(spec['langs']))
    out = 'data/globalphone'
    cmd = lambda langs: ['local/globalphone/prepare_data.sh', out, ' '.join(langs)]
    if spec['apart']:
        ctx.equal(rec.run(*cmd(spec['langs'][:1])), 0, f'exit status: {rec.out()[-500:]}')

    def check():
        phones = sorted({p for ps in lexicon.values() for q in ps for p in q})
        for lang, sets in expect.items():
            rec.units(f'{out}/{lang}/lang/units', [f'{lang}_{p}' for p in phones], ['sil', 'spn'], f'{lang}: units')
            for x, utts in sets.items():
                what, d = f'{lang}, {x}', f'{out}/{lang}/{x}/'
                ctx.equal(sorted(rec.table(d + 'uttids', what).items()), sorted((u, []) for u in utts), f'{what}: list')
                ctx.equal(rec.audio(d + 'wav.scp', what), {u: v[0] for u, v in utts.items()}, f'{what}: audio')
                got = rec.table(d + 'trans', what)
                ctx.equal(sorted(got), sorted(utts), f'{what}: transcriptions')
                for u, (_, text) in utts.items():
                    ok = [['sil'] + [f'{lang}_{p}' for q in choice for p in q] + ['sil']
                          for choice in itertools.product(*(lexicon[w] for w in text))]
                    if got[u] not in ok:
                        ctx.fail(f'{what}: phones of {u} ({text}): {got[u]}')

    rec.history(cmd(spec['langs']), spec['kills'], out, check)


# Letters of a language: as transcribed (and as in the lexicon when it is written differently).
LETTERS = {
    'CZ': [(c, c) for c in 'abkzáčďéěíňóřšťúůýž'],
    'FR': [(c, c) for c in 'abklzàâçèéêîôûïœ'.replace('œ', '')] + [
        ('a`', 'à'), ('e`', 'è'), ('u`', 'ù'), ('a^', 'â'), ('e^', 'ê'), ('i^', 'î'), ('o^', 'ô'), ('u^', 'û'), ('e+', 'é'), ('c~', 'ç')],
    'GE': [(c, c) for c in 'abklz'] + [(c, c) for c in ('~a', '~o', '~u', '~s')],
    'PL': [(c, c) for c in 'abkwyąęćłńóśźż'] + [(c, c) for c in ('a~', 'e~', 'z0', 'c1', 'l1', 'n1', 'o1', 's1', 'z1')],
    'PO': [(c, c) for c in 'abklz'] + [(c, c) for c in ('a:', 'a+', 'a^', 'a~', 'c:', 'e+', 'e^', 'i+', 'o+', 'o^', 'o~', 'u+')],
    'RU': [(c, c) for c in ('a', 'b', 'd', 'k', 't', 'sch', 'tscH', 'jscH', 'ts', 'ye', 'yu', 'ya', 'i2', '~')],
    'SP': [(c, c) for c in 'abklz'] + [(c, c) for c in ('a+', 'e+', 'i+', 'o+', 'u+', 'u^', 'n5')]}
SPELT = {'~a': 'ä', '~o': 'ö', '~u': 'ü', '~s': 'ß', 'a~PL': 'ą', 'e~PL': 'ę', 'z0': 'ż', 'c1': 'ć', 'l1': 'ł', 'n1': 'ń', 'o1': 'ó',
         's1': 'ś', 'z1': 'ź', 'a:PO': 'à', 'a+': 'á', 'a^': 'â', 'a~PO': 'ã', 'c:PO': 'ç', 'e+': 'é', 'e^': 'ê', 'i+': 'í', 'o+': 'ó',
         'o^': 'ô', 'o~': 'õ', 'u+': 'ú', 'u^SP': 'ü', 'n5': 'ñ', 'aRU': 'а', 'bRU': 'б', 'dRU': 'д', 'kRU': 'к', 'tRU': 'т',
         'sch': 'ш', 'tscH': 'ч', 'jscH': 'ж', 'ts': 'ц', 'ye': 'е', 'yu': 'ю', 'ya': 'я', 'i2': 'ы', '~': 'ь'}
CODED = {'CZ': 'iso-8859-2', 'FR': 'iso-8859-1', 'PL': 'utf-8'}
MARKS = {'CZ': ('%s,', '%s.', '"%s"', '(%s)', '%s - ', '%s?', '%s ;'), 'FR': ('%s,', '%s.', '"%s"', '%s :', '%s?', '%s!'),
         'GE': (',%s\'', '%s- ', ' -%s'), 'PL': ('%s,', '%s.', '"%s"', '(%s)', '%s -', '%s:', '%s;'), 'PO': ("`%s'", '<%s>', '<%s->'),
         'RU': ("`%s'",), 'SP': ("`%s'", '<%s>', '<%s->')}


@facet(st.fixed_dictionaries({
    'lang': st.sampled_from(sorted(LETTERS)), 'dos': st.booleans(),
    'variants': st.lists(st.sampled_from([None, None, 2, 3, 9, 10, 14, 120]), min_size=6, max_size=6),
    'words': st.lists(st.lists(st.integers(0, 40), min_size=1, max_size=5), min_size=1, max_size=6),
    'phones': st.lists(st.lists(st.sampled_from(['A', 'b', 'aI', 'k', 'x']), min_size=1, max_size=4), min_size=6, max_size=6),
    'utts': st.lists(st.lists(st.tuples(st.integers(0, 5), st.sampled_from(['lower', 'title', 'upper']), st.integers(0, 12)),
                              min_size=1, max_size=5), min_size=1, max_size=4)}), quick=200, thorough=5000, shards=4)
def spelling(spec, ctx):
    'GlobalPhone: words of transcriptions are spelt as in the lexicon whatever their case, accents, marks and line ends.'
    lang = spec['lang']
    tmp = ctx.tmpdir()
    here = os.path.join(REPO, 'recipes', 'aud', 'local', 'globalphone')
    letters, coding = LETTERS[lang], CODED.get(lang, 'ascii')
    ctx.label(lang)
    said, listed, spelt = [], [], []
    for w in spec['words']:
        pairs = [letters[i % len(letters)] for i in w]
        if pairs[0][0] == '~':                      # follows a consonant
            pairs.insert(0, letters[4])
        if lang == 'RU':                            # no sequence that could be read as another letter
            pairs = [p for i, p in enumerate(pairs) if i == 0 or (pairs[i - 1][0][-1] + p[0][0]) not in ('ts', 'js', 'jt')]
        v = ''.join(b for _, b in pairs)
        if v in listed:
            continue
        said.append(''.join(a for a, _ in pairs))
        listed.append(v)
        spelt.append(''.join(SPELT.get(b, SPELT.get(b + lang, b)) for _, b in pairs))
    eol = '\r\n' if spec['dos'] else '\n'

    def run(script, name, text, *opt):
        path = os.path.join(tmp, name)
        with open(path, 'wb') as f:
            f.write(text.encode(coding))
        res = subprocess.run(['perl', os.path.join(here, script), *opt, '-i', path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, cwd=tmp, timeout=60)
        ctx.equal(res.returncode, 0, f'{script}: exit status ({res.stderr[-300:]})')
        return res.stdout.decode('utf-8').split('\n')[:-1]

    # The lexicon.
    text = '{SIL} {SIL}' + eol if lang != 'PO' else 'SIL SIL' + eol
    prons = [(p * 20)[:max(len(p), len(w))] for w, p in zip(listed, spec['phones'])]
    # A pronunciation may have a number.
    entries = [(w, p, s) for w, p, s in zip(listed, prons, spelt)]
    for w, p, s, k in zip(listed, prons, spelt, spec['variants']):
        if k is not None:
            entries.append((f'{w}({k})', p[::-1], s))
    for w, pron, _ in entries:
        if lang == 'PO':
            text += f'{w} {" ".join(pron).upper()}{eol}'
        else:
            text += '{%s} {%s}%s' % (w, ' '.join('{M_%s WB}' % p if i in (0, len(pron) - 1) else 'M_' + p for i, p in enumerate(pron)), eol)
    lex = [l.split('\t') for l in run(f'gp_norm_dict_{lang}.pl', 'lexicon', text)]
    ctx.equal([l[0] for l in lex], [s for _, _, s in entries], 'words of the lexicon')
    want = [' '.join(p).lower() if lang == 'PO' else ' '.join(p) for _, p, _ in entries]
    ctx.equal([l[1] for l in lex], want, 'phones of the lexicon')
    # The transcriptions.
    lines, expect = '', []
    for i, utt in enumerate(spec['utts']):
        out, ws = [], []
        for w, case, mark in utt:
            w %= len(said)
            v = said[w]
            if case != 'lower' and v[0].isascii() and v[0].isalpha() and lang != 'RU' and v[1:2] not in tuple(":+^~`015"):
                v = v[0].upper() + v[1:]
                ctx.label('capital')
            marks = MARKS[lang]
            if mark < len(marks):
                v = marks[mark] % v
                ctx.label('marks')
            out.append(v)
            ws.append(spelt[w])
        lines += f'{lang}00{i}_{i + 1}\t{" ".join(out)}{eol}'
        expect.append(f'{lang}00{i}_{i + 1} {" ".join(ws)}')
    ctx.nontrivial(len(said) > 1 and any(s != d for s, d in zip(spelt, said)))
    ctx.equal([' '.join(l.split()) for l in run(f'gp_norm_trans_{lang}.pl', 'trans', lines)], expect, 'transcriptions')
