"""C33: the steps of the recipes."""
import json
import os
import sys
import zipfile

from hypothesis import strategies as st

from vf import cli
from vf.core import facet
from vf.recipes import Recipe

RULE = ('A case is a history of runs of a recipe step with a stand-in for the cluster (tasks in any order, one by one or '
        'together) and for the "beer" command, with failing or killed jobs.  Non-trivial: more than one job and more than one '
        'utterance, and for histories at least two runs.')
ASSUMPTIONS = ['a list is not shorter (in bytes) than the number of jobs',
               'the inputs of a step do not change between its runs',
               'the stand-ins of qsub and beer behave as the documented options of these programs']

uttid = st.text('abcXYZ019_-.', min_size=1, max_size=8).filter(lambda u: u[0] not in '-.' and not u.endswith('.npy'))
uttids = st.lists(uttid, min_size=1, max_size=12, unique=True)
job_env = st.fixed_dictionaries({'order': st.integers(0, 10 ** 6), 'together': st.booleans()})


# ----------------------------------------------------------------------
# Parallel jobs

JOB = '''#!/bin/bash
echo run >> state/ran_$2
if [ "$2" = "$VF_FAIL" ]; then exit 3; fi
if [ "$2" = "$VF_LATE" ]; then cat > $1; exit 3; fi
cat > $1
'''

line = st.tuples(uttid, st.lists(st.one_of(st.text('abz/._-', min_size=1, max_size=10), st.sampled_from(
    ['*', '$HOME', '\\n', '"', "'", '%d', '#', '|', '>x', 'JOBID', '`x`', 'é', '&', ';', 'ERROR', 'x' * 300])), max_size=4)).map(
    lambda t: ' '.join((t[0],) + tuple(t[1])))


@facet(st.fixed_dictionaries({
    'recipe': st.sampled_from(['aud', 'timit_v2', 'zrc2019']),
    'lines': st.lists(line, min_size=1, max_size=25),
    'end': st.booleans(),
    'runs': st.lists(st.fixed_dictionaries({
        'njobs': st.one_of(st.integers(1, 6), st.integers(1, 24)), 'env': job_env,
        'fail': st.one_of(st.none(), st.integers(1, 6)), 'late': st.booleans()}), min_size=1, max_size=3)}),
    quick=96, thorough=2500, shards=8,
    examples=[{'recipe': r, 'lines': ['a'], 'end': True, 'runs': [
        {'njobs': 2, 'env': {'order': 0, 'together': False}, 'fail': None, 'late': False},
        {'njobs': 1, 'env': {'order': 0, 'together': False}, 'fail': 1, 'late': True}]} for r in ('aud', 'timit_v2', 'zrc2019')])
def jobs(spec, ctx):
    'Every line of the list is given to one job, whatever the number of jobs; failures are reported.'
    rec = Recipe(ctx, recipe=spec['recipe'])
    rec.write('bin/job', JOB, 0o755)
    text = '\n'.join(spec['lines']) + ('\n' if spec['end'] else '')
    rec.write('data/list', text)
    ctx.nontrivial(len(spec['lines']) > 1 and any(r['njobs'] > 1 for r in spec['runs']))
    ctx.label('several runs', len(spec['runs']) > 1)
    size = len(text.encode())
    for run in spec['runs']:
        njobs = min(run['njobs'], size)
        for d in ('exp/res', 'state'):
            if rec.exists(d):
                for f in os.listdir(rec.path(d)):
                    os.remove(os.path.join(rec.path(d), f))
            else:
                os.makedirs(rec.path(d))
        env = {'VF_LATE' if run['late'] else 'VF_FAIL': str(run['fail'])}
        failing = run['fail'] is not None and run['fail'] <= njobs
        ctx.label('failing job', failing)
        ctx.label('more jobs than lines', njobs > len(spec['lines']))
        code = rec.run('utils/parallel/submit_parallel.sh', 'sge', 'a-name', '-l mem_free=1G', njobs, 'data/list',
                       'bin/job exp/res/part_JOBID JOBID', 'exp/out', env=env, **run['env'])
        ctx.equal(code != 0, failing, f'failure reported ({code}): {rec.out()[-300:]}')
        ctx.equal(rec.read('data/list'), text, 'list')
        ran = {f[4:]: len(rec.lines('state/' + f)) for f in os.listdir(rec.path('state')) if f.startswith('ran_')}
        ctx.equal(sorted(ran.items()), sorted((str(i + 1), 1) for i in range(njobs)), 'jobs that were run')
        if failing:
            continue
        got = []
        for i in range(njobs):
            part = rec.read(f'exp/res/part_{i + 1}')
            got += [x for x in part.split('\n') if x]
        ctx.equal(got, [x for x in spec['lines'] if x], 'lines given to the jobs')


@facet(st.fixed_dictionaries({
    'recipe': st.sampled_from(['aud', 'timit_v2', 'zrc2019']), 'fail': st.booleans(), 'late': st.booleans(),
    'args': st.lists(st.text('abz/._=-', min_size=1, max_size=10), max_size=4)}),
    quick=20, thorough=400, shards=4)
def single(spec, ctx):
    'A single job is run once with its arguments; its failure is reported.'
    rec = Recipe(ctx, recipe=spec['recipe'])
    rec.write('bin/job', JOB.replace('cat > $1', 'echo "$@" > $1'), 0o755)
    ctx.nontrivial(spec['fail'])
    env = {'VF_LATE' if spec['late'] else 'VF_FAIL': '1'} if spec['fail'] else {}
    code = rec.run('utils/parallel/submit_single.sh', 'sge', 'a-name', '', ' '.join(['bin/job', 'exp.txt', '1'] + spec['args']),
                   'exp/out', env=env)
    ctx.equal(code != 0, spec['fail'], f'failure reported ({code}): {rec.out()[-300:]}')
    ctx.equal(len(rec.lines('state/ran_1')), 1, 'runs of the job')
    if not spec['fail']:
        ctx.equal(rec.lines('exp.txt'), [' '.join(['exp.txt', '1'] + spec['args'])], 'arguments of the job')


# ----------------------------------------------------------------------
# Steps writing one output

OUT_OPS = {
    'decode': ['hmm.decode'], 'align': ['hmm.decode'], 'posteriors': ['hmm.posteriors'],
    'extract_features': ['features.extract', 'features.extract', 'features.archive'], 'create_dataset': ['dataset.create'],
}
OUT_HOWS = {
    'features.archive': ['exit', 'kill'], 'dataset.create': ['exit', 'kill'],
}
RESULT = {
    'decode': 'exp/out/trans', 'align': 'exp/out/trans', 'posteriors': 'exp/out/posts.npz', 'extract_features': 'exp/out/mfcc.npz',
    'create_dataset': 'exp/out/set.pkl',
}


def out_fault(kind):
    return st.sampled_from(OUT_OPS[kind]).flatmap(lambda op: st.fixed_dictionaries({
        'op': st.just(op), 'n': st.integers(0, 3) if op in ('hmm.decode', 'hmm.posteriors', 'features.extract') else st.just(0),
        'how': st.sampled_from(OUT_HOWS.get(op, ['exit', 'partial', 'kill', 'partialkill', 'killafter', 'lateexit']))}))


@facet(st.sampled_from(sorted(OUT_OPS) + ['decode', 'posteriors', 'align']).flatmap(lambda kind: st.fixed_dictionaries({
    'kind': st.just(kind), 'utts': uttids, 'scale': st.sampled_from([1., 0.5, 2.]), 'flag': st.booleans(), 'noise': st.booleans(),
    'runs': st.lists(st.fixed_dictionaries({'njobs': st.integers(1, 12), 'env': job_env, 'fault': st.one_of(
        st.none(), out_fault(kind), out_fault(kind))}), min_size=1, max_size=3)})), quick=90, thorough=3000, shards=8)
def outputs(spec, ctx):
    'Decoding, alignment, posteriors and features: every utterance once, with failures and several runs.'
    kind, utts = spec['kind'], spec['utts']
    rec = Recipe(ctx)
    rec.write('data/train/uttids', ''.join(u + '\n' for u in utts))
    rec.write('data/train/wavs.scp', ''.join(f'{u} /corpus/wav {u}.wav |\n' for u in utts))
    rec.write('data/set.pkl', 'dataset\n')
    rec.write('exp/model.mdl', 'model\n')
    rec.write('exp/alis.npz', 'alignments\n')
    rec.write('conf/mfcc.yml', 'features\n')
    os.makedirs(rec.path('exp/out'))
    ctx.label(kind)
    ctx.nontrivial(len(utts) > 1 and any(r['njobs'] > 1 for r in spec['runs']))
    size = os.path.getsize(rec.path('data/train/uttids'))
    scale = ['--acoustic-scale', spec['scale']]
    flag = spec['flag']
    opts, pos = {
        'decode': (scale + ['--per-frame'] * flag, ['exp/model.mdl', 'data/train/uttids', 'data/set.pkl', 'exp/out']),
        'align': (scale, ['exp/model.mdl', 'exp/alis.npz', 'data/train', 'data/set.pkl', 'exp/out']),
        'posteriors': (scale + ['--log-domain'] * flag, ['exp/model.mdl', 'data/train', 'data/set.pkl', 'exp/out']),
        'extract_features': ([], ['conf/mfcc.yml', 'data/train/wavs.scp', 'exp/out']),
        'create_dataset': ([], ['data/train', 'exp/alis.npz', 'exp/out/set.pkl'])}[kind]
    result = RESULT[kind]

    def check():
        if not rec.exists(result):
            ctx.fail(f'no {result}: {rec.out()[-300:]}')
        if kind in ('decode', 'align'):
            lines = [x.split() for x in rec.lines(result)]
            ctx.equal([x[0] for x in lines], sorted(utts), 'utterances')
            want = [str(spec['scale']), str(kind == 'align' or flag), str(kind == 'align')]
            ctx.equal([x[2:] for x in lines], [want] * len(lines), 'scale, per-frame, alignments')
            ctx.equal(len({x[1] for x in lines}), 1, 'model and dataset used')
        elif kind == 'posteriors':
            with zipfile.ZipFile(rec.path(result)) as z:
                ctx.equal(sorted(z.namelist()), sorted(u + '.npy' for u in utts), 'posteriors')
                for u in utts:
                    v = json.loads(z.read(u + '.npy'))
                    ctx.equal((v['line'], v['opts'].get('acoustic_scale'), v['opts'].get('log', False)), (u, spec['scale'], flag),
                              'utterance, scale, log')
            ctx.equal([d for d in os.listdir(rec.path('exp/out')) if d.startswith('tmp')] if not interrupted else [], [],
                      'temporary files')
        elif kind == 'extract_features':
            files = rec.json(result)['files']
            ctx.equal({k: v['line'] for k, v in files.items()}, {u: f'{u} /corpus/wav {u}.wav |' for u in utts}, 'features')
        else:
            ctx.equal(rec.json(result)['uttids'], sorted(utts), 'dataset')

    done = interrupted = False
    for run in spec['runs'] + [{'njobs': 2, 'env': {'order': 0, 'together': False}, 'fault': None}] * 2:
        before = rec.files('exp/out')
        par = [] if kind == 'create_dataset' else ['--parallel-njobs', min(run['njobs'], size)]
        code = rec.run(f'steps/{kind}.sh', *opts, *par, *pos, fault=run['fault'], noise=spec['noise'], **run['env'])
        if rec.fired:
            ctx.label('fault ' + run['fault']['how'])
            ctx.ensure(code != 0, f'{run["fault"]} is not reported: {rec.out()[-300:]}')
            interrupted = interrupted or code < 0
            ctx.ensure(not rec.exists(result), f'{result} written although {run["fault"]}')
            continue
        ctx.equal(code, 0, f'status of the run: {rec.out()[-300:]}')
        if done:
            ctx.equal(rec.calls, [], 'commands run by a step already done')
            ctx.equal(rec.files('exp/out'), before, 'files after a step already done')
        done = True
        check()


# ----------------------------------------------------------------------
# Corpora

# (Identifiers found in each other.)
nested = st.one_of(st.lists(st.sampled_from(['a', '1', '-', 'ab', '1_']), min_size=1, max_size=3).map(''.join).filter(lambda u: u[0] != '-'),
                   st.lists(st.sampled_from(['a', 'b', '1']), min_size=1, max_size=3).map('-'.join),
                   st.lists(st.sampled_from(['a', 'b', '1']), min_size=1, max_size=3).map('.'.join))
corpus = st.fixed_dictionaries({
    x: st.lists(st.tuples(st.one_of(uttid, nested, nested), st.booleans()), min_size=1, max_size=6, unique_by=lambda t: t[0])
    for x in ('train', 'dev', 'test')})


@facet(st.fixed_dictionaries({
    'corpora': st.lists(corpus, min_size=1, max_size=3), 'max': st.lists(st.one_of(st.none(), st.integers(0, 4)), min_size=3, max_size=3),
    'units': st.lists(st.lists(st.sampled_from(['a', 'b', 'aa', 'sil', 'c']), max_size=4, unique=True), min_size=3, max_size=3)}),
    quick=150, thorough=3000, shards=4)
def corpora(spec, ctx):
    'Corpora added to each other: the lines of the utterances kept, and only them, in order; all the units once.'
    rec = Recipe(ctx)
    os.makedirs(rec.path('data/all'))
    seen = set()
    added = {x: [] for x in ('train', 'dev', 'test')}
    units = set()
    ctx.nontrivial(len(spec['corpora']) > 1)
    ctx.label('limited', any(m is not None for m in spec['max'][:len(spec['corpora'])]))
    before = {x: ([], [], []) for x in added}
    for i, corp in enumerate(spec['corpora']):
        d = f'data/c{i}'
        own = {}
        for x, utts in corp.items():
            # Utterances are unique, those marked are not listed in "uttids".
            utts = [(u, listed or n == 0) for n, (u, listed) in enumerate(utts) if (u not in seen)]
            seen |= {u for u, _ in utts}
            own[x] = utts
            rec.write(f'{d}/{x}/uttids', ''.join(u + '\n' for u, listed in utts if listed))
            rec.write(f'{d}/{x}/wav.scp', ''.join(f'{u} sox {u}.wav a - |\n' for u, _ in utts))
            # Transcriptions mention other utterances.
            rec.write(f'{d}/{x}/trans', ''.join(f'{u} a {v} b\n' for (u, _), (v, _) in zip(utts, utts[1:] + utts[:1])))
        rec.write(f'{d}/lang/units', ''.join(f'{u} speech-unit\n' for u in spec['units'][i]))
        units |= {f'{u} speech-unit' for u in spec['units'][i]}
        limit = spec['max'][i]
        code = rec.run('utils/add_corpus.sh', *(['--max-utts', limit] if limit is not None else []), d, 'data/all')
        ctx.equal(code, 0, f'status: {rec.out()[-300:]}')
        for x, utts in own.items():
            listed = [u for u, keep in utts if keep]
            ids, wav, trans = (rec.lines(f'data/all/{x}/{f}') for f in ('uttids', 'wav.scp', 'trans'))
            ctx.equal(ids[:len(before[x][0])], before[x][0], 'utterances of the former corpora')
            new = ids[len(before[x][0]):]
            ctx.ensure(set(new) <= set(listed) and len(set(new)) == len(new), f'{new} added from {listed}')
            ctx.equal(len(new), len(listed) if limit is None else min(limit, len(listed)), 'number of utterances kept')
            ctx.equal(wav, before[x][1] + [f'{u} sox {u}.wav a - |' for u, _ in utts if u in new], 'list of signals')
            ctx.equal(trans, before[x][2] + [f'{u} a {v} b' for (u, _), (v, _) in zip(utts, utts[1:] + utts[:1]) if u in new],
                      'transcriptions')
            before[x] = (ids, wav, trans)
        ctx.equal(rec.lines('data/all/lang/units'), sorted(units), 'units')


# ----------------------------------------------------------------------
# Scoring

label = st.sampled_from('abcd')
unit = st.sampled_from(['au1', 'au2', 'au3'])
# (At least two labels: the mutual information is not defined otherwise.)
aligned = st.lists(st.lists(st.tuples(label, unit), min_size=1, max_size=12), min_size=1, max_size=4).map(
    lambda utts: [[('a', 'au1'), ('b', 'au2')] + utts[0]] + utts[1:])


@facet(st.fixed_dictionaries({
    'train': aligned, 'test': aligned, 'given': st.booleans(), 'mapping': st.booleans(),
    'fail': st.one_of(st.none(), st.sampled_from(['maxoverlap_mapping', 'maptrans', 'ter', 'nmi', 'entropy_rate', 'score_boundaries']))}),
    quick=16, thorough=300, shards=8)
def scoring(spec, ctx):
    'Scoring maps the units with the mapping given or the one of the data scored, and is not done again unless it failed.'
    rec = Recipe(ctx)
    rec.write('bin/venv', f'#!/bin/bash\nif [ -n "$VF_BREAK" ] && [[ "$1" == *"$VF_BREAK"* ]]; then echo broken; touch state/fired; '
              f'exit 1; fi\nexec {sys.executable} "$@"\n', 0o755)
    os.remove(rec.path('bin/python'))
    os.rename(rec.path('bin/venv'), rec.path('bin/python'))
    for x in ('train', 'test'):
        rec.write(f'data/{x}/ref', ''.join(f'u{i} ' + ' '.join(r for r, _ in utt) + '\n' for i, utt in enumerate(spec[x])))
        rec.write(f'data/{x}/hyp', ''.join(f'u{i} ' + ' '.join(h for _, h in utt) + '\n' for i, utt in enumerate(spec[x])))
    rec.write('data/mapping', 'a a\nb a\nc c\nd d\n')
    os.makedirs(rec.path('exp/score'))
    ctx.nontrivial()
    opts = ['--mapping', 'data/mapping'] if spec['mapping'] else []
    own = ctx.tmpdir()

    def util(name, *argv):
        res = cli.util(name, *argv)
        ctx.equal(res.code, 0, f'status of {name}: {res.err[-200:]}')
        return res.out
    learn = 'train' if spec['given'] else 'test'
    util('maxoverlap_mapping.py', rec.path(f'data/{learn}/ref'), rec.path(f'data/{learn}/hyp'), '--counts', own + '/c', own + '/map')
    if spec['given']:
        with open(own + '/map') as f:
            rec.write('data/au_phone', f.read())
        opts += ['--au-mapping', 'data/au_phone']
    if spec['given']:
        util('maxoverlap_mapping.py', rec.path('data/test/ref'), rec.path('data/test/hyp'), '--counts', own + '/c', own + '/map2')
    ref, hyp = rec.path('data/test/ref'), rec.path('data/test/hyp')
    with open(own + '/t', 'w') as f:
        f.write(util('maptrans.py', '--unk', '<unk>', own + '/map', hyp))
    want = {
        'eq_per': util('ter.py', '--no-repeat', *(['--mapping', rec.path('data/mapping')] if spec['mapping'] else []), ref, own + '/t'),
        'nmi': util('nmi.py', own + '/c'), 'entropy_rate': util('entropy_rate.py', hyp),
        'phone_boundaries': util('score_boundaries.py', ref, hyp)}
    cmd = ['steps/score_aud.sh', *opts, 'data/test/ref', 'data/test/hyp', 'exp/score']
    if spec['fail']:
        code = rec.run(*cmd, env={'VF_BREAK': spec['fail']})
        ctx.ensure(code != 0, f'the failure of {spec["fail"]} is not reported: {rec.out()[-300:]}')
    for again in (False, True):
        before = rec.files('exp/score')
        code = rec.run(*cmd)
        ctx.equal(code, 0, f'status: {rec.out()[-300:]}')
        for name, text in want.items():
            ctx.equal(rec.read('exp/score/' + name), text, name)
            ctx.ensure(text.strip().split('\n')[-1] in rec.out(), f'{name} is not shown')
        if again:
            ctx.equal({k: v for k, v in rec.files('exp/score').items() if k.endswith(tuple(want))},
                      {k: v for k, v in before.items() if k.endswith(tuple(want))}, 'scores computed again')
