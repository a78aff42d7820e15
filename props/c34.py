"""C34: the training recipes."""
import os
import pickle
import types
import zipfile

from hypothesis import strategies as st

from props.c33 import job_env, uttids
from vf.core import facet
from vf.recipes import Recipe

RULE = ('A case is a history of runs of a training recipe with stand-ins for the cluster (tasks in any order, one by one or '
        'together) and the "beer" command, with failing or killed jobs.  Non-trivial: at least two runs and two utterances.')
ASSUMPTIONS = ['a list is not shorter (in bytes) than the number of jobs',
               'a job is not killed while it writes a model (the models are not written atomically)',
               'the inputs of a recipe do not change between its runs',
               'the stand-ins of qsub and beer behave as the documented options of these programs']


# ----------------------------------------------------------------------
# Training

LANGS = ['la', 'lb']
KINDS = ['aud', 'aud_bigram', 'monophone', 'subspace_monophone', 'subspace_aud', 'hsubspace_monophone', 'hsubspace_aud']
HOWS = {
    'hmm.accumulate': ['exit', 'partial', 'kill', 'partialkill', 'killafter', 'lateexit'],
    'hmm.mkaligraph': ['exit', 'partial', 'kill', 'partialkill', 'lateexit'],
    'hmm.update': ['exit', 'kill'],
    'hmm.mkphones': ['exit', 'kill', 'killafter'],
    'hmm.mkphoneloopgraph': ['exit', 'kill', 'killafter'],
    'hmm.mkdecodegraph': ['exit', 'kill', 'killafter'],
    'hmm.mkphoneloop': ['exit', 'kill'],
    'hmm.mkphoneloopbigram': ['exit', 'kill'],
    'shmm.mksphoneloop': ['exit', 'kill', 'killafter'],
    'shmm.init': ['exit', 'kill'],
    'shmm.train': ['exit', 'kill'],
    'hshmm.mksphoneloop': ['exit', 'kill', 'killafter'],
    'hshmm.train': ['exit', 'kill'],
}
COMMON = ['hmm.accumulate'] * 4 + ['hmm.update'] * 2
CREATION = ['hmm.mkphones', 'hmm.mkphoneloopgraph', 'hmm.mkdecodegraph']
OPS = {
    'aud': COMMON + CREATION + ['hmm.mkphoneloop'],
    'aud_bigram': COMMON + ['hmm.mkphoneloopbigram'],
    'monophone': COMMON + CREATION + ['hmm.mkphoneloop', 'hmm.mkaligraph', 'hmm.mkaligraph'],
    'subspace_monophone': COMMON + ['shmm.mksphoneloop', 'shmm.train'],
    'subspace_aud': COMMON + CREATION + ['hmm.mkphoneloop', 'shmm.mksphoneloop', 'shmm.train'],
    'hsubspace_monophone': COMMON + ['hshmm.mksphoneloop', 'hshmm.train'],
    'hsubspace_aud': COMMON + CREATION + ['hmm.mkphoneloop', 'hshmm.mksphoneloop', 'hshmm.train'],
}
PRIORS = ['dirichlet', 'dirichlet_process', 'gamma_dirichlet_process']


def fault_of(kind):
    return st.sampled_from(OPS[kind]).flatmap(lambda op: st.fixed_dictionaries({
        'op': st.just(op), 'n': st.integers(0, 5) if op in ('hmm.accumulate', 'hmm.update', 'hmm.mkaligraph') else
        st.integers(0, 1), 'how': st.sampled_from(HOWS[op])}))


def history(kind):
    return st.fixed_dictionaries({
        'kind': st.just(kind), 'utts': uttids, 'others': uttids, 'epochs': st.integers(1, 3), 'scale': st.sampled_from([1., 0.5, 2.]),
        'prior': st.sampled_from(PRIORS), 'alis': st.booleans(), 'noise': st.booleans(),
        'runs': st.lists(st.fixed_dictionaries({
            'njobs': st.integers(1, 4), 'env': job_env, 'epochs': st.integers(1, 3),
            'back': st.sampled_from([None, None, None, None, 0, 1, 2]),
            'fault': st.one_of(st.none(), fault_of(kind), fault_of(kind), fault_of(kind))}), min_size=1, max_size=3),
        'last': st.fixed_dictionaries({'njobs': st.integers(1, 4), 'env': job_env})})


def prepare(rec, spec):
    'Writes the inputs of a step; gives its positional arguments without the number of epochs and its options.'
    kind = spec['kind']
    rec.write('conf/hmm.yml', 'configuration\n')
    rec.write('data/lang/units', 'sil non-speech-unit\nau1 speech-unit\n')
    rec.write('data/train/uttids', ''.join(u + '\n' for u in spec['utts']))
    rec.write('data/train/trans', ''.join(u + ' sil au1\n' for u in spec['utts']))
    rec.write('data/set.pkl', 'dataset\n')
    opts = []
    if kind == 'aud':
        pos = ['conf/hmm.yml', 'data/lang', 'data/train', 'data/set.pkl']
        opts = ['--acoustic-scale', spec['scale'], '--prior', spec['prior']]
    elif kind == 'aud_bigram':
        rec.write('exp/init.mdl', '{"hist": [], "prior": "none"}')
        pos = ['exp/init.mdl', 'data/train', 'data/set.pkl']
        opts = ['--acoustic-scale', spec['scale'], '--prior', spec['prior']]
    elif kind == 'monophone':
        pos = ['conf/hmm.yml', 'data/lang', 'data/train', 'data/set.pkl']
        opts = ['--prior', spec['prior']]
    elif kind in ('subspace_monophone', 'hsubspace_monophone'):
        for lang in LANGS:
            rec.write(f'exp/hmm_{lang}/final.mdl', '{"hist": [], "prior": "%s"}' % lang)
            if spec['alis'] and lang == 'la':
                rec.write(f'exp/hmm_{lang}/alis.npz', 'alignments\n')
            rec.write(f'data/{lang}/uttids', ''.join(u + '\n' for u in (spec['utts'] if lang == 'la' else spec['others'])))
            rec.write(f'data/{lang}.pkl', f'dataset {lang}\n')
        if kind == 'subspace_monophone':
            pos = ['conf/hmm.yml', 'exp/hmm_la', 'data/la', 'data/la.pkl']
            opts = ['--latent-dim', 3]
        else:
            pos = ['conf/hmm.yml'] + [' '.join(f'{lang},{p.format(lang)}' for lang in LANGS)
                                      for p in ('exp/hmm_{}', 'data/{}', 'data/{}.pkl')]
            opts = ['--unit-latent-dim', 3]
    elif kind == 'subspace_aud':
        gsm = types.SimpleNamespace(transform=types.SimpleNamespace(in_dim=3))
        rec.write('exp/gsm/gsm_final.mdl', pickle.dumps(gsm))
        rec.write('exp/gsm/units_posts_final.pkl', 'posteriors\n')
        pos = ['conf/hmm.yml', 'exp/gsm', 'data/lang', 'data/train', 'data/set.pkl']
        opts = ['--prior', spec['prior']]
    else:
        rec.write('exp/gsm/hgsm_final.mdl', pickle.dumps({'lang_latent_dim': 2, 'unit_latent_dim': 3}))
        rec.write('exp/gsm/units_posts_final.pkl', 'posteriors\n')
        pos = ['conf/hmm.yml', 'exp/gsm', 'data/lang', 'data/train', 'data/set.pkl']
    return pos, opts


def counted(spec):
    'The updates of the optimizer are compared (those of epochs trained again count twice).'
    return spec['kind'] in KINDS[:3] and all(r.get('back') is None for r in spec['runs'])


def step(rec, spec, epochs, njobs, env, fault=None):
    pos, opts = prepare(rec, spec)
    kind = spec['kind']
    tail = [epochs, 'exp/out']
    par = ['--parallel-njobs', njobs]
    if kind == 'hsubspace_aud':
        # Takes one more argument, its options come from its configuration.
        tail.append('la')
    smallest = min(os.path.getsize(rec.path(p)) for p in ('data/train/uttids',))
    par[1] = min(njobs, smallest)
    return rec.run(f'steps/{kind}.sh', *opts, *par, *pos, *tail, fault=fault, noise=spec['noise'],
                   count=counted(spec), **env)


def finals(kind):
    if kind == 'hsubspace_monophone':
        return {lang: f'exp/out/final_{lang}.mdl' for lang in LANGS}
    if kind == 'hsubspace_aud':
        return {'la': 'exp/out/final_la.mdl'}
    return {'la': 'exp/out/final.mdl'}


def check_model(ctx, rec, spec, epochs):
    kind = spec['kind']
    scale = spec['scale'] if kind in ('aud', 'aud_bigram') else 1.
    for lang, name in finals(kind).items():
        if not rec.exists(name):
            ctx.fail(f'no {name}: {rec.out()[-300:]}')
        model = rec.json(name)
        utts = sorted(spec['utts'] if lang == 'la' else spec['others'])
        ctx.equal(model.get('hist'), [[utts, scale]] * epochs, f'utterances used by the updates of {name}')
        if kind in ('aud', 'aud_bigram', 'monophone', 'subspace_aud'):
            ctx.equal(model.get('prior'), spec['prior'], 'prior')
        if counted(spec):
            ctx.equal(model.get('updates'), epochs, 'updates counted by the optimizer')
    if kind == 'monophone':
        with zipfile.ZipFile(rec.path('exp/out/alis.npz')) as z:
            ctx.equal(sorted(z.namelist()), sorted(u + '.npy' for u in spec['utts']), 'alignment graphs')


def models(rec):
    return {n: v[0] for n, v in rec.files('exp/out').items()
            if n.endswith('.mdl') and 'tmp' not in n or '.mdl_' in n}


def epochs_done(rec):
    'The epochs of which the model exists.'
    if not rec.exists('exp/out'):
        return 0
    return max([int(n[:-4]) for n in os.listdir(rec.path('exp/out')) if n.endswith('.mdl') and n[:-4].isdigit()], default=0)


def go_back(rec, epoch):
    'Removes the models of the epochs after the given one, as to train again from there.'
    for n in os.listdir(rec.path('exp/out')):
        base = n.rsplit('.', 1)[0]
        number = [p for p in base.split('_') if p.isdigit()]
        if 'final' in n or n.endswith(('.mdl', '.pkl')) and number and int(number[-1]) > epoch:
            os.remove(rec.path('exp/out/' + n))


def run_history(spec, ctx):
    kind = spec['kind']
    extensible = kind in ('aud', 'aud_bigram', 'monophone')
    rec = Recipe(ctx)
    os.makedirs(rec.path('exp'))
    complete = False        # The last training asked for is complete.
    ctx.label(kind)
    ctx.nontrivial(bool(spec['runs']) and len(spec['utts']) > 1)
    for run in spec['runs']:
        epochs = run['epochs'] if extensible else spec['epochs']
        if run.get('back') is not None and extensible and epochs_done(rec) > run['back']:
            ctx.label('trained again from an earlier epoch')
            go_back(rec, run['back'])
            complete = False
        before = rec.files('exp/out')
        trained = epochs_done(rec)
        code = step(rec, spec, epochs, run['njobs'], run['env'], run['fault'])
        if rec.fired:
            ctx.label('fault ' + run['fault']['how'])
            ctx.ensure(code != 0, f'{run["fault"]} is not reported: {rec.out()[-300:]}')
            now = rec.files('exp/out')
            for name in finals(kind).values():
                ctx.ensure(name not in now or before.get(name) == now[name], f'{name} written although {run["fault"]}')
            complete = False
        else:
            ctx.equal(code, 0, f'status of the run: {rec.out()[-300:]}')
            if complete and epochs <= trained:
                ctx.equal(rec.calls, [], 'commands run by a step already done')
                ctx.equal(rec.files('exp/out'), before, 'files after a step already done')
            complete = True
            ctx.label('extended', 0 < trained < epochs)
            check_model(ctx, rec, spec, max(epochs, trained))
    last = spec['last']
    epochs = max([spec['epochs'], epochs_done(rec)] + [r['epochs'] for r in spec['runs'] if extensible])
    code = step(rec, spec, epochs, last['njobs'], last['env'])
    ctx.equal(code, 0, f'status of the last run: {rec.out()[-300:]}')
    check_model(ctx, rec, spec, epochs)
    # Once more: nothing is done.
    before = rec.files('exp/out')
    code = step(rec, spec, epochs, last['njobs'] + 1, last['env'])
    ctx.equal(code, 0, 'status of another run')
    ctx.equal(rec.calls, [], 'commands run again')
    ctx.equal(rec.files('exp/out'), before, 'files after another run')
    # The same training without interruption.
    ref = Recipe(ctx, 'ref')
    os.makedirs(ref.path('exp'))
    code = step(ref, spec, epochs, 5 - last['njobs'], {'order': 1, 'together': False})
    ctx.equal(code, 0, 'status of the reference')
    ctx.equal(sorted(models(rec)), sorted(models(ref)), 'models')
    for name, data in models(ref).items():
        ctx.equal(models(rec)[name], data, name)


MANY = [{'kind': kind, 'utts': ['a', 'b'], 'others': ['c'], 'epochs': 11, 'scale': 1., 'prior': 'dirichlet', 'alis': False,
         'noise': False, 'runs': [{'njobs': 1, 'env': {'order': 0, 'together': False}, 'epochs': 10, 'fault': None}],
         'last': {'njobs': 1, 'env': {'order': 0, 'together': False}}} for kind in KINDS[:3]]
MANY += [dict(m, runs=m['runs'] + [{'njobs': 2, 'env': {'order': 0, 'together': False}, 'epochs': 11, 'back': 0, 'fault': None}])
         for m in MANY]


@facet(st.sampled_from(KINDS[:3]).flatmap(history), quick=72, thorough=1500, shards=8, examples=MANY)
def training(spec, ctx):
    'A training interrupted, with failing jobs, or extended ends with the model of an uninterrupted one.'
    run_history(spec, ctx)


@facet(st.sampled_from(KINDS[3:]).flatmap(history), quick=56, thorough=1200, shards=8,
       examples=[dict(MANY[0], kind='subspace_monophone')])
def subspace(spec, ctx):
    'As above with the subspace and hierarchical subspace models.'
    run_history(spec, ctx)
