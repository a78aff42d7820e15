"""C22: features extraction, archive and data set."""
import math
import os
import pickle
import random
import zipfile

import numpy as np
import torch
import yaml
from hypothesis import strategies as st
from scipy.io import wavfile

from vf import cli
from vf.core import facet
from props import c21

RULE = ('A case is a set of audio files with identifiers and a configuration, or the content of a features directory '
        'or archive, pushed through the commands.  Non-trivial: several utterances.')
ASSUMPTIONS = ['one channel audio with at least one frame; the reference features are recomputed with numpy from the '
               'samples and the configuration', 'identifiers have no space and no "/"']

SEED = st.integers(0, 2**31 - 1)
DEFAULTS = {'srate': 16000, 'preemph': 0.97, 'window_len': 0.025, 'framerate': 0.01, 'apply_fbank': True,
            'nfilters': 26, 'cutoff_hfreq': 8000, 'cutoff_lfreq': 20, 'apply_deltas': True, 'delta_order': 2,
            'delta_winlen': 2, 'apply_dct': True, 'n_dct_coeff': 13, 'lifter_coeff': 22, 'utt_mnorm': False,
            'add_energy': True}
UTTID = st.text(alphabet='abcXYZ019_-.', min_size=1, max_size=8).filter(
    lambda s: s.strip('.') and not s.endswith('.npy') and not s.startswith('.') and not s.startswith('-'))


def maybe(x):
    return st.one_of(st.none(), x)


CONF = st.fixed_dictionaries({}, optional={
    'srate': st.sampled_from([8000, 16000]), 'preemph': st.sampled_from([0, .5, .97]),
    'window_len': st.sampled_from([.02, .025, .032]), 'framerate': st.sampled_from([.005, .01, .0125]),
    'apply_fbank': st.booleans(), 'nfilters': st.integers(4, 20), 'cutoff_lfreq': st.sampled_from([0, 64, 200]),
    'apply_deltas': st.booleans(), 'delta_order': st.integers(0, 3), 'delta_winlen': st.integers(1, 3),
    'apply_dct': st.booleans(), 'n_dct_coeff': st.integers(1, 10), 'lifter_coeff': st.sampled_from([1, 12, 22]),
    'utt_mnorm': st.booleans(), 'add_energy': st.booleans()})


def fix_conf(conf):
    'Options that fit together (as the defaults do).'
    c = dict(DEFAULTS, **conf)
    out = dict(conf)
    if c['srate'] == 8000:
        out['cutoff_hfreq'] = 4000
    if not c['apply_fbank']:
        out['apply_dct'] = False          # the transform is defined over the filters
    return out


def ref_features(sig, conf):
    c = dict(DEFAULTS, **conf)
    flen, step = int(c['srate'] * c['window_len']), int(c['srate'] * c['framerate'])
    spec, n = c21.ref_mspec(sig, flen, step, c['preemph'], c21.hamming(flen))
    if c['apply_fbank']:
        import beer
        # The filters themselves are judged by C21.
        spec = spec @ beer.features.create_fbank(c['nfilters'], n, srate=c['srate'], lowfreq=c['cutoff_lfreq'],
                                                 highfreq=c['cutoff_hfreq']).T
    logspec = np.log(1e-6 + spec)
    norm = math.sqrt(2 / c['nfilters'])
    fea = logspec
    if c['apply_dct']:
        K, M = c['n_dct_coeff'], c['nfilters']
        fea = np.zeros((len(logspec), K))
        for k in range(1, K + 1):
            basis = np.cos(math.pi * k * (np.arange(M) + .5) / M)
            lift = 1 + c['lifter_coeff'] / 2 * math.sin(math.pi * k / c['lifter_coeff'])
            fea[:, k - 1] = logspec @ basis * norm * lift
    if c['add_energy']:
        fea = np.concatenate([logspec.sum(axis=1, keepdims=True) * norm, fea], axis=1)
    if c['apply_deltas']:
        fea = c21.ref_deltas(fea, [c['delta_winlen']] * c['delta_order'])
    if c['utt_mnorm']:
        fea = fea - fea.mean(axis=0)
    return fea


UTT = st.fixed_dictionaries({'id': UTTID, 'nfr': st.integers(1, 5), 'extra': st.floats(0, .99),
                             'how': st.sampled_from(['file', 'pipe', 'space']), 'dtype': st.sampled_from(['int16', 'int16', 'int32'])})


@facet(st.fixed_dictionaries({
    'seed': SEED, 'conf': CONF, 'utts': st.lists(UTT, min_size=1, max_size=4, unique_by=lambda u: u['id']),
    'stdin': st.booleans(), 'empty': st.sampled_from(['{}', '', '# nothing\n'])}), quick=160, shards=4)
def pipeline(spec, ctx):
    'wav list -> features -> archive -> data set: every identifier gets the features of its audio.'
    tmp = ctx.tmpdir()
    conf = fix_conf(spec['conf'])
    c = dict(DEFAULTS, **conf)
    rng = np.random.default_rng(spec['seed'])
    step, flen = int(c['srate'] * c['framerate']), int(c['srate'] * c['window_len'])
    fea = os.path.join(tmp, 'fea')
    os.mkdir(fea)
    lines, want = [], {}
    for i, u in enumerate(spec['utts']):
        n = flen + step * (u['nfr'] - 1) + int(u['extra'] * step)
        sig = rng.normal(size=n) * (3000 if u['dtype'] == 'int16' else 1e8)
        sig = sig.astype(u['dtype'])
        name = f'au dio {i}.wav' if u['how'] == 'space' else f'audio{i}.wav'
        path = os.path.join(tmp, name)
        wavfile.write(path, c['srate'], sig)
        lines.append(f"{u['id']} {'cat ' + path + ' |' if u['how'] == 'pipe' else path}")
        want[u['id']] = ref_features(sig, conf)
    ctx.nontrivial(len(lines) > 1)
    cpath = os.path.join(tmp, 'conf.yml')
    with open(cpath, 'w') as f:
        f.write(yaml.dump(conf) if conf else spec['empty'])
    text = '\n'.join(lines) + '\n'
    if spec['stdin']:
        cli.ok(ctx, 'features', 'extract', cpath, '-', fea, stdin=text)
    else:
        with open(os.path.join(tmp, 'wavs'), 'w') as f:
            f.write(text)
        cli.ok(ctx, 'features', 'extract', cpath, os.path.join(tmp, 'wavs'), fea)
    ctx.equal(sorted(os.listdir(fea)), sorted(k + '.npy' for k in want), 'files of the features directory')
    got = {k: np.load(os.path.join(fea, k + '.npy')) for k in want}
    for k in want:
        ctx.allclose(got[k], want[k], f'features of {k}', 1e-6, 1e-6 * (1 + np.abs(want[k]).max()))
    npz = os.path.join(tmp, 'feats.npz')
    cli.ok(ctx, 'features', 'archive', fea, npz)
    with np.load(npz) as arc:
        ctx.equal(sorted(arc.files), sorted(want), 'utterances of the archive')
        for k in want:
            ctx.allclose(arc[k], got[k], f'archived features of {k}', 0, 0)
    ds = make_dataset(ctx, tmp, npz)
    check_dataset(ctx, ds, got)


def make_dataset(ctx, tmp, npz):
    out = os.path.join(tmp, 'data.pkl')
    cli.ok(ctx, 'dataset', 'create', tmp, npz, out)
    with open(out, 'rb') as f:
        return pickle.load(f)


def check_dataset(ctx, ds, utts, rtol=1e-5):
    'Statistics and iteration of a data set over {id: features}.'
    allf = np.concatenate([np.asarray(u, dtype=np.float64) for u in utts.values()])
    ctx.equal(len(ds), len(utts), 'number of utterances')
    ctx.equal(ds.size, len(allf), 'number of frames')
    mean = allf.mean(axis=0)
    # The statistics are rounded to single precision, once they are known.
    ctx.allclose(ds.mean, mean, 'mean', rtol, 1e-11 * np.abs(allf).max())
    ctx.allclose(ds.var, allf.var(axis=0), 'variance', rtol, 1e-10 * (np.abs(allf) ** 2).max())
    ctx.equal((ds.mean.dtype, ds.var.dtype), (torch.float32, torch.float32), 'types of the statistics')
    for order in (False, True):
        seen = []
        it = ds.utterances(random_order=order)
        for u in it:
            seen.append(u.id)
            ctx.equal(u.features.dtype, torch.float32, 'type of the features')
            ctx.ensure(u.id in utts, f'unknown utterance {u.id}')
            ctx.allclose(u.features, np.asarray(utts[u.id], dtype=np.float32), f'features of {u.id}', 0, 0)
        if not order:
            ctx.equal(seen, sorted(utts), 'order of the utterances')
        else:
            ctx.equal(sorted(seen), sorted(utts), 'utterances in random order')
    # Two iterators at the same time.
    a, b = ds.utterances(random_order=False), ds.utterances(random_order=False)
    first = next(a).id
    ctx.equal([u.id for u in b], sorted(utts), 'second iterator')
    ctx.equal([first] + [u.id for u in a], sorted(utts), 'first iterator')
    for k in utts:
        u = ds[k]
        ctx.equal(u.id, k, 'identifier')
        ctx.allclose(u.features, np.asarray(utts[k], dtype=np.float32), f'features of {k}', 0, 0)
        # What a user does to the features of an utterance is his own affair.
        u.features.mul_(2).add_(1)
        ctx.allclose(ds[k].features, np.asarray(utts[k], dtype=np.float32), f'features of {k}, read again', 0, 0)
    for u in ds.utterances(random_order=False):
        ctx.allclose(u.features, np.asarray(utts[u.id], dtype=np.float32), f'features of {u.id}, read again', 0, 0)
    ctx.raises(KeyError, lambda: ds['no such utterance'], 'unknown utterance')
    again = pickle.loads(pickle.dumps(ds))
    ctx.equal((len(again), again.size), (len(utts), len(allf)), 'copy of the data set')
    ctx.equal([u.id for u in again.utterances(random_order=False)], sorted(utts), 'utterances of the copy')
    ctx.equal([u.id for u in ds.utterances(random_order=False)], sorted(utts), 'utterances after a copy')
    ctx.allclose(again.mean, ds.mean, 'mean of the copy', 0, 0)


@facet(st.fixed_dictionaries({
    'seed': SEED, 'dim': st.integers(1, 5), 'ids': st.lists(UTTID, min_size=1, max_size=12, unique=True),
    'len': st.lists(st.integers(1, 9), min_size=3, max_size=5), 'dtype': st.sampled_from(['float64', 'float32', 'float32', 'float16', 'int16']),
    'shift': st.sampled_from([0, 3, -10, 1000]), 'scale': st.sampled_from([.1, 1, 20, 700]),
    'make': st.sampled_from(['savez', 'compressed', 'archive'])}), quick=250, shards=2)
def datasets(spec, ctx):
    'Statistics, iteration and lookup of data sets made from any archive.'
    tmp = ctx.tmpdir()
    rng = np.random.default_rng(spec['seed'])
    utts = {k: (rng.normal(size=(spec['len'][i % len(spec['len'])], spec['dim'])) * spec['scale'] + spec['shift'])
            .astype(spec['dtype']) for i, k in enumerate(spec['ids'])}
    ctx.nontrivial(len(utts) > 1)
    npz = os.path.join(tmp, 'f.npz')
    if spec['make'] == 'archive':
        d = os.path.join(tmp, 'fea')
        os.mkdir(d)
        for k, v in utts.items():
            np.save(os.path.join(d, k), v)
        cli.ok(ctx, 'features', 'archive', d, npz)
    elif spec['make'] == 'savez':
        with zipfile.ZipFile(npz, 'w') as z:
            for k, v in utts.items():
                p = os.path.join(tmp, 'one.npy')
                np.save(p, v)
                z.write(p, arcname=k + '.npy')
    else:
        np.savez_compressed(npz, **{'x' + k: v for k, v in utts.items()})
        utts = {'x' + k: v for k, v in utts.items()}
    ds = make_dataset(ctx, tmp, npz)
    check_dataset(ctx, ds, utts)
    # Shuffled iterations follow the seed, and differ.
    random.seed(3)
    a = [u.id for u in ds.utterances()]
    random.seed(3)
    b = [u.id for u in ds.utterances()]
    ctx.equal(a, b, 'order given the seed')
    if len(utts) >= 7:
        ctx.label('shuffled')
        orders = {tuple(u.id for u in ds.utterances()) for _ in range(6)}
        ctx.ensure(len(orders) > 1, 'the random order is always the same')


@facet(st.fixed_dictionaries({
    'seed': SEED, 'ids': st.lists(UTTID, min_size=1, max_size=5, unique=True), 'ext': st.sampled_from([None, 'npy', 'fea', 'f.npy']),
    'old': st.booleans(), 'others': st.lists(st.sampled_from(['README', 'x.txt', 'y.wav', 'npz']), max_size=2, unique=True)}),
    quick=120, shards=1)
def archives(spec, ctx):
    'The archive holds every file with the extension, under its own identifier, and nothing else.'
    tmp = ctx.tmpdir()
    d = os.path.join(tmp, 'fea')
    os.mkdir(d)
    rng = np.random.default_rng(spec['seed'])
    ext = spec['ext'] or 'npy'
    want = {}
    for k in spec['ids']:
        # Identifiers that themselves contain the extension.
        k = k.replace('X', '.' + ext + 'X')
        if k.startswith('.') or k.endswith('.npy'):
            continue
        want[k] = rng.normal(size=(2, 2))
        with open(os.path.join(d, f'{k}.{ext}'), 'wb') as f:
            np.save(f, want[k])
    for o in spec['others']:
        with open(os.path.join(d, o), 'w') as f:
            f.write('text')
    ctx.nontrivial(len(want) > 1)
    out = os.path.join(tmp, 'a.npz')
    if spec['old']:
        # The archive of a former version of the directory.
        ctx.label('archive made again')
        with zipfile.ZipFile(out, 'w') as z:
            for k in ['old'] + list(want)[:1]:
                with z.open(k + '.npy', 'w') as f:
                    np.save(f, np.zeros((1, 2)))
    cli.ok(ctx, 'features', 'archive', *(['-e', ext] if spec['ext'] else []), d, out)
    with np.load(out) as z:
        ctx.equal(sorted(z.files), sorted(want), 'identifiers of the archive')
        for k in want:
            ctx.allclose(z[k], want[k], f'features of {k}', 0, 0)
    ctx.equal(len(os.listdir(d)), len(want) + len(spec['others']), 'the features directory changed')


@facet(st.fixed_dictionaries({'seed': SEED, 'case': st.sampled_from(['unknown', 'rate', 'defaults']),
                              'at': st.integers(0, 2)}), quick=45, shards=1)
def refusals(spec, ctx):
    'Unknown settings and wrong sampling rates are refused; the defaults are printed.'
    tmp = ctx.tmpdir()
    fea = os.path.join(tmp, 'fea')
    os.mkdir(fea)
    ctx.nontrivial()
    if spec['case'] == 'defaults':
        res = cli.ok(ctx, 'features', 'extract', '--show-default-conf')
        shown = yaml.safe_load(res.out)
        ctx.equal(shown, DEFAULTS, 'default settings')
        return
    rng = np.random.default_rng(spec['seed'])
    lines = []
    for i in range(3):
        p = os.path.join(tmp, f'{i}.wav')
        rate = 8000 if spec['case'] == 'rate' and i == spec['at'] else 16000
        wavfile.write(p, rate, (rng.normal(size=800) * 1000).astype(np.int16))
        lines.append(f'u{i} {p}\n')
    cpath = os.path.join(tmp, 'conf.yml')
    with open(cpath, 'w') as f:
        f.write('nfilter: 20\n' if spec['case'] == 'unknown' else 'nfilters: 20\n')
    wavs = os.path.join(tmp, 'wavs')
    with open(wavs, 'w') as f:
        f.writelines(lines)
    res = cli.beer('features', 'extract', cpath, wavs, fea)
    ctx.ensure(res.code not in (0, None), 'the command succeeded')
    done = sorted(os.listdir(fea))
    if spec['case'] == 'unknown':
        ctx.equal(done, [], 'features made with unknown settings')
    else:
        ctx.ensure(f'u{spec["at"]}.npy' not in done, 'features made at the wrong sampling rate')
        for name in done:
            i = int(name[1])
            sig = wavfile.read(os.path.join(tmp, f'{i}.wav'))[1]
            ctx.allclose(np.load(os.path.join(fea, name)), ref_features(sig, {'nfilters': 20}), f'features of {name}', 1e-6, 1e-5)
