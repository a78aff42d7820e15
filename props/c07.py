"""C07: accumulation of objectives across batches and processes."""
import copy
import os
import pickle
import subprocess
import sys

import numpy as np
import torch
from hypothesis import strategies as st

from vf import core, mods, zoo
from vf.core import facet

RULE = ('A case is a model, a data set, its partition into parts, an order of summation, a grouping of the '
        'parts in jobs and a way to bring the partial objectives together (same objects, pickled, pickled by '
        'another process).  Non-trivial: at least two parts.')
ASSUMPTIONS = ['a job is simulated by a pickled copy of the model, by a forked process or by a fresh interpreter']

FRAMEWISE = ['normal', 'categorical', 'mixture', 'jointmixture', 'nested']
SEQ = ['hmm', 'hmm-mixture', 'phoneloop', 'bigram', 'jointhmm']
covs = st.sampled_from(['isotropic', 'diagonal', 'full'])


def data(kind, dim, k, n, rng):
    if kind == 'categorical':
        return np.eye(k)[rng.integers(0, k, size=n)]
    return rng.normal(size=(n, dim)) * 2


def make_parts(spec, rng):
    kind = spec['kind']
    low = 3 * spec['k'] if kind == 'jointhmm' else 4 if kind in SEQ else 1
    return [data(kind, spec['dim'], spec['k'], low + n, rng) for n in spec['parts']]


def nats(model):
    return [p.posterior.natural_parameters().double().clone() for p in model.bayesian_parameters()]


def one_step(beer, model, elbo, lrate, group=0):
    optim = beer.VBConjugateOptimizer(model.mean_field_factorization(), lrate=lrate)
    optim.load_state_dict({'lrate': lrate, 'update_count': group})
    optim.init_step()
    elbo.backward()
    optim.step()
    return nats(model)


def stored(model, elbo):
    'Statistics that the objective gives to the parameters.'
    for p in model.bayesian_parameters():
        p.zero_stats()
    elbo.backward()
    return [p.stats.double().clone() for p in model.bayesian_parameters()]


def same(ctx, a, b, msg):
    ctx.ensure(len(a) == len(b), msg)
    for x, y in zip(a, b):
        ctx.allclose(x, y, msg, rtol=1e-9, scale=1 + float(y.abs().max()))


specs = {
    'cov': covs, 'dim': st.integers(1, 2), 'k': st.integers(1, 3),
    'parts': st.one_of(*[st.lists(st.integers(0, 5), min_size=1, max_size=6)] * 25, st.lists(mods.sizes(0, 5, (20, 150), 6), min_size=7, max_size=25)),
    'order': st.integers(0, 10 ** 6), 'extra': st.sampled_from([0, 0, 1, 13, 500]),
    'lrate': st.sampled_from([1., 1., .3]), 'seed': st.integers(0, 10 ** 6)}


@facet(st.fixed_dictionaries({'kind': st.sampled_from(FRAMEWISE), **specs}), quick=700)
def whole(spec, ctx):
    'Any partition gives the update, the size and the terms of the objective on the whole data set.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    model = zoo.random_model(spec['kind'], spec['cov'], spec['dim'], spec['k'], rng)
    parts = make_parts(spec, rng)
    allx = np.concatenate(parts)
    n = len(allx)
    ds = n + spec['extra']
    twin = copy.deepcopy(model)
    ctx.label(spec['kind'])
    ctx.nontrivial(len(parts) > 1)
    kl = sum(mods.kl_of(p.posterior, p.prior) for p in mods.conj_params(model))
    ref = beer.evidence_lower_bound(twin, mods.t64(allx), datasize=ds)
    total = beer.evidence_lower_bound(datasize=ds)
    ctx.equal(float(total), 0., 'value of the empty accumulator')
    llh = 0.
    for i in np.random.default_rng(spec['order']).permutation(len(parts)):
        part = beer.evidence_lower_bound(model, mods.t64(parts[i]), datasize=ds)
        llh += (float(part) + kl) * len(parts[i]) / ds
        before = float(total)
        total = total + part
        ctx.allclose(float(total), before + float(part), 'value of a sum', rtol=1e-9, scale=1.)
    scale = 10 + abs(float(ref)) + kl
    ctx.allclose(ds / n * llh - kl, float(ref), 'terms of the objective', rtol=1e-9, scale=scale)
    # An objective is not used up: not by its use, nor by what happens to the parameters afterwards.
    once = stored(model, total)
    same(ctx, stored(model, total), once, 'statistics of an objective used again')
    same(ctx, stored(model, total + beer.evidence_lower_bound(datasize=ds)), once, 'statistics of a sum with a used objective')
    same(ctx, one_step(beer, model, total, spec['lrate']), one_step(beer, twin, ref, spec['lrate']),
         'posterior after the update')


@facet(st.fixed_dictionaries({'kind': st.sampled_from(FRAMEWISE + SEQ), **specs}), quick=600)
def grouping(spec, ctx):
    'Sums do not depend on the order and the association of the terms; terms are not modified.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    model = zoo.random_model(spec['kind'], spec['cov'], spec['dim'], spec['k'], rng)
    parts = make_parts(spec, rng)
    ds = sum(map(len, parts)) + spec['extra']
    org = np.random.default_rng(spec['order'])
    terms = [beer.evidence_lower_bound(model, mods.t64(x), datasize=ds) for x in parts]
    values = [float(t) for t in terms]
    ctx.label(spec['kind'])
    ctx.nontrivial(len(parts) > 1)
    left = beer.evidence_lower_bound(datasize=ds)
    for t in terms:
        left += t
    pool = [terms[i] for i in org.permutation(len(terms))]
    pool.insert(int(org.integers(0, len(pool) + 1)), beer.evidence_lower_bound(datasize=ds))
    while len(pool) > 1:
        i = int(org.integers(0, len(pool) - 1))
        pool[i:i + 2] = [pool[i] + pool[i + 1]]
    ctx.allclose(float(pool[0]), sum(values), 'value of the sum', rtol=1e-9, scale=1 + max(map(abs, values)))
    ctx.allclose(float(left), sum(values), 'value of the sum', rtol=1e-9, scale=1 + max(map(abs, values)))
    again = terms[0]
    for t in terms[1:]:
        again = again + t
    got = []
    for e in (left, pool[0], again):
        m = copy.deepcopy(model)
        e.sync(m)
        got.append(one_step(beer, m, e, spec['lrate']))
    same(ctx, got[1], got[0], 'posterior after the update, another association')
    same(ctx, got[2], got[0], 'posterior after the update, without the empty accumulator')
    ctx.equal([float(t) for t in terms], values, 'values of the terms after the sums')


def run_jobs(blobs, how):
    '''Each job: (pickled model, list of arrays, datasize) -> pickled objective.'''
    out = []
    for blob in blobs:
        if how == 'copy':
            out.append(job(blob))
        else:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    with os.fdopen(w, 'wb') as f:
                        f.write(job(blob))
                    os._exit(0)
                except BaseException:
                    os._exit(1)
            os.close(w)
            with os.fdopen(r, 'rb') as f:
                res = f.read()
            _, st_ = os.waitpid(pid, 0)
            if st_ != 0:
                raise core.Violation('computing the objective from a serialised model fails in a forked process')
            out.append(res)
    return out


def job(blob):
    import beer
    model_blob, arrays, ds = pickle.loads(blob)
    model = pickle.loads(model_blob)
    elbo = beer.evidence_lower_bound(datasize=ds)
    for x in arrays:
        elbo += beer.evidence_lower_bound(model, mods.t64(x), datasize=ds)
    return pickle.dumps(elbo)


def check_jobs(spec, ctx, runner):
    import beer
    rng = np.random.default_rng(spec['seed'])
    model = zoo.random_model(spec['kind'], spec['cov'], spec['dim'], spec['k'], rng)
    ref = pickle.loads(pickle.dumps(model))
    ctx.label(spec['kind'])
    ctx.nontrivial(len(spec['parts']) > 1)
    for it in range(spec['iters']):
        parts = make_parts(spec, rng)
        ds = sum(map(len, parts)) + spec['extra']
        blob = pickle.dumps(model)
        split = np.array_split(np.arange(len(parts)), spec['jobs'])
        results = runner([pickle.dumps((blob, [parts[i] for i in idx], ds)) for idx in split])
        org = np.random.default_rng([spec['order'], it])
        elbo = beer.evidence_lower_bound(datasize=ds)
        for i in org.permutation(len(results)):
            elbo += pickle.loads(results[i])
        before = nats(model)
        for p in model.bayesian_parameters():
            p.zero_stats()
        elbo.backward()
        for p in model.bayesian_parameters():
            ctx.ensure(not p.stats.abs().any(), 'a loaded objective changes the model before it is synchronised')
        same(ctx, nats(model), before, 'posterior before the update')
        elbo.sync(model)
        want = beer.evidence_lower_bound(datasize=ds)
        for x in parts:
            want += beer.evidence_lower_bound(ref, mods.t64(x), datasize=ds)
        ctx.allclose(float(elbo), float(want), 'value of the synchronised objective', rtol=1e-9,
                     scale=1 + abs(float(want)))
        ngroups = len(model.mean_field_factorization())
        got = one_step(beer, model, elbo, spec['lrate'], it % ngroups)
        exp = one_step(beer, ref, want, spec['lrate'], it % ngroups)
        same(ctx, got, exp, f'posterior after iteration {it + 1}')
        # The update must also reach what depends on the parameters.
        x = parts[0]
        a = beer.evidence_lower_bound(model, mods.t64(x))
        b = beer.evidence_lower_bound(ref, mods.t64(x))
        ctx.allclose(float(a), float(b), 'objective after the update', rtol=1e-9, scale=1 + abs(float(b)))


jobspecs = {'kind': st.sampled_from(FRAMEWISE + SEQ), **specs,
            'jobs': st.integers(1, 3), 'iters': st.integers(1, 3)}


@facet(st.fixed_dictionaries({**jobspecs, 'how': st.sampled_from(['copy', 'copy', 'fork'])}), quick=350)
def jobs(spec, ctx):
    'Objectives computed from serialised models and serialised back update the original model.'
    check_jobs(spec, ctx, lambda blobs: run_jobs(blobs, spec['how']))


SERVER = '''
import sys, pickle, struct
sys.path.insert(0, sys.argv[1])
from props import c07
inp, out = sys.stdin.buffer, sys.stdout.buffer
while True:
    head = inp.read(4)
    if len(head) < 4:
        break
    try:
        res = b'1' + c07.job(inp.read(struct.unpack('>I', head)[0]))
    except Exception as err:
        res = b'0' + repr(err).encode()
    out.write(struct.pack('>I', len(res)) + res)
    out.flush()
'''
_server = []


def fresh(blobs):
    import struct
    if not _server or _server[0].poll() is not None:
        _server[:] = [subprocess.Popen([sys.executable, '-B', '-W', 'ignore', '-c', SERVER, core.HERE],
                                       stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                       env={**os.environ, 'PYTHONPATH': core.REPO + ':' + ':'.join(
                                           p for p in sys.path if 'veriftools' in p)})]
    srv = _server[0]
    out = []
    for b in blobs:
        try:
            srv.stdin.write(struct.pack('>I', len(b)) + b)
            srv.stdin.flush()
            n = srv.stdout.read(4)
            res = srv.stdout.read(struct.unpack('>I', n)[0])
        except (OSError, struct.error) as err:
            raise core.HarnessError(f'fresh interpreter: {err!r}')
        if res[:1] != b'1':
            raise core.Violation(f'computing the objective in a fresh interpreter: {res[1:].decode()}')
        out.append(res[1:])
    return out


@facet(st.fixed_dictionaries(jobspecs), quick=60, shards=1)
def other_process(spec, ctx):
    'The same with objectives computed by another (fresh) interpreter.'
    check_jobs(spec, ctx, fresh)


@facet(st.fixed_dictionaries({
    'n1': st.integers(1, 50), 'n2': st.integers(1, 50), 'empty': st.booleans(),
    'seed': st.integers(0, 10 ** 6)}), quick=80, shards=1)
def mismatch(spec, ctx):
    'Objectives for different data-set sizes, or other objects, are not added.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    model = mods.normal_model('full', 2, rng)
    x = mods.t64(rng.normal(size=(3, 2)))
    a = beer.evidence_lower_bound(model, x, datasize=spec['n1'])
    b = beer.evidence_lower_bound(datasize=spec['n2']) if spec['empty'] else \
        beer.evidence_lower_bound(model, x, datasize=spec['n2'])
    ctx.nontrivial(spec['n1'] != spec['n2'])
    if spec['n1'] == spec['n2']:
        a + b
    else:
        ctx.raises(ValueError, lambda: a + b, 'different data-set sizes')
        ctx.raises(ValueError, lambda: b + a, 'different data-set sizes')
    ctx.raises(ValueError, lambda: a + 1., 'sum with a number')


@facet(st.fixed_dictionaries({
    'cov': covs, 'dim': st.integers(1, 2), 'k': st.integers(1, 3), 'na': st.integers(1, 6), 'nb': st.integers(1, 6),
    'share': st.booleans(), 'extra': st.sampled_from([0, 9]), 'seed': st.integers(0, 10 ** 6)}), quick=200)
def several_models(spec, ctx):
    'Objectives of models with other (or partly the same) parameters add up per parameter.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    k, dim = spec['k'], spec['dim']
    cat = mods.random_categorical(k, rng)
    sets = [mods.normal_set(spec['cov'], dim, k, rng) for _ in range(2)]
    a = beer.Mixture(cat, sets[0])
    b = beer.Mixture(cat if spec['share'] else mods.random_categorical(k, rng), sets[1])
    xa, xb = rng.normal(size=(spec['na'], dim)), rng.normal(size=(spec['nb'], dim))
    n = spec['na'] + spec['nb']
    ds = n + spec['extra']
    ctx.label('shared parameter', spec['share'])
    ctx.nontrivial()
    want = {}
    for m, x, s in ((a, xa, sets[0]), (b, xb, sets[1])):
        r = m.posteriors(mods.t64(x)).numpy()
        for i, p in enumerate(mods.conj_params(s)):
            want[p] = np.stack([mods.T(mods.family_of(p.prior), x).T @ r[:, j] for j in range(k)])
        p = m.categorical.weights
        want[p] = want.get(p, 0) + mods.T('dirichlet', r).sum(0)
    elbo = beer.evidence_lower_bound(a, mods.t64(xa), datasize=ds) + \
        beer.evidence_lower_bound(b, mods.t64(xb), datasize=ds)
    elbo.backward()
    for p, s in want.items():
        ctx.allclose(p.stats, ds / n * s, 'statistics', rtol=1e-8, scale=1 + float(np.abs(s).max()))
