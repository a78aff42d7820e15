"""C25: training by files."""
import pickle
import random
import re

import numpy as np
import torch
from hypothesis import strategies as st

from vf import cli, mods
from vf.core import facet
from props import c23, c24

RULE = ('A case is a phone loop built by the commands, a data set, a split of its utterances over several accumulators '
        '(with unknown and empty ones), options and a number of iterations.  Non-trivial: several units, several '
        'accumulators.')
ASSUMPTIONS = ['the reference is the training loop of the library in one process (judged by C11 to C15)',
               'every state has a self-loop and utterances are long enough for the alignment',
               'float32 models: comparison up to rounding', 'at least one utterance has features; batches divide the data']

CASE = st.fixed_dictionaries({
    'world': c23.worlds(3, loops=True, noise=(1., .3)), 'prior': st.sampled_from(c24.PRIORS),
    'utts': st.one_of(*[st.lists(c24.UTT, min_size=2, max_size=4)] * 20, st.lists(c24.UTT, min_size=9, max_size=14)), 'scale': st.sampled_from([None, 1., .3, 2.]),
    'list': st.just([]), 'how': st.just('all'), 'ids': c24.IDS})


def compare(ctx, got, want, what):
    'Same posteriors (float32 rounding).'
    pg, pw = mods.conj_params(got), mods.conj_params(want)
    ctx.equal(len(pg), len(pw), f'{what}: number of parameters')
    for a, b in zip(pg, pw):
        for kind in ('prior', 'posterior'):
            u = getattr(a, kind).natural_parameters().detach().double().numpy()
            v = getattr(b, kind).natural_parameters().detach().double().numpy()
            ctx.allclose(u, v, f'{what}: {kind} {type(a.prior).__name__}', 2e-3, 1e-4, scale=np.abs(v).max() * .02)
    for name in ('init_log_probs', 'final_log_probs', 'trans_log_probs'):
        ctx.allclose(getattr(got.graph, name).exp(), getattr(want.graph, name).exp(), f'{what}: {name}', 2e-3, 1e-4)


def moved(a, b):
    return any(not torch.allclose(p.posterior.natural_parameters(), q.posterior.natural_parameters(), rtol=1e-3, atol=1e-4)
               for p, q in zip(mods.conj_params(a), mods.conj_params(b)))


def library_pass(model, ds, ids, graphs, scale):
    import beer
    elbo = beer.evidence_lower_bound(datasize=ds.size)
    for u in ids:
        elbo += beer.evidence_lower_bound(model, ds[u].features, inference_graph=graphs.get(u), datasize=ds.size,
                                          scale=scale)
    return elbo


def optimizer(model, lrate):
    import beer
    return beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), lrate=lrate)


def printed(res):
    m = re.findall(r'ELBO=\s*(-?[0-9.]+(?:e[-+]?[0-9]+)?)', res.err)
    return float(m[-1]) if m else None


@facet(st.fixed_dictionaries({
    'case': CASE, 'alis': st.booleans(), 'parts': st.integers(1, 4), 'assign': st.lists(st.integers(0, 9), min_size=4, max_size=4),
    'subset': st.booleans(), 'unknown': st.booleans(), 'iters': st.integers(1, 3), 'lrate': st.sampled_from([None, 1., .5]),
    'state': st.booleans(), 'order': st.integers(0, 5), 'inplace': st.booleans()}), quick=200, shards=4)
def distributed(spec, ctx):
    'Accumulators over any split and updates from their files make the model of one process.'
    s = c24.Setup(spec['case'], ctx)
    w = s.w
    opt, graphs = [], {}
    if spec['alis']:
        import os
        ctx.label('alignments')
        os.mkdir(w.path('ali'))
        text = ''.join(f'{u} {" ".join(s.trans[u])}\n' for u in sorted(s.ali))
        cli.ok(ctx, 'hmm', 'mkaligraph', w.path('hmms'), w.path('ali'), stdin=text)
        cli.ok(ctx, 'features', 'archive', w.path('ali'), w.path('ali.npz'))
        opt += ['-a', w.path('ali.npz')]
        graphs = {u: np.load(w.path(f'ali/{u}.npy'), allow_pickle=True)[0] for u in s.ali}
    if spec['case']['scale'] is not None:
        opt += ['-s', s.scale]
    # Split of the utterances.
    ids = sorted(s.utts)
    if spec['subset']:
        ids = ids[:max(1, len(ids) - 1)]
    parts = [[] for _ in range(spec['parts'])]
    for i, u in enumerate(ids):
        parts[spec['assign'][i % 4] % len(parts)].append(u)
    if spec['unknown']:
        for i, p in enumerate(parts):
            p.insert(min(i, len(p)), f'missing{i}')
    parts = [p for p in parts if p]
    ctx.label('no known utterance', any(not set(p) & set(ids) for p in parts))
    ctx.label(f'{len(parts)} accumulators')
    ctx.nontrivial(len(w.names) > 1 and len(parts) > 1)

    ds = w.load('data')
    ref = w.load('model')
    start = w.load('model')
    lrate = 1. if spec['lrate'] is None else spec['lrate']
    opt_ref = optimizer(ref, lrate)
    model = 'model'
    for it in range(spec['iters']):
        files = []
        for i, p in enumerate(parts):
            cli.ok(ctx, 'hmm', 'accumulate', *opt, w.path(model), w.path('data'), w.path(f'acc{i}'),
                   stdin=''.join(u + '\n' for u in p))
            files.append(w.path(f'acc{i}'))
            with open(files[-1], 'rb') as f:
                ctx.equal(pickle.load(f)[1], len([u for u in p if u in s.utts]), 'number of accumulated utterances')
        rot = spec['order'] % len(files)
        files = files[rot:] + files[:rot]
        out = model if spec['inplace'] else f'model{it + 1}'
        uopt = [] if spec['lrate'] is None else ['-l', lrate]
        if spec['state']:
            uopt += ['-o', w.path('optim')]
        res = cli.ok(ctx, 'hmm', 'update', *uopt, w.path(model), w.path(out), stdin=''.join(f + '\n' for f in files))
        # The library, in one process.
        if not spec['state']:
            opt_ref = optimizer(ref, lrate)        # as every update starts a new optimiser
        opt_ref.init_step()
        elbo = library_pass(ref, ds, ids, graphs, s.scale)
        elbo.backward()
        opt_ref.step()
        if spec['state']:
            ctx.equal(torch.load(w.path('optim')), opt_ref.state_dict(), f'state of the optimiser after {it + 1} update(s)')
        model = out
        got = w.load(model)
        compare(ctx, got, ref, f'model after {it + 1} iteration(s)')
        shown = printed(res)
        if shown is not None:
            ctx.label('printed bound')
            want = float(elbo) / (len(ids) * ds.size)
            ctx.allclose(shown, want, 'printed bound', 1e-3, 2e-3)
        if not spec['inplace']:
            compare(ctx, w.load('model'), start, 'the first model')
        if any(p.prior is None for p in mods.conj_params(got)):
            ctx.fail('lost prior')
    ctx.ensure(moved(got, start), 'training has no effect')
    ctx.label('trained')


@facet(st.fixed_dictionaries({
    'case': CASE, 'epochs': st.integers(1, 3), 'lrate': st.sampled_from([None, 1., .5]),
    'batch': st.sampled_from([None, -1, 1, 2, 'all']), 'seed': st.integers(0, 99)}), quick=120, shards=4)
def single(spec, ctx):
    'Training on one machine: epochs and batches of the library loop, or the distributed result.'
    import beer
    spec = dict(spec, case=dict(spec['case'], scale=None))
    s = c24.Setup(spec['case'], ctx)
    w = s.w
    ds = w.load('data')
    n = len(s.utts)
    batch = n if spec['batch'] == 'all' else spec['batch']
    if batch is not None and batch > 0 and n % batch:
        batch = 1
    ctx.nontrivial(len(w.names) > 1)
    opt = ['-e', spec['epochs']]
    opt += [] if spec['lrate'] is None else ['-l', spec['lrate']]
    opt += [] if batch is None else ['-b', batch]
    cli.ok(ctx, '-s', spec['seed'], 'hmm', 'train', *opt, w.path('model'), w.path('data'), w.path('trained'))
    got, ref, start = w.load('trained'), w.load('model'), w.load('model')
    size = n if batch is None or batch < 0 else batch
    optim = optimizer(ref, 1. if spec['lrate'] is None else spec['lrate'])
    random.seed(spec['seed'])
    for _ in range(spec['epochs']):
        ids = [u.id for u in ds.utterances()]
        ctx.equal(sorted(ids), sorted(s.utts), 'utterances of an epoch')
        for i in range(0, n, size):
            optim.init_step()
            library_pass(ref, ds, ids[i:i + size], {}, 1.).backward()
            optim.step()
    compare(ctx, got, ref, 'trained model')
    ctx.ensure(moved(got, start), 'training has no effect')
    compare(ctx, w.load('model'), start, 'the first model')
    if size == n and spec['epochs'] == 1:
        ctx.label('against the distributed commands')
        cli.ok(ctx, 'hmm', 'accumulate', w.path('model'), w.path('data'), w.path('acc'),
               stdin=''.join(u + '\n' for u in sorted(s.utts)))
        cli.ok(ctx, 'hmm', 'update', *([] if spec['lrate'] is None else ['-l', spec['lrate']]), w.path('model'),
               w.path('dist'), stdin=w.path('acc') + '\n')
        compare(ctx, w.load('dist'), got, 'distributed model')
