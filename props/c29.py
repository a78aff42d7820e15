"""C29: serialisation, copies, change of type."""
import copy
import io
import os
import pickle
import subprocess
import sys

import numpy as np
import torch
from hypothesis import strategies as st

from vf import mods, probe, zoo
from vf.core import REPO, facet
from props import c17, c18

RULE = ('A case is a model (any family, possibly a selection from a set, possibly trained), data and a history of '
        'serialisations, copies and updates.  Non-trivial: the model was trained, or is a composed model.')
ASSUMPTIONS = ['copies behave as the original up to rounding', 'networks inside auto-encoders are those of the library',
               'change of type: comparison at single precision on well-conditioned models']

SIMPLE = ['normal', 'normalset', 'categorical', 'categoricalset', 'mixture', 'mixtureset', 'jointset', 'jointmixture', 'nested']
SEQ = ['hmm', 'hmm-mixture', 'hmm-joint', 'jointhmm', 'phoneloop', 'phoneloop-dp', 'phoneloop-dphyper', 'bigram']
KINDS = SIMPLE + SEQ + ['sb', 'sbhyper', 'view-normal', 'view-mixture', 'slice-mixtureset', 'vae', 'gsm', 'gamma']
MODEL = {'kind': st.sampled_from(KINDS), 'cov': st.sampled_from(['isotropic', 'diagonal', 'full']),
         'dim': st.integers(1, 3), 'k': st.integers(2, 4), 'seed': st.integers(0, 10 ** 6)}


def build(spec, rng):
    'The model and the kind handed to the probe.'
    import beer
    kind, cov, dim, k = spec['kind'], spec['cov'], spec['dim'], spec['k']
    torch.manual_seed(spec['seed'])
    if kind in ('normal', 'normalset', 'categorical', 'categoricalset', 'mixture', 'mixtureset', 'hmm', 'hmm-mixture',
                'phoneloop', 'bigram', 'jointmixture', 'nested', 'jointhmm'):
        return zoo.random_model(kind, cov, dim, k, rng), kind
    if kind == 'jointset':
        return zoo.emissions('joint', cov, dim, k, rng), kind
    if kind == 'hmm-joint':
        i, f, t, ids = zoo.random_graph(k + 1, k, rng)
        return beer.HMM.create(zoo.compiled(i, f, t, ids), zoo.emissions('joint', cov, dim, k, rng)), kind
    if kind in ('phoneloop-dp', 'phoneloop-dphyper'):
        prior = {'phoneloop-dp': 'dirichlet_process', 'phoneloop-dphyper': 'hyper'}[kind]
        return zoo.phone_loop([2] * k, zoo.emissions('normal', cov, dim, 2 * k, rng), rng, prior), kind
    if kind == 'sb':
        return beer.SBCategorical.create(k, prior_strength=float(rng.uniform(.5, 3))).double(), kind
    if kind == 'sbhyper':
        return beer.SBCategoricalHyperPrior.create(k, prior_strength=1.5, hyper_prior_strength=2.).double(), kind
    if kind == 'view-normal':
        return mods.normal_set(cov, dim, k, rng)[int(rng.integers(k))], kind
    if kind == 'view-mixture':
        return zoo.emissions('mixture', cov, dim, k, rng)[int(rng.integers(k))], kind
    if kind == 'slice-mixtureset':
        return zoo.emissions('mixture', cov, dim, k, rng)[1:], 'slice-mixtureset'
    if kind == 'gamma':
        return beer.Gamma.create(mods.t64(rng.gamma(2., size=1) + .5), mods.t64(rng.gamma(2., size=1) + .5)), kind
    if kind == 'vae':
        enc = beer.nnet.ResidualFeedForwardNet(dim, nblocks=1, block_width=4)
        dec = beer.nnet.ResidualFeedForwardNet(2, nblocks=1, block_width=4)
        vae = beer.VAE(c18.make_prior(['normal', 'mixture', 'hmm'][k % 3], cov, 2, rng), enc, dec).double()
        return vae, kind
    if kind == 'gsm':
        s = {'kind': c17.KINDS[spec['seed'] % len(c17.KINDS)], 'cov': cov, 'dim': dim, 'k': k, 'latent': 2, 'pcov': 'full'}
        gsm, _, _ = c17.make_gsm(s, rng)
        models, posts = gsm.new_models(2, ['diagonal', 'full'][k % 2])
        c17.give_stats(None, models, s, rng)
        return (gsm, models, posts), kind
    raise ValueError(kind)


def data(spec, rng, n=None):
    kind, dim, k = spec['kind'], spec['dim'], spec['k']
    n = n or (14 if kind == 'jointhmm' else 9)
    if kind in ('categorical', 'sb', 'sbhyper'):
        x = np.eye(k)[rng.integers(0, k, size=n)]
    elif kind == 'categoricalset':
        x = np.eye(3)[rng.integers(0, 3, size=n)]
    elif kind == 'gamma':
        x = rng.gamma(2., size=(n, 1)) + .1
    else:
        x = rng.normal(size=(n, dim)) * 1.5
    return mods.t64(x), mods.t64(rng.dirichlet(np.ones(8), size=n))


def trainable(kind):
    return kind not in ('gsm', 'vae', 'gamma') and not kind.startswith(('view', 'slice'))


def step(model, spec, x, resps, lrate):
    'One training step.'
    kind = spec['kind']
    if kind == 'gsm':
        import beer
        gsm, models, posts = model
        torch.manual_seed(3)
        opt = torch.optim.Adam(list(posts.parameters()) + list(gsm.parameters()), lr=1e-2)
        cjg = beer.VBConjugateOptimizer(gsm.conjugate_bayesian_parameters(keepgroups=True), lrate=lrate)
        optim = beer.VBOptimizer(cjg, opt)
        optim.init_step()
        beer.evidence_lower_bound(gsm, models, latent_posts=posts).backward()
        optim.step()
    elif kind == 'vae':
        import beer
        torch.manual_seed(3)
        cjg = beer.VBConjugateOptimizer(model.conjugate_bayesian_parameters(keepgroups=True), lrate=lrate)
        optim = beer.VBOptimizer(cjg, torch.optim.Adam(model.parameters(), lr=1e-2))
        optim.init_step()
        beer.evidence_lower_bound(model, x).backward()
        optim.step()
    elif trainable(kind):
        probe.train(model, x, resps, lrate)


def torch_copy(m):
    f = io.BytesIO()
    torch.save(m, f)
    f.seek(0)
    return torch.load(f, weights_only=False)


COPIES = {'pickle': lambda m: pickle.loads(pickle.dumps(m)), 'protocol 2': lambda m: pickle.loads(pickle.dumps(m, 2)),
          'deepcopy': copy.deepcopy, 'torch': torch_copy}


def same(ctx, got, want, what, rtol=1e-9, atol=1e-9):
    ctx.equal(sorted(got), sorted(want), f'{what}: quantities')
    for k in want:
        if k == 'path':
            ctx.equal([int(v) for v in got[k]], [int(v) for v in want[k]], f'{what}: decoded path')
        else:
            w = np.asarray(want[k])
            ctx.allclose(got[k], w, f'{what}: {k}', rtol, atol, scale=1 + np.abs(w[np.isfinite(w)]).max(initial=0))


def same_state(ctx, got, want, what):
    ctx.equal(len(got), len(want), f'{what}: number of parameters')
    for a, b in zip(got, want):
        ctx.allclose(a, b, f'{what}: parameters of the posterior', 1e-9, 1e-9, scale=1 + np.abs(b).max())


def pre_train(spec, model, rng, ctx):
    n = spec['before']
    for _ in range(n):
        x, r = data(spec, rng)
        step(model, spec, x, r, .7)
    ctx.label('trained before', n > 0 and (trainable(spec['kind']) or spec['kind'] in ('gsm', 'vae')))


@facet(st.fixed_dictionaries({**MODEL, 'before': st.integers(0, 2),
                              'ops': st.lists(st.tuples(st.sampled_from(['copy', 'train', 'train both']),
                                                        st.sampled_from(sorted(COPIES)), st.integers(0, 3)),
                                              min_size=1, max_size=5)}), quick=800, thorough=15000, shards=4)
def twins(spec, ctx):
    'Copies made at any point of a training history behave as the original, and are independent of it.'
    rng = np.random.default_rng(spec['seed'])
    model, kind = build(spec, rng)
    ctx.label(kind)
    pre_train(spec, model, rng, ctx)
    x, _ = data(spec, rng)
    # Twin histories: those of the same history number behave equally.
    pool = [(model, 0)]
    seen = {0: probe.probe(model, x, kind)}
    states = {0: probe.state(model, kind)}
    ops = [['copy', 'pickle', 0]] + [list(o) for o in spec['ops']]
    ctx.nontrivial(spec['before'] > 0 or kind in SEQ or 'mixture' in kind)
    for i, (op, how, which) in enumerate(ops):
        m, h = pool[which % len(pool)]
        if op == 'copy':
            if len(pool) < 5:
                pool.append((COPIES[how](m), h))
                ctx.label(how)
        else:
            # Train one model (a new history), or all those of its history.
            xt, r = data(spec, rng)
            targets = [j for j, (_, g) in enumerate(pool) if g == h] if op == 'train both' else [which % len(pool)]
            new = i + 1
            for j in targets:
                step(pool[j][0], spec, xt, r, .5)
                pool[j] = (pool[j][0], new)
            seen[new] = probe.probe(pool[targets[0]][0], x, kind)
            states[new] = probe.state(pool[targets[0]][0], kind)
            ctx.label('trained')
        for j, (m2, h2) in enumerate(pool):
            same(ctx, probe.probe(m2, x, kind), seen[h2], f'model {j} after operation {i} ({op}, {how})')
            same_state(ctx, probe.state(m2, kind), states[h2], f'model {j} after operation {i} ({op}, {how})')


@facet(st.fixed_dictionaries({
    'models': st.lists(st.fixed_dictionaries({**MODEL, 'before': st.integers(0, 1)}), min_size=8, max_size=24)}),
    quick=14, thorough=200, shards=4)
def process(spec, ctx):
    'A new process loading the models computes the same values, and the same after training.'
    jobs, want = [], []
    for s in spec['models']:
        rng = np.random.default_rng(s['seed'])
        model, kind = build(s, rng)
        pre_train(s, model, rng, ctx)
        x, r = data(s, rng)
        lrate = 1. if s['seed'] % 2 else .4
        jobs.append((pickle.dumps((model, x, r, kind, lrate)), kind))
        w = [probe.probe(model, x, kind)]
        if kind != 'gsm':
            probe.train(model, x, r, lrate)
        want.append(w + [probe.probe(model, x, kind), probe.state(model, kind)])
    ctx.nontrivial(len({k for _, k in jobs}) > 3)
    src, out = os.path.join(ctx.tmpdir(), 'jobs'), os.path.join(ctx.tmpdir(), 'out')
    with open(src, 'wb') as f:
        pickle.dump([pickle.loads(j) for j, _ in jobs], f)
    res = subprocess.run([sys.executable, '-B', probe.__file__, REPO, src, out], capture_output=True, text=True, timeout=600)
    ctx.ensure(res.returncode == 0, lambda: f'loading in a new process: {res.stderr[-400:]}')
    with open(out, 'rb') as f:
        got = pickle.load(f)
    ctx.equal(len(got), len(want), 'number of models')
    for (_, kind), g, w in zip(jobs, got, want):
        ctx.ensure(not isinstance(g, str), lambda: f'{kind} in a new process: {g}')
        ctx.label(kind)
        same(ctx, g[0], w[0], f'{kind} in a new process')
        same(ctx, g[1], w[1], f'{kind} in a new process, after training')
        same_state(ctx, g[2], w[2], f'{kind} in a new process, after training')


def tensors(model):
    yield from model.parameters()
    yield from model.buffers()


@facet(st.fixed_dictionaries({**MODEL, 'before': st.integers(0, 1), 'train': st.booleans(), 'how': st.sampled_from(['method', 'to'])}),
       quick=800, thorough=15000, shards=4)
def types(spec, ctx):
    'In single precision every tensor of the model is of that type and inference agrees; back in double it works again.'
    rng = np.random.default_rng(spec['seed'])
    model, kind = build(spec, rng)
    ctx.label(kind)
    pre_train(spec, model, rng, ctx)
    ctx.nontrivial(spec['before'] > 0 or kind in SEQ or 'mixture' in kind)
    x, r = data(spec, rng)
    x = x.float().double()
    parts = list(model[1]) + [model[0], model[2]] if kind == 'gsm' else [model]

    def convert(dtype):
        for p in parts:
            p.to(dtype) if spec['how'] == 'to' else (p.float() if dtype == torch.float32 else p.double())
        for p in parts:
            for t in tensors(p):
                if t.is_floating_point():
                    ctx.equal(t.dtype, dtype, 'type of the tensors')

    # The reference: the model with its parameters rounded.
    convert(torch.float32)
    single = probe.probe(model, x.float(), kind)
    twin = copy.deepcopy(model)
    convert(torch.float64)
    double = probe.probe(model, x, kind)
    if kind == 'vae' or kind == 'gsm':
        # Random numbers differ between types: compare what does not depend on them.
        for out in (single, double):
            for k in ('llh', 'pdfvecs', 'bound'):
                out.pop(k, None) if kind == 'gsm' or k != 'llh' else out.pop(k)
    conditioned = all(np.abs(v).max(initial=0) < 1e4 for k, v in double.items() if k in ('llh', 'kl'))
    if conditioned:
        ctx.label('compared')
        for k in double:
            w = np.asarray(double[k])
            if k == 'path':
                continue
            ctx.allclose(single[k], w, f'single precision: {k}', 5e-3, 5e-3, scale=np.abs(w).max(initial=0))
    for k in double:
        ctx.ensure(np.all(np.isfinite(single[k])), f'single precision: {k} is not finite')
    if spec['train'] and kind not in ('gsm', 'vae'):
        ctx.label('trained')
        probe.train(twin, x.float(), r.float(), .5)
        for t in tensors(twin):
            if t.is_floating_point():
                ctx.equal(t.dtype, torch.float32, 'type of the tensors after training')
        probe.train(model, x, r, .5)
        if conditioned and kind not in ('sb', 'sbhyper', 'phoneloop-dp', 'phoneloop-dphyper'):
            # (Stick-breaking sorts the components: ties may be broken differently.)
            a, b = probe.state(twin, kind), probe.state(model, kind)
            for u, v in zip(a, b):
                ctx.allclose(u, v, 'single precision: parameters after training', 2e-2, 1e-2, scale=np.abs(v).max() * .1)
