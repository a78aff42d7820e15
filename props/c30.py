"""C30: numeric helpers."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy import special

from vf import mods
from vf.core import facet

RULE = ('A case is a tensor (any shape, scale and infinities), a matrix, a differentiable map or a set of Normal densities.  '
        'Non-trivial: several entries.')
ASSUMPTIONS = ['no NaN in the inputs', 'matrices to be projected have a positive eigenvalue',
               'inputs of maps are contiguous leaf tensors']


@facet(st.fixed_dictionaries({
    'shape': st.lists(st.integers(1, 5), min_size=1, max_size=3), 'dim': st.integers(-3, 2),
    'scale': st.sampled_from([0., 1., 30., 1e3, 1e6, 1e30]), 'offset': st.sampled_from([0., 0., -1e5, 1e5, -1e20]),
    'ninf': st.sampled_from([0., 0., .3, .9, 1.]), 'pinf': st.sampled_from([0., 0., 0., .1]),
    'dtype': st.sampled_from(['float64', 'float64', 'float32']), 'layout': st.booleans(),
    'seed': st.integers(0, 10 ** 6)}), quick=2500, thorough=50000, shards=2)
def logsumexp(spec, ctx):
    'Exact and stable log-sum-exp over any dimension, with its gradient.'
    from beer.utils import logsumexp as lse
    rng = np.random.default_rng(spec['seed'])
    x = rng.normal(size=spec['shape']) * spec['scale'] + spec['offset']
    x[rng.random(size=x.shape) < spec['ninf']] = -np.inf
    x[rng.random(size=x.shape) < spec['pinf']] = np.inf
    dim = spec['dim'] % x.ndim
    dim = dim - x.ndim if spec['dim'] < 0 else dim
    t = torch.from_numpy(x).to(getattr(torch, spec['dtype']))
    if spec['layout'] and t.ndim > 1:
        t = t.transpose(0, 1).contiguous().transpose(0, 1)
    x = t.double().numpy()
    keep = t.clone()
    got = lse(t, dim)
    ctx.ensure(torch.equal(t, keep), 'the input is modified')
    ctx.equal(got.dtype, t.dtype, 'type')
    # Reference: independent of scipy's handling of infinities.
    m = x.max(axis=dim, keepdims=True)
    with np.errstate(invalid='ignore', over='ignore', divide='ignore'):
        ref = np.where(np.isinf(m), m, m + np.log(np.exp(x - m).sum(axis=dim, keepdims=True))).squeeze(dim)
    eps = 1e-12 if spec['dtype'] == 'float64' else 1e-5
    ctx.label('infinite', bool(np.isinf(x).any()))
    ctx.nontrivial(x.shape[dim] > 1)
    ctx.allclose(got, ref, 'log-sum-exp', eps, eps)
    if dim == 0:
        ctx.allclose(lse(t), ref, 'log-sum-exp, default dimension', eps, eps)
    ctx.allclose(lse(t + 3., dim), ref + 3., 'log-sum-exp of shifted values', eps, eps)
    # (The gradient of huge values depends on the rounding of the result.)
    if np.isfinite(x).all() and np.abs(x).max() < 1e4 and spec['dtype'] == 'float64':
        v = t.clone().contiguous().requires_grad_(True)
        lse(v, dim).sum().backward()
        ctx.allclose(v.grad, special.softmax(x, axis=dim), 'gradient of log-sum-exp', 1e-9, 1e-12)


@facet(st.fixed_dictionaries({
    'labels': st.lists(st.integers(0, 6), min_size=1, max_size=12), 'extra': st.integers(0, 3),
    'dtype': st.sampled_from(['float32', 'float64']), 'as': st.sampled_from(['list', 'tensor', 'tuple'])}),
    quick=500, thorough=5000)
def onehot(spec, ctx):
    'One active entry per label.'
    from beer.utils import onehot as f
    labels = spec['labels']
    n = max(labels) + 1 + spec['extra']
    arg = {'list': list, 'tuple': lambda l: list(l), 'tensor': torch.LongTensor}[spec['as']](labels)
    got = f(arg, n, dtype=getattr(torch, spec['dtype']), device=torch.device('cpu'))
    ctx.nontrivial(len(set(labels)) > 1)
    ctx.equal(got.dtype, getattr(torch, spec['dtype']), 'type')
    ctx.allclose(got, np.eye(n)[labels], 'one-hot encoding', 0, 0)
    ctx.raises(IndexError, lambda: f([n], n, dtype=torch.float32, device=torch.device('cpu')), 'label out of range')


@facet(st.fixed_dictionaries({
    'dim': mods.sizes(1, 6, (7, 40), 20), 'threshold': st.sampled_from([None, 1e-1, 1e-3, .5, 1e-6]), 'scale': st.sampled_from([1e-4, 1., 1e4]),
    'spectrum': st.sampled_from(['good', 'bad', 'negative', 'equal']), 'asym': st.booleans(), 'seed': st.integers(0, 10 ** 6)}),
    quick=1000, thorough=20000)
def projection(spec, ctx):
    'Symmetric part with its eigenvalues raised to a fraction of the largest one.'
    from beer.utils import make_symposdef, symmetrize_matrix
    rng = np.random.default_rng(spec['seed'])
    d = spec['dim']
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    th = .1 if spec['threshold'] is None else spec['threshold']
    ev = {'good': rng.uniform(max(th, .2), 1, size=d), 'bad': 10 ** rng.uniform(-8, 0, size=d),
          'negative': rng.normal(size=d), 'equal': np.ones(d)}[spec['spectrum']]
    ev[0] = 1.
    ev = ev * spec['scale']
    if spec['spectrum'] == 'negative':
        ev[0] = np.abs(ev).max() * 1.1
    sym = (q * ev) @ q.T
    sym = .5 * (sym + sym.T)
    mat = sym
    if spec['asym']:
        a = rng.normal(size=(d, d)) * spec['scale']
        mat = sym + (a - a.T)
    ctx.label(spec['spectrum'])
    ctx.nontrivial(d > 1)
    tm = mods.t64(mat)
    s = symmetrize_matrix(tm)
    big = np.abs(mat).max()
    ctx.allclose(s, sym, 'symmetric part', 1e-12, 0, scale=big)
    ctx.ensure(torch.equal(s, s.t()), 'symmetric part is not symmetric')
    got = make_symposdef(tm) if spec['threshold'] is None else make_symposdef(tm, spec['threshold'])
    ref = (q * np.maximum(ev, th * ev.max())) @ q.T
    ctx.allclose(got, ref, 'projection', 1e-9, 0, scale=big)
    ctx.ensure(torch.equal(tm, mods.t64(mat)), 'the input is modified')
    g = got.numpy()
    ctx.allclose(g, g.T, 'symmetry of the projection', 1e-10, 0, scale=big)
    ctx.ensure(np.linalg.eigvalsh(.5 * (g + g.T)).min() >= th * ev.max() * (1 - 1e-6) - 1e-12 * big, 'eigenvalues of the projection')
    if ev.min() > th * ev.max():
        ctx.allclose(got, sym, 'projection of a positive definite matrix', 1e-10, 0, scale=big)


@facet(st.fixed_dictionaries({
    'n': st.integers(1, 4), 'shapes': st.lists(st.lists(st.integers(1, 3), min_size=1, max_size=2), min_size=1, max_size=3),
    'unused': st.integers(-1, 2), 'dirty': st.booleans(), 'again': st.booleans(),
    'seed': st.integers(0, 10 ** 6)}), quick=500, thorough=10000)
def jacobian(spec, ctx):
    'Jacobian matrices of the outputs with respect to every input.'
    from beer.utils import jacobians
    rng = np.random.default_rng(spec['seed'])
    ins = [mods.t64(rng.normal(size=s)).requires_grad_(True) for s in spec['shapes']]
    n = spec['n']
    W = [rng.normal(size=(n, v.numel())) for v in ins]
    V = [rng.normal(size=(n, v.numel())) for v in ins]
    used = [i for i in range(len(ins)) if i != spec['unused'] or len(ins) == 1]

    def fn(vals, lib):
        y = 0
        for i in used:
            w, v = (mods.t64(W[i]), mods.t64(V[i])) if lib is torch else (W[i], V[i])
            y = y + lib.tanh(w @ vals[i]) * (v @ vals[i]) + w @ vals[i] ** 2
        return y
    if spec['dirty']:
        for v in ins:
            v.grad = torch.ones_like(v)
    before = [v.detach().clone() for v in ins]
    out = fn([v.reshape(-1) for v in ins], torch)
    got = jacobians(out, ins)
    if spec['again']:
        # The outputs are still those of a graph: asked again, and used in a further function.
        ctx.label('outputs used again')
        for a, b in zip(jacobians(out, ins), got):
            ctx.allclose(a, b, 'Jacobian of the same outputs, second time', 1e-12, 1e-12)
        for a, b in zip(jacobians(3 * out[:1], ins), got):
            ctx.allclose(a, 3 * b[:1], 'Jacobian of a function of the outputs', 1e-10, 1e-12)
    for a, b in zip(ins, before):
        ctx.allclose(a, b, 'inputs after the call', 0, 0)
    ctx.equal(len(got), len(ins), 'number of matrices')
    ctx.label('unused input', len(used) < len(ins))
    ctx.nontrivial(n > 1 and sum(v.numel() for v in ins) > 1)
    for i, v in enumerate(ins):
        x = v.detach().numpy().ravel()
        if i in used:
            a, b = W[i] @ x, V[i] @ x
            ref = (1 - np.tanh(a) ** 2)[:, None] * W[i] * b[:, None] + np.tanh(a)[:, None] * V[i] + 2 * W[i] * x
        else:
            ref = np.zeros((n, len(x)))
        ctx.allclose(got[i], ref, f'Jacobian with respect to the input {i}', 1e-10, 1e-12, scale=1)


@facet(st.fixed_dictionaries({'sizes': st.lists(st.tuples(st.integers(1, 5), st.integers(1, 4)), min_size=1, max_size=3),
                              'seed': st.integers(0, 10 ** 6)}), quick=300, thorough=5000)
def outer_products(spec, ctx):
    'Sum of the outer products of gradients.'
    from beer.utils import approximate_hessian
    rng = np.random.default_rng(spec['seed'])
    grads = [rng.normal(size=s) for s in spec['sizes']]
    got = approximate_hessian([mods.t64(g) for g in grads])
    ctx.nontrivial(len(grads) > 1)
    ctx.equal(len(got), len(grads), 'number of matrices')
    for a, g in zip(got, grads):
        ctx.allclose(a, g.T @ g, 'sum of outer products', 1e-10, 1e-12, scale=1)


@facet(st.fixed_dictionaries({
    'n': st.integers(1, 3), 'dim': st.integers(1, 3), 'ns': st.integers(1, 4), 'dtype': st.sampled_from(['float32', 'float64']),
    'seed': st.integers(0, 10 ** 6)}), quick=300, thorough=4000)
def samples(spec, ctx):
    'Reparameterised samples of Normal densities.'
    from beer.utils import sample_from_normals as f
    rng = np.random.default_rng(spec['seed'])
    dt = getattr(torch, spec['dtype'])
    m, v = (mods.t64(a).to(dt).requires_grad_(True) for a in (rng.normal(size=(spec['n'], spec['dim'])) * 5,
                                                             rng.gamma(1., size=(spec['n'], spec['dim'])) + .01))
    ctx.nontrivial(spec['n'] > 1)
    torch.manual_seed(spec['seed'])
    s = f(m, v, spec['ns'])
    ctx.equal(tuple(s.shape), (spec['ns'], spec['n'], spec['dim']), 'shape')
    ctx.equal(s.dtype, dt, 'type')
    torch.manual_seed(spec['seed'])
    z = f(torch.zeros_like(m), torch.ones_like(v), spec['ns']).detach()
    ctx.allclose(s, (m + v.sqrt() * z).detach(), 'samples', 1e-5, 1e-5)
    s.sum().backward()
    ctx.allclose(m.grad, np.full(m.shape, float(spec['ns'])), 'gradient with respect to the means', 1e-5, 1e-5)
    ctx.allclose(v.grad, (z.sum(0) / (2 * v.sqrt())).detach(), 'gradient with respect to the variances', 1e-4, 1e-4)
    # Moments of many samples: 7 standard errors.
    N = 4000
    many = f(m.detach(), v.detach(), N).double().numpy()
    z = (many - m.detach().double().numpy()) / np.sqrt(v.detach().double().numpy())
    ctx.allclose(z.mean(0), np.zeros(z.shape[1:]), 'mean of the samples', 0, 7 / np.sqrt(N))
    ctx.allclose((z ** 2).mean(0), np.ones(z.shape[1:]), 'variance of the samples', 0, 7 * np.sqrt(2 / N))
    if z[0].size > 1:
        flat = z.reshape(N, -1)
        c = flat.T @ flat / N - np.eye(flat.shape[1])
        ctx.allclose(c[~np.eye(len(c), dtype=bool)], np.zeros(c.size - len(c)), 'independence of the samples', 0, 7 / np.sqrt(N))
