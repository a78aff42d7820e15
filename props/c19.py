"""C19: autoregressive networks, flows and probabilistic output layers."""
import math
import random

import numpy as np
import torch
from hypothesis import strategies as st

from vf import mods
from vf.core import facet

RULE = ('A case is a network or layer (sizes, depth, activation, random weights), flow steps and a batch of inputs.  '
        'Non-trivial: several dimensions and at least one hidden layer (or several frames for the output layers).')
ASSUMPTIONS = ['Jacobians are obtained by differentiating the code (autograd), densities with numpy', 'float64']

ACT = {'tanh': torch.nn.Tanh, 'relu': torch.nn.ReLU, 'sigmoid': torch.nn.Sigmoid, 'identity': torch.nn.Identity,
       'leaky': torch.nn.LeakyReLU, 'elu': torch.nn.ELU}


def arnet(spec, dim=None):
    from beer.nnet import arnet as m
    random.seed(spec['seed'])
    torch.manual_seed(spec['seed'])
    net = m.AutoRegressiveNetwork(dim or spec['dim'], spec['fdim'], spec['depth'], spec['width'],
                                  ACT[spec['act']]()).double()
    rng = np.random.default_rng(spec['seed'])
    for p in net.parameters():
        p.data = mods.t64(rng.normal(size=tuple(p.shape)) * spec.get('scale', 1.), watch=False)
    return net


def gauss(x, m, v):
    return -.5 * np.sum((x - m) ** 2 / v + np.log(v) + math.log(2 * math.pi), axis=-1)


AR = st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'dim': st.integers(1, 6), 'fdim': st.integers(0, 3),
    'depth': st.integers(1, 4), 'width': st.integers(1, 8), 'act': st.sampled_from(sorted(ACT)),
    'n': st.integers(1, 4)})


@facet(AR, quick=350, shards=2)
def order(spec, ctx):
    'Outputs (location and variance) depend on strictly earlier inputs only; frames are independent.'
    net = arnet(spec)
    D, n = spec['dim'], spec['n']
    rng = np.random.default_rng(spec['seed'] + 1)
    x = mods.t64(rng.normal(size=(n, D)) * 2)
    extra = [mods.t64(rng.normal(size=(n, spec['fdim'])))] if spec['fdim'] else []
    ctx.nontrivial(D > 1)
    ctx.label(f'depth {spec["depth"]}')
    mean, var = net(x, *extra)
    ctx.equal(tuple(mean.shape), (n, D), 'shape of the location')
    ctx.equal(tuple(var.shape), (n, D), 'shape of the variance')
    ctx.ensure((var > 0).all() and torch.isfinite(mean).all(), 'variances are positive')
    for k, out in (('location', lambda y: net(y, *extra)[0]), ('variance', lambda y: net(y, *extra)[1])):
        jac = torch.autograd.functional.jacobian(out, x).numpy()     # n x D x n x D
        for i in range(n):
            for j in range(n):
                if i != j:
                    ctx.ensure((jac[i, :, j] == 0).all(), f'{k}: frame {i} depends on frame {j}')
            ctx.ensure((np.triu(jac[i, :, i]) == 0).all(), lambda: f'{k}: depends on itself or later inputs: {jac[i, :, i]}')
    # Also beyond infinitesimal changes.
    for d in range(D):
        y = x.clone()
        y[:, d:] += mods.t64(rng.normal(size=(n, D - d)) * 10)
        m2, v2 = net(y, *extra)
        ctx.allclose(m2[:, :d + 1], mean[:, :d + 1], 'location changed with later inputs', 0, 1e-12)
        ctx.allclose(v2[:, :d + 1], var[:, :d + 1], 'variance changed with later inputs', 0, 1e-12)


@facet(st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'dim': st.integers(2, 4), 'fdim': st.integers(0, 2),
    'depth': st.integers(1, 3), 'width': st.just(80), 'act': st.sampled_from(['tanh', 'sigmoid', 'identity']),
    'scale': st.just(.1)}), quick=80, shards=1)
def complete(spec, ctx):
    'Wide networks use all the earlier inputs, and the conditioning features.'
    net = arnet(spec)
    D = spec['dim']
    rng = np.random.default_rng(spec['seed'] + 1)
    x = mods.t64(rng.normal(size=(1, D)))
    f = [mods.t64(rng.normal(size=(1, spec['fdim'])))] if spec['fdim'] else []
    ctx.nontrivial(D > 2)
    for k in (0, 1):
        jac = torch.autograd.functional.jacobian(lambda y: net(y, *f)[k], x).numpy()[0, :, 0]
        for d in range(D):
            for j in range(d):
                ctx.ensure(jac[d, j] != 0, f'output {d} ignores input {j}')
        if f and D > 1:
            jf = torch.autograd.functional.jacobian(lambda y: net(x, y)[k], f[0]).numpy()[0, :, 0]
            ctx.ensure((jf[1:] != 0).all(), 'conditioning features are ignored')


@facet(st.fixed_dictionaries({
    'order': st.lists(st.integers(0, 8), min_size=1, max_size=8),
    'conn': st.lists(st.integers(0, 8), min_size=1, max_size=8)}), quick=150, shards=1)
def masks(spec, ctx):
    'Masks link exactly the allowed units.'
    from beer.nnet import arnet as m
    o, c = spec['order'], spec['conn']
    ctx.nontrivial(len(o) > 1 and len(c) > 1)
    ctx.allclose(m.create_mask(o, c), np.array([[float(j <= i) for j in o] for i in c]), 'mask', 0, 0)
    ctx.allclose(m.create_final_mask(o, c), np.array([[float(j < i) for j in c] for i in o]), 'final mask', 0, 0)


FLOW = st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'dim': st.integers(1, 4), 'dim_in': st.integers(1, 4),
    'fdim': st.integers(1, 3), 'depth': st.integers(1, 3), 'width': st.integers(1, 8),
    'act': st.sampled_from(sorted(ACT)), 'steps': st.integers(0, 3), 'n': st.integers(1, 4),
    'base': st.sampled_from(['diagonal', 'isotropic', 'nonlin']), 'mean': st.booleans(), 'scale': st.just(.7)})


def base_layer(kind, dim_in, dim_out):
    import beer
    if kind == 'diagonal':
        return beer.nnet.NormalDiagonalCovarianceLayer(dim_in, dim_out)
    if kind == 'isotropic':
        return beer.nnet.NormalIsotropicCovarianceLayer(dim_in, dim_out)
    if kind == 'identity':
        return beer.nnet.NormalIdentityCovarianceLayer(dim_in, dim_out)
    if kind == 'bernoulli':
        return beer.nnet.BernoulliLayer(dim_in, dim_out)
    if kind == 'nonlin_iso':
        return beer.nnet.NormalIsotropicCovarianceLayer(dim_in, dim_out, variance_nonlinearity=Positive())
    return beer.nnet.NormalDiagonalCovarianceLayer(dim_in, dim_out, variance_nonlinearity=Positive())


class Positive(torch.nn.Module):
    def forward(self, x):
        return .25 + x ** 2


def randomize(module, rng, scale=1.):
    for p in module.parameters():
        p.data = mods.t64(rng.normal(size=tuple(p.shape)) * scale, watch=False)
    return module


@facet(FLOW, quick=250, shards=2)
def flow(spec, ctx):
    'The log-likelihood of a sample follows the change of variables with the true Jacobian.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    D, n = spec['dim'], spec['n']
    nets = []
    for s in range(spec['steps']):
        nets.append(arnet(dict(spec, seed=spec['seed'] + s)))
    base = base_layer(spec['base'], spec['dim_in'], D)

    def make(steps):
        return beer.nnet.InverseAutoRegressiveFlow(spec['dim_in'], spec['fdim'], base,
                                                   torch.nn.ModuleList(steps)).double()
    layer = make(nets)
    randomize(layer.normal_layer, rng)
    randomize(layer.flow_params, rng)
    x = mods.t64(rng.normal(size=(n, spec['dim_in'])))
    ctx.nontrivial(D > 1 and spec['steps'] > 0)
    ctx.label(f'{spec["steps"]} steps')
    params = layer(x)
    (means, variances), fparams = params
    h = x.numpy()
    w, b = (p.detach().numpy() for p in layer.flow_params.parameters())
    ctx.allclose(fparams, h @ w.T + b, 'flow features', 1e-9, 1e-9)
    ctx.ensure((variances > 0).all(), 'variances are positive')

    def run(lay, mm):
        torch.manual_seed(7)
        return lay.samples_and_llh(((mm, variances), fparams), use_mean=spec['mean'])
    keep = [means.detach().clone(), variances.detach().clone(), fparams.detach().clone()]
    z, llh = run(layer, means)
    ctx.equal((tuple(z.shape), tuple(llh.shape)), ((n, D), (n,)), 'shapes')
    plain = make([])
    x0, llh0 = run(plain, means)
    want0 = gauss(x0.detach().numpy(), means.detach().numpy(), variances.detach().numpy())
    ctx.allclose(llh0, want0, 'log-likelihood of the base sample', 1e-8, 1e-8)
    jac = torch.autograd.functional.jacobian(lambda mm: run(layer, mm)[0], means.detach()).numpy()
    want = want0.copy()
    for i in range(n):
        sign, ld = np.linalg.slogdet(jac[i, :, i])
        ctx.ensure(sign > 0, 'the flow is not invertible')
        ctx.ensure((np.triu(jac[i, :, i], 1) == 0).all(), 'the flow is not autoregressive')
        want[i] -= ld
    ctx.allclose(llh, want, 'log-likelihood of the transformed sample', 1e-6, 1e-6, scale=np.abs(want).max())
    ctx.ensure(torch.isfinite(z).all(), 'samples are finite')
    for a, c, name in zip((means, variances, fparams), keep, ('means', 'variances', 'features')):
        ctx.allclose(a, c, f'sampling changed the {name}', 0, 0)
    if not spec['mean']:
        # One more frame with the same parameters: another draw.
        z2, _ = layer.samples_and_llh(params)
        ctx.ensure(not torch.equal(z2, z) or D * n == 0, 'samples are not drawn')
    else:
        ctx.allclose(x0, means, 'mean of the base density', 0, 0)


LAYER = st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'dim': st.integers(1, 5), 'dim_in': st.integers(1, 4),
    'n': st.integers(1, 5), 's': st.integers(1, 3), 'scale': st.sampled_from([.1, 1., 5.]),
    'kind': st.sampled_from(['diagonal', 'isotropic', 'identity', 'nonlin', 'nonlin_iso'])})


@facet(LAYER, quick=300, shards=2)
def normal_layers(spec, ctx):
    'Parameters, densities and samples of the Normal output layers.'
    rng = np.random.default_rng(spec['seed'])
    k = spec['kind']
    D, n = spec['dim'], spec['n']
    layer = base_layer(k, spec['dim_in'], D).double()
    randomize(layer, rng, spec['scale'])
    if spec.get('bias') and k != 'identity':
        with torch.no_grad():
            layer.logvar.bias += spec['bias']
    shape = (spec['s'], n, spec['dim_in']) if spec['s'] > 1 else (n, spec['dim_in'])
    h = rng.normal(size=shape)
    params = layer(mods.t64(h))
    ctx.label(k)
    ctx.nontrivial(D > 1 and n > 1)
    lin = {name: p.detach().numpy() for name, p in layer.named_parameters()}
    wm = h @ lin['mean.weight'].T + lin['mean.bias']
    if k == 'identity':
        mean, var = params, np.ones_like(wm)
        params2 = params
    else:
        mean, var = params
        lv = h @ lin['logvar.weight'].T + lin['logvar.bias']
        want = .25 + lv ** 2 if k.startswith('nonlin') else np.logaddexp(0, lv)
        want = want * np.ones_like(wm)
        ctx.allclose(var, want, 'variance', 1e-8, 1e-9)
        if k in ('isotropic', 'nonlin_iso'):
            ctx.allclose(var, np.broadcast_to(var.detach().numpy()[..., :1], wm.shape), 'isotropic variance', 0, 0)
        var = var.detach().numpy()
        ctx.ensure((var > 0).all(), 'positive variances')
    ctx.allclose(mean, wm, 'mean', 1e-9, 1e-9)
    # The rounding of the mean may be as large as the deviation when the variance is tiny.
    wm = mean.detach().numpy().copy()
    data = wm + rng.normal(size=wm.shape) * np.sqrt(var) * 2
    ctx.allclose(layer.log_likelihood(mods.t64(data), params), gauss(data, wm, var), 'log-likelihood', 1e-7, 1e-7)
    for use_mean in (False, True):
        z, llh = layer.samples_and_llh(params, use_mean=use_mean)
        ctx.equal((tuple(z.shape), tuple(llh.shape)), (wm.shape, wm.shape[:-1]), 'shapes of the samples')
        ctx.allclose(llh, gauss(z.detach().numpy(), wm, var), 'log-likelihood of the samples', 1e-7, 1e-7)
        if use_mean:
            ctx.allclose(z, wm, 'mean sample', 1e-9, 1e-9)
    # Data broadcast over samples.
    one = data[0] if spec['s'] > 1 else data
    if spec['s'] > 1:
        got = layer.log_likelihood(mods.t64(one), params)
        ctx.allclose(got, gauss(one[None], wm, var), 'log-likelihood against several parameters', 1e-7, 1e-7)
    # Gradients flow through the samples to the mean.
    z, _ = layer.samples_and_llh(layer(mods.t64(h)))
    g, = torch.autograd.grad(z.sum(), layer.mean.bias)
    ctx.allclose(g, np.full(D, float(np.prod(wm.shape[:-1]))), 'gradient of the samples', 1e-9, 1e-9)


@facet(st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'dim': st.integers(20, 400), 'dim_in': st.just(1), 'n': st.integers(1, 3),
    's': st.integers(1, 2), 'scale': st.sampled_from([.1, 1.]), 'bias': st.sampled_from([0., -8., 8., -3.]),
    'kind': st.sampled_from(['diagonal', 'isotropic', 'identity', 'nonlin', 'nonlin_iso'])}), quick=120)
def wide_layers(spec, ctx):
    'Output layers of realistic size: densities far from one.'
    normal_layers(spec, ctx)


@facet(st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'dim': st.integers(1, 3),
    'kind': st.sampled_from(['diagonal', 'isotropic', 'identity', 'nonlin'])}), quick=40, shards=1)
def sampling(spec, ctx):
    'Moments of many samples (6 standard errors).'
    rng = np.random.default_rng(spec['seed'])
    D, N = spec['dim'], 20000
    layer = randomize(base_layer(spec['kind'], 2, D).double(), rng)
    params = layer(mods.t64(np.repeat(rng.normal(size=(1, 2)), N, axis=0)))
    m, v = (params, torch.ones_like(params)) if spec['kind'] == 'identity' else params
    m, v = m.detach().numpy()[0], v.detach().numpy()[0]
    z = layer.samples_and_llh(params)[0].detach().numpy()
    ctx.nontrivial(D > 1)
    u = (z - m) / np.sqrt(v)
    ctx.ensure((np.abs(u.mean(0)) < 6 / math.sqrt(N)).all(), lambda: f'mean of the noise {u.mean(0)}')
    ctx.ensure((np.abs((u ** 2).mean(0) - 1) < 6 * math.sqrt(2 / N)).all(), lambda: f'variance of the noise {(u**2).mean(0)}')
    for i in range(D):
        for j in range(i):
            ctx.ensure(abs((u[:, i] * u[:, j]).mean()) < 6 / math.sqrt(N), 'noise is correlated across dimensions')
    ctx.ensure(np.abs((u[1:] * u[:-1]).mean(0)).max() < 6 / math.sqrt(N), 'noise is correlated across frames')


@facet(st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'dim': st.integers(1, 6), 'dim_in': st.integers(1, 4),
    'n': st.integers(1, 5), 'scale': st.sampled_from([.1, 1., 3.]), 'soft': st.booleans()}), quick=150, shards=1)
def bernoulli(spec, ctx):
    'Bernoulli layer: probabilities and (smoothed) log-likelihood.'
    rng = np.random.default_rng(spec['seed'])
    layer = randomize(base_layer('bernoulli', spec['dim_in'], spec['dim']).double(), rng, spec['scale'])
    h = rng.normal(size=(spec['n'], spec['dim_in']))
    p = layer(mods.t64(h))
    lin = {name: q.detach().numpy() for name, q in layer.named_parameters()}
    a = h @ lin['mean.weight'].T + lin['mean.bias']
    want = 1 / (1 + np.exp(-a))
    ctx.nontrivial(spec['dim'] > 1)
    ctx.allclose(p, want, 'probabilities', 1e-9, 1e-12)
    y = rng.random(size=want.shape)
    if not spec['soft']:
        y = np.round(y)
    llh = np.sum(-y * np.logaddexp(0, -a) - (1 - y) * np.logaddexp(0, a), axis=-1)
    # The code smooths the probabilities by 1e-6.
    slack = np.sum(np.log1p(1e-6 / want) + np.log1p(1e-6 / (1 - want)), axis=-1)
    got = layer.log_likelihood(mods.t64(y), p).detach().numpy()
    ctx.equal(got.shape, llh.shape, 'shape of the log-likelihood')
    ctx.ensure((np.abs(got - llh) <= slack + 1e-9 * (1 + np.abs(llh))).all(),
               lambda: f'log-likelihood {got}, expected {llh}')
    ctx.raises(NotImplementedError, lambda: layer.samples_and_llh(p), 'sampling of a Bernoulli layer')
