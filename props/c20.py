"""C20: textual network descriptions."""
import os

import numpy as np
import torch
from hypothesis import strategies as st

from vf import mods
from vf.core import facet

RULE = ('A case is a description (blocks of elements with options, residual connections, merges, spacing) generated '
        'together with an independent numpy evaluator of the described network, plus inputs.  Non-trivial: several '
        'elements, or an option, a residual connection or a merge.')
ASSUMPTIONS = ['the weights are those held by the built modules; functions of layers are evaluated with numpy', 'float64']


def prelu(x, a):
    return np.where(x >= 0, x, a * x)


# name -> (options -> numpy function), options given as {name: (text, value)}
ACTS = {
    'Tanh': np.tanh,
    'Sigmoid': lambda x: 1 / (1 + np.exp(-x)),
    'ReLU': lambda x: np.maximum(x, 0),
    'Softplus': lambda x: np.logaddexp(x, 0),
    'Identity': lambda x: x,
    'IdentityLayer': lambda x: x,
    'Softsign': lambda x: x / (1 + np.abs(x)),
}

ACT = st.one_of(
    st.sampled_from(sorted(ACTS)).map(lambda n: {'t': 'act', 'name': n}),
    st.sampled_from([.01, .2, .5, 1e-3, -1.5]).map(lambda a: {'t': 'leaky', 'a': a}),
    st.tuples(st.sampled_from([-1., -.5, 0.]), st.sampled_from([.25, 1., 2.])).map(
        lambda p: {'t': 'hardtanh', 'lo': p[0], 'hi': p[1]}))
LINEAR = st.fixed_dictionaries({'t': st.just('linear'), 'out': st.integers(1, 4),
                                'bias': st.sampled_from([None, True, False]), 'swap': st.booleans()})
MERGE = st.fixed_dictionaries({'t': st.just('merge'), 'items': st.lists(
    st.one_of(LINEAR, ACT), min_size=1, max_size=3)})
ELEM = st.one_of(LINEAR, ACT, MERGE)
# (Elements which return their input, in particular.)
SAME = st.lists(st.sampled_from(['Identity', 'IdentityLayer']).map(lambda n: {'t': 'act', 'name': n}), min_size=1, max_size=2)
BLOCK = st.fixed_dictionaries({'items': st.one_of(*[st.lists(ELEM, min_size=1, max_size=4)] * 5, SAME),
                               'res': st.sampled_from([None, 'absent', 'IdentityLayer', 'linear', 'Tanh'])})
SPACES = st.sampled_from(['', ' ', '  ', '\t', '\n'])
DESC = st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'dim': st.integers(1, 4), 'n': st.integers(1, 4),
    'blocks': st.lists(BLOCK, min_size=1, max_size=3), 'sp': st.lists(SPACES, min_size=3, max_size=6)})


class Spacer:
    def __init__(self, sp):
        self.sp, self.i = sp, 0

    def __call__(self):
        self.i += 1
        return self.sp[self.i % len(self.sp)]


def lin_text(i, o, bias, swap, sp):
    args = [f'in_features{sp()}={sp()}{i}', f'out_features={sp()}{o}']
    if swap:
        args.reverse()
    if bias is not None:
        args.append(f'bias{sp()}={sp()}{bias}')
    return f'{sp()}Linear{sp()}:{sp()}' + f'{sp()};{sp()}'.join(args) + sp()


def describe(e, dim, sp):
    'Text and output dimension of an element.'
    if e['t'] == 'act':
        return f'{sp()}{e["name"]}{sp()}', dim
    if e['t'] == 'leaky':
        return f'LeakyReLU:{sp()}negative_slope={e["a"]!r}', dim
    if e['t'] == 'hardtanh':
        return f'Hardtanh:min_val={e["lo"]!r}{sp()};{sp()}max_val={e["hi"]!r}', dim
    if e['t'] == 'linear':
        return lin_text(dim, e['out'], e['bias'], e['swap'], sp), e['out']
    raise AssertionError(e)


def apply(e, module, x, used):
    'numpy evaluation of an element, reading the weights in the built module.'
    if e['t'] == 'act':
        return ACTS[e['name']](x)
    if e['t'] == 'leaky':
        return prelu(x, e['a'])
    if e['t'] == 'hardtanh':
        return np.clip(x, e['lo'], e['hi'])
    w = module.weight.detach().numpy()
    used.append(module.weight)
    if module.bias is None:
        return x @ w.T
    used.append(module.bias)
    return x @ w.T + module.bias.detach().numpy()


def merge_items(e, dim):
    'Merged elements have the same output dimension: linear ones are resized.'
    return [dict(i, out=dim) if i['t'] == 'linear' else i for i in e['items']]


def linear_ok(ctx, module, i, e):
    ctx.equal(type(module), torch.nn.Linear, 'type of the layer')
    ctx.equal((module.in_features, module.out_features, module.bias is not None),
              (i, e['out'], e['bias'] in (None, True)), 'options of the layer')


@facet(DESC, quick=400, shards=3)
def networks(spec, ctx):
    'A network computes the composition it describes.'
    from beer.nnet import neuralnetwork as nn
    sp = Spacer(spec['sp'])
    dim = spec['dim']
    blocks, plan = [], []
    nelem = 0
    for b in spec['blocks']:
        texts, items = [], []
        din = dim
        for e in b['items']:
            nelem += 1
            if e['t'] == 'merge':
                its = merge_items(e, dim)
                texts.append('|'.join(describe(i, dim, sp)[0] for i in its))
                items.append({'t': 'merge', 'items': its, 'in': dim})
            else:
                t, d = describe(e, dim, sp)
                texts.append(t)
                items.append(dict(e, **{'in': dim}))
                dim = d
        conf = {'block_structure': texts}
        res = b['res']
        if res in ('IdentityLayer', 'Tanh') and din != dim:
            res = 'linear'
        if res == 'linear':
            conf['residual'] = lin_text(din, dim, None, False, sp)
        elif res in ('IdentityLayer', 'Tanh'):
            conf['residual'] = res
        elif res is None:
            conf['residual'] = None
        blocks.append(conf)
        plan.append((items, res, din, dim))
    ctx.nontrivial(nelem > 1)
    net = nn.create({'nnet_structure': blocks})
    rng = np.random.default_rng(spec['seed'])
    net = net.double()
    for p in net.parameters():
        p.data = mods.t64(rng.normal(size=tuple(p.shape)))
    x = rng.normal(size=(spec['n'], spec['dim'])) * 2
    h, used = x.copy(), []
    mods_of = list(net)
    ctx.equal(len(mods_of), len(blocks), 'number of blocks')
    for block, (items, res, din, dout) in zip(mods_of, plan):
        inp = h
        layers = list(block.structure)
        ctx.equal(len(layers), len(items), 'number of elements of the block')
        for e, layer in zip(items, layers):
            if e['t'] != 'merge':
                if e['t'] == 'linear':
                    linear_ok(ctx, layer, e['in'], e)
                h = apply(e, layer, h, used)
                continue
            # Applied in a chain, a merge receives a single input: the first transform is used.
            subs = list(layer.transforms) if len(e['items']) > 1 else [layer]
            ctx.equal(len(subs), len(e['items']), 'merged transforms')
            ctx.label('merge', len(subs) > 1)
            used += [p for m in subs[1:] for p in m.parameters()]
            many = [rng.normal(size=h.shape) for _ in subs]
            want = sum(apply(s, m, y, []) for s, m, y in zip(e['items'], subs, many))
            got = layer(*[mods.t64(y) for y in many])
            ctx.allclose(got, want, 'merge of several inputs', 1e-9, 1e-9)
            for s, m in zip(e['items'], subs):
                if s['t'] == 'linear':
                    linear_ok(ctx, m, e['in'], s)
            h = apply(e['items'][0], subs[0], h, used)
        if res == 'IdentityLayer':
            h = h + inp
        elif res == 'Tanh':
            h = h + np.tanh(inp)
        elif res == 'linear':
            h = h + apply({'t': 'linear'}, block.residual_connection, inp, used)
        else:
            ctx.ensure(block.residual_connection is None, 'a residual connection was added')
        ctx.label(f'residual {res}')
    xt = mods.t64(x)
    ctx.allclose(net(xt), h, 'output of the network', 1e-8, 1e-8, scale=np.abs(h).max())
    ctx.allclose(xt, x, 'the network changed its input', 0, 0)
    ctx.equal(len({id(p) for p in used}), len(used), 'number of weights (elements share them)')
    ids = {id(p) for p in net.parameters()}
    ctx.ensure(all(id(p) in ids for p in used), 'some weights are not parameters of the network')


@facet(st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'dims': st.lists(st.integers(1, 4), min_size=1, max_size=4),
    'out': st.lists(st.integers(1, 4), min_size=1, max_size=3), 'auto': st.integers(0, 5), 'tr': st.booleans()}),
    quick=150, shards=1)
def reshape(spec, ctx):
    'Reshaping keeps the content in order, transposing swaps the axes.'
    from beer.nnet import neuralnetwork as nn
    n = int(np.prod(spec['dims']))
    x = np.random.default_rng(spec['seed']).normal(size=spec['dims'])
    shape = []
    rest = n
    for o in spec['out']:
        o = np.gcd(rest, o)
        shape.append(int(o))
        rest //= o
    shape.append(int(rest))
    want = x.reshape(shape)
    if spec['auto'] < len(shape):
        shape[spec['auto']] = -1
    ctx.nontrivial(n > 1)
    t = mods.t64(x)
    if spec['tr'] and x.ndim == 2:
        t, x = mods.t64(x.T.copy()).t(), x        # same values, other memory layout
        ctx.label('not contiguous')
    layer = nn.create_nnet_element('ReshapeLayer:shape=' + str(tuple(shape)))
    ctx.allclose(layer(t), want, 'reshaped', 0, 0)
    layer = nn.create_nnet_element(' ReshapeLayer : shape = ' + str(list(shape)))
    ctx.allclose(layer(t), want, 'reshaped', 0, 0)
    if x.ndim == 2:
        got = nn.create_nnet_element('TransposeLayer')(t)
        ctx.allclose(got, x.T, 'transposed', 0, 0)
        ctx.ensure(got.is_contiguous(), 'transposed data is not contiguous')


VALUES = st.recursive(
    st.one_of(st.integers(-10**6, 10**6), st.booleans(), st.none(), st.floats(allow_nan=False, allow_infinity=False),
              st.text(alphabet='abcxyz_', max_size=5)),
    lambda c: st.one_of(st.lists(c, max_size=3), st.lists(c, max_size=3).map(lambda v: {'tuple': v})), max_leaves=6)


def plain(v):
    if isinstance(v, dict):
        return tuple(plain(u) for u in v['tuple'])
    if isinstance(v, list):
        return [plain(u) for u in v]
    return v


@facet(st.fixed_dictionaries({'values': st.dictionaries(
    st.text(alphabet='abcdefgh_', min_size=1, max_size=6), VALUES, max_size=4),
    'name': st.sampled_from(['Linear', 'Conv1d', 'Foo', 'MyLayer_2']), 'sp': st.lists(SPACES, min_size=2, max_size=5)}),
    quick=250, shards=1)
def parsing(spec, ctx):
    'Names and options are read whatever the spacing, and values are the described literals.'
    from beer.nnet import neuralnetwork as nn
    sp = Spacer(spec['sp'])
    vals = {k: plain(v) for k, v in spec['values'].items()}
    ctx.nontrivial(len(vals) > 0)
    text = sp() + spec['name'] + sp()
    if vals:
        text += ':' + sp() + f'{sp()};{sp()}'.join(f'{k}{sp()}={sp()}{v!r}' for k, v in vals.items()) + sp()
    name, kw = nn.parse_nnet_element(text)
    ctx.equal(name, spec['name'], 'name of the element')
    ctx.equal(list(kw), list(vals), 'names of the options')
    for k, v in vals.items():
        got = nn.load_value(kw[k])
        ctx.equal((type(got), got), (type(v), v), f'value of {k}')
        if not isinstance(v, str):
            ctx.ensure(nn.load_value(v) is v, 'a value that is not text is kept')
    if not hasattr(torch.nn, spec['name']):
        ctx.raises(ValueError, lambda: nn.create_nnet_element(text), 'unknown element')


BASES = [('Linear', ['in_features=3', 'out_features=2', 'bias=True']), ('Tanh', []), ('LeakyReLU', ['negative_slope=.2']),
         ('Conv1d', ['in_channels=1', 'out_channels=2', 'kernel_size=3']), ('ReshapeLayer', ['shape=(-1,2)']), ('IdentityLayer', [])]
DEFECTS = ['no value', 'no sign', 'two signs', 'empty option', 'other option', 'unfinished value', 'two colons', 'unknown element',
           'no element', 'colon only', 'bare word', 'missing option']


@facet(st.fixed_dictionaries({
    'base': st.integers(0, len(BASES) - 1), 'defect': st.sampled_from(DEFECTS), 'at': st.integers(0, 3),
    'merge': st.sampled_from(['', 'before', 'after']), 'where': st.sampled_from(['element', 'block', 'residual']),
    'word': st.from_regex(r'\A[a-z]{3,6}\Z'), 'sp': st.lists(SPACES, min_size=2, max_size=5)}), quick=250, shards=1)
def malformed(spec, ctx):
    'A valid description with one defect is refused, wherever it is used.'
    from beer.nnet import neuralnetwork as nn
    name, opts = BASES[spec['base']]
    sp = Spacer(spec['sp'])

    def text(name, opts, end=''):
        t = sp() + name + (sp() + ':' + sp() + f'{sp()};{sp()}'.join(opts) if opts else '') + end
        return {'': t, 'before': t + '|Tanh', 'after': 'Tanh' + sp() + '|' + t}[spec['merge']]

    def make(t):
        if spec['where'] == 'element':
            return nn.create_nnet_element(t)
        conf = {'block_structure': [t]} if spec['where'] == 'block' else {'block_structure': ['Tanh'], 'residual': t}
        return nn.create({'nnet_structure': [conf]})
    make(text(name, opts))                       # the description without the defect is accepted
    d, w, opts, end = spec['defect'], spec['word'], list(opts), ''
    at = spec['at'] % (len(opts) + 1)
    if d == 'no value':
        opts.insert(at, w + '=')
    elif d == 'no sign':
        opts.insert(at, w)
    elif d == 'two signs':
        opts.insert(at, w + '=1=2')
    elif d == 'empty option':
        opts.insert(at, '')
        opts = opts if len(opts) > 1 else ['', '']
    elif d == 'other option':
        opts.insert(at, w + 'x_x=1')
    elif d == 'unfinished value':
        opts.insert(at, w + '=(1,')
    elif d == 'bare word':
        opts.insert(at, w + '=' + w)
    elif d == 'two colons':
        end = ':' + w + '=1' if opts else '::' + w + '=1'
    elif d == 'colon only':
        end, opts = ':', []
    elif d == 'unknown element':
        name = name + 'X' + w
    elif d == 'no element':
        name = ''
    else:
        name, opts = 'Linear', ['in_features=3']
    ctx.nontrivial()
    ctx.label(d)
    bad = text(name, opts, end)
    try:
        make(bad)
    except Exception:
        return
    ctx.fail(f'the description {bad!r} ({d}) was accepted')


EVIL = ['__import__("os").mkdir({p!r})', 'open({p!r},"w")', 'exec("open({p!r},\'w\')")', '(lambda:open({p!r},"w"))()',
        '[open({p!r},"w")forxin(1,)]', 'int("3")', 'torch.nn', 'print', '().__class__', '1 if 1 else 2', 'max(1,2)']


@facet(st.fixed_dictionaries({'i': st.integers(0, len(EVIL) - 1), 'opt': st.sampled_from(['bias', 'in_features']),
                              'res': st.booleans()}), quick=40, shards=1)
def inert(spec, ctx):
    'Values are data: code in a description is refused and not run.'
    from beer.nnet import neuralnetwork as nn
    p = os.path.join(ctx.tmpdir(), 'created')
    code = EVIL[spec['i']].replace('{p!r}', repr(p).replace("'", '"'))
    ctx.nontrivial()
    other = 'out_features=2' + (';in_features=2' if spec['opt'] == 'bias' else '')
    text = f'Linear:{other};{spec["opt"]}={code}'
    conf = {'nnet_structure': [{'block_structure': ['Tanh'], 'residual': text} if spec['res']
                               else {'block_structure': [text]}]}
    try:
        nn.create(conf)
    except Exception:
        pass
    else:
        ctx.fail('a description with code was accepted')
    ctx.ensure(not os.path.exists(p), 'the code of a description was run')
    ctx.raises((ValueError, SyntaxError), lambda: nn.load_value(code), 'value with code')


@facet(st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'dim': st.integers(1, 5), 'nblocks': st.integers(0, 4),
    'width': st.integers(1, 6), 'n': st.integers(1, 4), 'zero': st.booleans()}), quick=200, shards=1)
def residual(spec, ctx):
    'Residual networks: y = x + f(W2 f(W1 x)), block after block.'
    import beer
    torch.manual_seed(spec['seed'])
    net = beer.nnet.ResidualFeedForwardNet(spec['dim'], nblocks=spec['nblocks'], block_width=spec['width']).double()
    rng = np.random.default_rng(spec['seed'])
    ctx.equal((net.dim_in, net.dim_out), (spec['dim'], spec['dim']), 'dimensions')
    blocks = list(net.blocks)
    ctx.equal(len(blocks), spec['nblocks'], 'number of blocks')
    ctx.nontrivial(spec['nblocks'] > 1 and spec['dim'] > 1)
    x = rng.normal(size=(spec['n'], spec['dim'])) * 2
    h = x.copy()
    seen = set()
    for b in blocks:
        par = [p for p in b.parameters()]
        ctx.equal([tuple(p.shape) for p in (b.layer1.weight, b.layer2.weight)],
                  [(spec['width'], spec['dim']), (spec['dim'], spec['width'])], 'sizes of the layers')
        for p in par:
            p.data = mods.t64(rng.normal(size=tuple(p.shape)) * (0 if spec['zero'] else 1))
            seen.add(id(p))
        w1, b1, w2, b2 = (q.detach().numpy() for q in (b.layer1.weight, b.layer1.bias, b.layer2.weight, b.layer2.bias))
        h = h + np.tanh(np.tanh(h @ w1.T + b1) @ w2.T + b2)
    ctx.equal(len(seen), 4 * spec['nblocks'], 'blocks share weights')
    t = mods.t64(x)
    ctx.allclose(net(t), h, 'output', 1e-9, 1e-9)
    ctx.allclose(t, x, 'the network changed its input', 0, 0)


LAYERS = ['Linear', 'Conv1d', 'Tanh']


@facet(st.fixed_dictionaries({
    'seed': st.integers(0, 2**31 - 1), 'cin': st.integers(1, 3), 'cout': st.integers(1, 3), 'k': st.integers(1, 3),
    'stride': st.integers(1, 2), 'pad': st.integers(0, 2), 'len': st.integers(3, 6), 'n': st.integers(1, 2)}),
    quick=60, shards=1)
def convolution(spec, ctx):
    'Frames as images: reshape, convolution with options, reshape back.'
    from beer.nnet import neuralnetwork as nn
    rng = np.random.default_rng(spec['seed'])
    ci, co, k, L, s, p = spec['cin'], spec['cout'], spec['k'], spec['len'], spec['stride'], spec['pad']
    lo = (L + 2 * p - k) // s + 1
    net = nn.create({'nnet_structure': [{'block_structure': [
        f'ReshapeLayer:shape=(-1,{ci},{L})',
        f'Conv1d:in_channels={ci};out_channels={co};kernel_size={k};stride={s};padding={p}',
        f'ReshapeLayer:shape=(-1, {co * lo})']}]}).double()
    for q in net.parameters():
        q.data = mods.t64(rng.normal(size=tuple(q.shape)))
    w, b = (q.detach().numpy() for q in net.parameters())
    x = rng.normal(size=(spec['n'], ci * L))
    ctx.nontrivial(ci > 1 or co > 1)
    want = np.zeros((spec['n'], co, lo))
    img = np.pad(x.reshape(-1, ci, L), ((0, 0), (0, 0), (p, p)))
    for t in range(lo):
        want[:, :, t] = np.einsum('nck,ock->no', img[:, :, t * s:t * s + k], w) + b
    ctx.allclose(net(mods.t64(x)), want.reshape(spec['n'], -1), 'convolutional network', 1e-8, 1e-8)
