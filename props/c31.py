"""C31: commands of the (hierarchical) subspace phone loops."""
import contextlib
import math
import os
import pickle
import re

import numpy as np
import torch
from hypothesis import strategies as st

from vf import cli, mods
from vf.core import facet
from props import c04, c17, c23, c24, c25

RULE = ('A case is a trained phone loop built by the commands, a group of units, latent dimensions, options and a history '
        'of subspace commands.  Non-trivial: several units in the group, several states or several languages.')
ASSUMPTIONS = ['the noise of the posteriors is drawn with torch.randn: replaced by a constant where a closed form of the '
               'generated densities is needed, seeded where the library calls are the reference',
               'every group of the configuration has units (but see the known finding), the classes list exactly the '
               'units of the group', 'in the hierarchical commands the group of units is the one with the most states',
               'float32 models; the library objects are judged by C17']

SEED = st.integers(0, 2**31 - 1)


@contextlib.contextmanager
def noise(c):
    'Every noise value drawn is c.'
    keep = torch.randn, torch.randn_like, torch.normal, torch.Tensor.normal_
    torch.randn = lambda *a, **k: keep[0](*a, **k).fill_(c)
    torch.randn_like = lambda *a, **k: keep[1](*a, **k).fill_(c)
    torch.normal = lambda mean, std=1., *a, **k: (keep[2](mean, std, *a, **k).detach() * 0 + c) * std + mean
    torch.Tensor.normal_ = lambda t, mean=0., std=1., **k: t.fill_(mean + std * c)
    try:
        yield
    finally:
        torch.randn, torch.randn_like, torch.normal, torch.Tensor.normal_ = keep


# -- files and commands -------------------------------------------------------

class Files:
    'Runs commands of one directory, watching the files.'

    def __init__(self, ctx, w):
        self.ctx, self.w, self.p = ctx, w, w.path

    def run(self, *argv, out=(), extra=(), stdin='', c=None, seed=None):
        'The command with the named outputs; other files must not change, outputs must be new.'
        before = {}
        for d, _, names in os.walk(self.w.tmp):
            for n in names:
                with open(os.path.join(d, n), 'rb') as f:
                    before[os.path.join(d, n)] = f.read()
        outs = {self.p(o) for o in (*out, *extra)}
        head = [] if seed is None else ['-s', seed]
        with noise(c) if c is not None else contextlib.nullcontext():
            res = cli.ok(self.ctx, *head, *argv, stdin=stdin)
        for path, content in before.items():
            if path in outs:
                continue
            with open(path, 'rb') as f:
                self.ctx.ensure(f.read() == content,
                                lambda: f'{" ".join(map(str, argv[:2]))} changed {os.path.basename(path)}')
        for o in out:
            self.ctx.ensure(os.path.getsize(self.p(o)) > 0, f'{o} is empty')
        return res


def same_bound(ctx, res, want, what, *tol):
    'The bound in the log, if there is one.'
    def number(r):
        m = re.findall(r'(?i)elbo\s*[=:]?\s*(-?[0-9.]+(?:e[-+]?[0-9]+)?)', r.err)
        return float(m[-1]) if m else None
    got, want = number(res), want if isinstance(want, float) else number(want)
    if got is not None and want is not None:
        ctx.label('bound in the log')
        ctx.allclose(got, want, what, *tol)


# -- reference ----------------------------------------------------------------

def arr(t):
    return t.detach().double().numpy()


def sample(params, c):
    'Value of the parameterised Normal with the constant noise.'
    return arr(params.mean) + c * np.sqrt(1e-4 + np.exp(arr(params.log_diag_cov)))


def lay_of(tpl):
    return [(kind, dim, n) for _, kind, dim, n in c17.layout(tpl)]


def unit_llh(lay, rvec, x):
    'Log-likelihoods [frames, states] of a unit made from a real vector.'
    i, par = 0, {}
    for kind, dim, n in lay:
        k = c04.rdim(kind, dim)
        par[kind == 'categorical'] = (kind, [c04.rvec_params(kind, dim, rvec[i + j * k:i + (j + 1) * k]) for j in range(n)])
        i += k * n
    assert i == len(rvec)
    kind, comps = par[False]
    d = x.shape[1]
    llh = []
    for m, P in comps:
        P = np.atleast_1d(P)
        P = P if kind == 'full' else np.diag(np.broadcast_to(P, (d,)))
        dx = x - m
        llh.append(.5 * np.linalg.slogdet(P)[1] - .5 * np.einsum('ti,ij,tj->t', dx, P, dx) - .5 * d * math.log(2 * math.pi))
    weights = np.stack([v[1] for v in par[True][1]])
    llh = np.stack(llh, 1).reshape(len(x), *weights.shape) + weights
    return mods.logsumexp(llh, 2)


def rvecs_of(transform, posts, c):
    'Real vectors generated by a subspace.'
    h = sample(posts.params, c)
    W = sample(transform.weights.posterior.params, c).reshape(h.shape[1], -1)
    b = sample(transform.bias.posterior.params, c)
    return h @ W + b


def hier_rvecs(root, transform, posts, c):
    'Real vectors generated by the subspace of a language, itself generated by the root.'
    h = sample(posts.params, c)
    z = sample(transform.latent_posterior.params, c)
    W = sample(root.weights.posterior.params, c).reshape(z.shape[1], -1)
    v = (z @ W + sample(root.bias.posterior.params, c)).ravel()
    q = len(v) // (h.shape[1] + 1)
    return h @ v[:q * h.shape[1]].reshape(h.shape[1], q) + v[q * h.shape[1]:]


def loop_llh(loop, x):
    m = loop.modelset
    return arr(m.expected_log_likelihood(m.sufficient_statistics(torch.from_numpy(x).float())))


class Case:
    'A trained phone loop and the group to put in the subspace.'

    def __init__(self, spec, ctx, utts=None):
        spec = dict(spec, utts=spec['utts'])
        self.spec, self.ctx = spec, ctx
        s = c24.Setup({'world': spec['world'], 'prior': spec['prior'], 'list': [], 'how': 'all', 'scale': None,
                       'utts': spec['utts']}, ctx)
        self.s, self.w = s, s.w
        self.f = Files(ctx, s.w)
        self.p = s.w.path
        used = c23.used_groups(spec['world'])
        self.g = used[spec['group'] % len(used)]
        ctx.nontrivial(len(self.units) > 1 and self.w.npdf > len(self.w.names))
        self.hmm = 'model'
        if spec['trained']:
            self.f.run('hmm', 'train', '-e', spec['trained'], self.p('model'), self.p('data'), self.p('hmm'), out=['hmm'])
            self.hmm = 'hmm'
        self.x = self.w.rng.normal(size=(5, spec['world']['dim']))

    @property
    def units(self):
        return [n for n in self.w.names if self.w.group[n] == self.g]

    @property
    def nstates(self):
        return self.spec['world']['groups'][self.g]['topology']['n']

    def cols(self, n):
        return slice(self.w.first[n], self.w.last[n] + 1)

    def index(self):
        'Position of the group among the emissions.'
        return c23.used_groups(self.spec['world']).index(self.g)

    def posteriors(self, gsm, name, n=None):
        'A file of random latent posteriors.'
        n = n or len(self.units)
        rng = self.w.rng
        posts = gsm.new_latent_posteriors(n)
        p = posts.params
        p.mean.data = torch.from_numpy(rng.normal(size=tuple(p.mean.shape))).float()
        p.log_diag_cov.data = torch.from_numpy(rng.uniform(-3, 0, size=tuple(p.mean.shape))).float()
        self.w.save(name, (posts, n, self.nstates, self.index()))

    def randomize(self, name):
        'Random posteriors for the transform of a subspace.'
        gsm = self.w.load(name)
        for d in (gsm.transform.weights.posterior.params, gsm.transform.bias.posterior.params):
            n = d.mean.shape[-1]
            d.mean.data = torch.from_numpy(self.w.rng.normal(size=n) * .5).float()
            d.log_diag_cov.data = torch.from_numpy(self.w.rng.uniform(-3, 0, size=n)).float()
        self.w.save(name, gsm)

    def check_loop(self, loop, rvecs, lay, base, what):
        'Densities of the units from their real vectors, everything else as in the loop `base`.'
        ctx, got = self.ctx, loop_llh(loop, self.x)
        ctx.equal(got.shape, (5, self.w.npdf), f'{what}: number of densities')
        for n, r in zip(self.units, rvecs, strict=True):
            want = unit_llh(lay, r, self.x)
            ctx.allclose(got[:, self.cols(n)], want, f'{what}: densities of the unit {n}', 2e-3, 2e-3,
                         scale=np.abs(want).max() * .05)
        self.same_rest(loop, base, what)

    def same_rest(self, loop, base, what):
        'Graph, units, weights and densities out of the group are those of `base`.'
        ctx = self.ctx
        got, was = loop_llh(loop, self.x), loop_llh(base, self.x)
        for n in self.w.names:
            if n not in self.units:
                ctx.label('other groups')
                ctx.allclose(got[:, self.cols(n)], was[:, self.cols(n)], f'{what}: densities of the unit {n}', 1e-5, 1e-5)
        ctx.equal(dict(loop.start_pdf), dict(base.start_pdf), f'{what}: first densities')
        ctx.equal(dict(loop.end_pdf), dict(base.end_pdf), f'{what}: last densities')
        ctx.equal(list(loop.graph.pdf_id_mapping), list(base.graph.pdf_id_mapping), f'{what}: mapping')
        for name in ('init_log_probs', 'final_log_probs', 'trans_log_probs'):
            ctx.allclose(getattr(loop.graph, name).exp(), getattr(base.graph, name).exp(), f'{what}: {name}', 1e-6, 1e-7)


def stats_of(loop, group):
    'Statistics kept for the subspace parameters of the group, in a defined order.'
    pars = list(loop.modelset.original_modelset.modelsets[group].bayesian_parameters())
    return [arr(p.stats) for p in pars], pars


@st.composite
def cases(draw, max_units=4, noise=(.3, 1.)):
    w = draw(c23.worlds(max_units, loops=True, noise=noise))
    w['data'] = True
    return {'world': w, 'prior': draw(st.sampled_from(c24.PRIORS)), 'utts': draw(st.lists(c24.UTT, min_size=2, max_size=3)),
            'trained': draw(st.sampled_from([1, 0, 2])), 'group': draw(st.integers(0, 2)), 'ldim': draw(st.integers(1, 3)),
            'c': draw(st.sampled_from([.3, -.4, 0., .8]))}


def holes(world):
    'An earlier group without units.'
    used = c23.used_groups(world)
    return used != list(range(len(used)))


def fill(world):
    'The same world where groups without units are dropped from the configuration.'
    used = c23.used_groups(world)
    return dict(world, groups=[world['groups'][g] for g in used], units=[[n, used.index(g)] for n, g in world['units']])


def mk(k, *opt, out=('gsm', 'posts', 'sploop'), c=None):
    'Creation of the subspace.'
    return k.f.run('shmm', 'mksphoneloop', '-g', c23.groupname(k.g), '-l', k.spec['ldim'], *opt, k.p('hmm.yml'), k.p(k.hmm),
                   *map(k.p, out), out=out, c=k.spec['c'] if c is None else c)


# ------------------------------------------------------------------ facets

def _group(n):
    return {'topology': {'n': n, 'arcs': [[0, 1, 1.]] + [a for i in range(1, n + 1) for a in ([i, i, .5], [i, i + 1, .5])]},
            'ncomp': 2, 'strength': 1., 'noise': .3}


EMPTY = {'empty': True, 'posts': False, 'default': False, 'case': {
    'world': {'seed': 1, 'groups': [_group(2)] * 3, 'units': [['a', 1], ['B', 1], ['au1', 2]], 'cov': 'diagonal', 'dim': 2,
              'data': True},
    'prior': 'dirichlet', 'utts': [{'T': 8, 'trans': [0], 'ali': True}] * 2, 'trained': 0, 'group': 0, 'ldim': 2, 'c': .3}}


@facet(st.fixed_dictionaries({'case': cases(), 'posts': st.booleans(), 'default': st.booleans(),
                              'empty': st.sampled_from([False] * 5 + [True])}), quick=90, shards=4, examples=[EMPTY])
def creation(spec, ctx):
    'Densities of the loop made by the subspace for its units; the rest as in the phone loop.'
    case = spec['case']
    if not (spec['empty'] and holes(case['world'])):
        case = dict(case, world=fill(case['world']))
    k = Case(case, ctx)
    w = k.w
    empty = k.index() != k.g
    base = w.load(k.hmm)
    if empty:
        ctx.label('empty group')
        res = cli.beer('shmm', 'mksphoneloop', '-g', c23.groupname(k.g), w.path('hmm.yml'), w.path(k.hmm), w.path('gsm'),
                       w.path('posts'), w.path('sploop')) if k.g < len(base.modelset.original_modelset.modelsets) else None
        if res is not None and w.load('posts')[1] != len(k.units):
            ctx.finding('empty-group', 'the wrong group of units is put in the subspace when an earlier group of the '
                        'configuration has no unit')
        return
    if spec['default']:
        conf = open(w.path('hmm.yml')).read().replace(f'group_name: {c23.groupname(k.g)}\n', 'group_name: speech-unit\n')
        open(w.path('hmm.yml'), 'w').write(conf)
        k.f.run('shmm', 'mksphoneloop', '-l', case['ldim'], w.path('hmm.yml'), w.path(k.hmm), *map(w.path, ('gsm', 'posts', 'sploop')),
                out=('gsm', 'posts', 'sploop'), c=case['c'])
        open(w.path('hmm.yml'), 'w').write(conf.replace('group_name: speech-unit\n', f'group_name: {c23.groupname(k.g)}\n'))
    else:
        mk(k)
    out = ('gsm', 'posts', 'sploop')
    if spec['posts']:
        ctx.label('initial posteriors')
        k.posteriors(w.load('gsm'), 'start')
        out = ('gsm2', 'posts2', 'sploop2')
        mk(k, '-p', w.path('start'), out=out)
    gsm, (posts, n, S, g), loop = map(w.load, out)
    ctx.equal((n, S, g), (len(k.units), k.nstates, k.index()), 'number of units, states and group')
    ctx.equal(len(posts), n, 'number of latent posteriors')
    ctx.equal(tuple(posts.params.mean.shape), (n, case['ldim']), 'latent dimension')
    if spec['posts']:
        was = w.load('start')[0]
        ctx.allclose(posts.params.mean, was.params.mean, 'initial latent means', 0, 0)
        ctx.allclose(posts.params.log_diag_cov, was.params.log_diag_cov, 'initial latent variances', 0, 0)
    lay = lay_of(gsm.model)
    ctx.equal(sorted(x[2] for x in lay), sorted([k.nstates, k.nstates * case['world']['groups'][k.g]['ncomp']]),
              'densities of the template')
    k.check_loop(loop, rvecs_of(gsm.transform, posts, case['c']), lay, base, 'created loop')
    ctx.equal([p.prior is not None for p in mods.conj_params(loop)], [True] * len(mods.conj_params(loop)), 'priors')
    # Statistics to start from: those of the phone loop, spread over the components of each unit.
    stats, pars = stats_of(loop, g)
    was = [arr(p.posterior.natural_parameters() - p.prior.natural_parameters())
           for p in base.modelset.original_modelset.modelsets[g].bayesian_parameters()]
    ratios = {0: [], 1: []}
    for new, old, p in zip(stats, was, pars):
        cat = type(p.likelihood_fn).__name__.startswith('Categorical')
        per = len(new) // n
        for u in range(n):
            a, b = new[u * per:(u + 1) * per], old[u * per:(u + 1) * per]
            ctx.allclose(a, np.tile(a[:1], (per, 1)), 'every component starts from the same statistics', 1e-5, 1e-6)
            if cat:
                ctx.allclose(a[:, :-1], np.tile(a[:, -1:] / p.likelihood_fn.dim, (1, a.shape[1] - 1)),
                             'components start with equal counts', 1e-4, 1e-6)
                ratios[0].append((a[0, -1], b[:, -1].sum()))
            else:
                i = int(np.abs(b.sum(0)).argmax())
                ratios[1].append((a[0, i], b.sum(0)[i]))
                tot = b.sum(0)
                if abs(tot[i]) > 1e-2:
                    ctx.allclose(a[0] / a[0, i], tot / tot[i], 'statistics of a unit', 1e-3, 1e-3)
    for r in ratios.values():
        big = max(r, key=lambda t: abs(t[1]))
        if abs(big[1]) > 1e-2:
            for a, b in r:
                ctx.allclose(a / big[0], b / big[1], 'shares of the units', 1e-3, 1e-3)


def lib_train(ctx, k, names, e, n, ks, ls, lc, posteriors, state):
    'Training with the library calls, in memory.'
    import beer
    gsm, data, loop = map(k.w.load, names)
    posts, nunits, S, g = data[:4]
    em = loop.modelset.original_modelset.modelsets[g]
    units = [em[i * S:(i + 1) * S] for i in range(nunits)]
    groups = [[]] if posteriors else gsm.conjugate_bayesian_parameters(keepgroups=True)
    pars = list(posts.parameters()) + ([] if posteriors else list(gsm.parameters()))
    opt = beer.VBOptimizer(beer.VBConjugateOptimizer(groups, lrate=lc), torch.optim.Adam(pars, lr=ls))
    if state is not None:
        opt.load_state_dict(state)
    kw = {'labels': data[4]} if len(data) > 4 else {}
    for _ in range(e):
        opt.init_step()
        elbo = beer.evidence_lower_bound(gsm, units, latent_posts=posts, latent_nsamples=n, params_nsamples=ks, **kw)
        elbo.backward()
        opt.step()
    return gsm, posts, loop, float(elbo), opt.state_dict()


def numbers(gsm, posts):
    'Every trained value, by name.'
    m = gsm.modelset if hasattr(gsm, 'modelset') else gsm
    out = {}
    for name in ('transform', 'disc_transform'):
        t = getattr(m, name, None)
        for q in ('weights', 'bias'):
            if hasattr(t, q):
                out.update({f'{name}.{q}.{v}': arr(getattr(getattr(t, q).posterior.params, v)) for v in ('mean', 'log_diag_cov')})
    if hasattr(m, 'means'):
        out.update({f'class means.{v}': arr(getattr(m.means.posterior.params, v)) for v in ('mean', 'log_diag_cov')})
    out['latent prior'] = arr(m.latent_prior.mean_precision.posterior.natural_parameters())
    out.update({f'posteriors.{v}': arr(getattr(posts.params, v)) for v in ('mean', 'log_diag_cov')})
    return out


def same_numbers(ctx, got, want, what, tol=2e-3):
    ctx.equal(sorted(got), sorted(want), f'{what}: trained values')
    for name in want:
        ctx.allclose(got[name], want[name], f'{what}: {name}', tol, tol)


TRAIN = {'e': st.integers(1, 3), 'n': st.sampled_from([None, 1, 2, 3]), 'k': st.sampled_from([None, 1, 2]),
         'ls': st.sampled_from([None, .02, .3]), 'lc': st.sampled_from([None, .5]), 'only': st.sampled_from([False, False, True])}


def options(t):
    return [x for o, v in (('-e', t['e']), ('-n', t['n']), ('-k', t['k']), ('-s', t['ls']), ('-c', t['lc'])) if v is not None
            for x in (o, v)] + (['-p'] if t['only'] else [])


def value(x, default):
    return default if x is None else x


def lib(ctx, k, names, t, state=None):
    return lib_train(ctx, k, names, t['e'], value(t['n'], 1), value(t['k'], 1), value(t['ls'], .1), value(t['lc'], 1.),
                     t['only'], state)


@facet(st.fixed_dictionaries({
    'case': cases(), 'train': st.fixed_dictionaries(TRAIN), 'again': st.one_of(st.none(), st.fixed_dictionaries(TRAIN)),
    'state': st.booleans(), 'classes': st.sampled_from([False, False, True]), 'inplace': st.booleans(),
    'seed': st.integers(0, 999)}), quick=90, shards=4)
def training(spec, ctx):
    'Training by the command equals the library calls, the optimiser being continued from its file.'
    k = Case(dict(spec['case'], world=fill(spec['case']['world'])), ctx)
    w = k.w
    names = ('gsm', 'posts', 'sploop')
    if spec['classes']:
        ctx.label('classes')
        kinds = ['v', 'c', 'n'][:1 + spec['seed'] % 3]
        cls = {u: kinds[(spec['seed'] + 7 * i) % len(kinds)] for i, u in enumerate(k.units)}
        order = sorted(k.units, reverse=bool(spec['seed'] % 2))
        open(w.path('cls'), 'w').writelines(f'{u} {cls[u]}\n' for u in order)
        mk(k, '-c', w.path('cls'), '-d', 1 + spec['seed'] % 2)
        labels = w.load('posts')[4]
        ids = sorted(set(cls.values()))
        ctx.equal([int(l) for l in labels], [ids.index(cls[u]) for u in k.units], 'classes of the units')
        ctx.equal(len(w.load('gsm').modelset), len(ids), 'number of classes')
    else:
        mk(k)
    base = w.load('sploop')
    opt = ['-o', w.path('optim')] if spec['state'] else []
    state = None
    for i, t in enumerate([spec['train']] + ([spec['again']] if spec['again'] else [])):
        # The optimiser state belongs to the same set of parameters.
        t = dict(t, only=spec['train']['only'])
        torch.manual_seed(spec['seed'] + i)
        gsm, posts, loop, elbo, state = lib(ctx, k, names, t, state if spec['state'] else None)
        before = numbers(w.load(names[0]), w.load(names[1])[0])
        prev = w.load(names[2])
        outs = names if spec['inplace'] else tuple(f'{o}{i}' for o in ('gsm', 'posts', 'sploop'))
        res = k.f.run('shmm', 'train', *options(t), *opt, *map(w.path, names + outs), out=outs, extra=['optim'],
                      seed=spec['seed'] + i)
        names = outs
        got_gsm, data, got_loop = map(w.load, names)
        got = numbers(got_gsm, data[0])
        what = f'training {i + 1}'
        same_bound(ctx, res, float(elbo), f'{what}: printed bound', 1e-3, 1e-3)
        same_numbers(ctx, got, numbers(gsm, posts), what)
        ctx.allclose(loop_llh(got_loop, k.x), loop_llh(loop, k.x), f'{what}: densities', 2e-3, 2e-3)
        ctx.equal(tuple(data[1:4]), (len(k.units), k.nstates, k.index()), f'{what}: description of the units')
        k.same_rest(got_loop, base, what)
        for a, b in zip(stats_of(got_loop, k.index())[0], stats_of(prev, k.index())[0]):
            ctx.allclose(a, b, f'{what}: statistics of the units', 1e-6, 1e-6)
        for name, v in before.items():
            if t['only'] and not name.startswith('posteriors'):
                ctx.allclose(got[name], v, f'{name} changed while training the posteriors only', 1e-6, 1e-7)
        if t['only']:
            ctx.label('posteriors only')
        ctx.ensure(not np.allclose(before['posteriors.log_diag_cov'], got['posteriors.log_diag_cov']), 'nothing is trained')
        if not t['only'] and not spec['classes'] and value(t['lc'], 1.) > 0:
            ctx.ensure(not np.allclose(before['latent prior'], got['latent prior']), 'the latent prior is not trained')
    if spec['again'] and spec['state']:
        ctx.label('continued')


@facet(st.fixed_dictionaries({
    'case': cases(), 'train': st.fixed_dictionaries(TRAIN), 'split': st.integers(1, 2), 'em': st.booleans()}),
    quick=90, shards=4)
def tied(spec, ctx):
    '''After training the loop holds the densities generated by the subspace of the last evaluation; training in
    several runs equals one run.'''
    k = Case(dict(spec['case'], world=fill(spec['case']['world'])), ctx)
    w, c, t = k.w, spec['case']['c'], spec['train']
    mk(k)
    base = w.load('sploop')
    k.posteriors(w.load('gsm'), 'posts')
    k.randomize('gsm')
    lay = lay_of(w.load('gsm').model)
    names = ('gsm', 'posts', 'sploop')
    k.f.run('shmm', 'init', *map(w.path, names), w.path('sploop'), out=['sploop'], c=c)
    k.check_loop(w.load('sploop'), rvecs_of(w.load('gsm').transform, w.load('posts')[0], c), lay, base, 'initialised loop')
    if spec['em']:
        # Statistics of the data collected with the subspace loop.
        ctx.label('statistics of the data')
        ds = w.load('data')
        ids = sorted(k.s.utts)
        half = max(1, len(ids) // 2)
        for i, part in enumerate((ids[:half], ids[half:])):
            k.f.run('hmm', 'accumulate', w.path('sploop'), w.path('data'), w.path(f'acc{i}'), out=[f'acc{i}'],
                    stdin=''.join(u + '\n' for u in part))
        ref = w.load('sploop')
        k.f.run('hmm', 'update', w.path('sploop'), w.path('upd'), out=['upd'],
                stdin=''.join(w.path(f'acc{i}') + '\n' for i in range(2)))
        opt = c25.optimizer(ref, 1.)
        opt.init_step()
        counts = np.zeros(w.npdf)
        for u in ids:
            x = torch.from_numpy(k.s.utts[u]).float()
            counts += arr(w.load('sploop').posteriors(x)).sum(0)
        c25.library_pass(ref, ds, ids, {}, 1.).backward()
        opt.step()
        got = w.load('upd')
        for a, b in zip(stats_of(got, k.index())[0], stats_of(ref, k.index())[0]):
            ctx.allclose(a, b, 'statistics of the subspace parameters', 1e-3, 1e-3, scale=np.abs(b).max() * .01)
        st_, pars = stats_of(got, k.index())
        for s, p in zip(st_, pars):
            if type(p.likelihood_fn).__name__.startswith('Categorical'):
                want = np.concatenate([counts[k.cols(n)] for n in k.units])
                ctx.allclose(s[:, -1], want, 'occupation counts of the units', 1e-3, 1e-3)
        was, now, lib_ = (loop_llh(m, k.x) for m in (w.load('sploop'), got, ref))
        for n in w.names:
            if n in k.units:
                ctx.allclose(now[:, k.cols(n)], was[:, k.cols(n)], f'the update changed the densities of {n}', 1e-5, 1e-5)
            else:
                ctx.allclose(now[:, k.cols(n)], lib_[:, k.cols(n)], f'updated densities of {n}', 1e-3, 1e-3)
        names = ('gsm', 'posts', 'upd')
        base = got
    e = t['e'] + spec['split']
    one = tuple(f'one_{o}' for o in ('gsm', 'posts', 'sploop'))
    head = tuple(f'head_{o}' for o in ('gsm', 'posts', 'sploop'))
    last = tuple(f'last_{o}' for o in ('gsm', 'posts', 'sploop'))
    tr = lambda e, a, b, *o: k.f.run('shmm', 'train', *options(dict(t, e=e)), *o, *map(w.path, a + b), out=b, extra=['st1', 'st2'], c=c)
    res1 = tr(e, names, one, '-o', w.path('st1'))
    tr(e - 1, names, head, '-o', w.path('st2'))
    res2 = tr(1, head, last, '-o', w.path('st2'))
    gsm, (posts, *_), loop = map(w.load, one)
    hg, (hp, *_), _ = map(w.load, head)
    k.check_loop(loop, rvecs_of(hg.transform, hp, c), lay, base, 'trained loop')
    same_numbers(ctx, numbers(w.load(last[0]), w.load(last[1])[0]), numbers(gsm, posts), 'training in two runs')
    ctx.allclose(loop_llh(w.load(last[2]), k.x), loop_llh(loop, k.x), 'densities after training in two runs', 2e-3, 2e-3)
    same_bound(ctx, res1, res2, 'bound after training in two runs', 1e-3, 1e-3)
    k.f.run('shmm', 'init', *map(w.path, one), w.path('again'), out=['again'], c=c)
    k.check_loop(w.load('again'), rvecs_of(gsm.transform, posts, c), lay, base, 're-initialised loop')


@facet(st.fixed_dictionaries({
    'case': cases(), 'var': st.sampled_from([None, .5, 2., 1e-3]), 'n': st.integers(1, 5), 'e': st.integers(0, 1),
    'c2': st.sampled_from([.3, -.5, 0.])}), quick=70, shards=4)
def transfer(spec, ctx):
    'Prior and latent posteriors taken from another subspace.'
    k = Case(dict(spec['case'], world=fill(spec['case']['world'])), ctx)
    w, c = k.w, spec['c2']
    mk(k)
    base = w.load('sploop')
    mk(k, out=('gsm_i', 'posts_i', 'sploop_i'))
    k.randomize('gsm_i')
    k.posteriors(w.load('gsm_i'), 'posts_i')
    if spec['e']:
        k.f.run('shmm', 'train', '-e', 2, *map(w.path, ('gsm_i', 'posts_i', 'sploop_i') * 2), out=['gsm_i', 'posts_i', 'sploop_i'])
        k.f.run('shmm', 'train', '-e', 1, *map(w.path, ('gsm', 'posts', 'sploop') * 2), out=['gsm', 'posts', 'sploop'])
    if spec['n'] != len(k.units):
        ctx.label('fewer units' if spec['n'] < len(k.units) else 'more units')
        k.posteriors(w.load('gsm_i'), 'posts_i', spec['n'])
    opt = [] if spec['var'] is None else ['-v', spec['var']]
    var = 1. if spec['var'] is None else spec['var']
    out = ('gsm_o', 'posts_o', 'sploop_o')
    k.f.run('shmm', 'setprior', *opt, *map(w.path, ('gsm', 'posts', 'sploop', 'gsm_i', 'posts_i') + out), out=out, c=c)
    old, (old_posts, *_) = w.load('gsm'), w.load('posts')
    src, (src_posts, *_) = w.load('gsm_i'), w.load('posts_i')
    gsm, (posts, *rest), loop = map(w.load, out)
    ctx.equal(tuple(rest), (len(k.units), k.nstates, k.index()), 'description of the units')
    for q in ('weights', 'bias'):
        a, b = getattr(gsm.transform, q), getattr(src.transform, q).posterior.params
        for kind in ('prior', 'posterior'):
            d = getattr(a, kind).params
            ctx.allclose(d.mean, b.mean, f'{kind} mean of the {q}', 1e-6, 1e-7)
            ctx.allclose(d.log_diag_cov, np.full(tuple(d.mean.shape), math.log(var)), f'{kind} variance of the {q}', 1e-5, 1e-6)
        ctx.ensure(a.posterior.params.mean is not a.prior.params.mean, 'prior and posterior are the same object')
    m = min(len(posts), len(src_posts))
    ctx.allclose(posts.params.mean[:m], src_posts.params.mean[:m], 'latent means', 0, 0)
    ctx.allclose(posts.params.log_diag_cov[:m], src_posts.params.log_diag_cov[:m], 'latent variances', 0, 0)
    if m < len(posts):
        cov = np.diag(arr(src.latent_prior.cov))
        want = arr(src.latent_prior.mean) + c * np.sqrt(cov)
        ctx.allclose(posts.params.mean[m:], np.tile(want, (len(posts) - m, 1)), 'latent means of the new units', 1e-4, 1e-5)
        ctx.allclose(posts.params.log_diag_cov[m:], old_posts.params.log_diag_cov[m:], 'latent variances of the new units', 0, 0)
    for kind in ('prior', 'posterior'):
        got, want = (arr(getattr(g.latent_prior.mean_precision, kind).natural_parameters()) for g in (gsm, src))
        ctx.allclose(got, want, f'{kind} of the latent prior', 1e-6, 1e-6)
    k.check_loop(loop, rvecs_of(gsm.transform, posts, c), lay_of(gsm.model), base, 'loop with the new prior')
    for a, b in zip(stats_of(loop, k.index())[0], stats_of(w.load('sploop'), k.index())[0]):
        ctx.allclose(a, b, 'statistics of the units', 1e-6, 1e-6)
    # The new subspace can be trained: its posteriors move, its prior does not.
    tr = ('gsm_t', 'posts_t', 'sploop_t')
    k.f.run('shmm', 'train', '-e', 1, *map(w.path, out + tr), out=tr)
    after = w.load('gsm_t')
    for q in ('weights', 'bias'):
        a, b = getattr(after.transform, q), getattr(gsm.transform, q)
        ctx.allclose(a.prior.params.mean, b.prior.params.mean, 'the prior moves with training', 0, 0)
        ctx.allclose(a.prior.params.log_diag_cov, b.prior.params.log_diag_cov, 'the prior moves with training', 0, 0)
        if all(np.abs(v).max() > 1e-3 for v in stats_of(loop, k.index())[0] if v.size):      # something to learn from
            ctx.ensure(not np.allclose(arr(a.posterior.params.mean), arr(b.posterior.params.mean)), 'the posterior is not trained')


# -- hierarchical subspace ------------------------------------------------------

def largest(k):
    'The group of units with the most states (the first one), None if another one would do.'
    ws = k.spec['world']
    used = c23.used_groups(ws)
    tot = [ws['groups'][g]['topology']['n'] * sum(h == g for _, h in ws['units']) for g in used]
    return used[int(np.argmax(tot))]


HFLAGS = st.fixed_dictionaries({'root': st.booleans(), 'lang': st.booleans(), 'unit': st.booleans()})


def hnumbers(gsm, posts):
    out = {}
    t = gsm['root'].shared_transform
    for q in ('weights', 'bias'):
        out.update({f'root.{q}.{v}': arr(getattr(getattr(t, q).posterior.params, v)) for v in ('mean', 'log_diag_cov')})
    for l, g in gsm['langs'].items():
        out.update({f'lang.{l}.{v}': arr(getattr(g.transform.latent_posterior.params, v)) for v in ('mean', 'log_diag_cov')})
        out.update({f'unit.{l}.{v}': arr(getattr(posts[l].params, v)) for v in ('mean', 'log_diag_cov')})
    return out


def hlib(ks, gsm, posts, loops, e, ns, us, ps, ls, lc, sgd, flags, clip, state):
    'Hierarchical training with the library calls.'
    import beer
    for g in gsm['langs'].values():
        g.transform.root_transform = gsm['root'].shared_transform
    pairs = []
    for l, g in gsm['langs'].items():
        k = ks[l]
        em = loops[l].modelset.original_modelset.modelsets[k.index()]
        pairs.append([g, [em[i * k.nstates:(i + 1) * k.nstates] for i in range(len(k.units))]])
    groups = [[]] if flags['root'] else [gr for g in gsm['langs'].values() for gr in g.conjugate_bayesian_parameters(keepgroups=True)]
    lang = [p for g in gsm['langs'].values() for p in g.transform.latent_posterior.parameters()]
    unit = [p for q in posts.values() for p in q.parameters()]
    pars = list(gsm['root'].parameters()) + lang + unit
    std = torch.optim.SGD(pars, lr=ls) if sgd else torch.optim.Adam(pars, lr=ls)
    opt = beer.VBOptimizer(beer.VBConjugateOptimizer(groups, lrate=lc), std)
    if state is not None:
        opt.load_state_dict(state)
    for _ in range(e):
        opt.init_step()
        elbo = beer.evidence_lower_bound(gsm['root'], pairs, univ_latent_nsamples=ns, latent_posts=list(posts.values()),
                                         latent_nsamples=us, params_nsamples=ps)
        elbo.backward()
        frozen = (list(gsm['root'].parameters()) if flags['root'] else []) + (lang if flags['lang'] else []) \
            + (unit if flags['unit'] else [])
        for p in frozen:
            p.grad = None
        if clip > 0:
            torch.nn.utils.clip_grad_norm_(pars, clip)
        opt.step()
    return float(elbo), opt.state_dict()


@facet(st.fixed_dictionaries({
    'case': cases(), 'other': st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=1, max_size=3)), 'udim': st.integers(1, 3),
    'flags': HFLAGS, 'e': st.integers(1, 3), 'n': st.integers(1, 2), 'u': st.integers(1, 2), 'k': st.integers(1, 2),
    'ls': st.sampled_from([.02, .1]), 'lc': st.sampled_from([1., .5]), 'sgd': st.sampled_from([False, False, True]),
    'clip': st.sampled_from([-1., -1., 5.]), 'state': st.booleans(), 'again': st.booleans(), 'seed': st.integers(0, 999),
    'order': st.booleans()}), quick=80, shards=4)
def hierarchy(spec, ctx):
    'Hierarchical subspace over several languages: generated densities, training, frozen parts and continuation.'
    case = dict(spec['case'], world=fill(spec['case']['world']))
    ks = {'L1': Case(case, ctx)}
    g0 = largest(ks['L1'])
    if spec['other'] is not None:
        ctx.label('two languages')
        ng = len(case['world']['groups'])
        units = [[f'o{i}', (g0 if j == 0 else j) % ng] for i, j in enumerate([0, 0, 0] + spec['other'])]
        world = fill(dict(case['world'], units=units, seed=case['world']['seed'] // 2))
        # Same configuration file for both.
        if len(world['groups']) == ng:
            ks['L2'] = Case(dict(case, world=world, prior=None), ctx)
    for k in ks.values():
        k.g = g0
        if largest(k) != g0:
            ctx.label('skipped language')
            return
    k = ks['L1']
    w, c, f = k.w, case['c'], k.f
    ctx.nontrivial(len(ks) > 1 or len(k.units) > 1 and k.nstates > 1)
    for l, q in ks.items():
        w.save(f'hmm_{l}', q.w.load(q.hmm))
    langs = list(ks)
    if spec['order']:
        langs.reverse()
    with open(w.path('map'), 'w') as out:
        out.writelines(f'{w.path("hmm_" + l)} {l}\n' for l in langs)
    loops = [f'sp_{l}' for l in ks]
    f.run('hshmm', 'mksphoneloop', '-g', c23.groupname(g0), '-l', case['ldim'], '-t', spec['udim'], w.path('hmm.yml'),
          w.path('map'), w.path('hg'), w.path('hp'), w.path('sp'), out=['hg', 'hp', 'sp'] + loops, c=c)

    def check(gname, pname, lname, what, bases, at=None, cc=c):
        'The loops hold the densities generated by the subspaces (those of the files `at`).'
        gsm, data = w.load(gname), w.load(pname)
        all_loops = w.load(lname)
        ctx.equal(sorted(all_loops), sorted(ks), f'{what}: languages')
        src, sposts = (gsm, data[0]) if at is None else (w.load(at[0]), w.load(at[1])[0])
        for l, q in ks.items():
            ctx.equal(tuple(sposts[l].params.mean.shape), (len(q.units), spec['udim']), f'{what}: unit embeddings of {l}')
            ctx.equal(tuple(src['langs'][l].transform.latent_posterior.params.mean.shape), (1, case['ldim']),
                      f'{what}: embedding of {l}')
            r = hier_rvecs(src['root'].shared_transform, src['langs'][l].transform, sposts[l], cc)
            lay = lay_of(gsm['langs'][l].model)
            for loop in (all_loops[l], w.load(f'{lname}_{l}')):
                q.check_loop(loop, r, lay, bases[l], f'{what} ({l})')
        return gsm, data

    bases = {l: w.load(f'hmm_{l}') for l in ks}
    check('hg', 'hp', 'sp', 'created loops', bases)
    # Random parameters, so that units and languages differ.
    gsm, data = w.load('hg'), w.load('hp')
    todo = [p.posterior.params for p in (gsm['root'].shared_transform.weights, gsm['root'].shared_transform.bias)] \
        + [g.transform.latent_posterior.params for g in gsm['langs'].values()] + [p.params for p in data[0].values()]
    for d in todo:
        d.mean.data = torch.from_numpy(w.rng.normal(size=tuple(d.mean.shape)) * .4).float()
        d.log_diag_cov.data = torch.from_numpy(w.rng.uniform(-3, 0, size=tuple(d.mean.shape))).float()
    w.save('hg', gsm)
    w.save('hp', data)
    with open(w.path('map2'), 'w') as out:
        out.writelines(f'{w.path("sp_" + l)} {l}\n' for l in ks)
    flag = spec['flags']
    if all(flag.values()):
        flag = dict(flag, unit=False)
    opt = ['-n', spec['n'], '-u', spec['u'], '-k', spec['k'], '-s', spec['ls'], '-c', spec['lc']]
    opt += [o for o, on in (('-p', flag['root']), ('-a', flag['lang']), ('-b', flag['unit']), ('--sgd', spec['sgd'])) if on]
    if spec['clip'] > 0:
        opt += ['--clip-grad', spec['clip']]
    for name, on in flag.items():
        ctx.label(f'frozen {name}', on)
    ctx.label('sgd', spec['sgd'])

    def train(e, a, out, *o, **kw):
        return f.run('hshmm', 'train', '-e', e, *opt, *o, *map(w.path, a), *map(w.path, out),
                     out=list(out) + [f'{out[2]}_{l}' for l in ks], extra=['st1', 'st2', 'st3'], **kw)

    # Against the library calls.
    lr = spec['ls'] if not spec['sgd'] else 1e-6
    opt[opt.index('-s') + 1] = lr
    kw = dict(ns=spec['n'], us=spec['u'], ps=spec['k'], ls=lr, lc=spec['lc'], sgd=spec['sgd'], flags=flag, clip=spec['clip'])
    torch.manual_seed(spec['seed'])
    ref_g, ref_d, ref_l = w.load('hg'), w.load('hp'), {l: w.load(f'sp_{l}') for l in ks}
    elbo, _ = hlib(ks, ref_g, ref_d[0], ref_l, spec['e'], state=None, **kw)
    res = train(spec['e'], ('hg', 'hp', 'map2'), ('hg1', 'hp1', 'sq'), seed=spec['seed'])
    same_bound(ctx, res, float(elbo), 'printed bound', 2e-3, 1e-2)
    got, want, was = hnumbers(w.load('hg1'), w.load('hp1')[0]), hnumbers(ref_g, ref_d[0]), hnumbers(gsm, data[0])
    same_numbers(ctx, got, want, 'hierarchical training')
    for name, v in got.items():
        still = np.array_equal(v, was[name])
        if flag[name.split('.')[0]]:
            ctx.ensure(still, f'{name} is trained although it is frozen')
        elif not spec['sgd']:
            ctx.ensure(not still, f'{name} is not trained')
    # Loops hold the densities of the last evaluation; runs can be continued.
    if spec['again']:
        ctx.label('continued')
        e = spec['e'] + 1
        r1 = train(e, ('hg', 'hp', 'map2'), ('one_g', 'one_p', 'one'), '-o', w.path('st1'), c=c)
        train(e - 1, ('hg', 'hp', 'map2'), ('head_g', 'head_p', 'head'), '-o', w.path('st2'), c=c)
        with open(w.path('map3'), 'w') as out:
            out.writelines(f'{w.path("head_" + l)} {l}\n' for l in ks)
        r2 = train(1, ('head_g', 'head_p', 'map3'), ('last_g', 'last_p', 'last'), '-o', w.path('st2'), c=c)
        check('one_g', 'one_p', 'one', 'trained loops', bases, at=('head_g', 'head_p'))
        same_numbers(ctx, hnumbers(w.load('last_g'), w.load('last_p')[0]), hnumbers(w.load('one_g'), w.load('one_p')[0]),
                     'hierarchical training in two runs')
        same_bound(ctx, r2, r1, 'bound of two runs', 2e-3, 1e-2)
    # A loop initialised from the trained hierarchy.
    for l in ks:
        f.run('hshmm', 'init', l, w.path('hg1'), w.path('hg1'), w.path('hp1'), w.path('sq'), w.path('ini'), w.path('ini_g'),
              out=['ini', 'ini_g'] + [f'ini_{m}' for m in ks], c=c)
        g1, p1 = w.load('hg1'), w.load('hp1')[0]
        r = hier_rvecs(g1['root'].shared_transform, g1['langs'][l].transform, p1[l], c)
        for loop in (w.load('ini')[l], w.load(f'ini_{l}')):
            ks[l].check_loop(loop, r, lay_of(g1['langs'][l].model), bases[l], f'initialised loop ({l})')
        same_numbers(ctx, hnumbers(w.load('ini_g'), p1), hnumbers(g1, p1), 'subspace after the initialisation', 0)
