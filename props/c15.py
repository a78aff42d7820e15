"""C15: composed sets of models."""
import numpy as np
import torch
from hypothesis import strategies as st

from vf import dens, mods, zoo
from vf.core import facet
from props import c08

RULE = ('A case is a tree of model sets: Normal sets, joint, repeated and sets of mixtures, possibly under a '
        'dynamic order or in a mixture/HMM, with frames and responsibilities.  Non-trivial: a composed set with '
        'at least two models.')
ASSUMPTIONS = ['reference: recursion over the tree in numpy', 'a joint set lists each member once']

leaf = st.fixed_dictionaries({'t': st.just('normal'), 'n': mods.sizes(1, 4, (5, 40), 30)})


def extend(inner):
    return st.one_of(
        st.fixed_dictionaries({'t': st.just('joint'), 'parts': st.lists(inner, min_size=1, max_size=3)}),
        st.fixed_dictionaries({'t': st.just('repeat'), 'r': mods.sizes(1, 3, (4, 12), 30), 'of': inner}),
        st.fixed_dictionaries({'t': st.just('mix'), 'c': mods.sizes(1, 3, (4, 12), 30), 'of': inner}))


trees = st.recursive(leaf, extend, max_leaves=4)
specs = {'tree': trees, 'cov': st.sampled_from(['isotropic', 'diagonal', 'full']), 'dim': st.integers(1, 3),
         'n': mods.sizes(1, 6), 'seed': st.integers(0, 10 ** 6)}


class Node:
    'A model set and its reference.'

    def __init__(self, spec, cov, dim, rng):
        import beer
        self.t = spec['t']
        self.fam = mods.COV[cov]
        if self.t == 'normal':
            self.model = mods.normal_set(cov, dim, spec['n'], rng)
        elif self.t == 'joint':
            self.kids = [Node(s, cov, dim, rng) for s in spec['parts']]
            self.model = beer.JointModelSet([k.model for k in self.kids])
        elif self.t == 'repeat':
            self.kids = [Node(spec['of'], cov, dim, rng)]
            self.r = spec['r']
            self.model = beer.RepeatedModelSet(self.kids[0].model, self.r)
        else:
            # Components: as many copies of the inner set as asked.
            inner = Node(spec['of'], cov, dim, rng)
            self.c = spec['c']
            if len(inner) % self.c:
                rep = Node.__new__(Node)
                rep.t, rep.fam, rep.kids, rep.r = 'repeat', inner.fam, [inner], self.c
                rep.model = beer.RepeatedModelSet(inner.model, self.c)
                inner = rep
            self.kids = [inner]
            self.cats = mods.random_categorical_set(len(inner) // self.c, self.c, rng)
            self.model = beer.MixtureSet(self.cats, inner.model)

    def __len__(self):
        if self.t == 'normal':
            return len(mods.std_of(self.model.means_precisions.posterior))
        if self.t == 'joint':
            return sum(map(len, self.kids))
        if self.t == 'repeat':
            return self.r * len(self.kids[0])
        return len(self.kids[0]) // self.c

    @property
    def sliceable(self):
        'Normal sets and mixtures of them: the only sets with slices.'
        return self.t == 'normal' or self.t == 'mix' and self.kids[0].sliceable

    @property
    def indexable(self):
        'A member of a mixture set is a slice of its components.'
        if self.t == 'mix':
            return self.sliceable
        return all(k.indexable for k in getattr(self, 'kids', []))

    def joint(self, x):
        lw = np.stack([c08.elog_weights(p) for p in mods.std_of(self.cats.weights.posterior)])
        return self.kids[0].llh(x).reshape(len(x), len(self), self.c) + lw

    def llh(self, x):
        if self.t == 'normal':
            return mods.set_llh(self.model.means_precisions, x)
        if self.t == 'joint':
            return np.concatenate([k.llh(x) for k in self.kids], axis=1)
        if self.t == 'repeat':
            return np.tile(self.kids[0].llh(x), (1, self.r))
        return mods.logsumexp(self.joint(x), 2)

    def acc(self, x, r, out):
        if self.t == 'normal':
            p = self.model.means_precisions
            out[p] = out.get(p, 0) + r.T @ mods.T(self.fam, x)
        elif self.t == 'joint':
            start = 0
            for k in self.kids:
                k.acc(x, r[:, start:start + len(k)], out)
                start += len(k)
        elif self.t == 'repeat':
            self.kids[0].acc(x, r.reshape(len(x), self.r, -1).sum(1), out)
        else:
            j = self.joint(x)
            w = np.exp(j - mods.logsumexp(j, 2)[:, :, None]) * r[:, :, None]
            out[self.cats.weights] = np.stack([mods.T('dirichlet', w[:, i]).sum(0) for i in range(len(self))])
            self.kids[0].acc(x, w.reshape(len(x), -1), out)
        return out


def check_set(ctx, node, x, r, msg=''):
    model, xt = node.model, mods.t64(x)
    ctx.equal(len(model), len(node), f'number of models{msg}')
    stats = model.sufficient_statistics(xt)
    llh = node.llh(x)
    scale = 1 + float(np.abs(llh).max())
    got = model.expected_log_likelihood(stats)
    ctx.allclose(got, llh, f'log-likelihoods of the set{msg}', rtol=1e-8, scale=scale)
    want = node.acc(x, r, {})
    acc = model.accumulate(stats, mods.t64(r))
    ctx.ensure(set(acc) == set(want), f'parameters having statistics{msg}')
    for p, w in want.items():
        ctx.allclose(acc[p], w, f'accumulated statistics{msg}', rtol=1e-8, scale=(1 + np.abs(w).max()) * len(x))
    return llh, scale


@facet(st.fixed_dictionaries(specs), quick=1500)
def composition(spec, ctx):
    'Likelihoods, statistics, size and members of composed sets.'
    rng = np.random.default_rng(spec['seed'])
    node = Node(spec['tree'], spec['cov'], spec['dim'], rng)
    n = spec['n']
    x = rng.normal(size=(n, spec['dim'])) * 2
    r = rng.gamma(1., size=(n, len(node)))
    ctx.label(node.t)
    ctx.nontrivial(node.t != 'normal' and len(node) > 1)
    llh, scale = check_set(ctx, node, x, r)
    pars = mods.conj_params(node.model)
    groups = node.model.mean_field_factorization()
    ctx.ensure(sorted(hash(p) for g in groups for p in g) == sorted(map(hash, pars)), 'listed parameters')
    xt = mods.t64(x)
    for i in range(len(node)) if node.indexable else ():
        m = node.model[i]
        got = m.expected_log_likelihood(m.sufficient_statistics(xt))
        ctx.allclose(got.reshape(-1), llh[:, i], f'log-likelihood of the member {i}', rtol=1e-8, scale=scale)
    if node.t == 'joint':
        ctx.raises(IndexError, lambda: node.model[len(node)], 'index out of range')
        ctx.raises(ValueError, lambda: node.model[-1], 'negative index')
    if node.sliceable:
        a, b = sorted(int(v) for v in rng.integers(0, len(node) + 1, size=2))
        for s in (slice(a, b), slice(a, None), slice(None, b)):
            w = llh[:, s]
            if not w.shape[1]:
                continue
            m = node.model[s]
            ctx.equal(len(m), w.shape[1], 'size of a slice')
            got = m.expected_log_likelihood(m.sufficient_statistics(xt))
            ctx.allclose(got, w, 'log-likelihoods of a slice', rtol=1e-8, scale=scale)
        m = node.model[-1]
        ctx.allclose(m.expected_log_likelihood(m.sufficient_statistics(xt)).reshape(-1), llh[:, -1],
                     'log-likelihood of the last member', rtol=1e-8, scale=scale)


@facet(st.fixed_dictionaries({**specs, 'orders': st.lists(st.lists(st.integers(0, 50), min_size=1, max_size=8),
                                                         min_size=1, max_size=3)}), quick=900)
def reordering(spec, ctx):
    'Sets whose order changes at each call, with members used several times or not at all.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    node = Node(spec['tree'], spec['cov'], spec['dim'], rng)
    model = beer.DynamicallyOrderedModelSet(node.model)
    n, K = spec['n'], len(node)
    ctx.equal(len(model), K, 'number of models')
    ctx.nontrivial(K > 1)
    for o in [None] + spec['orders'] + [None]:
        order = list(range(K)) if o is None else [v % K for v in o]
        x = rng.normal(size=(n, spec['dim'])) * 2
        llh = node.llh(x)[:, order]
        scale = 1 + float(np.abs(llh).max())
        stats = model.sufficient_statistics(mods.t64(x))
        got = model.expected_log_likelihood(stats) if o is None else model.expected_log_likelihood(stats, order)
        ctx.allclose(got, llh, 'log-likelihoods in the requested order', rtol=1e-8, scale=scale)
        r = rng.gamma(1., size=(n, len(order)))
        full = np.zeros((n, K))
        for i, k in enumerate(order):
            full[:, k] += r[:, i]
        ctx.label('repeated members', len(set(order)) < len(order))
        want = node.acc(x, full, {})
        acc = model.accumulate(stats, mods.t64(r))
        ctx.ensure(set(acc) == set(want), 'parameters having statistics')
        for p, w in want.items():
            ctx.allclose(acc[p], w, 'accumulated statistics', rtol=1e-8, scale=(1 + np.abs(w).max()) * n)
    if not node.indexable:
        return
    i = int(rng.integers(0, K))
    m, xt = model[i], mods.t64(x)
    w = node.llh(x)[:, i]
    ctx.allclose(m.expected_log_likelihood(m.sufficient_statistics(xt)).reshape(-1), w, 'member of the set',
                 rtol=1e-8, scale=1 + float(np.abs(w).max()))


@facet(st.fixed_dictionaries({**specs, 'host': st.sampled_from(['set', 'mixture', 'hmm', 'phoneloop']),
                              'which': st.integers(0, 50), 'twin': st.booleans()}),
       quick=600)
def replacing(spec, ctx):
    'Replacing a parameter affects every model holding it and no other.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    node = Node(spec['tree'], spec['cov'], spec['dim'], rng)
    K = len(node)
    host = node.model
    if spec['host'] == 'mixture':
        host = beer.Mixture.create(node.model, mods.random_categorical(K, rng))
    elif spec['host'] == 'hmm':
        i, f, t, ids = zoo.random_graph(K, K, rng)
        host = beer.HMM.create(zoo.compiled(i, f, t, ids), node.model)
    elif spec['host'] == 'phoneloop' and K >= 2 and K % 2 == 0:
        host = zoo.phone_loop([2] * (K // 2), node.model, rng)
    twins = []
    if spec['twin'] and host is node.model:
        # Other models holding the same parameters.
        twins = [(k, beer.NormalSet(k.model.means_precisions)) for k in all_nodes(node) if k.t == 'normal']
        host = beer.JointModelSet([t for _, t in twins[:1]] + [host] + [t for _, t in twins[1:]])
        ctx.label('parameter held by several models')
    pars = list({id(p): p for p in mods.conj_params(host)}.values())
    old = pars[spec['which'] % len(pars)]
    ctx.label(spec['host'])
    ctx.label(node.t)
    ctx.nontrivial(len(pars) > 1)
    fam, like = mods.family_of(old.prior), old.posterior.natural_parameters()
    n_old = len(mods.std_of(old.posterior))
    dim = spec['dim'] if fam != 'dirichlet' else like.shape[-1]
    new = mods.random_param(fam, dim, n_old if like.dim() > 1 else 0, rng)
    x = rng.normal(size=(spec['n'], spec['dim'])) * 2
    other = [p for p in pars if p is not old]
    host.replace_parameters({old: new})
    ctx.ensure({id(p) for p in mods.conj_params(host)} == {id(p) for p in other} | {id(new)},
               'parameters of the model after the replacement')
    listed = [p for g in host.mean_field_factorization() for p in g]
    ctx.ensure({id(p) for p in listed} == {id(p) for p in other} | {id(new)},
               'parameters listed for training after the replacement')
    # The reference reads the parameters through the models, the set must agree with it.
    r = rng.gamma(1., size=(spec['n'], K))
    for k in all_nodes(node):
        if k.t == 'mix':
            k.cats = k.model.categoricalset
    check_set(ctx, node, x, r, ' after the replacement')
    for k, t in twins:
        ctx.ensure(t.means_precisions is k.model.means_precisions,
                   'a model holding the parameter was forgotten by the replacement')


def all_nodes(node):
    return [node] + [d for k in getattr(node, 'kids', []) for d in all_nodes(k)]


@facet(st.fixed_dictionaries({
    'k': st.integers(1, 4), 'n': st.integers(1, 5), 'dim': st.integers(2, 4), 'seed': st.integers(0, 10 ** 6)}),
    quick=300)
def categorical_sets(spec, ctx):
    'Sets of categoricals: each member alone gives its column.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    k, dim, n = spec['k'], spec['dim'], spec['n']
    s = mods.random_categorical_set(k, dim, rng)
    lw = np.stack([c08.elog_weights(p) for p in mods.std_of(s.weights.posterior)])
    x = np.eye(dim)[rng.integers(0, dim, size=n)]
    if spec['seed'] % 2:
        x = rng.gamma(1., size=(n, dim))
    stats = s.sufficient_statistics(mods.t64(x))
    ctx.nontrivial(k > 1)
    ctx.equal(len(s), k, 'number of models')
    sc = 1 + float(np.abs(x @ lw.T).max())
    ctx.allclose(s.expected_log_likelihood(stats), x @ lw.T, 'log-likelihoods', rtol=1e-9, scale=sc)
    for i in range(k):
        m = s[i]
        ctx.allclose(m.expected_log_likelihood(m.sufficient_statistics(mods.t64(x))).reshape(-1), (x @ lw.T)[:, i],
                     'log-likelihood of a member', rtol=1e-9, scale=sc)
        ctx.allclose(m.mean, s.mean[i], 'mean of a member', rtol=1e-12)
    part = s[:max(1, k - 1)]
    ctx.equal(len(part), max(1, k - 1), 'size of a slice')
    ctx.allclose(part.expected_log_likelihood(stats), (x @ lw.T)[:, :max(1, k - 1)], 'slice', rtol=1e-9, scale=sc)
    r = rng.gamma(1., size=(n, k))
    acc = s.accumulate(stats, mods.t64(r))
    ctx.allclose(acc[s.weights], r.T @ mods.T('dirichlet', x), 'statistics', rtol=1e-9, scale=float(x.sum() * k + 1))
