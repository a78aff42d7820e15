"""C16: optimisers update the right parameters at each step."""
import io

import numpy as np
import torch
from hypothesis import strategies as st

from vf import dens, mods, zoo
from vf.core import facet
from props import c05

RULE = ('A case is a set of parameters in groups and a history of calls of the optimiser (reset, statistics, step, '
        'new learning rate, saved and restored state).  Non-trivial: at least two groups and two steps.')
ASSUMPTIONS = ['reference: numpy recursion of the natural parameters', 'float64']

FAMS = ['dirichlet', 'gamma', 'isonormalgamma', 'normalgamma', 'normalwishart']
param = st.tuples(st.sampled_from(FAMS), st.integers(2, 3), st.integers(0, 2))
op = st.one_of(
    st.just(['init']), st.just(['step']), st.just(['step']),
    st.tuples(st.just('stats'), st.lists(st.integers(0, 9), min_size=1, max_size=4), st.integers(0, 999)).map(list),
    st.tuples(st.just('lrate'), st.sampled_from([1., .5, .1, 0., .7])).map(list),
    st.just(['reload']), st.just(['grad']), st.just(['getstate']))


def valid_stats(p, rng):
    'Statistics of a few random observations (always leading to valid posteriors).'
    fam = mods.family_of(p.prior)
    shape = p.stats.shape
    rows = shape[0] if len(shape) > 1 else 1
    out = []
    for _ in range(rows):
        n = int(rng.integers(0, 5))
        if fam == 'dirichlet':
            x = rng.gamma(1., size=(n, shape[-1]))
            s = mods.T(fam, x)
        elif fam == 'gamma':
            d = shape[-1] // 2
            x = rng.gamma(1., size=(n, d))
            s = np.concatenate([-x, np.ones((n, d))], axis=1)
        else:
            d = {'isonormalgamma': lambda k: k - 3, 'normalgamma': lambda k: (k - 2) // 2,
                 'normalwishart': lambda k: int(round((np.sqrt(4 * k - 7) - 1) / 2))}[fam](shape[-1])
            s = mods.T(fam, rng.normal(size=(n, d)))
        out.append(s.sum(0))
    return np.stack(out).reshape(shape)


@facet(st.fixed_dictionaries({
    'groups': st.lists(st.lists(param, min_size=1, max_size=3), min_size=1, max_size=4),
    'extra': st.lists(param, min_size=0, max_size=2), 'lrate': st.sampled_from([1., .5, .2]),
    'ops': st.lists(op, min_size=4, max_size=20), 'combined': st.booleans(), 'generator': st.booleans(),
    'seed': st.integers(0, 10 ** 6)}), quick=1500)
def history(spec, ctx):
    'Any history of optimiser calls against a reference.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    mk = lambda d: mods.random_param(d[0], d[1], d[2], rng)
    groups = [[mk(d) for d in g] for g in spec['groups']]
    extra = [mk(d) for d in spec['extra']]
    pars = [p for g in groups for p in g] + extra
    G = len(groups)
    w = torch.nn.Parameter(mods.t64(rng.normal(size=3), watch=False))
    free = torch.nn.Parameter(mods.t64(rng.normal(size=2), watch=False))
    target = rng.normal(size=3)
    slr = .05

    def new_optim(lrate):
        gs = ((p for p in g) for g in groups) if spec['generator'] else [list(g) for g in groups]
        c = beer.VBConjugateOptimizer(gs, lrate=lrate)
        if not spec['combined']:
            return c, c, None
        s = torch.optim.SGD([w], lr=slr)
        return beer.VBOptimizer(c, s), c, s

    optim, cjg, std = new_optim(spec['lrate'])
    # Reference state.
    prior = [mods.nat_of(p.prior) for p in pars]
    post = [mods.nat_of(p.posterior) for p in pars]
    stats = [np.zeros_like(v) for v in post]
    big = [1 + np.abs(a).max() + np.abs(b).max() for a, b in zip(prior, post)]
    wref, gref, fref = w.detach().numpy().copy(), np.zeros(3), free.detach().numpy().copy()
    lrate, count, steps = spec['lrate'], 0, 0
    idx = {id(p): i for i, p in enumerate(pars)}
    ctx.label('combined', spec['combined'])
    for op in spec['ops']:
        if op[0] == 'init':
            optim.init_step()
            for g in groups:
                for p in g:
                    stats[idx[id(p)]] = np.zeros_like(stats[idx[id(p)]])
            if std is not None:
                gref = np.zeros(3)
        elif op[0] == 'stats':
            r = np.random.default_rng(op[2])
            for i in {v % len(pars) for v in op[1]} if pars else ():
                s = valid_stats(pars[i], r)
                pars[i].store_stats(mods.t64(s, watch=False))
                stats[i] = s.reshape(post[i].shape)
                big[i] = max(big[i], np.abs(s).max())
        elif op[0] == 'grad':
            loss = ((w - mods.t64(target)) ** 2).sum() + (free ** 2).sum()
            loss.backward()
            gref = gref + 2 * (wref - target)
        elif op[0] == 'lrate':
            cjg.lrate = lrate = op[1]
        elif op[0] == 'reload':
            # State saved by one job and restored by the next one.
            buf = io.BytesIO()
            torch.save(optim.state_dict(), buf)
            buf.seek(0)
            optim, cjg, std = new_optim(.123)
            optim.load_state_dict(torch.load(buf, weights_only=False))
            ctx.equal(cjg.lrate, lrate, 'restored learning rate')
        elif op[0] == 'getstate':
            optim.state_dict()
        else:
            optim.step()
            steps += 1
            if G:
                for p in groups[count % G]:
                    i = idx[id(p)]
                    post[i] = post[i] + lrate * (prior[i] + stats[i] - post[i])
            count += 1
            if std is not None:
                wref = wref - slr * gref
        for i, p in enumerate(pars):
            ctx.allclose(p.posterior.natural_parameters().reshape(post[i].shape), post[i],
                         f'posterior of the parameter {i} after {op[0]}', rtol=1e-7, scale=big[i])
        ctx.allclose(w, wref, 'parameter trained by gradient', rtol=1e-9)
    for i, p in enumerate(pars):
        ctx.allclose(p.prior.natural_parameters().reshape(prior[i].shape), prior[i], 'prior', rtol=1e-12, scale=big[i])
    ctx.allclose(free, fref, 'parameter which is not handed over', rtol=0, atol=0)
    ctx.label('several cycles', G > 0 and steps > G)
    ctx.nontrivial(G > 1 and steps > 1)


@facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['mixture', 'mixtureset', 'hmm', 'hmm-mixture', 'phoneloop', 'normalset', 'bigram',
                             'jointmixture', 'nested', 'jointhmm']),
    'cov': st.sampled_from(['isotropic', 'diagonal', 'full']), 'dim': st.integers(1, 2), 'k': st.integers(2, 3),
    'sub': st.sampled_from(['all', 'first', 'last', 'none', 'conjugate']), 'steps': st.integers(1, 5),
    'lrate': st.sampled_from([1., .5]), 'n': st.integers(9, 12), 'seed': st.integers(0, 10 ** 6)}), quick=500)
def training(spec, ctx):
    'Training a model with all or some of its groups: the listed group follows the recursion, others stay.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    model = zoo.random_model(spec['kind'], spec['cov'], spec['dim'], spec['k'], rng)
    if spec['kind'] in ('mixtureset', 'normalset'):
        model = beer.Mixture(mods.random_categorical(len(model), rng), model)
    groups = model.mean_field_factorization()
    if spec['sub'] == 'conjugate':
        chosen = list(model.conjugate_bayesian_parameters(keepgroups=True))
        ctx.equal([[id(p) for p in g] for g in chosen], [[id(p) for p in g] for g in groups],
                  'groups of conjugate parameters')
    else:
        chosen = {'all': groups, 'first': groups[:1], 'last': groups[-1:], 'none': []}[spec['sub']]
    pars = mods.conj_params(model)
    optim = beer.VBConjugateOptimizer(chosen, lrate=spec['lrate'])
    ctx.label(spec['kind'])
    ctx.label(spec['sub'])
    ctx.nontrivial(len(pars) > 1 and spec['steps'] > 1)
    for step in range(spec['steps']):
        x = mods.t64(rng.normal(size=(spec['n'], spec['dim'])) * 2)
        before = {p: mods.nat_of(p.posterior) for p in pars}
        optim.init_step()
        elbo = beer.evidence_lower_bound(model, x, datasize=len(x))
        elbo.backward()
        optim.step()
        moving = chosen[step % len(chosen)] if chosen else []
        for p in pars:
            got = mods.nat_of(p.posterior)
            if p in moving:
                want = before[p] + spec['lrate'] * (mods.nat_of(p.prior) + p.stats.numpy().reshape(got.shape) - before[p])
                ctx.allclose(got, want, f'updated parameter, step {step}', rtol=1e-7,
                             scale=1 + np.abs(want).max() + np.abs(before[p]).max())
            else:
                ctx.ensure(np.array_equal(got, before[p]), f'a parameter outside the updated group changed, step {step}')


@facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['mixture', 'hmm', 'hmm-mixture', 'phoneloop', 'bigram', 'jointmixture', 'nested',
                             'jointhmm']), 'dim': st.integers(1, 2),
    'k': st.integers(2, 3), 'n': st.integers(9, 12), 'epochs': st.integers(1, 3), 'seed': st.integers(0, 10 ** 6)}),
    quick=300)
def no_leak(spec, ctx):
    'Two models trained on the same data end up equal whatever statistics one of them held before each reset.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    mk = lambda: zoo.random_model(spec['kind'], 'diagonal', spec['dim'], spec['k'], np.random.default_rng(spec['seed'] + 1))
    a, b = mk(), mk()
    opts = [beer.VBConjugateOptimizer(m.mean_field_factorization()) for m in (a, b)]
    ctx.label(spec['kind'])
    ctx.nontrivial(spec['epochs'] > 1)
    for _ in range(spec['epochs']):
        x = mods.t64(rng.normal(size=(spec['n'], spec['dim'])) * 2)
        for m, o, dirty in ((a, opts[0], False), (b, opts[1], True)):
            if dirty:
                junk = mods.t64(rng.normal(size=(spec['n'] + 2, spec['dim'])))
                beer.evidence_lower_bound(m, junk, datasize=77).backward()
            o.init_step()
            beer.evidence_lower_bound(m, x, datasize=len(x)).backward()
            o.step()
    for p, q in zip(mods.conj_params(a), mods.conj_params(b)):
        w = mods.nat_of(p.posterior)
        ctx.allclose(mods.nat_of(q.posterior), w, 'posterior after training', rtol=1e-8, scale=1 + np.abs(w).max())


@facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['mixture', 'hmm', 'hmm-mixture', 'phoneloop', 'bigram', 'jointmixture', 'nested', 'jointhmm']),
    'cov': st.sampled_from(['isotropic', 'diagonal', 'full']), 'dim': st.integers(1, 2), 'k': st.integers(2, 3),
    'which': st.sampled_from(['all', 'first', 'last']), 'steps': st.integers(1, 4), 'lrate': st.sampled_from([1., .5]),
    'n': st.integers(9, 12), 'seed': st.integers(0, 10 ** 6)}), quick=250)
def subspace(spec, ctx):
    'Parameters generated by a subspace are never moved by the conjugate optimiser; they receive their statistics.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    model = zoo.random_model(spec['kind'], spec['cov'], spec['dim'], spec['k'], rng)
    emission = list(model.modelset.bayesian_parameters())
    chosen = {'all': emission, 'first': emission[:1], 'last': emission[-1:]}[spec['which']]
    ctx.label(spec['kind'])
    ctx.label(spec['which'])
    prior = beer.Normal.create(torch.zeros(1), torch.ones(1), cov_type='full').double()
    new = {}
    for p in chosen:
        q = beer.SubspaceBayesianParameter.from_parameter(p, prior).double()
        q.pdfvec = p.natural_form().clone()
        new[p] = q
    former = [[id(new.get(p, p)) for p in g] for g in model.mean_field_factorization()]
    model.replace_parameters(new)
    groups = model.mean_field_factorization()
    ctx.equal([[id(p) for p in g] for g in groups], former, 'groups after the replacement')
    hidden = {id(q) for q in new.values()}
    groups = [[p for p in g if id(p) not in hidden] for g in groups]
    groups = [g for g in groups if g]
    got = list(model.conjugate_bayesian_parameters(keepgroups=True))
    ctx.equal([[id(p) for p in g] for g in got], [[id(p) for p in g] for g in groups], 'groups of conjugate parameters')
    ctx.equal([id(p) for p in model.conjugate_bayesian_parameters()], [id(p) for g in groups for p in g],
              'conjugate parameters')
    pars = [p for g in groups for p in g]
    vecs = [q.pdfvec.clone() for q in new.values()]
    ctx.nontrivial(bool(pars) and spec['steps'] > 1)
    optim = beer.VBConjugateOptimizer(got, lrate=spec['lrate'])
    for step in range(spec['steps']):
        x = mods.t64(rng.normal(size=(spec['n'], spec['dim'])) * 2)
        before = {p: mods.nat_of(p.posterior) for p in pars}
        optim.init_step()
        stats = model.sufficient_statistics(x)
        model.expected_log_likelihood(stats)
        acc = {id(p): v.clone() for p, v in model.accumulate(stats).items()}
        elbo = beer.evidence_lower_bound(model, x, datasize=2 * len(x))
        elbo.backward()
        for q in new.values():
            ctx.allclose(q.stats, 2 * acc[id(q)].reshape(q.stats.shape), 'statistics of a subspace parameter', rtol=1e-8,
                         scale=1 + float(acc[id(q)].abs().max()))
        optim.step()
        moving = groups[step % len(groups)] if groups else []
        for p in pars:
            got = mods.nat_of(p.posterior)
            want = before[p]
            if p in moving:
                want = before[p] + spec['lrate'] * (mods.nat_of(p.prior) + p.stats.numpy().reshape(got.shape) - before[p])
            ctx.allclose(got, want, f'conjugate parameter, step {step}', rtol=1e-7,
                         scale=1 + np.abs(want).max() + np.abs(before[p]).max())
        for q, v in zip(new.values(), vecs):
            ctx.ensure(torch.equal(q.pdfvec, v), 'a parameter generated by a subspace was moved')
