"""C06: the evidence lower bound against the exact log evidence."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy import stats as sps
from scipy.special import gammaln

from vf import dens, mods
from vf.core import facet
from props import c05

RULE = ('A case is a conjugate model with prior and posterior, data, mini-batch and data-set size.  '
        'Non-trivial: more than one frame.')
ASSUMPTIONS = ['closed-form log marginal likelihoods computed with numpy/scipy', 'float64']


def log_evidence(kind, model, prior, x):
    post = c05.closed_form(kind, model, prior, x)
    fam = mods.family_of(c05.the_param(model).prior)
    ev = dens.log_norm(fam, post) - dens.log_norm(fam, prior)
    if kind == 'gamma':
        s = model.shape.double().numpy()
        return float(ev + np.sum((s - 1) * np.log(x) - gammaln(s)))
    if kind != 'categorical':
        ev -= .5 * x.size * math.log(2 * math.pi)
    return float(ev)


def exp_llh(kind, model, post, x):
    if kind == 'gamma':
        s = model.shape.double().numpy()
        m = dens.mean_stats('gamma', post)
        d = len(s)
        return np.sum(s * m[d:] - gammaln(s) + (s - 1) * np.log(x) - m[:d] * x, axis=1)
    fam = {'categorical': 'dirichlet'}.get(kind) or mods.COV[kind]
    return mods.expected_llh(fam, post, x)


@facet(st.fixed_dictionaries({
    'kind': st.sampled_from(c05.KINDS), 'dim': st.integers(1, 4), 'n': mods.sizes(1, 20, (65, 1500)),
    'seed': st.integers(0, 10 ** 6)}), quick=1200)
def bound(spec, ctx):
    'ELBO <= log evidence for any posterior, equality for the exact one.'
    import beer
    kind = spec['kind']
    rng = np.random.default_rng(spec['seed'])
    model = c05.build(kind, spec['dim'], rng)
    x = c05.data(kind, spec['dim'], spec['n'], rng)
    par = c05.the_param(model)
    prior, = mods.std_of(par.prior)
    ev = log_evidence(kind, model, prior, x)
    scale = 1 + abs(ev) + sum(np.abs(dens.natural(mods.family_of(par.prior), p)).max()
                              for p in mods.std_of(par.prior) + mods.std_of(par.posterior))
    ctx.label(kind)
    ctx.nontrivial(spec['n'] > 1)
    elbo = beer.evidence_lower_bound(model, mods.t64(x))
    fam = mods.family_of(par.prior)
    post, = mods.std_of(par.posterior)
    want = float(exp_llh(kind, model, post, x).sum()) - float(dens.kl(fam, post, prior))
    ctx.allclose(float(elbo), want, 'value of the bound', rtol=1e-7, scale=scale + abs(want))
    ctx.ensure(float(elbo) <= ev + 1e-7 * (scale + abs(want)),
               lambda: f'the bound {float(elbo)} exceeds the log evidence {ev}')
    optim = beer.VBConjugateOptimizer(model.mean_field_factorization(), lrate=1.)
    optim.init_step()
    elbo.backward()
    optim.step()
    elbo = beer.evidence_lower_bound(model, mods.t64(x))
    ctx.allclose(float(elbo), ev, 'bound for the exact posterior', rtol=1e-7, scale=scale)


@facet(st.fixed_dictionaries({
    'dim': st.integers(1, 3), 'n': st.integers(1, 6), 'seed': st.integers(0, 10 ** 6)}), quick=250)
def predictive(spec, ctx):
    'The bound at the exact posterior is the product of Student predictive densities.'
    import beer
    rng = np.random.default_rng(spec['seed'])
    dim, n = spec['dim'], spec['n']
    model = mods.normal_model('full', dim, rng)
    x = c05.data('full', dim, n, rng)
    par = c05.the_param(model)
    p, = mods.std_of(par.prior)
    ev = 0.
    for xi in x:
        df = p['dof'][0] - dim + 1
        k = p['scale'][0]
        shape = np.linalg.inv(p['scale_matrix']) * (k + 1) / (k * df)
        shape = .5 * (shape + shape.T)
        ev += sps.multivariate_t(p['mean'], shape, df=df).logpdf(xi)
        p = mods.conj_update('normalwishart', p, xi[None])
    ctx.nontrivial(n > 1)
    optim = beer.VBConjugateOptimizer(model.mean_field_factorization(), lrate=1.)
    optim.init_step()
    beer.evidence_lower_bound(model, mods.t64(x)).backward()
    optim.step()
    ctx.allclose(float(beer.evidence_lower_bound(model, mods.t64(x))), ev, 'log evidence',
                 rtol=1e-6, scale=10.)


@facet(st.fixed_dictionaries({
    'kind': st.sampled_from(c05.KINDS), 'dim': st.integers(1, 3), 'nb': st.integers(1, 10),
    'datasize': st.sampled_from([-1, 0, 1, 7, 50, 1000]), 'seed': st.integers(0, 10 ** 6)}), quick=700)
def minibatch(spec, ctx):
    'The mini-batch value is scaled likelihood minus divergence.'
    import beer
    kind, nb, ds = spec['kind'], spec['nb'], spec['datasize']
    rng = np.random.default_rng(spec['seed'])
    model = c05.build(kind, spec['dim'], rng)
    x = c05.data(kind, spec['dim'], nb, rng)
    par = c05.the_param(model)
    fam = mods.family_of(par.prior)
    (prior,), (post,) = mods.std_of(par.prior), mods.std_of(par.posterior)
    llh = exp_llh(kind, model, post, x)
    got = model.expected_log_likelihood(model.sufficient_statistics(mods.t64(x)))
    ctx.ensure(got.numel() == nb, 'one log-likelihood per frame')
    ctx.allclose(got.reshape(-1), llh, 'expected log-likelihood', rtol=1e-8, scale=1 + np.abs(llh).max())
    n = ds if ds > 0 else nb
    want = n / nb * llh.sum() - float(dens.kl(fam, post, prior))
    elbo = beer.evidence_lower_bound(model, mods.t64(x), datasize=ds)
    ctx.nontrivial(nb > 1)
    ctx.label(kind)
    ctx.label('default size', ds <= 0)
    ctx.allclose(float(elbo), want, 'value of the bound', rtol=1e-8, scale=1 + abs(want))


@facet(st.fixed_dictionaries({
    'kind': st.sampled_from(['mixture', 'mixtureset', 'hmm', 'phoneloop', 'bigram', 'normalset', 'categoricalset',
                             'jointmixture', 'nested', 'jointhmm']),
    'cov': st.sampled_from(['isotropic', 'diagonal', 'full']), 'dim': st.integers(1, 2),
    'k': st.integers(1, 3), 'n': st.integers(9, 12), 'datasize': st.sampled_from([-1, 40]),
    'seed': st.integers(0, 10 ** 6)}), quick=700)
def composed(spec, ctx):
    'The bound of composed models subtracts the divergence of every parameter once.'
    import beer
    from vf import zoo
    rng = np.random.default_rng(spec['seed'])
    model = zoo.random_model(spec['kind'], spec['cov'], spec['dim'], spec['k'], rng)
    x = mods.t64(rng.normal(size=(spec['n'], spec['dim'])))
    pars = mods.conj_params(model)
    kls = [mods.kl_of(p.posterior, p.prior) for p in pars]
    ctx.label(spec['kind'])
    ctx.nontrivial(len(pars) > 1)
    got = model.kl_div_posterior_prior()
    ctx.allclose(float(got.sum()), sum(kls), 'divergence of the posteriors from the priors',
                 rtol=1e-8, scale=10.)
    ctx.ensure(set(model.bayesian_parameters()) == set(pars), 'listed parameters')
    if spec['kind'] in ('normalset', 'categoricalset', 'mixtureset'):
        return
    llh = model.expected_log_likelihood(model.sufficient_statistics(x))
    ds = spec['datasize'] if spec['datasize'] > 0 else spec['n']
    want = ds / spec['n'] * float(llh.sum()) - sum(kls)
    elbo = beer.evidence_lower_bound(model, x, datasize=spec['datasize'])
    ctx.allclose(float(elbo), want, 'value of the bound', rtol=1e-8, scale=1 + abs(want))


@facet(st.integers(0, 3), quick=4, shards=1)
def misuse(which, ctx):
    'Incomplete requests are rejected.'
    import beer
    model = mods.normal_model('full', 2, np.random.default_rng(which))
    ctx.nontrivial()
    calls = [lambda: beer.evidence_lower_bound(),
             lambda: beer.evidence_lower_bound(model),
             lambda: beer.evidence_lower_bound(minibatch_data=torch.zeros(2, 2)),
             lambda: beer.evidence_lower_bound(datasize=0)]
    ctx.raises(ValueError, calls[which], 'incomplete arguments')
