"""What a model does, as numbers: run in the process of the check or in a new
one (python probe.py REPO JOBS OUT, where JOBS is a pickled list)."""
import pickle
import sys


def modelset(model):
    import beer
    return isinstance(model, beer.models.modelset.ModelSet)


def train(model, x, resps, lrate):
    'One update of the conjugate parameters (of every mean-field group).'
    import beer
    import torch
    if hasattr(model, 'encoder') or hasattr(model, 'latent_prior'):
        return
    groups = [list(g) for g in model.conjugate_bayesian_parameters(keepgroups=True)]
    if not groups:
        return
    optim = beer.VBConjugateOptimizer(groups, lrate=lrate)
    for _ in groups:
        optim.init_step()
        if modelset(model):
            stats = model.sufficient_statistics(x)
            r = resps[:, :len(model)]
            # Models with latent variables keep their responsibilities.
            model.expected_log_likelihood(stats)
            acc = model.accumulate(stats, r)
            for p in model.bayesian_parameters():
                p.store_stats(acc[p])
            model.clear_cache()
        else:
            elbo = beer.evidence_lower_bound(model, x, datasize=2 * len(x))
            elbo.backward()
        optim.step()


def probe(model, x, kind):
    import torch
    out = {}
    with torch.no_grad():
        torch.manual_seed(5)
        if kind == 'gsm':
            gsm, models, posts = model
            pv = gsm.expected_pdfvecs(posts, latent_nsamples=2)
            out['pdfvecs'] = pv
            torch.manual_seed(6)
            # Statistics of the models as they are.
            stats = gsm.sufficient_statistics(models)
            out['bound'] = gsm.expected_log_likelihood(stats, latent_posts=posts, update_models=False)
            gsm.clear_cache()
            for i, m in enumerate(models):
                out[f'llh{i}'] = m.expected_log_likelihood(m.sufficient_statistics(x))
            out['kl'] = gsm.kl_div_posterior_prior()
        else:
            s = model.sufficient_statistics(x)
            out['llh'] = model.expected_log_likelihood(s)
            model.clear_cache()
            out['kl'] = model.kl_div_posterior_prior()
            if hasattr(model, 'decode'):
                out['path'] = model.decode(x)
            if hasattr(model, 'posteriors') and kind != 'vae':
                out['posteriors'] = model.posteriors(x)
            if hasattr(model, '__len__') and kind.endswith('set'):
                out['size'] = torch.tensor(float(len(model)))
            for name in ('mean', 'cov', 'weights'):
                v = getattr(model, name, None)
                if isinstance(v, torch.Tensor):
                    out[name] = v
    return {k: v.detach().double().numpy() if isinstance(v, torch.Tensor) else v for k, v in out.items()}


def state(model, kind):
    'Natural parameters of all posteriors.'
    m = model[0] if kind == 'gsm' else model
    out = []
    for p in m.bayesian_parameters():
        if hasattr(p.posterior, 'natural_parameters'):
            try:
                out.append(p.posterior.natural_parameters().detach().double().numpy())
            except (AttributeError, NotImplementedError):
                pass
    return out


def main(repo, jobs, out):
    sys.path.insert(0, repo)
    import torch
    torch.set_num_threads(1)
    with open(jobs, 'rb') as f:
        items = pickle.load(f)
    res = []
    for model, x, resps, kind, lrate in items:
        try:
            r = [probe(model, x, kind)]
            if kind != 'gsm':
                train(model, x, resps, lrate)
            r += [probe(model, x, kind), state(model, kind)]
        except Exception as e:
            r = f'{type(e).__name__}: {e}'
        res.append(r)
    with open(out, 'wb') as f:
        pickle.dump(res, f)


if __name__ == '__main__':
    main(*sys.argv[1:4])
