"""Writes DESIGN.md: the text below, and what can be read from the checks, the
planted bugs and the known findings.  Run with /opt/venv/bin/python."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vf import core    # noqa: E402

INTRO = '''# Deciding the properties of beer by property-based testing

`properties.jsonl` states the properties, `MANIFEST.json` the commands, this file how each is decided.  It is written
by `tools/mkdesign.py` (facets, numbers of cases, assumptions and planted bugs are read from the machinery itself).

## Approach

Every property is a module `props/cNN.py` made of *facets*.  A facet is a Hypothesis strategy which generates a JSON-able
specification, and a check which builds the objects described by this specification with the code in `/repo`, runs it and
compares with an oracle that does not use that code: a closed form or an enumeration written with numpy/scipy/pure Python, a
round trip, a metamorphic relation (permutation, partition, order, process), a reference model followed over a history of
operations, or an invariant over an injected schedule or fault.  Specifications hold a seed for bulk numbers (parameters,
frames); everything structural (sizes, kinds, histories, options, schedules, faults) is generated and shrunk by Hypothesis.

* `check.py` is the entry point (`check.py C07 --tier quick`, `--tier thorough`, `--seed N`, `--facet NAME`, `-v`,
  `--replay FILE`); it re-executes itself with the interpreter of the project (`/opt/venv`) and Hypothesis from the tooling
  environment, imports `beer` from `/repo`'s working tree (or the tree named by `VF_REPO`) and nothing else from it, and never
  writes bytecode there.  There is nothing to build: the code is pure Python; the recipes are copied to a scratch directory for
  every case.
* `vf/core.py` runs the shards of the facets in 8 forked workers, collects counters, shrinks the first failure (bounded number
  of calls and of CPU time) and writes `evidence/<id>.json` and the replay file `evidence/replays/<id>-<facet>-<hash>.json` (the
  minimal specification).  A violation is printed as `VIOLATION property=<id> replay=<path>`, exit status 1; resources of the
  sandbox running out or a tree that cannot be imported are errors (status 2), not violations.
* Same seed, same cases: the random state of every case comes from the specification, the seed of every shard from
  (seed, facet, shard).  `VERIF_SEED` is the default seed.
* Comparisons of floating point numbers use tolerances scaled by the magnitude of the terms that were summed (not of the
  result), in float64 unless the facet is about single precision; where an answer is not unique (ties of a decoder, of an
  order, of a mapping) the oracle is a predicate, not a value.
* Tensors that a check hands to the library are compared after the case with what was handed over: an overwritten argument
  is a violation too.
* `vf/dens.py` (densities), `vf/mods.py` (models and reference inference), `vf/zoo.py` (all model types for serialisation),
  `vf/cli.py` (command line in process, every module loaded afresh), `vf/texts.py` (transcriptions), `vf/recipes.py` and
  `vf/standins/` (recipes with a stand-in cluster) are shared.
* The checks use only public names of the library and never look at the source text or at the wording of messages, so that they
  judge what the code does.  This was tried: on a copy of the repository with about 70 behaviour-preserving rewrites (loops,
  helpers, reordered statements, renamed private functions, other torch calls for the same result, in the library, the commands
  and the recipes) all 36 checks stay quiet; the first trial found three which depended on wording or on a particular torch
  call (C28, C31, C32; repaired).
* Random single-token mutations of the library, the commands and the recipe utilities were run against the checks whose
  property they touch; survivors were read one by one and either are equivalent (logging, devices, defaults, dead code) or led
  to new facets (as C04 `known_covariance`).

What the technique cannot do: nothing is proved; sizes are small (dimensions up to 6, a few states, units, frames, jobs) and
the GPU, the real Sun Grid Engine and real corpora are replaced by stand-ins.  Level `exploration` everywhere.

The quick tier takes 5 to 100 s per property on 8 cores; the thorough tier runs 8 to 25 times as many cases (a few minutes to
half an hour per property).  Evidence files give the number of cases, of distinct non-trivial ones and samples of them.

No hooks were needed in `/repo`; all commits there are `fix:` commits.

'''

# oracle, why tests cannot
TEXT = {
'C01': 'Parameters of every family are drawn (positive-definite matrices through random factors, spreads over several decades). '
       'The documented map std -> natural is recomputed in numpy; natural -> std must invert it; selections are compared with densities built alone. '
       'Reaches dimension 1, sets of one density, float32 and badly scaled parameters which fixed-value tests skip.',
'C02': 'Expected statistics against textbook moments (digamma etc. from scipy); directional derivatives of the log-normaliser by autograd against <direction, E[T]>; adaptive quadrature for one-dimensional members (no closed form shared with the code); sampling at 6 sigma.',
'C03': 'Closed-form divergences (scipy) of each family, zero on identical arguments, non-negative, per density of a set, and the mismatch errors.',
'C04': 'scipy log-densities of all (frame, vector) pairs; parameters recovered from unconstrained vectors must reproduce the same log-density.',
'C05': 'Textbook conjugate posteriors in numpy. Histories of mini-batches, learning rates, partitions and orders; sets with responsibilities; the parameters at creation.',
'C06': 'Exact log marginal likelihood (closed form) as upper bound reached by the exact posterior; product of Student predictive densities as a second derivation; mini-batch and composed models recomputed term by term.',
'C07': 'Metamorphic: any partition, any summation order and association, any process (pickled objects, forked process, fresh interpreter) gives the update of the whole data set; operands are left unchanged.',
'C08': 'Responsibilities, bound and statistics recomputed with an independent log-domain reference; permutation equivariance before and after training; monotone bound under full-batch updates.',
'C09': 'The weight of every emitting transition is the sum over enumerated silent paths; replacement keeps the language and the weights; normalisation keeps the ratios and is idempotent.',
'C10': 'All state paths are enumerated on small graphs; an independent log-domain recursion (itself checked against the enumeration) for long sequences; shift and time-reversal relations.',
'C11': 'Any path whose score equals the best enumerated score is accepted (ties); sequences and graphs as in C10, plus HMMs with shared densities and a scale.',
'C12': 'Independent forward-backward and Viterbi recursions over expected log-likelihoods recomputed from posteriors; histories of calls with alignments, paths and scales (state kept between calls is what unit tests cannot see); the bound is recomputed during training.',
'C13': 'Transitions recomputed from the graph and the weights of the units at creation and after each update; counts recomputed from an independent forward-backward.',
'C14': 'Independent Beta sticks updated in numpy over histories with ties, zeros, learning rates and relabellings.',
'C15': 'Trees of model sets evaluated by a recursion in numpy; dynamic orders; replacement of parameters (including parameters shared by several members) observed through the values.',
'C16': 'Reference recursion of the natural parameters over histories of init/step/learning-rate/save/restore. Subspace parameters (random subspace models) stay where they are when the conjugate optimiser runs; they move with the gradient optimiser only.',
'C17': 'The samples drawn by the model are recorded and the generated parameters, the bound and its terms recomputed with numpy from them; finite differences for the gradients; classes, hierarchies and views.',
'C18': 'Latent samples recorded, objective recomputed; linear-Gaussian decoders against their exact closed form.',
'C19': 'Jacobian of every output by autograd: strictly lower triangular, complete when wide enough; change of variables with the true Jacobian for flows; moments of many samples.',
'C20': 'Descriptions are generated from the documented grammar together with an independent numpy evaluator.',
'C21': 'Naive DFT, explicit triangular filters, explicit regression windows, frame by frame.',
'C22': 'Audio files through extract/archive/dataset commands; features recomputed per utterance; identifiers with awkward characters; refusals.',
'C23': 'Accepted sequences and their probabilities enumerated from the configuration, not from the graph code.',
'C24': 'Predicate: the printed units are those of a best path (recomputed best score) of the listed utterances, within the alignment graph; posteriors by an independent forward-backward.',
'C25': 'Differential: accumulators over any split of the utterances and updates from their files against the in-process loop.',
'C26': 'Dynamic-programming edit distance written independently; metric laws (symmetry, triangle, identity); the script over files with mapping and merging.',
'C27': 'Direct definitions: greedy matching of the boundaries as documented, overlap counts, entropies from counts.',
'C28': 'Line-wise reference transformations in Python.',
'C29': 'Twins made by pickling, torch.save, deepcopy, new process or type change at any point of a history must behave as the original from then on and be independent of it.',
'C30': 'numpy/scipy references and true Jacobians by finite structure (each output against every input).',
'C31': 'Commands run in generated histories; densities of the loop recomputed from the saved subspace and posteriors; continuation in several runs equals one run; inputs compared byte for byte before and after.',
'C32': 'A simulated `nvidia-smi` on the PATH, allocation and waiting replaced by stand-ins, and a generated schedule of the other jobs at each of these points: the invariant is over the history of the reservation.',
'C33': 'The shell scripts run in a scratch copy as an unprivileged user with a stand-in `qsub` (tasks shuffled, one by one or together, synchronous, honest exit status), a stand-in `beer` whose outputs are digests of everything that went in, and an `rm` which refuses targets outside the scratch directory. Faults: a job exits before, in the middle or after its work, or the whole script is killed there.',
'C34': 'As C33 with histories of runs; the oracle is the list of utterances used by each update carried in the final model, and the models of an uninterrupted run in another directory with another number of jobs.',
'C35': 'The scripts run in-process on generated files; every output is recomputed from its definition (edit distance, joint counts, features as in C22, explicit chain of the states of a transcription with an independent Viterbi recursion, arcs and weights of the graphs).',
'C36': 'Small corpora in the layout of the real ones (both cases, dots in paths, several languages) with tagged audio: the commands of the lists are run and must give the audio of the utterance. Transcriptions, alignments, units and tables are recomputed from the corpus. The script is killed before its n-th command (DEBUG trap), or run on a corpus with a defect, then run again; stand-ins for git, sph2pipe, shorten, sox.',
}

NOTES = '''
## Genuine defects found

The `fix:` commits and the two findings left as known are listed in `known-findings.txt`:

* **C13 single-state-units** (known): in a phone loop over units with one emitting state, start and end density coincide and the
  self-loop of the unit is overwritten by the probability to enter it.  Repairing it needs a separate representation of
  staying in and re-entering a unit in the transition matrix of the compiled graph.
* **C31 empty-group** (known): the subspace commands index the groups of emissions by their position in the configuration although groups
  without unit have no emissions.  The group cannot be found from what the file holds when an earlier group is empty.

## False alarms corrected while building

* C10/C12/C24/C25: sequences for which no path exists (topologies without self-loop and too few frames) have no posterior (NaN):
  now outside the domain.
* C02: the Normal-Gamma log-normaliser omits (D/2) log 2 pi by documentation (base measure).
* C11, C24, C27: ties are accepted (any best path, any best unit).
* C16: clearing the statistics of the groups that are not updated is unobservable but for the statistics themselves; no longer demanded.
* C21/C22: signals shorter than a frame are refused by the code: outside the domain.
* C28: `split -n l/N` of coreutils 9.4 fails when the file has fewer bytes than N: assumption (also C33, C34).
* C30: the approximate Hessian is the *sum* of the outer products (documented), not the mean.
* C31: the noise of posteriors is replaced by a constant wherever torch can draw it (randn, randn_like, normal, normal_), so that another way to
  draw the same noise is not an alarm.
* C14 (tied sets, 53 and more sticks with a stick parameter below 1e-6 of the
  largest): the reference itself loses its digits there; such draws are discarded.
* C30 (gradient of the log-sum-exp for values beyond 1e4): a rewriting on top of
  `torch.logsumexp` rounds differently there; the gradient is compared below 1e4.
* C19 (normal layers with tiny variances): the density was evaluated at a mean
  recomputed by the harness, and the division by the variance blew up the last
  digit; the layer's own mean (compared separately) is used.
* Two batches of hand-written refactorings (helpers extracted, loops rewritten,
  statements reordered, einsum for matmul) across the package leave every check
  quiet.
* C34: the stand-in of `beer` wrote its outputs in place, so that killing a job could leave a part of the output of another one (one run of several
  hundred): it now writes them at once.
* C34: after an interrupted longer training, asking for fewer epochs ends with the longest one available; a text archive of alignments
  differs by its time stamps: compared by content.

## Outside the properties (not claimed)

Dead or unimportable code (`beer/models/{lds,linearreg,lm,marginalpldaset,vae-old}.py`, `beer/vbi.py`, recipes using removed
commands: `timit_v2` training and auto-encoder scripts (hmm-train*, hmm-set-decoding-graph, lm-unigram-*, *vae-*, gmm/nnet/nflow-create), `zrc2019` training, `*_gnu_parallel.sh`, `recipes/aud/utils/posteriors.py`); priors of the units in the hierarchical models receive no
statistics (by design of the commands); `hmm train` drops the last partial batch; the learning rate of `hmm update` is overridden by
the saved state of the optimiser; commands do not write their outputs atomically; a bad audio file aborts an extraction; `shmm init` and
`shmm setprior` do not support classes; the normalised mutual information is undefined when all labels are equal; the error rate is undefined without reference
token; copies of models generated by a subspace share their identifiers; notebooks.

No property had to be left to another technique: `not_applicable` is empty.
'''


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
    out = [INTRO, '## The properties\n']
    for p in props:
        mod, facets = core.load(p['id'])
        out.append(f'### {p["id"]} {p["title"]}\n\n{TEXT[p["id"]]}\n')
        out.append('| facet | quick | thorough | what is checked |\n|---|---|---|---|')
        for f in facets:
            out.append(f'| {f.name} | {f.quick} | {f.thorough} | {" ".join(f.doc.split())} |')
        out.append(f'\n{mod.RULE}\nAssumptions: {"; ".join(getattr(mod, "ASSUMPTIONS", []))}.\n')
    out.append(NOTES)
    out.append('''
## Planted bugs

Each is in `seeded/<id>/` (patch, demonstration, description); all build, pass the stable tests and have a demonstration which
fails with them only.  "Caught" is the result of the quick check of the property with seed 1; the remarks say which were missed by the
first version of the check and what was strengthened.

| bug | property | needs | caught by | remark |
|---|---|---|---|---|''')
    with open(os.path.join(HERE, 'tools', 'planted.json')) as f:
        results = json.load(f)
    for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        name = os.path.basename(os.path.dirname(path))
        meta = json.load(open(path))
        res = results.get(name, {})
        out.append(f'| {name} | {meta["property"]} | {meta["needs"]} | {res.get("caught", "?")} | {res.get("remark", "")} |')
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


main()
