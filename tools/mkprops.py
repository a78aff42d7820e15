"""Writes properties.jsonl (kept as code because it is easier to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {'files': files,
               'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        anchors['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe:
        anchors['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': anchors})


D = 'beer/dists/'
M = 'beer/models/'
OLD = ('The shipped tests target an older API and almost all of them fail at import or set-up; '
       'no passing test reaches this code, and those that once did sampled a handful of fixed parameters.')

prop('C01', 'Natural and standard parameters of every density are inverse maps',
     'For every exponential-family density of the library (Dirichlet, Gamma, Normal-Gamma, isotropic Normal-Gamma, '
     'Normal-Wishart, diagonal- and full-covariance Normal), turning standard parameters into natural parameters and back gives '
     'the same standard parameters, for a single density and for a set of densities. Writing natural parameters into a density and '
     'reading them back is the identity, the conjugate-likelihood description agrees with the natural dimension, the number of densities in a set is reported correctly, '
     'and selecting densities from a set yields the same densities as building them alone.',
     ['inputs'], 'All well-formed standard parameters of all density families: any dimension, any set size, float32 and float64, several decades of scale.',
     OLD, [D + f for f in ('basedist.py', 'dirichlet.py', 'gamma.py', 'isonormalgamma.py', 'normal.py', 'normaldiag.py', 'normalgamma.py', 'normalwishart.py')],
     [('from_natural_parameters / natural_parameters', D + '*.py'), ('update_from_natural_parameters', D + 'basedist.py')])

prop('C02', 'The log-normaliser generates the moments of the density',
     'For every exponential-family density the gradient of the log-normaliser with respect to the natural parameters equals the expected sufficient statistics, '
     'both equal the true moments under the density (closed forms and independent numerical integration), and the reported expected value is the true mean. '
     'The log-density of a batch of sufficient statistics is the inner product minus the log-normaliser and integrates to the base measure.',
     ['inputs'], 'All valid parameters of all families, single densities and sets, all dimensions.',
     OLD, [D + f for f in ('basedist.py', 'dirichlet.py', 'gamma.py', 'isonormalgamma.py', 'normal.py', 'normaldiag.py', 'normalgamma.py', 'normalwishart.py')],
     [('log_norm, expected_sufficient_statistics, expected_value, forward', D + '*.py')])

prop('C03', 'KL divergence and entropy of the densities are exact',
     'The Kullback-Leibler divergence between two densities of one family equals its definition under the true densities: non-negative, zero exactly when both are equal, '
     'and matching independent closed forms; the entropy equals the negative expected log-density. '
     'For sets of densities the divergence is computed per density, pairing equal positions; densities of different families or dimensions are rejected.',
     ['inputs'], 'All pairs of valid densities of the same family and size, single or sets.',
     OLD, [D + 'basedist.py'] + [D + f for f in ('dirichlet.py', 'gamma.py', 'isonormalgamma.py', 'normal.py', 'normaldiag.py', 'normalgamma.py', 'normalwishart.py')],
     [('kl_div, entropy', D + 'basedist.py')])

prop('C04', 'Likelihood functions are true log-densities; parameters recoverable',
     'For each observation model (Normal with isotropic, diagonal or full covariance, categorical, Gamma) the log-likelihood computed from sufficient statistics and '
     'a natural parameter vector equals the exact log-density of the data including normalisation constants, for every pairing of a batch of frames with a batch of parameter vectors. '
     'The parameters recovered from a parameter vector are those it was built from, and the unconstrained real vector parameterisation always yields valid parameters, consistently with direct construction. For a Normal of known unit covariance the same holds up to a term that depends on the data only.',
     ['inputs'], 'All data batches, all valid parameters, all unconstrained real vectors, all covariance types and dimensions.',
     OLD, [D + f for f in ('dirichlet.py', 'gamma.py', 'isonormalgamma.py', 'normal.py', 'normaldiag.py', 'normalgamma.py', 'normalwishart.py')],
     [('likelihood classes: sufficient_statistics, __call__, pdfvectors_from_rvectors, parameters_from_pdfvector', D + '*.py')])

prop('C05', 'Conjugate updates give the exact Bayesian posterior',
     'Accumulating the statistics of a data set on a conjugate model (Normal with isotropic, diagonal or full covariance, and sets of them; categorical) and performing one update with learning rate 1 gives the closed-form posterior '
     'of the prior and the data, independently of the order and of the partition of the data. '
     'A learning rate r moves the natural parameters by the fraction r from the current posterior towards that target, a mini-batch is scaled by the ratio of data-set size to mini-batch size, and the prior, centred on the mean and covariance (or weights) given at creation, is left untouched.',
     ['inputs', 'histories'], 'All data sets, all priors and posteriors, all mini-batch sizes, all learning rates, all histories of accumulate/update steps.',
     OLD, [M + f for f in ('parameters.py', 'normal.py', 'normalset.py', 'categorical.py', 'categoricalset.py', 'gamma.py', 'basemodel.py')] + ['beer/inference/objectives.py', 'beer/inference/optimizers.py'],
     [('accumulate / natural_grad_update', M + 'parameters.py'), ('backward scaling', 'beer/inference/objectives.py'), ('VBConjugateOptimizer.step', 'beer/inference/optimizers.py')],
     state=[('posterior natural parameters', 'state of the training', M + 'parameters.py')])

prop('C06', 'The evidence lower bound never exceeds and can reach the log evidence',
     'For a conjugate model the evidence lower bound of a data set never exceeds the exact log marginal likelihood, and equals it when the posterior is the exact Bayesian posterior. '
     'For a mini-batch its value is the mini-batch log-likelihood scaled by data-set size over mini-batch size minus the divergence of the posteriors of all parameters from their priors.',
     ['inputs'], 'All data sets, priors, and posteriors of the conjugate models; all mini-batch sizes.',
     OLD, ['beer/inference/objectives.py', M + 'basemodel.py', M + 'normal.py', M + 'normalset.py', M + 'categorical.py', M + 'gamma.py'],
     [('evidence_lower_bound, ELBO value', 'beer/inference/objectives.py'), ('kl_div_posterior_prior', M + 'basemodel.py')])

prop('C07', 'Objective accumulation is additive across batches and processes',
     'Summing the objectives of the parts of a data set, starting from an empty accumulator and in any order and association, gives the sum of their values and the same model update (scaled by data-set size over summed mini-batch sizes) as one objective on the whole data set. '
     'This holds as well when the partial objectives are serialised, loaded in another process and synchronised with a model holding the same parameters. Using an objective does not use it up or change it. Objectives made for different data-set sizes are rejected.',
     ['inputs', 'histories', 'schedules'], 'All partitions of a data set in utterances, all summation orders and trees, any subset of the parts serialised, every model type that can be trained by accumulation.',
     OLD, ['beer/inference/objectives.py', M + 'parameters.py'],
     [('ELBO __add__, sync, backward', 'beer/inference/objectives.py'), ('parameter identity (uuid, hash)', M + 'parameters.py')])

prop('C08', 'Mixture models perform exact variational inference over components',
     'For a mixture (and a set of mixtures), responsibilities and posteriors are the normalised exponentials of expected log-weight plus expected log-likelihood, '
     'the per-frame log-likelihood is the log of the weighted sum of component likelihoods, and accumulated statistics are responsibility-weighted sums. '
     'Each full-batch update never decreases the evidence lower bound, permuting components or frames permutes the results, and slicing a set of mixtures selects exactly those mixtures.',
     ['inputs', 'histories'], 'All component counts, covariance types, weights, data, mixture-set sizes, slices, and sequences of updates.',
     OLD, [M + 'mixture.py', M + 'mixtureset.py', M + 'categorical.py', M + 'categoricalset.py'],
     [('expected_log_likelihood / accumulate / posteriors', M + 'mixture.py'), ('expected_log_likelihood / accumulate / __getitem__', M + 'mixtureset.py')])

prop('C09', 'Graph operations preserve the weights of all emitting paths',
     'Compiling a graph gives initial, transition and final probabilities equal to the summed weights of all paths through silent states '
     '(initial and final normalised; the leaving probabilities of a state with a self-loop rescaled to one minus the self-loop), '
     'with emitting states numbered in order of creation and a mapping to densities that keeps the declared density of every state. '
     'Normalising makes the arcs leaving each state sum to one without changing their ratios, and replacing an inner state by a sub-graph (distinct start and end) keeps every path through it and its weight.',
     ['inputs', 'histories'], 'All graphs built by adding states and arcs in any order, with silent states, self-loops and acyclic silent chains; all sequences of replace/normalise operations.',
     OLD, ['beer/graph.py'], [('normalize, replace_state, find_next_pdf_ids, compile', 'beer/graph.py')])

prop('C10', 'Forward-backward inference equals enumeration of all state paths',
     'For every compiled graph and every matrix of frame log-likelihoods, the per-frame state posteriors, the per-frame transition posteriors and the total log-likelihood equal those obtained by enumerating all state paths. '
     'State posteriors sum to one per frame, transition posteriors are consistent with the state posteriors of the neighbouring frames, '
     'and a constant added to the log-likelihoods of a frame changes only the total.',
     ['inputs'], 'All compiled graphs (also with impossible transitions), sequences of every length from 1, and all finite log-likelihoods.',
     OLD, ['beer/graph.py'], [('_baum_welch_forward / _backward / posteriors', 'beer/graph.py')])

prop('C11', 'Viterbi decoding returns the most likely path',
     'For every compiled graph and every matrix of frame log-likelihoods the decoded path has one state per frame, has a non-zero probability whenever some path has, and no path has a higher score, '
     'taking initial, transition and final probabilities into account. '
     'Decoding an HMM returns the density identifiers along a best path computed from the scaled expected log-likelihoods (of the alignment graph if one is given).',
     ['inputs'], 'All compiled graphs, all sequence lengths from 1, all log-likelihoods, all acoustic scales.',
     OLD, ['beer/graph.py', M + 'hmm.py'], [('best_path', 'beer/graph.py'), ('decode', M + 'hmm.py')])

prop('C12', 'HMM inference and training follow the graph and the alignments',
     'An HMM computes the state responsibilities by exact forward-backward (or Viterbi) over its graph with scaled expected log-likelihoods of its densities, accumulates responsibility-weighted statistics into the density used by each state (shared densities add up), '
     'and restricts inference to the alignment graph when one is given. '
     'Full-batch training with exact inference and scale 1 never decreases the evidence (bound), and posteriors are those of the current parameters.',
     ['inputs', 'histories'], 'All topologies, density types, scales, inference types, alignment graphs and training histories.',
     OLD, [M + 'hmm.py', M + 'modelset.py', 'beer/graph.py'], [('_pc_llhs, _inference, expected_log_likelihood, accumulate, posteriors', M + 'hmm.py'), ('DynamicallyOrderedModelSet', M + 'modelset.py')])

prop('C13', 'Phone-loop transitions follow the phone posterior and its counts',
     'In a unigram or bigram phone loop, the probability of going from the end of a unit to the start of another is the leaving probability times the expected (log-) probability of that unit under the current posterior, at creation and after every update, and transitions inside the units never change. '
     'The statistics given to the phone (bigram) distribution are the expected numbers of unit entries (unit-to-unit transitions), counting the first unit of the utterance, and none when an alignment graph is given.',
     ['inputs', 'histories'], 'All numbers and topologies of multi-state units, priors (Dirichlet, stick-breaking, hierarchical), data and training histories.',
     OLD, [M + 'phoneloop.py', M + 'hmm.py'], [('_on_weights_update, accumulate', M + 'phoneloop.py')])

prop('C14', 'Stick-breaking categoricals match the truncated stick-breaking process',
     'For a stick-breaking categorical (alone, with a prior on its concentration, or as a set tied to a root), the expected log-weights and mean weights are those of independent Beta sticks in the current order, '
     'and an update adds to each stick the count of its element and the counts of all later elements. '
     'The order sorts elements by decreasing counts, results do not depend on how elements are labelled, and the concentration prior is updated from the expected log-remainders.',
     ['inputs', 'histories'], 'All truncations, concentrations, count vectors and histories of updates.',
     OLD, [M + 'categorical.py', M + 'categoricalset.py'], [('SBCategorical, SBCategoricalHyperPrior', M + 'categorical.py'), ('SBCategoricalSet', M + 'categoricalset.py')])

prop('C15', 'Composed model sets behave like the concatenation of their members',
     'A joint, repeated or reordered set of models gives for each index the log-likelihood of the model at this index, accumulates the statistics on exactly that model (adding up when an order uses a model several times) and counts its members. '
     'Indexing a set, or slicing a set of Normal densities, mixtures or categoricals, gives models computing the same log-likelihoods, and replacing parameters affects every member holding them.',
     ['inputs', 'histories', 'configurations'], 'All nestings of model sets with distinct members, orders with repetitions, indices and slices, covariance types.',
     OLD, [M + 'modelset.py', M + 'normalset.py', M + 'mixtureset.py', M + 'categoricalset.py', M + 'basemodel.py', M + 'parameters.py'],
     [('JointModelSet, RepeatedModelSet, DynamicallyOrderedModelSet', M + 'modelset.py'), ('__getitem__', M + 'normalset.py'), ('replace_parameters', M + 'basemodel.py')])

prop('C16', 'Optimisers update the right parameters at each step',
     'One step of the conjugate optimiser updates the groups of parameters in cyclic order starting from the first, each with the given learning rate, and resetting clears the accumulated statistics so that nothing leaks from one step to the next. '
     'The combined optimiser steps the conjugate and the gradient-based optimisers together, and parameters that are not handed over never change.',
     ['histories', 'configurations'], 'All numbers of groups, learning rates, and sequences of init/accumulate/step.',
     OLD, ['beer/inference/optimizers.py', M + 'parameters.py', M + 'basemodel.py'], [('VBConjugateOptimizer, VBOptimizer', 'beer/inference/optimizers.py'), ('mean_field_factorization', M + '*.py')])

prop('C17', 'Subspace models tie model parameters to a latent affine subspace',
     'In a (hierarchical) generalised subspace model the parameters of every generated model are the image of its latent vector by the affine transform and the parameter map: the mean at the latent mean, or an average over samples whose values are reproducible with the random state. '
     'The log-likelihood is the inner product of the collected statistics with these parameters, the bound subtracts the exact divergence of the latent (and transform) posteriors, and gradients of the bound match finite differences. '
     'Models and the subspace model keep sharing the same parameters when new models are created or parameters are refreshed.',
     ['inputs', 'configurations'], 'All latent dimensions, model types (single, mixture, HMM sets), latent covariance types and numbers of samples.',
     OLD, [M + 'gsm.py', M + 'parameters.py'], [('GSM, GSMSet, HierarchicalGSM, AffineTransform', M + 'gsm.py')])

prop('C18', 'The VAE bound combines reconstruction, latent prior and divergence exactly',
     'The per-frame objective of the variational auto-encoder is the decoder log-likelihood averaged over latent samples minus the divergence of the encoder density from the latent prior, with one value per frame. '
     'It equals the sum of its terms recomputed from the encoder and decoder outputs, does not depend on the other frames of the batch, and never exceeds the exact log-likelihood where that is computable.',
     ['inputs', 'configurations'], 'All encoder/decoder sizes, latent priors (Normal, mixture, HMM), sample counts and data.',
     OLD, [M + 'vae.py', 'beer/nnet/problayers.py'], [('VAE.expected_log_likelihood, accumulate', M + 'vae.py')])

prop('C19', 'Autoregressive networks and flows respect order and volume',
     'Each output of an autoregressive network depends only on strictly earlier inputs, for any depth and width, and on all of them when the hidden layers are wide enough. '
     'The log-likelihood of a transformed sample equals that obtained by the change of variables with the numerically computed Jacobian of the transformation, '
     'and the probabilistic output layers produce valid parameters whose log-likelihood is the exact density of the data.',
     ['inputs', 'configurations'], 'All dimensions, depths, widths, activations, flow depths, parameters and inputs.',
     'Tests check three hand-made masks; no test varies depth, evaluates the network or a flow.',
     ['beer/nnet/arnet.py', 'beer/nnet/problayers.py'], [('create_mask, create_final_mask, AutoRegressiveNetwork', 'beer/nnet/arnet.py'), ('InverseAutoRegressiveFlow, NormalDiagonalCovarianceLayer...', 'beer/nnet/problayers.py')])

prop('C20', 'Textual network descriptions build the network they describe',
     'A network built from a textual description applies the described layers in order with the described sizes and options; values of the description never execute code, and malformed descriptions are refused. '
     'Residual connections add input to output, merging applies each transform to its own input and combines the results, and reshaping keeps the content.',
     ['inputs', 'programs'], 'All descriptions composed of supported layers, options and nesting.',
     'Existing tests cover three fixed descriptions and a fixed reshape.',
     ['beer/nnet/neuralnetwork.py', 'beer/nnet/residual.py'], [('create, parse_*, load_value', 'beer/nnet/neuralnetwork.py'), ('ResidualFeedForwardNet', 'beer/nnet/residual.py')])

prop('C21', 'Acoustic features follow their signal-processing definitions',
     'Mel and Bark conversions are inverse and monotone, triangular filters are non-negative, peak at their centre and vanish outside the neighbouring centres, the short-term magnitude spectrum and filter-bank features match a direct computation frame by frame, '
     'with the documented number of frames. '
     'Derivatives have the static dimension times the order plus one, vanish for constant features and are constant and proportional to the slope for linear ones, and any scaling or delay of the signal has the corresponding effect on features.',
     ['inputs'], 'All signals, sampling rates, window lengths, filter counts, orders and windows within the range the code accepts.',
     OLD, ['beer/features.py'], [('hz2mel, mel2hz, create_fbank, add_deltas, short_term_mspec, fbank', 'beer/features.py')])

prop('C22', 'Feature extraction and data-set creation keep every utterance intact',
     'From audio lists to the data set, each utterance identifier ends up associated with exactly the features computed from its audio with the given configuration, none lost, duplicated or mixed up; unknown settings and audio of another sampling rate are refused. '
     'The data set reports the number of utterances, total frames, mean and variance of the features, and its iterators yield each utterance exactly once, in order or shuffled, however often and whatever was done to the features read before.',
     ['inputs', 'configurations', 'histories'], 'All sets of audio files, sampling rates, extraction options, archive contents and iteration orders.',
     OLD, ['beer/cli/subcommands/features/extract.py', 'beer/cli/subcommands/features/archive.py', 'beer/cli/subcommands/dataset/create.py', 'beer/cli/dataset.py'],
     [('extract main', 'beer/cli/subcommands/features/extract.py'), ('archive main', 'beer/cli/subcommands/features/archive.py'), ('Dataset', 'beer/cli/dataset.py')])

prop('C23', 'Graph building commands make exactly the graphs their inputs describe',
     'The phone, loop, decoding and alignment graphs built by the commands contain exactly the unit topologies of the configuration with the configured transition probabilities, unit names and numbers of states; '
     'each state of each unit maps to its own density, and unit start/end maps point at the right states. '
     'An alignment graph accepts exactly the state sequences that spell the given transcription, and the phone loop accepts exactly the sequences of complete units allowed by the loop graph.',
     ['inputs', 'configurations'], 'All unit lists, group topologies, phone-loop constraints and transcriptions.',
     'No test exercises the command line.',
     ['beer/cli/subcommands/hmm/mkphones.py', 'beer/cli/subcommands/hmm/mkphoneloopgraph.py', 'beer/cli/subcommands/hmm/mkdecodegraph.py', 'beer/cli/subcommands/hmm/mkaligraph.py', 'beer/cli/subcommands/hmm/mkphoneloop.py', 'beer/cli/subcommands/hmm/mkphoneloopbigram.py', 'beer/cli/subcommands/hmm/phonelist.py', 'beer/graph.py'],
     [('main of each command', 'beer/cli/subcommands/hmm/*.py')])

prop('C24', 'Decoding and posterior commands report the inference result per utterance',
     'For every utterance listed, decoding prints its identifier followed by the units of its best path, one symbol per visit of a unit or one per frame if requested, '
     'restricted to its alignment graph when given. '
     'The posteriors command writes for each utterance a matrix of state (or unit) posteriors, or their logarithm, equal to the exact inference, each frame summing to one; missing utterances do not affect the others.',
     ['inputs', 'configurations'], 'All models, data sets, options, and lists with unknown utterances.',
     'No test exercises the command line.',
     ['beer/cli/subcommands/hmm/decode.py', 'beer/cli/subcommands/hmm/posteriors.py', M + 'hmm.py', M + 'phoneloop.py'],
     [('state2phone, main', 'beer/cli/subcommands/hmm/decode.py'), ('main', 'beer/cli/subcommands/hmm/posteriors.py')])

prop('C25', 'Distributed training by files equals training in one process',
     'Accumulating statistics on any split of the utterance list in separate runs and updating the model from the accumulated files gives the same model as accumulating all utterances in one process and as the library calls, over any number of iterations with a fixed learning rate; training in mini-batches gives the model of the library calls on the same batches (batch sizes dividing the number of utterances). '
     'Each update starts from the current model and optimiser state, the printed bound is that of the whole list, and utterances without features are skipped without effect.',
     ['histories', 'configurations', 'schedules'], 'All splits of the utterances, orders of the accumulators, alignment options, scales, learning rates and numbers of iterations.',
     'No test exercises the command line.',
     ['beer/cli/subcommands/hmm/accumulate.py', 'beer/cli/subcommands/hmm/update.py', 'beer/cli/subcommands/hmm/train.py', 'beer/inference/objectives.py'],
     [('main', 'beer/cli/subcommands/hmm/accumulate.py'), ('main', 'beer/cli/subcommands/hmm/update.py'), ('main', 'beer/cli/subcommands/hmm/train.py')])

prop('C26', 'Token error rate equals the minimal edit distance',
     'The token error rate equals the minimal number of substitutions, deletions and insertions divided by the number of reference tokens, over all utterances, after the requested mapping, filtering and merging of repeated tokens. '
     'The underlying distance is symmetric, zero only for equal sequences and satisfies the triangle inequality; utterances without hypothesis are not scored.',
     ['inputs', 'configurations'], 'All pairs of token sequences, including empty and very different lengths, all option combinations.',
     'The only test is a doctest with a couple of fixed strings.',
     ['recipes/aud/utils/ter.py'], [('wer, main', 'recipes/aud/utils/ter.py')])

prop('C27', 'Segmentation and clustering scores match their definitions',
     'Boundary precision, recall and F-score count reference boundaries hit within the tolerance, each reference and each hypothesis boundary matched at most once (greedily: in order, each takes the closest free boundary within the tolerance); the normalised mutual information and entropy figures equal their definitions from the joint counts of labels; '
     'and the label mapping sends each discovered unit to the reference label with which it overlaps most.',
     ['inputs'], 'All pairs of segmentations and alignments, tolerances and vocabularies.',
     'No test exercises the scoring scripts.',
     ['recipes/aud/utils/score_boundaries.py', 'recipes/aud/utils/score_boundaries2.py', 'recipes/aud/utils/nmi.py', 'recipes/aud/utils/entropy_rate.py', 'recipes/aud/utils/maxoverlap_mapping.py'],
     [('main', 'recipes/aud/utils/*.py')])

prop('C28', 'Text preparation tools transform transcriptions faithfully',
     'Converting frame alignments to transcriptions collapses runs of equal labels and nothing else, mapping tools replace each token by its image and keep the order, prefixing tools change only the utterance identifiers (or tokens, except the excluded ones), splitting a list for parallel jobs keeps every line once, label and transcription normalisation follow their tables, '
     'and lexicon-based phone transcriptions concatenate the pronunciations of the words in order. Each converted utterance yields exactly one output line with its own identifier, an utterance with an unknown word is reported and skipped, and an unknown token is replaced by the given symbol or refused.',
     ['inputs'], 'All texts made of utterance lines, mapping tables and lexicons.',
     'No test exercises the preparation scripts.',
     ['recipes/aud/utils/ali2trans.py', 'recipes/aud/utils/maptrans.py', 'recipes/aud/utils/convert_align.py', 'recipes/aud/utils/add_prefix.py', 'recipes/aud/utils/prepare_phone_trans.py', 'recipes/aud/utils/prepare_lang_aud.py', 'recipes/aud/utils/parallel/split.sh', 'recipes/aud/local/timit/timit-norm-trans.py', 'recipes/aud/local/timit/timit_lang_prep.py', 'recipes/aud/local/timit/phone_ali.py'],
     [('main', 'recipes/aud/utils/*.py')])

prop('C29', 'Models survive serialisation, copying and type changes',
     'A model that is serialised and loaded, also in a new process, or copied, computes the same log-likelihoods, decodes the same paths and reacts identically to further training, and training the copy never affects the original. '
     'Changing the floating-point type of a model changes all its parameters, buffers and graphs so that inference works and agrees up to precision.',
     ['histories', 'configurations'], 'All model types, at any point of a training history.',
     OLD, [M + 'parameters.py', M + 'basemodel.py', M + 'hmm.py', M + 'phoneloop.py', 'beer/graph.py', D + 'basedist.py'],
     [('__getstate__/__setstate__, callbacks, float()/double()', M + 'parameters.py'), ('CompiledGraph', 'beer/graph.py')])

prop('C30', 'Numeric helpers agree with exact linear algebra',
     'Log-sum-exp is exact and stable for any finite inputs, one-hot encoding and its log have exactly one active entry per label, the positive-definite projection returns a positive-definite symmetric matrix with the eigenvectors of the symmetric part, raising the eigenvalues below a fraction of the largest one to that fraction and leaving the others unchanged, '
     'the Jacobian helper equals the true Jacobian, the approximate Hessian is the sum of the outer products of the gradients, and samples are the mean plus the covariance square root times noise, differentiable with respect to both.',
     ['inputs'], 'All shapes, scales up to overflow thresholds, and matrices.',
     OLD, ['beer/utils.py'], [('logsumexp, onehot, make_symposdef, jacobians, ...', 'beer/utils.py')])

prop('C31', 'Subspace phone-loop commands keep units, subspace and loop consistent',
     'The commands building and training subspace (and hierarchical subspace) phone loops produce a loop whose unit densities are those generated by the subspace model for the units of this loop, in order, with the same topology as the unit set they start from. '
     'Training changes only the requested parameters, the loop and the subspace stay tied after saving and loading, and existing inputs are never destroyed.',
     ['histories', 'configurations'], 'All unit sets, latent dimensions and options of the commands.',
     'No test exercises the command line.',
     ['beer/cli/subcommands/shmm/mksphoneloop.py', 'beer/cli/subcommands/shmm/init.py', 'beer/cli/subcommands/shmm/train.py', 'beer/cli/subcommands/shmm/setprior.py', 'beer/cli/subcommands/hshmm/mksphoneloop.py', 'beer/cli/subcommands/hshmm/train.py', M + 'gsm.py'],
     [('main', 'beer/cli/subcommands/shmm/*.py')])

prop('C32', 'Reserving a GPU yields a free device or an explicit failure',
     'Reserving a graphics device picks a device that no other process uses, never one that is busy or was grabbed by another process while reserving it; '
     'when none is free the job waits and retries up to the requested number of attempts and then reports that no device is available, and a device is actually allocated whenever one is reported as reserved.',
     ['schedules', 'faults'], 'All schedules of other jobs taking and releasing devices, numbers of devices and attempts.',
     'Tests run on hosts without graphics devices.',
     ['beer/utils.py', 'beer/cli/subcommands/shmm/train.py', 'beer/cli/subcommands/hshmm/train.py'], [('reserve_gpu', 'beer/utils.py')])

R = 'recipes/aud/'
prop('C33', 'Recipe steps process every utterance once and report failures',
     'The steps of the recipes give every line of a list to exactly one job, unchanged and in order, whatever the number of jobs, the order in which the cluster runs them and the results of former runs, and the outputs they gather hold each utterance once. '
     'When any job or command fails or is interrupted the step ends with an error, its result is not taken as done, and running it again gives the complete result; a finished step is not done again. '
     'Adding a corpus keeps the lines of the selected utterances and only them, and scoring uses the unit mapping it is given, or else the one learnt on the data it scores.',
     ['schedules', 'faults', 'histories'], 'All lists, numbers of jobs, orders of execution, failing or killed jobs, and repeated runs.',
     'No test runs the recipes.',
     [R + 'utils/parallel/submit_parallel.sh', R + 'utils/parallel/split.sh', R + 'utils/parallel/sge/jobarray.qsub', R + 'steps/decode.sh', R + 'steps/posteriors.sh', R + 'steps/extract_features.sh', R + 'steps/score_aud.sh', R + 'utils/add_corpus.sh'],
     [('submit_parallel.sh, split.sh, sge/*', R + 'utils/parallel'), ('steps/*.sh', R + 'steps')])

prop('C34', 'An interrupted or extended training recipe ends as an uninterrupted one',
     'The training recipes (unit discovery, bigram, monophone, subspace and hierarchical subspace) run again after failing or killed jobs continue from the last finished epoch and end with the models of an uninterrupted training: '
     'each epoch uses the statistics of every utterance exactly once, computed with the model of the previous epoch, whatever the number of jobs of each run and the files left by the interrupted one. '
     'A failure never yields a final model, asking for more epochs continues the training, and running a finished training again changes nothing.',
     ['schedules', 'faults', 'histories'], 'All histories of runs, numbers of jobs and epochs, and positions of the failures.',
     'No test runs the recipes.',
     [R + 'steps/aud.sh', R + 'steps/aud_bigram.sh', R + 'steps/monophone.sh', R + 'steps/subspace_aud.sh', R + 'steps/subspace_monophone.sh', R + 'steps/hsubspace_aud.sh', R + 'steps/hsubspace_monophone.sh'],
     [('training loop', R + 'steps/*.sh'), ('submit_parallel.sh', R + 'utils/parallel')])

T = 'recipes/timit_v2/utils/'
prop('C35', 'Alignment, unit and feature tools of the TIMIT recipe are faithful',
     'The phone error rate is the minimal number of edits divided by the length of the reference, after the requested removals, mapping and merging of symbols; frame alignments become units or phones by the mapping of the densities, frame by frame or one symbol per visit of a unit. '
     'Comparing two alignments counts the frames of each pair of symbols over the utterances present in both, and the mutual information is the one of these counts; transcriptions, speakers and labels become arrays of integers following their table. '
     'Extracted, stacked and central-frame features are those of the audio, of the neighbouring frames and of the tokens they are labelled with, and statistics are the mean, variance and number of the frames. '
     'Text graphs become normalised graphs with exactly the given arcs, and unit models, decoding and forced alignment give the best paths through the given graphs or transcriptions.',
     ['inputs', 'configurations'], 'All transcriptions, alignments, tables, features, unit configurations and graphs.',
     'No test runs the recipes.',
     [T + 'score.py', T + 'pdf2unit.py', T + 'convert_states_to_phone.py', T + 'convert-ali-to-best-path.py', T + 'compare-alignments.py', T + 'mutual-information.py', T + 'prepare_trans.py', T + 'prepare_state_labels.py', T + 'prepare-spk-labels.py', T + 'features-extract-parallel.py', T + 'features-stack-parallel.py', T + 'features-extract-central-frame.py', T + 'features-stats.py', T + 'prepare-decode-graph.py', T + 'create-decode-graph.py', T + 'hmm-create-graph-and-emissions.py', T + 'hmm-create.py', T + 'hmm-decode-parallel.py', T + 'hmm-align.py', T + 'prepare-alignments.py', T + 'hmm-pdf-id-mapping.py', 'recipes/timit_v2/local/timit_lang_prep.py', R + 'local/timit/timit_lang_prep.py'],
     [('main', T + '*.py')])

L = 'recipes/aud/local/'
prop('C36', 'Preparing a corpus describes exactly its utterances',
     'The preparation of a corpus (TIMIT, Mboshi, ALFFA, Google low-resource, GlobalPhone, ZRC 2019) lists for each set every usable utterance of this set exactly once and no other, with its own audio, speaker, phone transcription and, where there is one, frame alignment. '
     'Sets never share a speaker list; words become phones by the lexicon, phones are reduced by the table of the corpus, and the units of the language are exactly the phones of the corpus with silence as non-speech. '
     'Languages prepared together or one after the other are the same, a missing or defective corpus is an error and never an empty or shortened set, an interrupted preparation is completed by the next run, and preparing again changes nothing.',
     ['inputs', 'histories', 'faults'], 'All corpora laid out as documented, lists of languages, and histories of complete, interrupted and failing runs.',
     'No test runs the recipes.',
     [L + 'timit/prepare_data.sh', L + 'timit/phone_ali.py', L + 'timit/timit-norm-trans.py', L + 'timit/timit_lang_prep.py', L + 'mboshi/prepare_data.sh', L + 'alffa/prepare_data.sh', L + 'alffa/prepare_transcripts.py', L + 'google_lr/prepare_data.sh', L + 'google_lr/prepare_transcripts.py', L + 'globalphone/prepare_data.sh', L + 'globalphone/gp_prep_flists.sh', L + 'zrc2019/prepare_data.sh', 'recipes/timit_v2/local/timit_data_prep.sh', R + 'utils/prepare_phone_trans.py', R + 'utils/maptrans.py'],
     [('prepare_data.sh and its tools', L)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
