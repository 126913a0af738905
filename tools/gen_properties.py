#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Results do not depend on worker count or thread scheduling",
 "For a given model and corpus, topic inference on documents returns the same per-document result, in document order, for every number of workers and every thread schedule. One epoch of batch training from a given model produces the same parameters (up to floating point rounding of sums) and the same set of reported per-document likelihoods for every number of workers and every schedule.",
 ["schedules", "inputs", "configurations"],
 "all batch models (unsupervised, supervised, fast, semi-supervised, multinomial, correspondence), corpora, 1..N workers, all interleavings of workers and the collecting thread; the online learner is excluded because its updates are order dependent by design",
 "the tests run one schedule per corpus and never compare two worker counts; TestFit only looks for an increase of a probability",
 ["src/ldaplusplus/LDA.cpp", "include/ldaplusplus/LDA.hpp", "src/ldaplusplus/em/UnsupervisedMStep.cpp"],
 [("index carried with every job and result", "src/ldaplusplus/LDA.cpp:doc_e_step_worker/transform"), ("mutex protected queues", "src/ldaplusplus/LDA.cpp"), ("commutative sufficient statistics", "src/ldaplusplus/em/UnsupervisedMStep.cpp:doc_m_step")],
 ["return value of transform", "model_parameters() after every epoch", "ExpectationProgressEvent likelihoods"],
 [("queue_in_, queue_out_", "jobs not yet taken / results not yet collected", "include/ldaplusplus/LDA.hpp")])

prop("C02", "Training, inference and event delivery are free of data races",
 "No two threads started or used by the library access the same memory without synchronisation when at least one of them writes, during training, inference, prediction and event dispatching with any number of workers, any listeners, and listeners being added, removed or fed from other threads. (The online learner's in-place update of the model while workers read it is a recorded known finding.)",
 ["schedules", "configurations", "programs"],
 "every batch model and every public operation, 1..8 workers, sampled likelihood computation, listeners added/removed/dispatching concurrently through the thread safe dispatcher",
 "tests run without a race detector; a data race rarely changes the outcome they look at",
 ["src/ldaplusplus/LDA.cpp", "src/ldaplusplus/events/Events.cpp", "include/ldaplusplus/utils.hpp", "src/ldaplusplus/em/*.cpp"],
 [("queue mutexes and condition variable", "src/ldaplusplus/LDA.cpp"), ("dispatcher mutexes", "src/ldaplusplus/events/Events.cpp"), ("ThreadSafePRNG", "include/ldaplusplus/utils.hpp"), ("join before the batch M step", "src/ldaplusplus/LDA.cpp:partial_fit")],
 ["ThreadSanitizer happens-before instrumentation of library and harness"])

prop("C03", "Every document is processed exactly once per epoch, with its own results",
 "In every training epoch each document of the corpus goes through inference exactly once and its own inferred parameters are folded into the new model exactly once, on the calling thread; the model is updated once, only after all documents were inferred, and a full training runs exactly the configured number of epochs. Inference-only calls infer each document exactly once and put its result at its own position. Every call returns (no deadlock or lost wake-up), at most the configured number of workers infer concurrently, and no worker outlives the call.",
 ["schedules", "histories", "configurations"],
 "corpora of 1..300 documents, 1..16 workers (including more workers than documents), repeated and mixed calls on one object, arbitrary delays in inference and maximisation, delays around every lock/notify, and spurious wake-ups",
 "tests use one configuration, cannot see which document was processed when, and only the benign schedule of an idle machine is exercised",
 ["src/ldaplusplus/LDA.cpp", "include/ldaplusplus/LDA.hpp"],
 [("job queue popped under a lock", "src/ldaplusplus/LDA.cpp:doc_e_step_worker"), ("condition variable with predicate", "src/ldaplusplus/LDA.cpp:extract_vp_from_queue"), ("join of the pool", "src/ldaplusplus/LDA.cpp:destroy_worker_pool")],
 ["EStepInterface/MStepInterface/Corpus calls made by the library (monitoring implementations are injected through the public constructor)"],
 [("queue_in_, queue_out_", "jobs and results in flight", "include/ldaplusplus/LDA.hpp")])

prop("C04", "Progress events: complete, on the caller's thread, in epoch order",
 "During training every document produces exactly one expectation progress event per epoch, and every epoch ends with exactly one epoch event that carries the already updated model; all are delivered on the thread that called the training function, before it returns, with the expectation events of an epoch before its epoch event and, for the batch learners, before its maximisation events. Inference-only calls deliver exactly one expectation event per document and no epoch event. An expectation event carries a likelihood for the configured fraction of documents (all for 1, none for 0) and NaN for the others.",
 ["schedules", "histories", "configurations"],
 "every model and every E-step, 1..8 workers, listeners present from the start, added or removed between calls, likelihood fraction 0..1, repeated epochs",
 "no test counts or orders events; event loss only shows under particular interleavings of worker dispatch and main thread processing",
 ["src/ldaplusplus/LDA.cpp", "src/ldaplusplus/events/Events.cpp", "include/ldaplusplus/events/ProgressEvents.hpp", "src/ldaplusplus/em/SemiSupervisedEStep.cpp"],
 [("worker events queued and drained by the collecting thread", "src/ldaplusplus/LDA.cpp:partial_fit,transform"), ("same thread dispatcher", "src/ldaplusplus/events/Events.cpp"), ("event forwarding of composed steps", "src/ldaplusplus/em/SemiSupervisedEStep.cpp")],
 ["listeners registered through get_event_dispatcher()"])

prop("C05", "Thread safe dispatcher delivers every event exactly once, in order",
 "Every event dispatched from any thread through a thread safe dispatcher is delivered exactly once to every listener registered at the time it is processed, never on the dispatching thread unless that thread processes events, and events of one producer arrive in the order they were dispatched (events dispatched from inside a callback may overtake those still queued). The same-thread dispatcher delivers events of its owner immediately and events of other threads at the owner's next dispatch or processing; a listener removed by the processing thread gets no event processed afterwards (removed from inside a callback: none from the next processing on), while all other listeners are unaffected, including when listeners dispatch, add or remove from inside a callback.",
 ["schedules", "histories"],
 "1..8 producers, a processing thread, several listeners, listeners joining and leaving (first, middle, last, several at once, all), reentrant callbacks, all interleavings",
 "no existing test touches the event system",
 ["src/ldaplusplus/events/Events.cpp", "include/ldaplusplus/events/Events.hpp"],
 [("copy-and-clear of the event list under its mutex", "src/ldaplusplus/events/Events.cpp:process_events"), ("deferred removal set", "src/ldaplusplus/events/Events.cpp:remove_listener"), ("owner thread id", "src/ldaplusplus/events/Events.cpp:SameThreadEventDispatcher")],
 ["listener callbacks recording (producer, sequence number, thread)"],
 [("events_, listeners_, deleted_listeners_", "pending events, registered listeners, pending removals", "include/ldaplusplus/events/Events.hpp")])

prop("C06", "Inference yields valid distributions that account for every word",
 "For every document, the inferred document-topic parameters are finite, at least the prior, and sum to the prior's sum plus the number of words the model can generate (a word is unknown when no topic gives it a probability above the underflow threshold); the per-word topic assignments (and per-word label weights where the model has them) are non-negative and sum to one, and the document-topic parameters equal the prior plus the count-weighted assignments. Inference changes neither the model, nor the document, nor later inferences: repeating it gives the same result.",
 ["inputs", "configurations"],
 "all six inference procedures, float and double, documents including empty, one-word, huge counts and words unknown to the model, 1..2000 topics, skewed priors, sparse topics, any iteration limit >= 1 and any tolerance",
 "tests check two hand-picked random documents per procedure; sums, bounds, unknown words, empty documents and many topics are never generated",
 ["src/ldaplusplus/e_step_utils.cpp", "src/ldaplusplus/em/UnsupervisedEStep.cpp", "src/ldaplusplus/em/SupervisedEStep.cpp", "src/ldaplusplus/em/FastSupervisedEStep.cpp", "src/ldaplusplus/em/MultinomialSupervisedEStep.cpp", "src/ldaplusplus/em/CorrespondenceSupervisedEStep.cpp", "src/ldaplusplus/em/SemiSupervisedEStep.cpp"],
 [("column normalisation guarded against zero columns", "include/ldaplusplus/utils.hpp:normalize_cols"), ("count weighted sum of assignments", "src/ldaplusplus/e_step_utils.cpp:compute_gamma")],
 ["parameters returned by the inference step"])

prop("C07", "Inference performs the model's update equations and stopping rule",
 "Each inference iteration moves the variational parameters as the documented update equations of that model prescribe (within the error bound of the table based exponential), including the class, the class weights and their decay over epochs for the supervised variants. Inference stops after the configured number of iterations, or earlier exactly when the mean change of the document-topic parameters falls below the configured tolerance.",
 ["inputs", "configurations", "histories"],
 "all six inference procedures, float and double, random models, documents, labels, weights, iteration limits and tolerances; trajectories of 1..12 iterations; up to 4 epochs of weight decay",
 "tests only require a bound to increase on one document; a wrong term, a wrong tolerance or a wrong stop usually still increases it",
 ["src/ldaplusplus/e_step_utils.cpp", "include/ldaplusplus/e_step_utils.hpp", "src/ldaplusplus/em/AbstractEStep.cpp", "src/ldaplusplus/em/*EStep.cpp"],
 [("update functions", "src/ldaplusplus/e_step_utils.cpp"), ("convergence test", "src/ldaplusplus/em/AbstractEStep.cpp:converged"), ("weight of the supervised term", "src/ldaplusplus/em/FastSupervisedEStep.cpp:get_weight")],
 ["sequence of parameters returned for iteration limits 1, 2, ..., k"])

prop("C08", "Reported document likelihood is the variational bound of the model",
 "The likelihood reported for a document equals the evidence lower bound of the respective model at the inferred parameters, with every word weighted by its count. For unsupervised inference it never exceeds the exact log probability of the document under the model, and it does not decrease as inference iterates (up to the error of the table based exponential).",
 ["inputs", "configurations"],
 "unsupervised, supervised, fast, multinomial and correspondence inference; documents with repeated words, empty documents, unknown words; exact evidence by enumerating all topic assignments of documents with up to 6 tokens",
 "tests compare the bound only with itself on two documents; a wrong constant or a missing count weight keeps it increasing",
 ["src/ldaplusplus/e_step_utils.cpp", "src/ldaplusplus/em/*EStep.cpp"],
 [("bound computations", "src/ldaplusplus/e_step_utils.cpp:compute_*_likelihood"), ("event emission", "src/ldaplusplus/em/*EStep.cpp")],
 ["likelihood() of the expectation progress event and the parameters returned for the same document"])

prop("C09", "Batch model update: topics and class parameters maximise the expectations",
 "A batch model update sets each topic's word distribution to its normalised expected word counts over exactly the documents of that epoch (weighted by the label weights for the correspondence model), independent of document order and of earlier epochs. Multinomial and correspondence class parameters become the normalised smoothed expected counts per class. Logistic class parameters never get a worse regularised class-weighted training objective than before the update, the improvements reported by the maximisation events are true objective values that never get worse, and the iteration limit is respected.",
 ["inputs", "histories", "configurations"],
 "all batch model updates, float and double, any set of documents (1..60), classes incl. missing and imbalanced ones, several epochs with growing and shrinking document sets",
 "tests feed random numbers once and only check that rows sum to one or the objective drops",
 ["src/ldaplusplus/em/UnsupervisedMStep.cpp", "src/ldaplusplus/em/FastSupervisedMStep.cpp", "src/ldaplusplus/em/SupervisedMStep.cpp", "src/ldaplusplus/em/MultinomialSupervisedMStep.cpp", "src/ldaplusplus/em/CorrespondenceSupervisedMStep.cpp", "src/ldaplusplus/optimization/*.cpp"],
 [("sufficient statistics accumulated per document and reset per epoch", "src/ldaplusplus/em/*MStep.cpp"), ("Armijo gradient descent", "include/ldaplusplus/optimization/GradientDescent.hpp")],
 ["model parameters after the update, maximisation progress events"],
 [("b_, h_, expected_z_bar_, docs_", "statistics of the running epoch", "include/ldaplusplus/em/*MStep.hpp")])

prop("C10", "Training always leaves a valid, finite model",
 "After every epoch of every training procedure (the online learner's with a step size at which it does not diverge) on any corpus of non-negative word counts, the topic prior is unchanged, all parameters are finite and keep their shape, every topic is a probability distribution over the vocabulary (or all zero when no word was assigned to it; the online learner's topics are weighted averages of such), and for models with class distributions these are positive distributions too.",
 ["inputs", "configurations", "histories"],
 "all seven training set-ups incl. online, corpora with empty documents, unused words, single documents/words/topics/classes, huge counts, missing classes, all documents identical, unlabelled documents (semi-supervised), continued training on other corpora",
 "tests train on one dense random corpus",
 ["src/ldaplusplus/LDA.cpp", "src/ldaplusplus/em/*.cpp", "src/ldaplusplus/optimization/*.cpp", "include/ldaplusplus/utils.hpp"],
 [("guarded normalisation", "include/ldaplusplus/utils.hpp:normalize_rows"), ("empty document guards", "src/ldaplusplus/em/*.cpp")],
 ["model parameters carried by every epoch event and after training returns"])

prop("C11", "Predictions follow from the model, one document at a time",
 "The predicted class of a document is the index of the largest decision score, decision scores are the class weights applied to the document's expected topic proportions (zero for a document without words), and the combined transform-and-predict call agrees with the separate calls. The result for a document does not depend on the other documents of the call, on their order, or on earlier calls, and prediction never changes the model.",
 ["inputs", "configurations", "histories"],
 "models with 1..20 topics and 1..8 classes, batches with empty/duplicate/unknown-word documents, sub-batches, permutations, repeated and interleaved calls, any number of workers",
 "only one end-to-end test calls predict, on the training data",
 ["src/ldaplusplus/LDA.cpp"],
 [("column-wise scoring", "src/ldaplusplus/LDA.cpp:decision_function,predict,transform_predict")],
 ["return values of transform, decision_function, predict, transform_predict; model before/after"])

prop("C12", "Numpy files round-trip exactly and interoperate with numpy",
 "Any matrix or vector of a supported type written by the library is read back by the library and by numpy with the same shape, type and bits, also when several arrays are written to one stream. Any array of a supported type and up to three dimensions that numpy writes in format version 1, in C or Fortran order and in little or big endian, is read with exactly its values.",
 ["inputs", "configurations"],
 "int8..uint64, float, double; shapes with 0..3 dimensions including empty ones; row and column major; special values (NaN, infinities, -0, denormals, extreme integers); sequences of arrays in one file",
 "tests round-trip one random matrix and read two literal little-endian arrays",
 ["include/ldaplusplus/NumpyFormat.hpp", "src/applications/lda_io.cpp"],
 [("header writer/parser, byte swapping, order aware copy", "include/ldaplusplus/NumpyFormat.hpp")],
 ["bytes written, matrices read, real numpy as peer"])

prop("C13", "Damaged or foreign array files are rejected, never misread",
 "Reading an array file that is empty, truncated at any byte, has a wrong signature, version, header, type or shape, or promises more data than it has, raises an error; it never crashes, hangs, reads out of bounds, allocates memory out of proportion to the file, or returns data. In particular a model or data file cut short at any point is never accepted.",
 ["inputs", "crash_points", "fault_sequences"],
 "every truncation point of valid one- and multi-array files, every single-byte corruption of the signature, random header mutations, adversarial shapes, missing files",
 "no test reads a malformed file",
 ["include/ldaplusplus/NumpyFormat.hpp", "src/applications/lda_io.cpp"],
 [("length, signature and shape validation", "include/ldaplusplus/NumpyFormat.hpp:operator>>")],
 ["exceptions of the reading functions under AddressSanitizer/UBSan, values read"])

prop("C14", "Console tools: saved models, snapshots and continuation are faithful",
 "The training commands write exactly the model that training with the given (or default) options produces; the transform commands write the topic parameters that the saved model infers for each document. A snapshot taken after n epochs equals the model of an n-epoch training, and training n epochs, saving and continuing for m equals training n+m epochs (batch learners); a supervised training can start from an unsupervised model. The progress printed reports every epoch, every hundredth document of it, its mean document likelihood and the learner's objective; quiet commands print nothing. A command that exits successfully has completely written its output, and unreadable input or unwritable output gives a failing exit status.",
 ["inputs", "configurations", "histories", "fault_sequences"],
 "lda, slda and fslda (batch and online), option subsets, worker counts, snapshot intervals, continuation chains, missing/truncated inputs, full or unwritable output",
 "no test runs the console tools",
 ["src/applications/lda.cpp", "src/applications/slda.cpp", "src/applications/fslda.cpp", "src/applications/lda_io.cpp", "src/applications/SnapshotEvery.cpp", "src/applications/EpochProgress.cpp", "src/applications/utils.cpp"],
 [("option to builder mapping", "src/applications/*.cpp"), ("save_lda/load_lda", "src/applications/lda_io.cpp"), ("snapshot listener", "src/applications/SnapshotEvery.cpp")],
 ["files written, exit status and standard output of the real binaries"])

prop("C15", "Model builder: valid, reproducible initial models; incomplete ones refused",
 "Every initialisation option yields a model with the requested number of topics, words and classes, a uniform topic prior of one over the number of topics, and topics that are probability distributions (strictly positive when seeded from documents, whose expected word frequencies they follow); the same seed gives the same model and different seeds differ. Initialising from another model copies it, so later training leaves the source unchanged. Building without topics, or a supervised model without class parameters, is refused with an error, and the configured iterations, workers and steps are the ones used.",
 ["inputs", "configurations", "histories"],
 "all builder options and call orders, topics 1..50, words 1..200, corpora incl. empty documents, seeds",
 "the builder is used by tests only as a fixture",
 ["src/ldaplusplus/LDABuilder.cpp", "include/ldaplusplus/LDABuilder.hpp"],
 [("seeded/random initialisation", "src/ldaplusplus/LDABuilder.cpp"), ("requirement flags", "include/ldaplusplus/LDABuilder.hpp:operator LDA")],
 ["model parameters of the built object, exceptions, number of epochs and concurrency observed"])

prop("C16", "A corpus is a faithful collection under any shuffle sequence",
 "After any number of shuffles a corpus still contains each of its documents exactly once, every document with its own words and its own class, in an order that is a function of the seed and the number of shuffles and that actually varies. The prior of a class is the fraction of documents that carry it, whatever other labels (including unlabelled documents) occur.",
 ["inputs", "histories"],
 "corpora of 1..400 documents incl. duplicates, labels with gaps and negatives, seeds, shuffle sequences interleaved with access",
 "the corpus test reads an unshuffled corpus once",
 ["src/ldaplusplus/Document.cpp", "include/ldaplusplus/Document.hpp"],
 [("index permutation shuffled with a private generator", "src/ldaplusplus/Document.cpp:CorpusIndexes")],
 ["documents returned by the corpus, priors"],
 [("indices_", "current permutation", "include/ldaplusplus/Document.hpp")])

prop("C17", "Online learner: one momentum step per full mini-batch, nothing lost",
 "The online learner updates the model exactly when a mini-batch is complete, carrying incomplete batches over to later epochs, and leaves it untouched otherwise. Each update moves the topics to the weighted average of the old topics and the normalised expected word counts gathered so far, and moves the class weights by one momentum step along the gradient of the class-weighted regularised logistic loss of the documents of that mini-batch; it reports the resulting objective.",
 ["inputs", "histories", "configurations"],
 "mini-batch sizes 1..64, streams of up to 300 documents split into epochs of any length, given class weights or class counts, momentum, learning rate, penalty and topic weight in their ranges, empty documents and missing classes in a batch",
 "the test checks that a progress value increases for a single batch size",
 ["src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp", "src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp"],
 [("document counter and update trigger", "src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp:doc_m_step"), ("momentum update", "src/ldaplusplus/em/FastOnlineSupervisedMStep.cpp:m_step")],
 ["model parameters and maximisation events after every document"],
 [("docs_seen_so_far_, b_, eta_velocity_", "position in the batch, counts, velocity", "include/ldaplusplus/em/FastOnlineSupervisedMStep.hpp")])

prop("C18", "Semi-supervised training: labels used when present, ignored when absent",
 "Semi-supervised training treats a labelled document exactly like fast supervised training and an unlabelled (negative class) document exactly like unsupervised training: with all documents labelled it equals fast supervised training, with none labelled it equals unsupervised training and leaves the class weights unchanged. Unlabelled documents contribute to the topics but never to the class weights.",
 ["inputs", "configurations"],
 "corpora with any mixture of labelled and unlabelled documents in any order, several epochs, 1..4 workers",
 "no test uses the semi-supervised steps",
 ["src/ldaplusplus/em/SemiSupervisedEStep.cpp", "src/ldaplusplus/em/SemiSupervisedMStep.cpp", "src/ldaplusplus/Document.cpp"],
 [("routing on the sign of the class", "src/ldaplusplus/em/SemiSupervised*Step.cpp")],
 ["inferred parameters per document and model parameters after each epoch, compared with runs of the fast supervised and unsupervised procedures"])

prop("C19", "Special function approximations stay within their error bounds",
 "The table based exponential has relative error below about max(1, 2|x|)/1000 for every finite argument short of the type's overflow and underflow, is exact to rounding for arguments beyond 100, never returns negative values, and handles zero, overflow, infinities and NaN like the exact function. The digamma approximation agrees with the exact function to 1e-9 (double) or 3e-6 (float), relative to max(1, |value|), for every positive argument; the shared random number generator hands out each number of its sequence exactly once, whatever threads draw; and the normalisation and scaled-sum helpers are exact to rounding, ignoring zero weights even next to non-finite entries.",
 ["inputs"],
 "floats and doubles over the whole range: table cell boundaries, powers of two, dense grids, random bit patterns, special values; random matrices with zero rows/columns",
 "the helper functions have no tests of their own",
 ["include/ldaplusplus/utils.hpp"],
 [("lookup table with halving/squaring", "include/ldaplusplus/utils.hpp:fast_exp"), ("recurrence plus asymptotic series", "include/ldaplusplus/utils.hpp:digamma")],
 ["return values compared with libm/boost in extended precision"])

prop("C20", "No memory error or undefined behaviour on any valid use",
 "Training, inference, prediction, model saving/loading and the console tools perform no out-of-bounds or use-after-free access, no read of indeterminate control data, no leak and no undefined arithmetic, for every model, every corpus of non-negative counts and every legal configuration.",
 ["inputs", "configurations", "histories"],
 "all models and operations on hostile corpora (empty documents, one word, one topic, one class, class gaps, unlabelled documents, huge counts, unknown words, changing corpus sizes between epochs), object reuse and destruction orders",
 "tests run uninstrumented, on dense square-ish random data",
 ["src/ldaplusplus/**", "include/ldaplusplus/**", "src/applications/**"],
 [("bounds implied by shapes", "throughout"), ("guards for empty input", "src/ldaplusplus/em/*.cpp, src/ldaplusplus/e_step_utils.cpp")],
 ["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, Eigen and libstdc++ assertions compiled in"])

prop("C21", "Optimisers: true gradients, and steps that never worsen the objective",
 "For both logistic objectives the reported value is the class-weighted regularised negative log likelihood of the documented formula and the gradient is its derivative, for every data set and parameter value. The backtracking line search returns the objective value at the point it moved to, that point satisfies the sufficient decrease condition with a step from the documented sequence, and minimisation calls back once per iteration with the current value and gradient norm and stops when told to.",
 ["inputs", "configurations"],
 "1..12 dimensions, 1..6 classes, 1..40 samples, class weights derived or given, penalties >= 0, starting points incl. (near) stationary ones, Armijo constants, step factors",
 "tests check the gradient with a loose finite difference at random points and that one small problem overfits",
 ["src/ldaplusplus/optimization/MultinomialLogisticRegression.cpp", "src/ldaplusplus/optimization/SecondOrderLogisticRegressionApproximation.cpp", "include/ldaplusplus/optimization/GradientDescent.hpp"],
 [("Armijo loop", "include/ldaplusplus/optimization/GradientDescent.hpp:ArmijoLineSearch"), ("value/gradient pairs", "src/ldaplusplus/optimization/*.cpp")],
 ["value()/gradient() results, sequence of evaluated points recorded by a monitoring problem type, progress callback arguments"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
