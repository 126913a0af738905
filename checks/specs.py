"""What each check builds and runs, and what its evidence says about it."""

# target: (flavour, source in harness/, what it is linked with)
HARNESSES = {
    "c01": ("plain", "c01.cpp", {"lib", "perturb"}),
    "c02": ("tsan", "c02.cpp", {"lib", "listnodes"}),
    "c03": ("plain", "c03.cpp", {"lib", "perturb"}),
    "c04": ("plain", "c04.cpp", {"lib", "perturb"}),
    "c05": ("plain", "c05.cpp", {"lib", "perturb"}),
    "c06": ("plain", "c06.cpp", {"lib"}),
    "c07": ("plain", "c07.cpp", {"lib"}),
    "c08": ("plain", "c08.cpp", {"lib"}),
    "c09": ("plain", "c09.cpp", {"lib"}),
    "c10": ("plain", "c10.cpp", {"lib"}),
    "c11": ("plain", "c11.cpp", {"lib"}),
    "npytool": ("plain", "npytool.cpp", {"io"}),
    "npytool_asan": ("asan", "npytool.cpp", {"io"}),
    "clitool": ("plain", "clitool.cpp", {"lib"}),
    "c15": ("plain", "c15.cpp", {"lib"}),
    "c16": ("plain", "c16.cpp", {"lib"}),
    "c17": ("plain", "c17.cpp", {"lib"}),
    "c18": ("plain", "c18.cpp", {"lib"}),
    "c19": ("plain", "c19.cpp", {"lib"}),
    "c21": ("plain", "c21.cpp", {"lib"}),
    "c20": ("asan", "c20.cpp", {"lib", "io"}),
    "c20v": ("plain", "c20.cpp", {"lib", "io"}),
}
# the workloads of the other monitors, watched by AddressSanitizer and UBSan for C20
REUSED = {"c03": 0.1, "c05": 0.2, "c06": 0.1, "c07": 0.1, "c08": 0.1, "c09": 0.1, "c10": 0.1, "c11": 0.1, "c15": 0.1, "c16": 0.1, "c17": 0.1,
          "c18": 0.1, "c19": 0.03, "c21": 0.1}
for _h in REUSED:
    HARNESSES[_h + "_asan"] = ("asan",) + HARNESSES[_h][1:]

NOT_APPLICABLE = {}

OBS = "Decides only what was executed: random cases from VERIF_SEED, no claim beyond them. "

SPECS = {
    "C01": dict(
        runs=[dict(exe="c01")],
        technique="differential runtime monitor: the same epoch / inference under many worker counts and perturbed schedules",
        rule="A case is a random model, corpus and configuration of one batch learner; it runs one epoch (or one transform) "
             "with one worker and again with several worker counts under delays injected at every lock, notify and thread "
             "start, and compares models, per-document results and likelihood multisets. Distinct = different completion "
             "orders of the documents seen by the recording E-step.",
        required=["epochs compared", "inferences compared", "class parameters compared"],
        assumptions=["sums may differ by rounding (1e-9 relative for topics in double, 1e-4 in float)",
                     "class parameters of the logistic learners are compared up to the resolution of the line search"],
        note=OBS + "Tolerances are for rounding of reordered sums only; schedules are those the kernel and the injected delays produce."),
    "C02": dict(
        runs=[dict(exe="c02", shards=8), dict(exe="c02", args=["online"], shards=2)],
        technique="ThreadSanitizer over library and harness while threads train, infer, predict and drive dispatchers",
        rule="A case is a random model/configuration/worker count with a random history of calls (fit, partial_fit, transform, "
             "predict, several objects sharing nothing or one step, dispatchers used from other threads) run under "
             "ThreadSanitizer. Distinct = different (model, workers, configuration, call history).",
        required=["events", "documents", "dispatcher calls from other threads"],
        assumptions=["ThreadSanitizer's happens-before analysis of the executed interleavings; libc is seen "
                     "through its interceptors, and libstdc++'s out-of-line list operations are replaced by instrumented ones"],
        note=OBS + "A race is reported when the two accesses are unordered by happens-before in the observed run, even if they did not collide."),
    "C03": dict(
        runs=[dict(exe="c03")],
        technique="trace monitor: recording E-step, M-step and corpus injected through the public constructor, delays and spurious wake-ups interposed, deadlock detector",
        rule="A case is a random corpus size, worker count and sequence of library calls over recording E and M steps, run "
             "under injected delays and spurious wake-ups; the trace is checked online for exactly-once, ordering, thread and "
             "concurrency rules; some corpora have up to 131073 documents, some trainings 1100 epochs. "
             "Distinct = different completion orders of the documents per worker count.",
        required=["epochs", "inferences", "corpora of more than 32000 documents", "epochs of long trainings"],
        note=OBS + "Hangs are decided by a detector that requires all threads asleep and no pending wake-up, not by a clock alone."),
    "C04": dict(
        runs=[dict(exe="c04")],
        technique="trace monitor over the event stream seen by listeners, under injected delays",
        rule="A case is a random learner, configuration and history of fit/partial_fit/transform/transform_predict calls with "
             "listeners joining and leaving; every event is logged with its thread and the log of each call is checked against the "
             "expected counts, order, thread and content. Distinct = different event sequences.",
        required=["calls", "events", "epoch models"],
        note=OBS + "The likelihood fraction is checked exactly for 0 and 1 and by a 6-sigma bound in between."),
    "C05": dict(
        runs=[dict(exe="c05")],
        technique="trace monitor: producers, listeners and a processing thread record sequence numbers; exactly-once and order checked against a reference model",
        rule="producers: several threads dispatch numbered events while listeners join and leave, with injected delays; history: "
             "random sequences of dispatch/process/add/remove operations including ones made from inside callbacks, compared "
             "with a reference model after each step; burst: up to 70000 events queued at once; comeback: listeners that are "
             "removed, registered again or registered twice; processors: several threads process at once. "
             "Distinct = different delivery orders / operation histories.",
        required=["events delivered", "listeners added or removed while producing", "callbacks that called the dispatcher",
                  "listeners that came back", "listeners registered twice"],
        note=OBS + "The reference model fixes only what the statement fixes (e.g. order across producers is free)."),
    "C06": dict(
        runs=[dict(exe="c06")],
        technique="invariant monitor on the result of every inference procedure over hostile random documents",
        rule="A case is a random model and document (empty, one word, huge counts, unknown words, many topics) for one of the "
             "six procedures in float or double; the invariants are evaluated on the returned parameters and the inference is "
             "repeated. Distinct = different (procedure, configuration, document length).",
        required=["documents", "word assignments", "words no topic knows", "repeated inferences",
                  "vocabularies of thousands of words"],
        note=OBS + "Tolerances grow with document length and precision only."),
    "C07": dict(
        runs=[dict(exe="c07")],
        technique="reference-model monitor: each iteration of the real inference compared with one sweep of long double update equations",
        rule="A case is a random model/document/configuration; inference is run with iteration limits 0, 1, ..., T and each step "
             "of the trajectory is compared with one sweep of the reference equations started from the library's previous "
             "state, within the propagated error bound of the table exponential; the stopping iteration is compared with the rule; "
             "some cases converge slowly, over up to 200 iterations; others compare the inferences of whole trainings with "
             "those of a step of the same age. "
             "Distinct = different (procedure, configuration, final state).",
        required=["inferences in trainings", "iterations compared", "word updates compared", "slowly converging iterations",
                  "early stops after more than 20 iterations", "documents with very frequent words", "inferences late in a long training",
                  "vocabularies of thousands of words"],
        note=OBS + "The reference is an independent long double transcription of the documented equations."),
    "C08": dict(
        runs=[dict(exe="c08")],
        technique="reference-model monitor: reported likelihood against a long double bound, and against exact evidence by enumeration",
        rule="A case is a random model/document/configuration; the likelihood carried by the event is compared with the bound "
             "recomputed from the returned parameters, with the exact log probability for documents of up to 6 tokens, and along "
             "the iterations. Distinct = different reported values.",
        required=["exact log probabilities", "iterations compared", "improving iterations"],
        note=OBS + "Comparisons allow the error bound of the table exponential and rounding."),
    "C09": dict(
        runs=[dict(exe="c09")],
        technique="reference-model monitor: model after each M-step against long double statistics and objective",
        rule="A case feeds a random sequence of document sets (several epochs) to a batch M-step and compares topics, class "
             "distributions, objective values and events with references; orders and histories are permuted. Distinct = "
             "different (learner, configuration, statistics).",
        required=["updates of thousands of words", "updates from thousands of documents", "topic updates", "class distribution updates", "logistic updates", "orders and histories compared"],
        note=OBS + "Rounding tolerances only."),
    "C10": dict(
        runs=[dict(exe="c10")],
        technique="invariant monitor on the model carried by every epoch event, hostile corpora",
        rule="A case trains one of seven set-ups for several epochs on hostile corpora (also continuing on another corpus) and "
             "evaluates the invariants on the model of every epoch event and after every call. Distinct = different "
             "(learner, configuration, resulting class parameters).",
        required=["models checked", "epochs", "empty topics"],
        note=OBS + "Domain limits (word totals within int, bounded class weights) are listed in DESIGN.md."),
    "C11": dict(
        runs=[dict(exe="c11")],
        technique="metamorphic and reference monitor on transform/decision_function/predict results",
        rule="A case is a random or trained model and batch; scores and predictions are compared with a reference computed from "
             "the transform result, and recomputed for sub-batches, permutations, repeated and interleaved calls and other worker "
             "counts. Distinct = different transform results.",
        required=["documents of calls with many documents", "documents classified into hundreds of classes", "scores compared", "predictions", "documents without words", "documents transformed again in other company",
                  "trained models"],
        note=OBS + "Ties and near ties (within rounding) of scores accept either class."),
    "C12": dict(
        runs=[dict(cmd=["python3-vt", "{checks}/npy.py", "c12"], targets=["npytool"])],
        technique="differential runtime monitor: every array read or written by the library compared bit for bit with numpy's",
        rule="A case is a batch of 40 files of 1-5 arrays: written by numpy (any supported type, 0-3 dimensions, order, byte order, "
             "views) and read by the library, or written by the library and read by numpy and the library, or models and data files, "
             "or one large array (up to 2 million numbers) copied by the library; a quarter of the batches under a locale that groups digits. "
             "Distinct = different sequences of (type, shape, order).",
        required=["arrays written by numpy", "big endian arrays", "Fortran order arrays", "empty arrays",
                  "three dimensional arrays", "arrays read by numpy", "arrays read back", "models and data files", "large arrays",
                  "batches under locales that group digits"],
        note=OBS + "The peer is the installed numpy; only format version 1 is in the domain."),
    "C13": dict(
        runs=[dict(cmd=["python3-vt", "{checks}/npy.py", "c13"], targets=["npytool_asan"], flavor="asan")],
        technique="fault injection under AddressSanitizer/UBSan with allocation hooks; verdict of every read judged by an independent parser",
        rule="A case is a batch of damaged files: truncations of one file at (all) bytes, mutated signatures and headers, adversarial "
             "shapes, foreign types and files, long files. Each read must end with an error, or for files an independent parser can "
             "make sense of, with its values; allocations are bounded by the file size. Distinct = different (damage, verdict).",
        required=["files refused", "unusual but readable files", "truncations", "mutations", "shapes", "foreign files", "long files"],
        note=OBS + "A header is 'wrong' when Python's literal parser finds no format 1 header in it; readers may be stricter."),
    "C14": dict(
        runs=[dict(cmd=["python3-vt", "{checks}/cli.py"], targets=["clitool"], ninja=["apps_plain"])],
        technique="differential monitor of the real binaries (files, exit status, output) against the library, with injected file faults",
        rule="A case runs the console tools in a scratch directory: a training with random options (model, snapshots and printed values "
             "compared with the library's own run, then a transformation), also of hundreds of documents or epochs, of tens of thousands of documents and from models "
             "that numpy wrote, a chain of continued trainings, an online training, a "
             "series of injected faults (truncated or missing inputs, full or unwritable outputs) or wrong usages. Distinct = "
             "different command lines and data shapes.",
        required=["models compared", "models of lda", "models of slda", "models of fslda", "models of online", "snapshots compared",
                  "transformations compared", "continued models compared", "trainings from unsupervised models",
                  "online models that learned", "online models without a complete batch", "faults noticed", "quiet commands",
                  "printed likelihoods compared", "printed objectives compared", "wrong usages",
                  "epochs whose printed document numbers were compared", "trainings with many documents or classes",
                  "trainings with more than a hundred epochs", "trainings with tens of thousands of documents",
                  "trainings from models numpy wrote"],
        note=OBS + "The expected models come from the library, which the other properties check; online trainings are compared "
             "where updates fall on the ends of epochs and checked for validity elsewhere."),
    "C15": dict(
        runs=[dict(exe="c15")],
        technique="reference-model monitor on built models, call-history monitor of refusals, differential monitor of configured steps",
        rule="A case is a random initialisation (its topics are resolved into the documents drawn), class initialisation or copy, "
             "history of builder calls with the verdict after each, set-up compared in training with directly constructed steps, or "
             "iteration/worker numbers observed by recording steps. Distinct = different configurations or histories.",
        required=["topics resolved into documents", "topics resolved into thousands of documents", "seeds compared", "topics compared with each other", "documents drawn", "topics drawn", "refused",
                  "complete models", "sources compared", "steps compared", "default steps compared", "partly default steps compared", "worker counts"],
        note=OBS + "Draw frequencies are bounded at 8 standard deviations; steps are compared with the library's own classes."),
    "C16": dict(
        runs=[dict(exe="c16")],
        technique="history monitor: contents and order of real corpora compared with the data after every shuffle; frequency monitor of orders",
        rule="A case is a random corpus (duplicates, empty documents, label gaps, unlabelled documents) and a random sequence of "
             "shuffles and reads; contents are compared as multisets of (words, class), orders with a twin of the same seed, priors "
             "with counts; frequency cases count 3000 orders; large cases have 65536 to 300000 documents. Distinct = different final orders.",
        required=["documents followed through shuffles", "documents compared", "priors compared", "priors of missing classes", "orders reproduced", "orders that differ",
                  "shuffles in the frequency counts", "seeds compared", "documents of large corpora"],
        note=OBS + "Frequency bounds are 8 standard deviations."),
    "C17": dict(
        runs=[dict(exe="c17")],
        technique="reference-model monitor: model and event after every streamed document against a long double momentum learner",
        rule="A case streams random documents (empty ones, missing classes) through a real online M-step with random batch size, "
             "weights and rates and random epoch ends; after every document the model is compared bit for bit (no update due) or "
             "with the reference step (update due). Distinct = different (configuration, stream history).",
        required=["updates compared", "documents without an update", "ends of epochs without a complete batch",
                  "updates with class weights", "documents without words", "epochs without an update", "epochs with updates", "mini-batches of hundreds to thousands of documents"],
        note=OBS + "The reference velocity is kept in long double from the observed models; tolerances are rounding bounds."),
    "C18": dict(
        runs=[dict(exe="c18")],
        technique="differential runtime monitor: semi-supervised steps and trainings against the fast supervised and unsupervised ones",
        rule="A case is a random corpus with all, some or no labels and a random configuration; inference results, likelihoods, "
             "updates and events of the semi-supervised procedures are compared document by document and epoch by epoch with "
             "those of the procedures they have to coincide with. Distinct = different (configuration, sequence of labelled and "
             "unlabelled documents).",
        required=["labelled documents", "unlabelled documents", "class weights compared", "epochs without labels",
                  "trainings without labels", "trainings with all labels", "trainings with other negative classes"],
        note=OBS + "The procedures compared with are the library's own, which C06-C10 check on their own."),
    "C19": dict(
        runs=[dict(exe="c19")],
        technique="reference-model monitor: return values against long double functions over table cells, special values and (thorough) every float",
        rule="A case is a slab of 65536 float bit patterns, one table cell over several octaves with its floating point neighbours, "
             "2000 special and random arguments, or a random matrix with zero rows/columns and non-finite entries. Distinct = "
             "different slabs, cells or matrices.",
        required=["floats: exponentials", "floats: digammas", "doubles: table cells", "zero rows and columns",
                  "non-finite entries with weight zero", "scaled sums", "random numbers drawn by threads"],
        note=OBS + "The thorough tier covers every float argument of the exponential and digamma; doubles are sampled."),
    "C21": dict(
        runs=[dict(exe="c21")],
        technique="reference-model and trajectory monitor: objectives against long double formulas, every line search step and callback judged",
        rule="A case is a random data set, weights, penalty and points (objective), or a random function, start, Armijo constants "
             "and direction (search, descent); values and gradients are compared with the reference, each step with the documented "
             "sequence and condition, each callback with the position reached by a run stopped there. Distinct = different values "
             "or end points.",
        required=["first order objectives compared", "second order objectives compared", "gradients compared with difference quotients",
                  "full steps", "backtracked steps", "constant steps", "callbacks compared", "descents",
                  "iterations of long descents"],
        note=OBS + "Comparisons allow rounding; steps at the resolution of the objective may be any that rounding permits."),
    "C20": dict(
        runs=[dict(exe="c20", leaks=1),
              dict(cmd=["valgrind", "-q", "--error-markers=VGBEGIN,VGEND", "--leak-check=full", "--show-leak-kinds=definite,indirect",
                        "--errors-for-leak-kinds=definite,indirect", "--num-callers=20", "{build}/plain/c20v"], targets=["c20v"], valgrind=True),
              dict(cmd=["python3-vt", "{checks}/cli.py", "asan"], targets=["clitool"], ninja=["apps_asan"], flavor="asan", leaks=1, only=["sanitizer", "hang"])] +
             [dict(exe=h + "_asan", scale=f, only=["nothing"], shards=4) for h, f in REUSED.items()],
        technique="AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer over library, tools and all workloads; valgrind memcheck with definedness queries on results",
        rule="A case is one call history of the library (fits of changing corpora, moves, copies, listeners, results and events kept "
             "beyond their objects, destruction in random order), history of shared and wrapped steps, builder history, file round trip, console command, or one case of the "
             "workload of another monitor, executed with every memory access, arithmetic operation and (at the end) allocation "
             "judged by the sanitizers; a smaller set runs under valgrind, where every result array is asked for undefined bits. "
             "Distinct = different histories and configurations.",
        required=["operations", "result arrays read", "events looked at", "models built", "incomplete builders", "files", "commands",
                  "inferences with bare steps"],
        note=OBS + "Sanitizers see the library, the tools, Eigen and the harness, not the inside of libc and libstdc++."),
}
