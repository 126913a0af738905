#!/usr/bin/env python3-vt
"""C14: the console tools against the library, across snapshots, continuation and faults."""
import ast
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from proto import Run, Abort, Skip  # noqa: E402

FLAVOR = "plain"
DEFAULTS = {
    "lda": dict(topics=100, iterations=20, e_it=30, e_tol="1e-3", cl="0.0", rs=0),
    "slda": dict(topics=100, iterations=20, e_it=10, e_tol="1e-4", fp=20, cl="0.0", rs=0, m_it=200, m_tol="1e-4", L="0.05"),
    "fslda": dict(topics=100, iterations=20, e_it=10, e_tol="1e-4", C="1", cl="0.0", rs=0, m_it=200, m_tol="1e-4", L="0.05"),
    "online": dict(topics=100, iterations=20, e_it=10, e_tol="1e-4", C="1", cl="0.0", rs=0, L="0.05", batch=128, mom="0.9", lr="0.01", bw="0.9"),
}
FLAG = dict(topics="--topics", iterations="--iterations", e_it="--e_step_iterations", e_tol="--e_step_tolerance", fp="--fixed_point_iterations",
            cl="--compute_likelihood", rs="--random_state", C="--supervised_weight", m_it="--m_step_iterations", m_tol="--m_step_tolerance",
            L="--regularization_penalty", batch="--batch_size", mom="--momentum", lr="--learning_rate", bw="--beta_weight", workers="--workers")


# ---- files, without the library and without numpy.load's leniency

def read_npys(path, n=None):
    """all arrays of a file; raises unless the file consists of exactly n complete arrays"""
    b = open(path, "rb").read()
    pos, out = 0, []
    while pos < len(b):
        if b[pos:pos + 8] != b"\x93NUMPY\x01\x00":
            raise ValueError("no array at byte %d of %d" % (pos, len(b)))
        hl = struct.unpack("<H", b[pos + 8:pos + 10])[0]
        h = ast.literal_eval(b[pos + 10:pos + 10 + hl].decode("latin1").strip())
        dt, shape = np.dtype(h["descr"]), h["shape"]
        size = int(np.prod(shape)) * dt.itemsize
        data = b[pos + 10 + hl:pos + 10 + hl + size]
        if len(data) != size:
            raise ValueError("array cut short: %d of %d bytes" % (len(data), size))
        out.append(np.frombuffer(data, dt).reshape(shape, order="F" if h["fortran_order"] else "C"))
        pos += 10 + hl + size
    if n is not None and len(out) != n:
        raise ValueError("%d arrays instead of %d" % (len(out), n))
    return out


def read_model(path):
    al, be, et = read_npys(path, 3)
    if al.dtype != np.float64 or be.dtype != np.float64 or et.dtype != np.float64:
        raise ValueError("not double precision")
    return al.reshape(-1), be, et


def write_data(r, path, X, y=None):
    with open(path, "wb") as f:
        for a in (X, y):
            if a is not None:
                np.lib.format.write_array(f, np.asfortranarray(a) if r.random() < 0.5 else np.ascontiguousarray(a), version=(1, 0))


def raw_data(path, X, y):
    with open(path, "wb") as f:
        f.write(np.array(X.shape, "<i8").tobytes() + X.astype("<i4").tobytes("F") + y.astype("<i4").tobytes())


def raw_model(path, m):
    with open(path, "wb") as f:
        f.write(np.array([m[1].shape[0], m[1].shape[1], m[2].shape[1]], "<i8").tobytes())
        for a in m:
            f.write(np.asarray(a, "<f8").tobytes("F"))


def same_model(a, b, tol_topics, tol_eta):
    """largest deviation relative to the tolerances; > 1 means different"""
    worst = 0
    for x, z, tol, absolute in zip(a, b, (0, tol_topics, tol_eta), (1, 1e-3, 1e-2)):
        if x.shape != z.shape:
            return float("inf")
        if x.size == 0:
            continue
        if not (np.isfinite(x).all() and np.isfinite(z).all()):
            return float("inf")
        e = np.max(np.abs(x - z) / (absolute + np.abs(z)))
        worst = max(worst, (e / tol) if tol else (0 if e == 0 else float("inf")))
    return worst


class Cli:
    def __init__(self, run):
        self.run, self.dir = run, os.path.join(run.a.scratch, "w")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.n = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def app(self, argv, fsize=None):
        """(exit status, standard output)"""
        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fsize is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        exe = "%s/%s/app/%s" % (self.run.build, FLAVOR, argv[0])
        # the output goes through a pipe, so that a file size limit does not hit it
        try:
            p = subprocess.run([exe] + argv[1:], stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limits, timeout=120, cwd=self.dir)
        except subprocess.TimeoutExpired:
            self.run.require(False, "hang", "%s does not end within 120 s" % " ".join(argv))
        self.run.count("commands")
        self.err = p.stderr.decode(errors="replace")
        m = re.search(r"(ERROR: AddressSanitizer.*|.*runtime error: .*|ERROR: LeakSanitizer.*|.*Assertion `.*)", self.err)
        if m:
            self.run.fail("sanitizer", "%s: %s" % (" ".join(argv), m.group(1)[:300]))
        return p.returncode, p.stdout.decode(errors="replace")

    def reference(self, **kv):
        """epochs [(alpha, beta, eta)...] and log of the same training with the library"""
        self.n += 1
        plan, out = self.path("plan"), self.path("ref.out")
        with open(plan, "w") as f:
            f.write(" ".join("%s=%s" % i for i in kv.items()) + " out=%s\n" % out)
        p = subprocess.run(["%s/plain/clitool" % self.run.build, plan], capture_output=True, text=True, timeout=200)
        if p.returncode:
            raise RuntimeError("reference failed: %s %s" % (p.stdout[-300:], p.stderr[-300:]))
        b = open(out, "rb").read()
        if kv["app"] == "transform":
            return np.frombuffer(b, "<f8"), ""
        K, V, C = np.frombuffer(b[:24], "<i8")
        v = np.frombuffer(b[24:], "<f8")
        per = K + K * V + K * C
        eps = []
        for i in range(len(v) // per):
            w = v[i * per:(i + 1) * per]
            eps.append((w[:K], w[K:K + K * V].reshape((K, V), order="F"), w[K + K * V:].reshape((K, C), order="F")))
        return eps, p.stdout


def gen_data(r, maxv=12, maxd=14):
    V, D, C = r.randrange(1, maxv), r.randrange(1, maxd), r.randrange(1, 5)
    X = np.zeros((V, D), "<i4")
    dens = r.choice([0.2, 0.6, 1.0])
    for i in range(D):
        for w in range(V):
            if r.random() < dens:
                X[w, i] = r.randrange(1, r.choice([2, 5, 30]))
        if r.random() < 0.05:
            X[:, i] = 0
    y = np.array([r.randrange(C) for _ in range(D)], "<i4")
    if r.random() < 0.3:
        y[y == r.randrange(C)] = C - 1     # some class without documents
    return X, y


def gen_many(r):
    V, D, C = r.choice([3, 20, 150]), r.choice([99, 100, 101, 200, r.randrange(100, 450)]), r.choice([1, 3, 30, 120])
    X = np.zeros((V, D), "<i4")
    for i in range(D):
        for _ in range(r.randrange(0, 8)):
            X[r.randrange(V), i] += r.randrange(1, 4)
    return X, np.array([r.randrange(C) for _ in range(D)], "<i4")


def gen_crowd(r):
    """tens of thousands of small documents"""
    V, D = r.randrange(2, 5), r.choice([r.randrange(32800, 40000), r.randrange(65600, 72000)])
    rng = np.random.RandomState(r.randrange(1 << 31))
    return rng.randint(0, 4, (V, D)).astype("<i4"), rng.randint(0, r.randrange(1, 4), D).astype("<i4")


def gen_opts(r, app, exact):
    """options given on the command line; the others keep their defaults"""
    o = {}
    full = dict(topics=r.choice([1, 2, 3, 5, 8]), iterations=r.randrange(1, 7), e_it=r.randrange(1, 12), e_tol=r.choice(["0", "1e-2", "0.5", "1e-6", "0.001"]),
                cl=r.choice(["0.0", "1.0", "1", "0.4"]), rs=r.choice([0, 1, 7, 123456]), fp=r.randrange(1, 6), C=r.choice(["0", "0.3", "2", "10"]),
                m_it=r.randrange(0, 12) if r.random() < 0.9 else r.randrange(12, 150), m_tol=r.choice(["-1", "1e-2", "1e-5"]), L=r.choice(["0", "0.01", "0.7"]), mom=r.choice(["0", "0.5", "0.95"]),
                lr=r.choice(["0.001", "0.1"]), bw=r.choice(["0", "0.3", "0.99"]), batch=r.randrange(1, 20))
    if r.random() < 0.35:
        # values from anywhere in their ranges
        full.update(e_tol="%.3g" % 10 ** r.uniform(-9, 1), cl=r.choice(["0", "1", "%.3f" % r.random()]), rs=r.choice([-1, 1, 1]) * r.randrange(1 << 31),
                    C="%.4g" % 10 ** r.uniform(-4, 1.7), m_tol="%.3g" % 10 ** r.uniform(-8, 0), L="%.4g" % 10 ** r.uniform(-6, 1),
                    mom="%.4f" % r.choice([r.random(), r.uniform(0.98, 1)]), lr="%.4g" % 10 ** r.uniform(-6, 0), bw="%.4f" % r.choice([r.random(), r.uniform(0.99, 1)]))
        full[r.choice(["e_it", "fp", "topics", "iterations"])] = r.randrange(12, 60)
    p = r.choice([0.15, 0.6, 0.9])
    for k in DEFAULTS[app]:
        if r.random() < p or (k in ("iterations", "topics") and r.random() < 0.8):
            o[k] = full[k]
    if not exact:
        # nothing that could tip over by rounding
        o["e_tol"] = "0"
        if "m_tol" in DEFAULTS[app]:
            o["m_tol"] = "-1"
            o["m_it"] = r.randrange(0, 6)
    return o


def tame(opts, D):
    """an online learner whose steps diverge has no model worth comparing: keep the class weights well below what overflows"""
    lr, mom, L = (float(opts.get(k, DEFAULTS["online"][k])) for k in ("lr", "mom", "L"))
    its, batch = opts.get("iterations", 20), opts.get("batch", 128)
    steps = its * D // batch + 1
    reach = lr * (D if batch >= D else batch * D) * steps * min(steps, 1 / max(1 - mom, 1e-9))
    small = min(1, 200 / max(reach, 1e-300), 0.3 / max(lr * L, 1e-300))
    if small < 1:
        opts["lr"] = "%.4g" % (lr * small)


def argv_of(r, opts):
    out = []
    short = {"C": "-C", "L": "-L"}
    for k, v in opts.items():
        # options that look negative need the = form
        if k in short and r.random() < 0.3 and not str(v).startswith("-"):
            out += [short[k], str(v)]
        elif r.random() < 0.4 and not str(v).startswith("-"):
            out += [FLAG[k], str(v)]
        else:
            out += ["%s=%s" % (FLAG[k], v)]
    return out


def command(app):
    return [app, "train"] if app != "online" else ["fslda", "online_train"]


def prepare(cli, r, app, X, y):
    data, raw = cli.path("data.npy"), cli.path("data.raw")
    write_data(r, data, X, None if app == "lda" and r.random() < 0.5 else y)
    raw_data(raw, X, y)
    return data, raw


def refs(cli, app, opts, raw, init, **more):
    """the trainings the options may mean: numbers read in double or in single precision"""
    kv = dict(DEFAULTS[app], **opts)
    kv.update(app=app, data=raw, init=init, workers=1, **more)
    for single in ("1", "0"):
        yield cli.reference(single=single, **kv)


def tips_over(cli, run, app, opts, raw, init, upto, tols, **more):
    """whether rounding alone (the order of the documents) changes this training by more than the tolerances"""
    kv = dict(DEFAULTS[app], **opts)
    kv.update(app=app, data=raw, init=init, workers=1, single="0", **more)
    first = None
    for k in range(24):
        eps, _ = cli.reference(jitter=k, **kv)
        eps = eps[:upto + 1]
        if first is None:
            first = eps
        elif max(same_model(a, b, *[t / 30 for t in tols]) for a, b in zip(eps, first)) > 1:
            run.count("trainings that rounding alone changes, not compared")
            return True
    return False


def transformable(app):
    return app if app != "online" else "fslda"


def train(run, r, size="usual"):
    """one training with random options, its snapshots and what it prints"""
    cli = Cli(run)
    app = r.choice(["lda", "slda", "fslda", "online"])
    workers = r.choice([None, 1, 1, 2, 4])
    if size == "usual":
        X, y = gen_data(r)
    elif size == "many":     # documents, classes and words
        X, y = gen_many(r)
    elif size == "crowd":
        app, workers = "lda", r.choice([None, 1])
        X, y = gen_crowd(r)
    else:                    # epochs
        X, y = gen_data(r, 4, 4)
        workers = r.choice([None, 1])
    exact = workers in (None, 1)
    opts = gen_opts(r, app, exact)
    if size == "many":
        opts["topics"], opts["iterations"], opts["e_it"] = r.randrange(1, 5), r.randrange(1, 4), r.randrange(1, 4)
        if "m_it" in DEFAULTS[app]:
            opts["m_it"] = r.randrange(0, 3)
    if size == "long":
        opts["topics"], opts["e_it"] = r.randrange(1, 3), r.randrange(1, 3)
        opts["iterations"] = r.choice([r.randrange(100, 140), r.randrange(100, 140), r.randrange(256, 300), 1001])
        if "m_it" in DEFAULTS[app]:
            opts["m_it"] = r.randrange(0, 2)
    if size == "crowd":
        opts["topics"], opts["iterations"], opts["e_it"] = r.randrange(1, 3), r.randrange(1, 3), r.randrange(1, 3)
    D = X.shape[1]
    if app == "online":
        # updates fall on ends of epochs only, so that they do not race with inference
        its = opts.get("iterations", 20)
        opts["batch"] = r.choice([D, D, D, D * its + 1, D * its + 1000])
        if r.random() < 0.2 and (D * its < 128 or 128 % D == 0):
            opts.pop("batch")
        if not exact:
            opts["e_tol"] = "0"
        tame(opts, D)
    if opts.get("topics", 100) == 100 and r.random() < 0.7:
        opts["topics"] = 4
    init = r.choice(["", "", "seeded", "random"])
    data, raw = prepare(cli, r, app, X, y)
    every = r.choice([None, None, 1, 2, 3, 5, -1, 50])
    if size == "long":
        every = r.choice([25, 20, 50, 100, 101]) if opts["iterations"] < 1000 else r.choice([143, 250, 500])
    quiet = r.random() < (0.5 if size == "usual" else 0.2)
    model = cli.path("model.npy")
    iters = opts.get("iterations", 20)
    argv = argv_of(r, opts)
    if init:
        argv.append("--initialize_" + init)
    if workers:
        argv.append("--workers=%d" % workers)
    if every:
        argv.append("--snapshot_every=%d" % every)
    if quiet:
        argv.append(r.choice(["-q", "--quiet"]))
    r.shuffle(argv) if all(x.startswith("-") and "=" in x for x in argv) else None
    # positional arguments may come first
    args = command(app) + (argv + [data, model] if r.random() < 0.7 else [data, model] + argv)
    what = " ".join(args).replace(cli.dir + "/", "")
    before = open(data, "rb").read()
    rc, out = cli.app(args)
    run.require(rc == 0, "train-fails", "%s on %s: status %s, %s" % (what, X.shape, rc, cli.err[-300:]))
    run.check(open(data, "rb").read() == before, "input-changed", "%s changes its data file" % what)
    try:
        got = read_model(model)
    except Exception as e:
        run.require(False, "model-file", "%s: the model is not complete: %s" % (what, e))
    tols = (1e-10, 1e-9) if exact else (1e-6, 1e-4)
    best, log = None, ""
    for eps, lg in refs(cli, app, opts, raw, init or "seeded"):
        d = same_model(got, eps[-1], *tols)
        if best is None or d < best[0]:
            best = (d, eps, lg)
        if d <= 1:
            break
    d, eps, log = best
    if d > 1 and not exact and tips_over(cli, run, app, opts, raw, init or "seeded", iters, tols):
        raise Skip()
    run.require(d <= 1, "model", "%s on X=%s y=%s: the model written deviates by %.3g tolerances from the library's" % (what, X.tolist() if X.size < 1000 else X.shape, y.tolist() if X.size < 1000 else y.shape, d))
    run.count("models compared")
    run.count("models of " + app)
    if app == "online":
        changed = same_model(eps[0], eps[-1], 1e-12, 1e-12) > 1
        run.count("online models that learned" if changed else "online models without a complete batch")
    if exact:
        run.maximum("deviation in tolerances, one worker", d)
    else:
        run.maximum("deviation in tolerances, several workers", d)
    # snapshots: exactly the multiples
    snaps = {f: cli.path(f) for f in os.listdir(cli.dir) if f.startswith("model.npy_")}
    want = {"model.npy_%03d" % i: i for i in range(1, iters + 1) if every and every > 0 and i % every == 0}
    run.check(set(snaps) == set(want), "snapshots", "%s: snapshots %s instead of %s" % (what, sorted(snaps), sorted(want)))
    for f, i in want.items():
        if f not in snaps:
            continue
        try:
            s = read_model(snaps[f])
        except Exception as e:
            run.fail("snapshot-file", "%s: %s is not complete: %s" % (what, f, e))
            continue
        d = same_model(s, eps[i], *tols)
        if d > 1 and not exact and tips_over(cli, run, app, opts, raw, init or "seeded", i, tols):
            raise Skip()
        run.check(d <= 1, "snapshot", "%s: %s deviates by %.3g tolerances from the model after %d epochs" % (what, f, d, i))
        run.count("snapshots compared")
    # what it prints
    if quiet:
        run.check(out == "", "quiet", "%s prints %r" % (what, out[:200]))
        run.count("quiet commands")
    else:
        its = re.findall(r"^E-M Iteration (\d+)$", out, re.M)
        run.check([int(i) for i in its] == list(range(1, iters + 1)), "printed-epochs", "%s prints epochs %s" % (what, its))
        # every hundredth document of every epoch
        parts = re.split(r"^E-M Iteration \d+$", out, flags=re.M)
        hundreds = [[int(x) for x in re.findall(r"^(\d+)$", t, re.M)] for t in parts]
        run.check(all(h == (list(range(100, D + 1, 100)) if i else []) for i, h in enumerate(hundreds)), "printed-documents",
                  "%s on %d documents prints the document numbers %s" % (what, D, str(hundreds)[:2000]))
        run.count("epochs whose printed document numbers were compared", len(hundreds) - 1)
        cl = float(opts.get("cl", 0))
        lik = re.findall(r"^Per document likelihood: (\S+)$", out, re.M)
        ref_l = [float(t[1:]) for t in log.split()[1:] if t[0] == "E" and t != "E-"]
        if cl in (0, 1) or exact:
            ok = len(lik) == len(ref_l) and all(abs(float(p) - q) <= (1e-5 if exact else 1e-3) * abs(q) for p, q in zip(lik, ref_l))
            run.check(ok, "printed-likelihood", "%s prints likelihoods %s, the documents have %s on average" % (what, lik, ref_l))
            run.count("printed likelihoods compared", len(ref_l))
        if app != "lda" and exact:
            ml = re.findall(r"^log p\(y \| \\bar\{z\}, eta\): (\S+)$", out, re.M)
            ref_m = [float(t[1:]) for t in log.split()[1:] if t[0] == "M"]
            ok = len(ml) == len(ref_m) and all(abs(float(p) - q) <= 2e-5 * max(abs(q), 1e-300) + 1e-12 for p, q in zip(ml, ref_m))
            run.check(ok, "printed-objective", "%s prints %s, the learner reports %s" % (what, ml[:5], ref_m[:5]))
            run.count("printed objectives compared", len(ref_m))
    run.distinct(what + str(X.shape))
    run.sample(what)
    if size != "usual":
        run.count({"many": "trainings with many documents or classes", "long": "trainings with more than a hundred epochs",
                   "crowd": "trainings with tens of thousands of documents"}[size])
    # and transform with it
    transform_with(cli, run, r, app, model, got, exact)


def transform_with(cli, run, r, app, model, m, exact):
    X = np.array([[r.randrange(0, 6) if r.random() < 0.6 else 0 for _ in range(r.randrange(1, 9))]] * 1, "<i4")
    V = m[1].shape[1]
    D = r.randrange(1, 10)
    X = np.array([[r.randrange(0, 6) if r.random() < 0.6 else 0 for _ in range(D)] for _ in range(V)], "<i4").reshape(V, D)
    y = np.zeros(D, "<i4")
    tapp = r.choice([transformable(app), "lda", "slda", "fslda"])
    data, raw, mraw, outp = cli.path("t.npy"), cli.path("t.raw"), cli.path("m.raw"), cli.path("out.npy")
    write_data(r, data, X, None if tapp == "lda" and r.random() < 0.5 else y)
    raw_data(raw, X, y)
    raw_model(mraw, m)
    o = {}
    if r.random() < 0.6:
        o["e_it"] = r.randrange(1, 15)
    if r.random() < 0.6:
        o["e_tol"] = r.choice(["0", "1e-2", "1e-6"])
    argv = argv_of(r, o)
    w = r.choice([None, 1, 3])
    if w:
        argv.append("--workers=%d" % w)
    quiet = r.random() < 0.5
    if quiet:
        argv.append("-q")
    args = [tapp, "transform"] + argv + [model, data, outp]
    what = " ".join(args).replace(cli.dir + "/", "")
    mb = open(model, "rb").read()
    rc, out = cli.app(args)
    run.require(rc == 0, "transform-fails", "%s: status %s, %s" % (what, rc, cli.err[-300:]))
    run.check(open(model, "rb").read() == mb, "input-changed", "%s changes the model" % what)
    run.check(not quiet or out == "", "quiet", "%s prints %r" % (what, out[:200]))
    try:
        (g,) = read_npys(outp, 1)
    except Exception as e:
        run.require(False, "output-file", "%s: the output is not complete: %s" % (what, e))
    K = m[1].shape[0]
    run.require(g.shape == (K, D) and g.dtype == np.float64, "output-shape", "%s writes %s %s for %d topics and %d documents" % (what, g.dtype, g.shape, K, D))
    kv = dict(e_it=DEFAULTS[tapp]["e_it"], e_tol=DEFAULTS[tapp]["e_tol"])
    kv.update(o)
    worst = None
    for single in ("1", "0"):
        ref, _ = cli.reference(app="transform", model=mraw, data=raw, workers=1, single=single, **kv)
        ref = ref.reshape((K, D), order="F")
        e = np.max(np.abs(g - ref) / (1e-3 + np.abs(ref))) if g.size else 0
        worst = e if worst is None else min(worst, e)
        if worst <= 1e-10:
            break
    run.check(worst <= 1e-10, "transform", "%s: the topics written deviate by %.3g from those the model infers" % (what, worst))
    run.count("transformations compared", D)
    run.distinct(what + str(X.shape))


def write_arrays(r, path, arrays):
    with open(path, "wb") as f:
        for a in arrays:
            np.lib.format.write_array(f, np.asfortranarray(a) if r.random() < 0.5 else np.ascontiguousarray(a), version=(1, 0))


def foreign(run, r):
    """a model that numpy wrote: any prior, topics and class weights"""
    cli = Cli(run)
    app = r.choice(["lda", "slda", "fslda"])
    X, y = gen_data(r)
    V, C, K = X.shape[0], int(y.max()) + 1 + r.choice([0, 0, 1, 5]), r.choice([1, 2, 3, 6])
    g = np.random.RandomState(r.randrange(1 << 30))
    alpha = np.round(g.uniform(0.05, 4, K), 3) if r.random() < 0.8 else np.full(K, r.choice([0.1, 1.0, 7.5]))
    beta = g.uniform(0.01, 1, (K, V)) ** r.choice([1, 3])
    if r.random() < 0.3:
        beta[g.uniform(size=beta.shape) < 0.2] = 1e-3
    beta /= beta.sum(1, keepdims=True)
    eta = g.normal(size=(K, C)) * r.choice([0.1, 1])
    model = cli.path("foreign.npy")
    write_arrays(r, model, [alpha if r.random() < 0.5 else alpha.reshape(K, 1), beta, eta])
    m = (alpha, beta, eta)
    transform_with(cli, run, r, app, model, m, True)
    opts = gen_opts(r, app, True)
    opts.pop("topics", None)
    opts["iterations"] = r.randrange(1, 4)
    data, raw = prepare(cli, r, app, X, y)
    raw_model(cli.path("f.raw"), m)
    cfu = app != "lda" and r.random() < 0.4
    more = {"cfu" if cfu else "continue": cli.path("f.raw")}
    out = cli.path("next")
    cmd = command(app) + ["-q", ("--continue_from_unsupervised=" if cfu else "--continue=") + model] + argv_of(r, opts) + [data, out]
    what = " ".join(cmd).replace(cli.dir + "/", "")
    rc, _ = cli.app(cmd)
    run.require(rc == 0, "train-fails", "%s: status %s, %s" % (what, rc, cli.err[-300:]))
    try:
        got = read_model(out)
    except Exception as e:
        run.require(False, "model-file", "%s: the model is not complete: %s" % (what, e))
    d = min(same_model(got, eps[-1], 1e-10, 1e-9) for eps, _ in refs(cli, app, opts, raw, "seeded", **more))
    run.require(d <= 1, "foreign", "%s from alpha=%s beta=%s eta=%s on X=%s y=%s: the model written deviates by %.3g tolerances from the library's"
                % (what, alpha.tolist(), beta.tolist(), eta.tolist(), X.tolist(), y.tolist(), d))
    run.count("trainings from models numpy wrote")
    run.distinct(what + str(X.shape) + str(alpha[0]))


def many(run, r):
    train(run, r, "many")


def crowd(run, r):
    train(run, r, "crowd")


def long_run(run, r):
    train(run, r, "long")


def chain(run, r):
    """n epochs, then m more from the saved model; supervised from unsupervised; snapshots as starting points"""
    cli = Cli(run)
    app = r.choice(["lda", "slda", "fslda"])
    X, y = gen_data(r)
    opts = gen_opts(r, app, False)
    opts["topics"] = r.choice([1, 2, 3, 5])
    total = r.randrange(2, 7)
    init = r.choice(["seeded", "random"])
    data, raw = prepare(cli, r, app, X, y)
    more = {}
    args = []
    if app != "lda" and r.random() < 0.5:
        # an unsupervised model first
        u = cli.path("unsup")
        rc, _ = cli.app(["lda", "train", "-q", "--iterations=2", "--topics=%d" % opts["topics"], "--initialize_" + init, data, u])
        run.require(rc == 0, "train-fails", "lda train: status %s" % rc)
        raw_model(cli.path("u.raw"), read_model(u))
        more["cfu"] = cli.path("u.raw")
        args = ["--continue_from_unsupervised=" + u]
        run.count("trainings from unsupervised models")
    opts["iterations"] = total
    tols = (1e-6, 1e-4)
    # one go
    whole = None
    for eps, _ in refs(cli, app, opts, raw, init, **more):
        whole = eps
        break
    # in pieces
    cuts = sorted(r.sample(range(1, total), min(total - 1, r.choice([1, 1, 2]))))
    done, cur = 0, None
    in_place = r.random() < 0.5
    for c in cuts + [total]:
        o = dict(opts, iterations=c - done)
        if cur is None:
            a = args + ["--initialize_" + init]
        else:
            a = ["--continue=" + cur]
            if r.random() < 0.5:
                o.pop("topics")
        nxt = cur if cur and in_place else cli.path("part%d" % c)
        av = argv_of(r, o)
        if r.random() < 0.5:
            av.append("--workers=%d" % r.randrange(1, 4))
        snap = c - done > 1 and r.random() < 0.3
        if snap:
            av.append("--snapshot_every=1")
        src = open(cur, "rb").read() if cur else None
        cmd = command(app) + ["-q"] + av + a + [data, nxt]
        what = " ".join(cmd).replace(cli.dir + "/", "")
        rc, _ = cli.app(cmd)
        run.require(rc == 0, "train-fails", "%s: status %s, %s" % (what, rc, cli.err[-300:]))
        if cur and nxt != cur:
            run.check(open(cur, "rb").read() == src, "input-changed", "%s changes the model it continues from" % what)
        if snap:   # go on from the last but one snapshot instead
            for k in range(1, c - done):
                d = same_model(read_model("%s_%03d" % (nxt, k)), whole[done + k], *tols)
                if d > 1 and tips_over(cli, run, app, opts, raw, init, done + k, tols, **more):
                    raise Skip()
                run.check(d <= 1, "snapshot", "%s: snapshot %d deviates by %.3g tolerances from the model after %d epochs" % (what, k, d, done + k))
                run.count("snapshots compared")
        done, cur = c, nxt
        try:
            got = read_model(cur)
        except Exception as e:
            run.require(False, "model-file", "%s: the model is not complete: %s" % (what, e))
        d = same_model(got, whole[done], *tols)
        if d > 1 and tips_over(cli, run, app, opts, raw, init, done, tols, **more):
            raise Skip()
        run.maximum("deviation in tolerances, continued", d)
        run.require(d <= 1, "continued", "%s: after %d of %d epochs (in pieces %s) the model deviates by %.3g tolerances from one trained at once" % (what, done, total, cuts, d))
        run.count("continued models compared" if done != cuts[0] else "first parts compared")
    run.distinct(what + str(X.shape) + str(cuts))


def online_any(run, r):
    """any batch size and workers: a valid model, complete files"""
    cli = Cli(run)
    X, y = gen_data(r)
    opts = gen_opts(r, "online", True)
    opts["topics"] = r.choice([1, 3, 6])
    opts["batch"] = r.randrange(1, 20)
    tame(opts, X.shape[1])
    data, raw = prepare(cli, r, "online", X, y)
    m = cli.path("m")
    iters = opts.get("iterations", 20)
    every = r.choice([1, 2, 50])
    cmd = ["fslda", "online_train", "-q", "--workers=%d" % r.randrange(1, 4), "--snapshot_every=%d" % every] + argv_of(r, opts) + [data, m]
    what = " ".join(cmd).replace(cli.dir + "/", "")
    rc, _ = cli.app(cmd)
    run.require(rc == 0, "train-fails", "%s: status %s, %s" % (what, rc, cli.err[-300:]))
    K, V, C = opts["topics"], X.shape[0], int(y.max()) + 1
    names = [m] + ["%s_%03d" % (m, i) for i in range(every, iters + 1, every)]
    models = []
    for f in names:
        try:
            al, be, et = read_model(f)
        except Exception as e:
            run.require(False, "model-file", "%s: %s is not complete: %s" % (what, os.path.basename(f), e))
        ok = al.shape == (K,) and be.shape == (K, V) and et.shape == (K, C) and np.allclose(al, 1.0 / K) and np.isfinite(be).all() and np.isfinite(et).all() and (be >= 0).all()
        run.check(ok and (be.sum(1) < 1 + 1e-9).all(), "model", "%s: %s holds %s %s" % (what, os.path.basename(f), be.tolist(), et.tolist()))
        models.append((al, be, et))
    if iters % every == 0:
        run.check(same_model(models[0], models[-1], 1e-15, 1e-15) <= 1, "snapshot", "%s: the last snapshot is not the final model" % what)
    run.count("online models checked", len(models))
    run.distinct(what + str(X.shape))


def faults(run, r):
    """inputs that cannot be read, outputs that cannot be written"""
    cli = Cli(run)
    app = r.choice(["lda", "slda", "fslda", "online"])
    X, y = gen_data(r)
    data, raw = prepare(cli, r, app, X, y)
    model = cli.path("model")
    base = ["-q", "--topics=%d" % r.randrange(1, 5), "--iterations=%d" % r.randrange(1, 4)]
    rc, _ = cli.app(command(app) + base + [data, model])
    run.require(rc == 0, "train-fails", "%s: status %s, %s" % (app, rc, cli.err[-300:]))
    size = os.path.getsize(model)
    tapp = transformable(app)
    out = cli.path("out")
    rc, _ = cli.app([tapp, "transform", "-q", model, data, out])
    run.require(rc == 0, "transform-fails", "%s: status %s, %s" % (tapp, rc, cli.err[-300:]))
    osize = os.path.getsize(out)

    def must_fail(cmd, why, **kw):
        rc, _ = cli.app(cmd, **kw)
        run.check(rc != 0, "fault-unnoticed", "%s succeeds although %s" % (" ".join(cmd).replace(cli.dir + "/", ""), why))
        run.count("faults noticed")
        run.distinct(" ".join(cmd).replace(cli.dir + "/", "") + why)

    tr, tf = command(app) + base, [tapp, "transform", "-q"]
    m2, o2 = cli.path("model2"), cli.path("out2")
    # unreadable input
    blob = open(data, "rb").read()
    need = len(blob)
    if app == "lda":
        need = 0
        hl = struct.unpack("<H", blob[8:10])[0]
        need = 10 + hl + X.size * 4
    for _ in range(4):
        cut = r.randrange(need)
        bad = cli.path("cut")
        open(bad, "wb").write(blob[:cut])
        must_fail(tr + [bad, m2], "the data are cut to %d of %d bytes" % (cut, need))
        must_fail(tf + [model, bad, o2], "the data are cut to %d of %d bytes" % (cut, need))
    mb = open(model, "rb").read()
    for _ in range(4):
        cut = r.randrange(len(mb))
        bad = cli.path("cutm")
        open(bad, "wb").write(mb[:cut])
        must_fail(tf + [bad, data, o2], "the model is cut to %d of %d bytes" % (cut, len(mb)))
        must_fail(tr + ["--continue=" + bad, data, m2], "the model is cut to %d of %d bytes" % (cut, len(mb)))
        if app != "lda":
            must_fail(tr + ["--continue_from_unsupervised=" + bad, data, m2], "the model is cut to %d of %d bytes" % (cut, len(mb)))
    missing = cli.path("missing")
    must_fail(tr + [missing, m2], "the data are missing")
    must_fail(tf + [missing, data, o2], "the model is missing")
    must_fail(tf + [model, missing, o2], "the data are missing")
    must_fail(tr + ["--continue=" + missing, data, m2], "the model to continue from is missing")
    wrong = cli.path("wrong")
    with open(wrong, "wb") as f:
        for a in (X.astype(r.choice(["<f8", "<i8", "<u4", "<f4"])), y):
            np.lib.format.write_array(f, a, version=(1, 0))
    must_fail(tr + [wrong, m2], "the data have another type")
    for f in (m2, o2):
        run.check(not os.path.exists(f), "output-after-failure", "a failed command leaves %s" % os.path.basename(f))
    # unwritable output
    nodir = cli.path("nodir/x")
    for t in (nodir, "/dev/full", cli.dir):
        must_fail(tr + [data, t], "%s cannot be written" % t.replace(cli.dir, "."))
        must_fail(tf + [model, data, t], "%s cannot be written" % t.replace(cli.dir, "."))
    for _ in range(3):
        lim = r.randrange(size)
        must_fail(tr + [data, m2], "only %d of %d bytes of the model fit" % (lim, size), fsize=lim)
        lim = r.randrange(osize)
        must_fail(tf + [model, data, o2], "only %d of %d bytes of the output fit" % (lim, osize), fsize=lim)
    # a snapshot that cannot be written
    os.makedirs(cli.path("s_001"))
    must_fail(command(app) + ["-q", "--topics=2", "--iterations=2", "--snapshot_every=1", data, cli.path("s")], "a snapshot cannot be written")
    # exactly enough room
    rc, _ = cli.app(tr + [data, m2], fsize=size)
    run.check(rc == 0 and open(m2, "rb").read()[:1] and len(read_npys(m2, 3)) == 3, "train-fails", "%s fails with just enough room" % app)


def usage(run, r):
    cli = Cli(run)
    for app in ("lda", "slda", "fslda"):
        rc, out = cli.app([app, r.choice(["-h", "--help"])])
        run.check(rc == 0 and "Usage" in out, "usage", "%s --help: status %s" % (app, rc))
        X, y = gen_data(r)
        data, _ = prepare(cli, r, "slda", X, y)
        for bad in ([], ["train"], ["train", data], ["transform", data], ["trian", data, "m"], ["train", "--unknown=3", data, "m"],
                    ["train", "--topics=x", data, "m"], ["train", "--e_step_tolerance=abc", data, "m"], ["train", "--initialize_random", "--initialize_seeded", data, "m"]):
            rc, _ = cli.app([app] + bad)
            run.check(rc != 0, "usage", "%s %s succeeds" % (app, bad))
            run.check(not os.path.exists(cli.path("m")), "usage", "%s %s writes a model" % (app, bad))
            run.count("wrong usages")
    run.distinct("usage %d" % run.index)


def main():
    global FLAVOR
    run = Run("C14")
    if "asan" in sys.argv[1:]:
        FLAVOR = "asan"
        run.drive([("cli-train", 64, 4000, train), ("cli-chain", 24, 1200, chain), ("cli-online", 24, 1200, online_any), ("cli-faults", 8, 200, faults)])
    else:
        run.drive([("train", 700, 20000, train), ("chain", 300, 8000, chain), ("online", 150, 3000, online_any), ("faults", 40, 800, faults), ("usage", 2, 4, usage),
                   ("many", 60, 1500, many), ("long", 24, 400, long_run), ("foreign", 120, 3000, foreign),
                   ("crowd", 8, 60, crowd)])


if __name__ == "__main__":
    main()
