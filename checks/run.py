#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> <quick|thorough>

Builds what the property needs from /repo's working tree, runs the monitored
workloads, decides, and writes /verif/evidence/<property>.json.
Exit status: 0 held on everything observed, 1 violation (with a VIOLATION
line), 2 the check itself could not decide (build failure, nothing observed)."""
import array
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B  # noqa: E402
from specs import SPECS, HARNESSES  # noqa: E402

VERIF = B.VERIF
NPROC = max(2, min(8, os.cpu_count() or 2))
SAN = {
    "plain": {},
    "asan": {"ASAN_OPTIONS": "abort_on_error=1:detect_leaks=%d:allocator_may_return_null=1:max_allocation_size_mb=6000:"
                             "detect_stack_use_after_return=0:strict_string_checks=1:check_initialization_order=1",
             "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1:halt_on_error=1",
             "LSAN_OPTIONS": "exitcode=0"},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4"},
    "msan": {"MSAN_OPTIONS": "abort_on_error=1"},
}


def load_known(prop):
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


class Shard:
    """One run of a harness. Once any shard has seen a violation the others get ENOUGH more seconds."""
    ENOUGH = 40
    found = None  # when the first violation was seen

    def __init__(self, spec, cmd, env, work, tag, timeout, violates=None):
        self.spec, self.cmd, self.env, self.work, self.tag = spec, cmd, env, work, tag
        self.timeout, self.violates = timeout, violates
        self.out, self.rc, self.timed_out, self.stopped = "", None, False, False

    def run(self):
        base = os.path.join(self.work, self.tag)
        os.makedirs(base, exist_ok=True)
        self.progress, self.sigs = base + "/progress", base + "/sigs"
        cmd = self.cmd + ["--progress", self.progress, "--sigs", self.sigs, "--scratch", base + "/scratch"]
        os.makedirs(base + "/scratch", exist_ok=True)
        env = dict(os.environ)
        env.update(self.env)
        with open(base + "/log", "wb") as log:
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=base + "/scratch",
                                 start_new_session=True)
            start, looked = time.time(), time.time()
            while True:
                try:
                    self.rc = p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                if self.violates and Shard.found is None and now - looked > 10:
                    with open(base + "/log", errors="replace") as f:
                        if self.violates(f.read(8 << 20)):
                            Shard.found = now
                    looked = time.time()
                self.timed_out = now - start > self.timeout
                self.stopped = bool(self.violates and Shard.found and now - Shard.found > self.ENOUGH)
                if self.timed_out or self.stopped:
                    os.killpg(p.pid, signal.SIGKILL)
                    self.rc = p.wait()
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        with open(base + "/log", errors="replace") as f:
            self.out = f.read(64 << 20)
        shutil.rmtree(base + "/scratch", ignore_errors=True)
        return self

    def records(self):
        for line in self.out.splitlines():
            if line.startswith("@@"):
                try:
                    yield json.loads(line[2:])
                except ValueError:
                    pass

    def where(self):
        try:
            a = open(self.progress).read().split()
            return a[0], int(a[1])
        except Exception:
            return None


def tsan_reports(text):
    """Splits the output in ThreadSanitizer reports: (kind, [stack, ...], text)."""
    res = []
    for m in re.finditer(r"WARNING: ThreadSanitizer: (.*?) \(pid=\d+\)\n(.*?)\n={18}", text, re.S):
        stacks, cur = [], None
        for line in m.group(2).splitlines():
            if re.match(r"\s+#\d+ ", line):
                if cur is None:
                    cur = []
                    stacks.append(cur)
                fn = re.sub(r"^\s+#\d+ ", "", line)
                cur.append(fn)
            else:
                cur = None
        res.append((m.group(1), stacks, m.group(0)))
    return res


def race_key(kind, stacks, text):
    """Identifies a report by what races with what, not by line numbers."""
    base = "tsan:" + kind.split(" (")[0].replace(" ", "-") + ":"
    if kind.startswith("data race"):
        if re.search(r"Location is global '_*signgam'", text):
            # lgamma() of the C library stores a sign in a global of the C library
            if all(st and re.match(r"_*lgamma", st[0]) for st in stacks[:2]):
                return base + "libm-signgam"
        heads = re.findall(r"^\s+(?:Previous )?((?:atomic )?[Ww]rite|(?:atomic )?[Rr]ead|Write|Read) of size", text, re.M)
        if len(stacks) >= 2 and len(heads) >= 2:
            for m, w in ((0, 1), (1, 0)):
                if any("FastOnlineSupervisedMStep<" in f and "m_step(" in f for f in stacks[m]) and \
                        heads[w].lower() == "read" and \
                        any("::doc_e_step(" in f for f in stacks[w]) and \
                        not any("doc_e_step(" in f for f in stacks[m]):
                    return base + "online-m_step-vs-reading-doc_e_step"
    return base + frames_key(stacks)


def frames_key(stacks):
    def clean(fr):
        fr = re.sub(r" (/|<null>).*$", "", fr)
        return fr.split("(")[0].split(" ")[-1][:80]
    ours = []
    for st in stacks[:2]:
        pick = [clean(f) for f in st if "ldaplusplus::" in f.split("(")[0] and "Eigen::" not in f.split("(")[0]]
        ours.append(pick[0] if pick else (clean(st[0]) if st else "?"))
    return "|".join(sorted(ours))


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = SPECS[prop]
    t0 = time.time()
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    B.generate(HARNESSES)
    targets = []
    for r in spec["runs"]:
        if tier == "quick" and r.get("thorough_only"):
            continue
        targets += ["%s/%s/%s" % (B.BUILD, HARNESSES[h][0], h) for h in r.get("targets", [r["exe"]] if "exe" in r else [])]
        targets += r.get("ninja", [])
    targets = sorted(set(targets))
    if targets and not B.build(targets):
        print("ERROR: could not build %s" % " ".join(targets))
        return 2
    t_build = time.time() - t0
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    known = load_known(prop)
    violations, known_seen, notes = [], {}, []
    cov = dict(evaluations=0, skipped=0, counts={}, maxima={}, samples=[])
    sigs = set()
    inconclusive = []

    def replay_cmd(run, rec):
        base = run["base"]
        return "%s --seed %d --tier %s --scenario %s --case %s" % (" ".join(base), seed, tier, rec[0], rec[1])

    def add(key, msg, run, where, detail=""):
        for k, desc in known:
            if re.fullmatch(k, key):
                known_seen[k] = known_seen.get(k, 0) + 1
                return
        violations.append((key, msg, replay_cmd(run, where) if where else " ".join(run["base"]), detail))

    def violates(r, out):
        """Whether the output of a running shard already shows a violation that is not a known finding."""
        keys = []
        for line in out.splitlines():
            if line.startswith("@@") and '"fail"' in line[:30]:
                try:
                    keys.append(json.loads(line[2:])["key"])
                except ValueError:
                    pass  # still being written
        if "only" in r:
            keys = [k for k in keys if k in r["only"]]
        if r["flavor"] == "tsan":
            keys += [race_key(*rep) for rep in tsan_reports(out)]
        return any(not any(re.fullmatch(k, key) for k, _ in known) for key in keys)

    try:
        jobs = []
        for ri, r in enumerate(spec["runs"]):
            if tier == "quick" and r.get("thorough_only"):
                continue
            if "exe" in r:
                flavor = HARNESSES[r["exe"]][0]
                base = ["%s/%s/%s" % (B.BUILD, flavor, r["exe"])]
            else:
                flavor = r.get("flavor", "plain")
                base = [a.replace("{checks}", HERE).replace("{build}", B.BUILD) for a in r["cmd"]]
            base += r.get("args", [])
            r = dict(r, base=base, flavor=flavor)
            shards = r.get("shards", NPROC)
            env = {k: v % r.get("leaks", 0) if "%d" in v else v for k, v in SAN[flavor].items()}
            env.update(r.get("env", {}))
            env["VERIF_BUILD"] = B.BUILD
            for s in range(shards):
                cmd = base + ["--seed", str(seed), "--tier", tier, "--shard", str(s), "--shards", str(shards),
                              "--scale", str(scale * r.get("scale", 1))]
                jobs.append((r, Shard(r, cmd, env, work, "r%d_s%d" % (ri, s), r.get("timeout", 500 if tier == "quick" else 7200),
                                      lambda out, r=r: violates(r, out)), env))
        par = spec.get("parallel", NPROC)
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(lambda j: j[1].run(), jobs))

        for r, sh, env in jobs:
            finished = False
            hang = None
            for rec in sh.records():
                if rec["t"] == "fail":
                    # workloads of other monitors: their verdicts belong to other properties
                    if "only" in r and rec["key"] not in r["only"]:
                        continue
                    add(rec["key"], rec["msg"], r, (rec["scenario"], rec["case"]))
                elif rec["t"] == "cov":
                    finished = True
                    cov["evaluations"] += rec["evaluations"]
                    cov["skipped"] += rec["skipped"]
                    for k, v in rec["counts"].items():
                        cov["counts"][k] = cov["counts"].get(k, 0) + v
                    for k, v in rec["maxima"].items():
                        cov["maxima"][k] = max(cov["maxima"].get(k, v), v)
                    if len(cov["samples"]) < 12:
                        cov["samples"] += rec["samples"][:2]
                elif rec["t"] in ("deadlock", "timeout"):
                    hang = rec
                elif rec["t"] == "inconclusive":
                    inconclusive.append(rec.get("msg", ""))
            if os.path.exists(sh.sigs):
                a = array.array("Q")
                with open(sh.sigs, "rb") as f:
                    a.frombytes(f.read())
                sigs.update(a)
            if r.get("valgrind"):
                seen = set()
                for text in re.findall(r"VGBEGIN\n(.*?)VGEND", sh.out, re.S):
                    text = re.sub(r"(?m)^==\d+== ?", "", text)
                    cov["counts"]["sanitizer reports"] = cov["counts"].get("sanitizer reports", 0) + 1
                    key = "valgrind:" + re.sub(r"[\d,]+", "N", text.strip().splitlines()[0])[:80]
                    if key not in seen:
                        seen.add(key)
                        add(key, "valgrind: " + text.strip().splitlines()[0], r, sh.where(), text)
            m = re.search(r"ERROR: LeakSanitizer: .*", sh.out)
            if m and "only" not in r:
                add("leak", m.group(0), r, None, sh.out[m.start():][:6000])
            if "LeakSanitizer has encountered a fatal error" in sh.out:
                inconclusive.append("leaks could not be looked for")
            if r["flavor"] == "tsan":
                reps = tsan_reports(sh.out)
                cov["counts"]["sanitizer reports"] = cov["counts"].get("sanitizer reports", 0) + len(reps)
                seen = set()
                for kind, stacks, text in reps:
                    key = race_key(kind, stacks, text)
                    if key in seen:
                        for k, _ in known:
                            if re.fullmatch(k, key):
                                known_seen[k] = known_seen.get(k, 0) + 1
                        continue
                    seen.add(key)
                    add(key, "ThreadSanitizer: " + kind, r, sh.where(), text)
            if hang:
                where = (hang["scenario"], hang["case"])
                if hang["t"] == "deadlock":
                    add("deadlock", "every thread sleeps and none is ever woken up", r, where)
                elif any(v[0] in ("hang", "deadlock") for v in violations):
                    pass  # one confirmed hang is enough, each takes minutes
                else:
                    again = Shard(r, r["base"] + ["--seed", str(seed), "--tier", tier, "--scenario", where[0], "--case",
                                                  str(where[1]), "--limit", "150"], env, work, sh.tag + "_again", 200).run()
                    if again.timed_out or any(x["t"] in ("deadlock", "timeout") for x in again.records()):
                        add("hang", "the case does not finish (60 s, and 150 s when run again)", r, where)
                    else:
                        inconclusive.append("%s %s timed out once and finished when run again" % where)
            elif not finished:
                where = sh.where()
                if sh.stopped:
                    inconclusive.append("a shard was stopped because another one had seen a violation")
                elif sh.timed_out:
                    again = None
                    if where and not violations:
                        again = Shard(r, r["base"] + ["--seed", str(seed), "--tier", tier, "--scenario", where[0], "--case",
                                                      str(where[1])], env, work, sh.tag + "_again", 200).run()
                    if again and again.timed_out:
                        add("hang", "the case does not finish", r, where)
                    else:
                        inconclusive.append("a shard ran out of time in %s" % (where,))
                elif sh.rc is not None and sh.rc != 0:
                    if "only" in r and "crash" not in r["only"] and r["flavor"] == "plain":
                        continue
                    tail = sh.out[-6000:]
                    m = re.search(r"(ERROR: AddressSanitizer: \S+|runtime error: .*|ERROR: LeakSanitizer.*|"
                                  r"MemorySanitizer: \S+|Assertion `.*' failed|terminate called.*)", sh.out)
                    what = m.group(1) if m else "exit status %d" % sh.rc
                    add("crash", "%s in %s" % (what, where), r, where, tail)
                else:
                    inconclusive.append("a shard ended without a report")

        need = spec.get("min_evaluations", 1)
        if not violations and (cov["evaluations"] < need or len(sigs) < 1):
            inconclusive.append("only %d cases and %d distinct ones were observed" % (cov["evaluations"], len(sigs)))
        for c in spec.get("required", []):
            if not violations and not cov["counts"].get(c):
                inconclusive.append("the workload never produced '%s'" % c)

        vio_lines = []
        for n, (key, msg, cmd, detail) in enumerate(violations[:20]):
            path = os.path.join(replay_dir, "%s-%d.txt" % (prop, n))
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\n%s\nreplay (after running the check once, which builds it): %s\n\n%s\n"
                        % (prop, key, msg, cmd, detail))
            vio_lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (key, msg[:600]))
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": cov["evaluations"],
                "distinct_nontrivial": len(sigs),
                "rule": spec["rule"],
                "samples": cov["samples"] or ["(none)"],
                "skipped_cases": cov["skipped"],
                "observed": dict(sorted(cov["counts"].items())),
                "largest_observed": dict(sorted(cov["maxima"].items())),
                "inconclusive": inconclusive,
                "known_findings_seen": known_seen,
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
            json.dump(ev, f, indent=1)
        for k, desc in known:
            print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop, desc, known_seen.get(k, 0)))
        print("%s %s seed=%d: %d cases, %d distinct, %d violations, build %.0f s, total %.0f s" % (
            prop, tier, seed, cov["evaluations"], len(sigs), len(violations), t_build, time.time() - t0))
        for i in inconclusive:
            print("  inconclusive: %s" % i)
        if violations:
            for v in vio_lines:
                print(v)
            return 1
        if cov["evaluations"] < need or any("never produced" in i or "without a report" in i or "ran out" in i for i in inconclusive):
            return 2
        return 0
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
