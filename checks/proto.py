"""The runner protocol of harness/common.hpp for workloads driven from Python."""
import argparse
import hashlib
import json
import math
import os
import random
import struct


class Abort(Exception):
    """the case already failed"""


class Skip(Exception):
    """the case turned out not to be applicable"""


def h64(s):
    return struct.unpack("<Q", hashlib.blake2b(s.encode() if isinstance(s, str) else s, digest_size=8).digest())[0]


class Run:
    def __init__(self, prop, extra=None):
        ap = argparse.ArgumentParser()
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--shard", type=int, default=0)
        ap.add_argument("--shards", type=int, default=1)
        ap.add_argument("--scale", type=float, default=1)
        ap.add_argument("--scenario")
        ap.add_argument("--case", type=int, default=-1)
        ap.add_argument("--progress")
        ap.add_argument("--sigs")
        ap.add_argument("--scratch", default=".")
        ap.add_argument("--limit", type=float, default=60)
        ap.add_argument("mode", nargs="?", default="")
        self.a = ap.parse_args()
        self.prop, self.tier = prop, self.a.tier
        self.build = os.environ["VERIF_BUILD"]
        self.counts, self.maxima, self.samples, self.sigs = {}, {}, [], set()
        self.evaluations = self.skipped = self.fails = 0
        self.scenario, self.index = "", 0

    def fail(self, key, msg):
        self.fails += 1
        self.case_fails += 1
        if self.fails <= 200:
            print("@@" + json.dumps(dict(t="fail", scenario=self.scenario, case=self.index, key=key, msg=str(msg)[:1500])), flush=True)

    def check(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def require(self, cond, key, msg):
        if not self.check(cond, key, msg):
            raise Abort()

    def count(self, name, n=1):
        if n:
            self.counts[name] = self.counts.get(name, 0) + n

    def maximum(self, name, v):
        self.maxima[name] = max(self.maxima.get(name, v), v)

    def distinct(self, s):
        self.sigs.add(s if isinstance(s, int) else h64(s))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(self.scenario + ": " + s)

    def drive(self, scenarios):
        """scenarios: [(name, quick cases, thorough cases, fn(run, rng))]"""
        g = 0
        for name, quick, thorough, fn in scenarios:
            if self.a.scenario and self.a.scenario != name:
                continue
            n = math.ceil((thorough if self.tier == "thorough" else quick) * self.a.scale)
            for i in range(n):
                g += 1
                if self.a.case >= 0:
                    if i != self.a.case:
                        continue
                elif (g - 1) % self.a.shards != self.a.shard:
                    continue
                self.scenario, self.index, self.case_fails = name, i, 0
                if self.a.progress:
                    with open(self.a.progress, "w") as f:
                        f.write("%s %d\n" % (name, i))
                rng = random.Random("%s/%s/%d/%d" % (self.prop, name, self.a.seed, i))
                try:
                    fn(self, rng)
                    self.evaluations += 1
                    self.count("cases:" + name)
                except Skip:
                    self.skipped += 1
                except Abort:
                    self.evaluations += 1
                if self.case_fails:
                    self.count("failing-cases")
        print("@@" + json.dumps(dict(t="cov", evaluations=self.evaluations, skipped=self.skipped, fails=self.fails, counts=self.counts,
                                     maxima=self.maxima, samples=self.samples, distinct=len(self.sigs))), flush=True)
        if self.a.sigs:
            with open(self.a.sigs, "wb") as f:
                for s in self.sigs:
                    f.write(struct.pack("<Q", s & (2 ** 64 - 1)))
