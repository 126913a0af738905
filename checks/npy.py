#!/usr/bin/env python3-vt
"""Workloads and oracles of C12 (round trips with numpy) and C13 (damaged files)."""
import ast
import io
import os
import re
import subprocess
import sys

import numpy as np

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from proto import Run, Abort  # noqa: E402

TYPES = ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f4", "f8"]


def hexs(b):
    return b.hex() or "-"


class Tool:
    """Runs plans; survives a crash or a hang of the code under test and says where it was."""

    def __init__(self, run, exe):
        self.run, self.exe = run, exe

    def once(self, plan, timeout):
        path = os.path.join(self.run.a.scratch, "plan")
        with open(path, "w") as f:
            f.write("".join(p + "\n" for p in plan))
        with open(os.path.join(self.run.a.scratch, "out"), "w+b") as out:
            try:
                rc = subprocess.run([self.exe, path], stdout=out, stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                rc = None
            out.seek(0)
            text = out.read().decode(errors="replace")
        res, cur = {}, None
        for line in text.split("\n"):
            if line.startswith("> "):
                cur = line[2:]
            elif line.startswith("< "):
                p = line.split(" ", 4)
                cur = None
                res[p[1]] = (p[3], int(p[2]), p[4] if len(p) > 4 else "")
        return rc, res, cur, text

    def __call__(self, items):
        """items: [(id, plan lines)] -> {id: (verdict, peak bytes, rest)} with verdicts ok, error, crash, hang"""
        todo, res = list(items), {}
        bad = 0
        while todo:
            rc, got, cur, text = self.once([ln for _, lines in todo for ln in lines], 90)
            res.update(got)
            if rc == 0:
                break
            if cur is None or bad >= 4:
                raise RuntimeError("the tool ended with %s outside a command: %s" % (rc, text[-500:]))
            bad += 1
            if rc is None:
                one = [it for it in todo if it[0] == cur]
                rc2, got2, _, _ = self.once(one[0][1], 180)
                if rc2 is None:
                    res[cur] = ("hang", 0, "does not end within 180 s")
                else:
                    res.update(got2)
            else:
                m = re.search(r"(ERROR: AddressSanitizer.*|runtime error: .*|.*Assertion `.*|terminate called.*)", text)
                res[cur] = ("crash", 0, "status %s: %s" % (rc, m.group(1)[:300] if m else text[-300:]))
            k = [i for i, it in enumerate(todo) if it[0] == cur][0]
            todo = todo[k + 1:]
        return res


def gen_values(r, t, n):
    dt = np.dtype("<" + t)
    style = r.randrange(3)
    raw = bytes(r.getrandbits(8) for _ in range(n * dt.itemsize))
    a = np.frombuffer(raw, dt).copy()
    if style == 0 and n:
        if dt.kind == "f":
            sp = [0.0, -0.0, np.inf, -np.inf, np.nan, np.finfo(dt).tiny, np.finfo(dt).smallest_subnormal, np.finfo(dt).max, 1.0, -1.5]
            a = np.array([r.choice(sp) for _ in range(n)], dt)
        else:
            ii = np.iinfo(dt)
            a = np.array([r.choice([0, 1, ii.max, ii.min, ii.max // 2]) for _ in range(n)], dt)
    elif style == 1:
        a = np.arange(n).astype(dt)
    return a


def gen_shape(r, dims=None):
    d = r.randrange(4) if dims is None else dims
    if d > 1 and r.random() < 0.05:
        # nothing, and a lot of it
        s = [r.choice([1, 70000, 1 << 16, 1 << 31, (1 << 31) - 1, 1 << 32, 5000000000])] + [0] + [r.choice([1, 3, 40000])] * (d - 2)
        r.shuffle(s)
        return tuple(s)
    return tuple(r.choice([0, 1, 1, 2, 3, 5, 8, 17]) if r.random() < 0.9 else r.randrange(1, 120) for _ in range(d))


def as_matrix(a, fortran):
    if a.ndim == 0:
        return a.reshape(1, 1)
    if a.ndim == 1:
        return a.reshape(-1, 1)
    if a.ndim == 2:
        return a
    return a.reshape(a.shape[0], int(np.prod(a.shape[1:])), order="F" if fortran else "C")


def shown(m):
    """what the tool prints for a matrix"""
    b = np.ascontiguousarray(m).astype(m.dtype.newbyteorder("<"), copy=False)
    return "%dx%d=%s" % (m.shape[0], m.shape[1], hexs(b.tobytes()) if m.size else "-")


def numpy_array(r, t, shape=None):
    """an array as numpy programs have them: any order, byte order, views"""
    shape = gen_shape(r) if shape is None else shape
    n = int(np.prod(shape)) if shape else 1
    a = gen_values(r, t, n).reshape(shape)
    if r.random() < 0.4:
        b = a.astype(a.dtype.newbyteorder(">"))
        # astype may quieten NaNs: swap the bytes instead
        b = np.frombuffer(a.byteswap().tobytes(), a.dtype.newbyteorder(">")).reshape(shape)
        a = b
    how = r.randrange(4)
    if how == 1:
        a = np.asfortranarray(a)
    elif how == 2 and a.ndim and a.shape[0] < 1000:
        a = np.repeat(a, 2, axis=0)[::2]
    elif how == 3 and a.ndim >= 2:
        a = np.ascontiguousarray(a.T).T
    return a


def header_is_fortran(a):
    return bool(np.lib.format.header_data_from_array_1_0(a)["fortran_order"])


def native(a):
    """same bits, little endian"""
    if a.dtype.byteorder == ">" or (a.dtype.byteorder == "=" and sys.byteorder == "big"):
        return np.frombuffer(a.byteswap().tobytes(), a.dtype.newbyteorder("<")).reshape(a.shape)
    return a


# ------------------------------------------------------------------ C12

def some_locale(run, r):
    """programs set locales of their own: what is in the file is not to depend on them"""
    if r.random() < 0.75:
        return []
    run.count("batches under locales that group digits")
    groups = r.choice(["3", "3", "3 2", "1", "2", "1 2"])
    return [("loc", ["locale loc %s %s" % (r.choice([",", ",", ".", "'", "_"]), groups)])]


def c12_read(run, r):
    tool = Tool(run, run.build + "/plain/npytool")
    items, want = [], {}
    for i in range(40):
        arrs = [numpy_array(r, r.choice(TYPES)) for _ in range(r.choice([1, 1, 2, 3, 5]))]
        path = os.path.join(run.a.scratch, "f%d.npy" % i)
        with open(path, "wb") as f:
            for a in arrs:
                np.lib.format.write_array(f, a, version=(1, 0))
        what = r.choice("mmrwt")
        if what == "v" or (all(a.ndim <= 1 for a in arrs) and r.random() < 0.5):
            what = "v"
        fixed = {"p": lambda s: s[:1] == (1,) and len(s) > 1, "q": lambda s: s[:1] == (3,), "x": lambda s: s in ((2, 3), (2, 3, 1), (2, 1, 3))}
        fits = [w for w in sorted(fixed) if all(fixed[w](a.shape) for a in arrs)]
        if fits and r.random() < 0.7:
            what = r.choice(fits)
            run.count("arrays read into matrices of fixed size", len(arrs))
        elif len(arrs) == 1 and r.random() < 0.2:
            what = "g" if arrs[0].ndim <= 1 and r.random() < 0.5 else "f"
        items.append((str(i), ["read %d %s %s %s" % (i, path, what, " ".join(a.dtype.str[1:] for a in arrs))]))
        exp = []
        for a in arrs:
            f, b = header_is_fortran(a), native(a)
            if what == "w":
                exp.append("%s%s=%s" % ("F" if f else "C", "".join(",%d" % d for d in a.shape), hexs(b.tobytes("F" if f else "C"))))
            else:
                exp.append(shown(as_matrix(b, f)))
        want[str(i)] = (exp, arrs)
    res = tool(some_locale(run, r) + items)
    for k, (exp, arrs) in want.items():
        desc = "; ".join("%s %s %s" % (a.dtype.str, a.shape, "F" if header_is_fortran(a) else "C") for a in arrs)
        v, _, rest = res.get(k, ("nothing", 0, ""))
        run.check(v == "ok" and rest.split() == exp, "numpy-to-library",
                  lambda: "arrays %s written by numpy: %s %s, expected %s" % (desc, v, rest[:200], " ".join(exp)[:200]))
        run.count("arrays written by numpy", len(arrs))
        run.count("big endian arrays", sum(a.dtype.str[0] == ">" for a in arrs))
        run.count("Fortran order arrays", sum(header_is_fortran(a) for a in arrs))
        run.count("empty arrays", sum(a.size == 0 for a in arrs))
        run.count("three dimensional arrays", sum(a.ndim == 3 for a in arrs))
        run.distinct(desc)
    run.sample(desc)


def c12_write(run, r):
    tool = Tool(run, run.build + "/plain/npytool")
    items, want = [], {}
    for i in range(40):
        path = os.path.join(run.a.scratch, "g%d.npy" % i)
        arrs, lines, back = [], [], []
        m = r.choice([1, 1, 2, 3, 5])
        for _ in range(m):
            t = r.choice(TYPES)
            kind = r.choice(["rawC", "rawF", "mat", "save", "rmat", "vec", "rvec", "fix", "rfix"] + (["file"] if m == 1 else []))
            shape = gen_shape(r) if kind.startswith("raw") else gen_shape(r, 1 if kind == "vec" else 2)
            if kind == "rvec":
                shape = (1, shape[1] if shape[1] < 1000 else 0)
            elif kind in ("fix", "rfix"):
                shape = (2, 3)
            n = int(np.prod(shape)) if shape else 1
            a = gen_values(r, t, n)
            order = "F" if kind in ("rawF", "mat", "save", "file", "fix") else "C"
            lines.append("%s %s %s : %s" % (t, kind, " ".join(map(str, shape)), hexs(a.tobytes())))
            a = a.reshape(shape, order=order)
            if kind == "vec":
                a = a.reshape(-1, 1)
            arrs.append(a)
            back.append(shown(as_matrix(a, order == "F")))
        items.append(("w%d" % i, ["write w%d %s %d" % (i, path, m)] + lines))
        items.append(("r%d" % i, ["read r%d %s m %s" % (i, path, " ".join(a.dtype.str[1:] for a in arrs))]))
        want[str(i)] = (path, arrs, back, [ln.split(":")[0] for ln in lines])
    res = tool(some_locale(run, r) + items)
    for k, (path, arrs, back, desc) in want.items():
        v, _, rest = res.get("w" + k, ("nothing", 0, ""))
        if not run.check(v == "ok", "write", "writing %s: %s %s" % (desc, v, rest)):
            continue
        with open(path, "rb") as f:
            for n, a in enumerate(arrs):
                at = f.tell()
                try:
                    # the v1 specification, and numpy as the judge of it
                    b = np.lib.format.read_array(f)
                except Exception as e:
                    run.fail("library-to-numpy", "numpy cannot read array %d of %s: %s" % (n, desc, e))
                    break
                # vectors may come back as one column
                ok = b.dtype == a.dtype and b.dtype.str[0] != ">" and b.shape == a.shape and b.tobytes() == a.tobytes()
                run.check(ok, "library-to-numpy", lambda: "numpy reads array %d of %s as %s %s, expected %s %s" % (n, desc, b.dtype.str, b.shape, a.dtype.str, a.shape))
                # the data are aligned, as the specification demands
                run.check((f.tell() - at - b.nbytes) % 16 == 0, "alignment", lambda: "the data of array %d of %s start after %d bytes" % (n, desc, f.tell() - at - b.nbytes))
                run.count("arrays read by numpy")
            else:
                run.check(f.read(1) == b"", "library-to-numpy", "bytes left over after %s" % desc)
        v, _, rest = res.get("r" + k, ("nothing", 0, ""))
        run.check(v == "ok" and rest.split() == back, "round-trip", lambda: "the library reads %s back as %s %s, expected %s" % (desc, v, rest[:200], " ".join(back)[:200]))
        run.count("arrays read back")
        run.distinct(repr(desc))
    run.sample(repr(desc))


def c12_large(run, r):
    """arrays that do not fit into one buffer of any usual size, there and back"""
    t = r.choice(TYPES)
    edge = r.choice([1 << 16, 1 << 17, 1 << 18, 1 << 20, 1 << 21])
    if r.random() < 0.5:
        n, m = edge + r.choice([-1, 0, 1, 0]), 1
    else:
        n = r.choice([1, 2, 3, 1024, 1000, 4096, 257])
        m = max(1, edge // n + r.choice([-1, 0, 1]))
    n, m = (n, m) if r.random() < 0.5 else (m, n)
    rng = np.random.default_rng(r.randrange(1 << 30))
    a = rng.integers(0, 256, n * m * np.dtype(t).itemsize, dtype=np.uint8).view("<" + t).reshape(n, m)
    if r.random() < 0.3:
        a = np.frombuffer(a.byteswap().tobytes(), ">" + t).reshape(n, m)
    if r.random() < 0.5:
        a = np.asfortranarray(a)
    src, dst = os.path.join(run.a.scratch, "large"), os.path.join(run.a.scratch, "copied")
    np.save(src + ".npy", a)
    v, _, rest = Tool(run, run.build + "/plain/npytool")([("c", ["copy c %s.npy %s %s" % (src, dst, t)])])["c"]
    what = "%s %dx%d %s" % (a.dtype.str, n, m, "F" if np.isfortran(a) else "C")
    if run.check(v == "ok" and rest == "%dx%d" % (n, m), "large", "copying %s: %s %s" % (what, v, rest[:200])):
        try:
            b = np.load(dst)
        except Exception as e:
            run.fail("large", "numpy cannot read the copy of %s: %s" % (what, e))
            return
        run.check(b.dtype.str[1:] == t and b.shape == a.shape and np.ascontiguousarray(b).tobytes() == np.ascontiguousarray(native(a)).tobytes(), "large", "the copy of %s differs" % what)
    run.count("large arrays")
    run.distinct("large " + what)
    for p in (src + ".npy", dst):
        if os.path.exists(p):
            os.remove(p)


def c12_model(run, r):
    """models and data files"""
    tool = Tool(run, run.build + "/plain/npytool")
    items, want = [], {}
    for i in range(15):
        K, V, C = r.choice([0, 1, 2, 7]), r.choice([1, 3, 40]), r.choice([0, 1, 4])
        ps = [gen_values(r, "f8", K).reshape(K, 1), gen_values(r, "f8", K * V).reshape((K, V), order="F"), gen_values(r, "f8", K * C).reshape((K, C), order="F")]
        path = os.path.join(run.a.scratch, "m%d" % i)
        items.append(("s%d" % i, ["savelda s%d %s 3" % (i, path)] + ["%d %d %s" % (p.shape[0], p.shape[1], hexs(p.tobytes("F"))) for p in ps]))
        items.append(("l%d" % i, ["loadlda l%d %s" % (i, path)]))
        X, y = gen_values(r, "i4", V * K).reshape(V, K), gen_values(r, "i4", K)
        dpath = path + ".data"
        with open(dpath, "wb") as f:
            for a in (X, y):
                np.lib.format.write_array(f, np.asfortranarray(a) if r.random() < 0.5 else a, version=(1, 0))
        items.append(("p%d" % i, ["parse2 p%d %s" % (i, dpath)]))
        items.append(("q%d" % i, ["parse1 q%d %s" % (i, dpath)]))
        want[i] = (path, ps, X, y)
    res = tool(some_locale(run, r) + items)
    for i, (path, ps, X, y) in want.items():
        desc = "model %s, data %s" % ([p.shape for p in ps], X.shape)
        for tag, exp in (("l%d" % i, [shown(p) for p in ps]), ("p%d" % i, [shown(X), shown(y.reshape(-1, 1))]), ("q%d" % i, [shown(X)])):
            v, _, rest = res.get(tag, ("nothing", 0, ""))
            run.check(v == "ok" and rest.split() == exp, "model-file", lambda: "%s %s: %s %s" % (tag[0], desc, v, rest[:200]))
        with open(path, "rb") as f:
            for p in ps:
                b = np.lib.format.read_array(f)
                run.check(b.shape == p.shape and b.tobytes() == p.tobytes() and b.dtype == p.dtype, "model-file", "numpy reads %s as %s %s" % (desc, b.dtype, b.shape))
        run.count("models and data files")
        run.distinct(desc)


# ------------------------------------------------------------------ C13

def npy_bytes(a):
    f = io.BytesIO()
    np.lib.format.write_array(f, a, version=(1, 0))
    return f.getvalue()


def raw_npy(header, data, version=b"\x01\x00", pad=True):
    h = header.encode("latin1") if isinstance(header, str) else header
    if pad:
        h += b" " * (-(len(h) + 11) % 16) + b"\n"
    return b"\x93NUMPY" + version + len(h).to_bytes(2, "little") + h + data


def lenient(header):
    """(dtype, fortran, shape) if anything that knows Python could make sense of the header, else None"""
    try:
        text = header.decode("latin1")
        text = re.sub(r"[\t\n\r\x0b\x0c]", " ", text)    # any white space will do
        text = re.sub(r"(?<![\w.'])0+(?=\d)", "", text)
        d = ast.literal_eval(text.strip())
        if not isinstance(d, dict) or set(d) != {"descr", "fortran_order", "shape"}:
            return None
        s = d["shape"]
        if isinstance(s, int) and not isinstance(s, bool):
            s = (s,)
        if not isinstance(s, tuple) or not all(isinstance(x, int) and not isinstance(x, bool) and x >= 0 for x in s):
            return None
        if not isinstance(d["descr"], str) or d["fortran_order"] not in (True, False):
            return None
        return np.dtype(d["descr"]), bool(d["fortran_order"]), s
    except Exception:
        return None


def judge(blob, types):
    """What may be read: None if every reader has to refuse the file, else the expected raw values."""
    pos, out = 0, []
    for t in types:
        if blob[pos:pos + 6] != b"\x93NUMPY" or blob[pos + 6:pos + 8] != b"\x01\x00" or len(blob) < pos + 10:
            return None
        n = int.from_bytes(blob[pos + 8:pos + 10], "little")
        h = blob[pos + 10:pos + 10 + n]
        if len(h) != n:
            return None
        p = lenient(h)
        if p is None or p[0].str[1:] != t:
            return None
        dt, f, s = p
        count = 1
        for x in s:
            count *= x
        pos += 10 + n
        size = count * dt.itemsize
        if len(blob) - pos < size:
            return None
        a = np.frombuffer(blob[pos:pos + size], dt)
        b = native(a)
        out.append("%s%s=%s" % ("F" if f else "C", "".join(",%d" % x for x in s), hexs(b.tobytes())))
        pos += size
    return out


class Batch:
    def __init__(self, run):
        self.run, self.items, self.meta = run, [], {}
        self.tool = Tool(run, run.build + "/asan/npytool_asan")

    def add(self, blob, types, desc, what="w", must=None, path=None):
        """must: True = has to be refused whatever judge() says"""
        k = str(len(self.items))
        if path is None:
            path = os.path.join(self.run.a.scratch, "d%s" % k)
            with open(path, "wb") as f:
                f.write(blob)
        cmd = {"loadlda": "loadlda %s %s", "parse1": "parse1 %s %s", "parse2": "parse2 %s %s"}.get(what)
        line = cmd % (k, path) if cmd else "read %s %s %s %s" % (k, path, what, " ".join(types))
        exp = None if must else judge(blob, types)
        self.items.append((k, [line]))
        self.meta[k] = (exp, desc, what, len(blob))

    def run_all(self):
        res = self.tool(self.items)
        run = self.run
        for k, (exp, desc, what, size) in self.meta.items():
            v, peak, rest = res.get(k, ("nothing", 0, ""))
            if not run.check(v in ("ok", "error"), v, lambda: "%s (%s): %s" % (desc, what, rest)):
                continue
            if exp is None:
                run.check(v == "error", "accepted", lambda: "%s (%s) is accepted: %s" % (desc, what, rest[:200]))
                run.count("files refused")
            elif v == "ok" and what == "w":
                run.check(rest.split() == exp, "misread", lambda: "%s is read as %s, not as %s" % (desc, rest[:200], " ".join(exp)[:200]))
                run.count("unusual but readable files")
            run.maximum("bytes allocated beyond 8 times the file", max(0, peak - 8 * size))
            run.check(peak <= (256 << 20) + 8 * size, "allocation", lambda: "%s (%s): %d bytes allocated for a file of %d bytes" % (desc, what, peak, size))
            run.distinct("%s %s" % (desc, v))
            run.count("files")
        self.run.sample(desc)


def valid_file(r, n=None):
    arrs = [numpy_array(r, r.choice(TYPES)) for _ in range(n or r.choice([1, 1, 2, 3]))]
    if r.random() < 0.3:
        arrs = [a for a in arrs]
    return b"".join(npy_bytes(a) for a in arrs), [a.dtype.str[1:] for a in arrs], arrs


def c13_truncate(run, r):
    """every prefix of a file"""
    b = Batch(run)
    kind = r.choice(["arrays", "arrays", "model", "data", "data1"])
    if kind == "arrays":
        blob, types, _ = valid_file(r)
        while len(blob) > 900:
            blob, types, _ = valid_file(r)
        what = r.choice("wm")
    else:
        K, V, C = r.choice([1, 2, 4]), r.choice([1, 2, 6]), r.choice([1, 3])
        if kind == "model":
            arrs = [np.zeros((K, 1)) + 0.5, np.ones((K, V), order="F") / V, np.zeros((K, C), order="F")]
            what = "loadlda"
        else:
            arrs = [np.ones((V, K), "<i4"), np.zeros(K, "<i4")][:1 if kind == "data1" else 2]
            what = "parse1" if kind == "data1" else "parse2"
        blob, types = b"".join(npy_bytes(a) for a in arrs), [a.dtype.str[1:] for a in arrs]
    cuts = range(len(blob)) if run.tier == "thorough" or len(blob) < 400 else sorted(r.sample(range(len(blob)), 260))
    last_needed = None
    for c in cuts:
        # an empty last array needs no bytes, its header does
        if judge(blob[:c], types) is not None:
            continue
        b.add(blob[:c], types, "%s of %d bytes cut to %d" % (kind, len(blob), c), what, must=True)
    run.count("truncations", len(b.items))
    if b.items:
        b.run_all()


def c13_mutate(run, r):
    """bytes of signature, version, lengths and header changed"""
    b = Batch(run)
    for i in range(120):
        blob, types, arrs = valid_file(r)
        if r.random() < 0.2 and len(types) == 1:   # as the library writes it
            a = np.asfortranarray(native(arrs[0]))
            blob = raw_npy("{'descr': '%s', 'fortran_order': True, 'shape': (%s)}" % ("<" + types[0], "".join("%d, " % d for d in a.shape)), a.tobytes("F"))
        blob = bytearray(blob)
        hl = int.from_bytes(blob[8:10], "little")
        how = r.randrange(8)
        if how == 0:
            p = r.randrange(8)
            blob[p] ^= r.randrange(1, 256)
            desc = "byte %d of the signature changed" % p
        elif how == 1:
            p = 8 + r.randrange(2)
            blob[p] = r.randrange(256)
            desc = "header length changed to %d" % int.from_bytes(blob[8:10], "little")
        elif how <= 5:
            n = r.choice([1, 1, 1, 2, 4])
            ps = [10 + r.randrange(hl) for _ in range(n)]
            used = len(bytes(blob[10:10 + hl]).rstrip()) or 1
            if r.random() < 0.8:
                ps = [10 + r.randrange(used) for _ in range(n)]
            for p in ps:
                blob[p] = r.choice([r.randrange(256), ord(r.choice("0123456789")), ord(r.choice("(),'{}<>|=-+TF :\0\n"))])
            desc = "header %r" % bytes(blob[10:10 + hl]).rstrip()
        elif how == 6:   # bytes of the header removed or doubled, length adjusted
            h = bytes(blob[10:10 + hl])
            a, c = sorted((r.randrange(hl), r.randrange(hl)))
            h = h[:a] + h[c:] if r.random() < 0.5 else h[:c] + h[a:]
            h = h[:60000]
            blob = bytearray(raw_npy(h, bytes(blob[10 + hl:]), pad=False))
            desc = "header %r" % h.rstrip()
        else:   # the arrays in another order, garbage in between
            blob = bytearray(bytes(r.randrange(256) for _ in range(r.randrange(1, 5))) + bytes(blob)) if r.random() < 0.5 else blob[r.randrange(1, len(blob)):]
            desc = "file shifted"
        b.add(bytes(blob), types, "%s: %s" % (",".join(types), desc), r.choice("wwwm"))
    run.count("mutations", len(b.items))
    b.run_all()


def c13_shapes(run, r):
    """headers that promise what is not there, or make no sense"""
    b = Batch(run)
    big = [2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 33, 2 ** 61, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64, 2 ** 64 + 1, 2 ** 64 - 1,
           3000000000, 99999999999, 10 ** 30, 65536, 65537, 4294967297, 40000000, 60000000, 75000000]
    for i in range(60):
        t = r.choice(TYPES)
        size = int(t[1])
        dims = r.randrange(1, 5)
        s = [r.choice(big + [0, 1, 1, 2, 3, 4]) for _ in range(dims)]
        style = r.randrange(6)
        if style == 0:
            txt = ", ".join(map(str, s)) + ("," if dims == 1 or r.random() < 0.2 else "")
        elif style == 1:
            s = [r.choice([-1, -2, 0, 3, -2 ** 31, -2 ** 63]) for _ in range(dims)]
            txt = ", ".join(map(str, s)) + ","
        elif style == 2:
            txt = r.choice(["3.5,", "1e3,", "x,", "0x10,", "3 4,", "3;4", ",", ",,", "3,,4", "(3,", "None", "3L,", "'3',", "3,4,x", " ", "nan,", "3 ,4 5", "2, 3 4"])
        elif style == 3:
            txt = ", ".join(map(str, s))    # also "(5)" for one dimension
        elif style == 4:   # wraps to something small
            k = r.choice([8, 16, 32, 33, 61, 62, 63])
            s = [2 ** k, 2 ** (64 - k), 1]
            r.shuffle(s)
            txt = ", ".join(map(str, s))
        else:      # promises 300-600 MB
            total = r.randrange(300 << 20, 600 << 20) // size
            d0 = r.choice([1, 2, 1000, total])
            s = [d0, total // d0]
            txt = "%d, %d" % tuple(s)
        f = r.random() < 0.5
        descr = r.choice("<>|") + t
        h = "{'descr': '%s', 'fortran_order': %s, 'shape': (%s), }" % (descr, f, txt)
        # never enough data, unless the product is small
        data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 8, 64, 640])))
        b.add(raw_npy(h, data), [t], "%s shape (%s) with %d bytes" % (descr, txt, len(data)), r.choice("wmrv" if style not in (4, 5) else "wm"))
    run.count("shapes", len(b.items))
    b.run_all()


def c13_foreign(run, r):
    """other types, other versions, other files, shapes that were not asked for"""
    b = Batch(run)
    for i in range(40):
        how = r.randrange(8)
        t = r.choice(TYPES)
        if how == 0:
            a = numpy_array(r, t)
            other = r.choice([x for x in TYPES if x != t])
            b.add(npy_bytes(a), [other], "%s read as %s" % (a.dtype.str, other), r.choice("wmr"), must=True)
        elif how == 1:
            dt = r.choice(["f2", "c8", "c16", "?", "S3", "U2", "M8[s]", "V8", "longdouble"])
            a = np.zeros(gen_shape(r), dt)
            b.add(npy_bytes(a), [t], "numpy type %s read as %s" % (dt, t), r.choice("wm"), must=True)
        elif how == 2:
            dt = np.dtype([("x", "<" + t), ("y", "<i4")])
            b.add(npy_bytes(np.zeros(gen_shape(r), dt)), [t], "structured type read as " + t, "w", must=True)
        elif how == 3:
            a = numpy_array(r, t)
            f = io.BytesIO()
            np.lib.format.write_array(f, a, version=r.choice([(2, 0), (3, 0)]))
            b.add(f.getvalue(), [t], "newer format version", r.choice("wm"), must=True)
        elif how == 4:
            n = r.choice([0, 1, 5, 9, 10, 11, 50, 300])
            blob = bytes(r.randrange(256) for _ in range(n))
            if r.random() < 0.5:
                blob = (b"\x93NUMPY\x01\x00" + blob)[:n]
            if judge(blob, [t]) is None:
                b.add(blob, [t], "garbage of %d bytes" % n, r.choice("wmv"), must=True)
        elif how == 5:
            # a table where a column was asked for
            s = (r.randrange(1, 5), r.choice([0, 2, 3, 5]))
            b.add(npy_bytes(gen_values(r, t, s[0] * s[1]).reshape(s)), [t], "shape %s read as a vector" % (s,), r.choice("vvg"), must=True)
        elif how == 6:
            what = r.choice("pqx")
            s = r.choice({"p": [(0, 3), (2, 3), (3, 1), (3,), (7,), (2, 0), (2, 2, 2)], "q": [(), (0, 4), (1, 3), (2, 3), (4, 3), (2,), (4, 0), (6,)],
                          "x": [(), (6,), (3, 2), (1, 6), (6, 1), (2, 2), (2, 4), (3, 3), (0, 3), (2, 0), (2, 2, 3), (2, 3, 0)]}[what])
            b.add(npy_bytes(gen_values(r, t, int(np.prod(s))).reshape(s)), [t], "shape %s read as %s" % (s, {"p": "a row vector", "q": "three rows", "x": "2x3"}[what]), what, must=True)
            run.count("shapes that were not asked for")
        else:
            s = (r.randrange(1, 5), r.choice([0, 1, 3, 5]))
            b.add(npy_bytes(gen_values(r, t, s[0] * s[1]).reshape(s)), [t], "shape %s read as two columns" % (s,), "s", must=True)
    sc = run.a.scratch
    for what in ("w", "m", "f", "loadlda", "parse1", "parse2"):
        b.add(b"", ["f8"], "missing file", what, must=True, path=os.path.join(sc, "missing"))
        b.add(b"", ["f8"], "directory", what, must=True, path=sc)
        b.add(b"", ["f8"], "empty file", what, must=True)
    # a model of integers, data of floats, a model whose prior is a table
    one = npy_bytes(np.ones((2, 2)))
    ints = npy_bytes(np.ones((2, 2), "<i4"))
    b.add(ints * 3, [], "model of integers", "loadlda", must=True)
    b.add(one * 3, [], "model whose prior is a table", "loadlda", must=True)
    b.add(one * 2, [], "data of floating point numbers", "parse2", must=True)
    b.add(ints + one, [], "labels of floating point numbers", "parse2", must=True)
    b.add(ints, [], "data without labels", "parse2", must=True)
    run.count("foreign files", len(b.items))
    b.run_all()


def c13_long(run, r):
    """long valid files are still read, and not at once more than needed"""
    n = r.choice([1 << 20, (1 << 20) + 1, (1 << 20) - 1, 3 * (1 << 20) + 5, 1 << 21, 262144, 131072, 8192, 65536])
    t = r.choice(["i1", "i4", "f8", "i2"])
    a = (np.arange(n) * 2654435761 % 251).astype("<" + t)
    blob = npy_bytes(a)
    b = Batch(run)
    cut = len(blob) - r.choice([1, 2, 8, len(blob) // 2])
    b.add(blob[:cut], [t], "%d numbers cut to %d of %d bytes" % (n, cut, len(blob)), "w", must=True)
    b.run_all()
    path = os.path.join(run.a.scratch, "long")
    with open(path, "wb") as f:
        f.write(blob)
    res = Tool(run, run.build + "/asan/npytool_asan")([("l", ["read l %s w %s" % (path, t)])])
    v, peak, rest = res["l"]
    run.check(v == "ok" and rest == "C,%d=%s" % (n, a.tobytes().hex()), "long", "%d numbers of type %s: %s %s" % (n, t, v, rest[:100]))
    run.count("long files")
    run.distinct("long %d %s %d" % (n, t, cut))


def main():
    mode = [a for a in sys.argv[1:] if a in ("c12", "c13")][0]
    run = Run(mode.upper())
    if mode == "c12":
        run.drive([("numpy-to-library", 400, 6000, c12_read), ("library-to-numpy", 400, 6000, c12_write), ("models", 80, 3000, c12_model),
                   ("large", 60, 1000, c12_large)])
    else:
        run.drive([("truncated", 60, 1500, c13_truncate), ("mutated", 120, 4000, c13_mutate), ("shapes", 80, 2500, c13_shapes),
                   ("foreign", 40, 1200, c13_foreign), ("long", 16, 150, c13_long)])


if __name__ == "__main__":
    main()
