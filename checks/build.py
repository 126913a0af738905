"""Generates /verif/build/build.ninja from what is in /repo right now and builds targets.

One object directory per flavour; the sources are taken from /repo by globbing,
so added or renamed files are picked up."""
import glob
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

COMMON = "-std=c++14 -include string -include functional -DEIGEN_MAX_CPP_VER=3 -pthread -w"
FLAVORS = {
    # Eigen's and libstdc++'s assertions stay on: an index out of range is reported, not ignored
    "plain": dict(cxx="g++", cflags="-O2", ldflags=""),
    "asan": dict(cxx="clang++",
                 cflags="-O1 -g1 -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS "
                        "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all",
                 ldflags="-fsanitize=address,undefined"),
    "tsan": dict(cxx="clang++", cflags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=thread", ldflags="-fsanitize=thread"),
    "msan": dict(cxx="clang++", cflags="-O1 -g1 -fno-omit-frame-pointer -fsanitize=memory", ldflags="-fsanitize=memory"),
}
APP_MAINS = ("lda", "slda", "fslda")


def eigen():
    try:
        return subprocess.run(["pkg-config", "--cflags", "eigen3"], capture_output=True, text=True, check=True).stdout.strip()
    except Exception:
        return "-I/usr/include/eigen3"


def esc(p):
    return p.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def generate(harnesses):
    """harnesses: {target name: (flavor, source, uses)} with uses a set out of lib, io, perturb, listnodes."""
    os.makedirs(BUILD, exist_ok=True)
    lib = sorted(glob.glob(REPO + "/src/ldaplusplus/**/*.cpp", recursive=True))
    apps = sorted(glob.glob(REPO + "/src/applications/**/*.cpp", recursive=True))
    mains = [a for a in apps if os.path.splitext(os.path.basename(a))[0] in APP_MAINS]
    io = [a for a in apps if a not in mains]
    out = ["ninja_required_version = 1.3", "builddir = " + esc(BUILD)]
    inc = "-I%s/include -I%s/harness %s" % (REPO, VERIF, eigen())
    for f, d in FLAVORS.items():
        out += ["rule cxx_%s" % f,
                "  command = %s %s %s %s -MD -MF $out.d -c $in -o $out" % (d["cxx"], COMMON, d["cflags"], inc),
                "  depfile = $out.d", "  deps = gcc", "  description = %s $in" % f,
                "rule ar_%s" % f, "  command = rm -f $out && ar crs $out $in",
                "rule ld_%s" % f,
                "  command = %s %s -pthread -o $out $in $libs -ldl" % (d["cxx"], d["ldflags"])]
    for f in FLAVORS:
        def objs(srcs, sub, root):
            res = []
            for s in srcs:
                o = "%s/%s/%s/%s.o" % (BUILD, f, sub, os.path.relpath(s, root).replace("/", "_"))
                out.append("build %s: cxx_%s %s" % (esc(o), f, esc(s)))
                res.append(esc(o))
            return res
        lo = objs(lib, "lib", REPO)
        io_o = objs(io, "io", REPO)
        mo = objs(mains, "main", REPO)
        la, ia = "%s/%s/libldapp.a" % (BUILD, f), "%s/%s/libio.a" % (BUILD, f)
        out.append("build %s: ar_%s %s" % (esc(la), f, " ".join(lo)))
        out.append("build %s: ar_%s %s" % (esc(ia), f, " ".join(io_o)))
        for s, o in zip(mains, mo):
            n = os.path.splitext(os.path.basename(s))[0]
            t = "%s/%s/app/%s" % (BUILD, f, n)
            out += ["build %s: ld_%s %s %s %s" % (esc(t), f, o, esc(ia), esc(la)), "  libs = -ldocopt"]
        out.append("build apps_%s: phony %s" % (f, " ".join(
            esc("%s/%s/app/%s" % (BUILD, f, os.path.splitext(os.path.basename(s))[0])) for s in mains)))
    for name, (f, src, uses) in sorted(harnesses.items()):
        o = "%s/%s/h/%s.o" % (BUILD, f, name)
        t = "%s/%s/%s" % (BUILD, f, name)
        out.append("build %s: cxx_%s %s" % (esc(o), f, esc(os.path.join(VERIF, "harness", src))))
        ins = [o]
        for extra in ("perturb", "listnodes"):
            if extra in uses:
                p = "%s/%s/h/%s.%s.o" % (BUILD, f, name, extra)
                out.append("build %s: cxx_%s %s" % (esc(p), f, esc("%s/harness/%s.cpp" % (VERIF, extra))))
                ins.append(p)
        if "io" in uses:
            ins.append("%s/%s/libio.a" % (BUILD, f))
        if "lib" in uses:
            ins.append("%s/%s/libldapp.a" % (BUILD, f))
        out += ["build %s: ld_%s %s" % (esc(t), f, " ".join(esc(i) for i in ins)), "  libs ="]
    text = "\n".join(out) + "\n"
    path = BUILD + "/build.ninja"
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as fh:
            fh.write(text)


def build(targets, jobs=0):
    cmd = ["ninja", "-C", BUILD] + (["-j", str(jobs)] if jobs else []) + targets
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:] + r.stderr[-2000:])
        return False
    return True
