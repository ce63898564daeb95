"""Builds the real sources of /repo (current working tree) for the checks. Nothing is written in /repo."""
import concurrent.futures as cf
import hashlib, os, shutil, subprocess, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

LIB_SOURCES = [
    "slinky/base/arithmetic.cc", "slinky/base/chrome_trace.cc", "slinky/base/thread_pool.cc",
    "slinky/base/thread_pool_impl.cc",
    "slinky/runtime/expr_stmt.cc", "slinky/runtime/buffer.cc", "slinky/runtime/depends_on.cc",
    "slinky/runtime/evaluate.cc", "slinky/runtime/pipeline.cc", "slinky/runtime/print.cc",
    "slinky/builder/node_mutator.cc", "slinky/builder/simplify.cc", "slinky/builder/simplify_bounds.cc",
    "slinky/builder/simplify_exprs.cc", "slinky/builder/substitute.cc",
]


class BuildError(Exception):
    pass


def lib_sources():
    """All library .cc files of the listed directories that exist now (so that a refactoring may add files)."""
    out = []
    for d in ("slinky/base", "slinky/runtime", "slinky/builder"):
        full = os.path.join(REPO, d)
        for f in sorted(os.listdir(full)):
            if f.endswith(".cc") and f not in ("visualize.cc", "replica_pipeline.cc"):
                out.append(os.path.join(d, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for d in ("slinky/base", "slinky/runtime", "slinky/builder"):
        full = os.path.join(REPO, d)
        for f in sorted(os.listdir(full)):
            p = os.path.join(full, f)
            if os.path.isfile(p):
                h.update(f.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def outdir():
    d = os.path.join(BUILD, tree_hash())
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        # Keep the build output of the last few trees only.
        l = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)
        for o in l[:-4]:
            if o != d:
                shutil.rmtree(o, ignore_errors=True)
    return d


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def tmp():
    return ".tmp%d" % os.getpid()


CXX = "clang++-18"
BASE_FLAGS = ["-std=c++17", "-I" + REPO, "-w", "-pthread"]


def compile_objs(sources, flags, tag, jobs=8):
    d = os.path.join(outdir(), tag)
    os.makedirs(d, exist_ok=True)
    todo, objs = [], []
    for s in sources:
        o = os.path.join(d, s.replace("/", "_") + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, o))

    def one(a):
        s, o = a
        run([CXX] + BASE_FLAGS + flags + ["-c", os.path.join(REPO, s), "-o", o + tmp()])
        os.rename(o + tmp(), o)
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, todo))
    return objs


def lib(flags=("-O1",), tag="lib", sources=None):
    sources = sources or lib_sources()
    objs = compile_objs(sources, list(flags), tag)
    a = os.path.join(outdir(), tag, "libslinky.a")
    if not os.path.exists(a):
        run(["ar", "rcs", a + tmp()] + objs)
        os.rename(a + tmp(), a)
    return a


# In the runs of drivers, an overflow in the code under test wraps, rather than being what an optimisation makes of it.
RUN_FLAGS = ("-O1", "-fwrapv")


def lib_pair(guard, flags=RUN_FLAGS):
    """(library as it ships, library with the hook guard defined). Only sources that mention the guard are compiled twice."""
    plain = lib(flags, "libw")
    srcs = lib_sources()
    d = os.path.join(REPO, "slinky")
    inhdr = any(guard in open(os.path.join(r, f)).read() for r, _, fs in os.walk(d) for f in fs if f.endswith(".h"))
    hooked = [s for s in srcs if inhdr or guard in open(os.path.join(REPO, s)).read()]
    if not hooked:
        return plain, plain
    o1 = compile_objs(hooked, list(flags) + ["-D" + guard], "libwh")
    o0 = compile_objs([s for s in srcs if s not in hooked], list(flags), "libw")
    a = os.path.join(outdir(), "libwh", "libslinky.a")
    if not os.path.exists(a):
        run(["ar", "rcs", a + tmp()] + o0 + o1)
        os.rename(a + tmp(), a)
    return plain, a


def program(src, name, flags=("-O1",), libs=None, extra=()):
    """Compiles a driver in /verif together with the real sources."""
    exe = os.path.join(outdir(), name)
    src = [src] if isinstance(src, str) else list(src)
    hs = [os.path.join(os.path.dirname(s), f) for s in src for f in sorted(os.listdir(os.path.dirname(s))) if f.endswith(".h")]
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in src + hs) + repr((flags, libs)).encode()).hexdigest()[:12]
    exe = exe + "-" + h
    if not os.path.exists(exe):
        libs = libs if libs is not None else [lib()]
        run([CXX] + BASE_FLAGS + list(flags) + ["-I" + VERIF] + src + list(libs) + list(extra) + ["-o", exe + tmp()])
        os.rename(exe + tmp(), exe)
    return exe


def driver_objs(srcs, flags, name):
    """Objects of a driver made of several files, compiled in parallel."""
    ds = sorted({os.path.dirname(s) for s in srcs})
    hs = [os.path.join(d, f) for d in ds + [os.path.join(VERIF, "drivers")] for f in sorted(os.listdir(d)) if f.endswith(".h")]
    hh = b"".join(open(h, "rb").read() for h in hs) + repr(flags).encode()
    out = []

    def one(s):
        h = hashlib.sha256(open(s, "rb").read() + hh).hexdigest()[:12]
        o = os.path.join(outdir(), "%s-%s-%s.o" % (name, os.path.basename(s), h))
        if not os.path.exists(o):
            run([CXX] + BASE_FLAGS + list(flags) + ["-I" + VERIF, "-c", s, "-o", o + tmp()])
            os.rename(o + tmp(), o)
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        out = list(ex.map(one, srcs))
    return out
