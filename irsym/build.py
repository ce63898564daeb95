"""Compiles the real sources (and probes that instantiate templates of real headers) to LLVM IR."""
import hashlib, os
import concurrent.futures as cf
from vlib import build as B
from . import ir

FLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-fno-discard-value-names", "-S", "-emit-llvm", "-fno-threadsafe-statics",
         "-fno-rtti"]


def emit(src, flags=()):
    d = os.path.join(B.outdir(), "ir")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read() + repr(flags).encode()).hexdigest()[:8]
    out = os.path.join(d, os.path.basename(src) + "-" + h + ".ll")
    if not os.path.exists(out):
        t = out + B.tmp()
        B.run([B.CXX] + B.BASE_FLAGS + FLAGS + list(flags) + [src, "-o", t])
        B.run(["opt-18", "-passes=function(sroa)", "-S", t, "-o", t + "2"])
        os.unlink(t)
        os.rename(t + "2", out)
    return out


_cache = {}


def load(src, flags=()):
    k = (src, tuple(flags))
    if k not in _cache:
        p = emit(src, flags)
        _cache[k] = ir.Module(open(p).read(), os.path.basename(src))
    return _cache[k]


def repo(rel, flags=()):
    return load(os.path.join(B.REPO, rel), flags)


def many(srcs):
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda a: emit(*a), srcs))
