"""C14: executing statements: what bodies see, what they leave, the order of evaluation, allocations, tasks."""
import os
from vlib import build, rtcheck
from irsym import build as B, control, stmts

SRC = ("evaluate.cc", "expr_stmt.cc")


def specs():
    B.many([(os.path.join(build.REPO, "slinky", "runtime", f),) for f in SRC])
    ev, es = (B.repo("slinky/runtime/" + f) for f in SRC)
    return stmts.specs(ev) + control.specs(ev) + control.helpers(ev, es)


def main():
    rtcheck.run(
        "C14", specs, lambda: [],
        [("execution of generated statements", "stmt", 8, 20000)],
        ["recursion: each evaluator function is verified against the contract of the others for the nested statements (structural induction)",
         "the expressions of a statement are defined (C13), and evaluating the bounds of a crop that replaces its own buffer gives the same "
         "values after earlier dimensions were cropped",
         "user functions, check handlers and hooks do not modify the descriptors and contexts that they are given, and do not throw",
         "in-place operations on buffers shared with parallel or asynchronous bodies are excluded",
         "closures capture plain variables that the parent has bound",
         "raw_buffer::crop, slice, transpose, dim::contains, flat offsets, init_strides, base_offset, allocate satisfy their contracts (C07, C08, C11)",
         "ranks and the number of workers are below 2^31; the loop variable after the last iteration is representable",
         "parallel loops run every index once, with a copy of the task for each worker (C15)"],
        rtcheck.BUFFERS + ("contracts of std::function, std::vector, std::copy_n, std::atomic and ref_count (C19)",), nodes=True)
