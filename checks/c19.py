"""C19: nodes are destroyed once, when the last handle goes away (rely/guarantee over counts, proved for every operation on handles)."""
import os
from vlib import build, rtcheck
from irsym import build as B, refs


def main():
    rtcheck.run(
        "C19", lambda: refs.specs(B.load(os.path.join(build.VERIF, "probes", "refs.cc"))), lambda: [],
        [("histories of handles to nodes of expressions, statements and others, with handles inside of nodes", "ref", 8, 30000)],
        ["a handle is changed by one thread at a time (several threads may have handles to the same node)",
         "there are fewer than 2^29 handles to a node",
         "a handle that is moved to itself may be left without a node",
         "nodes do not refer to themselves through their handles (they are immutable when shared)"],
        ("atomic operations on a count take effect one at a time, and a release that is not relaxed orders what precedes it before the destruction",))
