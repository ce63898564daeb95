"""C07: views of a buffer address the same elements (proved per function of raw_buffer and dim)."""
import os
from vlib import build, rtcheck
from irsym import build as B, bufs


def main():
    rtcheck.run(
        "C07", lambda: bufs.c07_specs(B.load(os.path.join(build.VERIF, "probes", "buffers.cc"))), bufs.lemma_obligations,
        [("views of generated buffers", "view", 8, 20000)],
        ["fold factors are positive; ranks are below 2^40; offsets of the coordinates in question are representable",
         "the dims of a buffer do not overlap the buffer",
         "the functions that take a view's parameters are called with in-range dimensions, as their assertions say (the assertions are obligations)"],
        rtcheck.BUFFERS)
