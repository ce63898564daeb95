"""C10: iteration visits every element once, with the addresses in every buffer (loops proved, planning of loops bounded)."""
import os
from vlib import build, rtcheck
from irsym import build as B, iters


def main():
    rtcheck.run(
        "C10", lambda: iters.specs(B.repo("slinky/runtime/buffer.cc"), B.load(os.path.join(build.VERIF, "probes", "each.cc")), os.environ.get("VERIF_TIER") == "thorough"), iters.lemma_obligations,
        [("iteration over generated buffers", "each", 8, 20000)],
        ["ranks are below 2^40, coordinates and fold factors below 2^61; elements have addresses other than null",
         "offsets of the coordinates that are visited are representable",
         "the functions are for a number of buffers that is a template argument; the instances for 1, 2 and 3 buffers are under contract"],
        rtcheck.BUFFERS)
