"""C08: elements of allocated buffers are distinct and within the allocation (sizes proved, stride assignment bounded)."""
from vlib import rtcheck
from irsym import build as B, bufs


def main():
    rtcheck.run(
        "C08", lambda: bufs.c08_specs(B.repo("slinky/runtime/buffer.cc")), lambda: bufs.flat_lemmas() + bufs.count_lemmas(),
        [("allocation of generated buffers", "alloc", 8, 20000)],
        ["ranks are below 2^40",
         "a folded dimension counts as if it had as many coordinates as its fold factor, also if its bounds are smaller"],
        rtcheck.BUFFERS)
