"""C11: validation accepts exactly the buffers whose addressing cannot overflow (proved)."""
from vlib import rtcheck
from irsym import build as B, bufs


def main():
    rtcheck.run(
        "C11", lambda: bufs.c11_specs(B.repo("slinky/runtime/buffer.cc")), bufs.flat_lemmas,
        [("validation of generated buffers", "valid", 8, 60000)],
        ["ranks are below 2^40, addresses are below 2^63",
         "a folded dimension counts as if it had as many coordinates as its fold factor, also if its bounds are smaller"],
        rtcheck.BUFFERS)
