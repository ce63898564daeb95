"""C09: copies and fills write exactly what they should (fills proved, the composition bounded)."""
from vlib import rtcheck
from irsym import build as B, fills


def main():
    rtcheck.run(
        "C09", lambda: fills.specs(B.repo("slinky/runtime/buffer.cc")), fills.lemma_obligations,
        [("copies, pads and fills of generated buffers", "copy", 8, 60000)],
        ["a value that is filled in does not overlap what is filled",
         "elements of the destination are distinct; dimensions of the source of stride 0 are broadcasts or cover the destination"],
        ("the model of memory in irsym/fills.py (bytes, and the block writes since)",))
