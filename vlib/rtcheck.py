"""A check made of contracts on the runtime, with runs of the real code (drivers/rt) labelled bounded."""
from . import build, check, nodespec

BUFFERS = ("the model of buffers in irsym/bufs.py (offsets of dimensions as integers; the dims of a buffer are an array apart from the buffer)",)


def run(prop, specs, lemmas, bounded, assumptions, trusted=(), nodes=False):
    """specs() -> specifications; lemmas() -> lemma obligations; bounded: [(what, kind, runs, cases)]."""
    c = check.Check(prop)
    rt = check.RtTool(c)
    c.trusted += [t for t in nodespec.TRUSTED if nodes or "expression nodes" not in t] + list(trusted)
    c.assumptions += list(assumptions)
    ok = True
    try:
        rt.build()
    except build.BuildError as e:
        c.undecided.append("the tree does not build for the driver: " + str(e)[-1500:])
        ok = False
    l = []
    try:
        l = specs()
    except Exception as e:
        c.undecided.append("the tree does not build for the check: " + str(e)[-1500:])
    nodespec.lemmas(c, lemmas())
    nodespec.decide(c, rt if ok else None, l)
    if ok:
        k = 10 if c.thorough else 1
        for what, kind, runs, n in bounded:
            rt.bounded(what, [(kind, c.seed * 100 + i, n * k) for i in range(runs)])
    c.finish()
