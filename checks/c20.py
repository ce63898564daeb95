"""C20: scoped bindings in symbol tables are restored (every operation on a table or a scope is proved against what names are bound to)."""
import os
from vlib import build, rtcheck
from irsym import build as B, symmap


def specs():
    B.many([(os.path.join(build.VERIF, "probes", "symmap.cc"),)] + [(os.path.join(build.REPO, "slinky", "builder", f),) for f in ("simplify.cc", "optimizations.cc")])
    return (symmap.specs(B.load(os.path.join(build.VERIF, "probes", "symmap.cc"))) + symmap.learning(B.repo("slinky/builder/simplify.cc")) +
            symmap.deshadowing(B.repo("slinky/builder/optimizations.cc")))


def main():
    rtcheck.run(
        "C20", specs, symmap.lemma_obligations,
        [("histories of scopes and bindings of integers, expressions and boxes", "symmap", 8, 10000),
         ("renaming of declarations of statements", "deshadow", 4, 10000),
         ("what is learned from conditions", "learn", 8, 10000)],
        ["names are below 2^40", "scopes nest: one that began later ends earlier",
         "the templates are under contract for values that are integers; other types of values are sampled"],
        ("contracts of std::vector::resize and its constructor (elements keep their values, new ones are disengaged)",))
