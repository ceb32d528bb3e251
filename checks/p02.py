"""P02: the reader builds exactly the document the text describes."""
import xtree


def run(c):
    c.build("harness")
    xtree.replay(c, xtree.SWEEPS)
    return c.finish(rule="")
