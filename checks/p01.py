"""P01: the reader splits every text into the tokens of the specification, or reports its error."""
import re, vf, gen, lex


def run(c):
    c.build("harness")
    lex.replay_generated(c)
    lex.validate_random(c)
    return c.finish(rule="every text of up to N chunks over nine alphabets enumerated by TLC from the reader specification and replayed; "
                         "random grammatical and mutated texts tokenized by the implementation and followed by TLC token by token")
