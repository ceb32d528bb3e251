"""P09: json texts are read as the documents they are."""
import xjson


def run(c):
    c.build("harness")
    xjson.replay(c, xjson.SWEEPS)
    return c.finish(rule="every text enumerated by JsonGen is read by the library: same document, or rejected")
