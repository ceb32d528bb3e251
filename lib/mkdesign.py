"""Writes DESIGN.md: lib/DESIGN.in.md with the sections of the properties and the planted bugs filled in."""
import json, os, glob, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, COST

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def props():
    out = []
    for p in PROPS:
        out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
                "* Specified and checked: " + p["note"],
                "* Over: " + p["text"] + ".",
                "* Oracle binds to: " + "; ".join(p["observe"]) + ".",
                "* Why the tests cannot settle it: " + p["why"],
                "* Quick cost: about %d s." % COST.get(p["id"], 45), ""]
    return "\n".join(out)


def seeds():
    out = ["| planted bug | needs | breaks | caught by |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        out.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["needs"], m["what_it_breaks"], m["property"]))
    return "\n".join(out)


t = open(os.path.join(HERE, "DESIGN.in.md")).read()
t = t.replace("@@PROPS@@", props().rstrip()).replace("@@SEEDS@@", seeds())
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
