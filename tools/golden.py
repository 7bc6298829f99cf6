"""write rules/golden/formats.json from the tree that VT_REPO names (done once, at the pinned commit)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rules import p14
from vt.check import Ctx
from vt.prog import Program

c = Ctx("P14", "quick", Program())
with open(p14.GOLDEN, "w") as f:
    json.dump(p14.current(c), f, indent=0, sort_keys=True)
    f.write("\n")
