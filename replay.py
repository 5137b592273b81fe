#!/usr/bin/env python3
"""replay.py FILE: carries out a recorded execution again and judges it."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "driver"))
import runner
import script
import lfs
runner.ensure_tools()
d = json.load(open(sys.argv[1]))
x = script.execute(d["script"], d["label"])
v, n = runner.judge([x], sys.argv[2] if len(sys.argv) > 2 else d["property"], "/verif/build/run/replay")
if v:
    print("violates", v["violated"])
    print(lfs.show(x, v["event"], 30))
    sys.exit(1)
print("held,", n, "states")
