#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decides one property; see DESIGN.md.

Exit 0: held on everything explored.  Exit 1: a line VIOLATION property=<id>
replay=<path>.  Exit 2: the check itself failed.
"""
import json
import os
import shutil
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "driver"))
import runner  # noqa: E402

EVID = os.path.join(HERE, "evidence")


class Report:
    """What one check explored, for the evidence file."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.level = "model_checking"
        self.cov = {}
        self.assume = []
        self.viol = None       # (replay data, text)

    def write(self):
        os.makedirs(EVID, exist_ok=True)
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
             "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": 1 if self.viol else 0}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(e, f, indent=1)
            f.write("\n")

    def violation(self, replay, text):
        self.viol = (replay, text)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep = Report(pid, tier, seed)
    runner.ensure_tools()
    import lfs
    if pid in lfs.PROPS:
        lfs.check(rep)
    elif pid == "C19":
        import pktline
        pktline.check(rep)
    elif pid in ("C25", "C26", "C27"):
        import gitat
        gitat.check(rep)
    elif pid in ("C28", "C29"):
        import recent
        recent.check(rep)
    elif pid == "C30":
        import where
        where.check(rep)
    elif pid == "C31":
        import pager
        pager.check(rep)
    elif pid == "C32":
        import output
        output.check(rep)
    else:
        print("no such property", pid)
        return 2
    rep.write()
    if rep.viol:
        path = os.path.join(EVID, "replay-%s.json" % pid)
        with open(path, "w") as f:
            json.dump(rep.viol[0], f, indent=1)
        print(rep.viol[1])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s held (%s): %s" % (pid, tier, json.dumps({k: v for k, v in rep.cov.items() if not isinstance(v, (list, dict, str))})))
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    shutil.rmtree(os.path.join(runner.BUILD, "run", str(os.getpid())), ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
