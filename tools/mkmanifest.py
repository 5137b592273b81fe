#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
READY = ids
OWN = {
    "C19": "TLA+ specifications PktLine and PktReader checked with TLC; TLC's cases replayed into the real reader and writer, results judged by TLC",
    "C25": "TLA+ specifications GitAt and GitAtWalk checked with TLC; its initial states and further histories run through the real git-at, answers judged by TLC",
    "C26": "TLA+ specification GitAt (regular expressions and option semantics); runs of the real git-at judged by TLC",
    "C27": "TLA+ specification GitAt (outcome); runs of the real git-at judged by TLC",
    "C28": "TLA+ specifications RecentRefs and RecentGen checked with TLC; TLC's histories carried out with git, listings of the real program judged by TLC",
    "C29": "TLA+ specification RecentRefs; listings of the real program on generated repositories judged by TLC",
    "C30": "TLA+ specifications Where and Startup checked with TLC; all forms of starting the real server, and its schedules of servers starting together, judged by TLC",
    "C32": "TLA+ specification Output checked with TLC; its cases run through the real programs in front of limited sinks, judged by TLC",
    "C31": "TLA+ specification Pager checked with TLC; its initial states run through the real program, terminals and recording pagers, judged by TLC",
}
LFS = ("TLA+ specification (LfsCore, LfsDesign, LfsMenu) checked with TLC; traces of the real server's system calls and replies, "
       "from specification-derived schedules, validated by TLC against the specification")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in READY:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                            "thorough_cmd": "python3 check.py %s thorough" % i,
                            "technique": OWN.get(i, LFS + ("; permissions by SharedRepo" if i == "C23" else "")), "level": "model_checking",
                            "level_note": "bounded: the executions listed in the evidence file, each validated in full by TLC against the specification"})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is being built"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
