"""The checks of the server's properties."""
import json
import os
import time
from concurrent.futures import ThreadPoolExecutor
import runner
import families_by_prop
import design
import menu

PROPS = ["C%02d" % i for i in range(1, 25) if i != 19]


def brief(e):
    d = dict(e)
    for k in ("pk", "data", "objs", "locks", "args"):
        if k in d and len(json.dumps(d[k])) > 300:
            d[k] = json.dumps(d[k])[:300] + "..."
    return d


def show(x, n, lo=10):
    return "\n".join("  %3d %s" % (i, json.dumps(brief(e))) for i, e in list(enumerate(x["ev"], 1))[max(0, n - lo):n])


def check(rep):
    pid, tier, seed = rep.pid, rep.tier, rep.seed
    rundir = os.path.join(runner.BUILD, "run", str(os.getpid()))
    cov = rep.cov
    # the design
    dstates = dtrans = 0
    dcov = []
    pool = ThreadPoolExecutor(1)
    explored = pool.submit(design.check, pid, tier, seed)
    # executions of the real server
    with ThreadPoolExecutor(2) as two:
        a, b = two.submit(design.tasks, pid, tier, seed), two.submit(menu.tasks, pid, tier, seed)
        tasks = a.result() + b.result()
    tasks += families_by_prop.tasks(pid, tier, seed)
    c = runner.collect(tasks, time.time() + (500 if tier == "quick" else 6000))
    if c.errors:
        raise RuntimeError("%d tasks failed; the first: %s\n%s" % (len(c.errors), c.errors[0][0][:3], c.errors[0][1]))
    if c.cut and not c.stats["hangs"]:
        raise RuntimeError("ran out of time after %d tasks" % c.tasks)
    viol, states = runner.judge(c.execs, pid, rundir)
    for r in explored.result():
        dstates += r["states"]
        dtrans += r["transitions"]
        dcov.append(r)
    walks = [x for x in c.execs if "agree" in x]
    if viol:
        viol = confirm(viol, pid, rundir)
    elif c.cut:
        # executions that hang, which this property allows
        pass
    cov.update({
        "states": dstates + states, "transitions": dtrans + states - len(c.execs),
        "traces_validated_against_impl": len(c.execs),
        "executions": c.total, "events": sum(c.stats.values()) - c.stats["hangs"],
        "events_by_kind": dict(c.stats),
        "trace_states": states,
        "design": dcov,
        # how closely the real server follows the design, for the record: judging is left to LfsCore
        "design_walks_replayed": {"executions": len(walks), "answers_as_in_the_design": sum(x["agree"] for x in walks),
                                  "system_calls": sum(x["synced"][1] for x in walks),
                                  "system_calls_as_in_the_design": sum(x["synced"][0] for x in walks)},
        # the request-level specification: the tours that do not agree are judged, and a share of the others
        "request_tours": {"requests": c.menu[0], "answers_and_stores_as_specified": c.menu[1]},
        "requests_by_answer": answers(c.execs),
        "samples": [{"label": x["label"], "events": [brief(e) for e in x["ev"][:8]]} for x in c.execs[:: max(1, len(c.execs) // 3)][:3]],
    })
    if pid == "C20":
        import pktline
        n = pktline.framing(rep)
        cov["traces_validated_against_impl"] += n
        cov["states"] += n
    rep.assume = ["file-system calls are atomic and take effect in program order; no power loss",
                  "the scheduler moves one server at a time between file-system calls"]
    if viol:
        x = viol["exec"]
        rep.violation({"property": pid, "label": x["label"], "event": viol["event"], "violated": viol["violated"],
                       "script": x["script"], "how": "python3 /verif/replay.py <this file>",
                       "events": x["ev"][max(0, viol["event"] - 12):viol["event"]]},
                      "event %d of '%s' violates %s:\n%s" % (viol["event"], x["label"][:200], viol["violated"], show(x, viol["event"])))


def answers(execs):
    """How often each kind of request met each status: what the executions reached."""
    n = {}
    for x in execs:
        cur = {}
        for e in x["ev"]:
            if e["k"] == "req":
                w = (e["pk"][0]["b"].split(" ")[0].strip()[:14] if e["pk"] and e["pk"][0]["t"] == "D" else "-")
                cur[e["s"]] = w if w in ("version", "quit", "batch", "put-object", "verify-object", "get-object", "lock", "list-lock", "unlock") else "other"
            elif e["k"] == "res":
                k = "%s %d" % (cur.get(e["s"], "?"), e["st"])
                n[k] = n.get(k, 0) + 1
    return dict(sorted(n.items()))


def confirm(viol, pid, rundir):
    """A hang may be due to an overloaded machine: it has to happen again."""
    x = viol["exec"]
    if x["ev"][viol["event"] - 1]["k"] != "hang":
        return viol
    import script
    y = script.execute(x["script"], x["label"])
    v, _ = runner.judge([y], pid, rundir)
    return v
