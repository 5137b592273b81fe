"""The design (spec/LfsDesign.tla): TLC explores its scenarios exhaustively, with
LfsCore as the judge, and the edges of its state graph become schedules for the
real server."""
import errno
import hashlib
import json
import os
import random
import re
import time

import runner
from core import *
from script import blob

B1, B2 = (77, 3000), (78, 5)
O1, O2 = sha(blob(*B1)), sha(blob(*B2))
PATHS = ["a", "b", "c"]


def put(seed_n, oid=None, size=None, data=None, pk=32768):
    d = blob(*seed_n)
    return r_put(d, oid=oid, size=size, body=data, pk=pk)


la, lb, lc = r_lock(b"a"), r_lock(b"b"), r_lock(b"c")
ua, ub = r_unlock(lock_id(b"a")), r_unlock(lock_id(b"b"))
ls, ls1 = r_list(), r_list(1)
pa = r_list(path=b"a")
p1, p1c, p2 = put(B1), put(B1, pk=1000), put(B2)
bad1 = r_put(blob(79, 3000), oid=O1, size=3000)
short1 = put(B1, size=3001)
g1, v1, v1x = r_get(O1), r_verify(O1, 3000), r_verify(O1, 2999)
b1 = r_batch([(O1, 1), (O2, 2), (O1, 3)])

HELD = [["a", 0, 500]]
THREE = [["a", 0, 500], ["b", 0, 400], ["c", 0, 300]]
BOTH = [["a", 65534, 500], ["b", 0, 400]]

PROBE = ("P", "upload", 0, [ls, la, ls, ua, la, ls], {"phase": 2})
PROBE_D = ("Q", "download", 0, [ls, pa], {"phase": 3})
PROBE_O = ("P", "upload", 0, [v1, b1, p1, v1], {"phase": 2})
PROBE_G = ("Q", "download", 0, [g1, b1], {"phase": 3})


def scenarios():
    """name -> scenario.  procs: (name, mode, uid, requests, options)."""
    S = {}

    def s(name, group, procs, locks=(), objs=(), kills=0, faults=0, ticks=0, uids=(), big=False):
        S[name] = dict(name=name, group=group, procs=procs, locks=list(locks), objs=list(objs), kills=kills, faults=faults,
                       ticks=ticks, uids=list(uids), big=big)

    def two(name, group, a, b, am="upload", bm="upload", au=0, bu=0, **kw):
        s(name, group, [("A", am, au, a, {}), ("B", bm, bu, b, {})], **kw)
    # locks under contention
    two("lock/lock", "lock", [la], [la])
    two("lock/unlock", "lock", [la], [ua], locks=HELD)
    two("lock/unlock,lock", "lock", [la], [ua, la], locks=HELD)
    two("lock/unlock,lock,unlock", "lock", [la], [ua, la, ua], locks=HELD)
    two("lock,unlock/lock,unlock", "lock", [la, ua], [la, ua])
    two("unlock/unlock,lock", "lock", [ua], [ua, la], locks=HELD)
    two("lock/unlock,lock;tick", "lock", [la], [ua, la], locks=HELD, ticks=1)
    two("lock,lock b/lock b,lock", "lock", [la, lb], [lb, la])
    two("lock/unlock,lock;users", "lock", [la], [ua, la], locks=BOTH, bu=65534, uids=[65534])
    two("lock/unlock,lock free;users", "lock", [la], [ua, la], bu=65534, uids=[65534])
    two("lock/unlock,lock free;tick", "lock", [la], [ua, la], ticks=1)
    two("lock/unlock,lock,unlock,lock", "lock", [la], [ua, la, ua, la], locks=HELD, big=True)
    s("lock/lock/lock", "lock", [(n, "upload", 0, [la], {}) for n in "ABC"], big=True)
    s("lock/lock/unlock", "lock", [("A", "upload", 0, [la], {}), ("B", "upload", 0, [la], {}), ("C", "upload", 0, [ua], {})], locks=HELD, big=True)
    s("lock/unlock/unlock,lock", "lock", [("A", "upload", 0, [la], {}), ("B", "upload", 0, [ua], {}), ("C", "upload", 0, [ua, la], {})], locks=HELD, big=True)
    # listings
    two("lock/list", "list", [la], [ls], locks=[["b", 0, 400]])
    two("unlock/list", "list", [ua], [ls], locks=THREE, bm="download")
    two("unlock,lock/list 1", "list", [ua, la], [ls1], locks=THREE)
    two("lock c,unlock/list", "list", [lc, ub], [ls], locks=[["a", 0, 500], ["b", 0, 400]])
    two("unlock,lock/path", "list", [ua, la], [pa], locks=HELD, bm="download", ticks=1)
    two("lock,unlock/path", "list", [la, ua], [pa])
    two("unlock,lock/list;users", "list", [ua, la], [ls], locks=BOTH, bu=65534, uids=[65534], big=True)
    # the store
    two("put/put", "put", [p1], [p1c])
    two("put/bad", "put", [p1], [bad1])
    two("reput/bad", "put", [p1], [bad1], objs=[B1])
    two("put/short", "put", [p1c], [short1])
    two("put/get", "put", [p1], [g1, g1], bm="download")
    two("reput/get", "put", [p1], [g1], objs=[B1], bm="download")
    two("put/batch", "put", [p1], [b1])
    two("put/batch d", "put", [p1], [b1], bm="download")
    two("put/verify", "put", [p1], [v1, v1x])
    two("put/lock", "put", [p1, la], [la, p2], big=True)
    s("put/put/get", "put", [("A", "upload", 0, [p1], {}), ("B", "upload", 0, [p1], {}), ("C", "download", 0, [g1], {})], big=True)
    # kills
    for nm, reqs, locks in (("lock", [la], []), ("unlock", [ua], HELD), ("lock,unlock", [la, ua], []), ("unlock,lock", [ua, la], HELD), ("lock held", [la], HELD)):
        s("kill %s" % nm, "kill", [("A", "upload", 0, reqs, {"killed": True}), PROBE, PROBE_D], locks=locks, kills=1)
    s("kill in lock/lock", "kill", [("A", "upload", 0, [la], {"killed": True}), ("B", "upload", 0, [la], {}), PROBE, PROBE_D], kills=1)
    s("kill in lock/unlock", "kill", [("A", "upload", 0, [la], {"killed": True}), ("B", "upload", 0, [ua], {"killed": True}), PROBE, PROBE_D], locks=HELD, kills=2, big=True)
    for nm, reqs, objs in (("put", [p1c], []), ("reput", [p1], [B1]), ("bad", [bad1], []), ("rebad", [bad1], [B1])):
        s("kill %s" % nm, "killput", [("A", "upload", 0, reqs, {"killed": True}), PROBE_O, PROBE_G], objs=objs, kills=1)
    s("kill in put/put", "killput", [("A", "upload", 0, [p1], {"killed": True}), ("B", "upload", 0, [p1], {"killed": True}), PROBE_O, PROBE_G], kills=2, big=True)
    # failing calls
    for nm, reqs, locks in (("lock", [la, ls, ua], []), ("unlock", [ua, la, ls], HELD), ("lock held", [la, ua], HELD), ("list", [ls, la], THREE), ("path", [pa, ua], HELD)):
        s("fail %s" % nm, "fault", [("A", "upload", 0, reqs, {"faulty": True}), PROBE, PROBE_D], locks=locks, faults=1)
    for nm, reqs, objs in (("put", [p1c, v1], []), ("reput", [p1, b1], [B1]), ("bad", [bad1, b1], [])):
        s("fail %s" % nm, "faultput", [("A", "upload", 0, reqs, {"faulty": True}), PROBE_O, PROBE_G], objs=objs, faults=1)
    s("fail asks", "faultput", [("A", "upload", 0, [v1, b1, p2], {"faulty": True}), ("B", "download", 0, [b1, g1, g1], {"faulty": True}), PROBE_O, PROBE_G], objs=[B1], faults=1)
    s("fail twice lock", "fault", [("A", "upload", 0, [la, ua, la], {"faulty": True}), PROBE, PROBE_D], faults=2, big=True)
    s("fail in lock/lock", "fault", [("A", "upload", 0, [la], {"faulty": True}), ("B", "upload", 0, [la], {}), PROBE, PROBE_D], faults=1, big=True)
    s("fail in put/put", "faultput", [("A", "upload", 0, [p1], {"faulty": True}), ("B", "upload", 0, [p1], {}), PROBE_O, PROBE_G], faults=1, big=True)
    generated(s)
    return S


def generated(s):
    """All pairs of short request sequences, and all triples of requests."""
    import itertools
    L = {"lock": la, "unlock": ua, "list": ls, "path": pa}
    seqs = [x for n in (1, 2) for x in itertools.product(L, repeat=n)]
    for a, b in itertools.combinations_with_replacement(seqs, 2):
        for held in (False, True):
            for two in (False, True):
                nm = "%s | %s%s%s" % (",".join(a), ",".join(b), "; held" if held else "", "; users" if two else "")
                s(nm, "gen2", [("A", "upload", 0, [L[x] for x in a], {}), ("B", "upload", 65534 if two else 0, [L[x] for x in b], {})],
                  locks=HELD if held else [], uids=[65534] if two else [], big=True, ticks=1 if two and held else 0)
    for a, b, c in itertools.combinations_with_replacement(L, 3):
        for held in (False, True):
            s("%s | %s | %s%s" % (a, b, c, "; held" if held else ""), "gen3",
              [(n, "upload", 0, [L[x]], {}) for n, x in zip("ABC", (a, b, c))], locks=HELD if held else [], big=True)
    U = {"put": p1, "bad": bad1, "verify": v1, "batch": b1, "short": short1}
    D = {"get": g1, "batch d": b1}
    sess = [("upload", x) for n in (1, 2) for x in itertools.product(U, repeat=n)] + [("download", x) for n in (1, 2) for x in itertools.product(D, repeat=n)]
    for (ma, a), (mb, b) in itertools.combinations_with_replacement(sess, 2):
        if not {"put", "bad", "short"} & (set(a) | set(b)):
            continue
        for has in (False, True):
            s("%s | %s%s" % (",".join(a), ",".join(b), "; present" if has else ""), "genput",
              [("A", ma, 0, [dict(U, **D)[x] for x in a], {}), ("B", mb, 0, [dict(U, **D)[x] for x in b], {})], objs=[B1] if has else [], big=True)
    for a in seqs:  # killed or failing while another is at work
        for b in L:
            for held in (False, True):
                for how in ("kill", "fail"):
                    s("%s %s | %s%s" % (how, ",".join(a), b, "; held" if held else ""), "gen" + how,
                      [("A", "upload", 0, [L[x] for x in a], {"killed": True, "faulty": True}), ("B", "upload", 0, [L[b]], {}), PROBE],
                      locks=HELD if held else [], kills=how == "kill", faults=how == "fail", big=True)
    for a in sess[:30]:
        for b in ("put", "bad", "verify"):
            for has in (False, True):
                for how in ("kill", "fail"):
                    s("%s %s | %s%s" % (how, ",".join(a[1]), b, "; present" if has else ""), "gen%sput" % how,
                      [("A", a[0], 0, [U[x] for x in a[1]], {"killed": True, "faulty": True}), ("B", "upload", 0, [U[b]], {}), PROBE_O],
                      objs=[B1] if has else [], kills=how == "kill", faults=how == "fail", big=True)


GROUPS = {
    "C01": "put killput faultput genput genkillput genfailput", "C02": "put killput genput genkillput",
    "C03": "put killput faultput genput genkillput genfailput", "C04": "put genput", "C05": "put genput", "C06": "put genput",
    "C08": "lock list gen2 gen3", "C09": "lock fault gen2 gen3 genfail", "C10": "kill genkill", "C11": "list gen2 gen3", "C12": "lock gen2 gen3",
    "C13": "lock list gen2", "C14": "list gen2", "C15": "lock put gen2", "C18": "lock put gen2 genput", "C22": "fault faultput genfail genfailput",
    "C24": "put lock killput kill fault faultput genput genkill genfail genkillput",
}

# Flaws of the design that have to be found: name -> the properties of which at
# least one has to be reported (all of them are looked for together).
BUGS = {
    "shared temporary name": ("kill", {"C10"}),
    "one attempt": ("lock", {"C09"}),
    "published by renaming": ("lock", {"C08"}),
    "details read back": ("lock", {"C13"}),
    "temporary file kept": ("lock", {"C24"}),
    "lock written in place": ("kill", {"C10"}),
    "lost race ignored": ("lock", {"C12"}),
    "no cursor": ("list", {"C11"}),
    "directory order": ("list", {"C11"}),
    "stops at a vanished lock": ("list", {"C11"}),
    "contents not checked": ("put", {"C01", "C02"}),
    "object written in place": ("put", {"C01"}),
    "failed renaming ignored": ("faultput", {"C22"}),
}


def to_json(sc):
    procs = {}
    for name, mode, uid, reqs, o in sc["procs"]:
        rs = []
        for r in reqs:
            d = split_requests(r)[0]
            body = sum(1 for p in d["pk"] if p["t"] == "B")
            packets, _, _ = split_packets(r)
            if "|" in packets:
                body = sum(1 for p in packets[packets.index("|") + 1:] if p not in ("|", "."))
            rs.append({"pk": d["pk"], "bl": d["bl"], "bo": d["bo"], "end": d["end"], "chunks": body})
        procs[name] = {"mode": mode, "user": user_name(uid), "deny": False, "reqs": rs, "phase": o.get("phase", 1),
                       "killed": o.get("killed", False), "faulty": o.get("faulty", False)}
    return {"name": sc["name"], "procs": procs, "kills": int(sc["kills"]), "faults": int(sc["faults"]), "ticks": sc["ticks"],
            "ids": {p: lock_id(p.encode()) for p in PATHS},
            "locks": [[p, user_name(u), age] for p, u, age in sc["locks"]],
            "objs": [[sha(blob(*b)), str(b[1])] for b in sc["objs"]]}


def run(names, watch="ALL", bug="none", monitor=True, edges=False, workers=4, timeout=900, heap="6g"):
    S = scenarios()
    rundir = os.path.join(runner.BUILD, "run", str(os.getpid()))
    os.makedirs(rundir, exist_ok=True)
    f = os.path.join(rundir, "scen-%d.ndjson" % time.time_ns())
    with open(f, "w") as fh:
        for n in names:
            fh.write(json.dumps(to_json(S[n])) + "\n")
    env = {"SCENS": f, "BUG": bug, "MONITOR": "yes" if monitor else "no", "EDGES": "yes" if edges else "no", "WATCH": watch}
    try:
        return runner.tlc("LfsDesign", "LfsDesign.cfg", env, workers=workers, heap=heap, timeout=timeout)
    finally:
        os.unlink(f)


# ------------------------------------------------ schedules for the real server

def graph(out):
    """The edges printed by TLC, by scenario: {number: {from: [(to, p, action, status)]}}."""
    G = {}
    for l in out.splitlines():
        if l.startswith('"{'):
            d = json.loads(json.loads(l))
            f, t = tuple(d["f"]), tuple(d["t"])
            G.setdefault(d["n"], {}).setdefault(f, []).append((t, d["m"]["p"], d["m"]["a"], d["m"]["st"]))
    for g in G.values():
        for f in g:
            g[f].sort()
    return G


def cover(g, rng, limit):
    """Walks from the initial state that together take every edge (or the first
    `limit` of them); each goes on until nobody can move."""
    targets = {e[0] for es in g.values() for e in es}
    init = [f for f in g if f not in targets]
    assert len(init) == 1, len(init)
    init = init[0]
    how = {init: None}
    order = [init]
    for f in order:
        es = list(g.get(f, ()))
        rng.shuffle(es)
        for e in es:
            if e[0] not in how:
                how[e[0]] = (f, e)
                order.append(e[0])
    todo = [(f, e) for f in order for e in g.get(f, ())]
    total = len(todo)
    rng.shuffle(todo)
    done = set()
    walks = []
    for f, e in todo:
        if (f, e) in done:
            continue
        if limit and len(walks) >= limit:
            break
        pre = []
        x = f
        while how[x] is not None:
            pre.append((how[x][0], how[x][1]))
            x = how[x][0]
        walk = pre[::-1] + [(f, e)]
        x = e[0]
        while x in g:
            es = g[x]
            new = [y for y in es if (x, y) not in done]
            y = rng.choice(new or es)
            walk.append((x, y))
            x = y[0]
        done.update(walk)
        walks.append([e for _, e in walk])
    return walks, len(done), total


def script_of(sc, walk):
    sessions = {}
    steps = []
    for name, mode, uid, reqs, o in sc["procs"]:
        data = [r.decode("latin-1") for r in reqs]
        if o.get("phase", 1) == 1:
            steps.append(["open", name, mode, uid, 0o022])
            steps.append(["sendeach", name, data])
        else:
            sessions[name] = [mode, uid, data, {}]
    steps = [x for x in steps if x[0] == "open"] + [x for x in steps if x[0] == "sendeach"]
    steps.append(["moves", sessions, [[p, a] for _, p, a, _ in walk]])
    steps.append(["finishall"])
    return {"world": {"locks": sc["locks"], "objs": [list(b) for b in sc["objs"]], "uids": sc["uids"]}, "steps": steps}


def expected(walk):
    r = {}
    for _, p, _, st in walk:
        if st:
            r.setdefault(p, []).append(st)
    return r


def names_for(pid, tier, seed, sample):
    """The scenarios of a property: in the quick tier the small ones and some of the generated ones."""
    S = scenarios()
    gs = GROUPS.get(pid, "").split()
    if tier == "thorough":
        return [n for n in S if S[n]["group"] in gs]
    base = [n for n in S if S[n]["group"] in gs and not S[n]["big"]]
    more = [n for n in S if S[n]["group"] in gs and S[n]["big"]]
    return base + random.Random("names/%s/%s" % (pid, seed)).sample(more, min(sample, len(more)))


def check(pid, tier, seed):
    """Results of the exhaustive exploration of the design, and of its flawed variants."""
    res = []
    names = names_for(pid, tier, seed, 40)
    if not names:
        return res
    t0 = time.time()
    bad, out = run(names, watch=pid)
    if bad:
        raise RuntimeError("the design violates %s:\n%s" % (pid, out[-3000:]))
    gen, dist = runner.tlc_states(out)
    res.append({"scenarios": len(names), "examples": names[:12], "states": dist, "transitions": gen, "seconds": round(time.time() - t0, 1), "violations": 0})
    if tier == "thorough":
        S = scenarios()
        for b, (gr, want) in sorted(BUGS.items()):
            if pid in want:
                bad, out = run([n for n in S if S[n]["group"] == gr], watch=pid, bug=b)
                if not bad:
                    raise RuntimeError("the flaw '%s' is not found by %s" % (b, pid))
                res.append({"flawed design": b, "states": 0, "transitions": 0, "found": True})
    return res


def tasks(pid, tier, seed):
    """Walks through the design's state graph as executions of the real server."""
    names = names_for(pid, tier, seed, 12)
    if not names:
        return []
    S = scenarios()
    bad, out = run(names, monitor=False, edges=True)
    G = graph(out)
    rng = random.Random("design/%s/%s" % (pid, seed))
    tasks = []
    for n, name in enumerate(names, 1):
        per = max(3, 150 // len(names)) if tier == "quick" else None if not S[name]["group"].startswith("gen") else 25
        walks, done, total = cover(G[n], rng, per)
        for i in range(0, len(walks), 10):
            tasks.append(("t_walks", name, walks[i:i + 10]))
    return tasks
