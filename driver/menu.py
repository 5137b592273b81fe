"""The request-level specification (spec/LfsMenu.tla): TLC explores it, and tours
through its state graph are taken with the real server."""
import json
import os
import random
import time

import runner
from core import *
from script import blob, execute

D1, D2 = blob(77, 3000), b""
O1, O2, OX = sha(D1), sha(D2), sha(b"never stored")
W1 = blob(79, 3000)
PATHS = [b"a", b"dir/b \xe9"]
IDS = [lock_id(p) for p in PATHS]

SESSIONS = {"U": ("upload", 0), "V": ("upload", 65534), "D": ("download", 0)}


def L(b):
    return b.decode("latin-1")


def menu():
    """name -> packets of the request."""
    q = request_bytes
    M = {}
    M["put 1"] = r_put(D1)
    M["put 1 small packets"] = r_put(D1, pk=700)
    M["put 2 empty"] = r_put(D2)
    M["put 1 wrong"] = r_put(W1, oid=O1)
    M["put 1 short"] = r_put(D1[:-1], oid=O1, size=3000)
    M["put 1 long"] = r_put(D1 + b"x", oid=O1, size=3000)
    M["put 1 size"] = r_put(D1, size=2999)
    M["put 2 wrong"] = r_put(b"x", oid=O2)
    M["put no size"] = q(b"put-object %s\n" % O1.encode(), [], body=[D1])
    M["put bad size"] = q(b"put-object %s\n" % O1.encode(), [b"size=x\n"], body=[D1])
    M["put bad oid"] = q(b"put-object %s\n" % O1.encode()[:-1], [b"size=3000\n"], body=[D1])
    M["put upper"] = q(b"put-object %s\n" % O1.upper().encode(), [b"size=3000\n"], body=[D1])
    M["put no body"] = q(b"put-object %s\n" % O1.encode(), [b"size=3000\n"])
    M["put twice size"] = q(b"put-object %s\n" % O1.encode(), [b"size=3000\n", b"size=3000\n"], body=[D1])
    M["verify 1"] = r_verify(O1, 3000)
    M["verify 1 wrong"] = r_verify(O1, 3001)
    M["verify 2"] = r_verify(O2, 0)
    M["verify unknown"] = r_verify(OX, 12)
    M["verify no size"] = q(b"verify-object %s\n" % O1.encode())
    M["verify bad size"] = q(b"verify-object %s\n" % O1.encode(), [b"size=-1\n"])
    M["get 1"] = r_get(O1)
    M["get 2"] = r_get(O2)
    M["get unknown"] = r_get(OX)
    M["get bad"] = q(b"get-object ../../x\n")
    M["batch"] = r_batch([(O1, 1), (O2, 0), (O1, 3000), (OX, 7)])
    M["batch none"] = r_batch([])
    M["batch one"] = r_batch([(O2, 99)])
    M["batch bad line"] = q(b"batch\n", [b"hash-algo=sha256\n"], lines=[b"%s 1\n" % O1.encode(), b"%s\n" % O2.encode()])
    M["batch sha1"] = q(b"batch\n", [b"hash-algo=sha1\n"], lines=[b"%s 1\n" % O1.encode()])
    M["batch no lines"] = q(b"batch\n", [b"hash-algo=sha256\n"])
    for n, p in enumerate(PATHS):
        M["lock %d" % n] = r_lock(p)
        M["unlock %d" % n] = r_unlock(IDS[n])
        M["path %d" % n] = r_list(path=p)
        M["cursor %d" % n] = r_list(cursor=IDS[n])
        M["cursor %d limit" % n] = r_list(1, IDS[n])
    M["lock no path"] = q(b"lock\n", [b"refname=refs/heads/main\n"])
    M["lock no ref"] = q(b"lock\n", [b"path=a\n"])
    M["lock delim"] = q(b"lock\n", [b"path=a\n", b"refname=x\n"], lines=[])
    M["lock no equals"] = q(b"lock\n", [b"path=a\n", b"refname=x\n", b"path\n"])
    M["unlock unknown"] = r_unlock("0" * 64)
    M["unlock short"] = r_unlock(IDS[0][:63])
    M["unlock upper"] = r_unlock(IDS[0].upper())
    M["unlock nothing"] = q(b"unlock\n")
    M["list"] = r_list()
    M["list 1"] = r_list(1)
    M["list 2"] = r_list(2)
    M["list 200"] = r_list(200)
    M["list 0"] = q(b"list-lock\n", [b"limit=0\n"])
    M["list x"] = q(b"list-lock\n", [b"limit=x\n"])
    M["cursor f"] = r_list(cursor="f" * 64)
    M["cursor 0"] = r_list(cursor="0")
    M["path none"] = r_list(path=b"none")
    M["version"] = r_version()
    M["version 2"] = q(b"version 2\n")
    M["unknown"] = q(b"lock-all\n", [b"path=a\n"])
    M["nothing"] = FLUSH
    return M


def spec_input():
    M = menu()
    ms = []
    for n, r in M.items():
        d = split_requests(r)[0]
        ms.append({"pk": d["pk"], "bl": d["bl"], "bo": d["bo"], "end": d["end"]})
    return {"menu": ms, "sessions": {s: {"mode": m, "user": user_name(u)} for s, (m, u) in SESSIONS.items()},
            "ids": {L(p): lock_id(p) for p in PATHS + [b"none"]}}


def explore(last, edges):
    rundir = os.path.join(runner.BUILD, "run", str(os.getpid()))
    os.makedirs(rundir, exist_ok=True)
    f = os.path.join(rundir, "menu-%d.ndjson" % time.time_ns())
    with open(f, "w") as fh:
        fh.write(json.dumps(spec_input()) + "\n")
    try:
        bad, out = runner.tlc("LfsMenu", "LfsMenu.cfg", {"MENU": f, "EDGES": "yes" if edges else "no", "LAST": last}, workers=4, heap="6g")
    finally:
        os.unlink(f)
    if bad:
        raise RuntimeError("the request-level specification violates its laws:\n" + out[-3000:])
    return out


def graph(out):
    """{state: [(next, session, request, edge)]}"""
    G = {}
    for l in out.splitlines():
        if l.startswith('"{'):
            d = json.loads(json.loads(l))
            G.setdefault(tuple(d["f"]), {})[(d["s"], d["k"])] = (tuple(d["t"]), d)
    return G


def tours(G, rng, length, limit=None):
    """Walks from the initial state that together take every edge (or `limit` of
    them): on to an edge not taken yet, by the shortest way."""
    init = next(iter(G))  # the one TLC printed first
    todo = {s: list(es) for s, es in G.items()}
    for s in sorted(todo):
        todo[s].sort()
        rng.shuffle(todo[s])
    left = sum(len(x) for x in todo.values())
    taken = 0
    walks = []
    while left and not (limit and taken >= limit):
        walk = []
        x = init
        while len(walk) < length and left:
            if todo[x]:
                way = [todo[x].pop()]
                left -= 1
                taken += 1
            else:
                way = _way(G, x, todo, rng)
                if way is None:
                    break
            for k in way:
                walk.append((k, G[x][k][1]))
                x = G[x][k][0]
        if not walk:
            break
        walks.append([d for _, d in walk])
    return walks, taken


def _way(G, x, todo, rng):
    """The shortest way to a state with an edge to be taken."""
    how = {x: None}
    order = [x]
    for s in order:
        if todo[s]:
            way = []
            while how[s] is not None:
                s, k = how[s]
                way.append(k)
            return way[::-1]
        for k, (t, _) in G[s].items():
            if t not in how:
                how[t] = (s, k)
                order.append(t)
    return None


def script_of(walk):
    M = list(menu().values())
    steps = [["open", s, m, u, 0] for s, (m, u) in sorted(SESSIONS.items())]
    for d in walk:
        steps += [["send", d["s"], L(M[d["k"] - 1])], ["run", d["s"]]]
    steps.append(["finishall"])
    return {"world": {"uids": [65534]}, "steps": steps}


def plain(e):
    """An answer without what the request-level specification leaves out."""
    no = lambda xs: [x for x in xs if not x.startswith("locked-at")]
    if e["st"] >= 400 and e["st"] != 409:
        return [e["st"], [], [], "", ""]
    return [e["st"], no(e["args"]), [] if e["st"] == 409 else no(e["data"]), e.get("dn", ""), e.get("do", "")]


def agree(walk, ev):
    """How many answers and stores are the ones of the specification; the first that is not."""
    i = 0
    objs, locks = set(), set()
    ok = 0
    first = None
    it = iter(ev)
    want_o, want_l = [], []
    for d in walk:
        res = None
        for e in it:
            if e["k"] == "fs":
                objs, locks = sorted(e["objs"]), sorted(e["locks"])
            elif e["k"] == "res":
                res = e
                break
        want_o = sorted(d["o"]) if d["c"] else want_o
        want_l = sorted(d["l"]) if d["d"] else want_l
        a = d["a"]
        isdata = res is not None and a["dn"] != ""
        want = plain({"st": a["st"], "args": a["args"], "data": a["data"], "dn": a["dn"], "do": a["do"]})
        got = plain(res) if res else None
        if got and not isdata:
            got[3] = got[4] = ""
        if got and isdata:
            got[2] = []
        if got == want and (list(objs), list(locks)) == (want_o, want_l) and res["s"] == d["s"]:
            ok += 1
        elif first is None:
            first = (i, list(menu())[d["k"] - 1], d["s"], want, got, want_o, want_l, sorted(objs), sorted(locks))
        i += 1
    return ok, first


PROPS = ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C14", "C15", "C17"]


def tasks(pid, tier, seed):
    """Every edge of the graph; in the thorough tier after every kind of request."""
    if pid not in PROPS:
        return []
    rng = random.Random("menu/%s/%s" % (pid, seed))
    out = []
    for last, limit, length, share in (("none", None, 120, 0.15),) if tier == "quick" else (("none", None, 120, 1), ("kind", 100000, 300, 0.05)):
        walks, taken = tours(graph(explore(last, True)), rng, length, limit)
        flags = [rng.random() < share for _ in walks]
        out += [("t_menu", walks[i:i + 5], flags[i:i + 5]) for i in range(0, len(walks), 5)]
    return out


def replay(walks, flags):
    """The executions that are to be judged: those that do not agree, and the flagged ones."""
    out = []
    for w, f in zip(walks, flags):
        x = execute(script_of(w), "tour " + " ".join("%s:%d" % (d["s"], d["k"]) for d in w))
        ok, first = agree(w, x["ev"])
        x["menu"] = (len(w), ok)
        x["first"] = first
        if ok == len(w) and not f:
            x["ev"] = []
        out.append(x)
    return out
