"""Which repository a server serves (C30): starts the real server with every
form of path and operation, and has TLC judge what it did (Where.tla)."""
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import core
import gitrepo
import runner

BIN = os.path.join(runner.BUILD, "target", "debug", "git-lfs-transfer")
DATA = {1: b"the first object\n", 2: b"\0\1another one" * 7}
SHA = {k: core.sha(v) for k, v in DATA.items()}


class Place:
    """A scratch directory with the three repositories and all the ways to them."""

    def __init__(self, d):
        self.d = d
        os.makedirs(d)
        j = self.j
        git = lambda *a: subprocess.run(["git"] + list(a), env=gitrepo.ENV, check=True, capture_output=True)
        git("init", "-q", "--bare", j("B.git"))
        git("init", "-q", j("W"))
        git("init", "-q", "--bare", j("D.git"))
        git("init", "-q", "--bare", j("decoy.git"))
        for p in ("W/dir", "empty", "bad", "G", "G2/deep", "disk", "home"):
            os.makedirs(j(p))
        for p, t in (("file", "hello\n"), ("bad/.git", "gitdir: /nonexistent/repo\n"), ("G/.git", "gitdir: %s\n" % j("W/.git")),
                     ("G2/deep/.git", "gitdir: ../../W/.git\n")):
            with open(j(p), "w") as f:
                f.write(t)
        for n, t in ((b"link", "B.git"), (b"linklink", "link"), (b"caf\xe9.git", "B.git"), (b"a b.git", "B.git"), (b"-B.git", "B.git"),
                     (b"new\nline.git", "B.git"), (b"wlink", "W"), (b"dangling", "nowhere"), (b"D.git/lfs", "../disk")):
            os.symlink(t, os.path.join(d.encode(), n))
        for root, dirs, files in os.walk(d.encode()):
            for n in [root] + [os.path.join(root, f) for f in dirs + files]:
                os.lchown(n, core.RUNAS, core.RUNAS)
        B = d.encode()
        # form -> (directory or None for any, path)
        self.forms = {
            "absolute": (None, B + b"/B.git"), "slash": (None, B + b"/B.git/"), "slashes": (None, B + b"//B.git///"), "relative": (d, b"B.git"),
            "dot": (j("B.git"), b"."), "dotdot": (j("W/dir"), b"../../B.git"), "link": (None, B + b"/link"), "linklink": (d, b"linklink"),
            "latin1": (None, B + b"/caf\xe9.git"), "space": (d, b"a b.git"), "dash": (d, b"./-B.git"), "newline": (d, b"new\nline.git"),
            "tree": (None, B + b"/W"), "treerel": (d, b"W/"), "treedot": (j("W"), b"."), "gitdir": (None, B + b"/W/.git"),
            "gitfile": (None, B + b"/G"), "gitfilerel": (None, B + b"/G2/deep"), "treelink": (d, b"wlink"), "disk": (None, B + b"/D.git"),
            "missing": (None, B + b"/nothing.git"), "empty": (None, b""), "emptydir": (None, B + b"/empty"), "file": (None, B + b"/file"),
            "dangling": (None, B + b"/dangling"), "objects": (None, B + b"/B.git/objects"), "subdir": (None, B + b"/W/dir"),
            "lfsdir": (None, B + b"/B.git/lfs"), "badgitfile": (None, B + b"/bad"), "head": (None, B + b"/B.git/HEAD"),
        }

    def j(self, p):
        return os.path.join(self.d, p)

    def stores(self):
        r = {}
        for n, p in (("B", "B.git/lfs"), ("W", "W/.git/lfs"), ("D", "disk")):
            objs, locks = [], []
            for root, _, files in os.walk(self.j(p)):
                for f in files:
                    q = os.path.join(root, f)
                    rel = os.path.relpath(q, self.j(p))
                    b = open(q, "rb").read()
                    o = [k for k in DATA if rel == "objects/%s/%s/%s" % (SHA[k][:2], SHA[k][2:4], SHA[k]) and b == DATA[k]]
                    k = [x for x in "pq" if rel == "locks/" + core.lock_id(x.encode())]
                    if o:
                        objs += o
                    elif k:
                        locks += k
                    else:
                        objs.append(0)
            r[n] = {"objs": objs, "locks": locks}
        return r

    def elsewhere(self):
        """Whether anything of LFS lies where it does not belong."""
        bad = []
        for root, dirs, files in os.walk(self.d):
            if "lfs" in dirs and os.path.relpath(root, self.d) not in ("B.git", "W/.git", "D.git"):
                bad.append(os.path.relpath(root, self.d))
            if root != self.j("D.git") and os.path.islink(os.path.join(root, "lfs")):
                bad.append(os.path.relpath(root, self.d))
        return sorted(bad)


def session(op, s):
    """The session that Where.tla describes; a server for neither operation is sent the upload."""
    if op == "download":
        r = [core.r_get(SHA[1]), core.r_get(SHA[2]), core.r_batch([(SHA[1], len(DATA[1])), (SHA[2], len(DATA[2]))]), core.r_list()]
    else:
        r = [core.r_put(DATA[s["put"]]), core.r_lock(s["lock"].encode())] + ([core.r_unlock(core.lock_id(s["lock"].encode()))] if s["free"] else []) \
            + [core.r_verify(SHA[k], len(DATA[k])) for k in (1, 2)] + [core.r_list()]
    return core.r_version() + b"".join(r) + core.r_quit(), len(r)


def answers(op, s, out):
    """What the output says, in the words of the specification."""
    pk, rest, state = core.split_packets(out)
    groups, cur = [], []
    for p in pk:
        if p == ".":
            groups.append(cur)
            cur = []
        else:
            cur.append(p)
    if cur or rest:
        return ["cut"]
    if groups and groups[0] and isinstance(groups[0][0], bytes) and groups[0][0].startswith(b"version"):
        groups = groups[1:]    # what is advertised
    if not groups:
        return []
    if groups[0][:1] != [b"status 200\n"]:
        return ["no version: %r" % groups[0]]
    r = []
    kinds = ["get1", "get2", "batch", "list"] if op == "download" else ["put", "lock"] + (["unlock"] if s["free"] else []) + ["verify", "verify", "list"]
    if len(groups) != len(kinds) + 2:
        return ["%d answers" % len(groups)]
    for k, g in zip(kinds, groups[1:]):
        st = g[0][7:10].decode() if g and isinstance(g[0], bytes) and g[0].startswith(b"status ") else "?"
        body = g[g.index("|") + 1:] if "|" in g else []
        if k in ("put", "lock", "unlock"):
            r.append(st)
        elif k == "verify":
            r.append({"200": "yes", "404": "no"}.get(st, st))
        elif k.startswith("get"):
            ok = b"".join(x for x in body if isinstance(x, bytes)) == DATA[int(k[3])]
            r.append(("yes" if ok else "other bytes") if st == "200" else {"404": "no"}.get(st, st))
        elif k == "batch":
            r.append(" ".join({b"download": "yes", b"noop": "no"}.get(x.split()[2], "?") if isinstance(x, bytes) and len(x.split()) > 2 else "?" for x in body))
        else:
            r.append("".join(sorted(x.split()[2].decode() for x in body if isinstance(x, bytes) and x.startswith(b"path "))) if st == "200" else st)
    return r


def start(pl, rnd, form, op, s):
    cwd, path = pl.forms[form]
    cwd = cwd or pl.j(rnd.choice([".", "W", "B.git", "empty", "W/dir"]))
    env = {"PATH": "/usr/bin:/bin", "HOME": pl.j("home"), "GIT_CONFIG_NOSYSTEM": "1"}
    decoys = {"GIT_DIR": pl.j("decoy.git"), "GIT_WORK_TREE": pl.j("empty"), "GIT_OBJECT_DIRECTORY": pl.j("decoy.git/objects"), "GIT_COMMON_DIR": pl.j("decoy.git"),
              "GIT_NAMESPACE": "x", "GIT_CEILING_DIRECTORIES": pl.d, "GIT_LFS_PATH": pl.j("empty"), "TMPDIR": pl.j("empty"),
              "SSH_ORIGINAL_COMMAND": "git-lfs-transfer %s download" % pl.j("decoy.git")}
    used = rnd.sample(sorted(decoys), rnd.choice([0, 0, 1, 2, len(decoys)]))
    env.update({k: decoys[k] for k in used})
    inp, _ = session(op, s)
    try:
        r = subprocess.run([BIN.encode(), path, op.encode()], cwd=cwd, env=env, input=inp, capture_output=True, timeout=60,
                           user=core.RUNAS, group=core.RUNAS, extra_groups=[], umask=0o022)
        code, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        code, out, err = 999, b"", b""
    return {"form": form, "op": op, "s": s, "code": code, "said": err != b"", "answers": answers(op, s, out), "stores": pl.stores(),
            "elsewhere": pl.elsewhere(), "how": "in %s with %s" % (os.path.relpath(cwd, pl.d), ",".join(used))}


def tour(tmp, n, rnd, starts):
    pl = Place(os.path.join(tmp, "w%d" % n))
    steps = []
    for f, op, s in starts:
        steps.append(start(pl, rnd, f, op, s))
    gitrepo.remove(pl.d)
    return {"kind": "tour", "label": "tour %d: %s" % (n, " / ".join("%s %s" % (f, json.dumps(op)) for f, op, s in starts)), "steps": steps}


# ------------------------------------------------------- starting together

def edges():
    bad, out = runner.tlc("Startup", "StartupTwo.cfg", workers=4, timeout=300)
    if bad:
        raise RuntimeError("the specification itself is wrong:\n" + out[-3000:])
    read = lambda w: [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"%s (.*)"$' % w, out, re.M)]
    key = lambda st: json.dumps([sorted(st[0])] + st[1:], sort_keys=True)
    g = {}
    for e in read("EDGE"):
        g.setdefault(key(e["from"]), {})[e["s"] + e["call"] + e["dir"]] = dict(e, to=key(e["to"]))
    return g, sorted({key(x) for x in read("INIT")}), [runner.tlc_states(out)]


def walks(g, inits, rnd, limit):
    """Walks from initial states to the end which cover the edges (as far as limit walks do)."""
    fresh = {(k, a) for k in g for a in g[k]}
    total = len(fresh)
    res = []
    while fresh and len(res) < limit:
        # the nearest edge that was not taken yet, from any initial state
        seen = {i: None for i in inits}
        todo = list(inits)
        rnd.shuffle(todo)
        goal = None
        while todo and goal is None:
            k = todo.pop(0)
            for a in rnd.sample(sorted(g.get(k, {})), len(g.get(k, {}))):
                if (k, a) in fresh:
                    goal = (k, a)
                    break
                t = g[k][a]["to"]
                if t not in seen:
                    seen[t] = (k, a)
                    todo.append(t)
        if goal is None:
            break
        path = [goal]
        while seen[path[0][0]] is not None:
            path.insert(0, seen[path[0][0]])
        k = g[goal[0]][goal[1]]["to"]
        while k in g:
            c = [a for a in sorted(g[k]) if (k, a) in fresh] or sorted(g[k])
            a = rnd.choice(c)
            path.append((k, a))
            k = g[k][a]["to"]
        fresh -= set(path)
        res.append((json.loads(path[0][0])[0], [g[k][a] for k, a in path]))
    return res, total - len(fresh), total


def together(job):
    """Two servers start on a repository with some of the directories, as the walk says."""
    have, steps, label = job
    with core.World() as w:
        for d in sorted(have, key=lambda x: x != "lfs"):
            os.makedirs(os.path.join(w.lfs, d if d != "lfs" else ""), exist_ok=True)
        w.settle()
        tr = core.Trace(w, label)
        srv = {n: core.Srv(w, tr, "upload" if n == "A" else "download", startup=True) for n in "AB"}
        same = 0
        try:
            def begun(s):
                while s.code is None and s.stop["call"] not in ("mkdir", "stdin"):
                    s.step()
            for s in srv.values():
                begun(s)
            for e in steps:
                s = srv[e["s"]]
                if s.code is not None or s.stop["call"] == "stdin":
                    continue
                if e["call"] == "kill":
                    s.kill()
                    continue
                same += s.stop["call"] == e["call"] and s.stop["p1"].endswith("/lfs" + ("" if e["dir"] == "lfs" else "/" + e["dir"]))
                s.step()
            srv["C"] = core.Srv(w, tr, "upload", startup=True)    # and one that comes later
            res = []
            wanted = {"A": [200, 200, 201, 200], "C": [200, 200, 200], "B": [200, 200]}
            for n in "ABC":
                s = srv[n]
                s.run()
                if s.code is None:
                    s.send(core.r_version() + (core.r_put(DATA[1]) + core.r_lock(b"p") if n == "A" else core.r_put(DATA[2]) if n == "C" else b"") + core.r_quit())
                    s.end()
                    s.run()
                res.append({"killed": s.killed, "code": -1 if s.code is None else s.code, "wanted": wanted[n],
                            "answers": [e["st"] for e in tr.ev if e["k"] == "res" and e["s"] == s.name]})
        finally:
            for s in srv.values():
                s.finish()
        dirs = ["lfs"] + sorted(os.listdir(w.lfs)) if os.path.isdir(w.lfs) else []
    return {"kind": "start", "label": label, "servers": res, "dirs": dirs, "same": [same, sum(e["call"] != "kill" for e in steps)]}


def check(rep):
    th = rep.tier == "thorough"
    bad, out = runner.tlc("Where", "Where.cfg", workers=4, timeout=300)
    if bad:
        raise RuntimeError("the specification itself is wrong:\n" + out[-3000:])
    gen, dist = runner.tlc_states(out)
    m = json.loads(json.loads('"' + re.search(r'^"CASE (.*)"$', out, re.M).group(1) + '"'))
    leads, ops = m["leads"], sorted(m["ops"])
    good, none = sorted(f for f in leads if leads[f]), sorted(f for f in leads if not leads[f])
    rnd = random.Random("C30 %s" % rep.seed)

    def any_s(r):
        return {"put": r.choice([1, 2]), "lock": r.choice("pq"), "free": r.random() < .25}
    starts = [(f, o) for f in good for o in ("upload", "download")] + [(f, o) for f in none for o in ("upload", "download")]
    starts += [(f, o) for f in ("absolute", "tree", "disk") for o in ops if o not in ("upload", "download")]
    starts += [(f, rnd.choice(ops)) for f in none + good for _ in range(4 if th else 1)]
    starts = starts * (30 if th else 3)
    rnd.shuffle(starts)
    tours = []
    while starts:
        k = rnd.randint(8, 20)
        tours.append([(f, o, any_s(rnd)) for f, o in starts[:k]])
        starts = starts[k:]
    tmp = gitrepo.scratch("verif-wh-")
    os.chmod(tmp, 0o755)
    try:
        with ThreadPoolExecutor(8) as ex:
            recs = list(ex.map(lambda a: tour(tmp, a[0], random.Random("%s %d" % (rep.seed, a[0])), a[1]), enumerate(tours)))
    finally:
        gitrepo.remove(tmp)
    g, inits, (started,) = edges()
    ways, reached, total = walks(g, inits, rnd, 4000 if th else 250)
    jobs = [(h, e, "starting together %d, with %s: %s" % (n, ",".join(h), " ".join("%s:%s %s" % (x["s"], x["call"], x["dir"]) for x in e))) for n, (h, e) in enumerate(ways)]
    with mp.Pool(8) as pool:
        recs += pool.map(together, jobs, 4)
    same = [sum(r["same"][k] for r in recs if r["kind"] == "start") for k in (0, 1)]
    design = [{"model": "Where", "states": dist, "transitions": gen}, {"model": "StartupTwo", "states": started[1], "transitions": started[0]}]
    for cfg, wrong in (("StartupThree.cfg", False), ("StartupHasty.cfg", True)):
        bad, out = runner.tlc("Startup", cfg, workers=4, timeout=300)
        if bad != wrong:
            raise RuntimeError("%s: the specification itself is wrong:\n%s" % (cfg, out[-3000:]))
        if not wrong:
            x = runner.tlc_states(out)
            design.append({"model": cfg[:-4], "states": x[1], "transitions": x[0]})
    viol = runner.judge_records("WhereTrace", recs, rep.pid, 300)
    n = sum(len(r["steps"]) if r["kind"] == "tour" else 1 for r in recs)
    rep.cov.update({"design": design, "forms": len(leads), "operations": len(ops), "starts": sum(len(r["steps"]) for r in recs if r["kind"] == "tour"),
                    "served": sum(1 for r in recs if r["kind"] == "tour" for x in r["steps"] if x["answers"]),
                    "starts_together": {"schedules": len(ways), "edges": [reached, total], "system_calls": same[1], "system_calls_as_in_the_design": same[0]},
                    "states": sum(d["states"] for d in design) + n, "transitions": sum(d["transitions"] for d in design) + n, "traces_validated_against_impl": len(recs), "samples": [{"label": r["label"][:300]} for r in recs[:3]]})
    rep.assume = ["the server runs as the owner of the repositories"]
    if viol is not None:
        r = recs[viol]
        rep.violation({"property": rep.pid, "label": r["label"], "record": r}, "%s\n%s" % (r["label"][:600], json.dumps(r)[-2500:]))
