"""git recent-refs (C28, C29): carries out histories of git operations, records
what the real program lists, and has TLC judge it against RecentRefs.tla."""
import json
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

import gitrepo
import runner

BIN = os.path.join(runner.BUILD, "target", "debug", "git-recent-refs")
BASE = 1600000000
GIT = gitrepo.git


def recent(d, *args):
    env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "TZ": "UTC", "GIT_CEILING_DIRECTORIES": os.path.dirname(d)}
    try:
        r = subprocess.run([BIN] + list(args), cwd=d, env=env, capture_output=True, timeout=60)
        return r.returncode, r.stdout.decode("latin-1")
    except subprocess.TimeoutExpired:
        return -99, ""


# ------------------------------------------------------------------ visits

NOISE = ["checkout: moving from main to topic/a", "checkout: moving from topic/a to x", "plain", "moving from main to b", "x\n\ncheckout: moving from a to b"]


# what other commands write into the log
OTHER = ["rebase (start): checkout main", "merge topic/a: Fast-forward", "pull: fast-forward", "Branch: renamed refs/heads/main to refs/heads/b",
         "checkouts: moving from main to b", "Checkout: moving from main to topic/a", "am: checkout: moving from main to topic/a",
         "checkout moving from main to b", "rebase (finish): returning to refs/heads/main", "moving from main to b", "checkout", "commit (merge): checkout: moving from main to b"]


class Repo:
    """A repository, and the commits by number."""

    def __init__(self, d, branches, n=2, bare=False):
        self.d = gitrepo.init(d, branch=branches[0])
        imp = gitrepo.Import()
        m = []
        for k in range(n):
            m.append(imp.commit(b"commit %d\n" % (k + 1), BASE + k, m[-1:]))
        for b in branches:
            imp.ref(b"refs/heads/" + b.encode("latin-1"), m[-1])
        self.ids = imp.run(self.d)
        self.num = {self.ids[k]: k for k in range(1, n + 1)}
        self.n = n
        self.how = 0
        GIT(self.d, "reset", "-q", "--hard")
        open(os.path.join(self.d, ".git", "logs", "HEAD"), "w").close()

    def lines(self, out, names):
        res = []
        for l in out.split("\n")[:-1]:
            if l.startswith("refs/heads/"):
                res.append({"k": "ref", "v": l[11:]})
            elif l in self.num:
                res.append({"k": "id", "v": self.num[l]})
            else:
                res.append({"k": "other", "v": l})
        if out and not out.endswith("\n"):
            res.append({"k": "other", "v": out})
        return res

    def look(self, rev_arg=None, cwd=None):
        code, out = recent(cwd or self.d, *([rev_arg] if rev_arg else []))
        return {"code": code, "lines": self.lines(out, None)}

    def do(self, a, how):
        d, b = self.d, a["b"].encode("latin-1")
        k = a["a"]
        if k == "checkout":
            GIT(d, *([["checkout", "-q", b, "--"], ["switch", "-q", b]][how % 2]))
        elif k == "detach":
            c = self.ids[a["c"]]
            if os.path.exists(d + "/.git/HEAD") and open(d + "/.git/HEAD").read().strip() == c:
                return  # git sometimes logs such a checkout and sometimes not
            dirty = [["checkout", "-q", "--detach", c], ["checkout", "-q", c + "^0"], ["switch", "-q", "--detach", c[:20]]]
            if how % 4 == 3:
                dirty.append(["checkout", "-q", c + "^{commit}"])
            if a.get("text"):
                dirty = [["checkout", "-q", a["text"]]]
            GIT(d, *dirty[how % len(dirty)])
        elif k == "create":
            GIT(d, *([["checkout", "-q", "-b", b], ["switch", "-q", "-c", b]][how % 2]))
        elif k == "orphan":
            GIT(d, "checkout", "-q", "--orphan", b)
        elif k == "delete":
            GIT(d, "branch", "-q", "-D", b)
            if how % 3 == 1:
                GIT(d, "pack-refs", "--all")
        elif k == "branch":
            GIT(d, "branch", b, "HEAD")
        elif k == "commit":
            self.n += 1
            GIT(d, "commit", "-q", "--allow-empty", "-m", (a.get("msg") or NOISE[how % len(NOISE)]) + "\n\n%d" % self.n)
            i = GIT(d, "rev-parse", "HEAD").decode().strip()
            self.ids.append(i)
            self.num[i] = self.n
        elif k == "rename":
            GIT(d, "branch", "-m", b)
        elif k == "reset":
            if how % 4 < 2:
                GIT(d, "reset", "-q", ["--soft", "--hard"][how % 2], "HEAD")
            else:
                GIT(d, "update-ref", "-m", OTHER[how // 4 % len(OTHER)], "HEAD", "HEAD")
        elif k == "forget":
            GIT(d, "reflog", "expire", "--expire=now", "--all")
        elif k == "look":
            pass


def session(tmp, n, label, acts, branches=("main",), look_all=False, tags=()):
    r = Repo(os.path.join(tmp, "s%d" % n), list(branches))
    for t in tags:
        GIT(r.d, "tag", t)
    rec = []
    for k, a in enumerate(acts):
        r.do(a, n + k * 7)
        seen = look_all or k == len(acts) - 1
        rec.append({"a": a["a"], "b": a["b"], "c": a["c"], "seen": seen,
                    "out": r.look(None if (n + k) % 3 else "--sort=visitdate") if seen else {"code": 0, "lines": []}})
    gitrepo.remove(r.d)
    return {"kind": "visit", "label": label + ": " + ", ".join(a["a"] + (" " + a["b"] if a["b"] else "") + (" c%d" % a["c"] if a["c"] else "") for a in acts),
            "branches": list(branches), "n": 2, "acts": rec}


NAMES = ["main", "topic/a", "to", "x-to-y", "deadbeef", "HEAD.x", "topic/b", "v1.0", "caf\xc3\xa9", "a-1-g0123456", "heads/x", "0" * 39, "refs/y"]


def random_acts(rnd, length):
    have, head, n = {"main"}, ("main", 0), 2
    acts = []
    commits = [1, 2]
    unborn = False
    while len(acts) < length:
        free = [x for x in NAMES if x not in have]
        if unborn and rnd.random() < .3:
            acts.append({"a": "commit", "b": "", "c": 0})
            n += 1
            commits.append(n)
            have.add(head[0])
            unborn = False
            continue
        k = rnd.choice(["orphan"] * (rnd.random() < .6) + ["checkout"] * 4 + ["detach"] * 3 + ["create"] * 2 + ["delete", "branch", "commit", "commit", "rename", "reset"] + (["forget"] if rnd.random() < .1 else []))
        a = {"a": k, "b": "", "c": 0}
        if unborn and k in ("create", "branch", "rename", "reset", "commit"):
            continue
        if k == "checkout":
            if not have:
                continue
            a["b"] = rnd.choice(sorted(have))
            head = (a["b"], 0)
            unborn = False
        elif k == "detach":
            a["c"] = rnd.choice(commits)
            head = ("", a["c"])
            unborn = False
        elif k == "orphan":
            free = [x for x in free if x != head[0]]
            if not free:
                continue
            a["b"] = rnd.choice(free)
            head = (a["b"], 0)
            unborn = True
        elif k in ("create", "branch"):
            if not free:
                continue
            a["b"] = rnd.choice(free)
            have.add(a["b"])
            if k == "create":
                head = (a["b"], 0)
        elif k == "delete":
            c = sorted(have - {head[0]})
            if not c:
                continue
            a["b"] = rnd.choice(c)
            have.discard(a["b"])
        elif k == "rename":
            if not head[0] or not free:
                continue
            have.discard(head[0])
            a["b"] = rnd.choice(free)
            have.add(a["b"])
            head = (a["b"], 0)
        elif k == "commit":
            n += 1
            commits.append(n)
        acts.append(a)
    return acts


def written(tmp, n, rnd, length):
    """A log as git would have written it, of many entries."""
    names = ["main", "b", "topic/a", "gone"]
    r = Repo(os.path.join(tmp, "w%d" % n), names)
    acts = []
    head, log = "main", []
    for k in range(length):
        x = rnd.random()
        if x < .7:
            to = rnd.choice(names + ["1", "2"])
            if to == head:
                continue
            f, t = [r.ids[int(v)] if v.isdigit() else v for v in (head, to)]
            log.append("checkout: moving from %s to %s" % (f, t))
            acts.append({"a": "detach", "b": "", "c": int(to)} if to.isdigit() else {"a": "checkout", "b": to, "c": 0})
            head = to
        else:
            log.append(rnd.choice(OTHER + ["reset: moving to HEAD", "reset: moving to main"]))
            acts.append({"a": "reset", "b": "", "c": 0})
    with open(os.path.join(r.d, ".git", "logs", "HEAD"), "w") as f:
        for k, m in enumerate(log):
            f.write("%s %s N <n@example.com> %d %s\t%s\n" % (r.ids[2], r.ids[2], BASE + k // 3, rnd.choice(["+0000", "-0830"]), m))
    with open(os.path.join(r.d, ".git", "HEAD"), "w") as f:
        f.write(r.ids[int(head)] + "\n" if head.isdigit() else "ref: refs/heads/%s\n" % head)
    rec = [{"a": a["a"], "b": a["b"], "c": a["c"], "seen": k == len(acts) - 1, "out": {"code": 0, "lines": []}} for k, a in enumerate(acts)]
    rec[-1]["out"] = r.look()
    to = "main" if head != "main" else "b"
    r.do({"a": "checkout", "b": to, "c": 0}, 0)
    r.do({"a": "delete", "b": "gone" , "c": 0}, 0)
    rec += [{"a": "checkout", "b": to, "c": 0, "seen": True, "out": {"code": 0, "lines": []}}, {"a": "delete", "b": "gone", "c": 0, "seen": True, "out": r.look()}]
    rec[-2]["seen"] = False
    gitrepo.remove(r.d)
    return {"kind": "visit", "label": "a log of %d entries" % length, "branches": names, "n": 2, "acts": rec}


def spoken(tmp, n):
    """Checkouts of revisions, and commits, whose text looks like a log entry."""
    A = lambda a, b="", c=0, **kw: dict({"a": a, "b": b, "c": c}, **kw)
    acts = [A("branch", "b"), A("create", "topic"), A("commit", msg="checkout: moving from b to topic"),
            A("detach", c=3, text=":/checkout: moving from b to top"), A("checkout", "main"), A("commit", msg="go from here to there"),
            A("detach", c=4, text=":/from here to there"), A("checkout", "b"), A("commit", msg="checkout: moving from topic to b"),
            A("delete", "main"), A("detach", c=5), A("checkout", "topic"), A("look")]
    return session(tmp, n, "text", acts, look_all=True)


def elsewhere(tmp, n):
    """From a subdirectory and from a linked worktree."""
    r = Repo(os.path.join(tmp, "e%d" % n), ["main", "b", "c"])
    os.makedirs(r.d + "/sub/x")
    rec = []
    for b in ("b", "c", "b", "main"):
        r.do({"a": "checkout", "b": b, "c": 0}, 0)
        rec.append({"a": "checkout", "b": b, "c": 0, "seen": True, "out": r.look(cwd=r.d + "/sub/x")})
    one = {"kind": "visit", "label": "from a subdirectory", "branches": ["main", "b", "c"], "n": 2, "acts": rec}
    GIT(r.d, "worktree", "add", "-q", r.d + "-wt", "c")
    w = []
    r2 = r.d + "-wt"
    code, out = recent(r2)
    first = {"code": code, "lines": r.lines(out, None)}
    w.append({"a": "look", "b": "", "c": 0, "seen": True, "out": first})
    GIT(r2, "branch", "d")
    for b in ("d", "b", "d"):
        GIT(r2, "checkout", "-q", b)
        code, out = recent(r2)
        w.append({"a": "checkout", "b": b, "c": 0, "seen": True, "out": {"code": code, "lines": r.lines(out, None)}})
    two = {"kind": "visit", "label": "from a linked worktree", "branches": ["c", "main", "b", "d"], "n": 2, "acts": w}
    return [one, two]


# ------------------------------------------------------------------ by date

def dated(tmp, n, rnd, size):
    d = gitrepo.init(os.path.join(tmp, "d%d" % n), bare=n % 3 == 0)
    imp = gitrepo.Import()
    m = []
    dates = {}
    span = rnd.choice([3, 1000, 10 ** 9])
    for k in range(rnd.randint(1, 8)):
        cd, ad = BASE + rnd.randint(-span, span), BASE + rnd.randint(-span, span)
        if rnd.random() < .1:
            cd = 5000000000
        if rnd.random() < .1:
            ad = rnd.choice([0, 5000000001])
        x = imp.commit(b"c%d\n" % k, cd, rnd.sample(m, min(len(m), rnd.randint(0, 2))), adate=ad,
                       tz=rnd.choice(["+0000", "+1400", "-1200", "+0530"]))
        m.append(x)
        dates[x] = (cd, ad)
    ids = imp.run(d)
    gd = d if n % 3 == 0 else d + "/.git"
    tree = GIT(d, "rev-parse", ids[m[0]] + "^{tree}").decode().strip()
    blob = GIT(d, "hash-object", "-w", "--stdin", input=b"zzz").decode().strip()
    refs = []

    def tag(obj, typ, when):
        t = "object %s\ntype %s\ntag t\ntagger T <t@example.com> %d +0000\n\nmsg\n" % (obj, typ, when)
        return GIT(d, "mktag", input=t.encode()).decode().strip()
    used = set()
    for k in range(size):
        ns = rnd.choice(["refs/heads/", "refs/heads/", "refs/tags/", "refs/remotes/origin/", "refs/notes/", "refs/", "refs/pull/1/", "refs/heads/deep/er/"])
        name = ns + rnd.choice(["a", "b", "main", "HEAD", "z9", "caf\xc3\xa9", "with-dash", "x.y", "k"]) + (str(k) if rnd.random() < .6 else "")
        if name in used or any(u.startswith(name + "/") or name.startswith(u + "/") for u in used):
            continue
        used.add(name)
        c = rnd.choice(m)
        kind = rnd.choice(["commit"] * 4 + ["tag", "tag", "nested", "tree", "blob", "tagtree", "sym", "symbroken"])
        nm = name.encode("latin-1")
        if ns.startswith("refs/heads/") and not kind.startswith("sym"):
            kind = "commit"
        if kind == "commit":
            obj = ids[c]
        elif kind == "tag":
            obj = tag(ids[c], "commit", BASE + rnd.randint(-span, span))
        elif kind == "nested":
            obj = tag(tag(ids[c], "commit", BASE), "tag", BASE + span)
        elif kind == "tree":
            obj = tree
        elif kind == "blob":
            obj = blob
        elif kind == "tagtree":
            obj = tag(tree, "tree", BASE)
        else:
            tgt = rnd.choice(sorted(used - {name}) or ["refs/heads/none"]) if kind == "sym" else "refs/heads/none"
            GIT(d, "symbolic-ref", nm, tgt.encode("latin-1"))
            refs.append({"name": name, "sym": True, "commit": False, "date": 0, "c": 0})
            continue
        GIT(d, "update-ref", nm, obj)
        ok = kind in ("commit", "tag", "nested")
        refs.append({"name": name, "sym": False, "commit": ok, "date": 0, "c": c if ok else 0})
        if rnd.random() < .1:
            GIT(d, "pack-refs", "--all")
    GIT(d, "symbolic-ref", "HEAD", "refs/heads/main")
    if rnd.random() < .3:
        GIT(d, "update-ref", "--no-deref", "HEAD", ids[m[0]])
    res = []
    for sort, which in (("committerdate", 0), ("authordate", 1)):
        order = sorted({v[which] for v in dates.values()})
        rr = [dict(r, date=order.index(dates[r["c"]][which]) if r["c"] else 0) for r in refs]
        code, out = recent(d, "--sort=" + sort)
        res.append({"kind": "date", "label": "%s, repository %d of %d references" % (sort, n, len(refs)), "refs": rr, "code": code,
                    "lines": out.split("\n")[:-1] if out.endswith("\n") or not out else [out]})
    gitrepo.remove(d)
    return res


def odd_names(tmp):
    """Names that are not UTF-8: (records, known finding)."""
    r = Repo(os.path.join(tmp, "odd"), ["main", "caf\xe9"])
    rec = []
    for b in ("caf\xe9", "main"):
        r.do({"a": "checkout", "b": b, "c": 0}, 0)
    v = {"kind": "visit", "label": "non-UTF-8 branch", "branches": ["main", "caf\xe9"], "n": 2,
         "acts": [{"a": "checkout", "b": "caf\xe9", "c": 0, "seen": False, "out": {"code": 0, "lines": []}},
                  {"a": "checkout", "b": "main", "c": 0, "seen": True, "out": r.look()}]}
    code, out = recent(r.d, "--sort=committerdate")
    d = {"kind": "date", "label": "non-UTF-8 reference", "code": code, "lines": out.split("\n")[:-1],
         "refs": [{"name": "refs/heads/" + b, "sym": False, "commit": True, "date": 0, "c": 1} for b in ("main", "caf\xe9")]}
    gitrepo.remove(r.d)
    return {"C28": v, "C29": d}


def cases(tier):
    bad, out = runner.tlc("RecentGen", "RecentGen4.cfg" if tier == "thorough" else "RecentGen3.cfg", workers=4, timeout=300)
    if bad:
        raise RuntimeError("the specification itself is wrong:\n" + out[-3000:])
    gen, dist = runner.tlc_states(out)
    cs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"CASE (.*)"$', out, re.M)]
    cs.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return cs, gen, dist


def check(rep):
    pid, tier, seed = rep.pid, rep.tier, rep.seed
    cov = rep.cov
    th = tier == "thorough"
    rnd = random.Random("%s %s" % (pid, seed))
    tmp = gitrepo.scratch("verif-rr-")
    ds = dt = 0
    try:
        odd = odd_names(tmp)[pid]
        with ThreadPoolExecutor(8) as ex:
            if pid == "C28":
                cs, gen, dist = cases(tier)
                cov["design"] = [{"model": "RecentGen", "states": dist, "transitions": gen}]
                b, out = runner.tlc("RecentGen", "RecentDeep.cfg", workers=8, timeout=600)
                if b:
                    raise RuntimeError("the specification itself is wrong:\n" + out[-3000:])
                g2, d2 = runner.tlc_states(out)
                cov["design"].append({"model": "RecentDeep", "states": d2, "transitions": g2})
                ds, dt = dist + d2, gen + g2
                jobs = [(session, tmp, n, "case", c) for n, c in enumerate(cs)]
                for k in range(400 if th else 30):
                    jobs.append((session, tmp, 100000 + k, "history", random_acts(rnd, rnd.randint(5, 40)), ("main",), True,
                                 ("v1.0", "topic/a", "main") if k % 3 == 0 else ()))
                jobs.append((session, tmp, 150000, "long history", random_acts(rnd, 160)))
                for k, m in enumerate([300, 1100, 2500] if th else [300, 1100]):
                    jobs.append((written, tmp, 160000 + k, random.Random("%s %d" % (seed, k)), m))
                jobs.append((spoken, tmp, 200000))
                jobs.append((elsewhere, tmp, 200001))
            else:
                jobs = [(dated, tmp, n, random.Random("%s %d" % (seed, n)), 2 + n % 17) for n in range(2500 if th else 130)]
                jobs.append((dated, tmp, 9001, random.Random(seed), 240))
            recs = []
            for x in ex.map(lambda j: j[0](*j[1:]), jobs):
                recs += x if isinstance(x, list) else [x]
    finally:
        gitrepo.remove(tmp)
    viol = runner.judge_records("RecentTrace", recs, pid, 300)
    known = runner.judge_records("RecentTrace", [odd], pid, 300)
    if known is not None:
        if not runner.known(pid, odd["label"]):
            viol, recs = (0, [odd]) if viol is None else (viol, recs)
        else:
            print("KNOWN-FINDING: property=%s %s" % (pid, runner.known(pid, odd["label"])))
    looks = sum(sum(1 for a in r["acts"] if a["seen"]) if r["kind"] == "visit" else 1 for r in recs)
    cov.update({"states": ds + len(recs), "transitions": dt + looks, "traces_validated_against_impl": len(recs), "listings": looks,
                "samples": [json.loads(json.dumps(r)[:0] or json.dumps({"label": r["label"][:200]})) for r in recs[:: max(1, len(recs) // 4)][:4]]})
    rep.assume = ["the repository is not changed while it is listed"]
    if viol is not None:
        r = recs[viol]
        rep.violation({"property": pid, "label": r["label"], "record": r}, "%s\n%s" % (r["label"][:600], json.dumps(r)[-1500:]))
