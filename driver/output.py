"""Output that is not taken in full (C32): runs the real programs in front of
full devices, file size limits and readers that go away, and has TLC judge
them against Output.tla."""
import fcntl
import json
import os
import random
import re
import subprocess
import threading
import time
from concurrent.futures import ThreadPoolExecutor

import core
import gitrepo
import runner

BIN = os.path.join(runner.BUILD, "target", "debug")
F_SETPIPE_SZ = 1031
CAP = 4096


class Stage:
    """What the programs work on."""

    def __init__(self, tmp, many):
        self.d = gitrepo.init(os.path.join(tmp, "w"))
        imp = gitrepo.Import()
        for k in range(5):
            imp.ref(b"refs/heads/" + (b"main" if k == 0 else b"topic/%d" % k), imp.commit(b"subject %d\n\nbody\n" % k, 1600000000 + k))
        imp.run(self.d)
        for b in ("main", "topic/3", "topic/1", "main", "topic/4"):
            gitrepo.git(self.d, "checkout", "-q", "-f", b)
        self.many = gitrepo.init(os.path.join(tmp, "m"))
        imp = gitrepo.Import()
        c = imp.commit(b"x\n", 1600000000)
        for k in range(many):
            imp.ref(b"refs/heads/" + b"a-branch-with-a-name-of-some-length-%05d" % k, c)
        imp.run(self.many)
        gitrepo.git(self.many, "pack-refs", "--all")
        self.w = core.World(base=tmp)
        self.data = random.Random("output").randbytes(150001)
        self.oid = self.w.put_object(self.data)
        for k in range(40):
            self.w.put_lock(b"dir/file-%02d" % k)
        self.w.settle()
        for root, dirs, files in os.walk(self.w.lfs):
            for n in [root] + [os.path.join(root, f) for f in files]:
                os.chown(n, 0, 0)

    def program(self, prog):
        """Arguments, working directory and input."""
        rr, at, srv = (os.path.join(BIN, n) for n in ("git-recent-refs", "git-at", "git-lfs-transfer"))
        v = core.r_version()
        return {
            "visits": ([rr], self.d, b""), "committed": ([rr, "--sort=committerdate"], self.d, b""), "authored": ([rr, "--sort=authordate"], self.d, b""),
            "many": ([rr, "--sort=committerdate"], self.many, b""), "at": ([at, "topic/3", "subject"], self.d, b""), "show": ([at, "--show", "topic/3", "subject"], self.d, b""),
            "capabilities": ([srv, self.w.repo, "upload"], self.w.dir, b""),
            "get": ([srv, self.w.repo, "download"], self.w.dir, v + core.r_get(self.oid)),
            "locks": ([srv, self.w.repo, "upload"], self.w.dir, v + core.r_list() + core.r_quit()),
            "batch": ([srv, self.w.repo, "download"], self.w.dir, v + core.r_batch([(self.oid, 5)] + [(core.sha(b"%d" % k), k) for k in range(60)]))}[prog]


def env(st):
    e = dict(gitrepo.ENV, HOME=st.w.home, RUST_BACKTRACE="0")
    del e["GIT_CONFIG_GLOBAL"]
    return e


def cells(b):
    return [b[i:i + 64].decode("latin-1") for i in range(0, len(b), 64)]


def amount(room, want):
    nl = want.find(b"\n") + 1 or len(want)
    return {"nothing": 0, "a byte": 1, "within a line": min(len(want), nl + nl // 2), "a line": nl, "all but a byte": max(0, len(want) - 1),
            "all": len(want), "more": len(want) + 1000}[room]


# A process that another thread starts has, for a moment, copies of all pipes that exist then: none
# of them may be one that nobody is said to read.
STARTING = threading.Lock()


def started(args, **kw):
    with STARTING:
        return subprocess.Popen(args, **kw)


def run(tmp, st, n, case, want, room=None):
    args, cwd, inp = st.program(case["prog"])
    f = os.path.join(tmp, "out%d" % n)
    if room is None:
        room = amount(case["room"], want)
    else:
        case = dict(case, room="so much")
    got, most, keeps = b"", room, True
    kw = dict(cwd=cwd, env=env(st), stderr=subprocess.PIPE)

    def ended(p):
        try:
            p.communicate(None, timeout=60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return 999
        return p.returncode

    # the input is a file, so that nobody has to write it meanwhile
    with open(f + ".in", "wb") as i:
        i.write(inp)
    with open(f + ".in", "rb") as i:
        if case["sink"].startswith("limit"):
            how = ["sh", "-c", "trap '' 25; exec \"$@\"", "sh"] if case["sink"] == "limit" else []
            with open(f, "wb") as o:
                code = ended(started(["prlimit", "--fsize=%d:%d" % (room, room), "--core=0:0"] + how + args, stdin=i, stdout=o, **kw))
            with open(f, "rb") as o:
                got = o.read()
            os.unlink(f)
        elif case["sink"] == "device":
            with open("/dev/full", "wb") as o:
                code = ended(started(args, stdin=i, stdout=o, **kw))
        else:
            with STARTING:
                r, w = os.pipe()
                fcntl.fcntl(w, F_SETPIPE_SZ, CAP)
                if case["sink"] == "gone":
                    os.close(r)
                    r = -1
            p = started(args, stdin=i, stdout=w, **kw)
            os.close(w)
            if case["sink"] == "slow":
                most = -1
                while True:
                    if len(got) < 5 * CAP:
                        time.sleep(.02)
                    b = os.read(r, 1000)
                    if not b:
                        break
                    got += b
            elif case["sink"] == "leaves":
                while len(got) < room:
                    b = os.read(r, min(1000, room - len(got)))
                    if not b:
                        break
                    got += b
                most, keeps = (room + CAP, False) if room <= len(want) else (-1, True)
            if r >= 0:
                os.close(r)
            code = ended(p)
    os.unlink(f + ".in")
    return {"label": "%s: %s takes %s (%d of %d bytes)" % (case["prog"], case["sink"], case["room"], room, len(want)),
            "want": cells(want), "got": cells(got), "size": len(want), "most": most, "keeps": keeps, "code": code}


def check(rep):
    th = rep.tier == "thorough"
    rnd = random.Random("%s %s" % (rep.pid, rep.seed))
    design = []
    for cfg, wrong in (("Output.cfg", False), ("OutputDeep.cfg", False), ("OutputHasty.cfg", True)):
        bad, out = runner.tlc("Output", cfg, workers=4, timeout=300)
        if bad != wrong:
            raise RuntimeError("%s: the specification itself is wrong:\n%s" % (cfg, out[-3000:]))
        if not wrong:
            gen, dist = runner.tlc_states(out)
            design.append({"model": cfg[:-4], "states": dist, "transitions": gen})
        if cfg == "Output.cfg":
            cases = sorted({json.loads('"' + m + '"') for m in re.findall(r'^"CASE (.*)"$', out, re.M)})
            cases = [json.loads(c) for c in cases]
    tmp = gitrepo.scratch("verif-out-")
    try:
        st = Stage(tmp, 4000 if th else 1200)
        want = {}
        for p in sorted({c["prog"] for c in cases}):
            args, cwd, inp = st.program(p)
            r = subprocess.run(args, cwd=cwd, env=env(st), input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            want[p] = r.stdout
        jobs = [(tmp, st, n, c, want[c["prog"]]) for n, c in enumerate(cases)]
        for k in range(400 if th else 60):
            p = rnd.choice(sorted(want))
            c = {"prog": p, "sink": rnd.choice(["limit", "limit by signal", "leaves"]), "room": "all"}
            jobs.append((tmp, st, len(jobs), c, want[p], rnd.randrange(0, len(want[p]) + 2)))
        with ThreadPoolExecutor(12) as ex:
            recs = list(ex.map(lambda j: run(*j), jobs))
    finally:
        gitrepo.remove(tmp)
    viol = runner.judge_records("OutputTrace", recs, rep.pid, 300)
    rep.cov.update({"design": design, "cases": len(cases), "states": sum(d["states"] for d in design) + len(recs),
                    "transitions": sum(d["transitions"] for d in design) + len(recs), "traces_validated_against_impl": len(recs),
                    "cut_short": sum(1 for r in recs if r["code"]), "samples": [{"label": r["label"], "code": r["code"]} for r in recs[:: max(1, len(recs) // 6)][:6]]})
    rep.assume = ["a write that the kernel has taken is taken"]
    if viol is not None:
        r = recs[viol]
        for f in ("want", "got"):
            r[f] = r[f][:20]
        rep.violation({"property": rep.pid, "label": r["label"], "record": r}, "%s\n%s" % (r["label"][:600], json.dumps(r)[:2500]))
