"""git recent-refs and its pager (C31): runs the real program with a terminal
(or a pipe) as its output and recording pagers, and has TLC judge the runs."""
import json
import os
import pty
import random
import re
import subprocess
import termios
import threading
import time
import tty
from concurrent.futures import ThreadPoolExecutor

import gitrepo
import recent
import runner

ALL = 99
MARK = b"\0-- end of the recording --\0"
# at the head of a setting: notes whether its bytes came through, UTF-8 or not
NOTES = ["", "", r"""[ "$(printf '\303\251')" = %s ] || echo altered >>"$REC/who"; """ % "\udcc3\udca9",
         r"""[ "$(printf '\377\303z')" = %s ] || echo altered >>"$REC/who"; """ % "\udcff\udcc3z",
         r"""[ "$(printf 'a  b#')" = 'a  b#' ] || echo altered >>"$REC/who"; """ + "# x\n"]
NAMES = {"a": "a", "b": "b", "less": "less"}


def repo(tmp, n):
    """A repository of n branches, and n dates."""
    d = gitrepo.init(os.path.join(tmp, "r%d" % n))
    imp = gitrepo.Import()
    for k in range(n):
        imp.ref(b"refs/heads/" + (b"main" if k == 0 else b"branch-with-a-long-enough-name-%05d" % k), imp.commit(b"m%d\n" % k, 1600000000 + k))
    imp.run(d)
    for b in ("main", "branch-with-a-long-enough-name-00001", "main")[: 3 if n < 100 else 0]:
        gitrepo.git(d, "checkout", "-q", "-f", b)
    return d


def script(name, want, before, after, note=""):
    """What a pager does: notes that it runs, takes and shows what it wants, and notes its end."""
    take = "cat" if want == ALL else "head -n %d" % want if want else ":"
    return note + 'echo %s >>"$REC/who"; %s%s >"$REC/got"; cat "$REC/got"; %s echo >"$REC/end"' % (
        name, "sleep %s; " % before if before else "", take, "sleep %s;" % after if after else "")


def run(tmp, k, d, case, before, after, sort, where, note=""):
    """One run; where: how core.pager is set."""
    rec = os.path.join(tmp, "rec%d" % k)
    os.makedirs(os.path.join(rec, "bin"))
    os.makedirs(os.path.join(rec, "home"))
    want = case["want"]
    st = case["set"]

    def text(v):
        return script(v, want, before, after, note) if v in NAMES else v
    with open(os.path.join(rec, "bin", "less"), "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write("#!/bin/sh\n" + script("less", want, before, after) + "\n")
    os.chmod(f.name, 0o755)
    env = dict(gitrepo.ENV, REC=rec, HOME=os.path.join(rec, "home"), PATH=os.path.join(rec, "bin") + ":/usr/bin:/bin")
    del env["GIT_CONFIG_GLOBAL"]
    for var, key in (("GIT_PAGER", "git"), ("PAGER", "env")):
        if st[key] != "-":
            env[var] = text(st[key])
    # the setting of the repository goes before the user's
    subprocess.run(["cp", "-a", d, os.path.join(rec, "repo")], check=True)
    d = os.path.join(rec, "repo")
    if st["core"] != "-":
        places = {"local": [("local", st["core"])], "global": [("global", st["core"])],
                  "both": [("local", st["core"]), ("global", "b" if st["core"] == "a" else "a")]}[where]
        for p, v in places:
            f = os.path.join(d, ".git", "config") if p == "local" else os.path.join(rec, "home", ".gitconfig")
            gitrepo.git(d, "config", "-f", f, "core.pager", text(v))
    args = [recent.BIN] + (["--sort=" + sort] if sort else [])
    plain = subprocess.run(args, cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
    early = os.path.exists(os.path.join(rec, "who"))   # a pager without a terminal
    if early and st["tty"]:
        for f in ("who", "got", "end"):
            if os.path.exists(os.path.join(rec, f)):
                os.unlink(os.path.join(rec, f))
    out = []
    if st["tty"]:
        m, s = pty.openpty()
        tty.setraw(s)

        def drain():     # until the mark
            while not out or not out[-1].endswith(MARK):
                b = os.read(m, 65536)
                out[:] = [b"".join(out) + b]
        t = threading.Thread(target=drain)
        p = subprocess.Popen(args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=s, stderr=subprocess.PIPE)
        t.start()
        try:
            code = p.wait(60)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            code = 999
        ended = os.path.exists(os.path.join(rec, "end"))
        p.stderr.close()
        for _ in range(500):    # the pager is given time, should it still be at work
            if os.path.exists(os.path.join(rec, "end")) or not os.path.exists(os.path.join(rec, "who")):
                break
            time.sleep(.01)
        os.write(s, MARK)
        t.join(20)
        os.close(s)
        os.close(m)
        out = [b"".join(out)[:-len(MARK)]]
    else:
        p = subprocess.run(args, cwd=d, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
        out, code = [p.stdout], p.returncode
        ended = True

    def read(f):
        p = os.path.join(rec, f)
        return open(p, "rb").read() if os.path.exists(p) else b""

    def lines(b):
        return b.decode("latin-1").split("\n")[:-1] if b.endswith(b"\n") or not b else [b.decode("latin-1")]
    r = {"set": st, "want": want, "listing": lines(plain.stdout), "who": lines(read("who")), "got": lines(read("got")), "term": lines(b"".join(out)),
         "ended": ended, "code": code}
    r["label"] = "%s core.pager %s, pager takes %s lines of %d, starts after %s s, busy for %s s, %s" % (
        json.dumps(st, sort_keys=True), where, "all" if want == ALL else want, len(r["listing"]), before, after, sort or "by visit")
    gitrepo.remove(rec)
    return r


def check(rep):
    th = rep.tier == "thorough"
    rnd = random.Random("%s %s" % (rep.pid, rep.seed))
    design = []
    for cfg, wrong in (("Pager.cfg", False), ("PagerDeep.cfg", False), ("PagerHasty.cfg", True)):
        bad, out = runner.tlc("Pager", cfg, workers=4, timeout=300)
        if bad != wrong:
            raise RuntimeError("%s: the specification itself is wrong:\n%s" % (cfg, out[-3000:]))
        if not wrong:
            gen, dist = runner.tlc_states(out)
            design.append({"model": cfg[:-4], "states": dist, "transitions": gen})
        if cfg == "Pager.cfg":
            cases = sorted({json.loads('"' + m + '"') for m in re.findall(r'^"CASE (.*)"$', out, re.M)})
            cases = [json.loads(c) for c in cases]
    by = {}
    for c in cases:
        by.setdefault(json.dumps(c["set"], sort_keys=True), []).append(c)
    todo = []
    for k in sorted(by):
        paged = by[k][0]["set"]["tty"] and ([v for v in (by[k][0]["set"][x] for x in ("git", "core", "env")) if v != "-"] or ["less"])[0] not in ("", "cat")
        todo += by[k] if th else rnd.sample(by[k], 3) if paged else [rnd.choice(by[k])] if by[k][0]["set"]["tty"] else rnd.sample(by[k], 1) if rnd.random() < .2 else []
    tmp = gitrepo.scratch("verif-pg-")
    try:
        small, big = repo(tmp, 4), repo(tmp, 2500)
        jobs = []
        for n, c in enumerate(todo):
            paged = c["set"]["tty"]
            b, a = rnd.choice([("", ""), ("", ".15"), (".1", ""), (".1", ".15"), ("", ".15")]) if paged else ("", "")
            large = rnd.random() < .1
            jobs.append((tmp, n, big if large else small, c, b, a, rnd.choice(["committerdate", "authordate"] + ([] if large else [None, None])),
                         rnd.choice(["local", "global", "both"]), rnd.choice(NOTES)))
        with ThreadPoolExecutor(12) as ex:
            recs = list(ex.map(lambda j: run(*j), jobs))
    finally:
        gitrepo.remove(tmp)
    viol = runner.judge_records("PagerTrace", recs, rep.pid, 300)
    rep.cov.update({"design": design, "cases": len(cases), "states": sum(d["states"] for d in design) + len(recs),
                    "transitions": sum(d["transitions"] for d in design) + len(recs), "traces_validated_against_impl": len(recs),
                    "with_pager": sum(1 for r in recs if r["who"]), "samples": [{"label": r["label"]} for r in recs[:: max(1, len(recs) // 4)][:4]]})
    rep.assume = ["pagers are shell commands; the terminal is a pseudo-terminal in raw mode"]
    if viol is not None:
        r = recs[viol]
        for f in ("listing", "got", "term"):
            r[f] = r[f][:20]
        rep.violation({"property": rep.pid, "label": r["label"], "record": r}, "%s\n%s" % (r["label"][:600], json.dumps(r)[:2500]))
