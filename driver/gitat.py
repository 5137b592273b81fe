"""git at (C25, C26, C27): generates histories, patterns and options, runs the
real program on them, and has TLC judge what came out against GitAt.tla."""
import itertools
import json
import os
import random
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import gitrepo
import runner

BIN = os.path.join(runner.BUILD, "target", "debug", "git-at")
BASE = 1600000000

# ---------------------------------------------------------------- patterns
# Each constructor returns (tree for the specification, source text).


def lit(s):
    esc = "".join("\\n" if c == "\n" else ("\\" + c if c in "\\.^$|()[]{}*+?!" else c) for c in s)
    return {"k": "seq", "rs": [{"k": "lit", "c": c} for c in s.encode().decode("latin-1")]}, esc


def byte(n):  # by its number: the pattern itself is always UTF-8
    return {"k": "lit", "c": chr(n)}, "\\x%02x" % n


def seq(*ps):
    return {"k": "seq", "rs": [p[0] for p in ps]}, "".join(g(p) for p in ps)


def alt(*ps):
    return {"k": "alt", "rs": [p[0] for p in ps]}, "(?:" + "|".join(p[1] for p in ps) + ")"


def alt0(*ps):  # at the top, without parentheses
    return {"k": "alt", "rs": [p[0] for p in ps]}, "|".join(p[1] for p in ps)


def g(p):
    return "(?:" + p[1] + ")" if "|" in p[1] and not p[1].startswith("(?") else p[1]


def star(p):
    return {"k": "star", "r": p[0]}, "(?:" + p[1] + ")*"


def plus(p):
    return {"k": "seq", "rs": [p[0], {"k": "star", "r": p[0]}]}, "(?:" + p[1] + ")+"


def opt(p):
    return {"k": "opt", "r": p[0]}, "(?:" + p[1] + ")?"


def look(p, neg=False):
    return {"k": "look", "r": p[0], "neg": neg}, ("(?!" if neg else "(?=") + p[1] + ")"


def one(cs, neg=False):
    return {"k": "one", "cs": list(cs), "neg": neg}, "[" + ("^" if neg else "") + cs.replace("\n", "\\n") + "]"


ANY, WS = ({"k": "any"}, "."), ({"k": "ws"}, "\\s")
BOL, BOL2, BOLM = ({"k": "bol"}, "^"), ({"k": "bol"}, "\\A"), ({"k": "bolm"}, "(?m:^)")
EOL, EOL2, EOLM, EOS = ({"k": "eol"}, "$"), ({"k": "eol"}, "\\Z"), ({"k": "eolm"}, "(?m:$)"), ({"k": "eos"}, "\\z")
WB, NEVER = ({"k": "wb"}, "\\b"), ({"k": "never"}, "(?!)")
EMPTY = ({"k": "seq", "rs": []}, "")

PATTERNS = [
    lit("fix"), lit("body"), lit("b"), EMPTY, NEVER, ANY,
    alt0(lit("body"), lit("nothing")), alt0(seq(BOL, lit("body")), lit("zz")), alt0(lit("zz"), seq(BOL, lit("add"))),
    seq(BOL, lit("add")), seq(BOL, lit("body")), seq(BOL2, lit("fix")), seq(BOLM, lit("body")), seq(BOLM, lit("fix")),
    seq(lit("one"), EOL), seq(lit("body"), EOL), seq(lit("one"), EOL2), seq(lit("one"), EOLM), seq(lit("one"), EOS), seq(lit("body"), EOS),
    seq(lit("one"), lit("\n")), seq(lit("one"), WS), seq(lit("one"), plus(WS), lit("body")), seq(lit("one"), star(ANY), lit("body")),
    seq(lit("one"), star(one("x", True)), lit("body")), seq(WS, lit("body")), seq(lit("add"), WS, lit("one")),
    seq(lit("one"), look(lit("\n"))), seq(lit("one"), look(lit("\n"), True)), seq(lit("one"), look(ANY, True)),
    seq(BOL, EOL), seq(BOL, EOS), seq(BOLM, EOLM), seq(WB, lit("one"), WB), seq(lit("on"), WB), seq(BOL, star(ANY), EOL),
    seq(BOL, star(one("\n", True)), EOS), lit("\n"), seq(lit("\n"), lit("\n")), seq(star(ANY), lit("\n"), star(ANY), EOS),
    alt0(seq(lit("add"), WS, lit("one"), EOL), seq(BOL, lit("x"))), seq(BOL, opt(alt(lit("fixup! "), lit("squash! "))), lit("add")),
    lit("fixup!"), lit("squash! add"), lit("!"), one("q"), seq(one("f", True), lit("ixup")), seq(lit("one"), WS, EOS),
    seq(lit("body"), look(seq(star(one("z", True)), lit("\n"), EOS))), lit("\xe9"), seq(lit("caf"), ANY),
    byte(0xe9), seq(lit("caf"), byte(0xe9)), seq(lit("caf"), ANY, lit(" one")), seq(BOL, byte(0xe9), EOL), seq(BOL, ANY, EOL), byte(0xc3),
    seq(byte(0xc3), byte(0xa9)), seq(BOL, ANY, ANY, lit(" one")), byte(0xff), seq(byte(0xff), ANY, byte(0xfe)), seq(lit("caf"), one(" ", True), WS),
    byte(13), seq(lit("one"), byte(13)), seq(lit("one"), byte(13), EOL), seq(BOL, star(ANY), lit("one"), byte(13), lit("\n")), seq(byte(13), lit("\n"), lit("body")),
    seq(lit("add"), byte(13)), seq(BOLM, lit("one")), seq(lit("body"), byte(13), EOS), byte(12), seq(lit("one"), WS, lit("\n")), seq(lit("one"), WS, EOL), seq(lit("\t"), lit("one")), byte(0x1b), seq(lit("one"), ANY, EOL),
]
MESSAGES = [
    "add one\n", "add one", "add one\n\nbody text\n", "add one\nbody\n", "add one\nbody", "add one \n\nfix in body\n", "fix one\n",
    "one\n", "one", "one\n\nbody one\n", "one\n\nfixup! add one\n", "", "x", "body\n", "body\nadd one\n", "add\none\n", "add\n\none\n\nbody",
    "fixup! add one\n", "squash! add one\n", "fixup!add", "fixup", "squash\n", "fixup add one\n", "fixup ! add\n", "squash! one\n\nbody\n",
    "fixup! squash! one\n\nbody\n", "amend! add one\n", "Fixup! add one\n", "add fixup! one\n", "xfixup! add one\n", "drop! add one\n",
    "a fix\r\n\r\nbody\r\n", "add\tone\n", "caf\xe9 one\n\nbody\n", "\xe9\n", "\xc3\xa9 one\n", "onebody\n", "one body\n", "one  body\nzz\n", "zz\n\n\n", "add one\n\n\n", "add \xff\x80\xfe one\n", "\xff", "\xffixup! add one\n", "fixup! \xe9\n", "one \xc3\n\nb\xc3\xa9\n",
    "add one\r\n\r\nbody\r\n", "one\r\nbody\r\n", "add\rone\n", "one\r", "one\x0c\nbody\n", "add one\r", "fix \x1b[1mone\x1b[m\n", "add one\x85\nbody\n", "one\x01\x7f\n\nbody\n", "add one \t\r\n", "fixup!\r\n", "fixup! one\r\n\r\nbody",
    "squash!\n", "fixup!\n\nadd one\n", "add one\n\nsquash! add one\n", "one\n" + "x" * 120 + "\nbody\n", "y" * 150 + " one\n\nbody\n",
]


def chars(s):
    return list(s)


class Book:
    """The runs to be made, in one scratch repository."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.repo = gitrepo.init(os.path.join(tmp, "r"))
        self.imp = gitrepo.Import()
        self.cases = []
        self.trees = {}

    def history(self, h, msgs, adates=None, tzs=None, encs=None, bare=()):
        """h: parents (1-based lists), date.  Returns the marks."""
        marks = []
        for x in range(len(h["parents"])):
            m = msgs[h["m"][x] - 1] if "m" in h else msgs[x]
            marks.append(self.imp.commit(m.encode("latin-1"), BASE + h["date"][x], [marks[p - 1] for p in h["parents"][x]],
                                         tree=x not in bare, adate=None if adates is None else BASE + adates[x], tz=tzs[x] if tzs else "+0000",
                                         encoding="ISO-8859-1" if any(ord(c) > 127 for c in m) else None))
        return marks

    def run(self, label, h, marks, msgs, start, pattern, ops=(), rev="id", summary=False, nofixup=False, quiet=False, show=None,
            probe=False, kind="run", cwd="r", order=0):
        self.cases.append(dict(label=label, h=h, marks=marks, msgs=msgs, start=start, pattern=pattern, ops=list(ops), rev=rev,
                               summary=summary, nofixup=nofixup, quiet=quiet, show=show, probe=probe, kind=kind, cwd=cwd, order=order))


def argv(c, ids):
    a = []
    if c["summary"]:
        a.append(["--summary", "-s"][c["order"] & 1])
    if c["nofixup"]:
        a.append("--no-fixup")
    if c["quiet"]:
        a.append(["--quiet", "-q"][c["order"] >> 1 & 1])
    if c["show"] is not None:
        a.append("--show")
    pos = []
    if c["rev"] is not None:
        base = ids[c["marks"][c["start"] - 1]] if c["rev"] == "id" else (
            ids[c["marks"][c["start"] - 1]][:12] if c["rev"] == "short" else c["rev"])
        pos.append(base + "".join(o["k"] + (str(o["n"]) if o["n"] != 1 or c["order"] & 4 else "") for o in c["ops"]))
    p = c["pattern"] if isinstance(c["pattern"], str) else c["pattern"][1]
    pos.append(p)
    if any(x.startswith("-") for x in pos):
        a.append("--")
    return pos + a if c["order"] & 8 and not any(x.startswith("-") for x in pos) and "" not in pos else a + pos


def ranks(ds):
    """TLC's integers have 32 bits; only the order of the dates matters."""
    r = {d: k for k, d in enumerate(sorted(set(ds)))}
    return [r[d] for d in ds]


def execute(c, ids, tmp, n):
    cwd = os.path.join(tmp, c["cwd"])
    env = {"PATH": os.path.join(tmp, "bin") + ":/usr/bin:/bin", "HOME": "/nonexistent", "GIT_CEILING_DIRECTORIES": tmp, "TZ": "UTC"}
    log = None
    if c["show"] is not None:
        log = os.path.join(tmp, "show.%d" % n)
        env["SHOW_LOG"], env["SHOW_CODE"] = log, str(c["show"])
    args = argv(c, ids)
    try:
        r = subprocess.run([BIN] + args, cwd=cwd, env=env, capture_output=True, timeout=60)
        code, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        code, out, err = -99, b"(timeout)", b""
    shown = []
    if log and os.path.exists(log):
        shown = open(log).read().split("\n")[:-1]
        os.unlink(log)
    pat = {"k": "never"} if isinstance(c["pattern"], str) else c["pattern"][0]
    h = c["h"] or {"parents": [], "date": []}
    return {"label": c["label"] + " :: git-at " + " ".join(repr(x)[1:-1] for x in args), "kind": c["kind"],
            "h": {"parents": h["parents"], "date": ranks(h["date"])}, "start": c["start"], "ops": c["ops"],
            "ids": [ids[m] for m in c["marks"]], "msgs": [chars(m) for m in c["msgs"]],
            "msg": h.get("m") or list(range(1, len(h["parents"]) + 1)),
            "pattern": pat, "opt": {"summary": c["summary"], "nofixup": c["nofixup"], "quiet": c["quiet"], "show": c["show"] is not None},
            "showcode": c["show"] or 0, "shown": shown, "probe": c["probe"],
            "out": out.decode("latin-1"), "code": code, "err": len(err) > 0}


# ---------------------------------------------------------------- families

def dags(n):
    for f in itertools.product(*[[list(s) for k in range(x + 1) for s in itertools.combinations(range(1, x + 1), k)] for x in range(n)]):
        yield [list(p) for p in f]


def walks(b, n, nd, rnd, limit=None):
    """The initial states of GitAtWalk, as cases."""
    names = ["c%d" % k for k in range(1, n + 1)]
    msgs = [x + "\n" for x in names]
    hs = [(f, d) for f in dags(n) for d in itertools.product(range(1, nd + 1), repeat=n)]
    sets = [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]
    todo = [(h, s) for h in range(len(hs)) for s in sets]
    if limit and limit < len(todo):
        todo = rnd.sample(todo, limit)
    marks = {}
    for hn, s in todo:
        f, d = hs[hn]
        h = {"parents": f, "date": list(d)}
        if hn not in marks:
            # author dates say the opposite
            marks[hn] = b.history(h, msgs, bare=range(n - hn % (n + 1)), adates=[-x * 7 for x in d], tzs=[["+0000", "+1400", "-1100"][(x + hn) % 3] for x in d])
        p = alt0(*[lit(names[x]) for x in s]) if s else NEVER
        b.run("walk %s %s hits %s" % (f, d, [x + 1 for x in s]), h, marks[hn], msgs, n, p)


def randomwalks(b, rnd, count, size):
    for k in range(count):
        n = rnd.randint(4, size)
        f, d = [], []
        skew = rnd.choice([0, 0, 2, 50])
        for x in range(n):
            m = rnd.choice([0, 1, 1, 1, 1, 2, 2, 3]) if x else 0
            lo = max(1, x - rnd.choice([2, 4, 20]) + 1)
            f.append(rnd.sample(range(lo, x + 1), min(m, x + 1 - lo)) if x else [])
            d.append(x * 10 + rnd.randint(-10, 10) * skew if rnd.random() < .9 else x * 10 + rnd.choice([-400, 400, 2000000000, 3000000000]))
        if len(set(d)) < n - 2:
            d = [x * 5000 + k for k, x in enumerate(d)]
        h = {"parents": f, "date": d, "m": [rnd.randint(1, 4) for _ in range(n)]}
        msgs = ["add a\n", "fix b\n\nsee a\n", "fixup! add a\n", "other\n\nfix\n"]
        bare = rnd.choice([(), (0,), [x for x in range(n) if not f[x]], rnd.sample(range(n), n // 2), range(n)])  # the empty tree
        marks = b.history(h, msgs, bare=bare, adates=[rnd.randint(-5000, 5000) for _ in range(n)], tzs=[rnd.choice(["+0000", "-0800", "+0530"]) for _ in range(n)])
        for _ in range(3):
            start = rnd.randint(max(1, n - 3), n)
            ops = [{"k": rnd.choice("~^"), "n": rnd.randint(0, 2)} for _ in range(rnd.choice([0, 0, 1, 2]))]
            b.run("history %d" % k, h, marks, msgs, start, rnd.choice([lit("add a"), lit("fix"), lit("a"), lit("other"), NEVER, seq(BOL, lit("fix"))]),
                  ops=ops, rev=rnd.choice(["id", "short"]), summary=rnd.random() < .3, nofixup=rnd.random() < .3, quiet=rnd.random() < .3,
                  order=rnd.randrange(16))


def long_history(b, n):
    h = {"parents": [[]] + [[x] for x in range(1, n)], "date": [x for x in range(n)], "m": [1] + [2] * (n - 1)}
    msgs = ["first\n", "later\n"]
    marks = b.history(h, msgs)
    b.run("long history", h, marks, msgs, n, lit("first"))
    b.run("long history, none", h, marks, msgs, n, lit("absent"), quiet=True)


def searches(b, rnd, limit=None):
    """Every pattern on every message with every option, one commit each."""
    marks = {}
    todo = [(m, p, s, nf) for m in range(len(MESSAGES)) for p in range(len(PATTERNS)) for s in (False, True) for nf in (False, True)]
    if limit and limit < len(todo):
        todo = rnd.sample(todo, limit)
    for m, p, s, nf in todo:
        h = {"parents": [[]], "date": [m]}
        if m not in marks:
            marks[m] = b.history(h, [MESSAGES[m]])
        b.run("message %r" % MESSAGES[m][:30], h, marks[m], [MESSAGES[m]], 1, PATTERNS[p], summary=s, nofixup=nf, probe=True,
              quiet=bool((m + p) & 1), order=(m + p) % 8)


def chains(b, rnd, count, probe=True):
    """Messages in a row: the first that matches is reported."""
    for k in range(count):
        n = rnd.randint(2, 7)
        msgs = rnd.sample(MESSAGES[:-2], n)
        if rnd.random() < .6:
            msgs[rnd.randrange(n)] = rnd.choice(["fixup! add one\n", "squash! one\n\nbody\n"])
        h = {"parents": [[]] + [[x] for x in range(1, n)], "date": [x * 10 for x in range(n)]}
        marks = b.history(h, msgs)
        for _ in range(6):
            b.run("chain %d" % k, h, marks, msgs, n, rnd.choice(PATTERNS), summary=rnd.random() < .5, nofixup=rnd.random() < .5, probe=probe,
                  order=rnd.randrange(16))


def outcomes(b, full):
    """C27, and revisions given in other ways than by an id."""
    h = {"parents": [[], [1], [1], [2, 3], [4]], "date": [10, 20, 30, 40, 50]}
    msgs = ["add one\n", "fixup! add one\n", "three\n\nadd one\n", "Merge\n", "last\n"]
    m = b.history(h, msgs)
    side = b.history({"parents": [[]], "date": [70]}, ["unrelated add one\n"])
    b.imp.ref(b"refs/heads/main", m[4])
    b.imp.ref(b"refs/heads/topic/a", m[2])
    b.imp.ref(b"refs/heads/side", side[0])
    b.imp.ref(b"refs/remotes/origin/main", m[3])
    b.imp.ref(b"refs/tags/light", m[1])
    b.tagged = {"annotated": m[3], "nested": m[3]}
    heads = [(None, 5), ("HEAD", 5), ("main", 5), ("refs/heads/main", 5), ("topic/a", 3), ("light", 2), ("annotated", 4), ("nested", 4),
             ("origin/main", 4), ("heads/topic/a", 3), ("id", 3), ("short", 2), ("@", 5), ("main^{commit}", 5), ("annotated^{}", 4)]
    pats = [lit("add one"), lit("add"), NEVER, lit("last"), seq(BOL, lit("fixup")), lit("unrelated"), lit("Merge")]
    for rev, start in heads:
        for p in pats if full else pats[:4]:
            for s in (False, True):
                for q in (False, True) if full else (False,):
                    b.run("outcome", h, m, msgs, start, p, rev=rev, summary=s, quiet=q, nofixup=q != s, order=start % 8)
    for rev, start, ops in [("main", 5, [("~", 1)]), ("main", 5, [("~", 2)]), ("main", 5, [("~", 1), ("^", 2)]), ("main", 5, [("~", 9)]),
                            ("main", 5, [("^", 2)]), ("HEAD", 5, [("~", 1), ("^", 1)]), ("topic/a", 3, [("~", 1)]), ("topic/a", 3, [("~", 2)]),
                            ("HEAD", 5, [("~", 0)]), ("main", 5, [("~", 1), ("^", 3)])]:
        for q in (False, True):
            b.run("revision", h, m, msgs, start, lit("add one"), rev=rev, ops=[{"k": k, "n": n} for k, n in ops], quiet=q)
    for code in (0, 1, 3, 128, -9, -15, 255):
        b.run("show", h, m, msgs, 5, lit("add"), rev=None, show=code)
        b.run("show", h, m, msgs, 4, lit("add one"), rev="id", show=code, summary=True)
        b.run("show none", h, m, msgs, 5, NEVER, rev=None, show=code)
        b.run("show none", h, m, msgs, 5, lit("nothing"), rev="main", show=code, quiet=True)
    for q in (False, True):
        for p in ("(", "[", "a{2}{", "*a", "(?<n>a", "a)", "\\", "(?P<", "[z-a]"):
            if p == "a{2}{":
                continue
            for rev in (None, "main", "topic/a"):
                b.run("invalid pattern", None, [], [], 0, p, rev=rev, quiet=q, kind="error")
        for rev in ("nosuch", "refs/heads/none", "0123456789012345678901234567890123456789", "main~20", "main^7", "main@{x", ":/zzz", "bad..name...", ""):
            b.run("no revision", None, [], [], 0, lit("add"), rev=rev, quiet=q, kind="norev")
        for rev in ("main^{tree}", "main:f", "treetag", "HEAD:", "blobtag"):
            b.run("not a commit", None, [], [], 0, lit("add"), rev=rev, quiet=q, kind="error")
        b.run("no repository", None, [], [], 0, lit("add"), rev=None, quiet=q, kind="error", cwd="none")
        b.run("unborn", None, [], [], 0, lit("add"), rev=None, quiet=q, kind="norev", cwd="unborn")
        b.run("broken history", None, [], [], 0, NEVER, rev=None, quiet=q, kind="error", cwd="broken")
        b.run("missing commit", None, [], [], 0, NEVER, rev=None, quiet=q, kind="norev", cwd="missing")
    for cwd in ("r/sub/dir", "bare", "wt", "detached"):
        b.run("elsewhere " + cwd, h, m, msgs, 5 if cwd != "detached" else 3, lit("add one"), rev=None, cwd=cwd)
        b.run("elsewhere " + cwd, h, m, msgs, 5, lit("add one"), rev="main", cwd=cwd, summary=True)


def outcome_repos(b, ids):
    t, r = b.tmp, b.repo
    g = gitrepo.git
    for name, m in b.tagged.items():
        tgt = ids[m] if name == "annotated" else "refs/tags/annotated"
        g(r, "tag", "-a", "-m", "add one in the tag", name, tgt)
    tree = g(r, "rev-parse", "main^{tree}").decode().strip()
    blob = g(r, "rev-parse", "main:f").decode().strip()
    g(r, "tag", "-a", "-m", "x", "treetag", tree)
    g(r, "tag", "blobtag", blob)
    os.makedirs(r + "/sub/dir")
    os.makedirs(t + "/none")
    gitrepo.init(t + "/unborn")
    g(t, "clone", "-q", "--bare", r, t + "/bare")
    g(r, "worktree", "add", "-q", "--detach", t + "/detached", "topic/a")
    g(t, "clone", "-q", r, t + "/wt")
    for name, gone in (("broken", "main~1"), ("missing", "main")):
        d = gitrepo.init(t + "/" + name)
        with open(d + "/.git/objects/info/alternates", "w"):
            pass
        imp = gitrepo.Import()
        a = imp.commit(b"one\n", BASE)
        c = imp.commit(b"two\n", BASE + 1, [a])
        imp.ref(b"refs/heads/main", c)
        imp.run(d)
        g(d, "-c", "pack.unpackLimit=1", "repack", "-adq", ok=True)
        for p in os.listdir(d + "/.git/objects/pack"):
            if p.endswith(".pack"):
                data = open(d + "/.git/objects/pack/" + p, "rb").read()
        lost = g(d, "rev-parse", gone).decode().strip()
        for x in os.listdir(d + "/.git/objects/pack"):
            os.unlink(d + "/.git/objects/pack/" + x)
        g(d, "unpack-objects", "-q", input=data)
        os.unlink(d + "/.git/objects/" + lost[:2] + "/" + lost[2:])


FAKE_GIT = """#!/bin/sh
for a in "$@"; do printf '%s\\n' "$a" >>"$SHOW_LOG"; done
case $SHOW_CODE in -*) kill $SHOW_CODE $$;; esac
exit $SHOW_CODE
"""


def collect(pid, tier, seed):
    rnd = random.Random("%s %s" % (pid, seed))
    th = tier == "thorough"
    tmp = gitrepo.scratch("verif-at-")
    b = Book(tmp)
    try:
        os.makedirs(tmp + "/bin")
        with open(tmp + "/bin/git", "w") as f:
            f.write(FAKE_GIT)
        os.chmod(tmp + "/bin/git", 0o755)
        if pid == "C25":
            walks(b, 3, 3, rnd)
            walks(b, 4, 3, rnd, None if th else 400)
            randomwalks(b, rnd, 1200 if th else 150, 40 if th else 25)
            long_history(b, 1200)
            chains(b, rnd, 300 if th else 40)
        elif pid == "C26":
            searches(b, rnd, None if th else 2600)
            chains(b, rnd, 1500 if th else 200)
        else:
            randomwalks(b, rnd, 600 if th else 60, 20)
            chains(b, rnd, 300 if th else 60)
            searches(b, rnd, 3000 if th else 500)
        outcomes(b, th or pid == "C27")
        ids = b.imp.run(b.repo)
        outcome_repos(b, ids)
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda k: execute(b.cases[k], ids, tmp, k), range(len(b.cases))))
    finally:
        gitrepo.remove(tmp)


def check(rep):
    pid, tier, seed = rep.pid, rep.tier, rep.seed
    cov = rep.cov
    cov["design"] = []
    ds = dt = 0
    for cfg in (["GitAtWalk.cfg", "GitAtWalk4.cfg"] if pid == "C25" else ["GitAtWalk.cfg"]):
        bad, out = runner.tlc("GitAtWalk", cfg, workers=8)
        if bad:
            raise RuntimeError("the specification itself is wrong:\n" + out[-3000:])
        gen, dist = runner.tlc_states(out)
        ds, dt = ds + dist, dt + gen
        cov["design"].append({"model": cfg, "states": dist, "transitions": gen})
    recs = collect(pid, tier, seed)
    viol = runner.judge_records("GitAtTrace", recs, pid, 300)
    cov.update({"states": ds + len(recs), "transitions": dt + len(recs), "traces_validated_against_impl": len(recs),
                "runs": len(recs), "found": sum(1 for r in recs if r["code"] == 0), "none": sum(1 for r in recs if r["code"] == 1),
                "errors": sum(1 for r in recs if r["code"] > 1), "distinct_patterns": len({json.dumps(r["pattern"]) for r in recs}),
                "samples": [{"run": r["label"], "out": r["out"], "code": r["code"]} for r in recs[:: max(1, len(recs) // 4)][:4]]})
    rep.assume = ["the history is not changed while it is walked"]
    if viol is not None:
        r = recs[viol]
        r2 = {k: v for k, v in r.items() if k not in ("msgs",)}
        rep.violation({"property": pid, "label": r["label"], "record": r2},
                      "'%s' with dates %s parents %s: printed %r, exit %d" % (r["label"][:300], r["h"]["date"][:20], r["h"]["parents"][:20], r["out"], r["code"]))
