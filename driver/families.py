"""The families of executions.  Each function returns tasks; a task is
("function", arguments...) and is run by a worker process, which returns
recorded executions.  Judging them is left to the specification."""
import errno
import itertools
import json
import os
import random
import runner
from script import *

UA, UB = 0, 65534


def L(b):
    return b.decode("latin-1")


SIZES = [0, 1, 2, 50, 1000, 32767, 32768, 65515, 65516, 65517, 65536, 131032, 200001]
PATHS = [b"a", b"b/c.bin", b"d e", b"x=y", b"\xc3\xbc\xff", b"p\nq", b"-", b"a:b", b".lock", b"../../config",
         b"path=a", b"z" * 255, b"dir/" + b"l" * 4000, b"v1:1:x", b"%s\t\\", b"k" * 4097, b"d/" + b"m" * 20000 + b"/\xff"]
# up to what a line of a listing can hold in one packet
LONG_PATHS = [b"k" * n for n in (1023, 1024, 1025, 4095, 4096, 8191, 8192, 8193, 16384, 32767, 32768, 65000, 65444, 65445)] + [
    b"n" * 4096 + b"a", b"n" * 4096 + b"b", b"b" + b"n" * 4096, b"p/" + b"q" * 65400 + b"=\n:\xe9", b"q" * 30000 + b"/" + b"q" * 30000, b"q" * 30000 + b"/" + b"q" * 30001]


# ------------------------------------------------------- malformed requests

O1 = sha(b"some object")


def malformed(mode):
    """Complete requests that are malformed, by label."""
    big = b"18446744073709551616"
    M = {}

    def m(label, data):
        M[label] = L(data)
    m("empty-request", FLUSH)
    m("empty-command", pkt(b"") + FLUSH)
    m("empty-command-args", pkt(b"") + pkt(b"size=1\n") + FLUSH)
    m("newline-command", pkt(b"\n") + FLUSH)
    m("delim-command", DELIM + FLUSH)
    m("delim-then-command", DELIM + pkt(b"quit\n") + FLUSH)
    m("unknown", request_bytes(b"frobnicate\n"))
    m("unknown-args", request_bytes(b"frobnicate 1\n", [b"path=a\n"], body=[b"quit\n"]))
    m("unknown-case", request_bytes(b"Version 1\n"))
    m("unknown-prefix", request_bytes(b"get-objec %s\n" % O1.encode()))
    m("version-missing", request_bytes(b"version\n"))
    m("version-2", request_bytes(b"version 2\n"))
    m("version-empty", request_bytes(b"version \n"))
    for v in (b"10", b"1.0", b"1.1", b"1 1", b"1,2", b"1\t", b"one", b"-1", b"1-2", b"v1", b"1\0", b"\xef\xbc\x91"):
        m("version=%r" % v, request_bytes(b"version " + v + b"\n"))
    m("version-args-2", request_bytes(b"version 2\n", [b"version=1\n"]))
    o = O1.encode()
    bad_oids = {"short": o[:63], "long": o + b"0", "upper": o[:63] + b"A", "empty": b"", "g": o[:63] + b"g",
                "dots": b"../" * 21 + b"a", "slash": o[:2] + b"/" + o[3:], "nul": o[:63] + b"\0",
                "trailsp": o + b" ", "trailtab": o + b"\t", "cr": o + b"\r", "nl": o + b"\n", "nl63": o[:63] + b"\n", "leadsp": b" " + o, "leadtab": b"\t" + o, "twice": o + b" " + o,
                "0x": b"0x" + o[:62], "quote": b"'" + o + b"'", "algo": b"sha256:" + o, "nul64": o + b"\0", "plus": b"+" + o[:63], "minus": b"-" + o[1:], "at": o[:63] + b"@", "tick": o[:63] + b"`", "colon": o[:63] + b":",
                "high": o[:63] + b"\xe9", "utf8": "é".encode() * 32, "space": b""}
    for k, x in bad_oids.items():
        m("put-oid-" + k, pkt(b"put-object " + x + b"\n") + pkt(b"size=3\n") + DELIM + pkt(b"abc") + FLUSH)
        m("verify-oid-" + k, request_bytes(b"verify-object " + x + b"\n", [b"size=3\n"]))
        m("get-oid-" + k, request_bytes(b"get-object " + x + b"\n"))
        m("batch-oid-" + k, request_bytes(b"batch\n", [b"hash-algo=sha256\n"], lines=[x + b" 3\n"]))
    m("put-no-oid", request_bytes(b"put-object\n", [b"size=3\n"], body=[b"abc"]))
    m("verify-no-oid", request_bytes(b"verify-object\n", [b"size=3\n"]))
    m("get-no-oid", request_bytes(b"get-object\n"))
    sizes = {"none": None, "neg": b"-1", "word": b"many", "empty": b"", "over": big, "huge": b"9" * 40,
             "hex": b"0x10", "frac": b"1.0", "space": b" 3", "trail": b"3 ", "high": b"3\xff", "exp": b"1e3",
             "minus0": b"-0", "nul": b"3\0", "under": b"1_1", "comma": b"1,1", "wide": b"\xef\xbc\x93", "bin": b"0b11",
             "unit": b"11B", "suffix": b"11u64", "tab": b"\t11", "dot": b"11.", "quote": b"'11'", "inf": b"inf", "nan": b"NaN", "cr": b"11\r",
             "over2": b"340282366920938463463374607431768211467"}
    for k, x in sizes.items():
        a = [] if x is None else [b"size=" + x + b"\n"]
        m("put-size-" + k, request_bytes(b"put-object " + o + b"\n", a, body=[b"some object"]))
        m("verify-size-" + k, request_bytes(b"verify-object " + o + b"\n", a))
        if x is not None and x != b"" and b" " not in x:
            m("batch-size-" + k, request_bytes(b"batch\n", lines=[o + b" " + x + b"\n"]))
            m("list-limit-" + k, request_bytes(b"list-lock\n", [b"limit=" + x + b"\n"]))
    m("list-limit-empty", request_bytes(b"list-lock\n", [b"limit=\n"]))
    m("list-limit-zero", request_bytes(b"list-lock\n", [b"limit=0\n"]))
    arg_forms = {"noeq": b"size\n", "nonl": b"size=11", "empty": b"", "nl": b"\n", "eqonly-nonl": b"=",
                 "crlf-nonl": b"size=11\r"}
    for k, x in arg_forms.items():
        m("put-arg-" + k, pkt(b"put-object " + o + b"\n") + pkt(b"size=11\n") + pkt(x) + DELIM + pkt(b"some object") + FLUSH)
        m("verify-arg-" + k, request_bytes(b"verify-object " + o + b"\n", [b"size=11\n", x]))
        m("get-arg-" + k, request_bytes(b"get-object " + o + b"\n", [x]))
        m("lock-arg-" + k, request_bytes(b"lock\n", [b"path=m\n", b"refname=r\n", x]))
        m("list-arg-" + k, request_bytes(b"list-lock\n", [x]))
        m("batch-arg-" + k, request_bytes(b"batch\n", [x], lines=[o + b" 1\n"]))
    m("put-dup", request_bytes(b"put-object " + o + b"\n", [b"size=11\n", b"size=11\n"], body=[b"some object"]))
    m("verify-dup", request_bytes(b"verify-object " + o + b"\n", [b"size=11\n", b"size=12\n"]))
    m("lock-dup", request_bytes(b"lock\n", [b"path=m\n", b"refname=r\n", b"path=m\n"]))
    m("lock-dup-other", request_bytes(b"lock\n", [b"path=m\n", b"refname=r\n", b"x=1\n", b"x=2\n"]))
    m("list-dup", request_bytes(b"list-lock\n", [b"limit=1\n", b"limit=2\n"]))
    m("get-dup", request_bytes(b"get-object " + o + b"\n", [b"a=1\n", b"a=1\n"]))
    m("batch-dup", request_bytes(b"batch\n", [b"a=1\n", b"a=1\n"], lines=[o + b" 1\n"]))
    m("batch-line-nonl", request_bytes(b"batch\n", lines=[o + b" 1"]))
    m("batch-line-empty", request_bytes(b"batch\n", lines=[b""]))
    m("batch-line-nl", request_bytes(b"batch\n", lines=[b"\n"]))
    m("batch-line-nosize", request_bytes(b"batch\n", lines=[o + b"\n"]))
    m("batch-line-emptysize", request_bytes(b"batch\n", lines=[o + b" \n"]))
    m("batch-line-three", request_bytes(b"batch\n", lines=[o + b" 1 2\n"]))
    m("batch-line-two-spaces", request_bytes(b"batch\n", lines=[o + b"  1\n"]))
    for x in (b" 11 2\n", b" 11 \n", b" 11 x\n", b" 11  \n", b"  11\n", b"\t11\n", b" 11\t\n", b" 11\n\n", b" 11\r\n", b" 11\0\n",
              b" 11 22 33\n", b" 11 upload\n", b",11\n", b"=11\n", b" 11=\n", b" size=11\n", b" 11\n" + o + b" 12\n", b" 11 " + o + b" 11\n"):
        m("batch-line-%r" % x[:20], request_bytes(b"batch\n", lines=[o + x]))
    for x in (b" " + o + b" 11\n", b"11 " + o + b"\n", o[:63] + b"\n 11\n", b"oid=" + o + b" 11\n", b"11\n", b" \n", b" 11\n", b"sha256:" + o + b" 11\n"):
        m("batch-whole-%r" % (x[:6] + x[-6:]), request_bytes(b"batch\n", lines=[x]))
    for k, x in {"space": b" 11", "trail": b"11 ", "nl": b"11\n", "cr": b"\r11", "plusminus": b"+-11", "semi": b"11;", "pair": b"11 12", "eq": b"=11"}.items():
        m("put-size11-" + k, request_bytes(b"put-object " + o + b"\n", [b"size=" + x + b"\n"], body=[b"some object"]))
        m("verify-size11-" + k, request_bytes(b"verify-object " + o + b"\n", [b"size=" + x + b"\n"]))
    nothing = sha(b"").encode()
    for k, x in {"minus0": b"-0", "none": b"", "dot": b".", "space": b" "}.items():
        m("put-nothing-" + k, request_bytes(b"put-object " + nothing + b"\n", [b"size=" + x + b"\n"], body=[]))
    for k in range(60, 70):
        m("batch-length-%d" % k, request_bytes(b"batch\n", lines=[(o * 2)[:k] + b"\n"]))
        m("batch-length-sp-%d" % k, request_bytes(b"batch\n", lines=[(o[:k - 2] + b" 1 1 1 1 1")[:k] + b"\n"]))
    m("dup-empty-first", request_bytes(b"verify-object " + o + b"\n", [b"size=\n", b"size=11\n"]))
    m("dup-empty-second", request_bytes(b"verify-object " + o + b"\n", [b"size=11\n", b"size=\n"]))
    m("dup-apart", request_bytes(b"lock\n", [b"path=m\n", b"a=b\n", b"refname=r\n", b"a=c\n"]))
    m("dup-empty-key", request_bytes(b"get-object " + o + b"\n", [b"=a\n", b"=b\n"]))
    m("batch-second-bad", request_bytes(b"batch\n", lines=[o + b" 1\n", o + b" x\n", o + b" 2\n"]))
    m("batch-last-bad", request_bytes(b"batch\n", lines=[o + b" 1\n", o + b" 2\n", o[:40] + b" 2\n"]))
    m("batch-algo", request_bytes(b"batch\n", [b"hash-algo=sha512\n"], lines=[o + b" 1\n"]))
    m("batch-algo-case", request_bytes(b"batch\n", [b"hash-algo=SHA256\n"], lines=[o + b" 1\n"]))
    m("batch-algo-empty", request_bytes(b"batch\n", [b"hash-algo=\n"], lines=[o + b" 1\n"]))
    m("batch-algo-prefix", request_bytes(b"batch\n", [b"hash-algo=sha2567\n"], lines=[]))
    m("batch-no-delim", pkt(b"batch\n") + pkt(b"hash-algo=sha256\n") + FLUSH)
    m("batch-two-delims", pkt(b"batch\n") + DELIM + pkt(o + b" 1\n") + DELIM + FLUSH)
    m("put-no-delim", pkt(b"put-object " + o + b"\n") + pkt(b"size=11\n") + FLUSH)
    m("put-body-no-delim", pkt(b"put-object " + o + b"\n") + pkt(b"size=11\n") + pkt(b"some object") + FLUSH)
    m("verify-delim", pkt(b"verify-object " + o + b"\n") + pkt(b"size=11\n") + DELIM + FLUSH)
    m("get-delim", pkt(b"get-object " + o + b"\n") + DELIM + pkt(b"quit\n") + FLUSH)
    m("lock-delim", pkt(b"lock\n") + pkt(b"path=m\n") + pkt(b"refname=r\n") + DELIM + FLUSH)
    m("lock-delim-args", pkt(b"lock\n") + DELIM + pkt(b"path=m\n") + pkt(b"refname=r\n") + FLUSH)
    m("list-delim", pkt(b"list-lock\n") + DELIM + pkt(b"lock\n") + FLUSH)
    m("lock-nothing", request_bytes(b"lock\n"))
    m("lock-no-path", request_bytes(b"lock\n", [b"refname=r\n"]))
    m("lock-no-ref", request_bytes(b"lock\n", [b"path=m\n"]))
    m("lock-wrong-key", request_bytes(b"lock\n", [b"Path=m\n", b"refname=r\n"]))
    m("unlock-no-id", request_bytes(b"unlock\n"))
    m("smuggle-put-badoid", pkt(b"put-object nonsense\n") + pkt(b"size=3\n") + DELIM
      + pkt(b"lock\n") + pkt(b"path=smuggled\n") + pkt(b"refname=r\n") + FLUSH)
    m("smuggle-put-nosize", pkt(b"put-object " + o + b"\n") + DELIM + pkt(b"quit\n") + FLUSH)
    m("smuggle-put-badarg", pkt(b"put-object " + o + b"\n") + pkt(b"x\n") + DELIM + pkt(b"unlock " + lock_id(b"a").encode() + b"\n") + FLUSH)
    m("smuggle-unknown", pkt(b"zap\n") + pkt(b"lock\n") + pkt(b"path=smuggled\n") + pkt(b"refname=r\n") + FLUSH)
    return M


def wellformed(mode):
    """Odd-looking requests that are well-formed."""
    o = O1.encode()
    W = {}

    def m(label, data):
        W[label] = L(data)
    m("version-nonl", request_bytes(b"version 1"))
    m("batch-empty", request_bytes(b"batch\n", lines=[]))
    m("batch-nonl", request_bytes(b"batch", [b"hash-algo=sha256\n"], lines=[o + b" 1\n"]))
    m("batch-args", request_bytes(b"batch\n", [b"transfer=ssh\n", b"refname=refs/heads/x\n", b"junk==\n"], lines=[o + b" 0\n"]))
    m("batch-max", request_bytes(b"batch\n", lines=[o + b" 18446744073709551615\n"]))
    m("batch-zero", request_bytes(b"batch\n", lines=[o + b" 0\n"]))
    m("batch-repeat", request_bytes(b"batch\n", lines=[o + b" 1\n", o + b" 2\n", o + b" 1\n"]))
    m("verify-max", request_bytes(b"verify-object " + o + b"\n", [b"size=18446744073709551615\n"]))
    m("verify-args", request_bytes(b"verify-object " + o + b"\n", [b"size=11\n", b"x=y=z\n", b"=\n"]))
    m("verify-2", request_bytes(b"verify-object " + o, [b"size=12\n"]))
    m("get", request_bytes(b"get-object " + o + b"\n"))
    m("get-args", request_bytes(b"get-object " + o + b"\n", [b"transfer=x\n"]))
    m("put-args", request_bytes(b"put-object " + o + b"\n", [b"a=b\n", b"size=11\n"], body=[b"some", b" ", b"", b"object"]))
    m("put-again", request_bytes(b"put-object " + o, [b"size=11\n"], body=[b"some object"]))
    m("list", request_bytes(b"list-lock\n"))
    m("list-1", request_bytes(b"list-lock\n", [b"limit=1\n", b"refname=r\n"]))
    m("list-101", request_bytes(b"list-lock\n", [b"limit=101\n"]))
    m("list-max", request_bytes(b"list-lock\n", [b"limit=18446744073709551615\n"]))
    m("list-path", request_bytes(b"list-lock\n", [b"path=a\n"]))
    m("list-path-none", request_bytes(b"list-lock\n", [b"path=nope\n"]))
    m("list-cursor-0", request_bytes(b"list-lock\n", [b"cursor=" + b"0" * 64 + b"\n"]))
    m("list-cursor-f", request_bytes(b"list-lock\n", [b"cursor=" + b"f" * 64 + b"\n"]))
    m("lock-args", request_bytes(b"lock\n", [b"x=1\n", b"refname=\n", b"path=w\n"]))
    m("lock-again", request_bytes(b"lock", [b"refname=q\n", b"path=w\n"]))
    for i, ref in enumerate((b"", b"r" * 3000, b"\xff\xfe", b"=", b"refs/heads/x y", b"-")):
        m("lock-ref-%d" % i, r_unlock(lock_id(b"refs%d" % i)) + request_bytes(b"lock\n", [b"path=refs%d\n" % i, b"refname=" + ref + b"\n"]))
        m("lock-ref-held-%d" % i, request_bytes(b"lock\n", [b"refname=" + ref + b"\n", b"path=a\n"]))
        m("lock-ref-again-%d" % i, request_bytes(b"lock\n", [b"path=refs%d\n" % i, b"refname=" + ref + b"\n"]))
    for i, p in enumerate(LONG_PATHS):
        m("lock-long-%d" % i, r_lock(p) + r_lock(p) + r_list(path=p))
        m("lock-long-other-%d" % i, r_list(path=p[1:]) + r_lock(p[:-1] + b"!") + r_list(path=p[:-1] + b"!"))
    m("unlock-unknown", r_unlock(lock_id(b"never")))
    m("unlock-path", r_unlock(b"w"))
    m("unlock-dotdot", r_unlock(b"../../config"))
    m("unlock-upper", r_unlock(lock_id(b"a").upper().encode()))
    m("unlock-args", request_bytes(b"unlock " + lock_id(b"w").encode() + b"\n", [b"refname=r\n"]))
    m("unlock-empty", r_unlock(b""))
    m("unlock-dot", r_unlock(b"."))
    return W


def probe(mode):
    """A request that shows that the session still works."""
    return L(r_version() + r_batch([(O1, 3)]))


BASIC = {"texts": ["some object"], "locks": [["a", 0, 100]]}


def t_malformed(mode, labels, pipelined):
    M = malformed(mode)
    out = []
    steps = [["open", "s", mode]]
    for lab in labels:
        if pipelined:
            steps += [["send", "s", M[lab] + probe(mode)], ["run", "s"]]
        else:
            steps += [["send", "s", M[lab]], ["run", "s"], ["send", "s", probe(mode)], ["run", "s"]]
    steps += [["finish", "s"]]
    out.append(execute({"world": BASIC, "steps": steps}, "malformed %s %s..." % (mode, labels[0])))
    return out


def malformed_tasks(tier, per=6):
    tasks = []
    for mode in ("upload", "download"):
        labs = sorted(malformed(mode))
        for i in range(0, len(labs), per):
            for pipelined in (False, True):
                tasks.append(("t_malformed", mode, labs[i:i + per], pipelined))
    return tasks


def t_wellformed(mode, pipelined):
    W = wellformed(mode)
    steps = [["open", "s", mode]]
    if pipelined:
        steps += [["send", "s", "".join(W.values())], ["run", "s"]]
    else:
        for lab in W:
            steps += [["send", "s", W[lab]], ["run", "s"]]
    steps += [["finish", "s"]]
    return [execute({"world": BASIC, "steps": steps}, "well-formed %s" % mode)]


def wellformed_tasks(tier):
    return [("t_wellformed", m, p) for m in ("upload", "download") for p in (False, True)]


# ------------------------------------------------------ sequential sessions

class Gen:
    """Random well-formed and malformed requests over a few objects and paths."""

    def __init__(self, rng, sizes=None, paths=None, multi=False):
        self.r = rng
        sz = sizes or [rng.choice(SIZES) for _ in range(3)]
        self.blobs = [(rng.randrange(10 ** 6), n) for n in sz]
        self.data = [blob(*b) for b in self.blobs]
        self.oids = [sha(d) for d in self.data]
        self.ghost = sha(b"ghost%d" % rng.randrange(1000))
        self.paths = paths or rng.sample(PATHS, 3)
        self.mal = sorted(malformed("upload"))

    def req(self, mode, kinds=None):
        r = self.r
        k = r.choice(kinds or ["put", "put", "putbad", "verify", "batch", "batch", "get", "lock", "lock", "unlock",
                               "list", "listpath", "version", "malformed"])
        i = r.randrange(len(self.blobs))
        o, d = self.oids[i], self.data[i]
        if k == "put":
            return {"blob": list(self.blobs[i]), "put": {"pk": r.choice([1000, 4096, 32768, 65515, 65516]) if len(d) < 2000 or r.random() < .5 else 32768}}
        if k == "putbad":
            v = r.randrange(6)
            if v == 0:
                return {"blob": list(self.blobs[i]), "put": {"size": len(d) + 1}}
            if v == 1:
                return {"blob": list(self.blobs[i]), "put": {"size": max(0, len(d) - 1) if d else 1}}
            if v == 2:
                return {"blob": list(self.blobs[i]), "put": {"oid": self.ghost}}
            if v == 3:
                return {"blob": list(self.blobs[i]), "put": {"oid": self.oids[(i + 1) % len(self.oids)]}}
            if v == 4:
                return L(r_put(b"", oid=o, size=len(d)))
            return L(r_put(d[:-1] + b"!" if d else b"x", oid=o, size=len(d)))
        if k == "verify":
            return L(r_verify(r.choice(self.oids + [self.ghost]), r.choice([len(d), len(d), len(d) + 1, 0])))
        if k == "batch":
            return L(r_batch([(r.choice(self.oids + [self.ghost]), r.choice([len(d), 0, 7, 123456789012]))
                              for _ in range(r.choice([0, 1, 2, 3, 8, 40]))]))
        if k == "get":
            return L(r_get(r.choice(self.oids + [self.ghost])))
        p = r.choice(self.paths)
        if k == "lock":
            if r.random() < 0.2:
                return L(request_bytes(b"lock\n", [b"path=" + p + b"\n", b"refname=" + r.choice([b"", b"x", b"\xff"]) + b"\n"]))
            return L(r_lock(p))
        if k == "unlock":
            return L(r_unlock(r.choice([lock_id(p)] * 6 + [lock_id(b"none"), "x", "../" + lock_id(p)])))
        if k == "list":
            return L(r_list(r.choice([None, 1, 2, 3, 100, 1000])))
        if k == "listpath":
            return L(r_list(path=p))
        if k == "version":
            return L(r_version())
        return malformed(mode)[r.choice(self.mal)]


def t_random(seed, n, kinds=None, sizes=None, multi=False, pipelined=False, tick=0, chunk=None, access=False,
             world=None, paths=None):
    """Several sessions, one request after the other."""
    rng = random.Random("seq%s" % (seed,))
    g = Gen(rng, sizes=sizes, paths=paths)
    wd = dict(world or {})
    wd.setdefault("tick", tick)
    if multi:
        wd["uids"] = [UB]
    um = 0 if multi else 0o022
    o = {}
    if chunk:
        o["chunk"] = chunk
    if access:
        o["access"] = True
    names = [("ua", "upload", UA), ("ub", "upload", UB if multi else UA), ("da", "download", UB if multi else UA)]
    steps = [["open", nm, mode, uid, um, o] for nm, mode, uid in names]
    for _ in range(n):
        nm, mode, _uid = rng.choice(names)
        if pipelined:
            for _ in range(rng.choice([1, 2, 5])):
                steps.append(["send", nm, g.req(mode, kinds)])
        else:
            steps.append(["send", nm, g.req(mode, kinds)])
        steps.append(["run", nm])
        if rng.random() < 0.08:
            steps.append(["pages", nm, rng.choice([1, 2, 3])])
    if rng.random() < 0.5:
        steps.append(["send", "ua", L(r_quit() + r_version())])
        steps.append(["run", "ua"])
    steps.append(["finishall"])
    return [execute({"world": wd, "steps": steps}, "random session %s" % (seed,))]


def random_tasks(seed, count, n=25, **kw):
    return [("t_random", "%s.%d" % (seed, i), n, kw) for i in range(count)]


# ---------------------------------------------------------------- uploads

def t_uploads(sizes, pks):
    """Uploads of all boundary lengths, in all packet sizes, then asked for in every way."""
    out = []
    for n in sizes:
        for p in pks:
            if n > 20000 and p < 50:
                continue
            b = [n * 31 + 7, n]
            o = sha(blob(*b))
            other = sha(blob(b[0] + 1, n))
            steps = [["open", "u", "upload"], ["open", "d", "download"],
                     ["send", "d", L(r_get(o) + r_batch([(o, n + 5)]))], ["run", "d"],
                     ["send", "u", L(r_verify(o, n) + r_batch([(o, n + 3)]))], ["run", "u"]]
            bads = [{"blob": b, "put": {"size": n + 1, "pk": p}}, {"blob": b, "put": {"oid": other, "pk": p}}]
            if p >= 50:
                bads += [{"blob": b, "put": {"size": n + (1 << k), "pk": p}} for k in (8, 16, 31, 32, 40, 63)] + [{"blob": b, "put": {"size": (1 << 64) - n if n else 1 << 32, "pk": p}}]
            if n > 1:
                d = blob(*b)
                bads += [{"blob": b, "put": {"pk": p, "oid": sha(x)}} for x in {d[:p], d[p:], d[:n // p * p], d[:-1], d[1:], b""} - {d}]
            if n:
                bads += [{"blob": b, "put": {"size": n - 1, "pk": p}},
                         L(r_put(blob(*b)[:-1], oid=o, size=n, pk=p)), L(r_put(blob(*b) + b"x", oid=o, size=n, pk=p)),
                         L(r_put(blob(*b)[:-1] + bytes([blob(*b)[-1] ^ 1]), oid=o, size=n, pk=p))]
            else:
                bads += [L(r_put(b"x", oid=o, size=0)), L(r_put(b"x", oid=o, size=1))]
            for x in bads:
                steps += [["send", "u", x], ["run", "u"]]
            steps += [["send", "u", L(r_batch([(o, n)]))], ["run", "u"],
                      ["send", "u", {"blob": b, "put": {"pk": p}}], ["run", "u"]]
            near = [n + 1, n + (1 << 8), n + (1 << 16), n + (1 << 31), n + (1 << 32), n + (1 << 53), (1 << 64) - 1, 1 << 63, 10 * n, n // 10]
            ask_u = L(r_verify(o, n) + b"".join(r_verify(o, x) for x in near) + r_verify(o, n - 1 if n else 1) + r_batch([(o, n), (other, 4), (o, 9)]))
            ask_d = L(r_get(o) + r_batch([(o, n), (other, 4)]) + r_get(other) + r_get(o))
            steps += [["send", "u", ask_u], ["run", "u"], ["send", "d", ask_d], ["run", "d"]]
            for x in bads + [{"blob": b, "put": {"pk": p}}]:
                steps += [["send", "u", x], ["run", "u"]]
            steps += [["send", "u", ask_u], ["run", "u"], ["send", "d", ask_d], ["run", "d"], ["finishall"],
                      ["open", "d2", "download"], ["send", "d2", ask_d], ["run", "d2"], ["finish", "d2"]]
            out.append(execute({"steps": steps}, "uploads of %d bytes in packets of %d" % (n, p)))
    return out


def upload_tasks(tier):
    pks = [1, 7, 4096, 32768, 65515, 65516] if tier == "thorough" else [7, 32768, 65516]
    sizes = SIZES + ([3, 4, 65514, 65520, 65521, 131030, 131031, 131033, 262144, 300000] if tier == "thorough" else [])
    return [("t_uploads", [n], [p]) for n in sizes for p in pks]


def t_huge(sizes):
    """Objects of gigabytes lie in the store, and are asked for."""
    import core
    out = []
    for n in sizes:
        o = core.ZEROS[n]
        others = [n + 1, n - 1, n % (1 << 32), n % (1 << 31), n + (1 << 32), 0, n // 2, 10 * n]
        ask = L(r_batch([(o, n), (o, 5), (sha(b"x"), n), (sha(b"y"), n % (1 << 32))]) + r_verify(o, n)
                + b"".join(r_verify(o, x) for x in others if x != n) + r_batch([(o, n % (1 << 32)), (o, (1 << 64) - 1)]))
        down = L(r_batch([(o, n), (o, 5), (sha(b"x"), n), (sha(b"y"), n % (1 << 32))]))
        steps = [["open", "u", "upload"], ["send", "u", ask], ["run", "u"], ["open", "d", "download"], ["send", "d", down], ["run", "d"],
                 ["finishall"]]
        out.append(execute({"world": {"zeros": [n]}, "steps": steps}, "an object of %d bytes" % n))
    return out


def huge_tasks(tier):
    import core
    return [("t_huge", [n]) for n in sorted(core.ZEROS)]


def t_big(n, pk):
    """An object of megabytes: cut off, spoilt at its end, uploaded and downloaded."""
    b = [n * 31 + pk, n]
    d = blob(*b)
    o = sha(d)
    steps = [["open", "u", "upload"], ["open", "d", "download"]]
    bad = [L(r_put(d[:-1] + bytes([d[-1] ^ 1]), oid=o, size=n, pk=pk)), L(r_put(d[:-1], oid=o, size=n, pk=pk))]
    # the names of its parts
    bad += [{"blob": b, "put": {"pk": pk, "oid": sha(x)}} for x in
            [d[:k] for k in (1 << 20, 4 << 20, n // pk * pk, n - 1, 0)] + [d[pk:], d[n // pk * pk:], d[1:]]]
    for x in bad + [{"blob": b, "put": {"pk": pk}}]:
        steps += [["send", "u", x], ["run", "u"]]
    steps += [["send", "u", L(r_verify(o, n) + r_verify(o, n - 1) + r_batch([(o, n)]))], ["run", "u"],
              ["send", "d", L(r_get(o) + r_batch([(o, n)]))], ["run", "d"], ["finishall"]]
    return [execute({"steps": steps}, "an object of %d bytes in packets of %d" % (n, pk))]


def t_big_get(n):
    b = [n * 31 + 1, n]
    o = sha(blob(*b))
    steps = [["open", "d", "download"], ["send", "d", L(r_get(o) + r_batch([(o, n)]) + r_get(o))], ["run", "d"], ["finishall"]]
    return [execute({"world": {"objs": [b]}, "steps": steps}, "the download of %d bytes" % n)]


def big_tasks(tier):
    t = [("t_big", (5 << 20) + 3, 32768), ("t_big", (4 << 20) + 65516, 65516)]
    if tier == "thorough":
        t += [("t_big", (17 << 20) + 1, 65516), ("t_big", (2 << 20) + 1, 4096), ("t_big", 8 << 20, 65515), ("t_big", (33 << 20) + 7, 65516)]
    return t


def big_get_tasks(tier):
    t = [("t_big_get", n) for n in ((16 << 20) + 5, 4 << 20, (1 << 20) - 1)]
    if tier == "thorough":
        t += [("t_big_get", n) for n in (64 << 20, (130 << 20) + 17, 1 << 20, (32 << 20) - 1)]
    return t


def t_many(n):
    """One batch for many objects, some of them there."""
    rng = random.Random("many%s" % n)
    objs = [[i, rng.choice([0, 1, 7, 100])] for i in range(6)]
    there = [(sha(blob(*b)), b[1]) for b in objs]
    items = []
    for i in range(n):
        items.append(rng.choice(there) if rng.random() < 0.1 else (sha(b"%d" % i), rng.choice([0, 5, 1 << 40, i])))
    if n:
        items[-1] = there[3]
    steps = []
    for mode in ("upload", "download"):
        steps += [["open", mode, mode], ["send", mode, L(r_batch(items) + r_batch(items[:2]))], ["run", mode]]
    return [execute({"world": {"objs": objs}, "steps": steps + [["finishall"]]}, "a batch of %d objects" % n)]


def many_tasks(tier):
    return [("t_many", n) for n in ([99, 100, 101, 129, 257, 600] + ([1000, 1025, 4097] if tier == "thorough" else []))]


# ------------------------------------------------------------- concurrency

def scenarios():
    """name -> (world, [(session, mode, uid, data, setup data)])."""
    b = [77, 3000]
    o = sha(blob(*b))
    big = [78, 70000]
    bo = sha(blob(*big))
    put = {"blob": b, "put": {}}
    putpk = {"blob": b, "put": {"pk": 1000}}
    bad = L(r_put(blob(79, 3000), oid=o, size=3000))
    short = {"blob": b, "put": {"size": 3001}}
    la = L(r_lock(b"a"))
    ua = L(r_unlock(lock_id(b"a")))
    lb = L(r_lock(b"b"))
    W0 = {}
    Wo = {"objs": [b]}
    Wb = {"objs": [big]}
    Wl = {"locks": [["a", 0, 500]]}
    Wl3 = {"locks": [["a", 0, 500], ["b", 0, 400], ["c", 0, 300], ["d", 0, 200]]}
    Wmulti = {"locks": [["a", UB, 500], ["b", 0, 400]], "uids": [UB]}
    ls = L(r_list())
    lp = L(r_list(path=b"a"))
    S = {}

    def s(name, world, *procs):
        S[name] = (world, procs)
    s("lock/lock", W0, ("A", "upload", 0, la), ("B", "upload", 0, la))
    s("lock/lock/tick", {"tick": 1}, ("A", "upload", 0, la), ("B", "upload", 0, la + la))
    s("lock/lock/users", {"uids": [UB]}, ("A", "upload", 0, la), ("B", "upload", UB, la))
    s("lock/unlock", Wl, ("A", "upload", 0, la), ("B", "upload", 0, ua))
    s("lock/unlock+lock", Wl, ("A", "upload", 0, la), ("B", "upload", 0, ua + la))
    s("lock/unlock+lock+unlock", Wl, ("A", "upload", 0, la), ("B", "upload", 0, ua + la + ua))
    s("lock/unlock+lock+unlock+lock/tick", {"locks": [["a", 0, 500]], "tick": 1},
      ("A", "upload", 0, la), ("B", "upload", 0, ua + la + ua + la))
    s("lock+unlock/lock+unlock", W0, ("A", "upload", 0, la + ua), ("B", "upload", 0, la + ua))
    s("unlock/unlock", Wl, ("A", "upload", 0, ua), ("B", "upload", 0, ua))
    s("unlock+lock/unlock", Wl, ("A", "upload", 0, ua + la), ("B", "upload", 0, ua))
    s("unlock/unlock+lock/users", Wmulti, ("A", "upload", 0, ua), ("B", "upload", UB, ua + la))
    s("lock/unlock+lock/users", Wmulti, ("A", "upload", 0, la), ("B", "upload", UB, ua + la))
    s("lock/otherlock", Wl3, ("A", "upload", 0, L(r_lock(b"x"))), ("B", "upload", 0, L(r_lock(b"y") + r_lock(b"x"))))
    s("lock/list", {"locks": [["b", 0, 400]]}, ("A", "upload", 0, la), ("B", "upload", 0, ls))
    s("lock/listd", {"locks": [["b", 0, 400]]}, ("A", "upload", 0, la), ("B", "download", 0, ls))
    s("unlock/list", Wl3, ("A", "upload", 0, ua), ("B", "upload", 0, ls))
    s("unlock+lock/list/users", Wmulti, ("A", "upload", 0, ua + la), ("B", "upload", UB, ls))
    s("lock/listpath", W0, ("A", "upload", 0, la + ua), ("B", "upload", 0, lp))
    s("unlock+lock/listpath/tick", {"locks": [["a", 0, 500]], "tick": 1}, ("A", "upload", 0, ua + la), ("B", "download", 0, lp))
    s("lock/lock/unlock", Wl, ("A", "upload", 0, la), ("B", "upload", 0, la), ("C", "upload", 0, ua))
    s("lock/unlock/unlock+lock", Wl, ("A", "upload", 0, la), ("B", "upload", 0, ua), ("C", "upload", 0, ua + la))
    s("lock/lock/list", W0, ("A", "upload", 0, la), ("B", "upload", 0, la), ("C", "upload", 0, ls))
    s("put/put", W0, ("A", "upload", 0, put), ("B", "upload", 0, put))
    s("put/putpk", W0, ("A", "upload", 0, putpk), ("B", "upload", 0, put))
    s("put/bad", W0, ("A", "upload", 0, put), ("B", "upload", 0, bad))
    s("reput/bad", Wo, ("A", "upload", 0, put), ("B", "upload", 0, bad))
    s("put/short", W0, ("A", "upload", 0, put), ("B", "upload", 0, short))
    s("put/batch", W0, ("A", "upload", 0, put), ("B", "upload", 0, L(r_batch([(o, 1), (bo, 2), (o, 3)]))))
    s("put/batchd", W0, ("A", "upload", 0, put), ("B", "download", 0, L(r_batch([(o, 1), (o, 3)]))))
    s("put/verify", W0, ("A", "upload", 0, put), ("B", "upload", 0, L(r_verify(o, 3000) + r_verify(o, 2999))))
    s("put/get", W0, ("A", "upload", 0, put), ("B", "download", 0, L(r_get(o) + r_get(o))))
    s("reput/get", Wo, ("A", "upload", 0, putpk), ("B", "download", 0, L(r_get(o))))
    s("rebad/get", Wo, ("A", "upload", 0, bad), ("B", "download", 0, L(r_get(o))))
    s("reputbig/get", Wb, ("A", "upload", 0, {"blob": big, "put": {}}), ("B", "download", 0, L(r_get(bo))))
    s("reput/verify", Wo, ("A", "upload", 0, put), ("B", "upload", 0, L(r_verify(o, 3000))))
    s("reput/batch", Wo, ("A", "upload", 0, put), ("B", "upload", 0, L(r_batch([(o, 1)]))))
    s("put/put/get", W0, ("A", "upload", 0, put), ("B", "upload", 0, put), ("C", "download", 0, L(r_get(o))))
    s("put/bad/get", W0, ("A", "upload", 0, put), ("B", "upload", 0, bad), ("C", "download", 0, L(r_get(o))))
    return S


LOCK_SCEN = [n for n in scenarios() if "lock" in n]
PUT_SCEN = [n for n in scenarios() if "put" in n or "bad" in n]


def scen_steps(name, opts=None):
    world, procs = scenarios()[name]
    um = 0 if world.get("uids") else 0o022
    steps = [["open", p[0], p[1], p[2], um, opts or {}] for p in procs]
    steps += [["send", p[0], p[3]] for p in procs]
    return world, [p[0] for p in procs], steps


def count_steps(name):
    """How many calls each session makes when alone and when last."""
    world, names, steps = scen_steps(name)
    res = {}
    for order in itertools.permutations(names):
        with Run({"world": world, "steps": steps}) as r:
            for n in order:
                c = r.srv[n].run()
                res[n] = max(res.get(n, 0), c)
    return res


def asks(world, names):
    return []


def t_sched(name, scheds, opts=None):
    """A scenario under each of several schedules; afterwards everything is looked at once more."""
    world, names, steps = scen_steps(name, opts)
    out = []
    for sc in scheds:
        st = steps + [["sched", sc]]
        if "lock" in name:
            st = st + [["send", names[0], L(r_list() + r_list(path=b"a"))], ["run", names[0]],
                       ["send", names[1], L(r_lock(b"a") + r_lock(b"a") + r_unlock(lock_id(b"a")) + r_list())], ["run", names[1]]]
        else:
            o = sha(blob(77, 3000))
            for n, p in zip(names, scenarios()[name][1]):
                st = st + [["send", n, L(r_batch([(o, 5)]) + (r_get(o) if p[1] == "download" else r_verify(o, 3000)))], ["run", n]]
        st = st + [["finishall"]]
        out.append(execute({"world": world, "steps": st}, "%s %s" % (name, json.dumps(sc))))
    return out


def schedules(counts, names, tier, rng, cap):
    """Schedules with few preemptions, all of them if there are not more than cap."""
    out = []
    n = {k: counts[k] for k in names}
    for order in itertools.permutations(names):
        out.append([[x, 10 ** 6] for x in order])
    # one preemption, two preemptions: a runs i, b runs j, a on, b on
    for a, b in itertools.permutations(names, 2):
        for i in range(1, n[a]):
            out.append([[a, i], [b, 10 ** 6], [a, 10 ** 6]])
    two = []
    for a, b in itertools.permutations(names, 2):
        rest = [x for x in names if x not in (a, b)]
        for i in range(1, n[a]):
            for j in range(1, n[b]):
                two.append([[a, i], [b, j], [a, 10 ** 6], [b, 10 ** 6]])
                for c in rest:
                    two.append([[a, i], [b, j], [c, 10 ** 6], [a, 10 ** 6], [b, 10 ** 6]])
                    two.append([[a, i], [b, j], [c, 10 ** 6], [b, 10 ** 6], [a, 10 ** 6]])
    three = []
    for _ in range(cap * 4):
        sc = []
        left = dict(n)
        for _ in range(rng.choice([3, 4, 5, 6])):
            a = rng.choice([x for x in names if not sc or sc[-1][0] != x])
            sc.append([a, rng.randint(1, max(1, n[a] // 2))])
        three.append(sc)
    if len(two) > cap:
        rng.shuffle(two)
        two = two[:cap]
    out += two
    k = max(0, cap - len(two)) + cap // 3
    out += three[:k]
    return out


def conc_tasks(names, tier, seed, cap, opts=None, per=12):
    tasks = []
    for nm in names:
        tasks.append(("t_conc", nm, tier, "%s/%s" % (seed, nm), cap, opts))
    return tasks


def t_conc(name, tier, seed, cap, opts):
    """Enumerates the schedules of a scenario; returns further tasks."""
    rng = random.Random(seed)
    counts = count_steps(name)
    names = scen_steps(name)[1]
    sc = schedules(counts, names, tier, rng, cap)
    return [("t_sched", name, sc[i:i + 8], opts) for i in range(0, len(sc), 8)]


# ------------------------------------------------------ kills and failures

def crash_scenarios():
    b = [77, 3000]
    o = sha(blob(*b))
    put = {"blob": b, "put": {"pk": 1000}}
    bad = L(r_put(blob(79, 3000), oid=o, size=3000))
    la, ua = L(r_lock(b"a")), L(r_unlock(lock_id(b"a")))
    return {
        "put": ({}, "upload", put), "reput": ({"objs": [b]}, "upload", put), "bad": ({}, "upload", bad),
        "rebad": ({"objs": [b]}, "upload", bad),
        "lock": ({"locks": [["b", 0, 400]]}, "upload", la),
        "lock-held": ({"locks": [["a", 0, 500], ["b", 0, 400]]}, "upload", la),
        "unlock": ({"locks": [["a", 0, 500], ["b", 0, 400]]}, "upload", ua),
        "unlock-none": ({"locks": [["b", 0, 400]]}, "upload", ua),
        "lock-unlock": ({}, "upload", la + ua),
        "unlock-lock": ({"locks": [["a", 0, 500]]}, "upload", ua + la),
        "lock-two": ({}, "upload", la + L(r_lock(b"c"))),
        "put-lock": ({}, "upload", L(r_put(b"tiny")) + la),
        "relock": ({"locks": [["a", 0, 500]]}, "upload", la + ua + la),
        "get": ({"objs": [b]}, "download", L(r_get(o))),
        "getbig": ({"objs": [b, [78, 70000]]}, "download", L(r_get(sha(blob(78, 70000))))),
        "getlist": ({"objs": [b], "locks": [["a", 0, 500], ["b", 0, 400]]}, "download", L(r_list() + r_list(path=b"a"))),
        "asks": ({"objs": [b], "locks": [["a", 0, 500], ["b", 0, 400]]}, "upload",
                 L(r_verify(o, 3000) + r_batch([(o, 1), (sha(b"no"), 2)]) + r_list(1))),
    }


def probes_lock(name="P"):
    ids = [lock_id(p) for p in (b"a", b"b", b"c")]
    return [["send", name, L(r_list())], ["run", name],
            ["send", name, L(r_lock(b"a") + r_lock(b"b") + r_lock(b"c"))], ["run", name],
            ["send", name, L(r_list())], ["run", name],
            ["send", name, L(r_unlock(ids[0]) + r_list() + r_lock(b"a") + r_unlock(ids[1]) + r_unlock(ids[2]) + r_list())],
            ["run", name],
            ["send", name, L(r_lock(b"b") + r_unlock(ids[0]) + r_unlock(ids[0]))], ["run", name]]


def probes_put(name="P"):
    o = sha(blob(77, 3000))
    return [["send", name, L(r_batch([(o, 1)]) + r_verify(o, 3000))], ["run", name],
            ["send", name, {"blob": [77, 3000], "put": {}}], ["run", name],
            ["send", name, L(r_batch([(o, 1)]) + r_verify(o, 3000))], ["run", name]]


def crash_probes(scen):
    if "get" in scen:
        o, bo = sha(blob(77, 3000)), sha(blob(78, 70000))
        return [["send", "P", L(r_get(o) + r_get(bo) + r_batch([(o, 1), (bo, 2)]) + r_list())], ["run", "P"]]
    return (probes_put() if scen == "asks" or "put" in scen or "bad" in scen else []) \
        + (probes_lock() if scen == "asks" or "lock" in scen else [])


def t_crash(scen, first, every):
    """Kills the server before each of its calls, then looks at what a later session finds."""
    world, mode, data = crash_scenarios()[scen]
    out = []
    k = first
    while True:
        base = [["open", "K", mode], ["send", "K", data]]
        with Run({"world": world, "steps": base}, "") as r:
            s = r.srv["K"]
            alive = True
            for _ in range(k):
                alive = s.step()
                if not alive:
                    break
            r.do(["kill", "K"])
            steps = base + [["step", "K", k], ["kill", "K"], ["open", "P", "upload"]] + crash_probes(scen) \
                + [["finish", "P"], ["open", "D", "download"], ["send", "D", L(r_list() + r_get(sha(blob(77, 3000))))],
                   ["run", "D"], ["finish", "D"]]
            for st in steps[4:]:
                r.do(st)
            out.append(r.result("%s killed at %d" % (scen, k), {"world": world, "steps": steps}))
        if not alive:
            return out
        k += every


def t_crash_twice(scen1, scen2, pairs):
    """One server is killed, and another one afterwards."""
    w1, m1, d1 = crash_scenarios()[scen1]
    w2, m2, d2 = crash_scenarios()[scen2]
    out = []
    for a, b in pairs:
        steps = [["open", "K", m1], ["send", "K", d1], ["step", "K", a], ["kill", "K"],
                 ["open", "M", m2], ["send", "M", d2], ["step", "M", b], ["kill", "M"],
                 ["open", "P", "upload"]] + probes_lock() + probes_put() + [["finish", "P"]]
        out.append(execute({"world": w1, "steps": steps}, "%s killed at %d, %s at %d" % (scen1, a, scen2, b)))
    return out


def t_crash_conc(name, kills):
    """In a concurrent scenario one session is killed on the way while the other one goes on."""
    world, names, steps = scen_steps(name)
    out = []
    for a, i, j in kills:
        b = [x for x in names if x != a][0]
        st = steps + [["step", a, i], ["step", b, j], ["kill", a], ["run", b], ["finish", b],
                      ["open", "P", "upload", 0, 0 if world.get("uids") else 0o022]] \
            + (probes_lock() if "lock" in name else probes_put()) + [["finish", "P"]]
        out.append(execute({"world": world, "steps": st}, "%s, %s killed at %d/%d" % (name, a, i, j)))
    return out


def crash_tasks(scens, tier, seed, conc=()):
    tasks = []
    for s in scens:
        for f in range(4):
            tasks.append(("t_crash", s, f, 4))
    rng = random.Random("crash%s" % seed)
    pairs = [(a, b) for a in scens for b in scens if "lock" in a and "lock" in b]
    rng.shuffle(pairs)
    for a, b in pairs[:40 if tier == "thorough" else 6]:
        tasks.append(("t_crash_twice", a, b, [(rng.randint(1, 14), rng.randint(1, 16)) for _ in range(8)]))
    for nm in conc:
        names = scen_steps(nm)[1][:2]
        ks = [(a, i, j) for a in names for i in range(1, 14) for j in range(0, 12)]
        rng.shuffle(ks)
        ks = ks if tier == "thorough" else ks[:32]
        for i in range(0, len(ks), 8):
            tasks.append(("t_crash_conc", nm, ks[i:i + 8]))
    return tasks


ERRNOS = [("EIO", errno.EIO), ("ENOSPC", errno.ENOSPC), ("EACCES", errno.EACCES), ("ENOENT", errno.ENOENT),
          ("EEXIST", errno.EEXIST), ("EMFILE", errno.EMFILE), ("EINTR", errno.EINTR), ("EPERM", errno.EPERM),
          ("EDQUOT", errno.EDQUOT), ("EROFS", errno.EROFS)]

FAULT_SCENS = ["put", "reput", "bad", "lock", "lock-held", "unlock", "lock-unlock", "unlock-lock", "put-lock", "relock"]
GET_SCENS = ["get", "getbig", "getlist", "asks"]


def t_fault(scen, errs, first, every, shorts=False):
    """Lets each call of the server fail in turn; the session goes on and is asked again."""
    world, mode, data = crash_scenarios()[scen]
    out = []
    for name, num in errs:
        k = first
        while True:
            base = [["open", "K", mode], ["send", "K", data]]
            hit = False
            with Run({"world": world, "steps": base}, "") as r:
                s = r.srv["K"]
                alive = True
                for _ in range(k):
                    alive = s.step()
                    if not alive:
                        break
                if alive and s.code is None and s.stop["call"] != "stdin":
                    call = s.stop["call"]
                    if shorts:
                        steps = base + [["step", "K", k], ["short", "K", num]]
                        if call in ("write", "read", "copy", "sendfile"):
                            r.do(["short", "K", num])
                            hit = True
                    else:
                        steps = base + [["step", "K", k], ["fail", "K", num, name]]
                        r.do(["fail", "K", num, name])
                        hit = True
                if hit:
                    more = [["run", "K"]] + [[("K" if x == "P" else x) for x in st] for st in crash_probes(scen)] \
                        + [["finish", "K"], ["open", "D", "download"],
                           ["send", "D", L(r_list() + r_get(sha(blob(77, 3000))))], ["run", "D"], ["finish", "D"]]
                    for st in more:
                        r.do(st)
                    out.append(r.result("%s: %s of call %d (%s)" % (scen, name, k, call),
                                        {"world": world, "steps": steps + more}))
            if not alive or s.code is not None and not hit:
                break
            k += every
    return out


def short_tasks(scens, tier):
    """Reads and writes that move fewer bytes than asked for."""
    return [("t_fault", s, [("short", n)], 0, 1, True) for s in scens for n in ([1, 2, 3, 100, 1000, 4096] if tier == "thorough" else [1, 1000])]


def read_fault_tasks(tier):
    return [("t_fault", s, [e], 0, 1) for s in GET_SCENS for e in (ERRNOS if tier == "thorough" else [ERRNOS[0], ERRNOS[2], ERRNOS[6]])] \
        + short_tasks(GET_SCENS, tier)


def fault_tasks(tier, seed):
    tasks = []
    errs = ERRNOS if tier == "thorough" else ERRNOS[:7]
    for s in FAULT_SCENS:
        for e in errs:
            tasks.append(("t_fault", s, [e], 0, 1))
        for n in ([0, 1, 3, 100] if tier == "thorough" else [1]):
            if n:
                tasks.append(("t_fault", s, [("short", n)], 0, 1, True))
    return tasks


# what may plausibly go wrong with a call, beyond the errors that all of them are given
SPECIAL = {"rename": ["EXDEV", "EBUSY", "ENOTEMPTY", "EISDIR", "EPERM"], "link": ["EPERM", "EXDEV", "EMLINK", "EOPNOTSUPP", "ENOSYS"],
           "write": ["EDQUOT", "EFBIG", "EAGAIN", "EPIPE"], "unlink": ["EPERM", "EBUSY", "EISDIR"], "chmod": ["EPERM", "EROFS", "EOPNOTSUPP"],
           "mkdir": ["EMLINK", "EROFS", "EDQUOT"], "open": ["EROFS", "ENFILE", "ENOTDIR", "EISDIR", "ELOOP", "ETXTBSY", "ENXIO", "EPERM"],
           "stat": ["ENOTDIR", "ELOOP", "EOVERFLOW"], "fsync": ["EINVAL", "EROFS"], "ftruncate": ["EINVAL", "EFBIG"],
           "fallocate": ["EOPNOTSUPP"], "copy": ["EXDEV", "EOPNOTSUPP", "EINVAL"], "read": ["EISDIR", "EAGAIN"], "getdents": ["ENOTDIR"]}


def t_fault_special(scen, part, of):
    """Each call fails in the ways that are particular to it."""
    world, mode, data = crash_scenarios()[scen]
    base = [["open", "K", mode], ["send", "K", data]]
    calls = []
    with Run({"world": world, "steps": base}, "") as r:
        s = r.srv["K"]
        while s.code is None and s.stop:
            calls.append(s.stop["call"])
            if not s.step():
                break
    out = []
    todo = [(k, c, e) for k, c in enumerate(calls) for e in SPECIAL.get(c, [])]
    for k, c, e in todo[part::of]:
        more = [["run", "K"]] + [[("K" if x == "P" else x) for x in st] for st in crash_probes(scen)] \
            + [["finish", "K"], ["open", "D", "download"],
               ["send", "D", L(r_list() + r_get(sha(blob(77, 3000))))], ["run", "D"], ["finish", "D"]]
        out.append(execute({"world": world, "steps": base + [["step", "K", k], ["fail", "K", getattr(errno, e), e]] + more},
                           "%s: %s of call %d (%s)" % (scen, e, k, c)))
    return out


def special_tasks(scens, of=2):
    return [("t_fault_special", s, i, of) for s in scens for i in range(of)]


def t_deaf(scen, first, every):
    """The client stops reading before each of the server's calls, and another client looks at what is left."""
    world, mode, data = crash_scenarios()[scen]
    out = []
    k = first
    while True:
        steps = [["open", "K", mode], ["send", "K", data], ["step", "K", k]]
        with Run({"world": world, "steps": steps}, "") as r:
            alive = r.srv["K"].code is None and not r.srv["K"].idle()
            more = [["deaf", "K"], ["run", "K"], ["send", "K", L(r_version())], ["finish", "K"], ["open", "P", mode]] + crash_probes(scen) + [["finish", "P"]]
            for st in more:
                r.do(st)
            out.append(r.result("%s: nobody reads from call %d on" % (scen, k), {"world": world, "steps": steps + more}))
        if not alive:
            return out
        k += every


def t_deaf_in(scen, at):
    """The client stops reading within an answer."""
    world, mode, data = crash_scenarios()[scen]
    out = []
    for n in at:
        steps = [["open", "K", mode], ["deaf", "K", n], ["send", "K", data], ["run", "K"], ["finish", "K"], ["open", "P", mode]] + crash_probes(scen) + [["finish", "P"]]
        out.append(execute({"world": world, "steps": steps}, "%s: %d bytes are read" % (scen, n)))
    return out


def t_deaf_huge(n):
    """Objects of gigabytes are asked for; the client has enough after the first packets."""
    import core
    o = core.ZEROS[n]
    steps = [["open", "d", "download"], ["deaf", "d", 60000], ["send", "d", L(r_get(o))], ["run", "d"], ["finish", "d"]]
    return [execute({"world": {"zeros": [n]}, "steps": steps}, "the start of an object of %d bytes" % n)]


def deaf_tasks(scens, every=1):
    return [("t_deaf", s, i, every) for s in scens for i in range(every)] + \
        [("t_deaf_in", s, [1, 4, 15, 16, 17, 30, 60] + ([500, 1500, 20000, 66000] if "big" in s else [])) for s in scens]


def deaf_huge_tasks():
    import core
    return [("t_deaf_huge", n) for n in sorted(core.ZEROS)]


def t_start_mid(scen, kind, first, every):
    """While a server is in the middle of its request, another one comes and goes."""
    world, mode, data = crash_scenarios()[scen]
    asks_ = L(r_list() + (r_batch([(sha(blob(77, 3000)), 1)]) if "lock" not in scen else b""))
    comes = {"eof": [["open", "M", "upload"], ["finish", "M"]],
             "asks": [["open", "M", "download"], ["send", "M", asks_], ["run", "M"], ["send", "M", L(r_quit())], ["run", "M"], ["finish", "M"]],
             "dies": [["open", "M", "upload"], ["kill", "M"]],
             "stays": [["open", "M", "upload"], ["send", "M", asks_], ["run", "M"]],
             "bad": [["open", "M", "upload"], ["send", "M", L(r_put(blob(81, 700), oid=sha(b"zz"), size=700) + r_unlock(lock_id(b"c")))], ["run", "M"], ["finish", "M"]]}[kind]
    out = []
    k = first
    base = [["open", "K", mode], ["send", "K", data]]
    while True:
        with Run({"world": world, "steps": base}, "") as r:
            s = r.srv["K"]
            alive = True
            for _ in range(k):
                alive = s.step()
                if not alive:
                    break
            more = comes + [["run", "K"]] + [[("K" if x == "P" else x) for x in st] for st in crash_probes(scen)] \
                + ([["send", "M", asks_], ["run", "M"], ["finish", "M"]] if kind == "stays" else []) \
                + [["finish", "K"], ["open", "D", "download"], ["send", "D", L(r_list() + r_get(sha(blob(77, 3000))))],
                   ["run", "D"], ["finish", "D"]]
            for st in more:
                r.do(st)
            out.append(r.result("%s, another %s at %d" % (scen, kind, k), {"world": world, "steps": base + [["step", "K", k]] + more}))
        if not alive:
            return out
        k += every


def start_mid_tasks(scens, kinds=("eof", "asks", "dies", "stays", "bad"), tier="quick"):
    if tier == "thorough":
        kinds = ("eof", "asks", "dies", "stays", "bad")
    return [("t_start_mid", s, k, i, 2) for s in scens for k in kinds for i in range(2)]


# -------------------------------------------------------- kinds of content

def contents():
    """Bodies that a careless program might take for something else."""
    c = [b"\0", b"\0" * 4096, b"\n", b"\r\n", b"\xff\xfe", b"0000", b"0001", b"0000" * 64, b"0009done\n", b"quit\n", b"000bstatus 200\n",
         b"a\n", b"a", b"a\r\n", b"a\0", b"a ", b" a", b"\x1a", b"\x80" * 100, b"\xf4\x90\x80\x80", b"v1:1:x", b"version https://git-lfs.github.com/spec/v1\noid sha256:" + b"0" * 64 + b"\nsize 1\n",
         b"\xef\xbb\xbfbom", b"\0" * 65516, b"0000" * 16379, bytes(range(256)) * 3, b"\n" * 5000, b"-", b"%s%n\0", b"\0tail", b"head\0" + b"\0" * 4095]
    return c


def t_contents(which, pk):
    """Each of them is uploaded, asked for, sent again, and refused under another name."""
    out = []
    cs = contents()
    for i in which:
        d = cs[i]
        o = sha(d)
        steps = [["open", "u", "upload"], ["open", "d", "download"],
                 ["send", "u", L(r_put(d, oid=sha(d + b"!"), size=len(d), pk=pk) + r_batch([(o, len(d)), (sha(d + b"!"), 1)]))], ["run", "u"],
                 ["send", "u", L(r_put(d, pk=pk) + r_verify(o, len(d)) + r_verify(o, len(d) + 1) + r_batch([(o, len(d))]))], ["run", "u"],
                 ["send", "d", L(r_get(o) + r_batch([(o, 1)]))], ["run", "d"],
                 ["send", "u", L(r_put(d[:-1], oid=o, size=len(d)) + r_put(d + b"\n", oid=o, size=len(d) + 1) + r_put(d, pk=pk + 3))], ["run", "u"],
                 ["send", "d", L(r_get(o) + r_get(o))], ["run", "d"], ["finishall"]]
        out.append(execute({"world": {}, "steps": steps}, "content %d in packets of %d" % (i, pk)))
    return out


def content_tasks(tier):
    n = len(contents())
    return [("t_contents", list(range(i, n, 4)), pk) for i in range(4) for pk in ([1000, 65516] if tier == "quick" else [1, 4, 5, 1000, 65515, 65516])
            if pk > 100 or i == 0]


def t_modes_objs(modes):
    """Objects that are there with various modes are sent again, asked for, and sent wrongly."""
    out = []
    for m in modes:
        b = [77, 3000]
        o = sha(blob(*b))
        f = "objects/%s/%s/%s" % (o[:2], o[2:4], o)
        steps = [["open", "u", "upload"], ["open", "d", "download"], ["send", "d", L(r_get(o))], ["run", "d"],
                 ["send", "u", L(r_batch([(o, 3000)]) + r_verify(o, 3000))], ["run", "u"],
                 ["send", "u", {"blob": b, "put": {"pk": 1000}}], ["run", "u"],
                 ["send", "u", L(r_put(blob(79, 3000), oid=o, size=3000) + r_verify(o, 3000) + r_batch([(o, 1)]))], ["run", "u"],
                 ["send", "d", L(r_get(o))], ["run", "d"], ["finishall"]]
        out.append(execute({"world": {"objs": [b], "modes": {f: m}}, "steps": steps}, "object of mode %s" % m))
    return out


def t_linked(which):
    """Parts of the store lie elsewhere, behind symbolic links; nothing changes for the clients."""
    b, c = [77, 3000], [78, 70000]
    o, oc = sha(blob(*b)), sha(blob(*c))
    f = "objects/%s/%s/%s" % (o[:2], o[2:4], o)
    ways = {"file": [f], "dir": ["objects/" + o[:2]], "objects": ["objects"], "locks": ["locks"], "incomplete": ["incomplete"],
            "all": ["objects", "locks", "incomplete", "tmp"], "lfs": ["."], "both": [f, "objects"]}
    out = []
    for w in which:
        steps = [["open", "u", "upload"], ["open", "d", "download"],
                 ["send", "u", L(r_batch([(o, 1), (oc, 2), (sha(b"no"), 3)]) + r_verify(o, 3000) + r_verify(o, 2999) + r_verify(oc, 70000) + r_list())], ["run", "u"],
                 ["send", "d", L(r_get(o) + r_get(oc) + r_batch([(o, 7)]) + r_list())], ["run", "d"],
                 ["send", "u", {"blob": b, "put": {"pk": 1000}}], ["run", "u"],
                 ["send", "u", {"blob": [80, 500], "put": {}}], ["run", "u"],
                 ["send", "u", L(r_put(blob(79, 3000), oid=o, size=3000) + r_verify(o, 3000) + r_lock(b"a") + r_lock(b"b") + r_unlock(lock_id(b"b")) + r_list())], ["run", "u"],
                 ["send", "d", L(r_get(o) + r_get(sha(blob(80, 500))) + r_list())], ["run", "d"], ["finishall"]]
        out.append(execute({"world": {"objs": [b, c], "locks": [["b", 0, 400]], "links": ways[w]}, "steps": steps}, "symbolic link: %s" % w))
    return out


def linked_tasks():
    return [("t_linked", [w]) for w in ("file", "dir", "objects", "locks", "incomplete", "all", "lfs", "both")]


def t_fault_mid(scen, rivals, part, of, errs=3):
    """A call fails, and on the way from there another client does the same or the opposite."""
    world, mode, data = crash_scenarios()[scen]
    base = [["open", "K", mode], ["send", "K", data]]
    la, ua = L(r_lock(b"a") + r_list(path=b"a")), L(r_unlock(lock_id(b"a")) + r_list(path=b"a"))
    do = {"lock": [["send", "M", la]], "unlock": [["send", "M", ua]], "relock": [["send", "M", ua], ["run", "M"], ["send", "M", la]],
          "put": [["send", "M", {"blob": [77, 3000], "put": {}}]], "bad": [["send", "M", L(r_put(blob(79, 3000), oid=sha(blob(77, 3000)), size=3000))]]}
    calls = []
    with Run({"world": world, "steps": base}, "") as r:
        s = r.srv["K"]
        while s.code is None and s.stop:
            calls.append(s.stop["call"])
            if not s.step():
                break
    todo = [(k, c, e, v) for k, c in enumerate(calls) for e in SPECIAL.get(c, [])[:errs] + (["EIO", "ENOENT", "EEXIST"] if errs > 2 else []) for v in rivals if c != "stdin"]
    out = []
    for k, c, e, v in todo[part::of]:
        j = 0
        while True:
            steps = base + [["open", "M", "upload"], ["step", "K", k], ["fail", "K", getattr(errno, e), e], ["step", "K", j]]
            with Run({"world": world, "steps": steps}, "") as r:
                s = r.srv["K"]
                alive = s.code is None and s.stop and s.stop["call"] != "stdin"
                more = do[v] + [["run", "M"], ["run", "K"]] + crash_probes(scen)
                more = [[("K" if x == "P" else x) for x in st] for st in more] + [["finish", "K"], ["finish", "M"]]
                for st in more:
                    r.do(st)
                out.append(r.result("%s: %s of call %d (%s), %s %d later" % (scen, e, k, c, v, j), {"world": world, "steps": steps + more}))
            if not alive or j > 12:
                break
            j += 1
    return out


def fault_mid_tasks(scens, rivals, tier="quick", of=4):
    if tier == "thorough":
        return [("t_fault_mid", s, r, i, of) for s in scens for i in range(of)
                for r in ([["lock"], ["unlock"], ["relock"]] if "lock" in s else [["put"], ["bad"]])]
    return [("t_fault_mid", s, rivals, i, of, 2) for s in scens for i in range(of)]


# --------------------------------------------- truncation and transport

def cut_streams():
    o = sha(b"tiny body")
    W = {"texts": ["some object"], "locks": [["a", 0, 500]]}
    s1 = r_put(b"tiny body", pk=4)
    s2 = r_lock(b"b") + r_unlock(lock_id(b"a"))
    s3 = r_version() + r_verify(O1, 11) + r_batch([(O1, 11)]) + r_list()
    s4 = r_put(b"wrong", oid=o, size=5) + r_lock(b"a")
    # bodies that a careless server could take for requests or for complete
    s5 = pkt(b"put-object " + o.encode() + b"\n") + pkt(b"size=9\n") + DELIM + pkt(b"tiny body") + DELIM + FLUSH
    s6 = pkt(b"lock\n") + pkt(b"path=b\n") + pkt(b"refname=r\n") + pkt(b"x=y\n") + FLUSH
    d1 = r_get(O1) + r_batch([(O1, 11)]) + r_list() + r_version()
    return {"put": (W, "upload", s1), "locks": (W, "upload", s2), "asks": (W, "upload", s3), "bad": (W, "upload", s4),
            "put-delim": (W, "upload", s5), "lock4": (W, "upload", s6), "down": (W, "download", d1)}


def t_cut(name, points, chunk=60000):
    world, mode, data = cut_streams()[name]
    out = []
    for k in points:
        steps = [["open", "s", mode, 0, 0o022, {"chunk": chunk}], ["send", "s", L(data[:k])], ["finish", "s"],
                 ["open", "P", "upload"], ["send", "P", L(r_batch([(sha(b"tiny body"), 9), (O1, 1)]) + r_list())],
                 ["run", "P"], ["finish", "P"]]
        out.append(execute({"world": world, "steps": steps}, "%s cut at byte %d" % (name, k)))
    return out


def t_cut_big(points):
    """A larger upload, cut within and between its packets."""
    data = r_put(blob(5, 140000), pk=65516)
    out = []
    for k in points:
        k = k if k >= 0 else len(data) + k
        steps = [["open", "s", "upload"], ["send", "s", L(data[:k])], ["finish", "s"]]
        out.append(execute({"steps": steps}, "large upload cut at byte %d" % k))
    return out


def cut_tasks(tier):
    tasks = []
    for name, (_w, _m, data) in cut_streams().items():
        pts = list(range(len(data) + 1))
        if tier != "thorough":
            # every packet boundary and its surroundings, and every third byte
            ps = set()
            i = 0
            while i < len(data):
                n = max(int(data[i:i + 4], 16), 4)
                for d in range(0, 6):
                    ps.add(min(len(data), i + d))
                ps.update((i + n - 1, i + n))
                i += n
            pts = sorted(ps | set(range(0, len(data) + 1, 3)))
        for i in range(0, len(pts), 16):
            tasks.append(("t_cut", name, pts[i:i + 16]))
    tasks.append(("t_cut_big", [0, 4, 80, 100, 101, 5000, 65600, 65620, 65635, 70000, 131150, 131160, -9, -8, -5, -4, -3, -1]))
    return tasks


def chunk_tasks(tier, seed):
    ch = [1, 2, 3, 5, 64] if tier == "thorough" else [1, 3, 7]
    t = []
    for i, c in enumerate(ch):
        for j in range(2 if tier != "thorough" else 6):
            t.append(("t_random", "%s.chunk%d.%d" % (seed, i, j), 15,
                      {"chunk": c, "sizes": [0, 60, 500], "pipelined": True}))
    return t


# -------------------------------------------------------- pipelined streams

def t_pipeline(seed, n):
    """One long stream of many requests, refused ones with request-like bodies among them, then the end."""
    rng = random.Random("pipe%s" % (seed,))
    out = []
    for mode in ("upload", "download"):
        g = Gen(rng, sizes=[5, 300, 0])
        M, W = malformed(mode), wellformed(mode)
        inner = [r_lock(b"smuggled"), r_quit(), r_unlock(lock_id(b"a")), r_put(b"smuggled"), r_version()]
        parts = []
        for _ in range(n):
            k = rng.randrange(6)
            if k == 0:
                parts.append(M[rng.choice(sorted(M))])
            elif k == 1:
                parts.append(W[rng.choice(sorted(W))])
            elif k == 2:
                # an upload whose data look like requests, refused or not
                body = rng.choice(inner)
                o = rng.choice([sha(body), sha(b"?"), "nonsense", sha(body).upper()])
                sz = rng.choice([len(body), len(body) - 1, -1])
                packs, _r, _s = split_packets(body)
                payload = [p for p in packs if isinstance(p, bytes)]
                if rng.random() < 0.5:
                    payload = [body]
                parts.append(L(request_bytes(b"put-object " + o.encode() + b"\n", [b"size=%d\n" % sz], body=payload)))
            else:
                x = g.req(mode)
                parts.append(x if isinstance(x, str) else L(data_of(x)))
        stream = "".join(parts)
        if rng.random() < 0.3:
            stream += L(r_quit() + r_lock(b"late"))
        steps = [["open", "s", mode], ["send", "s", stream], ["finish", "s"]]
        out.append(execute({"world": BASIC, "steps": steps}, "pipeline %s %s" % (mode, seed)))
    return out


def pipeline_tasks(seed, count, n=14):
    return [("t_pipeline", "%s.%d" % (seed, i), n) for i in range(count)]


def t_pipeline_cut(seed, n):
    """A stream of several requests that ends somewhere in its last third."""
    rng = random.Random("pcut%s" % (seed,))
    out = []
    for _ in range(n):
        g = Gen(rng, sizes=[rng.choice([5, 300, 2000]), 0, 65516])
        parts = [g.req("upload", ["put", "put", "lock", "lock", "unlock", "batch", "verify", "version"]) for _ in range(rng.choice([1, 2, 3]))]
        data = b"".join(data_of(x) for x in parts)
        k = rng.randrange(len(data) * 2 // 3, len(data))
        for k in {k, len(data) - rng.choice([1, 2, 3, 4])}:
            steps = [["open", "s", "upload", 0, 0o022, {"chunk": rng.choice([60000, 60000, 500])}], ["send", "s", L(data[:k])], ["finish", "s"]]
            out.append(execute({"world": BASIC, "steps": steps}, "stream %s cut at byte %d" % (seed, k)))
    return out


def pipeline_cut_tasks(seed, count, per=6):
    return [("t_pipeline_cut", "%s.%d" % (seed, i), per) for i in range(max(1, count // per))]


# ------------------------------------------------------ malformed framing

def t_framing(mode, cases):
    """Requests, then a malformed packet in some place, then requests that must not be carried out."""
    out = []
    for lab, data in cases:
        steps = [["open", "s", mode], ["send", "s", data], ["finish", "s"]]
        out.append(execute({"world": BASIC, "steps": steps}, "framing %s %s" % (mode, lab)))
    return out


BAD_HEADERS = [b"0002", b"0003", b"fff1", b"fff2", b"ffff", b"fff5", b"000A", b"00FF", b"+00a", b"-001", b" 10a", b"00g0",
               b"0x0a", b"\x00\x00\x00\x0a", b"1e1\n", b"++++", b"+005", b"-000", b"000\xff", b"\xc3\xa900", b"....", b"000 ", b"\n000"]


def framing_cases(mode):
    after = r_lock(b"evil") + r_put(b"evil object") + r_unlock(lock_id(b"a")) + r_version() + r_get(O1)
    ok = r_version()
    o = sha(b"some body!")
    pre = {
        "first": b"", "after-request": ok,
        "in-args": pkt(b"lock\n") + pkt(b"path=b\n"),
        "in-put-args": pkt(b"put-object " + o.encode() + b"\n"),
        "in-body": pkt(b"put-object " + o.encode() + b"\n") + pkt(b"size=10\n") + DELIM + pkt(b"some "),
        "in-body-complete": pkt(b"put-object " + o.encode() + b"\n") + pkt(b"size=10\n") + DELIM + pkt(b"some body!"),
        "in-batch": pkt(b"batch\n") + DELIM,
        "in-refused": pkt(b"put-object nonsense\n") + pkt(b"size=1\n") + DELIM,
        "in-unknown": pkt(b"zap\n"),
        "in-unlock": pkt(b"unlock " + lock_id(b"a").encode() + b"\n"),
        "in-quitless": pkt(b"list-lock\n"),
    }
    cases = []
    for p, b in pre.items():
        for h in BAD_HEADERS:
            cases.append(("%s %r" % (p, h), L(ok + b + h + pkt(b"x=y\n") + FLUSH + after)))
            cases.append(("%s %r 0" % (p, h), L(ok + b + h + FLUSH + after + FLUSH)))
    return cases


def framing_tasks(tier, seed):
    rng = random.Random("fr%s" % seed)
    tasks = []
    for mode in ("upload", "download"):
        cs = framing_cases(mode)
        if tier != "thorough":
            rng.shuffle(cs)
            cs = cs[:130 if mode == "upload" else 50]
        for i in range(0, len(cs), 10):
            tasks.append(("t_framing", mode, cs[i:i + 10]))
    return tasks


# ------------------------------------------------------------------ fuzzing

def t_fuzz(seed, count):
    rng = random.Random("fuzz%s" % (seed,))
    out = []
    seeds = []
    for mode in ("upload", "download"):
        for d in list(malformed(mode).values()) + list(wellformed(mode).values()):
            seeds.append(d.encode("latin-1"))
    for i in range(count):
        mode = rng.choice(["upload", "upload", "download"])
        b = bytearray(b"".join(rng.choice(seeds) for _ in range(rng.choice([1, 1, 2, 3, 5]))))
        style = rng.randrange(5)
        if style == 0:
            b = bytearray(rng.randbytes(rng.choice([1, 3, 4, 5, 20, 400, 5000])))
        elif style == 4:
            # packets of arbitrary content, well framed
            b = bytearray()
            for _ in range(rng.randint(1, 12)):
                k = rng.randrange(6)
                if k == 0:
                    b += FLUSH
                elif k == 1:
                    b += DELIM
                else:
                    words = [b"put-object", b"lock", b"unlock", b"list-lock", b"batch", b"get-object", b"verify-object",
                             b"version", b"quit", O1.encode(), b"1", b" ", b"\n", b"=", b"size=11", b"path=a", b"limit=",
                             b"cursor=", b"\xff\xfe", b"\0", b"refname=r", b"hash-algo=sha256", lock_id(b"a").encode()]
                    b += pkt(b"".join(rng.choice(words) for _ in range(rng.randint(0, 4))) + rng.choice([b"", b"\n"]))
        for _ in range(rng.choice([0, 1, 1, 2, 4, 10]) if style != 4 else 0):
            if not b:
                break
            p = rng.randrange(len(b))
            k = rng.randrange(6)
            if k == 0:
                b[p] = rng.randrange(256)
            elif k == 1:
                b[p] ^= 1 << rng.randrange(8)
            elif k == 2:
                del b[p:p + rng.choice([1, 4, 10])]
            elif k == 3:
                b[p:p] = rng.choice([FLUSH, DELIM, b"0004", b"0005\n", b"fff0", b"\n", b" ", b"\0"])
            elif k == 4:
                q = rng.randrange(len(b))
                b[p:p] = b[q:q + rng.randrange(40)]
            else:
                b[p:p + 4] = rng.choice([b"0000", b"0001", b"0002", b"fff0", b"fff1", b"ffff", b"0010"])
        if rng.random() < 0.2:
            b = b[:rng.randrange(len(b) + 1)]
        steps = [["open", "s", mode, 0, 0o022, {"chunk": rng.choice([60000, 60000, 7, 100])}],
                 ["send", "s", L(bytes(b))], ["finish", "s"]]
        out.append(execute({"world": BASIC, "steps": steps}, "fuzz %s.%d" % (seed, i)))
    return out


def long_values():
    """Values of many lengths in characters of several bytes, so that every cut may fall into one."""
    out = []
    for c in ("\u20ac", "\xe9", "\U0001f600", "a"):
        for n in (10, 15, 16, 20, 31, 32, 33, 40, 50, 63, 64, 66, 80, 85, 100, 127, 128, 200, 255, 256, 333, 1000, 5000, 16000):
            for pad in range(len(c.encode())):
                out.append(b"x" * pad + c.encode() * n)
    out += [b"\xff" * n for n in (1, 31, 64, 100, 333)] + [b"\xe2\x82" * n for n in (1, 50, 100)]
    return [v for v in out if len(v) < 65000]


def t_messages(lo, hi):
    """Values that appear in messages to the client."""
    out = []
    for v in long_values()[lo:hi]:
        reqs = [request_bytes(b"batch\n", [b"hash-algo=" + v + b"\n"], lines=[]), request_bytes(b"batch\n", lines=[v + b" 1\n"]),
                request_bytes(b"batch\n", lines=[O1.encode() + b" " + v + b"\n"]), request_bytes(b"batch\n", lines=[v + b"\n"]),
                request_bytes(b"verify-object " + v + b"\n", [b"size=1\n"]), request_bytes(b"verify-object " + O1.encode() + b"\n", [b"size=" + v + b"\n"]),
                request_bytes(b"put-object " + v + b"\n", [b"size=1\n"], body=[b"x"]),
                request_bytes(b"put-object " + O1.encode() + b"\n", [b"size=" + v + b"\n"], body=[b"x"]),
                request_bytes(b"list-lock\n", [b"limit=" + v + b"\n"]), request_bytes(b"list-lock\n", [v + b"\n"]),
                request_bytes(b"list-lock\n", [b"cursor=" + v + b"\n"]), request_bytes(b"list-lock\n", [b"path=" + v + b"\n"]),
                request_bytes(b"lock\n", [b"path=" + v + b"\n"]), request_bytes(b"lock\n", [b"path=b\n", b"refname=" + v]),
                request_bytes(b"unlock " + v + b"\n"), request_bytes(v + b"\n"), request_bytes(b"version " + v + b"\n"),
                request_bytes(b"lock\n", [b"path=" + v[:4000] + b"\n", b"refname=" + v + b"\n"]) * 2, r_version()]
        steps = [["open", "s", "upload"], ["send", "s", L(b"".join(reqs))], ["run", "s"], ["finish", "s"],
                 ["open", "d", "download"], ["send", "d", L(request_bytes(b"get-object " + v + b"\n") + reqs[0] + r_list())], ["finish", "d"]]
        out.append(execute({"world": BASIC, "steps": steps}, "value of %d bytes" % len(v)))
    return out


def message_tasks(tier):
    v = long_values()
    if tier == "thorough":
        return [("t_messages", i, i + 6) for i in range(0, len(v), 6)]
    # the specification reads packets of up to 5000 bytes letter by letter: few of those here
    return [("t_messages", i, i + 1) for i in range(len(v)) if len(v[i]) <= 700 and i % 5 < 2 or i % 17 == 3]


def fuzz_tasks(seed, count, per=15):
    return [("t_fuzz", "%s.%d" % (seed, i), per) for i in range(count // per)]


def lockfile_contents():
    p = b"a"
    return [b"", b"v1", b"v1:", b"v1::", b"v1::a", b"v1:5", b"v1:5:", b"v1:x:a", b"v2:5:a", b"v1:5:b", b"v1:-5:a",
            b"v1:99999999999999:a", b"v1:9223372036854775807:a", b"v1:-9223372036854775808:a", b"v1:9223372036854775808:a",
            b"v1:8210298412799:a", b"v1:8210266876800:a", b"v1:-8334632851200:a", b"v1:253402300800:a", b"v1:-62135596801:a",
            b"v1:+5:a", b"v1: 5:a", b"v1:5 :a", b"v1:5:a\n", b"\xff\xfe", b"v1:\xff:a", b"v1:5:\xff", b":" * 1000,
            b"v1:5:a:b:c", b"v1:" + b"9" * 1000 + b":a", b"\0" * 100, b"v1:5:" + b"x" * 70000, b"v1\n:5:a", b"V1:5:a", b"v1:5:a\0"]


def t_lockfiles(indices):
    out = []
    for i in indices:
        c = lockfile_contents()[i]
        for extra in (True, False):
            files = {"locks/" + lock_id(b"a"): L(c)}
            if extra:
                files.update({"locks/garbage": "x", "locks/" + "0" * 64: L(c), "locks/" + "f" * 63: "v1:5:a",
                              "locks/" + lock_id(b"z").upper(): "v1:5:z", "locks/" + lock_id(b"a") + ".lock": "v1:5:a",
                              "locks/\xff\xfe": "v1:5:a", "locks/" + lock_id(b"dir"): None})
            for mode in ("upload", "download"):
                data = r_list() + r_list(1) + r_list(path=b"a") + r_lock(b"a") + r_unlock(lock_id(b"a")) + r_unlock("0" * 64) \
                    + r_list(path=b"dir") + r_lock(b"dir") + r_unlock(lock_id(b"dir")) + r_lock(b"b") + r_list() + r_lock(b"a") + r_version()
                steps = [["open", "s", mode], ["send", "s", L(data)], ["finish", "s"]]
                out.append(execute({"world": {"locks": [["q", 0, 100]], "files": files}, "steps": steps},
                                   "lock file %d %s %s" % (i, extra, mode)))
    return out


def lockfile_tasks(tier):
    n = len(lockfile_contents())
    return [("t_lockfiles", list(range(i, min(n, i + 3)))) for i in range(0, n, 3)]


def t_oddlocks(indices):
    """Files in the directory of the locks that are plainly no lock records: they are not listed
    and keep nothing else from being listed, taken or released."""
    plain = [b"", b"v1", b"v1:", b"v1::", b"v1:5", b"v1:5:", b"v1:x:a", b"v2:5:a", b"v1:5:b", b"v1:5:aa", b"v1:5:A", b"\xff\xfe",
             b"v1:\xff:a", b":" * 1000, b"v1:" + b"9" * 1000 + b":a", b"\0" * 100, b"v1:5:" + b"x" * 70000, b"V1:5:a", b"v1\n:5:a", b"5:a"]
    out = []
    for i in [j for j in indices if j < len(plain)]:
        c = plain[i]
        for extra in range(3):
            files = {"locks/" + lock_id(b"a"): L(c)}
            if extra:
                files.update({"locks/garbage": "x", "locks/" + "0" * 64: L(c), "locks/" + "f" * 64: L(c), "locks/" + "f" * 63: "v1:5:a",
                              "locks/" + lock_id(b"z").upper(): "v1:5:z", "locks/" + lock_id(b"a") + ".lock": "v1:5:a",
                              "locks/\xff\xfe": "v1:5:a"})
            if extra == 2:
                files["locks/" + lock_id(b"dir")] = None
            for mode in ("upload", "download"):
                data = r_list() + r_list(1) + r_list(path=b"q") + r_unlock(lock_id(b"q0")) + r_lock(b"b") + r_list(2) + r_lock(b"q") \
                    + r_list(1, lock_id(b"q")) + r_list(3) + r_unlock(lock_id(b"b")) + r_list() + r_version()
                steps = [["open", "s", mode], ["pages", "s", 1], ["pages", "s", 2], ["send", "s", L(data)], ["run", "s"], ["pages", "s", 1], ["finish", "s"]]
                out.append(execute({"world": {"locks": [["q", 0, 100], ["q0", 0, 90], ["q1", 0, 80]], "files": files}, "steps": steps},
                                   "odd lock file %d %d %s" % (i, extra, mode)))
    return out


def oddlock_tasks():
    return [("t_oddlocks", [i, i + 1]) for i in range(0, 20, 2)]


# ------------------------------------------------------------------- locks

def t_paging(seed, n, limit, dynamic):
    """Many locks, read page by page, while others lock and unlock between the pages."""
    rng = random.Random("page%s" % (seed,))
    locks = [["p%d" % i, 0, 1000 + i] for i in range(n)]
    between = {}
    if dynamic:
        for pg in range(1, 8):
            st = []
            for _ in range(rng.randint(1, 3)):
                if rng.random() < 0.5 and n:
                    st += [["send", "w", L(r_unlock(lock_id(b"p%d" % rng.randrange(n))))], ["run", "w"]]
                else:
                    st += [["send", "w", L(r_lock(b"n%d" % rng.randrange(50)))], ["run", "w"]]
            between[str(pg)] = st
    out = []
    for mode in ("upload", "download"):
        steps = [["open", "s", mode], ["open", "w", "upload"], ["pages", "s", limit, between],
                 ["send", "s", L(r_list(limit or 100, rng.choice("0123456789abcdef") * 64) + r_list(None, lock_id(b"p%d" % rng.randrange(max(1, n)))))],
                 ["run", "s"], ["pages", "s", None], ["finishall"]]
        out.append(execute({"world": {"locks": locks}, "steps": steps}, "pages of %s of %d locks, %s" % (limit, n, mode)))
    return out


def paging_tasks(tier, seed):
    t = []
    cases = [(0, 1), (1, 1), (2, 1), (3, 2), (4, 2), (5, 2), (5, 5), (5, 4), (5, 6), (12, 3), (100, None), (101, None),
             (99, 100), (100, 100), (101, 100), (130, 1000), (205, 101), (205, None), (30, 7), (30, 29), (30, 30), (30, 31)]
    if tier == "thorough":
        cases += [(n, l) for n in range(0, 9) for l in range(1, 9)] + [(400, 99), (350, 50)]
    for n, l in cases:
        t.append(("t_paging", "%s.%d.%s" % (seed, n, l), n, l, False))
        if n < 60:
            t.append(("t_paging", "%s.%d.%s.d" % (seed, n, l), n, l, True))
    return t


def t_details(seed, tick):
    """All sorts of paths are locked, fought over, listed and released while time goes on."""
    rng = random.Random("det%s" % (seed,))
    paths = PATHS + rng.sample(LONG_PATHS, 4) + [b"A", b"a ", b" a", b"a/", b"./a", b"a\\", b"a\r", b"1:2:3", b"v1:a", b"\xff\xfe\x80", b"a" * 63, b"a" * 64]
    rng.shuffle(paths)
    paths = paths[:8]
    steps = [["open", "u", "upload", UA, 0], ["open", "v", "upload", UB, 0], ["open", "d", "download", UB, 0]]
    t = BASE_TIME
    for p in paths:
        who = rng.choice("uv")
        other = "v" if who == "u" else "u"
        t += rng.choice([0, 1, 59, 86400, 1000000])
        steps += [["clock", t, tick], ["send", who, L(r_lock(p))], ["run", who]]
        t += rng.choice([0, 1, 3600])
        steps += [["clock", t, tick], ["send", other, L(r_lock(p) + r_list(path=p))], ["run", other],
                  ["send", who, L(r_lock(p) + r_list(path=p))], ["run", who], ["send", "d", L(r_list(path=p))], ["run", "d"]]
    steps += [["send", "u", L(r_list())], ["run", "u"], ["send", "v", L(r_list())], ["run", "v"],
              ["send", "d", L(r_list())], ["run", "d"]]
    for p in rng.sample(paths, len(paths)):
        who = rng.choice("uv")
        other = "v" if who == "u" else "u"
        steps += [["send", who, L(r_unlock(lock_id(p)))], ["run", who],
                  ["send", other, L(r_unlock(lock_id(p)) + r_list(path=p))], ["run", other]]
        if rng.random() < 0.4:
            t += 5
            steps += [["clock", t, tick], ["send", other, L(r_lock(p))], ["run", other],
                      ["send", who, L(r_lock(p) + r_list())], ["run", who]]
    steps += [["finishall"]]
    return [execute({"world": {"uids": [UB]}, "steps": steps}, "lock details %s" % (seed,))]


def t_prelocked(mode):
    """Locks taken by the version before: every path is fought over and released."""
    paths = [p for p in PATHS + LONG_PATHS + [b"a" * n for n in (62, 63, 64, 65, 100, 256)] + [b"d/" * 40 + b"x", b"\xc3\xa9" * 40, b"1:2:3", b" a", b"a "]]
    world = {"uids": [UB], "locks": [[L(p), UA if i % 2 else UB, [10 ** (i % 9), 400 * 86400 * (i % 50), -10 ** (i % 9)][i % 3]] for i, p in enumerate(paths)]}
    steps = [["open", "u", "upload", UA, 0], ["open", "v", "upload", UB, 0], ["open", "d", "download", UB, 0],
             ["send", "d", L(r_list())], ["run", "d"]]
    for i, p in enumerate(paths):
        a, b = ("u", "v") if i % 3 else ("v", "u")
        steps += [["send", a, L(r_list(path=p) + r_lock(p))], ["run", a], ["send", b, L(r_lock(p) + r_list(path=p))], ["run", b]]
        if mode:
            steps += [["send", a, L(r_unlock(lock_id(p)) + r_list(path=p) + r_lock(p) + r_lock(p))], ["run", a],
                      ["send", b, L(r_lock(p) + r_unlock(lock_id(p)) + r_unlock(lock_id(p)))], ["run", b]]
    steps += [["send", "u", L(r_list())], ["run", "u"], ["send", "v", L(r_list())], ["run", "v"], ["finishall"]]
    return [execute({"world": world, "steps": steps}, "locks that were there before %d" % mode)]


def prelocked_tasks():
    return [("t_prelocked", 0), ("t_prelocked", 1)]


def details_tasks(seed, count):
    return [("t_details", "%s.%d" % (seed, i), i % 2) for i in range(count)]


MOMENTS = ["1969-12-31T23:59:59", "1970-01-01T00:00:00", "1970-01-01T00:00:01", "1999-12-31T23:59:59", "2000-01-01T00:00:00", "2000-02-29T12:00:00",
           "2001-09-09T01:46:40", "2012-12-31T23:59:59", "2013-12-30T00:00:00", "2016-02-29T23:59:59", "2018-12-31T05:06:07", "2020-01-01T00:00:00",
           "2020-12-31T23:59:60", "2021-01-01T00:00:00", "2021-01-03T11:59:59", "2023-01-01T12:13:14", "2024-02-29T00:00:00", "2024-12-29T01:02:03",
           "2024-12-30T12:00:00", "2024-12-31T13:14:15", "2026-12-28T00:00:00", "2027-01-01T00:00:00", "2027-01-03T23:59:59", "2026-03-29T02:30:00",
           "2026-10-25T02:30:00", "2038-01-19T03:14:07", "2038-01-19T03:14:08", "2100-02-28T23:59:59", "2100-03-01T00:00:00", "2106-02-07T06:28:16",
           "2999-12-31T23:59:59", "9999-12-31T23:59:59"]


def moment(s):
    import datetime
    d = datetime.datetime.strptime(s.replace(":60", ":59"), "%Y-%m-%dT%H:%M:%S")
    return int((d - datetime.datetime(1970, 1, 1)).total_seconds())


def t_dates(which):
    """Locks made at particular times, and told of from elsewhere and later."""
    out = []
    times = [moment(s) for s in MOMENTS]
    for tz in which:
        env = {"TZ": tz} if tz else {}
        locks = [["m%d" % k, 0, BASE_TIME - t] for k, t in enumerate(times)]
        steps = [["open", "u", "upload", 0, 0o022, {"env_more": env}], ["open", "d", "download", 0, 0o022, {"env_more": env}],
                 ["send", "u", L(r_list() + b"".join(r_list(path=b"m%d" % k) + r_lock(b"m%d" % k) for k in range(len(times))))], ["run", "u"],
                 ["send", "d", L(r_list())], ["run", "d"],
                 ["send", "u", L(b"".join(r_unlock(lock_id(b"m%d" % k)) for k in range(len(times))))], ["run", "u"]]
        for k, t in enumerate(times):
            if t < 0:
                continue
            steps += [["clock", t, 0], ["send", "u", L(r_lock(b"n%d" % k) + r_lock(b"n%d" % k) + r_list(path=b"n%d" % k))], ["run", "u"]]
        steps += [["send", "u", L(r_list())], ["run", "u"], ["finishall"]]
        out.append(execute({"world": {"locks": locks}, "steps": steps}, "dates in %s" % tz))
    return out


def t_boundary_ticks(k):
    """The second changes between two looks at the clock."""
    out = []
    for first in range(0, 6):
        steps = [["open", "u", "upload"], ["clock", BASE_TIME + 10, 1], ["send", "u", L(r_lock(b"a"))], ["step", "u", first],
                 ["run", "u"], ["send", "u", L(r_lock(b"a") + r_list() + r_unlock(lock_id(b"a")) + r_lock(b"a") + r_list(path=b"a"))],
                 ["run", "u"], ["finish", "u"]]
        out.append(execute({"world": {}, "steps": steps}, "clock ticks %d" % first))
    return out


def t_owners(modes):
    """Locks of several users, seen by each of them."""
    out = []
    for uid in (0, UB, 2, 54321):
        locks = [["r", 0, 100], ["n", UB, 200], ["d", 2, 300], ["x", 54321, 400], ["y", 54322, 500]]
        steps = []
        for mode in ("upload", "download"):
            nm = mode[0]
            steps += [["open", nm, mode, uid, 0], ["send", nm, L(r_list() + r_list(2) + b"".join(r_list(path=p) for p in (b"r", b"n", b"d", b"x", b"y")))],
                      ["run", nm]]
        steps += [["send", "u", L(r_lock(b"mine") + r_list() + r_list(path=b"mine") + r_lock(b"n") + r_unlock(lock_id(b"n")) + r_lock(b"n") + r_list())], ["run", "u"],
                  ["finishall"]]
        out.append(execute({"world": {"locks": locks, "uids": [UB, 2]}, "steps": steps}, "owners for uid %d" % uid))
    return out


def t_names(uids, env):
    """Users with similar names, and misleading surroundings."""
    locks = [["p%d" % u, u, 100 + i] for i, u in enumerate(uids)]
    out = []
    for uid in uids:
        steps = []
        e = {k: (user_name(uids[0]) if v == "other" else v) for k, v in env.items()}
        for mode in ("upload", "download"):
            nm = mode[0]
            steps += [["open", nm, mode, uid, 0, {"env_more": e}],
                      ["send", nm, L(r_list() + b"".join(r_list(path=b"p%d" % u) for u in uids))], ["run", nm]]
        steps += [["send", "u", L(r_lock(b"mine") + r_lock(b"p%d" % uids[0]) + r_list() + r_unlock(lock_id(b"p%d" % uids[-1])) + r_lock(b"p%d" % uids[-1]) + r_list())],
                  ["run", "u"], ["send", "d", L(r_list())], ["run", "d"], ["finishall"]]
        out.append(execute({"world": {"locks": locks, "uids": [uids[0]]}, "steps": steps}, "users %s, %s" % (uids, sorted(e.items()))))
    return out


def name_tasks():
    other = {"USER": "other", "LOGNAME": "other", "SUDO_USER": "other", "USERNAME": "other", "GIT_AUTHOR_NAME": "other", "GIT_COMMITTER_NAME": "other"}
    return [("t_names", u, e) for u in ([5432, 54321, 543], [1, 10, 13], [3, 30003, 2], [65534, 65533], [4294967294, 429496729]) for e in ({}, other)]


def leftovers():
    """Temporary files that killed servers have left behind, before and after every lock in order."""
    f = {}
    for k, p in enumerate((b"a", b"b", b"c")):
        i = lock_id(p)
        f["locks/%s.%d.%d.lock" % (i, 999999 + k, k)] = ["", "v1:5:" + p.decode(), "v1:"][k]
    for d in "0f":
        f["locks/%s.999999.1.lock" % (d * 64)] = "v1:5:x"
    return f


def t_leftovers(names):
    """Lists, locks and unlocks among what killed servers have left behind."""
    out = []
    for locks in names:
        steps = [["open", "u", "upload"], ["open", "d", "download"]]
        for who in "ud":
            steps += [["send", who, L(r_list() + r_list(1) + r_list(2) + b"".join(r_list(path=x.encode()) for x in "abc"))], ["run", who],
                      ["pages", who, 1], ["pages", who, 2]]
        for x in "abc":
            i = lock_id(x.encode())
            steps += [["send", "u", L(r_lock(x.encode()) + r_list() + r_lock(x.encode()))], ["run", "u"], ["pages", "d", 1],
                      ["send", "u", L(r_unlock(i) + r_unlock(i) + r_list())], ["run", "u"]]
        steps += [["finishall"]]
        out.append(execute({"world": {"locks": [[x, 0, 100] for x in locks], "files": leftovers()}, "steps": steps}, "leftovers and locks %s" % locks))
    return out


def leftover_tasks(tier):
    return [("t_leftovers", [x]) for x in ("", "a", "b", "c", "ab", "bc", "abc", "abcdefghij")]


def t_denied(which):
    """The lock directory or the sticky bit forbids removing a lock."""
    out = []
    base = {"locks": [["a", 0, 500], ["n", UB, 400]], "uids": [UB]}
    # a user without write access to the directory
    w = dict(base, lockdir="0755")
    steps = [["open", "v", "upload", UB, 0, {"deny": True}],
             ["send", "v", L(r_unlock(lock_id(b"a")) + r_unlock(lock_id(b"zzz")) + r_list() + r_unlock(lock_id(b"n")) + r_list(path=b"n"))], ["run", "v"],
             ["open", "u", "upload", 0, 0], ["send", "u", L(r_list() + r_unlock(lock_id(b"a")))], ["run", "u"],
             ["send", "v", L(r_unlock(lock_id(b"a")) + r_list())], ["run", "v"], ["finishall"]]
    out.append(execute({"world": w, "steps": steps}, "lock directory not writable"))
    # sticky: only the owner may remove (the directory belongs to root)
    w = {"locks": [["a", 0, 500], ["b", 2, 400]], "uids": [UB], "sticky": True}
    steps = [["open", "v", "upload", UB, 0, {"deny": True}],
             ["send", "v", L(r_unlock(lock_id(b"a")) + r_unlock(lock_id(b"b")) + r_unlock(lock_id(b"zzz")) + r_list())], ["run", "v"],
             ["open", "w", "upload", 2, 0], ["send", "w", L(r_unlock(lock_id(b"b")) + r_list())], ["run", "w"], ["finishall"]]
    out.append(execute({"world": w, "steps": steps}, "sticky lock directory"))
    return out


# ------------------------------------------------------------- permissions

PERM_CASES = [
    # core.sharedRepository ("-" is an unset one, "!" a key without value), umask of the process; what they mean is SharedRepo's
    ("-", "022"), ("-", "077"), ("-", "002"), ("-", "027"), ("-", "000"), ("-", "011"), ("-", "057"), ("false", "022"), ("false", "077"), ("umask", "027"), ("umask", "002"),
    ("true", "022"), ("true", "077"), ("true", "000"), ("group", "022"), ("group", "077"), ("yes", "077"), ("on", "077"), ("!", "077"), ("1", "027"), ("TRUE", "022"),
    ("no", "022"), ("off", "027"), ("0", "007"), ("all", "077"), ("all", "022"), ("world", "077"), ("everybody", "027"), ("all", "000"),
    ("0660", "077"), ("0640", "022"), ("0640", "077"), ("0644", "077"), ("0664", "077"), ("0600", "022"), ("0666", "022"), ("0666", "077"),
    ("0660", "000"), ("0640", "000"), ("0620", "007"), ("0602", "077"), ("660", "022"), ("00664", "027"), ("0770", "022"), ("0755", "077"),
]


def t_perms(cases):
    out = []
    for shared, um in cases:
        wd = {"dirs": True, "perm": [shared, um]}
        if shared != "-":
            wd["shared"] = shared
        um = int(um, 8)
        steps = [["open", "u", "upload", 0, um], ["open", "v", "upload", 0, um],
                 ["send", "u", {"blob": [1, 70000], "put": {}}], ["run", "u"],
                 ["send", "u", {"blob": [1, 70000], "put": {"pk": 5000}}], ["run", "u"],
                 ["send", "v", L(r_put(b"two") + r_put(b"", size=0) + r_lock(b"a") + r_lock(b"b") + r_unlock(lock_id(b"b")) + r_put(b"two"))], ["run", "v"],
                 ["send", "u", L(r_lock(b"a") + r_put(b"two", size=4) + r_put(b"nope", oid=sha(b"two")) + r_lock(b"c"))], ["run", "u"],
                 ["finishall"],
                 ["open", "w", "upload", 0, um], ["send", "w", L(r_put(b"three") + r_put(b"two") + r_lock(b"d"))], ["finish", "w"]]
        out.append(execute({"world": wd, "steps": steps}, "permissions %s %o" % (shared, um)))
        # two uploads of the same object, step by step against each other
        for i in range(1, 14, 3):
            steps = [["open", "u", "upload", 0, um], ["open", "v", "upload", 0, um],
                     ["send", "u", L(r_put(b"two"))], ["send", "v", L(r_put(b"two"))],
                     ["sched", [["u", i], ["v", 100], ["u", 100]]], ["finishall"]]
            out.append(execute({"world": wd, "steps": steps}, "permissions %s %o/%d" % (shared, um, i)))
    return out


def perm_tasks(tier, seed):
    """The settings of SharedRepo: the chosen ones and others of TLC's (all of them in the thorough tier)."""
    import re
    bad, out = runner.tlc("SharedRepo", "SharedRepo.cfg", workers=2)
    if bad:
        raise RuntimeError("SharedRepo violates its laws:\n" + out[-3000:])
    cases = sorted(set(re.findall(r'^<<"([^"]*)", "(\d+)", "[^"]*", "[^"]*">>$', out, re.M)))
    assert len(cases) >= 2000, len(cases)
    more = [c for c in cases if c not in PERM_CASES]
    random.Random("perm/%s" % seed).shuffle(more)
    use = PERM_CASES + (more[:40] if tier == "quick" else more)
    return [("t_perms", use[i:i + 2]) for i in range(0, len(use), 2)]


# ----------------------------------------------------------------- escapes

def escape_ids():
    up = ["../" * n for n in range(1, 8)]
    names = ["config", "HEAD", "lfs/locks/" + lock_id(b"a"), "secret", "evil.lock", "lfs/objects"]
    out = [u + n for u in up for n in names[:4]]
    out += ["/etc/passwd", "/etc/hostname", "//etc/passwd", "/", ".", "..", "./" + lock_id(b"a"), "x/../" + lock_id(b"a"),
            lock_id(b"a") + "/", lock_id(b"a") + "/.", lock_id(b"a") + ".lock", lock_id(b"a").upper(), "",
            "../locks/" + lock_id(b"a"), "%2e%2e/config", "..\\config", lock_id(b"a") + "\0", "\0", "a\0b",
            "../incomplete/x", "../objects/" + O1[:2] + "/" + O1[2:4] + "/" + O1, "nul", lock_id(b"a")[:63], "x" * 300, "x" * 5000,
            "../" * 21 + "a", "." * 64, "/" * 64, "../../../../../../../../../../../../../../../../../../../../etc/x"]
    return out


def t_escape(ids, uid, where):
    """Path-like ids, oids and paths, as an unprivileged user with a decoy lock next to the store."""
    # decoys: files outside the LFS directory that look like locks and objects
    decoy = "v1:5:decoy"
    world = {"texts": ["some object"], "locks": [["a", uid, 500]], "uids": [uid],
             "outside": {"secret": decoy, "evil.lock": decoy, "r.git/secret": decoy, "r.git/x/secret": decoy,
                         lock_id(b"decoy"): decoy, "r.git/" + lock_id(b"decoy"): decoy},
             "files": {"secret": decoy, "tmp/" + lock_id(b"decoy"): decoy, "objects/" + lock_id(b"decoy"): decoy}}
    out = []
    steps = [["open", "u", "upload", uid, 0, {"access": True}], ["open", "d", "download", uid, 0, {"access": True}]]
    for x in ids:
        b = x.encode("latin-1")
        reqs = []
        if where == "unlock":
            reqs = [r_unlock(b)]
        elif where == "oid":
            reqs = [request_bytes(b"verify-object " + b + b"\n", [b"size=10\n"]),
                    request_bytes(b"put-object " + b + b"\n", [b"size=3\n"], body=[b"abc"]),
                    request_bytes(b"batch\n", lines=[b + b" 3\n"])]
        elif where == "path":
            if b == b"":
                continue
            reqs = [r_lock(b), r_list(path=b), r_unlock(lock_id(b))]
        elif where == "misc":
            reqs = [r_list(None, x if b"\n" not in b else "x"), request_bytes(b"lock\n", [b"path=q\n", b"refname=" + b + b"\n"]),
                    r_unlock(lock_id(b"q")), request_bytes(b"version " + b + b"\n"),
                    request_bytes(b"batch\n", [b"transfer=" + b + b"\n", b"refname=" + b + b"\n"], lines=[O1.encode() + b" 1\n"])]
        steps += [["send", "u", L(b"".join(reqs))], ["run", "u"]]
        if where == "oid":
            steps += [["send", "d", L(request_bytes(b"get-object " + b + b"\n"))], ["run", "d"]]
        if where == "misc":
            steps += [["send", "d", L(r_list(None, x) + r_list(path=b or b"x"))], ["run", "d"]]
    steps += [["finishall"]]
    out.append(execute({"world": world, "steps": steps}, "escapes through %s as uid %d" % (where, uid)))
    return out


def escape_tasks(tier):
    ids = escape_ids()
    t = []
    for where in ("unlock", "oid", "path", "misc"):
        for i in range(0, len(ids), 9):
            t.append(("t_escape", ids[i:i + 9], UB, where))
    return t


def t_walks(name, walks):
    """Behaviours of LfsDesign on the real server."""
    import design
    sc = design.scenarios()[name]
    out = []
    for w in walks:
        x = execute(design.script_of(sc, w), "design %s: %s" % (name, " ".join("%s:%s" % (p, a) for _, p, a, _ in w)))
        want = design.expected(w)
        got = {}
        for e in x["ev"]:
            if e["k"] == "res":
                got.setdefault(e["s"], []).append(e["st"])
        x["agree"] = {p: got.get(p, [])[:len(v)] for p, v in want.items()} == want
        if not x["agree"]:
            x["want"], x["got"] = want, got
        out.append(x)
    return out


def t_menu(walks, flags):
    """Tours through the request-level specification."""
    import menu
    return menu.replay(walks, flags)


def t_replay(script, label):
    return [execute(script, label)]
