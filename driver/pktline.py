"""pkt-line framing (C19 and the reader's part of C20): operations generated by
TLC from PktReader.tla and at random are carried out by the real reader and
writer (through /verif/harness), and TLC judges the results against PktLine.tla."""
import json
import os
import random
import re
import subprocess
import time

import runner

MAX = 65516
BIN = os.path.join(runner.BUILD, "target", "debug", "pkt-harness")


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(runner.BUILD, "target"), CARGO_NET_OFFLINE="true",
               RUSTUP_TOOLCHAIN=os.environ.get("VERIF_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu"))
    cmd = ["cargo", "build", "--offline", "--locked", "-q", "--config", 'profile.dev.package."*".opt-level=2',
           "--config", "profile.dev.debug=0", "--config", 'profile.dev.package.pkt-harness.opt-level=2']
    r = subprocess.run(cmd, cwd=os.path.join(runner.VERIF, "harness"), env=env, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("the harness does not build:\n" + r.stderr[-3000:])


def run(lines, procs=8):
    """Feeds case lines to harness processes; returns their answers."""
    from concurrent.futures import ThreadPoolExecutor
    n = max(1, min(procs, len(lines) // 50))
    parts = [lines[i::n] for i in range(n)]

    def one(part):
        try:
            r = subprocess.run([BIN], input="\n".join(part) + "\n", capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return None
        out = r.stdout.split("\n")[:-1]
        return out if len(out) == len(part) and r.returncode == 0 else None
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, parts))
    for i, p in enumerate(res):
        if p is None:    # one at a time, to see which
            res[i] = []
            for l in parts[i]:
                try:
                    r = subprocess.run([BIN], input=l + "\n", capture_output=True, text=True, timeout=10)
                    o = r.stdout.split("\n")[0] if r.returncode == 0 else "panic"
                except subprocess.TimeoutExpired:
                    o = "hang"
                res[i].append(o)
                if o in ("panic", "hang"):
                    res[i] += ["panic"] * (len(parts[i]) - len(res[i]))
                    break
    out = [None] * len(lines)
    for i in range(n):
        for k, x in enumerate(res[i]):
            out[i + k * n] = x
    return out


def res(t):
    """r5 -> kind and size; capital letters mean that the bytes were wrong."""
    m = re.fullmatch(r"([A-Za-z]+?)(\d*)", t)
    return m.group(1), int(m.group(2) or 0)


CUTS = ["x3030", "x303035", "x303030", "x3030306161", "x6666663061626364", "x30303035"]
BADS = ["x30303032", "x30303033", "x66666631", "x66666666", "x2b303030", "x30303067", "x30304130", "x20303034", "x3030300a", "x00000000"]


def read_line(ps, ops, chunk):
    """ps: packets with real sizes or raw text; returns the case line."""
    def p(x):
        return {"d": "d%d" % x["n"], "f": "f", "l": "l"}.get(x["k"]) or x["raw"]
    return "R %s %s %s" % (chunk, ",".join(p(x) for x in ps), ",".join(o["o"] + (str(o["n"]) if o["o"] == "r" else "") for o in ops))


def read_record(line, ps, ops, ans):
    rs = ans.split(",") if ops else []
    rec = {"kind": "R", "label": line, "answer": ans, "ps": [], "ops": []}
    for x in ps:
        if x["k"] == "bad":
            rec["ps"].append({"k": "x", "n": 0, "h": list(bytes.fromhex(x["raw"][1:]).decode("latin-1"))})
        else:
            rec["ps"].append({"k": x["k"], "n": x["n"], "h": []})
    for k, o in enumerate(ops):
        r, m = res(rs[k]) if k < len(rs) and len(rs) == len(ops) else (ans[:20], 0)
        rec["ops"].append({"o": o["o"], "n": o["n"], "r": r, "m": m})
    return rec


def maps(k):
    return [({0: 0, 1: 1, 2: 65515, 3: 65516}, {0: 0, 1: 1, 2: 65515, 3: 65516, 4: 65517}),
            ({0: 0, 1: 1, 2: 300, 3: 65516}, {0: 0, 1: 1, 2: 300, 3: 65516, 4: 80000}),
            ({0: 0, 1: 2, 2: 5, 3: 9}, {0: 0, 1: 2, 2: 5, 3: 9, 4: 30}),
            ({0: 0, 1: 1, 2: 4096, 3: 65515}, {0: 0, 1: 3, 2: 4096, 3: 65515, 4: 65536})][k % 4]


def cases(tier, rnd, cov):
    bad, out = runner.tlc("PktReader", "PktReader3x.cfg" if tier == "thorough" else "PktReader2.cfg", workers=4, timeout=600)
    if bad:
        raise RuntimeError("the specification itself is wrong:\n" + out[-3000:])
    gen, dist = runner.tlc_states(out)
    cov["design"] = [{"model": "PktReader (cases)", "states": dist, "transitions": gen}]
    cs = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"CASE (.*)"$', out, re.M)]
    cs.sort(key=lambda c: json.dumps(c, sort_keys=True))   # TLC's workers print in any order
    bad, out = runner.tlc("PktReader", "PktReader3.cfg" if tier == "thorough" else "PktReader3q.cfg", workers=8, timeout=600)
    if bad:
        raise RuntimeError("the specification itself is wrong:\n" + out[-3000:])
    gen, dist = runner.tlc_states(out)
    cov["design"].append({"model": "PktReader (3 packets)", "states": dist, "transitions": gen})
    if tier != "thorough":
        cs = rnd.sample(cs, min(len(cs), 6000))
    res = []
    for k, c in enumerate(cs):
        sizes, bufs = maps(rnd.randrange(4))
        ps = [{"k": p["k"], "n": sizes[p["n"]], "raw": rnd.choice(CUTS) if p["k"] == "cut" else rnd.choice(BADS)} for p in c["ps"]]
        ops = [{"o": o["o"], "n": bufs[o["n"]]} for o in c["ops"]]
        res.append((ps, ops, rnd.choice(["0", "0", "0", "4096", "65519i", "7000"])))
    return res


def random_reads(rnd, n):
    out = []
    for _ in range(n):
        big = rnd.random() < .3
        size = lambda: rnd.choice([0, 1, 2, 3, 4, 5, 10, 100]) if not big or rnd.random() < .6 else rnd.choice([65516, 65515, 65500, 4092, 32768, 65512])
        ps = [{"k": rnd.choice("dddddddfl"), "n": 0, "raw": ""} for _ in range(rnd.randint(1, 9))]
        for p in ps:
            if p["k"] == "d":
                p["n"] = size()
        if rnd.random() < .3:
            ps.append({"k": rnd.choice(["cut", "bad"]), "n": 0, "raw": ""})
            ps[-1]["raw"] = rnd.choice(CUTS if ps[-1]["k"] == "cut" else BADS)
        ops = []
        mode = rnd.choice(["read", "read", "packet", "mix"])
        # read_packet and the iterator only where no rest of a packet is kept
        fixed = rnd.choice([None, 1, 2, 3, 7, 16, 100, 4096, 65516, 65515, 65517, 70000])
        for _ in range(rnd.randint(3, 40)):
            if mode == "packet" or (mode == "mix" and not ops):
                ops.append({"o": rnd.choice("pppi"), "n": 0})
            elif mode == "mix" and rnd.random() < .15:
                ops.append({"o": "s", "n": 0})
                for _ in range(rnd.randint(0, 2)):
                    ops.append({"o": rnd.choice("pi"), "n": 0})
            else:
                ops.append({"o": "r", "n": fixed if fixed is not None else rnd.choice([0, 1, 2, 3, 5, 17, 100, 65516, 65515, 80000])})
        chunk = rnd.choice(["0", "1", "2", "3", "5", "1i", "4i", "1000", "0i"]) if not big else rnd.choice(["0", "1000", "65520", "4095i", "16384"])
        out.append((ps, ops, chunk))
    return out


def random_writes(rnd, n):
    out = []
    for k in range(n):
        ops = []
        for _ in range(rnd.randint(1, 7)):
            o = rnd.choice("wwwppfl")
            s = rnd.choice([0, 1, 5, 100, 1000, 65515, 65516, 65517, 65520, 65532, 65536, 131032, 131033, 131071, 200000]) if rnd.random() < .7 else rnd.randint(0, 140000)
            ops.append({"o": o, "n": s if o in "wp" else 0})
        out.append((ops, rnd.choice(["0", "0", "1", "3i", "1000", "65519", "65520", "65521i"]) if sum(x["n"] for x in ops) < 2000
                    else rnd.choice(["0", "1000", "65519", "65520", "65521i", "4096i"])))
    return out


def write_all_sizes(tier):
    """Every length around the multiples of the largest payload, and small ones."""
    sizes = list(range(0, 40)) + [m * MAX + d for m in (1, 2, 3) for d in range(-20, 21)] + [m * 65536 + d for m in (1, 2) for d in range(-5, 6)]
    if tier == "thorough":
        sizes += list(range(40, 4000)) + list(range(4000, 200000, 37))
    return [([{"o": "w", "n": n}, {"o": "f", "n": 0}], "0") for n in sizes] + [([{"o": "p", "n": n}, {"o": "f", "n": 0}], "0") for n in sizes]


def reads(rnd, tier, cov):
    th = tier == "thorough"
    todo = cases(tier, rnd, cov) + random_reads(rnd, 20000 if th else 1500)
    lines = [read_line(*t) for t in todo]
    ans = run(lines)
    return [read_record(l, t[0], t[1], a) for l, t, a in zip(lines, todo, ans)]


def writes(rnd, tier):
    th = tier == "thorough"
    todo = random_writes(rnd, 6000 if th else 500) + write_all_sizes(tier)
    lines = ["W %s %s" % (c, ",".join(o["o"] + (str(o["n"]) if o["o"] in "wp" else "") for o in ops)) for ops, c in todo]
    ans = run(lines)
    recs = []
    for l, (ops, c), a in zip(lines, todo, ans):
        f = a.split(" ")
        rs = f[0].split(",")
        out = []
        for x in (f[1].split(",") if len(f) > 1 and f[1] else []):
            k, n = res(x)
            out.append({"k": k, "n": n})
        r = []
        for k, o in enumerate(ops):
            kind, m = res(rs[k]) if len(rs) == len(ops) else (a[:20], 0)
            r.append({"o": o["o"], "n": o["n"], "r": kind, "m": m})
        recs.append({"kind": "W", "label": l, "answer": a, "ops": r, "out": out})
    return recs


def headers(rnd, tier):
    """Every value in four digits; every header with one odd character; some with more."""
    hs = []
    base = ["0000", "0001", "0004", "0005", "0010", "fff0", "00ff"]
    for b in base:
        for p in range(4):
            for c in range(256):
                hs.append((b[:p] + chr(c) + b[p + 1:]).encode("latin-1"))
    odd = "+- \t\n\r\0/:@`gGAFxX_.\xb9\xff\xc3"
    good = "0014af"
    for _ in range(60000 if tier == "thorough" else 3000):
        hs.append("".join(rnd.choice(odd if rnd.random() < .4 else good) for _ in range(4)).encode("latin-1"))
    if tier == "thorough":
        for b in ("0004", "fff0"):
            for p in range(4):
                for q in range(p):
                    for c in range(0, 256):
                        for d in range(0, 256, 3):
                            x = list(b)
                            x[p], x[q] = chr(c), chr(d)
                            hs.append("".join(x).encode("latin-1"))
    hs = sorted(set(hs))
    vals = list(range(65536)) if tier == "thorough" else sorted(set(list(range(0, 2048)) + list(range(65536 - 1024, 65536)) + list(range(0, 65536, 16))))
    lines = ["H " + h.hex() for h in hs] + ["H " + (b"%04x" % v).hex() for v in vals]
    ans = run(lines)

    def o(a):
        xs = [res(x) for x in a.split(",")]
        if len(xs) != 3:
            xs = [(a[:20], 0)] * 3
        return [{"r": r, "n": n} for r, n in xs]
    recs = [{"kind": "H", "label": l, "answer": a, "h": list(h.decode("latin-1")), "o": o(a)} for h, l, a in zip(hs, lines, ans)]
    # runs of consecutive values as one record
    k = len(hs)
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1 and j - i < 500:
            j += 1
        recs.append({"kind": "V", "label": "values %d to %d" % (vals[i], vals[j]), "answer": "", "from": vals[i], "o": [o(ans[k + x]) for x in range(i, j + 1)]})
        i = j + 1
    return recs, len(lines)


def framing(rep):
    """The reader's part of C20: malformed headers and truncated packets."""
    rnd = random.Random("pkt20 %s" % rep.seed)
    build()
    th = rep.tier == "thorough"
    recs, n = headers(rnd, rep.tier)
    todo = [t for t in random_reads(rnd, 30000 if th else 4000) if t[0][-1]["k"] in ("bad", "cut")]
    lines = [read_line(*t) for t in todo]
    ans = run(lines)
    recs += [read_record(l, t[0], t[1], a) for l, t, a in zip(lines, todo, ans)]
    viol = judge(recs, rep.pid)
    rep.cov["headers"] = n
    rep.cov["broken_streams"] = len(todo)
    if viol is not None:
        report(rep, recs, viol)
    return len(recs)


def judge(recs, pid):
    return runner.judge_records("PktTrace", recs, pid, 4000)


def report(rep, recs, viol):
    r = recs[viol]
    rep.violation({"property": rep.pid, "label": r["label"], "record": r, "how": "echo '%s' | %s" % (r["label"], BIN)},
                  "%s\nanswer: %s" % (r["label"][:800], r["answer"][:800]))


def check(rep):
    rnd = random.Random("pkt %s" % rep.seed)
    build()
    cov = rep.cov
    recs = reads(rnd, rep.tier, cov) + writes(rnd, rep.tier)
    viol = judge(recs, rep.pid)
    cov.update({"states": sum(d["states"] for d in cov["design"]) + len(recs), "transitions": sum(d["transitions"] for d in cov["design"]) + sum(len(r["ops"]) for r in recs),
                "traces_validated_against_impl": len(recs), "operations": sum(len(r["ops"]) for r in recs),
                "samples": [{"case": r["label"], "answer": r["answer"]} for r in recs[:: max(1, len(recs) // 5)][:5]]})
    rep.assume = ["a payload byte is identified by its value at its position (a pattern of period > 2^32)"]
    if viol is not None:
        report(rep, recs, viol)
