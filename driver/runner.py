"""Runs tasks in parallel, collects the recorded executions, and lets TLC judge them."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"


def ensure_tools():
    """Builds the servers from /repo and the small C tools."""
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run([os.path.join(VERIF, "build.sh")], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("build failed:\n" + r.stdout + r.stderr)
    for out, cmd in (("tracer", ["gcc", "-O1", "-Wall", "-o"]), ("clockshim.so", ["gcc", "-O1", "-Wall", "-shared", "-fPIC", "-o"])):
        src = os.path.join(HERE, out.split(".")[0] + ".c")
        dst = os.path.join(BUILD, out)
        if not os.path.exists(dst) or os.path.getmtime(dst) < os.path.getmtime(src):
            tmp = dst + ".%d" % os.getpid()
            subprocess.run(cmd + [tmp, src, "-ldl"], check=True)
            os.rename(tmp, dst)


def _work(task):
    import families
    f = getattr(families, task[0])
    args = list(task[1:])
    kw = {}
    if args and isinstance(args[-1], dict) and task[0] in ("t_random",):
        kw = args.pop()
    try:
        return task, f(*args, **kw), None
    except Exception:
        return task, None, traceback.format_exc()


class Collected:
    def __init__(self):
        self.execs = []        # distinct executions (event sequence), in arrival order
        self.seen = set()
        self.total = 0
        self.errors = []
        self.tasks = 0
        self.stats = collections.Counter()
        self.cut = False
        self.menu = [0, 0, None]   # requests of tours, of them answered as specified, the first that was not

    def add(self, x):
        self.total += 1
        if "menu" in x:
            self.menu[0] += x["menu"][0]
            self.menu[1] += x["menu"][1]
            self.menu[2] = self.menu[2] or x["first"]
            if not x["ev"]:
                return False
        key = hashlib.sha256(json.dumps([x["ev"], x["perm"]], sort_keys=True).encode()).digest()
        if key in self.seen:
            return False
        self.seen.add(key)
        self.execs.append(x)
        for e in x["ev"]:
            self.stats[e["k"]] += 1
            if e["k"] == "hang":
                self.stats["hangs"] += 1
        return True


def collect(tasks, deadline, procs=8):
    """Carries the tasks out; tasks may return further tasks."""
    c = Collected()
    todo = collections.deque(tasks)
    with mp.Pool(procs) as pool:
        running = []
        while todo or running:
            while todo and len(running) < procs * 3:
                running.append(pool.apply_async(_work, (todo.popleft(),)))
            r = running.pop(0)
            while True:
                try:
                    task, res, err = r.get(timeout=1)
                    break
                except mp.TimeoutError:
                    if time.time() > deadline:
                        c.cut = True
                        pool.terminate()
                        return c
            c.tasks += 1
            if err:
                c.errors.append((task, err))
                continue
            for x in res:
                if isinstance(x, tuple):
                    todo.append(x)
                else:
                    c.add(x)
            if c.stats["hangs"] >= 2 or len(c.errors) > 20:
                c.cut = True
                pool.terminate()
                return c
            if time.time() > deadline:
                c.cut = True
                pool.terminate()
                return c
    return c


class TlcError(Exception):
    pass


def tlc(module, cfg, env=None, workers=4, extra=(), heap="3g", timeout=1500, meta=None):
    """Runs TLC; returns (violated, output)."""
    meta = meta or os.path.join(BUILD, "tlc", "%s-%d-%d" % (module, os.getpid(), time.time_ns()))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = ""
    cp = JAR + ":" + _community()
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-cp", cp, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout + r.stderr
    if "No error has been found" in out:
        return False, out
    if r.returncode in (12, 13, 10, 11) or "is violated" in out:
        if "is violated" in out or "Deadlock reached" in out:
            return True, out
    raise TlcError(out[-6000:])


_COMM = None


def _community():
    global _COMM
    if _COMM is None:
        d = os.path.dirname(JAR)
        _COMM = ":".join(os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".jar") and "ommunity" in f)
    return _COMM


def tlc_states(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        raise TlcError("no state count in:\n" + out[-3000:])
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


def judge(execs, watch, rundir, batch=250, par=4):
    """Gives the executions to LfsTrace.  Returns (violation or None, states checked)."""
    os.makedirs(rundir, exist_ok=True)
    # longest first, dealt out so that the batches take about as long
    order = sorted(range(len(execs)), key=lambda i: -len(execs[i]["ev"]))
    nb = max(1, min(par, len(execs))) if len(execs) <= batch * par else (len(execs) + batch - 1) // batch
    batches = [order[i::nb] for i in range(nb)]
    files = []
    for n, b in enumerate(batches):
        f = os.path.join(rundir, "traces-%d.ndjson" % n)
        with open(f, "w") as fh:
            for i in b:
                x = execs[i]
                fh.write(json.dumps({"label": x["label"], "ev": x["ev"], "perm": x["perm"]}) + "\n")
        files.append(f)
    from concurrent.futures import ThreadPoolExecutor

    def one(n):
        bad, out = tlc("LfsTrace", "LfsTrace.cfg", {"TRACES": files[n], "WATCH": watch}, workers=2, heap="2g")
        if bad:
            num = int(re.findall(r"number (?:\|->|=) (\d+)", out)[-1])
            evn = int(re.findall(r"event (?:\|->|=) (\d+)", out)[-1])
            what = re.findall(r"violated (?:\|->|=) (\{[^}]*\})", out)[-1]
            return ("bad", batches[n][num - 1], evn, what, 0)
        gen, dist = tlc_states(out)
        want = sum(len(execs[i]["ev"]) + 1 for i in batches[n])
        if gen != want:
            raise TlcError("LfsTrace consumed %d of %d states" % (gen, want))
        return ("ok", 0, 0, "", gen)
    states = 0
    viol = None
    with ThreadPoolExecutor(par) as ex:
        for r in ex.map(one, range(len(files))):
            if r[0] == "bad" and viol is None:
                viol = {"exec": execs[r[1]], "event": r[2], "violated": r[3]}
            states += r[4]
    for f in files:
        os.unlink(f)
    return viol, states


def judge_records(module, recs, watch, batch, env=None, par=8):
    """Gives independent records to a trace specification (cfg of the same
    name); returns the index of a violating one, or None."""
    rundir = os.path.join(BUILD, "run", str(os.getpid()))
    os.makedirs(rundir, exist_ok=True)
    n = min(max(1, len(recs) // 50), par) if len(recs) <= batch * par else (len(recs) + batch - 1) // batch
    n = min(n, 64)
    parts = [list(range(len(recs)))[i::n] for i in range(n)]
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        f = os.path.join(rundir, "%s-%d.ndjson" % (module, k))
        with open(f, "w") as fh:
            for i in parts[k]:
                fh.write(json.dumps(recs[i]) + "\n")
        e = {"TRACES": f, "WATCH": watch}
        e.update(env or {})
        bad, out = tlc(module, module + ".cfg", e, workers=1, heap="2g")
        os.unlink(f)
        if bad:
            return parts[k][int(re.findall(r"event (?:\|->|=) (\d+)", out)[-1]) - 1]
        if tlc_states(out)[0] != len(parts[k]) + 1:
            raise TlcError("%s consumed %d of %d records" % (module, tlc_states(out)[0] - 1, len(parts[k])))
        return None
    with ThreadPoolExecutor(par) as ex:
        found = [x for x in ex.map(one, range(n)) if x is not None]
    return min(found) if found else None


def known(pid, label):
    """What the known-findings file says about this violation, if listed."""
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) \[([^]]*)\] (.*)", l)
        if m and m.group(1) == pid and m.group(2) == label:
            return m.group(3)
    return None
