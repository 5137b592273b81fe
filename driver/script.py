"""Scripts: what to do with a world and its servers, as plain data, so that any
execution can be repeated from its replay file.

A script is {"world": {...}, "steps": [...]}.  Steps:
  ["open", name, mode, uid, umask, {options}]
  ["send", name, data]          data: text (latin-1) or {"put": [seed, n, ...]}
  ["sendeach", name, [data, ...]]  one after the other
  ["run", name] | ["runall"]    until idle or ended
  ["step", name, k]             at most k file-system calls
  ["until", name, call]         up to and including the next such call
  ["sched", [[name, k], ...]]   k calls each, then everyone to the end, in order
  ["kill", name]
  ["fail", name, errno, errname] | ["short", name, n]   the call it is stopped at
  ["deaf", name] | ["deaf", name, n]   the client reads its answers no more (but n bytes)
  ["end", name] | ["finish", name] | ["finishall"]
  ["clock", t, tick]
  ["moves", sessions, [[name, action], ...]]   a behaviour of LfsDesign.tla
"""
import random
from core import *


def blob(seed, n):
    """n bytes that depend on seed only."""
    r = random.Random("blob%s" % (seed,))
    if n <= 65536:
        return r.randbytes(n)
    return (r.randbytes(65536) * (n // 65536 + 1))[:n]


def data_of(d):
    if isinstance(d, str):
        return d.encode("latin-1")
    seed, n = d["blob"]
    data = blob(seed, n)
    if "put" in d:
        o = d["put"]
        return r_put(data, oid=o.get("oid"), size=o.get("size"), pk=o.get("pk", 32768))
    return data


class Run:
    def __init__(self, script, label=""):
        self.script = script
        wd = script.get("world", {})
        self.w = World(shared=wd.get("shared"), tick=wd.get("tick", 0), clock=wd.get("clock", BASE_TIME),
                       config=wd.get("config", ""))
        self.tr = Trace(self.w, label, dirs=wd.get("dirs", False), perm=wd.get("perm", ["", ""]))
        self.srv = {}
        self.synced = [0, 0]
        try:
            self._world(wd)
            for st in script["steps"]:
                self.do(st)
        except BaseException:
            self.close()
            raise

    def _world(self, wd):
        w = self.w
        uids = wd.get("uids", [])
        for seed, n in wd.get("objs", []):
            w.put_object(blob(seed, n))
        for n in wd.get("zeros", []):
            w.put_zeros(n)
        for d in wd.get("texts", []):
            w.put_object(d.encode("latin-1"))
        for path, uid, age in wd.get("locks", []):
            w.put_lock(path.encode("latin-1"), BASE_TIME - age, uid, 0o666 if uids else 0o644)
        for name, content in wd.get("files", {}).items():
            w.make_lfs()
            p = os.path.join(w.lfs, name)
            if content is None:
                os.makedirs(p, exist_ok=True)
                continue
            if isinstance(content, list):
                os.symlink(content[0], p)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(content.encode("latin-1"))
        for name, content in wd.get("outside", {}).items():
            p = os.path.join(w.dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(content.encode("latin-1"))
            os.chmod(p, 0o644)
        if uids:
            w.make_lfs()
            w.open_to(uids)
        for name, m in wd.get("modes", {}).items():
            os.chmod(os.path.join(w.lfs, name), int(m, 8))
        for name in wd.get("links", []):
            w.link_away(name)
        w.settle()
        if wd.get("lockdir") is not None:
            os.chmod(os.path.join(w.lfs, "locks"), int(wd["lockdir"], 8))
        if wd.get("sticky"):
            os.chmod(os.path.join(w.lfs, "locks"), 0o1777)

    def do(self, st):
        k = st[0]
        if k == "open":
            o = dict(st[5]) if len(st) > 5 else {}
            self.srv[st[1]] = Srv(self.w, self.tr, st[2], st[3] if len(st) > 3 else 0,
                                  st[4] if len(st) > 4 and st[4] is not None else 0o022, name=st[1], **o)
        elif k == "send":
            self.srv[st[1]].send(data_of(st[2]))
        elif k == "sendeach":  # one request per read
            for r in st[2]:
                self.srv[st[1]].bounds.append(len(r))
                self.srv[st[1]].send(data_of(r))
        elif k == "run":
            self.srv[st[1]].run()
        elif k == "runall":
            for s in self.srv.values():
                s.run()
        elif k == "step":
            s = self.srv[st[1]]
            for _ in range(st[2]):
                if not s.step():
                    break
        elif k == "until":
            s = self.srv[st[1]]
            while s.code is None and s.stop:
                c = s.stop["call"]
                if not s.step():
                    break
                if c == st[2]:
                    break
        elif k == "sched":
            for n, c in st[1]:
                s = self.srv[n]
                if isinstance(c, str):
                    self.do(["until", n, c])
                    continue
                for _ in range(c):
                    if not s.step():
                        break
            for s in self.srv.values():
                s.run()
        elif k == "kill":
            self.srv[st[1]].kill()
        elif k == "fail":
            s = self.srv[st[1]]
            if s.stop and s.stop["call"] != "stdin":
                s.fail(st[2], st[3])
        elif k == "short":
            s = self.srv[st[1]]
            if s.stop and s.stop["call"] != "stdin":
                s.partial(st[2])
        elif k == "deaf":  # reads no more at all, or no more than so many bytes
            s = self.srv[st[1]]
            if len(st) > 2:
                s.deaf_at = s.nread + st[2]
            else:
                s.deafen()
                s._responses()
        elif k == "end":
            self.srv[st[1]].end()
        elif k == "finish":
            self.srv[st[1]].finish()
        elif k == "finishall":
            for s in self.srv.values():
                s.finish()
        elif k == "pages":
            self.pages(st[1], st[2], st[3] if len(st) > 3 else {})
        elif k == "moves":
            self.moves(st[1], st[2])
        elif k == "clock":
            self.w.set_clock(st[1], st[2] if len(st) > 2 else 0)
        else:
            raise ValueError(st)
        return None

    def pages(self, name, limit, between):
        """Follows next-cursor; between: {page number: [steps]} done after that page."""
        s = self.srv[name]
        cur = None
        for n in range(1, 200):
            s.send(r_list(limit, cur))
            s.run()
            if s.code is not None:
                return
            res = [e for e in self.tr.ev if e["k"] == "res" and e["s"] == name]
            for x in between.get(str(n), []):
                self.do(x)
            if not res:
                return
            nxt = [a[12:-1] for a in res[-1]["args"] if a.startswith("next-cursor=")]
            if not nxt or res[-1]["st"] != 200:
                return
            if nxt[0] == cur:
                self.tr.emit("junk", name, why="the cursor does not advance")
                return
            cur = nxt[0]

    # the system call behind each step of LfsDesign
    CALL = {"stdin": "stdin", "creat": "open", "open": "open", "opendir": "open", "write": "write", "stat": "stat",
            "link": "link", "unlink": "unlink", "read": "read", "getdents": "getdents", "mkdir": "mkdir", "chmod": "chmod",
            "rename": "rename"}

    def moves(self, sessions, moves):
        """One system call per step of the design; should the program make
        others, the schedule is merely a different one."""
        t = 0
        for name, a in moves:
            if a == "tick":
                t += 1
                self.w.set_clock(BASE_TIME + t, 0)
                continue
            if a == "open":
                mode, uid, data, o = sessions[name]
                self.do(["open", name, mode, uid, 0o022 if not o.get("umask") else o["umask"]])
                self.do(["sendeach", name, data])
                continue
            s = self.srv[name]
            if a == "kill":
                s.kill()
            elif a == "end":
                s.finish()
            elif s.code is None and s.stop:
                w = a.replace("fault ", "").split(" ")
                w = [x for x in w if x not in ("end", "top", "again")]
                self.synced[0] += self.CALL.get(w[-1]) == s.stop["call"]
                self.synced[1] += 1
                if a.startswith("fault ") and s.stop["call"] != "stdin":
                    s.fail(5, "EIO")
                else:
                    s.step()

    def close(self):
        for s in self.srv.values():
            if s.code is None and not s.killed:
                try:
                    s._destroy()
                except Exception:
                    pass
        self.w.close()

    def result(self, label, script=None):
        ev = normal(self.tr.ev)
        return {"label": label, "ev": ev, "perm": self.tr.perm, "script": script or self.script, "synced": self.synced}

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def normal(evs):
    """Gives temporary files numbers instead of their random names."""
    names = {}
    out = []
    for e in evs:
        if e["k"] == "fs":
            e = dict(e)
            e["temps"] = [names.setdefault(t, "t%d" % (len(names) + 1)) for t in e["temps"]]
        elif e["k"] == "acc" and e["area"] in ("temp", "locktemp"):
            e = dict(e)
            e["name"] = "-"
        out.append(e)
    # accesses that say nothing new
    seen = set()
    res = []
    for e in out:
        if e["k"] == "acc":
            key = (e["s"], e["op"], e["area"], e["name"])
            if key in seen:
                continue
            seen.add(key)
        elif e["k"] in ("req", "res"):
            seen = {x for x in seen if x[0] != e["s"]}
        res.append(e)
    return res


def execute(script, label):
    with Run(script, label) as r:
        for s in r.srv.values():
            if not s.killed:
                s.finish()
        return r.result(label)
