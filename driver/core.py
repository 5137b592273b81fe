"""Runs git-lfs-transfer servers step by step and records what is observable.

A World is a scratch repository; a Srv is one server process on it, run under
the tracer so that exactly one process moves at a time and every file-system
call is a step.  A Trace collects the events that the TLA+ specification
(spec/LfsTrace.tla) judges; nothing is judged here.
"""
import hashlib
import json
import os
import pwd
import re
import select
import shutil
import stat
import struct
import subprocess
import tempfile
import datetime

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target", "debug")
SERVER = os.path.join(TARGET, "git-lfs-transfer")
TRACER = os.path.join(BUILD, "tracer")
SHIM = os.path.join(BUILD, "clockshim.so")
BASE_TIME = 1700000000

HEX64 = re.compile(r"[0-9a-f]{64}\Z")
MUTATING = {"open", "creat", "rename", "link", "unlink", "rmdir", "mkdir", "symlink", "chmod", "fchmod",
            "chown", "fchown", "truncate", "ftruncate", "write", "copy", "sendfile", "fallocate", "mknod"}
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
TIMEOUT = 20.0


HEX4 = re.compile(rb"[0-9a-f]{4}\Z")


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def sha(b):
    return hashlib.sha256(b).hexdigest()


def lock_id(path):
    return sha(b"v1:" + path)


# digests of so many zero bytes, for objects too large to be read
ZEROS = {
    2147483647: "25ba9187e4e7b89d2a7f1a49f0155c233ea8fe0b19c881bc53d23fd7b93deda0",
    2147483648: "a7c744c13cc101ed66c29f672f92455547889cc586ce6d44fe76ae824958ea51",
    4294967295: "318eea1453f3a536e42d9637db593982c5c297220b2019bd4b7ad08e88d91e4b",
    4294967296: "8479e43911dc45e89f934fe48d01297e16f51d17aa561d4d1c216b1ae0fcddca",
    4294967301: "709fc0b74f7c916cedccb212d681c035f36ffbb31ebfe806eb40c31592744eb5",
    8589934669: "c2a2d1943530f12465ec6d5950707137ad235934f0f631ad319f730d652c9433",
}


def content(path, st):
    """The digest of a file; a file that is one single hole is all zeros."""
    if st.st_size in ZEROS and st.st_blocks == 0:
        return ZEROS[st.st_size]
    h = hashlib.sha256()
    with open(path, "rb") as f:
        for b in iter(lambda: f.read(1 << 20), b""):
            h.update(b)
    return h.hexdigest()


RUNAS = 1  # servers never run as root: uid 0 in scripts stands for this user


def real(uid):
    return uid or RUNAS


def user_name(uid):
    uid = real(uid)
    try:
        return pwd.getpwuid(uid).pw_name
    except KeyError:
        return "uid %d" % uid


def owner_name(uid):
    return user_name(uid) if uid else "root"


def iso(t):
    try:
        return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime("%Y-%m-%dT%H:%M:%S+00:00")
    except OverflowError:
        return "?"


def since_base(t):
    """Seconds since BASE_TIME, as far as TLC's integers reach."""
    return max(-2000000000, min(2000000000, t - BASE_TIME))


def rwx(mode):
    return "".join(c if mode & (1 << (8 - i)) else "-" for i, c in enumerate("rwxrwxrwx"))


LONG = re.compile(rb"([k-z])\1{999,}")


def lat(b):
    """The bytes as the specification sees them.  A long run of one letter is
    written as {letter*length}: the specification reads letter by letter."""
    if len(b) > 1000:
        b = LONG.sub(lambda m: b"{%c*%d}" % (m.group(1), len(m.group(0))), b)
    return b.decode("latin-1")


# ---------------------------------------------------------------- pkt-lines

def pkt(b):
    return b"%04x" % (len(b) + 4) + b


FLUSH = b"0000"
DELIM = b"0001"


def split_packets(buf):
    """Strict reading of a byte stream: ([packet...], rest, state).

    A packet is bytes, or "|" for a delimiter, or "." for a flush.  state is
    "ok" (nothing left), "cut" (an incomplete packet is left) or "bad" (a
    malformed header follows).
    """
    out = []
    i = 0
    n = len(buf)
    while i < n:
        h = buf[i:i + 4]
        if len(h) < 4:
            return out, buf[i:], "cut"
        if not re.match(rb"[0-9a-f]{4}\Z", h):
            return out, buf[i:], "bad"
        v = int(h, 16)
        if v == 0:
            out.append(".")
            i += 4
        elif v == 1:
            out.append("|")
            i += 4
        elif v < 4 or v > 65520:
            return out, buf[i:], "bad"
        else:
            if i + v > n:
                return out, buf[i:], "cut"
            out.append(bytes(buf[i + 4:i + v]))
            i += v
    return out, b"", "ok"


def request_bytes(cmd, args=(), body=None, lines=None):
    """A request in the usual form; body is a list of packets' payloads."""
    out = [pkt(cmd)]
    out += [pkt(a) for a in args]
    if body is not None or lines is not None:
        out.append(DELIM)
        out += [pkt(x) for x in (body if body is not None else lines)]
    out.append(FLUSH)
    return b"".join(out)


def chunks(data, n=32768):
    return [data[i:i + n] for i in range(0, len(data), n)]


def describe_request(packets, end):
    """The event form of one request; packets without the final flush."""
    pk = []
    isput = bool(packets) and isinstance(packets[0], bytes) and packets[0].startswith(b"put-object")
    sect = 0
    body = hashlib.sha256()
    bl = 0
    inbody = False
    for p in packets:
        if p == "|":
            sect += 1
            pk.append({"t": "|", "b": "", "n": 0})
        elif isput and sect >= 1:
            if sect == 1:
                body.update(p)
                bl += len(p)
            if not pk or pk[-1]["t"] != "B":
                pk.append({"t": "B", "b": "", "n": len(p)})
            else:
                pk[-1]["n"] += len(p)
        elif len(lat(p)) <= 5000:
            pk.append({"t": "D", "b": lat(p), "n": len(p)})
        else:
            pk.append({"t": "X", "b": "", "n": len(p)})
    return {"k": "req", "pk": pk, "bl": str(bl), "bo": body.hexdigest(), "end": end}


def split_requests(buf):
    """All requests of a client's byte stream, in event form."""
    packets, rest, state = split_packets(buf)
    out = []
    cur = []
    for p in packets:
        if p == ".":
            out.append(describe_request(cur, "flush"))
            cur = []
        else:
            cur.append(p)
    if state == "bad":
        out.append(describe_request(cur, "bad"))
    elif cur or rest:
        out.append(describe_request(cur, "eof"))
    return out


# ------------------------------------------------------------------ worlds

class World:
    def __init__(self, shared=None, base=None, clock=BASE_TIME, tick=0, config=""):
        self.dir = tempfile.mkdtemp(prefix="scut", dir=base or scratch_base())
        os.chmod(self.dir, 0o755)
        self.repo = os.path.join(self.dir, "r.git")
        self.lfs = os.path.join(self.repo, "lfs")
        self.linked = False
        for d in ("", "objects", "refs", "refs/heads"):
            os.mkdir(os.path.join(self.repo, d))
        with open(os.path.join(self.repo, "HEAD"), "w") as f:
            f.write("ref: refs/heads/main\n")
        with open(os.path.join(self.repo, "config"), "w") as f:
            f.write("[core]\n\trepositoryformatversion = 0\n\tbare = true\n")
            if shared is not None:
                f.write("\tsharedRepository%s\n" % ("" if shared == "!" else " = " + shared))
            f.write(config)
        self.home = os.path.join(self.dir, "home")
        os.mkdir(self.home)
        with open(os.path.join(self.home, ".gitconfig"), "w") as f:
            f.write("[safe]\n\tdirectory = *\n\tdirectory = %s\n" % self.repo)
        self.clockfile = os.path.join(self.dir, "clock")
        self.set_clock(clock, tick)
        os.chmod(self.clockfile, 0o666)
        self.uid = 0

    def set_clock(self, t, tick=0):
        if os.path.exists(self.clockfile):
            with open(self.clockfile, "r+b") as f:
                f.write(struct.pack("<qq", t, tick))
        else:
            with open(self.clockfile, "wb") as f:
                f.write(struct.pack("<qq", t, tick))

    def now(self):
        with open(self.clockfile, "rb") as f:
            return struct.unpack("<qq", f.read(16))[0]

    def open_to(self, uids):
        """Lets several users work in the repository (all of it lies in scratch)."""
        for root, dirs, files in os.walk(self.repo):
            for n in [root] + [os.path.join(root, f) for f in files]:
                os.chmod(n, 0o777 if os.path.isdir(n) else 0o666)

    def settle(self):
        """Gives the repository to the user the servers run as."""
        for root, dirs, files in os.walk(self.repo):
            for n in [root] + [os.path.join(root, f) for f in files]:
                if os.lstat(n).st_uid == 0:
                    os.lchown(n, RUNAS, RUNAS)

    def make_lfs(self, uid=0):
        for d in ("", "objects", "incomplete", "tmp", "locks"):
            p = os.path.join(self.lfs, d)
            os.makedirs(p, exist_ok=True)
            if uid:
                os.chown(p, uid, uid)

    def put_object(self, data, mode=0o644):
        self.make_lfs()
        o = sha(data)
        d = os.path.join(self.lfs, "objects", o[:2], o[2:4])
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, o)
        with open(p, "wb") as f:
            f.write(data)
        os.chmod(p, mode)
        return o

    def put_zeros(self, n, mode=0o644):
        self.make_lfs()
        o = ZEROS[n]
        d = os.path.join(self.lfs, "objects", o[:2], o[2:4])
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, o)
        with open(p, "wb") as f:
            f.truncate(n)
        os.chmod(p, mode)
        return o

    def link_away(self, rel, n=[0]):
        """Moves a part of the store elsewhere and leaves a symbolic link to it."""
        self.make_lfs()
        self.linked = True
        n[0] += 1
        p = os.path.normpath(os.path.join(self.lfs, rel))
        q = os.path.join(self.dir, "elsewhere%d" % n[0])
        os.rename(p, q)
        os.symlink(q, p)
        for root, dirs, files in os.walk(q):
            for x in [root] + [os.path.join(root, f) for f in files]:
                os.lchown(x, RUNAS, RUNAS)
        if os.path.isfile(q):
            os.chown(q, RUNAS, RUNAS)

    def put_lock(self, path, t=BASE_TIME - 1000, uid=0, mode=0o644):
        self.make_lfs()
        i = lock_id(path)
        p = os.path.join(self.lfs, "locks", i)
        with open(p, "wb") as f:
            f.write(b"v1:%d:" % t + path)
        os.chmod(p, mode)
        os.chown(p, real(uid), real(uid))
        return i

    def snapshot(self, dirs=False):
        objs, locks, temps, dd = {}, {}, [], {}
        base = self.lfs

        def isdir(p):
            return stat.S_ISDIR(os.lstat(p).st_mode)

        def walk(rel):
            p = os.path.join(base, rel) if rel else base
            try:
                names = os.listdir(p)
            except (FileNotFoundError, NotADirectoryError):
                return
            if dirs:
                dd[rel] = rwx(os.lstat(p).st_mode)
            for n in sorted(names):
                r = rel + "/" + n if rel else n
                q = os.path.join(base, r)
                try:
                    st = os.lstat(q)
                except FileNotFoundError:
                    continue
                if stat.S_ISLNK(st.st_mode) and self.linked:
                    st = os.stat(q)
                if stat.S_ISDIR(st.st_mode):
                    walk(r)
                    continue
                parts = r.split("/")
                if parts[0] == "objects" and len(parts) == 4 and HEX64.match(n) and parts[1] == n[:2] \
                        and parts[2] == n[2:4] and stat.S_ISREG(st.st_mode):
                    h = content(q, st)
                    objs[n] = {"n": str(st.st_size), "ok": h == n, "h": h, "perm": rwx(st.st_mode)}
                elif parts[0] == "locks" and len(parts) == 2 and HEX64.match(n) and stat.S_ISREG(st.st_mode):
                    with open(q, "rb") as f:
                        data = f.read()
                    rec = {"ok": False, "path": "", "at": "", "t": 0, "owner": owner_name(st.st_uid),
                           "perm": rwx(st.st_mode)}
                    m = re.match(rb"v1:(-?\d+):(.*)\Z", data, re.S)
                    if m and abs(int(m.group(1))) < 253402300800 and lock_id(m.group(2)) == n:
                        t = int(m.group(1))
                        rec.update(ok=True, path=lat(m.group(2)), at=iso(t), t=since_base(t))
                    locks[n] = rec
                else:
                    temps.append(r)
        walk("")
        return {"objs": objs, "locks": locks, "temps": temps, "dirs": dd}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


# ------------------------------------------------------------------- traces

class Trace:
    def __init__(self, world, label, dirs=False, perm=("", ""), lockperm="", info=None):
        self.w = world
        self.ev = []
        self.label = label
        self.dirs = dirs
        self.info = info or {}
        self.last = None
        self.perm = perm
        self.lockperm = lockperm
        self.names = 0
        self.quiet_fs = False

    def emit(self, k, s, **kw):
        e = {"k": k, "s": s}
        e.update(kw)
        self.ev.append(e)

    def fs(self, s):
        snap = self.w.snapshot(self.dirs)
        if snap != self.last:
            self.last = snap
            self.emit("fs", s, **snap)

    def to_json(self):
        return json.dumps({"label": self.label, "info": self.info, "ev": self.ev,
                           "perm": self.perm})


class Hang(Exception):
    pass


class TracerError(Exception):
    pass


class Srv:
    """One server process.  Its moves are made by step() only."""

    def __init__(self, w, tr, mode="upload", uid=0, umask=0o022, name=None, startup=False, access=False,
                 deny=False, server=None, chunk=60000, env_more=None):
        self.w, self.tr, self.mode, self.uid = w, tr, mode, uid
        tr.names += 1
        self.name = name or "s%d" % tr.names
        self.user = user_name(uid)
        self.deny = deny
        self.access = access
        self.chunk = chunk
        self.inbuf = bytearray()
        self.bounds = []       # lengths of the pieces in which the input arrives
        self.eof = False
        self.eof_sent = False
        self.out = bytearray()
        self.got = []          # packets of the response that is coming in
        self.err = b""
        self.stop = None
        self.code = None
        self.adv = False
        self.queue = []        # requests sent whose response is not in yet
        self.announced = False
        self.nres = 0
        self.nreq = 0
        self.killed = False
        self.hung = False
        self.garbled = False
        self.steps = 0
        self.since = w.now()
        self.calls = []
        si_r, si_w = os.pipe()
        so_r, so_w = os.pipe()
        se = os.path.join(w.dir, "err-" + self.name)
        se_w = os.open(se, os.O_CREAT | os.O_RDWR | os.O_TRUNC, 0o600)
        self.errfile = se
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": w.home, "LD_PRELOAD": SHIM,
               "VERIF_CLOCK": w.clockfile, "RUST_BACKTRACE": "0", "GIT_CONFIG_NOSYSTEM": "1",
               "LC_ALL": "C"}
        env.update(env_more or {})
        self.p = subprocess.Popen(
            [TRACER, w.repo, str(real(uid)), str(real(uid)), str(si_r), str(so_w), str(se_w), "1" if startup else "0",
             server or SERVER, w.repo, mode],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, pass_fds=(si_r, so_w, se_w), env=env, cwd=w.dir,
            umask=umask, bufsize=0)
        os.close(si_r)
        os.close(so_w)
        os.close(se_w)
        self.si, self.so = si_w, so_r
        os.set_blocking(self.si, False)
        os.set_blocking(self.so, False)
        self.ctl_in = self.p.stdin.fileno()
        self.ctl_out = self.p.stdout.fileno()
        self.ctlbuf = b""
        self.poll = select.poll()
        self.poll.register(self.ctl_out, select.POLLIN)
        self.poll.register(self.so, select.POLLIN)
        self.so_open = True
        self.deaf = False
        self.deaf_at = None    # so many bytes of output are read, no more
        self.nread = 0
        tr.emit("open", self.name, mode=mode, user=self.user, deny=deny, t=since_base(w.now()))
        try:
            self._wait()
        except Hang:
            self._hang()
            return
        tr.fs(self.name)
        self._responses()
        if self.code is not None:
            self._ended()

    # -- low level

    def _read_out(self):
        while self.so_open:
            try:
                b = os.read(self.so, 1 << 20)
            except BlockingIOError:
                return
            if not b:
                self.so_open = False
                self.poll.unregister(self.so)
                return
            self.out += b
            self.nread += len(b)
            if self.deaf_at is not None and self.nread >= self.deaf_at:
                self.deafen()

    def deafen(self):
        """The client reads no more: what it has of the next response is reported."""
        if self.deaf or not self.so_open or self.code is not None:
            return
        self.poll.unregister(self.so)
        os.close(self.so)
        self.so = -1
        self.so_open = False
        self.deaf = "now"

    def _deafened(self):
        self.deaf = "yes"
        st, args, full = 0, [], False
        if self.got and isinstance(self.got[0], bytes) and re.match(rb"status [0-9]{3}\n\Z", self.got[0]) and "|" in self.got:
            st, full = int(self.got[0][7:10]), True
            args = [lat(x) for x in self.got[1:self.got.index("|")]]
        self.tr.emit("deaf", self.name, st=st, args=args, part=full)
        del self.out[:]
        self.got = []

    def _wait(self):
        """Until the next stop or the end of the process."""
        while True:
            nl = self.ctlbuf.find(b"\n")
            if nl >= 0:
                line = self.ctlbuf[:nl].decode("latin-1")
                self.ctlbuf = self.ctlbuf[nl + 1:]
                f = line.split(" ")
                if f[0] == "A":
                    if self.access:
                        self._acc(f[1], int(f[2], 16), f[3], f[4], False)
                    continue
                if f[0] == "S":
                    self._read_out()
                    self.stop = {"ret": f[1], "call": f[2], "fd": f[3], "flags": int(f[4], 16),
                                 "p1": _dec(f[5]), "p2": _dec(f[6])}
                    return
                if f[0] == "X":
                    self._read_out()
                    self.code = int(f[1])
                    self.stop = None
                    return
                raise TracerError(line)
            evs = self.poll.poll(TIMEOUT * 1000)
            if not evs:
                raise Hang()
            for fd, _ in evs:
                if fd == self.so and self.so_open:
                    self._read_out()
                elif fd == self.ctl_out:
                    b = os.read(self.ctl_out, 65536)
                    if not b:
                        raise TracerError("tracer ended: %r" % (self.p.wait(),))
                    self.ctlbuf += b

    def _cmd(self, c):
        os.write(self.ctl_in, c + b"\n")

    def _acc(self, call, flags, p1, p2, dec=True):
        for p in (p1, p2):
            if not dec:
                p = _dec(p)
            if not p or p == "-":
                continue
            area, name = self._area(p)
            write = call not in ("stat", "access", "readlink", "read", "getdents") and not (
                call == "open" and not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
            self.tr.emit("acc", self.name, op="write" if write else "read", call=call, area=area, name=name)

    def _area(self, p):
        lfs = self.w.lfs
        if p == lfs or p.startswith(lfs + "/"):
            rel = p[len(lfs) + 1:]
            parts = rel.split("/")
            if len(parts) == 1:
                return "dir", rel
            if parts[0] == "objects":
                if len(parts) == 4 and HEX64.match(parts[3]) and parts[3].startswith(parts[1] + parts[2]):
                    return "objects", parts[3]
                if len(parts) in (2, 3) and all(re.match(r"[0-9a-f]{2}\Z", x) for x in parts[1:]):
                    return "dir", rel
                return "stray", rel
            if parts[0] == "locks" and len(parts) == 2:
                return ("locks", parts[1]) if HEX64.match(parts[1]) else ("locktemp", parts[1])
            if parts[0] in ("incomplete", "tmp") and len(parts) == 2:
                return "temp", parts[1]
            return "stray", rel
        for s in ("/etc/", "/usr/", "/lib", "/proc/self/", "/dev/null", "/dev/urandom", "/run/", "/var/run/",
                  "/var/lib/", "/sys/", "/proc/sys/", "/proc/mounts", "/var/db/"):
            if p.startswith(s) and "/../" not in p:
                return "system", p
        if p == "/":
            return "system", p
        return "outside", p

    # -- talking

    def send(self, data):
        """Queues bytes for the server; they reach it as it reads."""
        self.since = self.w.now() if not self.queue else self.since
        self.inbuf += data
        for r in split_requests(bytes(data)):
            self.queue.append(r)
        self._announce()

    def send_raw(self, data, requests):
        self.since = self.w.now() if not self.queue else self.since
        self.inbuf += data
        self.queue += requests
        self._announce()

    def end(self):
        self.eof = True

    def _announce(self):
        if self.queue and not self.announced and self.adv:
            e = dict(self.queue[0])
            e["s"] = self.name
            e["t"] = since_base(self.since)
            self.tr.ev.append(e)
            self.announced = True
            self.nreq += 1

    def idle(self):
        return self.code is None and self.stop is not None and self.stop["call"] == "stdin" and not self.inbuf \
            and not (self.eof and not self.eof_sent)

    def done(self):
        return self.code is not None

    def feed(self):
        """Before a read of standard input: makes sure it will not block; False if there is nothing to read."""
        if self.inbuf:
            n = min(self.chunk, len(self.inbuf))
            if self.bounds:
                n = min(n, self.bounds[0])
            try:
                n = os.write(self.si, self.inbuf[:n])
                del self.inbuf[:n]
                if self.bounds:
                    self.bounds[0] -= n
                    if not self.bounds[0]:
                        self.bounds.pop(0)
            except BlockingIOError:
                pass
            except BrokenPipeError:
                del self.inbuf[:]
            return True
        if self.eof:
            if not self.eof_sent:
                os.close(self.si)
                self.si = -1
                self.eof_sent = True
            return True
        return False

    def step(self, cmd=b"g"):
        """Carries out the call the process is stopped at.  False if it waits for input or has ended."""
        if self.code is not None:
            return False
        call = self.stop
        if call["call"] == "stdin":
            if not self.feed():
                return False
        else:
            self.calls.append(call["call"])
            if self.access:
                self._acc(call["call"], call["flags"], call["p1"], call["p2"])
        self.steps += 1
        # a request whose predecessor is answered in this step may be begun in it, too
        self.since = self.w.now()
        self._cmd(cmd)
        try:
            self._wait()
        except Hang:
            self._hang()
            return False
        if call["call"] in MUTATING and not (call["call"] == "open" and not call["flags"] & WRITING):
            self.tr.fs(self.name)
        self._responses()
        if self.code is not None:
            self._ended()
        return True

    def fail(self, errno_, errname):
        self.tr.emit("fault", self.name, call=self.stop["call"], err=errname)
        return self.step(b"e %d" % errno_)

    def partial(self, n):
        self.tr.emit("short", self.name, call=self.stop["call"])
        return self.step(b"p %d" % n)

    def kill(self):
        if self.code is not None:
            return
        self._cmd(b"k")
        try:
            self._wait()
        except Hang:
            pass
        self.killed = True
        self.tr.fs(self.name)
        self._responses()
        self.tr.emit("kill", self.name)
        self._cleanup()

    def run(self, limit=60000):
        """Until the process waits for input that is not there, or ends."""
        n = 0
        while self.step():
            n += 1
            if n >= limit:
                self._hang()
                break
        return n

    def _hang(self):
        self.hung = True
        self._destroy()
        self.tr.emit("hang", self.name)
        self.code = -1000
        self.stop = None

    def _responses(self):
        i = 0
        n = len(self.out)
        while not self.garbled and n - i >= 4:
            h = bytes(self.out[i:i + 4])
            v = int(h, 16) if HEX4.match(h) else 2
            if v in (2, 3) or v > 65520:
                self.garbled = True
                self.tr.emit("junk", self.name, why="malformed packet in the output")
            elif v == 1:
                self.got.append("|")
                i += 4
            elif v:
                if i + v > n:
                    break
                self.got.append(bytes(self.out[i + 4:i + v]))
                i += v
            else:
                i += 4
                got, self.got = self.got, []
                if self.adv:
                    self._response(got)
                    continue
                self.adv = True
                if b"version=1\n" not in got or not all(g != "|" and g.endswith(b"\n") for g in got):
                    self.tr.emit("junk", self.name, why="unexpected capability advertisement")
                self._announce()
        del self.out[:i]
        if self.deaf == "now":
            self._deafened()

    def _response(self, got):
        why = None
        e = {"st": 0, "args": [], "delim": False, "data": [], "dn": "0", "do": ""}
        if not got or not isinstance(got[0], bytes) or not re.match(rb"status [0-9]{3}\n\Z", got[0]):
            why = "no status line"
        else:
            e["st"] = int(got[0][7:10])
            i = 1
            while i < len(got) and got[i] != "|":
                if not got[i].endswith(b"\n"):
                    why = "argument without newline"
                e["args"].append(lat(got[i]))
                i += 1
            if i < len(got):
                e["delim"] = True
                data = got[i + 1:]
                if "|" in data:
                    why = "second delimiter"
                    data = [x for x in data if x != "|"]
                h = hashlib.sha256()
                for x in data:
                    h.update(x)
                e["dn"] = str(sum(len(x) for x in data))
                e["do"] = h.hexdigest()
                if len(data) <= 5000 and all(len(lat(x)) <= 5000 for x in data):
                    e["data"] = [lat(x) for x in data]
                e["nd"] = len(data)
        if why:
            self.tr.emit("junk", self.name, why=why)
            self.garbled = True
        self.nres += 1
        if self.queue:
            self.queue.pop(0)
        self.announced = False
        self.tr.emit("res", self.name, t=since_base(self.w.now()), **e)
        self._announce()

    def _ended(self):
        self.tr.fs(self.name)
        if (self.out or self.got) and not self.garbled:
            # the last response is incomplete
            self.tr.emit("junk", self.name, why="output ends within a response")
        self._cleanup()
        self.tr.emit("exit", self.name, code=self.code, eof=self.eof_sent, left=len(self.inbuf),
                     more=max(0, len(self.queue) - (1 if self.announced else 0)))

    def stderr(self):
        try:
            with open(self.errfile, "rb") as f:
                return f.read()
        except OSError:
            return b""

    def _destroy(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self._cleanup()

    def _cleanup(self):
        for fd in (self.si, self.so):
            if fd >= 0:
                try:
                    os.close(fd)
                except OSError:
                    pass
        self.si = self.so = -1
        try:
            self.p.stdin.close()
            self.p.stdout.close()
        except OSError:
            pass
        self.p.wait()

    def finish(self):
        """Ends the input and lets the server end."""
        if self.code is None:
            self.end()
            self.run()
        if self.code is None:
            self.kill()
        return self.code


def _dec(s):
    if s == "-":
        return ""
    return re.sub(r"%([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


# ---------------------------------------------------------- usual requests

def r_version():
    return request_bytes(b"version 1\n")


def r_put(data, oid=None, size=None, body=None, pk=32768):
    o = (oid or sha(data))
    n = len(data) if size is None else size
    return request_bytes(b"put-object %s\n" % o.encode(), [b"size=%d\n" % n], body=chunks(data if body is None else body, pk))


def r_verify(oid, size):
    return request_bytes(b"verify-object %s\n" % oid.encode(), [b"size=%d\n" % size])


def r_get(oid):
    return request_bytes(b"get-object %s\n" % oid.encode())


def r_batch(items):
    return request_bytes(b"batch\n", [b"hash-algo=sha256\n", b"transfer=ssh\n"],
                         lines=[b"%s %d\n" % (o.encode(), n) for o, n in items])


def r_lock(path):
    return request_bytes(b"lock\n", [b"path=" + path + b"\n", b"refname=refs/heads/main\n"])


def r_unlock(lid):
    return request_bytes(b"unlock " + (lid.encode() if isinstance(lid, str) else lid) + b"\n")


def r_list(limit=None, cursor=None, path=None):
    a = []
    if limit is not None:
        a.append(b"limit=%d\n" % limit)
    if cursor is not None:
        a.append(b"cursor=" + cursor.encode() + b"\n")
    if path is not None:
        a.append(b"path=" + path + b"\n")
    return request_bytes(b"list-lock\n", a)


def r_quit():
    return request_bytes(b"quit\n")
