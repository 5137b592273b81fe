"""Scratch git repositories, built with git fast-import."""
import os
import shutil
import subprocess
import tempfile

ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C.UTF-8",
       "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_AUTHOR_NAME": "A U Thor", "GIT_AUTHOR_EMAIL": "a@example.com",
       "GIT_COMMITTER_NAME": "C O Mitter", "GIT_COMMITTER_EMAIL": "c@example.com", "TZ": "UTC"}


def scratch(prefix):
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    return tempfile.mkdtemp(prefix=prefix, dir=base)


def git(d, *args, **kw):
    env = dict(ENV)
    env.update(kw.pop("env", {}))
    inp = kw.pop("input", None)
    r = subprocess.run(["git", "-C", d] + list(args), env=env, input=inp, capture_output=True)
    if r.returncode and not kw.get("ok"):
        raise RuntimeError("git %s: %s" % (args, r.stderr.decode("latin-1")))
    return r.stdout


def init(d, bare=False, branch="main"):
    os.makedirs(d, exist_ok=True)
    git(d, "init", "-q", "-b", branch, *(["--bare"] if bare else []), ".")
    return d


class Import:
    """A fast-import stream; commits are numbered by marks."""

    def __init__(self):
        self.out = []
        self.n = 0

    def commit(self, msg, date, parents=(), adate=None, tz="+0000", ref="refs/import/x", encoding=None, tree=True):
        self.n += 1
        o = self.out
        o.append(b"reset %s\n\n" % ref.encode() if not parents else b"")
        o.append(b"commit %s\nmark :%d\n" % (ref.encode(), self.n))
        o.append(b"author A <a@example.com> %d %s\n" % (date if adate is None else adate, tz.encode()))
        o.append(b"committer C <c@example.com> %d %s\n" % (date, tz.encode()))
        if encoding:
            o.append(b"encoding %s\n" % encoding.encode())
        o.append(b"data %d\n" % len(msg) + msg + b"\n")
        for k, p in enumerate(parents):
            o.append(b"%s :%d\n" % (b"from" if k == 0 else b"merge", p))
        o.append(b"M 100644 inline f\ndata 1\nx\n" if tree else b"deleteall\n")
        return self.n

    def ref(self, name, mark):
        self.out.append(b"reset %s\nfrom :%d\n\n" % (name, mark))

    def run(self, d):
        """Returns the ids of the marks, from 1."""
        marks = os.path.join(d, "marks.tmp")
        git(d, "fast-import", "--quiet", "--force", "--date-format=raw", "--export-marks=" + marks, input=b"".join(self.out))
        ids = [None] * (self.n + 1)
        for l in open(marks):
            m, i = l.split()
            ids[int(m[1:])] = i
        os.unlink(marks)
        git(d, "update-ref", "-d", "refs/import/x")
        return ids


def remove(d):
    shutil.rmtree(d, ignore_errors=True)
