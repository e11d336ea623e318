"""Simulated network and faulty disk for the dataset loaders.

The loaders' real code runs in a scratch directory; `urllib.request.urlopen`
is a simulated server and every file-system mutation (open for writing, write,
rename, remove, mkdir, ...) passes a seam that can fail it, tear it or kill the
process there.  After a kill nothing the code still does (handlers, `finally`,
destructors) reaches the disk.
"""
import builtins
import email.message
import errno
import io
import os
import tarfile
import urllib.error
import urllib.request


class SimCrash(BaseException):
    """The process died here."""


OSFUN = ("rename", "replace", "remove", "unlink", "mkdir", "rmdir", "link",
         "symlink", "truncate")


class Response(object):
    def __init__(self, world, url, body, plan):
        self.w, self.body, self.pos, self.plan = world, body, 0, plan
        self.headers = email.message.Message()
        if plan.get("length", True):
            self.headers["Content-Length"] = str(len(body))
        self.url = url
        self.code = self.status = 200
        self.end = len(body)
        if plan.get("short") is not None:
            self.end = min(self.end, int(plan["short"] * len(body)))
            if self.end < len(body):
                world.hit("short-read")

    def info(self):
        return self.headers

    def getcode(self):
        return 200

    def geturl(self):
        return self.url

    def read(self, n=-1):
        self.w.alive()
        k = self.end - self.pos if n is None or n < 0 else n
        e = min(self.end, self.pos + k)
        at = self.plan.get("reset")
        if at is not None and e > at * len(self.body):
            self.w.hit("connection-reset")
            raise ConnectionResetError(errno.ECONNRESET, "reset by peer")
        b = self.body[self.pos:e]
        self.pos = e
        return b

    def readline(self, *a):
        i = self.body.find(b"\n", self.pos, self.end)
        return self.read((i + 1 if i >= 0 else self.end) - self.pos)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


class File(object):
    """A file open for writing: each write is one durable step."""

    def __init__(self, world, f):
        self._w, self._f = world, f

    def write(self, b):
        keep = self._w.step("write", len(b))
        if keep is not None:
            self._f.write(b[:keep[0]])
            self._f.flush()
            raise keep[1]
        n = self._f.write(b)
        self._f.flush()
        return n

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def truncate(self, *a):
        self._w.step("truncate")
        return self._f.truncate(*a)

    def close(self):
        self._f.close()

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __iter__(self):
        return iter(self._f)


class World(object):
    def __init__(self, root, server, hits):
        self.root = os.path.realpath(root)
        self.server = server          # url suffix -> bytes
        self.hits = hits
        self.downloads = []
        self.plan = {}
        self.n = 0
        self.dead = False
        self.faulted = False

    # ---- faults
    def hit(self, kind):
        self.faulted = True
        self.hits[kind] += 1

    def alive(self):
        if self.dead:
            raise SimCrash()

    def step(self, what, size=0):
        """One mutation.  None, or (bytes kept, exception) for a write."""
        self.alive()
        i, self.n = self.n, self.n + 1
        p = self.plan
        if p.get("crash") == i:
            self.dead = True
            self.hit("crash-at-" + what)
            if what == "write":
                return int(p.get("tear", 0.5) * size), SimCrash()
            raise SimCrash()
        if p.get("full") is not None and i >= p["full"] and \
                i < p["full"] + p.get("span", 1):
            self.hit("disk-full-at-" + what)
            e = OSError(errno.ENOSPC, "No space left on device")
            if what == "write":
                return int(p.get("tear", 0.5) * size), e
            if what in ("open", "mkdir", "rename", "replace", "link"):
                raise e
        if p.get("eio") == i:
            self.hit("io-error-at-" + what)
            e = OSError(errno.EIO, "Input/output error")
            if what == "write":
                return int(p.get("tear", 0.5) * size), e
            raise e
        return None

    def inside(self, path):
        if isinstance(path, int):
            return False
        try:
            p = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return False
        return (p + os.sep).startswith(self.root + os.sep) or \
            os.path.realpath(os.path.dirname(p)).startswith(self.root)

    def urlopen(self, url, *a, **k):
        self.alive()
        u = url if isinstance(url, str) else url.full_url
        plan = self.plan.get("net", {})
        i = len([d for d in self.downloads if d[0] == self.life])
        self.downloads.append((self.life, u))
        plan = plan.get(str(i), {})
        if plan.get("refuse"):
            self.hit("connection-refused")
            raise urllib.error.URLError(ConnectionRefusedError(
                errno.ECONNREFUSED, "refused"))
        body = self.server(u)
        if body is None:
            raise urllib.error.HTTPError(u, 404, "Not Found", None, None)
        return Response(self, u, body, plan)

    # ---- patching
    def __enter__(self):
        w = self
        real_open = builtins.open
        self.saved = [(builtins, "open", real_open),
                      (io, "open", io.open),
                      (tarfile, "bltn_open", tarfile.bltn_open),
                      (urllib.request, "urlopen", urllib.request.urlopen)]

        def sim_open(file, mode="r", *a, **k):
            if set(mode) & set("wax+") and w.inside(file):
                w.step("open")
                return File(w, real_open(file, mode, *a, **k))
            if w.dead and w.inside(file):
                raise SimCrash()
            return real_open(file, mode, *a, **k)
        builtins.open = io.open = sim_open
        tarfile.bltn_open = sim_open
        urllib.request.urlopen = self.urlopen

        def wrap(name, f):
            def g(path, *a, **k):
                if w.inside(path) or k.get("dir_fd") is not None:
                    w.step(name)
                return f(path, *a, **k)
            return g
        for n in OSFUN:
            f = getattr(os, n)
            self.saved.append((os, n, f))
            setattr(os, n, wrap(n, f))
        return self

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)
        return False

    def begin(self, life, plan):
        self.life, self.plan, self.n = life, plan, 0
        self.dead = self.faulted = False
