"""Seams: file system, network, clock, entropy, subprocess.  Installed once in a run child."""
import _thread
import errno
import http.client
import io
import os
import random
import socket
import stat as stat_mod
import subprocess
import sys
import tempfile
import threading
import time
import uuid

from . import kernel
from .kernel import SimKill

R = {}      # real functions


def _sim():
    s = kernel.CURRENT
    if s is None:
        return None, None
    return s, s.current()


# ============================================================== file system
class FS:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.fds = {}
        self.escapes = []
        self.mutations = 0
        self.on_mutation = None
        self.snap = None
        self.xdev = True

    def abspath(self, path, dir_fd=None):
        if isinstance(path, int):
            return self.fds.get(path)
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if dir_fd is not None and not os.path.isabs(p):
            base = self.fds.get(dir_fd) or R["readlink"]("/proc/self/fd/%d" % dir_fd)
            p = os.path.join(base, p)
        return os.path.normpath(os.path.join(R["getcwd"](), p))

    def inside(self, p):
        if p is None:
            return False
        if p == self.root or p.startswith(self.root + "/"):
            d, b = os.path.split(p)
            rp = os.path.join(R["realpath"](d), b)
            return rp == self.root or rp.startswith(self.root + "/")
        return False

    def rel(self, p):
        return p[len(self.root) + 1:] if p else "?"

    def mutated(self):
        self.mutations += 1
        if self.on_mutation is not None:
            self.on_mutation()

    # ---- snapshots (kill = only what is on disk now survives)
    def stamp_one(self, p, now):
        try:
            if not stat_mod.S_ISLNK(R["lstat"](p).st_mode):
                R["utime"](p, (now, now))
        except OSError:
            pass

    def stamp(self, now):
        """Files written since the last call get times of the simulated clock."""
        for d, dirs, files in R["walk"](self.root):
            for n in dirs + files:
                p = os.path.join(d, n)
                try:
                    if R["lstat"](p).st_mtime > LATEST:
                        self.stamp_one(p, now)
                except OSError:
                    pass

    def snapshot(self):
        out = {}
        for d, dirs, files in R["walk"](self.root):
            dirs.sort()
            for n in sorted(dirs):
                p = os.path.join(d, n)
                if stat_mod.S_ISLNK(R["lstat"](p).st_mode):
                    out[p] = ("l", R["readlink"](p))
                else:
                    out[p] = ("d", None)
            for n in sorted(files):
                p = os.path.join(d, n)
                st = R["lstat"](p)
                if stat_mod.S_ISLNK(st.st_mode):
                    out[p] = ("l", R["readlink"](p))
                else:
                    with R["open"](p, "rb") as f:
                        out[p] = ("f", f.read())
        return out

    def restore(self, snap):
        now = self.snapshot()
        if now == snap:
            return False
        for p in sorted(now, reverse=True):
            if p not in snap or snap[p][0] != now[p][0]:
                (R["rmdir"] if now[p][0] == "d" else R["unlink"])(p)
        for p in sorted(snap):
            kind, val = snap[p]
            if p in now and now[p] == snap[p]:
                continue
            if kind == "d":
                if not (p in now and now[p][0] == "d"):
                    R["mkdir"](p)
            elif kind == "l":
                if p in now and now[p][0] == "l":
                    R["unlink"](p)
                R["symlink"](val, p)
            else:
                with R["open"](p, "wb") as f:
                    f.write(val)
        return True


FSYS = None
ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
       "EROFS": errno.EROFS, "EINTR": errno.EINTR}


def _err(kind, path=None):
    e = ERR[kind]
    return OSError(e, os.strerror(e) + " (simulated)", path)


class SimFileIO(io.FileIO):
    def __init__(self, file, mode="r", closefd=True, opener=None):
        self._owner = None
        s, me = _sim()
        p = FSYS.abspath(file)
        if not isinstance(file, int) and opener is None:
            k = s.seam("fs.open", FSYS.rel(p))
            if k in ERR:
                raise _err(k, p)
        self._path = p
        self._w = any(c in mode for c in "wax+")
        existed = None
        if self._w and not isinstance(file, int):
            existed = R["lexists"](p)
        super().__init__(file, mode, closefd, opener)
        self._owner = me.proc if me else None
        if self._w and (existed is False or "w" in mode):
            FSYS.mutated()

    def _dead(self):
        return self._owner is not None and not self._owner.alive

    def write(self, b):
        if self._dead():
            return len(memoryview(b).cast("B")) if b is not None else 0
        s, me = _sim()
        if me is None:
            return super().write(b)
        k = s.seam("fs.write", FSYS.rel(self._path))
        mv = memoryview(b).cast("B")
        if k == "ENOSPC" or k == "EIO":
            n = len(mv) // 2
            if n:
                super().write(mv[:n])
                FSYS.mutated()
            raise _err(k, self._path)
        if k == "EINTR":
            k = "short"
        if k == "short" and len(mv) > 1:
            n = super().write(mv[: max(1, len(mv) // 3)])
        else:
            n = super().write(mv)
        FSYS.mutated()
        return n

    def readinto(self, b):
        s, me = _sim()
        if me is not None and not self._dead():
            k = s.seam("fs.read", FSYS.rel(self._path))
            if k in ERR:
                raise _err(k, self._path)
            mv = memoryview(b).cast("B")
            if k == "short" and len(mv) > 1:
                mv = mv[: max(1, len(mv) // 3)]
            return super().readinto(mv)
        return super().readinto(b)

    def read(self, n=-1):
        s, me = _sim()
        if me is not None and not self._dead():
            k = s.seam("fs.read", FSYS.rel(self._path))
            if k in ERR:
                raise _err(k, self._path)
        return super().read(n)

    def readall(self):
        s, me = _sim()
        if me is not None and not self._dead():
            k = s.seam("fs.read", FSYS.rel(self._path))
            if k in ERR:
                raise _err(k, self._path)
        return super().readall()

    def truncate(self, size=None):
        if self._dead():
            return 0
        s, me = _sim()
        if me is not None:
            s.seam("fs.write", FSYS.rel(self._path))
        r = super().truncate(size)
        FSYS.mutated()
        return r

    def close(self):
        if self.closed:
            return
        k = None
        s, me = _sim()
        if me is not None and not self._dead() and self._owner is not None:
            try:
                k = s.seam("fs.close", FSYS.rel(self._path))
            except BaseException:
                super().close()
                raise
        super().close()
        if k in ERR and self._w:
            raise _err(k, self._path)


def _refuse(p, what):
    FSYS.escapes.append((what, p))
    raise PermissionError(errno.EPERM, "simulator: outside scratch root", p)


_ALLOWED_DEV = ("/dev/null", "/dev/stdout", "/dev/stderr", "/dev/tty")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    s, me = _sim()
    if me is None:
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    p = FSYS.abspath(file)
    writing = any(c in mode for c in "wax+")
    if not FSYS.inside(p):
        if writing and p is not None and p not in _ALLOWED_DEV:
            _refuse(p, "open:" + mode)
        return R["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if me.killed:
        raise SimKill()
    binary = "b" in mode
    rawmode = "".join(c for c in mode if c in "rwax+")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimFileIO(file, rawmode, closefd, opener)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        bs = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, bs)
        elif rawmode == "r":
            buf = io.BufferedReader(raw, bs)
        else:
            buf = io.BufferedWriter(raw, bs)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


LATEST = 1.7e9       # simulated time stays below, real time is above


def _wrap1(name, site, destructive=True):
    real = R[name]

    def f(path, *a, **kw):
        s, me = _sim()
        if me is None:
            return real(path, *a, **kw)
        p = FSYS.abspath(path, kw.get("dir_fd"))
        if not FSYS.inside(p):
            if destructive:
                if name == "mkdir" and p is not None and R["isdir"](p):
                    return real(path, *a, **kw)
                _refuse(p, name)
            return real(path, *a, **kw)
        k = s.seam(site, FSYS.rel(p))
        if k in ERR:
            raise _err(k, p)
        r = real(path, *a, **kw)
        if destructive:
            FSYS.mutated()
        if name in ("stat", "lstat") and r.st_mtime > LATEST:
            FSYS.stamp_one(p, s.now)
            r = real(path, *a, **kw)
        return r

    f.__name__ = name
    return f


def _wrap2(name, site):
    real = R[name]

    def f(src, dst, *a, **kw):
        s, me = _sim()
        if me is None:
            return real(src, dst, *a, **kw)
        p, q = FSYS.abspath(src, kw.get("src_dir_fd")), FSYS.abspath(dst, kw.get("dst_dir_fd"))
        if name == "symlink":
            p = q
        if not FSYS.inside(q) or not FSYS.inside(p):
            _refuse(q if FSYS.inside(p) else p, name)
        k = s.seam(site, FSYS.rel(q))
        if k in ERR:
            raise _err(k, q)
        tmp = FSYS.root + "/tmp"
        if FSYS.xdev and (p.startswith(tmp + "/")) != (q.startswith(tmp + "/")):
            s.probe("exdev")
            raise OSError(errno.EXDEV, "Invalid cross-device link (simulated)", p)
        r = real(src, dst, *a, **kw)
        FSYS.mutated()
        return r

    f.__name__ = name
    return f


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    s, me = _sim()
    if me is None:
        return R["os_open"](path, flags, mode, dir_fd=dir_fd)
    p = FSYS.abspath(path, dir_fd)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if not FSYS.inside(p):
        if writing and p not in _ALLOWED_DEV:
            _refuse(p, "os.open")
        return R["os_open"](path, flags, mode, dir_fd=dir_fd)
    k = s.seam("fs.open", FSYS.rel(p))
    if k in ERR:
        raise _err(k, p)
    fd = R["os_open"](path, flags, mode, dir_fd=dir_fd)
    FSYS.fds[fd] = p
    if writing:
        FSYS.mutated()
    return fd


def sim_os_close(fd):
    FSYS.fds.pop(fd, None)
    return R["os_close"](fd)


def sim_os_write(fd, data):
    s, me = _sim()
    if me is None or fd not in FSYS.fds:
        return R["os_write"](fd, data)
    k = s.seam("fs.write", FSYS.rel(FSYS.fds[fd]))
    if k in ("ENOSPC", "EIO"):
        R["os_write"](fd, data[: len(data) // 2])
        FSYS.mutated()
        raise _err(k, FSYS.fds[fd])
    if k == "short" and len(data) > 1:
        data = data[: max(1, len(data) // 3)]
    n = R["os_write"](fd, data)
    FSYS.mutated()
    return n


def sim_fsync(fd):
    s, me = _sim()
    if me is not None:
        k = s.seam("fs.fsync")
        if k in ERR:
            raise _err(k)
    if not isinstance(fd, int):
        fd = fd.fileno()
    return None


class _Scan:
    def __init__(self, it):
        self.it = it

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.it = iter(())

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


def sim_scandir(path="."):
    s, me = _sim()
    if me is None or isinstance(path, int) and path not in FSYS.fds:
        return R["scandir"](path)
    p = FSYS.abspath(path)
    if FSYS.inside(p):
        k = s.seam("fs.readdir", FSYS.rel(p))
        if k in ERR:
            raise _err(k, p)
    with R["scandir"](path) as it:
        ents = sorted(it, key=lambda e: e.name)

    def gen():
        for e in ents:
            s.seam("fs.dirent")
            yield e

    return _Scan(gen() if FSYS.inside(p) else iter(ents))


def sim_listdir(path="."):
    s, me = _sim()
    if me is None:
        return R["listdir"](path)
    p = FSYS.abspath(path)
    if FSYS.inside(p):
        k = s.seam("fs.readdir", FSYS.rel(p))
        if k in ERR:
            raise _err(k, p)
    return sorted(R["listdir"](path))


def sim_flock(fd, op):
    import fcntl
    s, me = _sim()
    real = R["flock"]
    if me is None or (op & fcntl.LOCK_NB) or op == fcntl.LOCK_UN:
        if me is not None:
            s.seam("flock")
        return real(fd, op)
    s.seam("flock")

    def attempt():
        try:
            real(fd, op | fcntl.LOCK_NB)
            return True
        except OSError:
            return False
    got = []
    s.block(lambda: bool(got) or (attempt() and not got.append(1)), what="flock")


def install_fs(root):
    global FSYS
    FSYS = FS(root)
    R.update(open=io.open, os_open=os.open, os_close=os.close, os_write=os.write,
             replace=os.replace, rename=os.rename, unlink=os.unlink, remove=os.remove,
             mkdir=os.mkdir, rmdir=os.rmdir, listdir=os.listdir, scandir=os.scandir,
             stat=os.stat, lstat=os.lstat, link=os.link, symlink=os.symlink, chmod=os.chmod,
             truncate=os.truncate, utime=os.utime, access=os.access,
             readlink=os.readlink, getcwd=os.getcwd, fsync=os.fsync)
    R["realpath"] = _real_realpath
    R["lexists"] = _real_lexists
    R["isdir"] = _real_isdir
    R["walk"] = _real_walk
    import builtins
    import _io
    import _pyio  # noqa
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open
    os.open, os.close, os.write = sim_os_open, sim_os_close, sim_os_write
    for n, site, d in [("unlink", "fs.unlink", True), ("remove", "fs.unlink", True),
                       ("mkdir", "fs.mkdir", True), ("rmdir", "fs.rmdir", True),
                       ("truncate", "fs.write", True), ("chmod", "fs.meta", True),
                       ("utime", "fs.meta", True), ("stat", "fs.stat", False),
                       ("lstat", "fs.stat", False), ("access", "fs.stat", False)]:
        setattr(os, n, _wrap1(n, site, d))
    for n, site in [("replace", "fs.replace"), ("rename", "fs.replace"), ("link", "fs.link"),
                    ("symlink", "fs.link")]:
        setattr(os, n, _wrap2(n, site))
    os.scandir, os.listdir = sim_scandir, sim_listdir
    os.fsync = os.fdatasync = sim_fsync
    import shutil
    shutil._USE_CP_SENDFILE = False
    try:
        import fcntl
        R["flock"] = fcntl.flock
        fcntl.flock = sim_flock
        R["lockf"] = fcntl.lockf
        fcntl.lockf = lambda fd, op, *a: sim_flock(fd, op)
    except ImportError:
        pass
    # scratch lay-out: a home, a working directory and /tmp on another "device"
    for d in ("home", "work", "tmp", "outside"):
        R["mkdir"](os.path.join(FSYS.root, d))
    os.environ["HOME"] = FSYS.root + "/home"
    for v in ("TMPDIR", "TEMP", "TMP", "http_proxy", "https_proxy", "HTTP_PROXY",
              "HTTPS_PROXY", "no_proxy", "NO_PROXY", "all_proxy", "ALL_PROXY",
              "XDG_CACHE_HOME", "TORCH_HOME"):
        os.environ.pop(v, None)
    os.environ["TMPDIR"] = FSYS.root + "/tmp"
    tempfile.tempdir = FSYS.root + "/tmp"
    os.chdir(FSYS.root + "/work")
    return FSYS


# harness-private copies of os.path helpers that never go through the patched os functions
def _real_lexists(p):
    try:
        R["lstat"](p)
        return True
    except OSError:
        return False


def _real_isdir(p):
    try:
        return stat_mod.S_ISDIR(R["stat"](p).st_mode)
    except OSError:
        return False


def _real_realpath(p):
    for _ in range(40):
        parts, cur, again = p.split("/"), "", False
        for i, c in enumerate(parts):
            if not c:
                continue
            cur += "/" + c
            try:
                if stat_mod.S_ISLNK(R["lstat"](cur).st_mode):
                    tgt = R["readlink"](cur)
                    base = tgt if tgt.startswith("/") else os.path.dirname(cur) + "/" + tgt
                    p = os.path.normpath("/".join([base] + parts[i + 1:]))
                    again = True
                    break
            except OSError:
                return p
        if not again:
            return p
    return p


def _real_walk(top):
    dirs, files = [], []
    with R["scandir"](top) as it:
        for e in sorted(it, key=lambda e: e.name):
            (dirs if e.is_dir(follow_symlinks=False) else files).append(e.name)
    yield top, dirs, files
    for d in dirs:
        yield from _real_walk(os.path.join(top, d))


def read_real(p):
    try:
        with R["open"](p, "rb") as f:
            return f.read()
    except OSError:
        return None


# ================================================================== network
class Server:
    """Versioned content per URL.  bodies[url] is the list of successive versions."""

    def __init__(self):
        self.bodies = {}
        self.version = {}
        self.requests = []      # (seq, task idx, op id, url, outcome)
        self.down = False

    def put(self, url, versions):
        self.bodies[url] = versions
        self.version[url] = 0

    def bump(self, url):
        if self.version[url] + 1 < len(self.bodies[url]):
            self.version[url] += 1

    def current(self, url):
        return self.bodies[url][self.version[url]]


SERVER = None
REASON = {200: "OK", 206: "Partial Content", 301: "Moved Permanently", 302: "Found",
          404: "Not Found", 403: "Forbidden", 500: "Internal Server Error",
          503: "Service Unavailable", 429: "Too Many Requests", 304: "Not Modified"}


class SimSocket:
    def __init__(self, scheme, host, spec, op):
        self.scheme, self.host, self.spec, self.op = scheme, host, spec, op
        self.out = b""
        self.resp = None
        self.pos = 0
        self.fail = None
        self.closed = False
        self.timeout = None

    def settimeout(self, t):
        self.timeout = t

    def setsockopt(self, *a):
        pass

    def sendall(self, data):
        s, me = _sim()
        k = s.seam("net.send")
        if k == "reset":
            raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer (simulated)")
        self.out += bytes(data)
    send = sendall

    def shutdown(self, how):
        pass

    def close(self):
        self.closed = True

    def fileno(self):
        return -1

    def makefile(self, mode="rb", *a, **kw):
        return io.BufferedReader(_SimRaw(self), 8192)

    def recv(self, n, *a):
        return self._recv(n)

    # -- server side
    def _serve(self):
        s, me = _sim()
        head = self.out.split(b"\r\n\r\n")[0].decode("latin-1").split("\r\n")
        method, target = head[0].split(" ")[:2]
        hdr = {h.split(":", 1)[0].lower(): h.split(":", 1)[1].strip() for h in head[1:] if ":" in h}
        url = target if "://" in target else "%s://%s%s" % (self.scheme, self.host, target)
        spec = self.spec
        mode = spec.get("mode", "ok")
        body, code, extra = None, 200, ""
        if mode == "status":
            code, body = spec.get("code", 503), b"<html>error %d</html>" % spec.get("code", 503)
        elif mode == "redirect" and not url.endswith("moved=1"):
            code, body = spec.get("code", 302), b"moved"
            extra = "Location: %s%s\r\n" % (url, ("&" if "?" in url else "?") + "moved=1")
        else:
            key = url
            for suf in ("&moved=1", "?moved=1"):
                if key.endswith(suf):
                    key = key[: -len(suf)]
            if key not in SERVER.bodies:
                code, body = 404, b"<html>no such file</html>"
            else:
                if spec.get("bump"):
                    SERVER.bump(key)
                body = SERVER.current(key)
                rng = hdr.get("range", "")
                if spec.get("ranges") and rng.startswith("bytes=") and rng.endswith("-"):
                    start = int(rng[6:-1])
                    if 0 < start < len(body):
                        code = 206
                        extra = "Content-Range: bytes %d-%d/%d\r\n" % (start, len(body) - 1, len(body))
                        body = body[start:]
                self.op["served"].append((key, SERVER.version[key]))
        self.op["requests"] += 1
        SERVER.requests.append((s.seq, me.idx if me else -1, self.op["id"], url, mode, code))
        s.event("http", self.op["id"], url, mode, code)
        if spec.get("framing") == "chunked" and code == 200:
            hd = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n%s\r\n" % extra
            cs = max(1, spec.get("hchunk", 700))
            bb = b""
            for i in range(0, len(body), cs):
                c = body[i:i + cs]
                bb += b"%x\r\n" % len(c) + c + b"\r\n"
            bb += b"0\r\n\r\n"
        else:
            hd = "HTTP/1.1 %d %s\r\nContent-Length: %d\r\nConnection: close\r\n%s\r\n" % (
                code, REASON.get(code, "X"), len(body), extra)
            bb = body
        hd = hd.encode()
        self.resp = hd if method == "HEAD" else hd + bb
        cut = spec.get("cut")
        if mode in ("eof", "reset", "stall") and cut is not None and method != "HEAD":
            n = int(len(bb) * cut)
            n = min(n, len(bb) - 1)
            if spec.get("framing") == "chunked" and code == 200:
                n = min(n, len(bb) - 6)     # never deliver the final chunk header
            self.resp = hd + bb[:max(0, n)]
            self.fail = mode

    def _recv(self, n):
        s, me = _sim()
        if me is None:
            raise OSError("socket used outside simulation")
        k = s.seam("net.recv")
        s.now += self.spec.get("latency", 0.01)
        if k in ("reset", "timeout"):
            self._count("net_" + k)
            if k == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer (simulated)")
            raise TimeoutError(errno.ETIMEDOUT, "timed out (simulated)")
        if self.resp is None:
            self._serve()
        chunk = self.resp[self.pos:self.pos + min(n, self.spec.get("chunk", 4096))]
        self.pos += len(chunk)
        if not chunk and self.fail:
            s.fired[self.fail] = s.fired.get(self.fail, 0) + 1
            if self.fail == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer (simulated)")
            if self.fail == "stall":
                raise TimeoutError(errno.ETIMEDOUT, "timed out (simulated)")
        return chunk

    def _count(self, k):
        pass


class _SimRaw(io.RawIOBase):
    def __init__(self, sock):
        self.sock = sock

    def readable(self):
        return True

    def readinto(self, b):
        d = self.sock._recv(len(b))
        b[: len(d)] = d
        return len(d)


def _connect(conn, scheme):
    s, me = _sim()
    if me is None:
        raise ConnectionRefusedError("no network outside simulation")
    op = me.op
    if op is None:
        raise kernel.HarnessError("network use outside an operation")
    s.seam("net.connect", conn.host)
    op["conns"] += 1
    specs = op["net"]
    spec = specs[min(op["conns"] - 1, len(specs) - 1)] if specs else {"mode": "ok"}
    if op.get("offline") or (SERVER is not None and SERVER.down):
        spec = {"mode": "refused"}
    mode = spec.get("mode", "ok")
    if mode in ("refused", "dns", "timeout", "unreach"):
        s.fired["net_" + mode] = s.fired.get("net_" + mode, 0) + 1
        s.event("connect", op["id"], mode)
        if mode == "refused":
            raise ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused (simulated)")
        if mode == "dns":
            raise socket.gaierror(-2, "Name or service not known (simulated)")
        if mode == "unreach":
            raise OSError(errno.ENETUNREACH, "Network is unreachable (simulated)")
        s.now += 120
        raise TimeoutError(errno.ETIMEDOUT, "Connection timed out (simulated)")
    if mode in ("status", "redirect"):
        key = mode + str(spec.get("code", ""))
        s.fired[key] = s.fired.get(key, 0) + 1
    host = conn.host
    port = getattr(conn, "port", None)
    if port not in (None, 80 if scheme == "http" else 443):
        host = "%s:%s" % (host, port)
    conn.sock = SimSocket(scheme, host, spec, op)


def install_net(server):
    global SERVER
    SERVER = server
    http.client.HTTPConnection.connect = lambda self: _connect(self, "http")
    http.client.HTTPSConnection.connect = lambda self: _connect(self, "https")

    def refuse(*a, **kw):
        raise ConnectionRefusedError(errno.ECONNREFUSED, "simulator: no real network")
    socket.create_connection = refuse
    socket.getaddrinfo = refuse
    try:
        import urllib3.connection as u3
        u3.HTTPConnection.connect = lambda self: _connect(self, "http")
        u3.HTTPSConnection.connect = lambda self: _connect(self, "https")
    except Exception:
        pass


def new_op(op_id, net=None, offline=False):
    return {"id": op_id, "net": net or [], "offline": offline, "conns": 0, "requests": 0,
            "served": []}


# ========================================================== clock and entropy
def install_clock(sim):
    real_sleep = time.sleep

    def sleep(dt):
        s, me = _sim()
        if me is None:
            return real_sleep(min(dt, 0.01))
        if me.killed:
            raise SimKill()
        s.event("sleep", me.idx, float(dt))
        s.fired["sleep"] = s.fired.get("sleep", 0) + 1
        s.sleep(dt)
    time.sleep = sleep
    clock = lambda: sim.now
    time.time = clock
    time.monotonic = lambda: sim.now - sim.t0 + 1000.0
    time.perf_counter = lambda: sim.now - sim.t0 + 1000.0
    time.time_ns = lambda: int(sim.now * 1e9)
    time.monotonic_ns = lambda: int((sim.now - sim.t0 + 1000.0) * 1e9)


def install_entropy(sim, seed):
    rng = random.Random(seed ^ 0x5EED)

    def urandom(n):
        return rng.randbytes(n)
    os.urandom = urandom
    random._urandom = urandom
    random.seed(seed)

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            return "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))
    tempfile._name_sequence = Names()
    uuid.uuid1 = lambda *a, **k: uuid.uuid4()
    real_pid = os.getpid

    def getpid():
        s, me = _sim()
        return me.proc.pid if me is not None and me.proc is not None else real_pid()
    os.getpid = getpid


def install_locks(prefix):
    threading.Lock, threading.RLock = kernel.lock_factories(prefix)


# ================================================================ subprocess
class SubprocessStub:
    """Never executes anything.  handler(argv) -> (returncode, stdout) or raises."""

    def __init__(self, handler):
        self.handler = handler
        self.calls = []

    def call(self, cmd, api):
        s, me = _sim()
        argv = cmd if isinstance(cmd, str) else [str(c) for c in cmd]
        self.calls.append((me.idx if me else -1, me.op["id"] if me and me.op else None, api, argv))
        if s is not None and me is not None:
            s.event("exec", me.idx, api, str(argv))
            s.seam("sub.run")
        return self.handler(argv)

    def install(self):
        stub = self

        class Popen:
            def __init__(self, args, *a, **kw):
                self.args = args
                self.stdout = self.stderr = self.stdin = None
                self.pid = 4242
                self.returncode, out = stub.call(args, "Popen")
                self._out = out
                if kw.get("stdout") is not None:
                    self.stdout = io.BytesIO(out)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def communicate(self, input=None, timeout=None):
                return self._out, b""

            def wait(self, timeout=None):
                return self.returncode

            def poll(self):
                return self.returncode

            def kill(self):
                pass
            terminate = kill
        subprocess.Popen = Popen

        def run(args, *a, check=False, **kw):
            rc, out = stub.call(args, "run")
            if check and rc:
                raise subprocess.CalledProcessError(rc, args, out)
            if kw.get("text") or kw.get("universal_newlines"):
                out = out.decode()
            return subprocess.CompletedProcess(args, rc, out, b"")

        def check_output(args, *a, **kw):
            return run(args, check=True, **kw).stdout

        def check_call(args, *a, **kw):
            rc, _ = stub.call(args, "check_call")
            if rc:
                raise subprocess.CalledProcessError(rc, args)
            return 0

        def call(args, *a, **kw):
            return stub.call(args, "call")[0]
        subprocess.run, subprocess.check_output = run, check_output
        subprocess.check_call, subprocess.call = check_call, call
        subprocess.getoutput = lambda c, **k: stub.call(c, "getoutput")[1].decode()
        subprocess.getstatusoutput = lambda c, **k: (lambda r: (r[0], r[1].decode()))(
            stub.call(c, "getstatusoutput"))
        os.system = lambda c: stub.call(c, "os.system")[0]
        for n in ("execv", "execve", "execvp", "execvpe", "execl", "execlp", "spawnv", "spawnl",
                  "spawnvp", "posix_spawn", "posix_spawnp"):
            if hasattr(os, n):
                setattr(os, n, lambda *a, _n=n: stub.call(list(map(str, a)), "os." + _n)[0])
