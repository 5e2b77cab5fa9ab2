"""The simulated machine: disk, descriptors, clock, random source, process life and death.

Everything under /simfs/ lives in memory. The interpreter's own buffering, text and gzip layers
and the XML parser are the real ones and run on top of it, so what is simulated is exactly the
system call layer: open, read, write, close, fsync, rename, stat, ... Every such call is an
event: it can be short, fail, be the last thing the process does, or be a switch point.
"""

import builtins
import errno
import io
import os
import random
import re
import sys
import tempfile
import time
import timeit

from core import HarnessError

PREFIX = "/simfs/"
FD0 = 1000000

# in file names the code makes up: thread and object addresses, which differ between executions of one seed
NUMBERED = re.compile(r"[0-9]{7,}|0x[0-9a-f]+|(?<=[._-])[0-9a-f]{10,}")

WORLD = None            # the active world, or None: the real system

_real = {}              # saved originals


class SimCrash(BaseException):
    """The simulated process died here."""


class SimStop(BaseException):
    """The run is over (step bound, deadlock): unwind."""


def ours(path):
    if isinstance(path, (str, bytes)) or hasattr(path, "__fspath__"):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = p.decode("utf-8", "surrogateescape")
        if WORLD is not None and WORLD.cwd is not None and p and not p.startswith("/"):
            return True
        return p.startswith(PREFIX) or p == PREFIX[:-1]
    return False


def norm(path):
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = p.decode("utf-8", "surrogateescape")
    if WORLD is not None and WORLD.cwd is not None and not p.startswith("/"):
        p = WORLD.cwd + "/" + p
    parts = []
    for x in p.split("/"):
        if x in ("", "."):
            continue
        if x == "..":
            if parts:
                parts.pop()
            continue
        parts.append(x)
    return "/" + "/".join(parts)


class Inode(object):
    __slots__ = ("data", "durable", "under", "ino", "synced", "mode", "mtime")

    def __init__(self, ino, data=b"", durable=None):
        self.data = bytearray(data)
        self.durable = durable          # bytes after the last sync, None: never synced
        self.under = bytes(durable or b"")   # what a lost block shows instead
        self.ino = ino
        self.synced = durable is not None
        self.mode = 0o100644
        self.mtime = 0.0

    def copy(self):
        n = Inode(self.ino, self.data, self.durable)
        n.under = self.under
        n.synced = self.synced
        n.mode = self.mode
        n.mtime = self.mtime
        return n


class SimRaw(io.RawIOBase):
    """A raw file on the simulated disk."""

    def __init__(self, world, fd, name, mode):
        io.RawIOBase.__init__(self)
        self._w = world
        self._fd = fd
        self.name = name
        self.mode = mode

    def _desc(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        return self._w.desc(self._fd)

    def fileno(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        return self._fd

    def readable(self):
        return self._w.flags(self._fd)[0]

    def writable(self):
        return self._w.flags(self._fd)[1]

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, b):
        self._desc()
        data = self._w.sys_read(self._fd, len(b))
        b[:len(data)] = data
        return len(data)

    def write(self, b):
        self._desc()
        return self._w.sys_write(self._fd, bytes(b))

    def seek(self, pos, whence=0):
        self._desc()
        return self._w.sys_lseek(self._fd, pos, whence)

    def tell(self):
        self._desc()
        return self._w.sys_lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        d = self._desc()
        if size is None:
            size = d["pos"]
        self._w.sys_ftruncate(self._fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            io.RawIOBase.close(self)
        finally:
            self._w.sys_close(self._fd)


class World(object):
    """One simulated machine during one run."""

    def __init__(self, ctx, cap=None, bufsize=8192, fd_budget=None, now=1.4e9, max_ops=400000):
        self.ctx = ctx
        self.files = {}
        self.dirs = {"/", PREFIX[:-1]}
        self.fds = {}
        self.next_fd = FD0
        self.next_ino = 1
        self.inc = 0                # process incarnation
        self.dead = False           # the current incarnation has crashed
        self.stopped = None
        self.cap = cap
        self.bufsize = bufsize
        self.fd_budget = fd_budget
        self.now = self.start = now
        if hasattr(ctx, "worlds"):
            ctx.worlds.append(self)
        self.tick = 0.001
        self.max_ops = max_ops
        self.nops = 0
        self.ops = None             # list while counting
        self.plan = {}              # op index -> fault
        self.cwd = None             # working directory on the simulated disk
        self.sticky = []            # faults that stay until cleared: (kinds, errno, path or None)
        self.full_at = None         # free bytes left, None: plenty
        self.opened = []            # (path, mode) of every successful open
        self.objects = []           # every file object handed out, so that finalisers are ours
        self.renames = []           # not yet durable
        self.yield_hook = None
        self.pid = 4242
        self.last_op = None
        self.on_fault = None
        self.entropy = random.Random(1)

    # -- events and faults -------------------------------------------------------------

    def event(self, kind, path, n=0):
        """One system call is about to run. May raise; returns a partial-effect size or None."""
        if self.yield_hook is not None:
            self.yield_hook(kind)
        if self.dead:
            raise SimCrash()
        if self.stopped:
            raise SimStop()
        i = self.nops
        self.nops += 1
        self.last_op = kind
        if self.nops > self.max_ops:
            self.stopped = "more than %d system calls" % self.max_ops
            raise SimStop()
        if self.ops is not None:
            self.ops.append((kind, path, n))
        self.ctx.log(kind, NUMBERED.sub("N", str(path)), n)
        fault = self.plan.pop(i, None)
        if fault is not None:
            return self.fire(fault, kind, path, n)
        for kinds, err, p in self.sticky:
            if kind in kinds and (p is None or p == path):
                self.ctx.fault("%s:%s" % (kind, errno.errorcode[err]))
                raise OSError(err, os.strerror(err), path)
        return None

    def fire(self, fault, kind, path, n):
        """fault: dict(kind=crash|errno|raise, ...). Returns bytes done before it strikes, for writes."""
        what = fault["what"]
        self.ctx.log("FAULT", what, kind)
        if self.on_fault is not None:
            self.on_fault(fault, kind, path)
        if what == "crash":
            self.ctx.fault("crash@%s" % kind)
            done = min(n, fault.get("part", 0)) if kind == "write" else 0
            return ("crash", done)
        if what == "errno":
            err = fault["errno"]
            self.ctx.fault("%s:%s" % (kind, errno.errorcode[err]))
            if fault.get("sticky"):
                self.sticky.append((fault["sticky"], err, fault.get("path")))
            if kind == "write" and fault.get("part", 0):
                return ("fail", min(n, fault["part"]), err)
            if kind == "close":
                return ("closefail", fault.get("part", 0), err)
            raise OSError(err, os.strerror(err), path)
        if what == "fail":
            self.ctx.fault("%s:fails" % kind)
            return ("fail", 0, 0)
        if what == "raise":
            exc = fault["exc"]
            self.ctx.fault("%s@%s" % (exc.__name__, kind))
            if kind == "close":
                return ("closeraise", exc)
            raise exc("injected at %s" % kind)
        raise HarnessError("unknown fault %r" % (fault,))

    def arm(self, offset, fault):
        """The fault strikes the offset-th system call from now."""
        self.plan[self.nops + offset] = fault

    def disarm(self):
        left = bool(self.plan)
        self.plan = {}
        return left

    def crash(self):
        self.dead = True
        raise SimCrash()

    # -- descriptors -------------------------------------------------------------------

    def desc(self, fd):
        d = self.fds.get(fd)
        if d is None or d["inc"] != self.inc:
            if self.dead:
                raise SimCrash()
            raise OSError(errno.EBADF, os.strerror(errno.EBADF))
        return d

    def flags(self, fd):
        d = self.fds.get(fd)
        return (d["r"], d["w"]) if d else (False, False)

    def open_files(self):
        return sorted(d["path"] for d in self.fds.values() if d["inc"] == self.inc)

    def sys_open(self, path, r, w, create, trunc, excl=False, append=False):
        path = norm(path)
        node = self.files.get(path)
        got = self.event("open", path, 1 if w else 0)
        if got and got[0] == "crash":
            if got[1] == 0:
                self.crash()
        if path in self.dirs:
            raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), path)
        parent = path.rsplit("/", 1)[0] or "/"
        if parent not in self.dirs:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        live = sum(1 for d in self.fds.values() if d["inc"] == self.inc)
        if self.fd_budget is not None and live >= self.fd_budget:
            self.ctx.fault("open:EMFILE")
            raise OSError(errno.EMFILE, os.strerror(errno.EMFILE), path)
        if node is None:
            if not create:
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
            node = Inode(self.next_ino)
            node.mtime = self.now
            self.next_ino += 1
            self.files[path] = node
        elif excl:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        if trunc and w:
            self._truncate(node, 0)
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = {"inode": node, "pos": 0, "r": r, "w": w, "append": append,
                        "path": path, "inc": self.inc}
        self.opened.append((path, "w" if w else "r"))
        return fd

    def _truncate(self, node, size):
        if size < len(node.data):
            del node.data[size:]
            node.under = node.under[:size]
        else:
            node.data.extend(b"\0" * (size - len(node.data)))
        node.synced = False
        node.mtime = self.now

    def sys_read(self, fd, n):
        d = self.desc(fd)
        self.event_simple("read", d["path"], n)
        if not d["r"]:
            raise OSError(errno.EBADF, "not open for reading")
        if self.cap is not None and n > self.cap:
            n = self.cap
            self.ctx.fault("short-read")
        data = bytes(d["inode"].data[d["pos"]:d["pos"] + n])
        d["pos"] += len(data)
        return data

    def event_simple(self, kind, path, n=0):
        got = self.event(kind, path, n)
        if got and got[0] == "crash":
            self.crash()
        return got

    def _put(self, d, data):
        node = d["inode"]
        if d["append"]:
            d["pos"] = len(node.data)
        pos = d["pos"]
        if pos > len(node.data):
            node.data.extend(b"\0" * (pos - len(node.data)))
        node.data[pos:pos + len(data)] = data
        d["pos"] = pos + len(data)
        node.synced = False
        node.mtime = self.now

    def sys_write(self, fd, data):
        d = self.desc(fd)
        got = self.event("write", d["path"], len(data))
        if not d["w"]:
            raise OSError(errno.EBADF, "not open for writing")
        if got:
            if got[0] == "crash":
                self._put(d, data[:got[1]])
                self.crash()
            if got[0] == "fail":
                # the part that fitted is reported first, the error comes with the next call
                self._put(d, data[:got[1]])
                self.sticky.append((("write",), got[2], d["path"]))
                self.ctx.fault("short-write")
                return got[1]
        n = len(data)
        if self.cap is not None and n > self.cap:
            n = self.cap
            self.ctx.fault("short-write")
        if self.full_at is not None:
            if self.full_at <= 0 and n:
                self.ctx.fault("write:ENOSPC")
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), d["path"])
            if n > self.full_at:
                n = self.full_at
            self.full_at -= n
        self._put(d, data[:n])
        return n

    def sys_lseek(self, fd, pos, whence=0):
        d = self.desc(fd)
        if whence == 1:
            pos += d["pos"]
        elif whence == 2:
            pos += len(d["inode"].data)
        if pos < 0:
            raise OSError(errno.EINVAL, os.strerror(errno.EINVAL))
        d["pos"] = pos
        return pos

    def sys_ftruncate(self, fd, size):
        d = self.desc(fd)
        self.event_simple("truncate", d["path"], size)
        self._truncate(d["inode"], size)

    def sys_close(self, fd):
        d = self.fds.get(fd)
        if d is None:
            return
        if d["inc"] != self.inc or self.dead:
            self.fds.pop(fd, None)      # the process is gone: nothing happens any more
            return
        got = self.event("close", d["path"])
        self.fds.pop(fd, None)
        if got:
            if got[0] == "crash":
                self.crash()
            if got[0] == "closefail":
                node = d["inode"]
                if d["w"] and got[1]:
                    del node.data[max(0, len(node.data) - got[1]):]
                raise OSError(got[2], os.strerror(got[2]), d["path"])
            if got[0] == "closeraise":
                raise got[1]("injected at close")

    def sys_fsync(self, fd):
        d = self.desc(fd)
        self.event_simple("fsync", d["path"])
        self._sync(d["inode"])

    def _sync(self, node):
        node.durable = bytes(node.data)
        node.under = node.durable
        node.synced = True

    def sync_all(self):
        for node in self.files.values():
            self._sync(node)
        self.renames = []

    # -- names -------------------------------------------------------------------------

    def sys_stat(self, path):
        p = norm(path)
        self.event_simple("stat", p)
        if p in self.dirs:
            return os.stat_result((0o40755, 1, 1, 1, 0, 0, 0, 0, 0, 0))
        node = self.files.get(p)
        if node is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        return self._stat(node)

    def _stat(self, node):
        t = int(node.mtime)         # whole seconds, like many file systems
        return os.stat_result((node.mode, node.ino, 1, 1, 0, 0, len(node.data), t, t, t))

    def sys_rename(self, a, b):
        a, b = norm(a), norm(b)
        self.event_simple("rename", b)
        if a not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), a)
        old = self.files.get(b)
        node = self.files.pop(a)
        self.files[b] = node
        self.renames.append((a, b, node, old))
        self.opened.append((b, "w"))

    def sys_unlink(self, path):
        p = norm(path)
        self.event_simple("unlink", p)
        if p not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        del self.files[p]

    def sys_mkdir(self, path):
        p = norm(path)
        self.event_simple("mkdir", p)
        if p in self.dirs or p in self.files:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), path)
        self.dirs.add(p)

    def sys_listdir(self, path):
        p = norm(path)
        self.event_simple("listdir", p)
        out = set()
        for x in list(self.files) + list(self.dirs):
            if x.startswith(p + "/"):
                out.add(x[len(p) + 1:].split("/")[0])
        return sorted(out)

    # -- python-level open -------------------------------------------------------------

    def py_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None):
        chars = set(mode)
        r, w, a, x = "r" in chars, "w" in chars, "a" in chars, "x" in chars
        plus, text, binary = "+" in chars, "t" in chars, "b" in chars
        if "U" in chars:
            r = True
        if r + w + a + x != 1 or (text and binary):
            raise ValueError("invalid mode: %r" % mode)
        if isinstance(file, int):
            fd = file
            self.desc(fd)
            if a:
                self.desc(fd)["append"] = True
            name = file
        else:
            fd = self.sys_open(file, r or plus, (not r) or plus, w or a or x, w, x, a)
            name = file
        raw = SimRaw(self, fd, name, ("rb" if r else "wb") + ("+" if plus else ""))
        size = self.bufsize if buffering in (-1, 1) else buffering
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            f = raw
        else:
            if plus:
                f = io.BufferedRandom(raw, size)
            elif r:
                f = io.BufferedReader(raw, size)
            else:
                f = io.BufferedWriter(raw, size)
            if not binary:
                f = io.TextIOWrapper(f, encoding or "utf-8", errors, newline, buffering == 1)
                f._CHUNK_SIZE = min(8192, max(32, size))
                f.mode = mode
        self.objects.append(f)
        return f

    # -- life, death, clean-up ---------------------------------------------------------

    def restart(self):
        """A new process: descriptors and buffers of the old one are gone."""
        self.inc += 1
        self.cwd = None
        self.dead = False
        self.fds = {}
        self.plan = {}
        self.sticky = []
        self.full_at = None
        self.pid += 1
        self.ctx.log("restart")

    def collect(self):
        """The finaliser runs: file objects the program abandoned are closed, as an interpreter
        does when it drops them. Returns how many were still open."""
        n = 0
        for f in self.objects:
            try:
                if not f.closed:
                    n += 1
                    f.close()
            except Exception:
                pass
        self.objects = []
        return n

    def abandon(self):
        """End of the run: nothing of this world may act any more."""
        self.inc += 1
        self.dead = True
        for f in self.objects:
            try:
                f.close()
            except BaseException:
                pass
        self.objects = []

    def power_loss(self, c):
        """Only what reached the platters survives. Unsynced files keep an arbitrary part."""
        ctx = self.ctx
        ctx.fault("power-loss")
        keep = c.choose(len(self.renames) + 1) if self.renames else 0
        for a, b, node, old in reversed(self.renames[keep:]):
            ctx.fault("rename-lost")
            if old is not None:
                self.files[b] = old
            else:
                self.files.pop(b, None)
            self.files[a] = node
        self.renames = []
        for path in sorted(self.files):
            node = self.files[path]
            if node.synced:
                continue
            how = c.pick(["all", "none", "prefix", "holes", "under"], [1, 1, 3, 4, 2])
            data = bytes(node.data)
            if how == "none":
                if node.durable is None:
                    del self.files[path]
                    ctx.fault("file-lost")
                    continue
                data = node.durable
                ctx.fault("content-reverted")
            elif how == "prefix" and data:
                data = data[:c.choose(len(data) + 1)]
                ctx.fault("tail-lost")
            elif how in ("holes", "under") and data:
                size = c.pick([512, 64, 4096, 16, 1])
                out = bytearray(data)
                blocks = (len(data) + size - 1) // size
                lost = set(c.choose(blocks) for _ in range(1 + c.choose(min(4, blocks))))
                for b in sorted(lost):
                    lo, hi = b * size, min(len(data), (b + 1) * size)
                    fill = node.under[lo:hi] if how == "under" else b""
                    out[lo:hi] = fill + b"\0" * (hi - lo - len(fill))
                    ctx.fault("block-lost")
                data = bytes(out)
            node.data = bytearray(data)
            self._sync(node)
        self.restart()

    # -- direct access for scenarios ---------------------------------------------------

    def get(self, path):
        node = self.files.get(norm(path))
        return None if node is None else bytes(node.data)

    def put(self, path, data, durable=True, keep_time=False):
        """A file made or replaced from outside; keep_time: with the times of the old one."""
        old = self.files.get(norm(path))
        node = Inode(self.next_ino if old is None else old.ino, data, bytes(data) if durable else None)
        node.mtime = old.mtime if old is not None and keep_time else self.now
        self.next_ino += 1
        self.files[norm(path)] = node

    def delete(self, path):
        self.files.pop(norm(path), None)

    def mkdir(self, path):
        p = norm(path)
        while p and p not in self.dirs:
            self.dirs.add(p)
            p = p.rsplit("/", 1)[0]

    def snapshot(self):
        seen = {}
        return {p: seen.setdefault(id(n), n.copy()) for p, n in self.files.items()}, set(self.dirs), list(self.renames)

    def restore(self, snap):
        seen = {}
        self.files = {p: seen.setdefault(id(n), n.copy()) for p, n in snap[0].items()}
        self.dirs = set(snap[1])
        self.renames = list(snap[2])
        self.fds = {}
        self.inc += 1


# -- patches: installed once, dispatch on the active world ------------------------------------

def _install_patches():
    if _real:
        return
    _real["open"] = builtins.open

    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                 closefd=True, opener=None):
        w = WORLD
        if w is not None:
            if isinstance(file, int) and file >= FD0:
                return w.py_open(file, mode, buffering, encoding, errors, newline)
            if not isinstance(file, int):
                if ours(file):
                    return w.py_open(file, mode, buffering, encoding, errors, newline)
                if not set(mode) <= set("rbtU") and os.fspath(file) not in ("/dev/null", b"/dev/null"):
                    # nothing under test may write outside the simulated disk
                    raise PermissionError(errno.EACCES, "outside the simulation", file)
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)

    builtins.open = sim_open
    io.open = sim_open

    def path1(name, method, guard=True):
        real = getattr(os, name, None)
        if real is None:
            return
        _real[name] = real

        def f(path, *args, **kw):
            w = WORLD
            if w is not None and ours(path):
                return method(w, path, *args, **kw)
            if w is not None and guard:
                raise PermissionError(errno.EACCES, "outside the simulation", path)
            return real(path, *args, **kw)
        f.__name__ = name
        setattr(os, name, f)

    path1("stat", lambda w, p, **kw: w.sys_stat(p), False)
    path1("lstat", lambda w, p, **kw: w.sys_stat(p), False)
    path1("access", lambda w, p, mode=0, **kw: _exists(w, p), False)
    path1("listdir", lambda w, p=".": w.sys_listdir(p), False)
    path1("remove", lambda w, p, **kw: w.sys_unlink(p))
    path1("unlink", lambda w, p, **kw: w.sys_unlink(p))
    path1("mkdir", lambda w, p, mode=0o777, **kw: w.sys_mkdir(p))
    path1("rmdir", lambda w, p, **kw: w.dirs.discard(norm(p)))
    path1("chmod", lambda w, p, *a, **kw: w.sys_stat(p) and None)
    path1("utime", lambda w, p, *a, **kw: _utime(w, p, *a, **kw))
    path1("truncate", lambda w, p, n: _truncate(w, p, n))

    real_cwd, real_cd = os.getcwd, os.chdir
    _real["getcwd"], _real["chdir"] = real_cwd, real_cd

    def getcwd():
        w = WORLD
        return w.cwd if w is not None and w.cwd is not None else real_cwd()

    def chdir(path):
        w = WORLD
        if w is None:
            return real_cd(path)
        w.event_simple("chdir", os.fspath(path))
        if ours(path):
            p = norm(path)
            if p not in w.dirs:
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
            w.cwd = p
        elif path == real_cwd():
            w.cwd = None
        else:
            raise PermissionError(errno.EACCES, "outside the simulation", path)
    os.getcwd, os.chdir = getcwd, chdir

    def two(name):
        real = getattr(os, name)
        _real[name] = real

        def f(a, b, **kw):
            w = WORLD
            if w is not None:
                if ours(a) and ours(b):
                    return w.sys_rename(a, b)
                raise PermissionError(errno.EACCES, "outside the simulation", a)
            return real(a, b, **kw)
        setattr(os, name, f)
    two("rename")
    two("replace")

    real_os_open = os.open
    _real["os.open"] = real_os_open

    def os_open(path, flags, mode=0o777, **kw):
        w = WORLD
        if w is not None and ours(path):
            acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
            if norm(path) in w.dirs:        # directory descriptor, for fsync
                fd = w.next_fd
                w.next_fd += 1
                w.fds[fd] = {"inode": Inode(0), "pos": 0, "r": True, "w": False, "append": False,
                             "path": norm(path), "inc": w.inc}
                return fd
            return w.sys_open(path, acc != os.O_WRONLY, acc != os.O_RDONLY, bool(flags & os.O_CREAT),
                              bool(flags & os.O_TRUNC), bool(flags & os.O_EXCL), bool(flags & os.O_APPEND))
        if w is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            raise PermissionError(errno.EACCES, "outside the simulation", path)
        return real_os_open(path, flags, mode, **kw)
    os.open = os_open

    def fdcall(name, method):
        real = getattr(os, name, None)
        if real is None:
            return
        _real["fd." + name] = real

        def f(fd, *args, **kw):
            w = WORLD
            if w is not None and isinstance(fd, int) and fd >= FD0:
                return method(w, fd, *args, **kw)
            return real(fd, *args, **kw)
        setattr(os, name, f)
    fdcall("read", lambda w, fd, n: w.sys_read(fd, n))
    fdcall("write", lambda w, fd, b: w.sys_write(fd, bytes(b)))
    fdcall("close", lambda w, fd: w.sys_close(fd))
    fdcall("lseek", lambda w, fd, p, h: w.sys_lseek(fd, p, h))
    fdcall("fsync", lambda w, fd: w.sys_fsync(fd))
    fdcall("fdatasync", lambda w, fd: w.sys_fsync(fd))
    fdcall("ftruncate", lambda w, fd, n: w.sys_ftruncate(fd, n))
    fdcall("fstat", lambda w, fd: w._stat(w.desc(fd)["inode"]))
    fdcall("isatty", lambda w, fd: False)

    if hasattr(os, "sendfile"):
        real_sendfile = os.sendfile

        def sendfile(*a, **kw):
            if WORLD is not None:
                raise OSError(errno.ENOTSOCK, os.strerror(errno.ENOTSOCK))
            return real_sendfile(*a, **kw)
        os.sendfile = sendfile

    # clock
    def clock(name, get, owner=time):
        real = getattr(owner, name)
        _real[name] = real

        def f(*a):
            w = WORLD
            if w is None:
                return real(*a)
            return get(w, real, *a)
        setattr(owner, name, f)

    def now(w, real):
        w.now += w.tick
        return w.now

    for name in ("time", "perf_counter", "monotonic", "process_time"):
        clock(name, now)
    clock("default_timer", now, timeit)
    clock("time_ns", lambda w, real: int(now(w, real) * 1e9))
    for name in ("localtime", "gmtime", "ctime"):
        clock(name, lambda w, real, *a: real(*(a if a and a[0] is not None else (now(w, real),))))
    clock("strftime", lambda w, real, fmt, *a: real(fmt, *(a if a else (time.gmtime(),))))

    def sleep(w, real, s):
        w.now += max(0.0, s)
        if w.yield_hook is not None:
            w.yield_hook("sleep")
    clock("sleep", sleep)

    real_urandom = os.urandom
    os.urandom = lambda n: real_urandom(n) if WORLD is None else bytes(WORLD.entropy.randrange(256) for _ in range(n))
    real_getpid = os.getpid
    _real["getpid"] = real_getpid
    os.getpid = lambda: real_getpid() if WORLD is None else WORLD.pid
    for name in ("kill", "killpg", "system"):
        real_f = getattr(os, name)
        _real[name] = real_f

        def blocked(*a, _real_f=real_f, _name=name):
            if WORLD is None:
                return _real_f(*a)
            raise PermissionError(errno.EPERM, "outside the simulation: " + _name)
        setattr(os, name, blocked)


def _exists(w, p):
    try:
        w.sys_stat(p)
        return True
    except OSError:
        return False


def _utime(w, p, times=None, ns=None):
    w.sys_stat(p)
    node = w.files.get(norm(p))
    if node is not None:
        node.mtime = times[1] if times else ns[1] / 1e9 if ns else w.now


def _truncate(w, p, n):
    node = w.files.get(norm(p))
    if node is None:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    w._truncate(node, n)


class _Null(object):
    encoding = "utf-8"
    def write(self, s):
        return len(s)
    def flush(self):
        pass
    def isatty(self):
        return False


NULL = _Null()


class active(object):
    """with active(world): the code under test sees the simulated machine."""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        global WORLD
        self.saved = (WORLD, sys.stdout, sys.stderr, random.getstate(), tempfile.tempdir, tempfile._name_sequence)
        WORLD = self.world
        sys.stdout = sys.stderr = NULL
        random.seed(self.world.entropy.random())
        tempfile.tempdir = "/simfs/tmp"
        self.world.mkdir("/simfs/tmp")
        names = tempfile._RandomNameSequence()
        names._rng = random.Random(self.world.entropy.random())
        names._rng_pid = self.world.pid
        tempfile._name_sequence = names
        return self.world

    def __exit__(self, *exc):
        global WORLD
        WORLD, sys.stdout, sys.stderr, state, tempfile.tempdir, tempfile._name_sequence = self.saved
        random.setstate(state)
        return False


def install():
    _install_patches()
