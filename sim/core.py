"""The simulator: seams for files, directories, clock, randomness, stdout, compute steps.

A `Sim` lives inside one simulated process (a forked child, see proc.py).  `install()` replaces the
process's access to files (under the virtual root /sim), clocks, temporary names, random seeds and
standard output by versions that first ask the Sim what should happen at this operation.
All choices come from the scenario (fault plan, knobs); nothing is drawn at run time.
"""
import builtins
import ctypes
import errno as _errno
import gc
import io
import os
import posixpath
import random
import sys
import time

V = "/sim"
REPO = os.environ.get("VERIF_REPO", "/repo")

_real = {}
for _n in ("stat lstat open mkdir rmdir remove unlink rename replace listdir scandir chdir getcwd access "
           "chmod utime link symlink readlink truncate write read close fsync _exit urandom ftruncate "
           "fdatasync lseek chown posix_fallocate sync sendfile copy_file_range statvfs mkfifo getpid").split():
    if hasattr(os, _n):
        _real[_n] = getattr(os, _n)
_real_open = builtins.open
_rt = {n: getattr(time, n) for n in
       "time time_ns monotonic monotonic_ns perf_counter perf_counter_ns sleep localtime gmtime strftime ctime asctime".split()}

ERRNOS = {"EIO": _errno.EIO, "ENOSPC": _errno.ENOSPC, "EACCES": _errno.EACCES, "ENOENT": _errno.ENOENT,
          "EMFILE": _errno.EMFILE, "EROFS": _errno.EROFS, "ESTALE": _errno.ESTALE, "EDQUOT": _errno.EDQUOT}

CUR = None      # the active Sim of this process


class SimStall(BaseException):
    """The simulated process exceeded its step budget."""


class Sim:
    """plan: list of faults {kind, path, nth, do, [arg], [sticky]}.

    kind/path/nth address the nth operation of that kind on that path in this process
    (path "*" = any path of the kind, counted globally).
    """

    def __init__(self, root, plan=(), knobs=None, s3=None, emit=None, gate=None):
        self.root = root
        self.knobs = dict(knobs or {})
        self.plan = {}
        self.sticky = []
        for i, f in enumerate(plan):
            if f.get("sticky"):
                self.sticky.append([i, dict(f), False])
            else:
                self.plan.setdefault((f["kind"], f["path"], f["nth"]), []).append((i, f))
        self.counts = {}
        self.trace = []
        self.fired = []          # (plan index, do)
        self.escapes = []
        self.unraisable = []
        self.nops = 0
        self.nlines = 0
        self.max_ops = self.knobs.get("max_ops", 400000)
        self.t_ns = int(self.knobs.get("epoch", 1600000000.0) * 1e9)
        self.wall_off = 0
        self.mono0 = 0
        self.s3 = s3
        self.emit = emit         # crash reporter
        self.gate = gate         # scheduler hook: called before every op
        self.bufsize = int(self.knobs.get("bufsize", 8192))
        self.fds = {}
        self.out = []
        self.err = []
        self.line_faults = {}
        self.linepts = {}        # program line -> first and last step that executed it
        self.inhibit = 0
        self.crashed = False

    # ---- paths -------------------------------------------------------------
    def r(self, p):
        """virtual -> real"""
        if isinstance(p, int):
            return p
        q = os.fspath(p)
        if isinstance(q, bytes):
            s = os.fsdecode(q)
            if s == V or s.startswith(V + "/"):
                return os.fsencode(self.root + s[len(V):])
            return q
        if q == V or q.startswith(V + "/"):
            return self.root + q[len(V):]
        return q

    def v(self, p):
        """any path -> normalised absolute virtual path (for keys)"""
        if isinstance(p, int):
            return self.fds.get(p, "fd")
        q = os.fspath(p)
        if isinstance(q, bytes):
            q = os.fsdecode(q)
        if not q.startswith("/"):
            try:
                q = self.getcwd() + "/" + q
            except OSError:
                q = "/?/" + q
        return posixpath.normpath(q)

    def unreal(self, s):
        if isinstance(s, bytes):
            return os.fsencode(self.unreal(os.fsdecode(s)))
        if isinstance(s, str) and (s == self.root or s.startswith(self.root + "/")):
            return V + s[len(self.root):]
        return s

    def getcwd(self):
        return self.unreal(_real["getcwd"]())

    def managed(self, vp):
        return vp == V or vp.startswith(V + "/")

    def watched(self, vp):
        return self.managed(vp) or (vp.startswith(REPO + "/") and not vp.endswith((".py", ".pyc", ".so")))

    # ---- the one place where something can happen --------------------------
    def op(self, kind, vp, n=0):
        """Record an operation; returns an action for the caller (torn/short/...) or None; may raise/crash."""
        if self.inhibit:
            return None
        if self.gate is not None:
            self.gate(kind, vp)
        self.nops += 1
        if self.nops > self.max_ops:
            raise SimStall("operation budget exceeded")
        self.t_ns += 1000000
        k = (kind, vp)
        c = self.counts.get(k, 0) + 1
        self.counts[k] = c
        self.trace.append((kind, vp, c, n, self.nlines))
        act = None
        hits = self.plan.get((kind, vp, c))
        if hits:
            for i, f in hits:
                if act is None or f["do"] == "jump":      # one fault decides an operation
                    act = self.fire(i, f, vp) or act
        g = self.counts.get((kind, "*"), 0) + 1
        self.counts[(kind, "*")] = g
        hits = self.plan.get((kind, "*", g))
        if hits:
            for i, f in hits:
                if act is None or f["do"] == "jump":      # one fault decides an operation
                    act = self.fire(i, f, vp) or act
        for s in self.sticky:
            i, f, on = s
            if not on:
                if f["kind"] == kind and f["path"] in (vp, "*") and f["nth"] == (c if f["path"] == vp else g):
                    s[2] = on = True
            if on and self._sticky_match(f, kind, vp) and act is None:
                act = self.fire(i, f, vp) or act
        return act

    def _sticky_match(self, f, kind, vp):
        kinds = f.get("kinds") or [f["kind"]]
        pre = f.get("prefix", V)
        return kind in kinds and vp.startswith(pre)

    def fire(self, i, f, vp):
        do = f["do"]
        self.fired.append((i, do, vp))
        self.trace.append(("FAULT", do, i, 0, self.nlines))
        if do == "crash":
            self.crash()
        if do == "interrupt":
            raise KeyboardInterrupt()
        if do == "memory":
            raise MemoryError("simulated allocation failure")
        if do == "jump":
            self.wall_off += int(f.get("arg", 3600) * 1e9)
            return None
        if do == "draw":
            draw(f.get("arg", 0))
            return None
        if do in ERRNOS:
            raise OSError(ERRNOS[do], os.strerror(ERRNOS[do]), vp)
        return f          # torn / short / crash-torn / s3 kinds: for the caller

    def crash(self):
        self.crashed = True
        if self.emit:
            self.emit(self)
        _real["_exit"](137)

    # ---- compute steps -----------------------------------------------------
    def line_event(self, code, ln):
        n = self.nlines = self.nlines + 1
        x = self.linepts.get((code, ln))
        if x is None:
            self.linepts[code, ln] = [n, n]
        else:
            x[1] = n
        f = self.line_faults.get(n)
        if f is not None and not self.inhibit:
            if ln in cleanup_lines(code.co_filename):
                # the interpreter itself cannot protect a release; the fault arrives at the next step
                self.line_faults.setdefault(self.nlines + 1, f)
            else:
                self.fire(f[0], f[1], "line")

    # ---- clock -------------------------------------------------------------
    def now_ns(self):
        self.t_ns += 1000
        return self.t_ns + self.wall_off

    def mono_ns(self):
        self.t_ns += 1000
        return self.t_ns


def draw(how):
    """other code using, or seeding, the generators every library shares"""
    import numpy as np
    if how % 3 == 0:
        np.random.seed(how)
        random.seed(how)
    np.random.random_sample(1 + how % 7)
    random.random()


# ---------------------------------------------------------------- raw files
class SimRaw(io.FileIO):
    def __init__(self, sim, file, vp, mode, closefd=True, opener=None):
        self._sim = sim
        self._vp = vp
        if isinstance(file, int):
            super().__init__(file, mode, closefd=closefd)
        elif opener is not None:
            super().__init__(file, mode, closefd=closefd, opener=opener)
            self.name = file
        else:
            try:
                super().__init__(sim.r(file), mode, closefd=closefd)
            except OSError as e:
                raise _fix(sim, e)
            self.name = file

    def _dealloc_warn(self, source):
        self._final = True           # called by the interpreter first thing when an unclosed file is finalised

    def _act(self, kind, n=0):
        try:
            return self._sim.op(kind, self._vp, n)
        except BaseException as e:
            if getattr(self, "_final", False):
                self._sim.unraisable.append(type(e).__name__)     # finalisers drop exceptions
            raise

    def readinto(self, b):
        act = self._act("read", len(b))
        if act is not None and act["do"] == "short":
            b = memoryview(b)[:max(1, len(b) // 3)]
        return super().readinto(b)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        act = self._act("read", n)
        if act is not None and act["do"] == "short":
            n = max(1, n // 3)
        return super().read(n)

    def readall(self):
        self._act("read", -1)
        return super().readall()

    def write(self, b):
        n = memoryview(b).nbytes
        act = self._act("write", n)
        if act is not None:
            do = act["do"]
            mv = memoryview(b).cast("B")
            if do == "short" and n > 1:
                return super().write(mv[:max(1, n // 2)])
            if do in ("torn", "crash-torn"):
                k = min(n, int(n * act.get("arg", 0.5)))
                if k:
                    super().write(mv[:k])
                if do == "crash-torn":
                    self._sim.crash()
                raise OSError(_errno.ENOSPC, os.strerror(_errno.ENOSPC), self._vp)
        return super().write(b)

    def truncate(self, size=None):
        self._act("write", 0)
        return super().truncate(size)

    def close(self):
        if not self.closed and self.writable():
            try:
                self._act("close")
            except OSError:
                super().close()
                raise
        super().close()


def _fix(sim, e):
    if e.filename is not None:
        e.filename = sim.unreal(e.filename)
    if getattr(e, "filename2", None) is not None:
        e.filename2 = sim.unreal(e.filename2)
    return e


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    sim = CUR
    if sim is None:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    if isinstance(file, int):
        vp = sim.fds.get(file)
        if vp is None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        vp = sim.v(file)
        if not sim.managed(vp):
            if writing and not vp.startswith("/dev/"):
                sim.escapes.append(("open:" + mode, vp))
                raise PermissionError(_errno.EACCES, "simulated: outside the simulated disk", vp)
            if not sim.watched(vp):
                return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(mode, str):
        raise TypeError("invalid mode")
    binary, text = "b" in mode, "t" in mode
    if (binary and text) or sum(c in mode for c in "rwax") != 1:
        raise ValueError(f"invalid mode: {mode!r}")
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError("binary mode doesn't take an encoding/errors/newline argument")
    rawmode = "".join(c for c in mode if c in "rwax+")
    if not isinstance(file, int):
        sim.op("open:w" if writing else "open:r", vp)
    if opener is not None and not isinstance(file, int):
        holder = {}

        def op2(path, flags, _o=opener):
            fd = _o(path, flags)
            holder["vp"] = sim.fds.get(fd)
            return fd
        raw = SimRaw(sim, file, vp, rawmode, closefd, op2)
        raw._vp = holder.get("vp") or vp
    else:
        raw = SimRaw(sim, file, vp, rawmode, closefd, None)
    line_buffering = False
    if buffering == 1 and not binary:
        line_buffering, buffering = True, -1
    if buffering < 0 or buffering == 1:
        buffering = sim.bufsize
    if buffering == 0:
        if binary:
            return raw
        raise ValueError("can't have unbuffered text I/O")
    if "+" in rawmode:
        buf = io.BufferedRandom(raw, buffering)
    elif writing:
        buf = io.BufferedWriter(raw, buffering)
    else:
        buf = io.BufferedReader(raw, buffering)
    if binary:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering)
    t.mode = mode
    return t


# ---------------------------------------------------------------- os.* wrappers
def _wrap1(name, kind=None, mutates=False):
    real = _real[name]

    def f(path, *a, **k):
        sim = CUR
        if sim is None:
            return real(path, *a, **k)
        if k.get("dir_fd") is not None:
            return real(path, *a, **k)
        vp = sim.v(path)
        if mutates and not sim.managed(vp) and not isinstance(path, int):
            sim.escapes.append((name, vp))
            raise PermissionError(_errno.EACCES, "simulated: outside the simulated disk", vp)
        if kind and sim.managed(vp):
            sim.op(kind, vp)
        elif sim.gate is not None and not sim.inhibit and sim.managed(vp):
            sim.gate(name, vp)                           # looking is a step others can come before
        try:
            return real(sim.r(path), *a, **k)
        except OSError as e:
            raise _fix(sim, e)
    f.__name__ = name
    return f


def _wrap2(name, kind):
    real = _real[name]

    def f(src, dst, *a, **k):
        sim = CUR
        if sim is None:
            return real(src, dst, *a, **k)
        vs, vd = sim.v(src), sim.v(dst)
        for x in (vs, vd) if name in ("rename", "replace") else (vd,):
            if not sim.managed(x):
                sim.escapes.append((name, x))
                raise PermissionError(_errno.EACCES, "simulated: outside the simulated disk", x)
        sim.op(kind, vd)
        try:
            return real(sim.r(src), sim.r(dst), *a, **k)
        except OSError as e:
            raise _fix(sim, e)
    f.__name__ = name
    return f


def _s_getcwd():
    return CUR.getcwd() if CUR is not None else _real["getcwd"]()


def _s_readlink(path, **k):
    sim = CUR
    try:
        return sim.unreal(_real["readlink"](sim.r(path), **k))
    except OSError as e:
        raise _fix(sim, e)


def _order(sim, names, key=lambda x: x):
    salt = sim.knobs.get("dirsalt", 0)
    import hashlib
    return sorted(names, key=lambda x: hashlib.md5(("%d:%s" % (salt, key(x))).encode("utf-8", "surrogateescape")).digest())


def _s_listdir(path="."):
    sim = CUR
    if path is None:
        path = "."
    try:
        names = _real["listdir"](sim.r(path))
    except OSError as e:
        raise _fix(sim, e)
    if sim.managed(sim.v(path)):
        sim.op("list", sim.v(path))
        names = _order(sim, names, lambda x: os.fsdecode(x))
    return names


class _SimDirEntry:
    def __init__(self, e, path):
        self._e, self.name, self.path = e, e.name, path

    def __fspath__(self):
        return self.path

    def is_dir(self, **k):
        return self._e.is_dir(**k)

    def is_file(self, **k):
        return self._e.is_file(**k)

    def is_symlink(self):
        return self._e.is_symlink()

    def is_junction(self):
        return False

    def stat(self, **k):
        return self._e.stat(**k)

    def inode(self):
        return self._e.inode()

    def __repr__(self):
        return "<DirEntry %r>" % self.name


class _SimScan:
    def __init__(self, sim, path):
        try:
            with _real["scandir"](sim.r(path)) as it:
                ents = list(it)
        except OSError as e:
            raise _fix(sim, e)
        if not isinstance(path, int) and sim.managed(sim.v(path)):
            sim.op("list", sim.v(path))
            ents = _order(sim, ents, lambda e: os.fsdecode(e.name))
        self._it = iter([_SimDirEntry(e, sim.unreal(e.path)) for e in ents])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _s_scandir(path="."):
    if path is None:
        path = "."
    return _SimScan(CUR, path)


def _s_os_open(path, flags, mode=0o777, *, dir_fd=None):
    sim = CUR
    vp = sim.v(path)
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if not sim.managed(vp):
        if writing and not vp.startswith("/dev/"):
            sim.escapes.append(("os.open", vp))
            raise PermissionError(_errno.EACCES, "simulated: outside the simulated disk", vp)
        return _real["open"](path, flags, mode, dir_fd=dir_fd)
    sim.op("open:w" if writing else "open:r", vp)
    try:
        fd = _real["open"](sim.r(path), flags, mode, dir_fd=dir_fd)
    except OSError as e:
        raise _fix(sim, e)
    sim.fds[fd] = vp
    return fd


def _s_os_write(fd, data):
    sim = CUR
    vp = sim.fds.get(fd)
    if vp is None:
        return _real["write"](fd, data)
    act = sim.op("write", vp, len(data))
    if act is not None:
        do, n = act["do"], len(data)
        if do == "short" and n > 1:
            return _real["write"](fd, bytes(data)[:n // 2])
        if do in ("torn", "crash-torn"):
            k = int(n * act.get("arg", 0.5))
            if k:
                _real["write"](fd, bytes(data)[:k])
            if do == "crash-torn":
                sim.crash()
            raise OSError(_errno.ENOSPC, os.strerror(_errno.ENOSPC))
    return _real["write"](fd, data)


def _s_os_read(fd, n):
    sim = CUR
    vp = sim.fds.get(fd)
    if vp is not None:
        sim.op("read", vp, n)
    return _real["read"](fd, n)


def _s_os_close(fd):
    sim = CUR
    vp = sim.fds.pop(fd, None)
    if vp is not None:
        try:
            sim.op("close", vp)
        except OSError:
            _real["close"](fd)
            raise
    return _real["close"](fd)


def _s_fsync(fd):
    sim = CUR
    fdn = fd if isinstance(fd, int) else fd.fileno()
    sim.op("fsync", sim.fds.get(fdn, "fd"))
    return None


def _s_sendfile(*a, **k):
    raise OSError(_errno.ENOTSUP, "simulated: not supported")


def _s_urandom(n):
    sim = CUR
    return sim.rng.randbytes(n)


def _install_entropy():
    """generators created or reseeded without a seed draw it from the simulated os.urandom"""
    real = random.Random.seed
    random._urandom = _s_urandom

    def seed(self, a=None, version=2):
        real(self, int.from_bytes(_s_urandom(16), "big") if a is None else a, version)
    random.Random.seed = seed
    random.seed = random._inst.seed


class SimOut(io.TextIOBase):
    """stdout/stderr of the simulated process"""
    encoding = "utf-8"
    errors = "replace"

    def __init__(self, sim, name):
        self._sim, self._n = sim, name
        self._buf = sim.out if name == "stdout" else sim.err

    def writable(self):
        return True

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str")
        self._sim.op("out", self._n, len(s))
        self._buf.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")


class _Names:
    def __init__(self):
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        salt = CUR.knobs.get("pidsalt", 0) if CUR else 0
        return "sim%02x%05x" % (salt, self.i)


# ---------------------------------------------------------------- clock
def _patch_type(tp, **kw):
    d = gc.get_referents(tp.__dict__)[0]
    for k, v in kw.items():
        d[k] = v
    ctypes.pythonapi.PyType_Modified(ctypes.py_object(tp))


_EPOCH = None


def _install_clock(sim):
    import datetime as dtm
    real_fromts = dtm.datetime.__dict__["fromtimestamp"]

    time.time = lambda: sim.now_ns() / 1e9
    time.time_ns = lambda: sim.now_ns()
    time.monotonic = lambda: sim.mono_ns() / 1e9
    time.monotonic_ns = lambda: sim.mono_ns()
    time.perf_counter = lambda: sim.mono_ns() / 1e9
    time.perf_counter_ns = lambda: sim.mono_ns()
    time.process_time = lambda: sim.mono_ns() / 1e9

    def sleep(s):
        sim.op("sleep", "")
        sim.t_ns += int(max(0, s) * 1e9)
    time.sleep = sleep
    time.localtime = lambda s=None: _rt["localtime"](sim.now_ns() / 1e9 if s is None else s)
    time.gmtime = lambda s=None: _rt["gmtime"](sim.now_ns() / 1e9 if s is None else s)
    time.ctime = lambda s=None: _rt["ctime"](sim.now_ns() / 1e9 if s is None else s)
    time.strftime = lambda f, t=None: _rt["strftime"](f, time.localtime() if t is None else t)
    time.asctime = lambda t=None: _rt["asctime"](time.localtime() if t is None else t)

    def now(cls, tz=None):
        return cls.fromtimestamp(sim.now_ns() / 1e9, tz)

    def utcnow(cls):
        return cls.fromtimestamp(sim.now_ns() / 1e9, dtm.timezone.utc).replace(tzinfo=None)

    def dtoday(cls):
        return cls.fromtimestamp(sim.now_ns() / 1e9)
    _patch_type(dtm.datetime, now=classmethod(now), utcnow=classmethod(utcnow), today=classmethod(dtoday))
    _patch_type(dtm.date, today=classmethod(lambda cls: cls.fromtimestamp(sim.now_ns() / 1e9)))
    import pandas as pd

    def ts_now(cls, tz=None):
        return cls.fromtimestamp(sim.now_ns() / 1e9, tz) if tz is not None else cls(dtm.datetime.now())
    try:
        pd.Timestamp.now = classmethod(ts_now)
        pd.Timestamp.utcnow = classmethod(lambda cls: cls.fromtimestamp(sim.now_ns() / 1e9, "UTC"))
        pd.Timestamp.today = classmethod(ts_now)
    except (TypeError, AttributeError):
        pass


# ---------------------------------------------------------------- compute-step seam
_TOOL = 4
_cleanup = {}


def cleanup_lines(fn):
    """lines that enter or leave a context or belong to a clean-up block"""
    r = _cleanup.get(fn)
    if r is None:
        import ast
        r = _cleanup[fn] = set()
        try:
            with _real_open(fn, "rb") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            return r
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                r.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try):
                for b in n.finalbody:
                    r.update(range(b.lineno, b.end_lineno + 1))
            elif isinstance(n, ast.FunctionDef) and n.name == "__exit__":
                r.update(range(n.lineno, n.end_lineno + 1))
    return r


def install_lines(sim, prefixes, on_line=None):
    """LINE events of functions whose file starts with one of prefixes become countable steps."""
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "verif-sim")
    E = mon.events
    seen = {}

    def want(code):
        fn = code.co_filename
        r = seen.get(fn)
        if r is None:
            r = seen[fn] = any(fn.startswith(p) for p in prefixes) and "/tests/" not in fn
        return r

    def start(code, off):
        if want(code):
            mon.set_local_events(_TOOL, code, E.LINE)
        return mon.DISABLE

    if on_line is None:
        def line(code, ln):
            sim.line_event(code, ln)
    else:
        def line(code, ln):
            on_line(code, ln)
    mon.register_callback(_TOOL, E.PY_START, start)
    mon.register_callback(_TOOL, E.LINE, line)
    mon.set_events(_TOOL, E.PY_START)


def uninstall_lines():
    mon = sys.monitoring
    mon.set_events(_TOOL, 0)
    mon.register_callback(_TOOL, mon.events.LINE, None)
    mon.register_callback(_TOOL, mon.events.PY_START, None)
    try:
        mon.free_tool_id(_TOOL)
    except Exception:
        pass


# ---------------------------------------------------------------- HDF5 (opens files in C)
def _install_h5(sim):
    try:
        import h5py
    except ImportError:
        return
    real = h5py.File

    class SimH5File(real):
        def __init__(self, name, mode="r", *a, **k):
            if isinstance(name, (str, bytes, os.PathLike)):
                vp = sim.v(name)
                w = mode != "r"
                if not sim.managed(vp) and w:
                    sim.escapes.append(("h5:" + mode, vp))
                    raise PermissionError(_errno.EACCES, "simulated: outside the simulated disk", vp)
                sim.op("open:w" if w else "open:r", vp)
                name = sim.r(name)
                if w:
                    name = os.fspath(name)
            super().__init__(name, mode, *a, **k)
    h5py.File = SimH5File


def _install_optim():
    """the global optimiser runs in this process (no worker pool) and for one generation of a small population; the seed,
    bounds and everything else are the caller's"""
    import scipy.optimize as so
    real = so.differential_evolution
    if getattr(real, "_sim", False):
        return

    def differential_evolution(*a, **k):
        k.update(popsize=1, maxiter=1, polish=False, workers=1)
        return real(*a, **k)
    differential_evolution._sim = True
    so.differential_evolution = differential_evolution
    for n, m in list(sys.modules.items()):
        if n.startswith("beep.") and getattr(m, "differential_evolution", None) is real:
            m.differential_evolution = differential_evolution


# ---------------------------------------------------------------- install
def install(sim, seed=0):
    global CUR
    import _io
    import shutil
    import tempfile
    gc.disable()
    sim.rng = random.Random("%s/%s" % (seed, sim.knobs.get("entropy", 0)))      # what the operating system's entropy source gives
    os.environ["TMPDIR"] = V + "/tmp"
    CUR = sim
    builtins.open = sim_open
    io.open = sim_open
    _io.open = sim_open
    os.stat = _wrap1("stat")
    os.lstat = _wrap1("lstat")
    os.access = _wrap1("access")
    os.chmod = _wrap1("chmod", "meta", True)
    os.utime = _wrap1("utime", "meta", True)
    os.mkdir = _wrap1("mkdir", "mkdir", True)
    os.rmdir = _wrap1("rmdir", "rmdir", True)
    os.remove = _wrap1("remove", "unlink", True)
    os.unlink = _wrap1("unlink", "unlink", True)
    os.truncate = _wrap1("truncate", "write", True)
    os.chdir = _wrap1("chdir", "chdir")
    os.statvfs = _wrap1("statvfs")
    os.rename = _wrap2("rename", "rename")
    os.replace = _wrap2("replace", "rename")
    os.link = _wrap2("link", "link")
    os.symlink = _wrap2("symlink", "link")
    os.readlink = _s_readlink
    os.getcwd = _s_getcwd
    os.listdir = _s_listdir
    os.scandir = _s_scandir
    os.open = _s_os_open
    os.write = _s_os_write
    os.read = _s_os_read
    os.close = _s_os_close
    os.fsync = _s_fsync
    os.fdatasync = _s_fsync
    os.urandom = _s_urandom
    _install_entropy()
    os.listxattr = lambda *a, **k: []
    os.getxattr = os.setxattr = os.removexattr = _s_sendfile
    if hasattr(os, "sendfile"):
        os.sendfile = _s_sendfile
    if hasattr(os, "copy_file_range"):
        os.copy_file_range = _s_sendfile
    pid = 4000 + int(sim.knobs.get("pidsalt", 0))
    os.getpid = lambda: pid
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    tempfile._name_sequence = _Names()
    tempfile.tempdir = None
    tempfile._get_candidate_names = lambda: tempfile._name_sequence
    tz = sim.knobs.get("tz", "UTC0")
    os.environ["TZ"] = tz
    time.tzset()
    _install_clock(sim)
    _install_optim()
    random.seed(seed)
    import numpy as np
    np.random.seed(seed % (2 ** 32))
    ds = getattr(np.lib, "_datasource", None)
    if ds is not None:
        ds._file_openers._file_openers[None] = sim_open
    sys.stdout = SimOut(sim, "stdout")
    sys.stderr = SimOut(sim, "stderr")
    sys.stdin = io.StringIO("")
    import logging
    for lg in [logging.getLogger("beep"), logging.getLogger()]:
        for h in lg.handlers:
            if isinstance(h, logging.StreamHandler) and not isinstance(h, logging.FileHandler):
                h.stream = sys.stdout
    logging._startTime = time.time()

    def unraisable(u):
        sim.unraisable.append(type(u.exc_value).__name__ if u.exc_value is not None else "?")
    sys.unraisablehook = unraisable
    import uuid
    uuid._generate_time_safe = None
    try:
        uuid._UuidCreate = None
    except Exception:
        pass
    _install_h5(sim)
    if sim.s3 is not None:
        sim.s3.install(sim)
    else:
        from . import s3 as s3mod
        s3mod.Forbidden().install(sim)
