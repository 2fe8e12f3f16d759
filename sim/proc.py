"""Simulated processes: forks of the pre-imported interpreter with the seams installed."""
import hashlib
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

from . import core, s3

_t = time.monotonic       # real clock, for wall caps only
_read, _write, _close, _fork, _waitpid = os.read, os.write, os.close, os.fork, os.waitpid
WALL = 600
CPU = 150


def _send(fd, payload):
    data = pickle.dumps(payload, protocol=4)
    data = struct.pack("<Q", len(data)) + data
    mv = memoryview(data)
    while mv:
        n = core._real["write"](fd, mv)
        mv = mv[n:]


def _summary(sim, outcome, **kw):
    d = dict(outcome=outcome, value=None, code=None, exc=None, trace=sim.trace, fired=sim.fired,
             out="".join(sim.out), err="".join(sim.err), escapes=sim.escapes, unraisable=sim.unraisable,
             nops=sim.nops, nlines=sim.nlines, linepts=sorted(map(tuple, sim.linepts.values())), simtime=None, cwd=None,
             s3ops=list(sim.s3.ops) if sim.s3 is not None else [])
    d["simtime"] = (sim.t_ns - sim._t0) / 1e9
    d.update(kw)
    return d


def exc_info(e):
    return {"type": type(e).__name__, "mro": [c.__name__ for c in type(e).__mro__], "msg": str(e)[:2000],
            "errno": getattr(e, "errno", None),
            "tb": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}


COV = os.environ.get("VERIF_COV")        # development aid: which lines of the repository the runs reach


def _coverage():
    seen, m, pre = set(), sys.monitoring, core.REPO + "/beep/"

    def hit(code, line):
        if code.co_filename.startswith(pre):
            seen.add((code.co_filename[len(pre):], line))
        return m.DISABLE
    m.use_tool_id(3, "vcov")
    m.register_callback(3, m.events.LINE, hit)
    m.set_events(3, m.events.LINE)
    return seen


def _child(wfd, root, fn, args, plan, knobs, store, lines, seed, gate, on_line, threads):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    fs3 = None
    if store is not None:
        fs3 = s3.FakeS3(s3.Store(store), page=(knobs or {}).get("s3page", 1000))

    def emit(sim):
        _send(wfd, _summary(sim, "crash", code=137))
    lf = {}
    plan2 = []
    for i, f in enumerate(plan):
        if f["kind"] == "line":
            lf[f["nth"]] = (i, f)
            plan2.append({"kind": "none", "path": "", "nth": 0, "do": "none"})
        else:
            plan2.append(f)
    sim = core.Sim(root, plan2, knobs, s3=fs3, emit=emit, gate=gate)
    sim._t0 = sim.t_ns
    sim.line_faults = lf
    core.install(sim, seed)
    try:
        core._real["chdir"](sim.r(sim.knobs.get("cwd", "/sim/w")))
    except FileNotFoundError:
        core._real["chdir"](root)
    if sim.knobs.get("env"):
        os.environ.update(sim.knobs["env"])
    prefixes = lines
    seen = _coverage() if COV else None
    res = None
    try:
        if prefixes:
            core.install_lines(sim, prefixes, on_line)
        try:
            v = fn(*args)
            res = dict(outcome="return", value=v)
        except SystemExit as e:
            c = e.code
            code = 0 if c is None else (c if isinstance(c, int) else 1)
            res = dict(outcome="exit", code=code)
        except core.SimStall:
            res = dict(outcome="stall")
        except BaseException as e:
            res = dict(outcome="raise", exc=exc_info(e), code=1)
            e.__traceback__ = None
            del e
    finally:
        if prefixes:
            core.uninstall_lines()
    try:
        res["cwd"] = sim.getcwd()
    except OSError:
        res["cwd"] = None
    # interpreter shutdown: logging flushes, open files are finalised
    import gc
    import logging
    try:
        logging.shutdown()
        gc.collect()
    except BaseException as e:
        sim.unraisable.append(type(e).__name__)
    sim.inhibit = 1
    if COV:
        fd = core._real["open"](COV + "/%d" % os.getpid(), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        core._real["write"](fd, "".join("%s:%d\n" % x for x in sorted(seen)).encode())
    _send(wfd, _summary(sim, **res))


class Proc:
    """A started simulated process (used directly by the scheduler, or through run())."""

    def __init__(self, root, fn, args=(), plan=(), knobs=None, store=None, lines=None, seed=0,
                 gate_factory=None, on_line=None):
        r, w = os.pipe()
        pid = _fork()
        if pid == 0:
            code = 0
            try:
                _close(r)
                gate = gate_factory() if gate_factory else None
                _child(w, root, fn, args, plan, knobs, store, lines, seed, gate, on_line, False)
            except BaseException:
                try:
                    _send(w, dict(outcome="harness", err=traceback.format_exc()))
                except BaseException:
                    code = 70
            core._real["_exit"](code)
        _close(w)
        self.pid, self.r, self.buf, self.res = pid, r, b"", None

    def fileno(self):
        return self.r

    def pump(self):
        """read available bytes; True when finished"""
        d = _read(self.r, 1 << 20)
        if d:
            self.buf += d
            return False
        _close(self.r)
        _, st = _waitpid(self.pid, 0)
        buf = self.buf
        if len(buf) >= 8 and len(buf) - 8 >= struct.unpack("<Q", buf[:8])[0]:
            self.res = pickle.loads(buf[8:8 + struct.unpack("<Q", buf[:8])[0]])
        elif os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL):
            self.res = dict(outcome="hang", trace=[], fired=[], out="", err="", code=None, exc=None, value=None,
                            escapes=[], unraisable=[], nops=0, nlines=0, simtime=0, s3ops=[], cwd=None)
        else:
            self.res = dict(outcome="harness", err="child ended with status %r" % st)
        return True

    def wait(self, wall=WALL):
        t0 = _t()
        while True:
            rl, _, _ = select.select([self.r], [], [], max(0.1, wall - (_t() - t0)))
            if rl:
                if self.pump():
                    break
            elif _t() - t0 >= wall:
                os.kill(self.pid, signal.SIGKILL)
        return self.res


class HarnessError(Exception):
    pass


def check_harness(res):
    if res["outcome"] == "harness":
        raise HarnessError(res.get("err"))
    return res


def run(root, fn, args=(), plan=(), knobs=None, store=None, lines=None, seed=0):
    return check_harness(Proc(root, fn, args, plan, knobs, store, lines, seed).wait())


def trace_hash(trace):
    h = hashlib.sha1()
    for t in trace:
        h.update(repr(t[:4]).encode())
    return h.hexdigest()


# ------------------------------------------------------------------ commands
def cli(args):
    """run one beep command line in this simulated process"""
    import beep.cmd
    beep.cmd.cli.main(list(args), prog_name="beep", standalone_mode=True)
