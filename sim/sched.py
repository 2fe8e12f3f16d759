"""Seeded scheduling of several simulated processes over one disk, or of threads inside one."""
import _thread
import os
import random
import select
import threading

from . import core, proc

_read, _write, _close = os.read, os.write, os.close
RACY = ("open:w", "rename", "mkdir", "unlink", "write", "close", "rmdir", "chdir", "link", "stat", "access")
COMMON = ("/sim/cache", "/sim/w", "/sim/out/all", "/tmp")                # where simultaneous commands can meet


class Chooser:
    """Decides, step by step, who runs next.  A pure function of its description and the steps offered."""

    def __init__(self, d, n):
        self.d, self.n = d, n
        self.rng = random.Random("sched/%s" % d.get("seed", 0))
        self.cur = None
        self.runs = []                                   # [[who, steps], ...] as it happened
        self.step = 0
        self.mode = d["mode"]
        if self.mode == "pct":
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            self.points = sorted(self.rng.randrange(d.get("len", 2000)) for _ in range(d.get("depth", 4)))
        if self.mode == "runs":
            self.todo = [list(x) for x in d["runs"]]

    def pick(self, ready, kind, common=()):
        """ready: ascending list of who can run; kind[who]: the step each is about to take; common: who is about to touch a
        place others use too"""
        self.step += 1
        w = self._pick(ready, kind, common)
        if w == self.cur:
            self.runs[-1][1] += 1
        else:
            self.cur = w
            self.runs.append([w, 1])
        return w

    def _pick(self, ready, kind, common=()):
        r, m, cur = self.rng, self.mode, self.cur
        if m == "runs":
            while self.todo:
                w, n = self.todo[0]
                if w in ready and n > 0:
                    self.todo[0][1] -= 1
                    return w
                self.todo.pop(0)
            return cur if cur in ready else ready[0]
        if m == "serial":
            return cur if cur in ready else ready[0]
        if m == "walk":
            return cur if cur in ready and r.random() > self.d.get("p", 0.2) else r.choice(ready)
        if m == "race":
            p = 0.5 if cur is not None and kind.get(cur) in RACY else 0.01
            return cur if cur in ready and r.random() > p else r.choice(ready)
        if m == "meet":                                  # wait for the others there, then go in any order
            away = [w for w in ready if w not in common]
            if away and r.random() > 0.02:
                return cur if cur in away else r.choice(away)
            return r.choice(ready)
        if m == "rr":
            nxt = [w for w in ready if cur is None or w > cur]
            return nxt[0] if nxt else ready[0]
        while self.points and self.step >= self.points[0]:            # pct
            self.points.pop(0)
            w = max(ready, key=lambda x: self.prio[x])
            self.prio[w] = min(self.prio) - 1
        return max(ready, key=lambda x: self.prio[x])


def gen(rng, steps=3000):
    m = rng.choice(["walk", "walk", "race", "meet", "meet", "pct", "pct", "rr"])
    d = {"mode": m, "seed": rng.randrange(10 ** 6)}
    if m == "walk":
        d["p"] = rng.choice([0.5, 0.2, 0.05, 0.01])
    if m == "pct":
        d.update(len=steps, depth=rng.choice([1, 2, 3, 5, 8]))
    return d


# ---------------------------------------------------------------- processes
def run_many(root, jobs, sched):
    """jobs: [{fn, args, plan, knobs, store, lines, seed}] -> ([result], chooser).  Exactly one process moves at a time."""
    n = len(jobs)
    ch = Chooser(sched, n)
    ps, req, grant = [], [], []
    for j in jobs:
        rr, rw = os.pipe()
        gr, gw = os.pipe()

        def factory(rw=rw, gr=gr):
            def gate(kind, vp):
                common = vp.startswith(COMMON)
                _write(rw, (("!" if common else " ") + kind)[:31].encode().ljust(32))
                if not _read(gr, 1):
                    core._real["_exit"](99)
            return gate
        p = proc.Proc(root, j["fn"], j.get("args", ()), j.get("plan", ()), j.get("knobs"), j.get("store"), j.get("lines"),
                      j.get("seed", 0), gate_factory=factory, on_line=j.get("on_line"))
        _close(rw)
        _close(gr)
        ps.append(p)
        req.append(rr)
        grant.append(gw)
    want = {}                                            # who -> kind of the step it waits to take
    live = set(range(n))
    moving = set(live)
    try:
        while live:
            while moving:                                # until everyone waits or has ended
                fds = {ps[w].r: w for w in moving}
                fds.update({req[w]: w for w in moving if req[w] is not None})
                rl, _, _ = select.select(list(fds), [], [], proc.WALL)
                if not rl:
                    raise proc.HarnessError("a scheduled process made no progress")
                for fd in rl:
                    w = fds[fd]
                    if w not in moving:
                        continue
                    if fd == ps[w].r:
                        if ps[w].pump():
                            moving.discard(w)
                            live.discard(w)
                    else:
                        k = _read(fd, 32)
                        if not k:
                            _close(fd)
                            req[w] = None
                        else:
                            want[w] = k.decode().rstrip()
                            moving.discard(w)
            if not live:
                break
            w = ch.pick(sorted(live), {a: k[1:] for a, k in want.items()}, {a for a, k in want.items() if k[0] == "!"})
            _write(grant[w], b"g")
            moving.add(w)
    finally:
        for fd in grant + [r for r in req if r is not None]:
            _close(fd)
    return [proc.check_harness(p.res) for p in ps], ch


# ---------------------------------------------------------------- threads
class Threads:
    """Runs functions as threads of this simulated process; exactly one moves at a time, and may be replaced by another at
    every line of the code under test and every file operation."""

    def __init__(self, fns, sched, prefixes, plan=()):
        self.fns, self.ch, self.prefixes = fns, Chooser(sched, len(fns)), prefixes
        self.who = {}
        self.sem = [_thread.allocate_lock() for _ in fns]
        for s in self.sem:
            s.acquire()
        self.live = set()
        self.lines = [0] * len(fns)
        self.values = [None] * len(fns)
        self.plan = {(f["who"], f["nth"]): (i, f) for i, f in enumerate(plan)}
        self.hits = [0] * len(fns)
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.pinned = {}
        self.switches = 0

    def me(self):
        return self.who.get(_thread.get_ident())

    def step(self, kind):
        me = self.me()
        if me is None or len(self.live) < 2 or self.pinned.get(me):
            return
        w = self.ch.pick(sorted(self.live), {me: kind})
        if w != me:
            self.switches += 1
            self.sem[w].release()
            if not self.sem[me].acquire(True, proc.WALL / 4):
                os.write(2, b"scheduled threads are stuck\n")
                core._real["_exit"](98)

    def line(self, code, ln):
        sim = core.CUR
        sim.nlines += 1
        me = self.me()
        if me is None or code.co_name == "<module>":
            return
        self.lines[me] += 1
        hit = self.plan.get((me, self.lines[me]))
        if hit is not None and not sim.inhibit:
            if ln in core.cleanup_lines(code.co_filename):
                self.plan.setdefault((me, self.lines[me] + 1), hit)
            else:
                self.hits[me] += 1
                sim.fire(hit[0], hit[1], "line")
        if not sim.inhibit:
            self.step("line")

    def gate(self, kind, vp):
        if kind != "out":                                # printing happens under the logging lock
            self.step(kind)

    def body(self, i):
        self.who[_thread.get_ident()] = i
        self.sem[i].acquire()
        try:
            self.values[i] = ("return", self.fns[i]())
        except BaseException as e:
            self.values[i] = ("raise", proc.exc_info(e))
        self.live.discard(i)
        if self.live:
            w = self.ch.pick(sorted(self.live), {})
            self.sem[w].release()
        else:
            self.done.release()

    def run(self):
        import tempfile
        tempfile.gettempdir()
        sim = core.CUR
        core.install_lines(sim, self.prefixes, self.line)
        sim.gate = self.gate
        try:
            ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.fns))]
            for i, t in enumerate(ts):
                self.live.add(i)
            for t in ts:
                t.start()
            self.sem[self.ch.pick(sorted(self.live), {})].release()
            self.done.acquire()
            for t in ts:
                t.join()
        finally:
            sim.gate = None
            core.uninstall_lines()
        return self.values
