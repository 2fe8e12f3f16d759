"""Runs one property's check: seeded simulated runs over worker processes, minimisation, replay, evidence."""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import core, proc, util

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_t = time.monotonic


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


class Ctx:
    """What a check may use inside a worker."""

    def __init__(self, scratch, tier="quick"):
        self.scratch = scratch
        self.root = os.path.join(scratch, "root")
        self.store = os.path.join(scratch, "s3")
        self.tier = tier
        self.cache = {}
        self.zyg = {}
        self.stats = new_stats()
        self.digest = hashlib.sha1()
        self._start_sig = None

    def reset(self):
        util.wipe(self.root)
        shutil.rmtree(self.store, ignore_errors=True)

    def write(self, files):
        util.write_tree(self.root, files)

    def put_s3(self, objs):
        from . import s3
        st = s3.Store(self.store)
        for (b, k), d in objs.items():
            st.put(b, k, d)
        return st

    def run(self, fn, args=(), plan=(), knobs=None, s3=False, lines=None, seed=0, count=True):
        res = proc.run(self.root, fn, args, plan, knobs, self.store if s3 else None, lines, seed)
        self.note(res, plan, count)
        return res

    def run_hash(self, hashseed, fn, args=(), plan=(), knobs=None, count=True):
        """run() in an interpreter with another string-hash seed"""
        if str(hashseed) == os.environ.get("PYTHONHASHSEED"):
            return self.run(fn, args, plan, knobs, count=count)
        from . import zyg
        if hashseed not in self.zyg:
            self.zyg[hashseed] = zyg.Zygote(hashseed)
        res = self.zyg[hashseed].run(self.root, fn, args, plan, knobs)
        self.note(res, plan, count)
        return res

    def note(self, res, plan=(), count=True):
        st = self.stats
        st["procs"] += 1
        st["ops"] += res["nops"]
        st["simtime"] += res["simtime"] or 0
        for f in res["fired"]:
            st["faults"][f[1]] = st["faults"].get(f[1], 0) + 1
        self.digest.update(proc.trace_hash(res["trace"]).encode())
        self.digest.update(("%s %s %d" % (res["outcome"], res["code"], res["nops"])).encode())
        if count:
            h = hashlib.sha1()
            for t in res["trace"]:
                h.update(("%s|%s|%s;" % (t[0], t[1], t[2])).encode())
            st["distinct"].add(h.hexdigest()[:16])

    def probe(self, name, n=1):
        self.stats["probes"][name] = self.stats["probes"].get(name, 0) + n

    def ref(self, key, fn):
        """cache of reference results (pure functions of key)"""
        k = repr(key)
        if k not in self.cache:
            if len(self.cache) > 4000:
                self.cache.clear()
            self.cache[k] = fn()
        return self.cache[k]

    def shared(self, key, fn):
        """ref() shared by all workers of this run (for expensive inputs)"""
        top = os.path.dirname(self.scratch)
        if not os.path.basename(top).startswith("verifsim-"):
            return self.ref(key, fn)

        def go():
            import fcntl
            p = os.path.join(top, "shared-" + hashlib.md5(repr(key).encode()).hexdigest())
            with open(p + ".lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                if os.path.exists(p):
                    with open(p, "rb") as f:
                        return pickle.load(f)
                v = fn()
                with open(p + ".tmp", "wb") as f:
                    pickle.dump(v, f)
                os.rename(p + ".tmp", p)
                return v
        return self.ref(key, go)

    def solo(self, files, fn, args=(), knobs=None, keep=()):
        """fn(*args) alone in a fresh fault-free simulated process on a private disk holding `files`"""
        key = ("solo", fn.__module__, fn.__name__, repr(args), repr(sorted((knobs or {}).items())),
               hashlib.md5(repr(sorted((k, hashlib.md5(v).hexdigest()) for k, v in files.items())).encode()).hexdigest())

        def go():
            d = os.path.join(self.scratch, "solo")
            util.wipe(d)
            util.write_tree(d, files)
            r = proc.run(d, fn, args, (), dict({"entropy": 1}, **(knobs or {})), None)
            self.stats["solo"] += 1
            out = {k: r[k] for k in ("outcome", "value", "code", "exc", "out", "err", "nops")}
            out["fs"] = util.snapshot(d, content=True) if keep == "all" else None
            return out
        return self.ref(key, go)


def new_stats():
    return {"runs": 0, "procs": 0, "ops": 0, "simtime": 0.0, "faults": {}, "probes": {}, "distinct": set(), "solo": 0,
            "faulty_runs": 0, "samples": [], "nontrivial": set()}


def merge(a, b):
    for k in ("runs", "procs", "ops", "simtime", "solo", "faulty_runs"):
        a[k] += b[k]
    for k in ("faults", "probes"):
        for n, c in b[k].items():
            a[k][n] = a[k].get(n, 0) + c
    a["distinct"] |= b["distinct"]
    a["nontrivial"] |= b["nontrivial"]
    a["samples"] = (a["samples"] + b["samples"])[:3]


def scen_hash(s):
    return hashlib.sha1(json.dumps(s, sort_keys=True, default=str).encode()).hexdigest()


def execute(mod, ctx, scen):
    """-> (class, message) or None.  A pure function of scenario and code."""
    ctx.reset()
    try:
        mod.execute(ctx, scen)
    except Violation as v:
        return v.cls, v.msg
    except (KeyError, TypeError, IndexError, AttributeError) as e:
        # a report or result that lacks what it promises
        return "malformed", "a report or result does not have its form: %s: %s\n%s" % (
            type(e).__name__, e, traceback.format_exc()[-1500:])
    return None


def n_faults(s):
    return len(s.get("faults", ()))


def default_shrink(s):
    """generic smaller scenarios: fewer faults, then fewer items of every list named in scenario['_shrink']"""
    for i in range(len(s.get("faults", []))):
        t = json.loads(json.dumps(s))
        del t["faults"][i]
        yield t
    for key in s.get("_shrink", []):
        seq = s.get(key)
        if isinstance(seq, list):
            for i in range(len(seq)):
                if len(seq) > 1:
                    t = json.loads(json.dumps(s))
                    del t[key][i]
                    yield t


def minimise(mod, ctx, scen, cls, budget=25.0, tries=60):
    t0, best, n = _t(), scen, 0
    shrink = getattr(mod, "shrink", default_shrink)
    execute(mod, ctx, scen)                              # the module may note how it went
    progress = True
    while progress:
        progress = False
        for cand in shrink(best):
            if _t() - t0 > budget or n >= tries:
                return best, n
            n += 1
            try:
                r = execute(mod, ctx, cand)
            except Exception:
                continue
            if r is not None and r[0] == cls:
                best, progress = cand, True
                break
    return best, n


def worker(wid, nw, mod, seed, tier, n_runs, deadline, wfd, scratch):
    """runs wid, wid+nw, ...; streams results"""
    def send(x):
        proc._send(wfd, x)
    ctx = Ctx(scratch, tier)
    try:
        for i in range(wid, n_runs, nw):
            if _t() > deadline:
                send(("cap", i))
                break
            rng = random.Random("%s/%d/%d" % (mod.ID, seed, i))
            ctx.digest = hashlib.sha1()
            it = enumerate(mod.gen(ctx, rng, i))
            while True:
                try:
                    j, scen = next(it)
                except StopIteration:
                    break
                except Exception:
                    send(("softerror", "generating run %d: %s" % (i, traceback.format_exc())))
                    break
                scen = json.loads(json.dumps(scen))
                ctx.stats["runs"] += 1
                if n_faults(scen):
                    ctx.stats["faulty_runs"] += 1
                before = len(ctx.stats["distinct"])
                try:
                    v = execute(mod, ctx, scen)
                except Exception:
                    send(("softerror", "run %d.%d: %s" % (i, j, traceback.format_exc())))
                    break
                ctx.stats["nontrivial"].add(scen_hash(scen)[:16])
                if len(ctx.stats["samples"]) < 1 and n_faults(scen):
                    ctx.stats["samples"].append({"run": "%d.%d" % (i, j), "scenario": trim(scen)})
                if v is not None:
                    send(("viol", i, j, v[0], v[1], scen))
                    break
                if _t() > deadline:
                    break
            send(("run", i, ctx.digest.hexdigest()))
        send(("stats", ctx.stats))
    except BaseException:
        send(("error", traceback.format_exc()))


def trim(s, n=1500):
    t = json.dumps(s, default=str)
    return s if len(t) <= n else t[:n] + "..."


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == pid and e["status"] == "known"]


def is_known(known, cls, scen):
    for e in known:
        if e["class"] == cls and all(str(w) in json.dumps(scen, sort_keys=True) for w in e.get("scenario_contains", [])):
            return e
    return None


def prepare():
    """import everything once, before forking; the parent never runs beep code beyond imports"""
    os.environ.setdefault("BEEP_S3_CACHE", "/sim/cache")
    sys.path.insert(0, core.REPO)
    import beep
    if not os.path.realpath(beep.__file__).startswith(os.path.realpath(core.REPO) + "/"):
        raise RuntimeError("beep imported from %s" % beep.__file__)
    for m in ("cmd", "model", "features.core", "features.intracell_losses", "prediction.beep_data_splitter",
              "structure.cli", "structure.novonix", "structure.validate", "structure.diagnostic", "structure.base_eis",
              "protocol.generate_protocol", "protocol.maccor_to_arbin", "protocol.maccor_to_biologic_mb",
              "protocol.biologic_mb_to_maccor", "protocol.biologic", "protocol.arbin", "protocol.maccor",
              "utils", "utils.project_transfer", "utils.waveform", "utils.splice", "utils.s3"):
        importlib.import_module("beep." + m)
    # warm lazily imported library modules, so that simulated processes differ only by what they do
    import boto3.exceptions      # noqa
    import botocore.exceptions   # noqa
    import encodings.latin_1, encodings.ascii, encodings.idna, encodings.cp437   # noqa
    import bz2, lzma, gzip, zipfile, tarfile, uuid, secrets     # noqa
    import pandas as pd
    pd.DataFrame({"a": [1.0]}).to_json()
    import ruamel.yaml     # noqa
    import _strptime       # noqa
    import fnmatch, glob, tempfile as _tf, concurrent.futures, multiprocessing, subprocess   # noqa
    from . import simfeats     # noqa
    import gc
    gc.collect()
    gc.freeze()


def run_check(pid, seed, tier, workers=None, runs=None, cap=None):
    t_start = _t()
    prepare()
    mod = importlib.import_module("sim.checks." + pid.lower())
    n_runs = runs or (mod.RUNS[0] if tier == "quick" else mod.RUNS[1])
    caps = getattr(mod, "CAP", (150, 3000))
    cap = cap or (caps[0] if tier == "quick" else caps[1])
    nw = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    nw = min(nw, n_runs)
    known = load_known(pid)
    base = tempfile.mkdtemp(prefix="verifsim-", dir=os.environ.get("VERIF_TMP", "/tmp"))
    os.chmod(base, 0o700)
    print("check %s tier=%s VERIF_SEED=%d runs=%d workers=%d" % (pid, tier, seed, n_runs, nw), flush=True)
    code = 2
    try:
        code = _run(mod, pid, seed, tier, n_runs, nw, known, base, t_start, t_start + cap)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return code


def _run(mod, pid, seed, tier, n_runs, nw, known, base, t_start, deadline):
    fds, pids, bufs = {}, [], {}
    for w in range(nw):
        r, wr = os.pipe()
        pid_ = os.fork()
        if pid_ == 0:
            os.setpgid(0, 0)
            for f in fds:
                os.close(f)
            os.close(r)
            try:
                worker(w, nw, mod, seed, tier, n_runs, deadline, wr, os.path.join(base, "w%02d" % w))
            except BaseException:
                traceback.print_exc()
            os._exit(0)
        os.close(wr)
        fds[r] = w
        pids.append(pid_)
        bufs[r] = b""
    stats, digests, viols, errors, capped, knowns = new_stats(), {}, [], [], 0, {}
    done = set()
    open_fds = set(fds)
    hard = deadline + 240
    while open_fds:
        rl, _, _ = select.select(list(open_fds), [], [], 5.0)
        if _t() > hard:
            errors.append("wall limit")
            break
        for r in rl:
            d = os.read(r, 1 << 20)
            if not d:
                open_fds.discard(r)
                if r not in done:
                    errors.append("worker %d ended early" % fds[r])
                continue
            bufs[r] += d
            while len(bufs[r]) >= 8:
                n = struct.unpack("<Q", bufs[r][:8])[0]
                if len(bufs[r]) < 8 + n:
                    break
                msg = pickle.loads(bufs[r][8:8 + n])
                bufs[r] = bufs[r][8 + n:]
                if msg[0] == "run":
                    digests[msg[1]] = msg[2]
                elif msg[0] == "stats":
                    merge(stats, msg[1])
                    done.add(r)
                elif msg[0] == "cap":
                    capped += 1
                elif msg[0] == "softerror":
                    errors.append(msg[1])
                elif msg[0] == "error":
                    errors.append(msg[1])
                    done.add(r)
                elif msg[0] == "viol":
                    _, i, j, cls, text, scen = msg
                    k = is_known(known, cls, scen)
                    if k is not None:
                        knowns[k["id"]] = k
                    else:
                        viols.append((i, j, cls, text, scen))
        if viols:
            break
    # stop the workers
    for p in pids:
        try:
            os.killpg(p, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
    for p in pids:
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    for k in knowns.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    if viols:
        rc = 1
        i, j, cls, text, scen = sorted(viols, key=lambda v: (v[0], v[1]))[0]
        ctx = Ctx(os.path.join(base, "min"), tier)
        small, tried = minimise(mod, ctx, scen, cls)
        again = execute(mod, ctx, small)
        if again is None:
            small, again = scen, execute(mod, ctx, scen)
        if again is None:
            print("HARNESS: violation %s of run %d.%d did not reproduce" % (cls, i, j))
            print(text)
            errors.append("not reproducible: %s %s" % (cls, text))
            rc = 2
        else:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d-%d.%d.json" % (pid, seed, i, j))
            with open(path, "w") as f:
                json.dump({"property": pid, "verif_seed": seed, "run": i, "sub": j, "class": again[0], "message": again[1],
                           "minimised_from_faults": n_faults(scen), "faults_left": n_faults(small),
                           "shrink_tries": tried, "scenario": small}, f, indent=1, default=str)
            print("violation class: %s (seed %d run %d.%d)" % (again[0], seed, i, j))
            print(again[1])
            print("replay with: bash %s/replay.sh %s" % (VERIF, path))
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    elif errors:
        rc = 2
        print("HARNESS ERROR\n" + ("%d errors\n" % len(errors)) + errors[0][-3000:], flush=True)
    wall = _t() - t_start
    write_evidence(mod, pid, seed, tier, stats, digests, wall, len(viols), capped, n_runs, knowns)
    print("%s: runs=%d procs=%d ops=%d faults=%s distinct=%d sim=%.0fs wall=%.1fs%s rc=%d digest=%s" % (
        pid, stats["runs"], stats["procs"], stats["ops"], sum(stats["faults"].values()), len(stats["distinct"]),
        stats["simtime"], wall, " capped" if capped else "", rc,
        hashlib.sha1(json.dumps(sorted(digests.items())).encode()).hexdigest()[:12]), flush=True)
    if rc == 0 and not capped and len(digests) != n_runs:
        print("HARNESS: %d of %d runs reported" % (len(digests), n_runs))
        rc = 2
    return rc


REAL = ["beep (all of it, from /repo)", "pandas, numpy, scipy, scikit-learn, monty, ruamel.yaml, click, gzip, json"]
STUB = ["boto3 client/resource (in-memory bucket service)", "clock, sleep, time zone", "temporary names, os.urandom",
        "raw file descriptors (real files on a private scratch disk behind fault-injecting wrappers)",
        "standard output", "signals (KeyboardInterrupt raised at chosen steps)"]


def write_evidence(mod, pid, seed, tier, stats, digests, wall, nviol, capped, n_runs, knowns):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL if hasattr(mod, "LEVEL") else "exploration",
        "wall_s": round(wall, 2), "violations": nviol,
        "coverage": {
            "evaluations": stats["runs"],
            "distinct_nontrivial": len(stats["nontrivial"] & stats["nontrivial"]),
            "rule": mod.RULE,
            "samples": stats["samples"] or [{"note": "no faulty run in this batch"}],
            "planned_seeds": n_runs, "seeds_finished": len(digests),
            "simulated_runs_per_hour": round(stats["runs"] / max(wall, 1e-9) * 3600),
            "seeds_per_hour": round(len(digests) / max(wall, 1e-9) * 3600),
            "simulated_processes": stats["procs"], "reference_processes": stats["solo"],
            "simulated_seconds": round(stats["simtime"], 1), "seam_operations": stats["ops"],
            "runs_with_faults": stats["faulty_runs"],
            "faults_fired": dict(sorted(stats["faults"].items())),
            "probes": dict(sorted(stats["probes"].items())),
            "distinct_histories": len(stats["distinct"]),
            "distinct_histories_measure": "sha1 of a process's sequence of (operation kind, path, occurrence, fault)",
            "real_components": REAL, "stub_components": STUB + getattr(mod, "STUB", []),
            "batch_digest": hashlib.sha1(json.dumps(sorted(digests.items())).encode()).hexdigest(),
            "stopped_by_wall_cap": bool(capped),
            "known_findings_seen": sorted(knowns),
        },
        "assumptions": getattr(mod, "ASSUME", []) + [
            "a crash loses user-space buffers but no completed write; lost tails are modelled by truncating the file at rest",
            "sampling: a clean batch is evidence, not proof"],
    }
    tmp = os.path.join(d, ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % pid))


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prepare()
    mod = importlib.import_module("sim.checks." + r["property"].lower())
    base = tempfile.mkdtemp(prefix="verifsim-", dir=os.environ.get("VERIF_TMP", "/tmp"))
    try:
        v = execute(mod, Ctx(os.path.join(base, "r")), r["scenario"])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    if v is None:
        print("no violation on this tree")
        return 0
    print("violation class: %s%s" % (v[0], "" if v[0] == r["class"] else " (recorded: %s)" % r["class"]))
    print(v[1])
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def main(argv):
    cmd = argv[0]
    if cmd == "check":
        seed = int(os.environ.get("VERIF_SEED", "1"))
        tier = os.environ.get("VERIF_TIER", "quick")
        runs = int(os.environ["VERIF_RUNS"]) if os.environ.get("VERIF_RUNS") else None
        try:
            rc = run_check(argv[1], seed, tier, runs=runs)
        except Exception:
            traceback.print_exc()
            rc = 2
        return rc
    if cmd == "replay":
        return replay(argv[1])
    if cmd == "zygote":
        from . import zyg
        return zyg.serve()
    raise SystemExit("usage: check ID | replay FILE")
