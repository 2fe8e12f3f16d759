"""C06 Each command leaves one truthful, complete status report and log."""
import datetime
import json
import re

from .. import batch, cmds, faults, util
from ..runner import Violation

ID = "C06"
RUNS = (160, 4000)
RULE = ("each seed draws a sequence of 1-3 commands sharing one status file and one log file (which may hold older content), "
        "with run ids and tags, in a seeded time zone and clock, and runs it fault-free, then with clock jumps, I/O errors on "
        "inputs, outputs, status file and log file, interrupts and crashes; after every command the status document is "
        "compared with the same command run plainly, its metadata with what was given and the simulated clock, and the log "
        "with its earlier content and the messages shown")
ASSUME = ["when the log file itself cannot be written only its earlier content is judged"]
LOG = "/sim/w/run.jsonl"
TZS = ["UTC0", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-11>11"]
TAGS = ["", "a", "experiment 7", "quote\"d", "x,y", "\u00e9t\u00e9", "7", "a"]


def gen(ctx, rng, i):
    n = rng.choice([1, 1, 2, 3])
    runs = []
    for k in range(n):
        s = cmds.gen(rng, damage=0.2, small=True)
        s["run_id"] = rng.choice([None, 0, 1, -3, 20240229, 2 ** 40])
        s["tags"] = [rng.choice(TAGS) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        s["log"] = LOG if rng.random() < 0.75 else None
        s["knobs"].update(tz=rng.choice(TZS), epoch=rng.choice([1600000000.0, 951782399.2, 1704067199.9, 1667109590.0]))
        runs.append(s)
    scen = {"runs": runs, "old": rng.choice([None, None, "older", "garbage", "huge"]), "oldlog": rng.choice([0, 0, 0, 0, 0, 1, 1, 1, 1, 300, 40000, 290000]),
            "_shrink": ["runs"], "faults": []}
    yield scen
    k = rng.randrange(n)
    s = runs[k]
    ctx.reset()
    ins = cmds.put(ctx, s)
    r = go(ctx, s, ins, (), count=False)
    own = {p for _, fs in ins for p in fs}
    outs = {t[1] for t in r["trace"] if t[0] == "open:w" and t[1] not in (cmds.STATUS, LOG)}
    for _ in range(3):
        fl = []
        for _ in range(rng.choice([1, 2])):
            x = rng.random()
            if x < 0.3:
                f = faults.jump_fault(rng, r["trace"])
            elif x < 0.6:
                f = faults.io_fault(rng, r["trace"], (own | outs) or None, extra=("memory",))
            elif x < 0.75:
                f = faults.io_fault(rng, r["trace"], {cmds.STATUS}, kinds=("open:w", "write", "close"))
            elif x < 0.85 and s["log"]:
                f = faults.io_fault(rng, r["trace"], {LOG}, kinds=("open:w", "write", "close"))
            elif x < 0.93:
                f = faults.interrupt_fault(rng, r["trace"], kinds=("open:w", "write", "out"))
            else:
                f = faults.crash_fault(rng, r["trace"])
            if f:
                fl.append(dict(f, run=k))
        if fl:
            yield dict(scen, faults=fl)


def glob(s):
    g = []
    if s["log"]:
        g += ["-l", s["log"]]
    if s["run_id"] is not None:
        g += ["-r", str(s["run_id"])]
    for t in s["tags"]:
        g += ["-t", t]
    return g


def go(ctx, s, ins, plan, count=True):
    return cmds.run(ctx, s, ins, plan, glob=glob(s), count=count)


def version():
    import beep
    return beep.__version__


def rd(ctx, p):
    return util.rd(ctx.root, p) if util.exists(ctx.root, p) else None


def execute(ctx, scen):
    old = {"older": json.dumps({"op_type": "structure", "files": {"/x": {"traceback": "e" * 3000}}, "stale": 1}).encode(),
           "garbage": b"{{{ not json" * 30, "huge": b"[" + b"1, " * 200000 + b"1]"}.get(scen["old"])
    if old is not None:
        ctx.write({cmds.STATUS: old})
    if scen["oldlog"]:
        ctx.write({LOG: b"{\"msg\": \"earlier run\"}\nnot even json\n" * int(scen["oldlog"])})
    for k, s in enumerate(scen["runs"]):
        ins = cmds.put(ctx, s)
        before, log0 = rd(ctx, cmds.STATUS), rd(ctx, LOG) or b""
        plan = [{a: b for a, b in f.items() if a != "run"} for f in scen["faults"] if f["run"] == k]
        r = go(ctx, s, ins, plan)
        check(ctx, s, ins, plan, r, before, log0)


def check(ctx, s, ins, plan, r, before, log0):
    fired = r["fired"]
    log1 = rd(ctx, LOG) or b""
    if not log1.startswith(log0):
        raise Violation("log-lost", "earlier log content is gone: %d bytes before, %d after" % (len(log0), len(log1)))
    if not s["log"] and log1 != log0:
        raise Violation("log-unrequested", "the log file changed though none was requested")
    ended = r["outcome"] == "exit" and not [f for f in fired if f[1].startswith("crash")]
    if s["log"] and ended and not [f for f in fired if f[2] == LOG or f[1] == "interrupt"]:
        check_log(ctx, r, log1[len(log0):])
    if r["outcome"] != "exit" or r["code"] != 0:
        if not [f for f in fired if f[1] not in ("jump", "short")] and all(fs for _, fs in ins):
            raise Violation("exit", "the command failed without a fault: " + batch.exit_desc(r))
        ctx.probe("failed")
        return
    b = rd(ctx, cmds.STATUS)
    if b is None:
        raise Violation("no-status", "exit status 0 but there is no status file")
    try:
        st = json.loads(b.decode("utf-8"))
    except ValueError as e:
        raise Violation("status-unreadable", "exit status 0 but the status file is not one JSON document: %s" % e)
    if st.get("op_type") != s["op"]:
        raise Violation("op", "status of a %s command says %r" % (s["op"], st.get("op_type")))
    md = st["metadata"]
    if md["run_id"] != s["run_id"] or type(md["run_id"]) is not type(s["run_id"]):
        raise Violation("run-id", "run id %r given, %r recorded" % (s["run_id"], md["run_id"]))
    if list(md["tags"] or []) != s["tags"]:
        raise Violation("tags", "tags %r given, %r recorded" % (s["tags"], md["tags"]))
    v = ctx.ref(("version",), lambda: ctx.run(version, count=False)["value"])
    if v not in [x for x in md.values() if isinstance(x, str)]:
        raise Violation("version", "version %s not recorded: %s" % (v, md))
    check_time(s, r, plan, md["op_datetime_utc"])
    # the same command, plainly
    ctx2 = (json.dumps(s, sort_keys=True), json.dumps([f for f in plan if f["path"] not in (cmds.STATUS, LOG)
                                                       and f["do"] not in ("jump", "interrupt")], sort_keys=True))
    want = ctx.ref(("plain", ctx2), lambda: plain(ctx, s, plan))
    hit = sorted((f[1], f[2]) for f in fired if f[1] not in ("jump", "interrupt") and f[2] not in (cmds.STATUS, LOG, "stdout", "stderr"))
    if want is not None and want[1] == hit:
        st.pop("metadata")
        d = util.diff(util.canon_dict(want[0]), util.canon_dict(cmds.volatile(st)))
        if d:
            raise Violation("differs", "the report differs from that of the plain command: %s" % d)
    ctx.probe("reported-" + s["op"])
    if before is not None:
        ctx.probe("replaced")


def plain(ctx, s, plan):
    """the report of this command without log, tags, clock jumps or time zone, on its own disk"""
    from ..runner import Ctx
    import os
    c = Ctx(os.path.join(ctx.scratch, "plain"))
    c.cache = ctx.cache
    c.reset()
    ins = cmds.put(c, s)
    p = [f for f in plan if f["path"] not in (cmds.STATUS, LOG) and f["do"] not in ("jump", "interrupt") and f["kind"] != "out"]
    r = cmds.run(c, s, ins, p, knobs={"tz": "UTC0", "epoch": 1600000000.0})
    if r["outcome"] != "exit" or r["code"] != 0:
        return None
    st = batch.load_status(c)
    st.pop("metadata")
    return cmds.volatile(st), sorted((f[1], f[2]) for f in r["fired"])


def check_time(s, r, plan, text):
    try:
        t = datetime.datetime.strptime(text, "%Y-%m-%d %H:%M:%S").replace(tzinfo=datetime.timezone.utc).timestamp()
    except (ValueError, TypeError):
        raise Violation("time", "time of operation %r" % (text,))
    t0 = s["knobs"]["epoch"]
    span = r["simtime"] + 2
    offs, tot = [0], 0
    for f in r["fired"]:
        if f[1] == "jump":
            tot += plan[f[0]]["arg"]
            offs.append(tot)
    if not any(t0 + o - 2 <= t <= t0 + o + span for o in offs):
        raise Violation("time", "time of operation %s; the command ran at %s UTC for %.0f s (clock jumps %s)"
                        % (text, datetime.datetime.fromtimestamp(t0, datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S"),
                           r["simtime"], offs[1:]))


HUMAN = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d (DEBUG|INFO|WARNING|ERROR|CRITICAL) +", re.M)


def check_log(ctx, r, new):
    if new and not new.endswith(b"\n"):
        raise Violation("log-torn", "the log ends inside a line")
    got = []
    for ln in new.decode("utf-8").split("\n")[:-1]:
        try:
            d = json.loads(ln)
            got.append((d["level"], d["msg"]))
        except (ValueError, KeyError, TypeError) as e:
            raise Violation("log-line", "log line is not well-formed (%r): %s" % (e, ln[:300]))
    shown = []
    ms = list(HUMAN.finditer(r["out"]))
    for m, nxt in zip(ms, ms[1:] + [None]):
        body = r["out"][m.end():nxt.start() if nxt else len(r["out"])]
        shown.append((m.group(1), body))
    if [x[0] for x in shown] != [x[0] for x in got] or any(not b.startswith(m[1]) for (_, b), m in zip(shown, got)):
        k = next((j for j, (a, b) in enumerate(zip(shown, got)) if a[0] != b[0] or not a[1].startswith(b[1])),
                 min(len(shown), len(got)))
        raise Violation("log-messages", "%d messages shown, %d logged; message %d shown %r, logged %r" % (
            len(shown), len(got), k, shown[k:k + 1], got[k:k + 1]))
    ctx.probe("log-lines", len(got))
