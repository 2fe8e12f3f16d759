"""C15 Converted, spliced and generated files are whole when success is returned."""
import json

from .. import conv, core, faults, util
from ..runner import Violation

ID = "C15"
RUNS = (240, 7000)
CAP = (150, 3000)
RULE = ("each seed draws one save, conversion, splice, cycle assignment or waveform call with random content (procedures with "
        "nested loops, several techniques, non-ASCII notes, long values), optionally over longer stale files of the same names, "
        "runs it undisturbed and judges the files by models that parse them without beep code and by reloading in a new process; "
        "then repeats it under open/write/close errors, full disk, torn writes, read errors, allocation failures, interrupts and "
        "crashes: a normal return requires the undisturbed bytes, and a repeat without the fault must give them")
ASSUME = ["content representable in the target format (its own white space and empty-value conventions)"]
LINES = [core.REPO + "/beep/protocol/", core.REPO + "/beep/utils/"]


def gen(ctx, rng, i):
    scen = conv.gen(rng, conv.OPS[i % len(conv.OPS)])
    yield scen
    yield from faulted(ctx, rng, scen, 4)


def faulted(ctx, rng, scen, n):
    ctx.reset()
    put(ctx, scen)
    lines = LINES if rng.random() < 0.4 else None
    r = ctx.run(conv.lib, (scen["op"], scen["p"], conv.outs(scen)), (), scen["knobs"], lines=lines, count=False)
    o = set(conv.outs(scen)) | {t[1] for t in r["trace"] if t[0] in ("open:w", "rename", "link")}
    for k in range(n):
        fl = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            x = rng.random()
            if x < 0.15:
                f = faults.crash_fault(rng, r["trace"], o if rng.random() < 0.7 else None)
            elif x < 0.3 and lines:
                f = faults.line_fault(rng, r, rng.choice(["memory", "interrupt"]))
            elif x < 0.4:
                f = faults.interrupt_fault(rng, r["trace"])
            elif x < 0.85:
                f = faults.io_fault(rng, r["trace"], o, kinds=("open:w", "write", "write", "close", "rename"))
            else:
                f = faults.io_fault(rng, r["trace"], extra=("memory",))
            if f:
                fl.append(f)
        if fl:
            yield dict(scen, faults=fl, lines=bool(lines))


def put(ctx, scen):
    ins = conv.inputs(scen)
    ctx.write(dict(ins, **{conv.OUT + ".keep": b""}))
    if scen["stale"]:
        # longer files of the same names, from an earlier run
        ctx.write({o: b"[Schedule_Step77]\r\nold=1\r\n" * 20000 for o in conv.outs(scen)})
    return ins


def reference(ctx, scen):
    """the files an undisturbed call on an empty output directory leaves"""
    ins = dict(conv.inputs(scen), **{conv.OUT + ".keep": b""})
    p = dict(scen["p"], twice=False) if scen["op"] == "to-arbin" else scen["p"]
    s = ctx.solo(ins, conv.lib, (scen["op"], p, conv.outs(scen)), scen["knobs"], keep="all")
    if s["outcome"] == "raise" and s["exc"]["type"] == "Changed":
        raise Violation("changed", "%s: saving changed the saved object: %s" % (scen["op"], s["exc"]["msg"]))
    if s["outcome"] != "return":
        return None
    return s["value"], {k: v for k, v in s["fs"].items() if k.startswith(conv.OUT) and not k.endswith("/")}


def files(ctx, scen):
    d = util.snapshot(ctx.root, content=True)
    return {k: v for k, v in d.items() if k.startswith(conv.OUT) and not k.endswith("/")}


def desc(r):
    return "%s %s" % (r["outcome"], (r["exc"] or {}).get("tb", "")[-700:] if r.get("exc") else r["code"])


def execute(ctx, scen):
    ref = reference(ctx, scen)
    if ref is None:
        ctx.probe("not possible: " + scen["op"])
        return
    rv, rf = ref
    o = conv.outs(scen)
    ins = put(ctx, scen)
    fl = scen.get("faults", ())
    r = ctx.run(conv.lib, (scen["op"], scen["p"], o), fl, scen["knobs"], lines=LINES if scen.get("lines") else None)
    fired = [f for f in r["fired"] if f[1] not in ("short", "jump")]
    if r["outcome"] == "return":
        got = files(ctx, scen)
        for x in o:
            if x not in got:
                raise Violation("missing", "%s returned normally, %s does not exist (faults %s)" % (scen["op"], x, fired))
        for x in got:
            if x not in rf:
                raise Violation("extra", "%s left an extra file %s" % (scen["op"], x))
        for x in rf:
            if got.get(x) != rf[x]:
                raise Violation("torn" if fired else "stale", "%s returned normally; %s has %s bytes, an undisturbed call on an empty "
                                "directory writes %d (faults %s)" % (scen["op"], x, len(got.get(x, b"")), len(rf[x]), fired))
        bad = [f for f in fired if f[2] in o and f[1] in ("EIO", "ENOSPC", "EDQUOT", "torn", "interrupt")
               and fl[f[0]]["kind"] in ("write", "open:w", "close")]
        if bad:
            raise Violation("swallowed", "%s returned normally although %s failed" % (scen["op"], bad))
        if not fired:
            if scen["op"] in ("procedure", "schedule", "settings") and util.canon(r["value"]) != util.canon(rv):
                raise Violation("saved", "value to save differs between calls: %s" % util.diff(rv, r["value"]))
            if scen["op"] in ("to-biologic", "waveform") and list(r["value"]) != list(o):
                raise Violation("names", "returned %s, promised %s" % (r["value"], o))
            judge(ctx, scen, got, rv)
        return
    if not fired:
        raise Violation("refused", "%s fails over existing files or when repeated: %s" % (scen["op"], desc(r)))
    ctx.probe("failed-then-repeated")
    if r["outcome"] == "raise" and r["exc"]["type"] == "Changed":
        raise Violation("changed", "saving changed the saved object: %s" % r["exc"]["msg"])
    for k, v in ins.items():
        if not util.exists(ctx.root, k) or util.rd(ctx.root, k) != v:
            raise Violation("input", "%s changed its input %s" % (scen["op"], k))
    r2 = ctx.run(conv.lib, (scen["op"], scen["p"], o), (), scen["knobs"], count=False)
    if r2["outcome"] != "return":
        raise Violation("repeat", "%s repeated without the fault: %s (faults %s)" % (scen["op"], desc(r2), fired))
    got = files(ctx, scen)
    for x in rf:
        if got.get(x) != rf[x]:
            raise Violation("repeat", "%s repeated without the fault: %s has %s bytes, undisturbed %d (faults %s)" % (
                scen["op"], x, len(got.get(x, b"")), len(rf[x]), fired))


def judge(ctx, scen, got, rv):
    m = conv.model(scen, {x: got[x] for x in conv.outs(scen)})
    if m:
        raise Violation("content", "%s: %s" % (scen["op"], m))
    v = ctx.run(conv.reload, (scen["op"], scen["p"], conv.outs(scen)), (), None, count=False)
    if v["outcome"] != "return":
        raise Violation("reload", "%s: output cannot be read back: %s" % (scen["op"], desc(v)))
    if scen["op"] in ("procedure", "schedule", "settings") and v["value"] != rv:
        raise Violation("reload", "%s: reads back as something else: %s" % (scen["op"], util.diff(rv, v["value"])))
    if scen["op"] == "to-biologic":
        want = []
        for b in [got[x] for x in conv.outs(scen)[1:]]:
            d = json.loads(b.decode())
            want.append([d["tech_num"], d["tech_does_loop"], d["adv_cycle_on_start"], d["adv_cycle_on_tech_loop"],
                         sorted([[t["source"], t["target"]], t["adv_cycle_count"]] for t in d["adv_cycle_seq_transitions"])])
        if util.canon(v["value"]) != util.canon(want):
            raise Violation("reload", "rules read back as %s" % v["value"])
