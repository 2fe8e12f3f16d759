"""C05 Halt-on-error and interrupts stop a command at once with a failure exit."""
import re
import zlib

from .. import batch, cmds, faults, util
from ..runner import Violation

ID = "C05"
RUNS = (320, 5000)
RULE = ("each seed draws one of the five commands with inputs and options, and (a) runs it with and without halt-on-error "
        "under the same faults (damaged inputs, I/O errors, full disk, torn writes, allocation failures): the halting run must "
        "fail exactly when the other one records an error, before any input after the failing one is touched, and be "
        "identical otherwise; (b) runs it with a keyboard interrupt raised at a seeded file operation, output line or "
        "program step: it must fail, and no input may be opened after the interrupt")
ASSUME = ["an interrupt that arrives inside a destructor is reported and dropped by the interpreter; such runs are not judged",
          "interrupts are not raised inside a read called from compiled parsers, which turn any such exception into their own"]


def gen(ctx, rng, i):
    scen = cmds.gen(rng, op=cmds.OPS[i % 5], damage=rng.choice([0.0, 0.25]))
    yield dict(scen, mode="halt")
    ctx.reset()
    ins = cmds.put(ctx, scen)
    lines = rng.random() < 0.7
    r = cmds.run(ctx, scen, ins, use_lines=lines, count=False)
    own = {p for _, fs in ins for p in fs}
    outs = {t[1] for t in r["trace"] if t[0] == "open:w" and t[1] != cmds.STATUS}
    for _ in range(2):
        x = rng.random()
        if x < 0.4 and lines:
            f = faults.line_fault(rng, r, "memory")
        elif x < 0.75:
            f = faults.io_fault(rng, r["trace"], outs or own, extra=("memory",))
        else:
            f = faults.io_fault(rng, r["trace"], own, extra=("memory",))
        if f:
            yield dict(scen, mode="halt", faults=[f], lines=lines)
    for k in range(3):
        x = rng.random()
        if x < 0.55 and lines:
            f = faults.line_fault(rng, r, "interrupt")
        elif x < 0.8:
            f = faults.interrupt_fault(rng, r["trace"], own, ("open:r", "read"))
        else:
            f = faults.interrupt_fault(rng, r["trace"], kinds=("open:r", "open:w", "write", "out", "mkdir", "list"))
        if f:
            yield dict(scen, mode="interrupt", faults=[f], lines=lines, halt=rng.random() < 0.2)


def touched(trace, start=0):
    """paths read or written from position start of a history"""
    return [(j, t[0], t[1]) for j, t in enumerate(trace) if j >= start and t[0] in ("open:r", "open:w", "read", "write")]


def execute(ctx, scen):
    ins = cmds.put(ctx, scen)
    if scen["mode"] == "interrupt":
        return interrupt(ctx, scen, ins)
    a = cmds.run(ctx, scen, ins, scen["faults"], scen.get("lines"), halt=False)
    st0 = batch.load_status(ctx) if a["outcome"] == "exit" and a["code"] == 0 else None
    snap0 = state(ctx)
    ctx.reset()
    cmds.put(ctx, scen)
    b = cmds.run(ctx, scen, ins, scen["faults"], scen.get("lines"), halt=True)
    if st0 is None:
        if b["outcome"] == "exit" and b["code"] == 0:
            raise Violation("halt-hides", "the command fails without halt-on-error (%s) and succeeds with it" % batch.exit_desc(a))
        ctx.probe("both-fail")
        return
    bad = cmds.failed(st0)
    if not bad:
        if b["outcome"] != "exit" or b["code"] != 0:
            raise Violation("halt-fails", "nothing failed, but with halt-on-error: " + batch.exit_desc(b))
        d = util.diff(util.canon_dict(snap0), util.canon_dict(state(ctx)))
        if d:
            raise Violation("halt-differs", "nothing failed, but halt-on-error changes the result: %s" % d)
        ctx.probe("equal")
        return
    if b["outcome"] == "exit" and b["code"] == 0 or b["outcome"] == "return":
        raise Violation("no-halt", "an error was recorded without halt-on-error, but with it the command exits successfully "
                        "(faults %s)" % b["fired"])
    ctx.probe("halted-" + scen["op"])
    if scen["op"] in ("structure", "featurize"):
        names = [m for m, _ in ins]
        first = None
        for j, m in enumerate(names):
            if m in st0["files"] and cmds.failed(st0["files"][m]):
                first = j
                break
        if first is None:
            return
        later = {p for m, fs in ins[first + 1:] for p in list(fs) + [m]} - {p for m, fs in ins[:first + 1] for p in list(fs) + [m]}
        if scen["op"] == "structure":
            later |= {batch.outpath_of(scen, ins, j) for j in range(first + 1, len(ins))} - \
                {batch.outpath_of(scen, ins, j) for j in range(first + 1)}
        hit = [t for t in touched(b["trace"]) if t[2] in later]
        if hit:
            raise Violation("went-on", "%s failed, but with halt-on-error %s was still processed" % (names[first], hit[0][2]))
        if len(ins) > first + 1:
            ctx.probe("later-inputs-untouched")


def state(ctx):
    """everything on disk, without times"""
    out = {}
    for p, b in util.snapshot(ctx.root, content=True).items():
        if b is None:
            continue
        q = re.sub(r"-\d{4}-\d\d-\d\d_\d\d\.\d\d\.\d\d\.\d+", "-TIME", p)
        q = re.sub(r"/names/.*", "/names/TIME", q)
        if p == cmds.STATUS:
            out[q] = cmds.volatile(util.loads_any(b))
        elif q.endswith((".json", ".json.gz")):
            try:
                out[q] = batch.norm_json(b)
            except (ValueError, EOFError, OSError, zlib.error):
                out[q] = util.md5(b)
        else:
            out[q] = util.md5(b)
    return out


def interrupt(ctx, scen, ins):
    r = cmds.run(ctx, scen, ins, scen["faults"], scen.get("lines"))
    if not r["fired"]:
        ctx.probe("not-reached")
        return
    if "KeyboardInterrupt" in r["unraisable"]:
        ctx.probe("dropped-by-interpreter")
        return
    if r["outcome"] == "stall" or r["outcome"] == "hang":
        raise Violation("hang", "the command does not end after the interrupt")
    if r["outcome"] == "return" or (r["outcome"] == "exit" and r["code"] == 0):
        raise Violation("interrupt-lost", "interrupted at %s, but the command exits successfully" % (where(scen, r),))
    pos = next(j for j, t in enumerate(r["trace"]) if t[0] == "FAULT")
    own = {p for m, fs in ins for p in list(fs) + [m]}
    if pos > 0 and r["trace"][pos - 1][0] == "open:r":
        pos += 1
    hit = [t for t in touched(r["trace"], pos) if t[2] in own and t[1] == "open:r"]
    if hit:
        raise Violation("went-on", "interrupted at %s, but %s is opened afterwards" % (where(scen, r), hit[0][2]))
    new = [t for t in touched(r["trace"], pos) if t[1] == "open:w" and not t[2].startswith("/sim/tmp")]
    if new:
        raise Violation("went-on", "interrupted at %s, but %s is written afterwards" % (where(scen, r), new[0][2]))
    if len(r["trace"]) - pos > 2000:
        raise Violation("slow", "interrupted at %s, but %d operations follow" % (where(scen, r), len(r["trace"]) - pos))
    ctx.probe("interrupted-" + scen["op"])


def where(scen, r):
    f = scen["faults"][0]
    return f["kind"], f["path"], f["nth"]
