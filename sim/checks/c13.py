"""C13 Inputs stay untouched and the workspace is restored after any failure."""
import os
import re

from .. import batch, cmds, conv, core, faults, feat, ml, proc, rawgen, util
from ..runner import Violation
from . import c07

ID = "C13"
RUNS = (360, 9000)
CAP = (150, 3000)
RULE = ("each seed draws one of: the five commands, inspecting a raw, structured, matrix, model or damaged file, loading, "
        "validating and structuring a file of each cycler format from the library, or a conversion, over a tree with other "
        "files of similar names in the input, working, output and temporary directories; runs it fault-free and under read, "
        "write, open and directory errors, full disk, allocation failures, interrupts and crashes at seeded operations and "
        "program steps, and compares the whole tree, the working directory and every mutating operation with what is allowed")
ASSUME = ["no fault is injected into the removal of temporary directories itself",
          "after a crash only pre-existing files are judged: nothing can remove its temporary directories"]
MUT = ("open:w", "write", "rename", "unlink", "rmdir", "link", "mkdir", "meta", "truncate")
CWD = "/sim/w"


def gen(ctx, rng, i):
    kind = ["structure", "load", "inspect", "conv", "featurize", "load", "train", "inspect", "predict", "conv", "protocol"][i % 11]
    if kind == "load":
        s = dict(batch.gen_spec(rng, 0, 0.35, [("neware", 5), ("maccor", 2), ("arbin", 2), ("barchive", 2), ("biologic", 2),
                                               ("indigo", 2), ("novonix", 2)]), id=0)
        scen = {"kind": kind, "file": s, "deep": rng.random() < 0.6}
    elif kind == "inspect":
        w = rng.choice(["raw", "raw", "structured", "structured", "matrix", "model", "junk"])
        scen = {"kind": kind, "what": w}
        if w == "raw":
            scen["file"] = dict(batch.gen_spec(rng, 0, 0.35), id=0)
        elif w == "structured":
            scen["sfile"] = feat.gen_file(rng, 0, 0.3)
        elif w in ("matrix", "model"):
            scen["spec"] = ml.gen_spec(rng, n=8)
            scen["opts"] = ml.gen_opts(rng)
            scen["opts"].pop("impute", None)
            scen["damage"] = rng.choice([None, None, "truncate", "flip"])
        else:
            scen["junk"] = rng.choice(["j.json", "j.json.gz", "j.csv", "j.txt", "j"])
    elif kind == "conv":
        scen = {"kind": kind, "conv": conv.gen(rng, conv.OPS[i // 5 % len(conv.OPS)])}
    else:
        scen = {"kind": kind, "cmd": cmds.gen(rng, kind, damage=0.25, small=True)}
        if rng.random() < 0.3:
            scen["log"] = 1
    scen.update(faults=[], knobs={"bufsize": rng.choice([64, 512, 8192]), "dirsalt": rng.randrange(4)}, lines=False)
    if rng.random() < 0.3:
        scen["knobs"]["cwd"] = "/sim/in"      # working directory = directory of the inputs
    yield scen
    ctx.reset()
    if put(ctx, scen) is None:
        return
    lines = rng.random() < 0.5
    r = run(ctx, scen, (), lines, count=False)
    ok = lambda t: t[1] not in ("stdout", "stderr") or t[0] == "out"
    for _ in range(8 if kind == "conv" else 4):
        x = rng.random()
        if x < 0.12:
            f = faults.crash_fault(rng, r["trace"])
        elif x < 0.5 and lines:
            f = faults.line_fault(rng, r, rng.choice(["memory", "interrupt", "interrupt"]))
        elif x < 0.65:
            f = faults.interrupt_fault(rng, r["trace"], kinds=("open:r", "open:w", "write", "out", "close"))
        else:
            f = faults.io_fault(rng, r["trace"], kinds=("open:r", "read", "open:w", "write", "close", "mkdir"), extra=("memory",), pred=ok)
        if f:
            yield dict(scen, faults=[f], lines=lines)


def ins_of(ctx, scen):
    k = scen["kind"]
    if k == "load":
        m, fs = rawgen.build(scen["file"], 0)
        return m, fs
    if k == "conv":
        return None, conv.inputs(scen["conv"])
    if k == "inspect":
        w = scen["what"]
        if w == "raw":
            return rawgen.build(scen["file"], 0)
        if w == "structured":
            p = feat.name_of(scen["sfile"])
            return p, {} if scen["sfile"].get("damage") == "missing" else {p: feat.content(ctx, scen["sfile"])}
        if w == "junk":
            p = "/sim/in/" + scen["junk"]
            return p, {p: b'{"a": 1}'}
        if w == "matrix":
            p, b = "/sim/in/m.json.gz", feat.enc(ml.matrix_bytes(ctx, scen["spec"], "f"), True) \
                if not ml.matrix_bytes(ctx, scen["spec"], "f").startswith(b"\x1f\x8b") else ml.matrix_bytes(ctx, scen["spec"], "f")
        else:
            d = c07.inputs(ctx, {"spec": scen["spec"], "opts": scen["opts"], "cmd": "predict", "popts": {},
                                 "pspec": dict(scen["spec"], n=2, first=50)})
            p, b = "/sim/in/model.json", d["model"][1]
        if b is None:
            return None
        if scen["damage"]:
            b = rawgen.damage(b, scen["damage"], 0.6)
        return p, {p: b}
    ins = cmds.inputs(ctx, scen["cmd"])
    fs = {}
    for _, d in ins:
        fs.update(d)
    return ins, fs


def decoys(ctx, scen, fs, allowed):
    out = {}
    for p in sorted(fs) or ["/sim/in/x.csv"]:
        b = os.path.basename(p)
        stem = os.path.splitext(b)[0]
        for d in ("/sim/w/", "/sim/in/", "/sim/out/", "/sim/tmp/"):
            for n in (stem + ".json", stem + ".out", b + ".tmp", b + ".bak", stem + "_structured.json", "compact.csv", "keep.txt",
                      stem + ".d/data.csv"):
                if d + n not in fs and not allowed(d + n):
                    out[d + n] = b"keep " + n.encode()
        break
    return out


def allow(scen, ins):
    k = scen["kind"]
    cwd = scen["knobs"].get("cwd", CWD)
    ex, rx = set(), []
    if k == "conv":
        ex |= set(conv.outs(scen["conv"]))
    elif k in cmds.OPS:
        c = scen["cmd"]
        ex.add(cmds.STATUS)
        if scen.get("log"):
            ex.add("/sim/w/log.jsonl")
        if k == "structure":
            if not c["opts"].get("validation_only"):
                for j in range(len(ins)):
                    p = batch.outpath_of(c, ins, j)
                    ex.add(cwd + p[len(CWD):] if p.startswith(CWD + "/") else p)
        elif k == "featurize":
            o = c["opts"]
            ex.add("/sim/out/matrix.json" + (".gz" if o.get("gz", 1) else ""))
            rx.append(re.escape(cwd) + r"/FeatureMatrix-[^/]+\.json\.gz$")
            if o["inter"]:
                names = "|".join(sorted({feat.fclass(f["name"]).__name__ for f in feat.effective(c)}))
                bases = "|".join(sorted({re.escape(os.path.basename(m)) for m, _ in ins}))
                rx.append(re.escape("/sim/out" if o["outdir"] else cwd) + "/(%s)-(\\d+-)?(%s)$" % (names, bases))
        elif k == "train":
            ex.add(ml.MODEL)
            rx.append(re.escape(cwd) + r"/LinearModelExperiment-[^/]+\.json\.gz$")
        elif k == "predict":
            ex.add(ml.PRED)
            rx.append(re.escape(cwd) + r"/PredictedDegradationDF-[^/]+\.json$")
        elif k == "protocol":
            rx.append(r"/sim/out(/(procedures|schedules|settings|names|mwf_files)(/.*)?)?$")
            rx.append(r"/sim/out/[^/]*(csv|mps|sdu|000|MWF|mwf)$")
    rx = [re.compile(x) for x in rx]
    return lambda p: p in ex or any(x.match(p) for x in rx)


def put(ctx, scen):
    t = ins_of(ctx, scen)
    if t is None:
        return None
    ins, fs = t
    a = allow(scen, ins)
    d = decoys(ctx, scen, fs, a)
    ctx.write(dict(d, **fs))
    return ins, fs, a


def lib_load(path, deep):
    from beep.structure.cli import auto_load
    dp = auto_load(path)
    if deep:
        dp.validate()
        dp.structure(resolution=5)
    return None


def run(ctx, scen, plan, lines, count=True):
    k = scen["kind"]
    ins, fs = ins_of(ctx, scen)
    b = core.REPO + "/beep/"
    if k == "load":
        return ctx.run(lib_load, (ins, scen["deep"]), plan, scen["knobs"], lines=[b + "structure/"] if lines else None, count=count)
    if k == "inspect":
        return ctx.run(proc.cli, (["inspect", ins],), plan, scen["knobs"],
                       lines=[b + "structure/", b + "cmd.py", b + "features/base.py", b + "model.py"] if lines else None, count=count)
    if k == "conv":
        c = scen["conv"]
        return ctx.run(conv.lib, (c["op"], c["p"], conv.outs(c)), plan, scen["knobs"],
                       lines=[b + "protocol/", b + "utils/"] if lines else None, count=count)
    return cmds.run(ctx, dict(scen["cmd"], knobs=scen["knobs"]), ins, plan, lines,
                    glob=["-l", "/sim/w/log.jsonl"] if scen.get("log") else [], count=count)


def execute(ctx, scen):
    t = put(ctx, scen)
    if t is None:
        ctx.probe("no-input")
        return
    ins, fs, allowed = t
    before = util.snapshot(ctx.root, content=True)
    r = run(ctx, scen, scen["faults"], scen["lines"])
    after = util.snapshot(ctx.root, content=True)
    what = "%s (%s%s)" % (scen["kind"], r["outcome"], ", faults %s" % [f[1:] for f in r["fired"]] if r["fired"] else "")
    for p in sorted(before):
        if p not in after:
            raise Violation("deleted", "%s: %s is gone" % (what, p))
        if before[p] != after[p] and not allowed(p):
            raise Violation("changed", "%s: %s was changed" % (what, p))
    for x in r["trace"]:
        if x[0] in MUT and x[1] in before and before[x[1]] is not None and not allowed(x[1]):
            raise Violation("touched", "%s: %s on %s" % (what, x[0], x[1]))
    if r["escapes"]:
        raise Violation("escape", "%s: touches %s" % (what, r["escapes"][:3]))
    if r["outcome"] in ("crash", "hang", "stall"):
        ctx.probe("crash")
        return
    for p in sorted(after):
        if p not in before and not allowed(p) and not allowed(p.rstrip("/")) and p != "/sim/out/":
            raise Violation("left", "%s: leaves %s" % (what, p))
    cwd = scen["knobs"].get("cwd", CWD)
    if r["cwd"] != cwd:
        raise Violation("cwd", "%s: the working directory is %s, was %s" % (what, r["cwd"], cwd))
    ctx.probe("%s-%s" % (scen["kind"], "faulted" if r["fired"] else r["outcome"]))
    if [x for x in r["trace"] if x[0] == "chdir"] and r["fired"]:
        ctx.probe("scratch-faulted")
