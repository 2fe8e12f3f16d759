"""C11 Protocol batches account for every row and rows do not affect each other."""
from .. import batch, core, faults, proc, proto, util
from ..runner import Violation

ID = "C11"
RUNS = (200, 4000)
RULE = ("each seed draws 1-3 parameter tables of 1-5 rows (all template families, unsupported templates, repeated parameters), "
        "generates them with the protocol command or one after the other in one process, fault-free and then with I/O errors, "
        "full disks, torn writes, allocation failures and crashes; every file is compared byte by byte with its row generated "
        "alone (at its position) in a fresh process, and lists, flags, counts, names list and status report with the disk")
ASSUME = ["rows of a table have distinct names, and a column has one type (a table mixing '4' and '4.2' is read as floats)",
          "the output directory is part of a row's parameters (procedures name their waveform file by path)"]


def gen(ctx, rng, i):
    if i == 0:
        yield known()
    mode = rng.choice(["cli", "lib", "lib"])
    tabs = [proto.gen_table(rng, first=10 * t) for t in range(1 if mode == "cli" else rng.randint(1, 3))]
    scen = {"mode": mode, "tables": tabs, "faults": [], "knobs": {"bufsize": rng.choice([512, 8192])}, "_shrink": ["tables"]}
    if len(tabs) > 1 and rng.random() < 0.3:
        # one more table with the parameters of an earlier one
        scen["tables"].append([dict(r, seq_num=r["seq_num"] + 100) for r in tabs[0]])
    if rng.random() < 0.3:
        # numbers that differ by a round amount
        t = rng.choice(scen["tables"])
        a = rng.choice(t)
        b = proto.gen_row(rng, 0, [a["family"]])
        if a["family"] == "Drive":
            b = dict(a)
        t.insert(rng.randint(0, len(t)), dict(b, seq_num=a["seq_num"] + rng.choice([100, 100, 256, 1000, 1000, 65536, 100000])))
    if rng.random() < 0.4:
        scen["stale"] = [[rng.randrange(len(scen["tables"])), rng.randrange(8), rng.choice(["old\n", "x" * 400000, ""])]
                         for _ in range(rng.randint(1, 3))]
    yield scen
    ctx.reset()
    put(ctx, scen)
    lines = [core.REPO + "/beep/protocol/"] if rng.random() < 0.3 else None
    r = run(ctx, scen, (), lines, count=False)
    outs = {t[1] for t in r["trace"] if t[0] in ("open:w", "mkdir") and t[1].startswith("/sim/out")}
    for _ in range(2):
        fl = []
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.random()
            if x < 0.15:
                f = faults.crash_fault(rng, r["trace"])
            elif x < 0.35 and lines:
                f = faults.line_fault(rng, r, "memory")
            elif x < 0.8:
                f = faults.io_fault(rng, r["trace"], outs, kinds=("open:w", "write", "close", "mkdir"))
            else:
                f = faults.io_fault(rng, r["trace"], pred=lambda t: t[1] != proto.STATUS)
            if f:
                fl.append(f)
        if fl:
            yield dict(scen, faults=fl, lines=bool(lines))


def known():
    """two driving rows with the same profile, repeats and whole-watt power, but different limits"""
    import random
    a = proto.gen_row(random.Random(1), 1, ["Drive"])
    a.update(discharge_profile="LA4", n_repeats="2", max_profile_power="40.0", power_scaling="0.6", profile_charge_limit="4.2")
    return {"mode": "lib", "tables": [[a, dict(a, seq_num=2, profile_charge_limit="4.1")]], "faults": [], "knobs": {},
            "known": "shared-waveform", "_shrink": []}


def csvs(scen):
    return [("/sim/in/t%d_parameters.csv" % k, "/sim/out/p%d" % k) for k in range(len(scen["tables"]))]


def put(ctx, scen):
    for (c, d), rows in zip(csvs(scen), scen["tables"]):
        ctx.write({c: proto.csv_of(rows)})
        import os
        os.makedirs(ctx.root + d[len("/sim"):], exist_ok=True)


def run(ctx, scen, plan, lines, count=True):
    if scen["mode"] == "cli":
        (c, d), = csvs(scen)[:1]
        a = ["-s", proto.STATUS, "protocol", c, "-d", d]
        return ctx.run(proc.cli, (a,), plan, scen["knobs"], lines=lines, count=count)
    return ctx.run(proto.lib_generate, (csvs(scen),), plan, scen["knobs"], lines=lines, count=count)


def execute(ctx, scen):
    if scen["mode"] == "cli":
        scen = dict(scen, tables=scen["tables"][:1])
    put(ctx, scen)
    lines = [core.REPO + "/beep/protocol/"] if scen.get("lines") else None
    want = []          # per table: list of (row, main output, {path: bytes})
    for (c, d), rows in zip(csvs(scen), scen["tables"]):
        l = []
        for k, row in enumerate(rows):
            f = proto.ref(ctx, row, k, d)
            if f is None:
                raise Violation("row-alone", "row %s cannot be generated on its own" % row)
            o = proto.out_of(row, d)
            if (o is not None and o not in f) or (o is None and f):
                raise Violation("row-files", "row %s alone gives files %s" % (row["template"], sorted(f)))
            l.append((row, o, f))
        want.append(l)
    for t, k, b in scen.get("stale", ()):               # files of an earlier generation
        if t < len(want):
            for p in want[t][k % len(want[t])][2]:
                ctx.write({p: b.encode()})
    r = run(ctx, scen, scen.get("faults", ()), lines)
    fired = [f for f in r["fired"] if f[1] not in ("short", "jump")]
    if not fired:
        check_all(ctx, scen, r, want)
        return
    # under faults: nothing that is missing, torn or different is ever reported as generated
    said = {}
    if r["outcome"] == "return":
        for (c, d), v in zip(csvs(scen), r["value"]):
            for f in v["files"]:
                said[f] = 1
    elif r["outcome"] == "exit":
        if r["code"] == 0:
            st = batch.load_status(ctx, proto.STATUS)
            if st is None:
                raise Violation("no-status", "no status report written")
            said = {k: 1 for k, v in st["protocol"].items() if v["generated"]}
            n = len(said) + len([1 for v in st["protocol"].values() if not v["generated"]])
            if n < len(scen["tables"][0]) and not st["traceback"]:
                raise Violation("no-error", "%d of %d rows accounted for and no error recorded" % (n, len(scen["tables"][0])))
    good = {o: f for l in want for _, o, f in l if o}
    for s in said:
        if s not in good:
            raise Violation("unknown-file", "%s reported as generated; no row gives it" % s)
        for p, b in good[s].items():
            if not util.exists(ctx.root, p):
                raise Violation("missing", "%s reported as generated but %s does not exist" % (s, p))
            if util.rd(ctx.root, p) != b:
                raise Violation("torn", "%s reported as generated but %s is not the complete file" % (s, p))
            bad = [f for f in fired if f[2] == p and f[1] in ("EIO", "ENOSPC", "EDQUOT", "torn", "interrupt")
                   and scen["faults"][f[0]]["kind"] in ("open:w", "write", "close")]
            if bad and not [1 for t in r["trace"] if t[0] == "open:w" and t[1] == p][1:]:
                raise Violation("swallowed", "%s reported as generated although writing %s failed: %s" % (s, p, bad))
    ctx.probe("faulted-" + r["outcome"])


def check_all(ctx, scen, r, want):
    if scen["mode"] == "cli":
        if r["outcome"] != "exit" or r["code"] != 0:
            raise Violation("exit", "protocol command failed without a fault: " + batch.exit_desc(r))
        st = batch.load_status(ctx, proto.STATUS)
        if st is None:
            raise Violation("no-status", "no status report written")
        gen = [k for k, v in st["protocol"].items() if v["generated"]]
        bad = [v for v in st["protocol"].values() if not v["generated"]]
        check_table(ctx, scen, 0, want[0], gen, bad, None, None)
        if bool(st["traceback"]) != bool(bad):
            raise Violation("status-error", "%d rows failed, error recorded: %s" % (len(bad), bool(st["traceback"])))
        return
    if r["outcome"] != "return":
        raise Violation("raise", "generation failed without a fault: %s %s" % (r["outcome"], (r["exc"] or {}).get("tb")))
    for k, v in enumerate(r["value"]):
        check_table(ctx, scen, k, want[k], v["files"], v["failures"], v["result"], v["message"])


def check_table(ctx, scen, k, want, files, failures, result, msg):
    c, d = csvs(scen)[k]
    outs = [o for _, o, _ in want if o]
    nbad = len(want) - len(outs)
    if files != outs:
        raise Violation("files", "files returned %s, expected %s" % (files, outs))
    if len(failures) != nbad:
        raise Violation("failures", "%d failures recorded for %d unsupported rows" % (len(failures), nbad))
    bad = [row for row, o, _ in want if not o]
    for f, row in zip(failures, bad):
        if not f.get("error") or not f.get("comment"):
            raise Violation("failures", "failure without error: %s" % f)
        if not row["template"].endswith(".sdu") and row["template"] not in f["comment"]:
            raise Violation("failures", "failure %s does not name template %s" % (f, row["template"]))
    if result is not None:
        if result != ("error" if nbad else "success"):
            raise Violation("result", "result %r with %d failures" % (result, nbad))
        if proto.counts(msg["comment"]) != [len(outs), len(want)]:
            raise Violation("counts", "message %r, generated %d of %d" % (msg["comment"], len(outs), len(want)))
        if nbad and proto.counts(msg["error"]) != [nbad, len(want)] or (not nbad and msg["error"]):
            raise Violation("counts", "error message %r, failed %d of %d" % (msg["error"], nbad, len(want)))
    snap = {p: b for p, b in util.snapshot(ctx.root, content=True).items() if b is not None and p.startswith(d + "/")}
    names = [p for p in snap if p.startswith(d + "/names/")]
    if len(names) != 1:
        raise Violation("names", "%d names lists" % len(names))
    got = snap.pop(names[0]).decode().split()
    exp = ["%s_%06d_" % (row["project_name"], row["seq_num"]) for row, o, _ in want if o]
    if got != exp:
        raise Violation("names", "names list %s, expected %s" % (got, exp))
    expect = {}
    for row, o, f in want:
        for p, b in f.items():
            if expect.setdefault(p, b) != b:
                if snap.get(p) in (b, expect[p]):
                    raise Violation("waveform-shared", "rows of one table give different content for %s; only one is left" % p)
    if sorted(snap) != sorted(expect):
        raise Violation("tree", "files in the output directory: unexpected %s, missing %s"
                        % (sorted(set(snap) - set(expect))[:4], sorted(set(expect) - set(snap))[:4]))
    for p, b in expect.items():
        if snap[p] != b:
            raise Violation("row-differs", "%s differs from the same row generated on its own (%s)" % (p, first_diff(b, snap[p])))
    ctx.probe("rows", len(want))


def first_diff(a, b):
    la, lb = a.splitlines(), b.splitlines()
    for x, y in zip(la, lb):
        if x != y:
            return "%r, alone %r" % (y[:100], x[:100])
    return "%d lines, alone %d" % (len(lb), len(la))
