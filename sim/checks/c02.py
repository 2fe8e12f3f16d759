"""C02 Structuring reports success only for complete, matching outputs."""
from .. import batch, faults, util
from ..runner import Violation

ID = "C02"
RUNS = (72, 2000)
RULE = ("each seed draws a batch of 1-4 raw files (damaged at rest in 20%, some with equal base names or equal output names, "
        "some output paths already holding an older result), runs the real structuring command fault-free, then with I/O "
        "faults, full disks, allocation failures and crashes (also torn mid-write) at operations of the recorded history; "
        "whatever is on disk afterwards is reloaded in a new process and compared with the library's result for that raw file")
ASSUME = ["the library result of auto_load/validate/structure in a fresh fault-free process is the expected data"]


def gen(ctx, rng, i):
    n = rng.randint(1, 4)
    scen = {"files": [dict(batch.gen_spec(rng, j, 0.2), id=j) for j in range(n)], "opts": batch.gen_opts(rng), "faults": [],
            "knobs": {"bufsize": rng.choice([64, 512, 8192]), "dirsalt": rng.randrange(4)}, "_shrink": ["files"]}
    if scen["opts"].get("validation_only") and rng.random() < 0.7:
        del scen["opts"]["validation_only"]
    x = rng.random()
    if n > 1 and x < 0.2:        # same base name in another directory
        a, b = rng.sample(range(n), 2)
        if "name" not in scen["files"][a] and scen["files"][a]["kind"] == scen["files"][b]["kind"]:
            scen["files"][b]["id"] = scen["files"][a]["id"]
            scen["files"][b]["dir"] = "/sim/in/other"
            scen["files"][b].pop("name", None)
    elif n > 1 and x < 0.3 and scen["opts"]["out"].startswith("names"):
        scen["clash"] = rng.sample(range(n), 2)
    if rng.random() < 0.15:
        scen["dups"] = [rng.randrange(n)]
    if rng.random() < 0.3:
        scen["old"] = [rng.randrange(n)]
    if i % 12 == 7:
        batch.enlarge(rng, rng.choice(scen["files"]))
        scen["knobs"]["bufsize"] = 8192
    yield scen
    ctx.reset()
    mats = batch.materialise(scen)
    put_old(ctx, scen, mats)
    lines = batch.struct_lines() if rng.random() < 0.4 else None
    r = batch.run_cli(ctx, scen, mats, lines=lines, count=False, args=command(scen, mats))
    outs = {outpath(scen, mats, j) for j in range(n)}
    ins = {p for _, fs in mats for p in fs}
    for _ in range(4):
        fl = []
        for _ in range(rng.choice([1, 1, 2])):
            y = rng.random()
            if y < 0.35:
                f = faults.crash_fault(rng, r["trace"], outs if rng.random() < 0.7 else None)
            elif y < 0.45 and lines:
                f = faults.line_fault(rng, r, "memory")
            elif y < 0.85:
                f = faults.io_fault(rng, r["trace"], outs)
            else:
                f = faults.io_fault(rng, r["trace"], ins)
            if f:
                if f["do"] == "ENOSPC" and rng.random() < 0.5:
                    f.update(sticky=1, prefix="/sim/out" if f["path"].startswith("/sim/out") else f["path"],
                             kinds=["write", "open:w"])
                fl.append(f)
        if fl:
            yield dict(scen, faults=fl, lines=bool(lines))


def outpath(scen, mats, j):
    c = scen.get("clash")
    if c and max(c) < len(mats) and j == c[1]:
        j = c[0]
    return batch.outpath_of(scen, mats, j)


def command(scen, mats):
    a = batch.command(scen, mats)
    c = scen.get("clash")
    if c and max(c) < len(mats):
        a = [batch.outpath_of(scen, mats, c[0]) if x == batch.outpath_of(scen, mats, c[1]) else x for x in a]
    return a


def put_old(ctx, scen, mats):
    for j in scen.get("old", []):
        if j < len(mats):
            ctx.write({outpath(scen, mats, j): old_content(ctx)})


def old_content(ctx):
    """an older, valid structured file of another cell"""
    from .. import rawgen, proc
    spec = {"kind": "arbin", "seed": 4242, "cycles": 2, "rows": 7, "cap": 1.02, "dt": 60.0}
    m, fs = rawgen.build(spec, 77)
    r = ctx.solo(fs, proc.cli, (["structure", "-r", "4", "-o", "/sim/out/old.json", m],), keep="all")
    return r["fs"].get("/sim/out/old.json", b"{}")


def execute(ctx, scen):
    mats = batch.materialise(scen)
    put_old(ctx, scen, mats)
    lines = batch.struct_lines() if scen.get("lines") else None
    r = batch.run_cli(ctx, scen, mats, scen.get("faults", ()), lines, args=command(scen, mats))
    opts = scen["opts"]
    refs = [batch.lib_ref(ctx, fs, m, opts) for m, fs in mats]
    outs = [outpath(scen, mats, j) for j in range(len(mats))]
    present = [o for o in sorted(set(outs)) if util.exists(ctx.root, o)]
    got = {}
    if present:
        got = ctx.run(batch.lib_reload_many, (present,), count=False)
        if got["outcome"] != "return":
            raise Violation("reload", "reloading %s ended with %s" % (present, batch.exit_desc(got)))
        got = got["value"]
    want = []
    for ref in refs:
        w = None
        if ref["structured"]:
            w = dict(ref["data"])
            if opts.get("no_raw"):
                w["raw_data"] = None
        want.append(w)
    old = util.md5(old_content(ctx)) if scen.get("old") else None
    # whatever lies at an output path either does not load or is a complete, right result
    for o in present:
        if isinstance(got[o], str):
            continue
        if old and util.md5(util.rd(ctx.root, o)) == old and any(outs[j] == o for j in scen["old"] if j < len(outs)):
            continue
        ds = [util.diff(w, got[o]) for j, w in enumerate(want) if outs[j] == o and w is not None]
        if not any(not d for d in ds):
            raise Violation("wrong-content", "%s reloads as a complete result, but differs from structuring its raw file: %s\n%s"
                            % (o, ds[:1] or "raw file cannot be structured", batch.exit_desc(r)))
    if r["outcome"] != "exit" or r["code"] != 0:
        if not r["fired"]:
            raise Violation("exit", "command failed without a fault: " + batch.exit_desc(r))
        ctx.probe("aborted")
        return
    st = batch.load_status(ctx)
    if st is None:
        raise Violation("no-status", "no status report written")
    claimed = {}
    for j, (m, fs) in enumerate(mats):
        e = st["files"].get(m)
        if e is None:
            raise Violation("report-keys", "%s missing in report" % m)
        ref = refs[j]
        if e["raw_md5_chksum"] is not None and e["raw_md5_chksum"] != util.md5(util.rd(ctx.root, m)):
            raise Violation("raw-md5", "%s: raw checksum is not that of the file" % m)
        if e["validated"] and not ref["valid"]:
            raise Violation("false-valid", "%s: marked validated, but it is not valid" % m)
        if e["validation_schema"] is not None and e["validation_schema"] != ref["schema"]:
            raise Violation("schema", "%s: schema %s recorded, %s used" % (m, e["validation_schema"], ref["schema"]))
        if not e["structured"]:
            if e["output"] is not None or e["processed_md5_chksum"] is not None:
                raise Violation("false-output", "%s: not structured, but entry names an output: %s" % (m, e))
            if not r["fired"] and ref["structured"] and not opts.get("validation_only") and \
                    outs.count(outs[j]) == 1 and not saved_unserialisable(mats[j], e):
                raise Violation("not-structured", "%s: structuring it works, but it is reported as failed: %s"
                                % (m, (e["traceback"] or ["?"])[-1]))
            continue
        ctx.probe("structured")
        if opts.get("validation_only"):
            raise Violation("structured-on-validation", "%s marked structured with --validation-only" % m)
        if want[j] is None:
            raise Violation("false-success", "%s marked structured, but structuring it fails (%s)" % (m, ref.get("error")))
        o = e["output"]
        if o != outs[j]:
            raise Violation("output-name", "%s: output %s recorded, requested %s" % (m, o, outs[j]))
        if claimed.setdefault(o, m) != m:
            raise Violation("shared-output", "%s is reported as the output of both %s and %s" % (o, claimed[o], m))
        if o not in got:
            raise Violation("no-output", "%s marked structured, but %s does not exist" % (m, o))
        if isinstance(got[o], str):
            raise Violation("unloadable", "%s marked structured, but %s does not load: %s" % (m, o, got[o]))
        d = util.diff(want[j], got[o])
        if d:
            raise Violation("content", "%s marked structured, but %s differs from its result: %s" % (m, o, d))
        if not e["raw_md5_chksum"]:
            raise Violation("raw-md5", "%s structured without a raw checksum" % m)
        if e["processed_md5_chksum"] is None:
            if not e["traceback"]:
                raise Violation("md5", "%s structured without output checksum or error" % m)
        elif e["processed_md5_chksum"] != util.md5(util.rd(ctx.root, o)):
            raise Violation("md5", "%s: output checksum is not that of %s" % (m, o))
        p = util.diff(ref["params"], util.jsonish(e["structuring_parameters"]))
        if p:
            raise Violation("params", "%s: parameters recorded differ from those used: %s" % (m, p))


def saved_unserialisable(mat, e):
    """a result that cannot be represented as JSON is refused (bytes in BioLogic metadata)"""
    return bool(e["traceback"]) and batch.tb_type(e["traceback"]) == "TypeError"
