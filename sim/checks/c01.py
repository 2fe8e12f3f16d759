"""C01 One bad file never spoils the rest of a structuring batch."""
from .. import batch, faults, util
from ..runner import Violation

ID = "C01"
RUNS = (64, 1600)
RULE = ("each seed draws a batch of 2-5 raw files of six cycler formats (about 30% damaged at rest) and structuring "
        "options, runs the real command in a simulated process fault-free, then again with 1-3 faults placed on operations "
        "of the recorded history (I/O errors, torn/short transfers, full output disk, allocation failures inside the "
        "structuring code); every entry and output is compared with the same file processed alone")
ASSUME = ["an I/O fault on a file's own paths may make that file fail, never another one"]


def gen(ctx, rng, i):
    n = rng.randint(2, 5)
    scen = {"files": [dict(batch.gen_spec(rng, j, 0.3), id=j) for j in range(n)], "opts": batch.gen_opts(rng), "faults": [],
            "knobs": {"bufsize": rng.choice([128, 512, 8192]), "dirsalt": rng.randrange(4)}, "_shrink": ["files"]}
    if rng.random() < 0.15:
        scen["dups"] = [rng.randrange(n)]
    yield scen
    # scout
    ctx.reset()
    mats = batch.materialise(scen)
    lines = batch.struct_lines() if rng.random() < 0.6 else None
    r = batch.run_cli(ctx, scen, mats, lines=lines, count=False)
    own = set()
    for j, (m, fs) in enumerate(mats):
        own |= set(fs) | {batch.outpath_of(scen, mats, j)}
    for _ in range(3):
        s = dict(scen)
        fl = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            if x < 0.12:
                d = "/sim/out" if scen["opts"]["out"] != "cwd" else "/sim/w"
                t = faults.pick_op(rng, r["trace"], own, ("write", "open:w"))
                if t and d == "/sim/out":
                    fl.append({"kind": t[0], "path": t[1], "nth": t[2], "do": "ENOSPC", "sticky": 1, "prefix": d,
                               "kinds": ["write", "open:w"]})
                    continue
            if x < 0.4 and lines:
                f = faults.line_fault(rng, r, "memory")
            else:
                f = faults.io_fault(rng, r["trace"], own, extra=("memory",))
            if f:
                fl.append(f)
        if not fl:
            continue
        s["faults"] = fl
        s["lines"] = bool(lines)
        yield s


def execute(ctx, scen):
    mats = batch.materialise(scen)
    lines = batch.struct_lines() if scen.get("lines") else None
    r = batch.run_cli(ctx, scen, mats, scen.get("faults", ()), lines)
    if r["outcome"] != "exit" or r["code"] != 0:
        raise Violation("exit", "batch command did not exit successfully although only single files failed: "
                        + batch.exit_desc(r))
    st = batch.load_status(ctx)
    if st is None:
        raise Violation("no-status", "no status report written")
    names = [m for m, _ in mats]
    if sorted(st["files"]) != sorted(set(names)):
        raise Violation("report-keys", "report lists %s, inputs are %s" % (sorted(st["files"]), sorted(set(names))))
    deviating = []
    for j, (m, fs) in enumerate(mats):
        want, wout = batch.alone(ctx, scen, mats, j)
        e = st["files"][m]
        got = batch.entry_key(e)
        got.pop("processed_md5_chksum")
        ok = e["structured"] if not scen["opts"].get("validation_only") else e["validated"]
        if not ok and not e["traceback"]:
            raise Violation("no-error", "%s did not succeed but its entry carries no error: %s" % (m, got))
        bad = util.diff(util.canon_dict(want), util.canon_dict(got))
        if not bad and wout is not None:
            try:
                o = batch.norm_json(util.rd(ctx.root, batch.outpath_of(scen, mats, j)))
                bad = util.diff(util.canon_dict(wout), util.canon_dict(o), "output")
            except (OSError, ValueError, EOFError) as ex:
                bad = ["output unreadable: %r" % ex]
        if bad:
            deviating.append((j, m, bad, e))
    fired = [f for f in r["fired"] if f[1] not in ("short",)]
    sticky = any(scen["faults"][f[0]].get("sticky") for f in fired) if fired else False
    if scen.get("faults"):
        ctx.probe("faulty")
    for (j, m, bad, e) in deviating:
        ctx.probe("deviating")
        if not e["traceback"]:
            raise Violation("changed", "%s: entry/output differs from processing it alone: %s" % (m, bad))
        own = set(mats[j][1]) | {batch.outpath_of(scen, mats, j)}
        blame = [f for f in fired if f[2] == "line" or f[2] in own or scen["faults"][f[0]].get("sticky")]
        if not blame:
            raise Violation("spoiled", "%s failed in the batch (%s) though nothing went wrong with it: faults hit %s; differs: %s"
                            % (m, batch.tb_type(e["traceback"]), sorted({f[2] for f in fired}), bad))
    if not sticky and len(deviating) > len({f[0] for f in fired}):
        raise Violation("spread", "%d faults made %d files deviate: %s" % (len(fired), len(deviating),
                                                                         [d[1] for d in deviating]))
