"""C03 One bad file or featurizer never spoils the rest of a featurizing batch."""
from .. import batch, faults, feat, util
from ..runner import Violation

ID = "C03"
RUNS = (110, 1800)
RULE = ("each seed draws 1-4 structured files (some damaged, unstructured or missing), 1-5 featurizers with hyperparameters "
        "(core and custom ones, some inapplicable or failing), runs the real featurize command fault-free and then with I/O "
        "errors on inputs and outputs and allocation failures inside featurizers or loading; every entry is compared with the "
        "same featurizer on the same file alone in a fresh process")
ASSUME = ["an I/O fault on a file's own paths may fail that file or combination, never another one"]


def gen(ctx, rng, i):
    scen = feat.gen(rng)
    yield scen
    yield from faulted(ctx, rng, scen, 3)


def faulted(ctx, rng, scen, n, crash=0.0, matrix=False, prep=None):
    ctx.reset()
    if prep:
        prep(ctx, scen)
    mats = feat.materialise(ctx, scen)
    lines = feat.feat_lines() if rng.random() < 0.5 else None
    r = feat.run_cli(ctx, scen, mats, lines=lines, count=False)
    ins = {p for _, fs in mats for p in fs}
    mo = matrix_out(r)
    outs = {t[1] for t in r["trace"] if t[0] == "open:w" and t[1] not in (feat.STATUS,) and (matrix or t[1] != mo)}
    for _ in range(n):
        fl = []
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.random()
            if x < crash:
                f = faults.crash_fault(rng, r["trace"], outs or None)
            elif x < crash + 0.35 and lines:
                f = faults.line_fault(rng, r, "memory")
            elif outs and rng.random() < 0.5:
                f = faults.io_fault(rng, r["trace"], outs)
            else:
                f = faults.io_fault(rng, r["trace"], ins, extra=("memory",))
            if f:
                fl.append(f)
        if fl:
            yield dict(scen, faults=fl, lines=bool(lines))


def matrix_out(r):
    for t in reversed(r["trace"]):
        if t[0] == "open:w" and t[1] != feat.STATUS:
            return t[1]
    return None


def execute(ctx, scen):
    mats = feat.materialise(ctx, scen)
    lines = feat.feat_lines() if scen.get("lines") else None
    r = feat.run_cli(ctx, scen, mats, scen.get("faults", ()), lines)
    if r["outcome"] != "exit" or r["code"] != 0:
        raise Violation("exit", "featurizing did not exit successfully although only single files or featurizers failed: "
                        + batch.exit_desc(r))
    st = batch.load_status(ctx)
    if st is None:
        raise Violation("no-status", "no status report written")
    if sorted(st["files"]) != sorted({m for m, _ in mats}):
        raise Violation("report-keys", "report lists %s, inputs are %s" % (sorted(st["files"]), sorted({m for m, _ in mats})))
    feats = feat.effective(scen)
    fired = [f for f in r["fired"] if f[1] != "short"]
    dev = []
    good = {}
    for j, (m, fs) in enumerate(mats):
        e = st["files"][m]
        refs = [feat.ref(ctx, mats[j], f) for f in feats]
        own = set(fs) | {m}
        if not e["featurizers"]:
            if not e.get("traceback"):
                raise Violation("no-error", "%s has no featurizer results and no error" % m)
            if refs[0]["loaded"]:
                dev.append((m, None, "file failed: %s" % batch.tb_type(e["traceback"]), own))
            continue
        if e.get("traceback"):
            raise Violation("entry", "%s has an error and results" % m)
        if not refs[0]["loaded"]:
            raise Violation("loaded", "%s cannot be loaded, but its entry shows featurizer results" % m)
        if len(e["featurizers"]) != len(feats):
            raise Violation("entry", "%s: %d results for %d featurizers" % (m, len(e["featurizers"]), len(feats)))
        for f, w, g in zip(feats, refs, e["featurizers"]):
            nm = feat.fclass(f["name"]).__name__
            what = "%s on %s" % (nm, m)
            if g["featurizer_name"] != nm:
                raise Violation("entry", "%s: result is named %s" % (what, g["featurizer_name"]))
            d = util.diff(util.jsonish(feat.full_hp(f)), util.jsonish(g["hyperparameters"]))
            if d:
                raise Violation("hyperparameters", "%s: hyperparameters reported differ: %s" % (what, d))
            if not g["featurized"] and not g["traceback"]:
                raise Violation("no-error", "%s did not succeed but carries no error" % what)
            if g["featurized"] and not w["featurized"]:
                raise Violation("changed", "%s: succeeded in the batch, alone it fails (%s)" % (what, w["error"]))
            if g["featurized"] and not g["valid"]:
                raise Violation("entry", "%s: featurized but not valid" % what)
            if g["featurized"]:
                good[(m, nm, repr(util.jsonish(feat.full_hp(f))))] = w["features"]
            if g["featurized"] == w["featurized"] and g["valid"] == w["valid"]:
                err = batch.tb_type(g["traceback"]) if g["traceback"] else None
                if g["featurized"] and err:
                    # only saving the intermediate failed
                    dev.append((m, nm, "saving failed: " + err, own | inter_paths(scen, m)))
                elif not g["featurized"] and err.split(".")[-1] != w["error"]:
                    dev.append((m, nm, "error %s, alone %s" % (err, w["error"]), own))
            else:
                dev.append((m, nm, "valid=%s featurized=%s (%s), alone %s/%s" % (
                    g["valid"], g["featurized"], batch.tb_type(g["traceback"]) if g["traceback"] else None, w["valid"],
                    w["featurized"]), own))
    if dev:
        ctx.probe("deviating")
    for m, nm, why, own in dev:
        if not [f for f in fired if f[2] == "line" or f[2] in own]:
            raise Violation("spoiled", "%s on %s: %s, though nothing went wrong with it (faults hit %s)"
                            % (nm or "all featurizers", m, why, sorted({f[2] for f in fired})))
    if len(dev) > len({f[0] for f in fired}):
        raise Violation("spread", "%d faults made %d results deviate: %s" % (len(fired), len(dev), dev))
    fm = st["feature_matrix"]
    if fm["created"] and fm["output"]:
        v = ctx.run(feat.lib_load_matrix, (fm["output"],), count=False)
        if v["outcome"] == "return":
            got = v["value"]
            # only the values of successful combinations matter here
            d = feat.match_matrix(got, good) if set(got["index"]) == {k[0] for k in good} else []
            if d and any("alone" in x for x in d):
                raise Violation("values", "values in the batch differ from processing alone: %s" % d)
            ctx.probe("matrix")


def inter_paths(scen, m):
    """every path an intermediate of this file may have been written to"""
    import os
    b = os.path.basename(m)

    class P(set):
        def __contains__(self, p):
            return isinstance(p, str) and p.endswith(b) and p != m
        def __or__(self, o):
            return self
        __ror__ = __or__
    return P()
