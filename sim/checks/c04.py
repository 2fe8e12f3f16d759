"""C04 The feature matrix holds exactly the features that were created."""
from .. import batch, feat, util
from ..runner import Violation
from . import c03

ID = "C04"
RUNS = (140, 2600)
RULE = ("each seed draws 1-4 structured files and 1-5 featurizers (some inapplicable or failing), with and without "
        "intermediates, runs the real featurize command fault-free and then with I/O errors, full disks, torn writes, "
        "allocation failures and crashes at operations of the recorded history; matrix and intermediates on disk are reloaded "
        "in a new process and compared value by value with each featurizer on each file alone")
ASSUME = ["a library call of the featurizer on the file in a fresh fault-free process gives the expected values"]


def gen(ctx, rng, i):
    scen = feat.gen(rng, damage_p=0.12)
    if rng.random() < 0.3:
        scen["opts"]["inter"] = True
    if rng.random() < 0.15:
        scen["old"] = 1
        scen["opts"]["out"] = True
    yield scen
    # an input named twice has one entry, that of its last use: its first use is only observable without faults
    scen = dict(scen, dups=[])
    yield from c03.faulted(ctx, rng, scen, 3, crash=0.25, matrix=True, prep=put_old)


def put_old(ctx, scen):
    if scen.get("old"):
        ctx.write({"/sim/out/matrix.json.gz": old_matrix(ctx)})


def old_matrix(ctx):
    s = {"id": 99, "raw": {"kind": "arbin", "seed": 3, "cycles": 3, "rows": 7, "cap": 1.02, "dt": 60.0, "fade": 0.0, "meta": 1},
         "res": 4, "gz": True, "noraw": True}
    sc = {"files": [s], "feats": [{"name": "sim.simfeats.SimMean", "hp": None}],
          "opts": {"out": True, "outdir": False, "inter": False}}
    from .. import proc
    mats = feat.materialise(ctx, sc)
    r = ctx.solo(mats[0][1], proc.cli, (feat.command(sc, mats),), keep="all")
    return r["fs"].get("/sim/out/matrix.json.gz", b"{}")


def load(ctx, path):
    v = ctx.run(feat.lib_load_matrix, (path,), count=False)
    return v["value"] if v["outcome"] == "return" else "does not load: " + (v["exc"] or {}).get("msg", v["outcome"])


def execute(ctx, scen):
    mats = feat.materialise(ctx, scen)
    put_old(ctx, scen)
    lines = feat.feat_lines() if scen.get("lines") else None
    r = feat.run_cli(ctx, scen, mats, scen.get("faults", ()), lines)
    feats = feat.effective(scen)
    refs = {}
    for j, (m, _) in enumerate(mats):
        for f in feats:
            refs[(m, feat.fclass(f["name"]).__name__, repr(util.jsonish(feat.full_hp(f))))] = feat.ref(ctx, mats[j], f)
    mpath = "/sim/out/matrix.json.gz"
    if r["outcome"] != "exit" or r["code"] != 0:
        if not r["fired"]:
            raise Violation("exit", "featurizing failed without a fault: " + batch.exit_desc(r))
        ctx.probe("aborted")
        # what a crash leaves behind is unloadable, the older matrix, or right
        if util.exists(ctx.root, mpath):
            if scen.get("old") and util.rd(ctx.root, mpath) == old_matrix(ctx):
                return
            got = load(ctx, mpath)
            if not isinstance(got, str):
                want = {k: w["features"] for k, w in refs.items() if w["featurized"]}
                d = feat.match_matrix(got, want)
                if d and not [f for f in r["fired"] if f[1] not in ("crash", "crash-torn", "short")]:
                    raise Violation("crash-content", "after a crash %s loads with different content: %s" % (mpath, d))
                ctx.probe("crash-complete")
        return
    st = batch.load_status(ctx)
    if st is None:
        raise Violation("no-status", "no status report written")
    good, inter, dup_combo = {}, {}, bool(scen.get("dups"))
    for m, _ in mats:
        for f, g in zip(feats, st["files"][m]["featurizers"]):
            key = (m, feat.fclass(f["name"]).__name__, repr(util.jsonish(feat.full_hp(f))))
            if g["featurized"]:
                if not refs[key]["featurized"]:
                    raise Violation("changed", "%s is reported as featurized, alone it fails: %s" % (key, refs[key]["error"]))
                dup_combo = dup_combo or key in good
                good[key] = refs[key]["features"]
            if g["output"] is not None:
                inter.setdefault(g["output"], []).append((key, g))
            elif g["subop_md5_chksum"] is not None:
                raise Violation("md5", "%s: checksum of no file" % (key,))
            elif g["featurized"] and scen["opts"]["inter"] and not g["traceback"]:
                raise Violation("no-intermediate", "%s: no intermediate file named, though one was requested" % (key,))
    fm = st["feature_matrix"]
    if not fm["created"]:
        if fm["output"] is not None or not fm["traceback"]:
            raise Violation("matrix-entry", "matrix not created, but output %s, error %s" % (fm["output"], fm["traceback"]))
        two = [k for k, v in good.items() if any(len(c) != 1 for c in v.values())]
        if good and not dup_combo and not two and not r["fired"]:
            raise Violation("not-created", "no matrix although every featurized combination can be joined: %s"
                            % batch.tb_type(fm["traceback"]))
        ctx.probe("no-matrix")
    else:
        o = fm["output"]
        if fm["traceback"]:
            raise Violation("matrix-entry", "matrix created with an error")
        if scen["opts"]["out"] and o != mpath:
            raise Violation("matrix-name", "matrix written to %s, requested %s" % (o, mpath))
        if not util.exists(ctx.root, o):
            raise Violation("matrix-missing", "matrix reported as created, but %s does not exist" % o)
        got = load(ctx, o)
        if isinstance(got, str):
            raise Violation("matrix-unloadable", "matrix %s is reported as created but %s" % (o, got))
        d = feat.match_matrix(got, good)
        if d:
            raise Violation("matrix", "matrix differs from the features created: %s" % d)
        d = stored(util.loads_any(util.rd(ctx.root, o)), got)
        if d:
            raise Violation("matrix-stored", "the matrix stored in %s differs from the one it reloads to: %s" % (o, d))
        ctx.probe("matrix")
    if inter:
        for p, l in inter.items():
            if len(l) > 1 and not scen.get("dups"):
                raise Violation("intermediate-shared", "%s is named as the intermediate of %s" % (p, [k for k, _ in l]))
            if not util.exists(ctx.root, p):
                raise Violation("intermediate-missing", "%s does not exist" % p)
        got = ctx.run(feat.lib_load_inter, (sorted(inter),), count=False)["value"]
        for p, l in inter.items():
            for key, g in l:
                x = got[p]
                if isinstance(x, str):
                    raise Violation("intermediate-unloadable", "%s of %s: %s" % (p, key, x))
                if g["subop_md5_chksum"] is None:
                    if not g["traceback"]:
                        raise Violation("intermediate-md5", "%s: no checksum and no error" % p)
                elif g["subop_md5_chksum"] != util.md5(util.rd(ctx.root, p)):
                    raise Violation("intermediate-md5", "%s: checksum is not that of the file" % p)
                if (x["file"], x["cls"], repr(x["hp"])) != key and \
                        (x["file"], x["cls"], sorted(x["hp"])) != (key[0], key[1], sorted(eval(key[2]))):
                    raise Violation("intermediate", "%s is the intermediate of %s but holds %s" % (p, key, x))
                if util.diff(eval(key[2]), x["hp"]):
                    raise Violation("intermediate", "%s holds hyperparameters %s, expected %s" % (p, x["hp"], key[2]))
                d = util.diff(refs[key]["features"], x["features"])
                if d:
                    raise Violation("intermediate", "features in %s differ from those of %s: %s" % (p, key, d))
        ctx.probe("intermediates", len(inter))


def stored(doc, got):
    """the table written to disk agrees with the reloaded one"""
    m = doc.get("matrix")
    if not isinstance(m, dict):
        return []
    out = []
    if sorted(m) != sorted(got["cols"]):
        return ["columns"]
    for c in m:
        a = ["NaN" if v is None or v != v else v for v in m[c]]
        if util.diff(a, got["cols"][c]) and not all(x == y for x, y in zip(a, got["cols"][c])):
            out.append(c)
    return out[:3]
