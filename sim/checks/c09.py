"""C09 Saved features, matrices, splits and models reload to the same answers."""
import json
import random

from .. import batch, core, faults, feat, ml, rawgen, util
from ..runner import Violation
from .c08 import cut

ID = "C09"
RUNS = (150, 5000)
CAP = (150, 3000)
RULE = ("each seed draws a featurizer with its result, a feature matrix, a splitter with its data sets or a model trained in any "
        "mode (all data, fraction, given subset; one or two targets; any imputation, thresholds, homogenised or not), saves it "
        "undisturbed and under write errors, full disk, torn writes, allocation failures and crashes; new simulated processes "
        "reload it by every loader, compare it by value, use both copies further (joining, splitting, predicting, retraining), "
        "save and reload it again, and load copies with a lost or zeroed tail")
ASSUME = ["hyperparameters, metadata and feature values are JSON-representable; column names within one table are distinct"]
LINES = [core.REPO + "/beep/features/base.py", core.REPO + "/beep/model.py", core.REPO + "/beep/prediction/"]
KINDS = ["model", "splitter", "matrix", "featurizer", "model", "dataset"]
VALS = [1.5, -0.0, 3, 1e-300, None, "inf", "-inf", True, 12345678901234567, "text caf\u00e9", 0.1 + 0.2]
TAGS = ["a", "caf\u00e9 \"q\"", 7, 2.5, None, True, [1, [2, 3]], {"k": {"z": 1, "a": None}}]


def gen_any(rng, file, n):
    f = {"file": "/data/cell_%02d_structured.json" % file, "tag": rng.choice(TAGS), "n": n,
         "vals": [rng.choice(VALS) for _ in range(rng.randint(1, 4))], "prefix": rng.choice(["f", "\u0394Q var", "a::b", "f g"])}
    if rng.random() < 0.3:
        f["opts"] = {"x": [rng.randrange(5)], "y": {"b": 2, "a": 1}}
    return f


def gen(ctx, rng, i):
    k = KINDS[i % len(KINDS)]
    scen = {"kind": k, "path": "/sim/out/a.json" + rng.choice(["", ".gz"]), "path2": "/sim/out/b.json" + rng.choice(["", ".gz"]),
            "loader": rng.choice(["class", "loadfn"]), "old": rng.random() < 0.3, "faults": [], "lines": False,
            "knobs": {"bufsize": rng.choice([64, 512, 8192])}}
    if k == "featurizer":
        if rng.random() < 0.5:
            scen["sfile"] = feat.gen_file(rng, 0, 0)
            scen["sfile"].pop("dir", None)
            scen["feat"] = feat.gen_diag_feat(rng) if scen["sfile"].get("raw", {}).get("kind") == "diag" else rng.choice([
                {"name": "sim.simfeats.SimMean", "hp": {"column": "charge_capacity", "scale": 2.0, "opts": {"power": 2}}},
                {"name": "CycleSummaryStats", "hp": {"cycle_comp_num": [0, 2]}},
                {"name": "TrajectoryFastCharge", "hp": None}, {"name": "DiagnosticProperties", "hp": None}])
            p = feat.name_of(scen["sfile"])
            mat = (p, dict({p: feat.content(ctx, scen["sfile"])}, **feat.halves(scen["sfile"])))
            if not feat.ref(ctx, mat, scen["feat"])["featurized"]:
                scen["feat"] = {"name": "sim.simfeats.SimMean", "hp": {}}
        else:
            scen["any"] = [gen_any(rng, 0, 0)]
    elif k == "matrix":
        if rng.random() < 0.4:
            scen["spec"] = ml.gen_spec(rng)
        else:
            scen["any"] = []
            for f in range(rng.randint(1, 3)):
                for n in range(rng.randint(1, 2)):
                    scen["any"].append(gen_any(rng, f, n))
            keys = set()
            scen["any"] = [a for a in scen["any"] if not (akey(a) in keys or keys.add(akey(a)))]
    else:
        scen["spec"] = ml.gen_spec(rng)
        if rng.random() < 0.2:
            scen["spec"]["inf"] = 1
        if k == "model":
            scen["opts"] = ml.gen_opts(rng)
            scen["mode"] = rng.choice(["all", "frac", "frac", "subset"])
            scen["opts"].pop("frac", None)
            scen["drop_nan"] = rng.random() < 0.6
            scen["pspecs"] = [dict(scen["spec"], n=rng.choice([1, 4, 9]), first=50, nan=rng.choice([0, 0.1, 0.4, 0.6]),
                                   extra=rng.choice([0, 0, 2]), scale=rng.choice([1.0, 2.0])) for _ in range(2)]
            scen["asdf"] = rng.random() < 0.4
            scen["seed"] = rng.randrange(1000)
        else:
            scen["split"] = {"n_splits": rng.choice([2, 3, 4]), "random_state": rng.choice([0, 10, 77]),
                             "impute_strategy": rng.choice(["median", "mean", "none"]),
                             "train_feature_drop_nan_thresh": rng.choice([0.2, 0.5, 0.75]),
                             "train_sample_drop_nan_thresh": rng.choice([0.3, 0.5, 0.8]),
                             "homogenize_features": rng.random() < 0.7}
            if rng.random() < 0.4:
                scen["split"]["split_columns"] = ["group"]
            if rng.random() < 0.4:
                scen["split"]["exclusion_columns"] = ["incl"] + (["incl2"] if rng.random() < 0.4 else [])
                scen["split"]["drop_split_threshold"] = rng.choice([0.2, 0.5, 0.9])
            scen["targets"] = rng.choice([["life"], ["life", "fade"]])
            scen["presplit"] = rng.random() < 0.5
    yield scen
    for _ in range(2):
        yield dict(scen, rest=[rng.choice(["cut", "cut", "zero", "empty"]), rng.choice([1, 2, 8, 9, 64, 0.1, 0.5, 0.9])],
                   loader=rng.choice(["class", "loadfn"]))
    ctx.reset()
    put(ctx, scen)
    lines = rng.random() < 0.4
    r = ctx.run(lib_save, (scen,), (), scen["knobs"], lines=LINES if lines else None, count=False)
    if r["outcome"] != "return" or not r["value"]["saved"]:
        return
    for _ in range(3):
        x = rng.random()
        fl = []
        for _ in range(rng.choice([1, 1, 2])):
            if x < 0.25:
                f = faults.crash_fault(rng, r["trace"], [scen["path"]])
            elif x < 0.5 and lines:
                f = faults.line_fault(rng, r, rng.choice(["memory", "interrupt"]), r["value"]["l0"], r["value"]["l1"])
            else:
                f = faults.io_fault(rng, r["trace"], [scen["path"]], kinds=("open:w", "write", "write", "close"))
            if f:
                fl.append(f)
        if fl:
            yield dict(scen, faults=fl, lines=lines)


def akey(a):
    return json.dumps([a["file"], a["tag"], a.get("opts")], sort_keys=True)


def ins_of(ctx, scen):
    fs = {}
    if scen.get("sfile"):
        fs[feat.name_of(scen["sfile"])] = feat.content(ctx, scen["sfile"])
        fs.update(feat.halves(scen["sfile"]))
    if scen["old"]:
        fs[scen["path"]] = old(ctx, scen)
    return fs


def old(ctx, scen):
    s = {"kind": "matrix", "spec": {"seed": 99, "n": 4, "k": 2}, "path": scen["path"], "old": False, "knobs": {}}
    return ctx.solo({}, lib_save, (s,), keep="all")["fs"][scen["path"]]


def put(ctx, scen):
    fs = ins_of(ctx, scen)
    ctx.write(fs)
    return fs


# ---------------------------------------------------------------- inside simulated processes
def val(v):
    return float(v) if v in ("inf", "-inf") else float("nan") if v is None else v


def make_any(a):
    import pandas as pd
    from ..simfeats import SimAny
    f = SimAny(None, {"tag": a["tag"], "opts": a.get("opts", {"x": [1, 2.5]})})
    f.features = pd.DataFrame({"%s%d" % (a["prefix"], j): [val(v)] for j, v in enumerate(a["vals"])})
    f.paths = {"structured": a["file"], "raw": None}
    f.metadata = {"barcode": "EL1", "protocol": None, "extra": {"k": [1]}}
    f.linked_semiunique_id = "id-%s" % a["file"]
    return f


def make_matrix(spec, what, pre="/sim/tmp/"):
    from beep.features.base import BEEPFeatureMatrix
    p = pre + "m.json"
    ml.lib_make(spec, what, p)
    m = BEEPFeatureMatrix.from_json_file(p)
    import os
    os.remove(p)
    return m


def split_matrix(spec):
    """features, targets, groups and inclusion flags in one matrix"""
    import pandas as pd
    from beep.features.base import BEEPFeatureMatrix
    from ..simfeats import SimMean, SimPick
    rows, tgt, order = ml.table(spec)
    rng = random.Random("grp%s" % spec["seed"])
    nan = float("nan")
    fs = []
    for s in order:
        f = SimMean(None, {"column": "c", "scale": 1.0, "opts": {"power": 1}})
        f.features = pd.DataFrame({"f%d" % j: [nan if v is None else v] for j, v in enumerate(rows[s])})
        g = SimPick(None, {"mode": "ok", "modulus": 2})
        g.features = pd.DataFrame({"life": [nan if tgt[s][0] is None else tgt[s][0]], "fade": [tgt[s][1]],
                                   "group": [float(rng.randrange(5))], "incl": [rng.random() < 0.8], "incl2": [rng.random() < 0.9]})
        for h in (f, g):
            h.paths = {"structured": s}
            fs.append(h)
    return BEEPFeatureMatrix(fs)


def make_splitter(scen):
    from beep.prediction.beep_data_splitter import BEEPDataSplitter
    m = split_matrix(scen["spec"])
    o = dict(scen["split"])
    cols = list(m.matrix.columns)

    def full(n):
        c = [c for c in cols if c.split("::")[0] == n][0]
        return "::".join(c.split("::")[:2]) if o["homogenize_features"] else c
    for k in ("split_columns", "exclusion_columns"):
        if k in o:
            o[k] = [full(n) for n in o[k]]
    return BEEPDataSplitter(feature_matrix=m, features=[full("f%d" % j) for j in range(scen["spec"]["k"])],
                            targets=[full(t) for t in scen["targets"]], **o)


def make_model(scen):
    import numpy as np
    from beep.model import BEEPLinearModelExperiment
    o = scen["opts"]
    kw = ml.lib_kwargs(o)
    kw["drop_nan_training_targets"] = scen["drop_nan"]
    b = BEEPLinearModelExperiment(feature_matrix=make_matrix(scen["spec"], "features"),
                                  target_matrix=make_matrix(scen["spec"], "targets"),
                                  targets=ml.target_names(o, None), model_name=o["model"], **kw)
    np.random.seed(scen["seed"])
    if scen["mode"] == "frac":
        b.train_and_score(0.7)
    elif scen["mode"] == "subset":
        n = max(4, len(b.X) // 2)
        b.train(b.X.iloc[:n], b.y.iloc[:n])
    else:
        b.train()
    return b


def make(scen):
    k = scen["kind"]
    if k == "featurizer":
        if scen.get("any"):
            return make_any(scen["any"][0])
        from beep.structure.cli import auto_load_processed
        dp = auto_load_processed(feat.name_of(scen["sfile"]))
        f = feat.fclass(scen["feat"]["name"])(dp, feat.full_hp(scen["feat"]))
        f.create_features()
        return f
    if k == "matrix":
        if scen.get("any"):
            from beep.features.base import BEEPFeatureMatrix
            return BEEPFeatureMatrix([make_any(a) for a in scen["any"]])
        return make_matrix(scen["spec"], "features")
    if k == "model":
        return make_model(scen)
    make_splitter(scen).split()            # saving splits: it must be possible
    s = make_splitter(scen)
    if scen["presplit"] or k == "dataset":
        s.split()
    return s.datasets[0] if k == "dataset" else s


def featv(f):
    return {"cls": type(f).__name__, "hp": util.jsonish(f.hyperparameters), "features": util.values(f.features),
            "paths": {k: v for k, v in f.paths.items() if k != "features"}, "metadata": util.jsonish(f.metadata),
            "id": f.linked_semiunique_id}


def matv(m):
    return {"index": [str(x) for x in m.matrix.index], "cols": util.values(m.matrix), "order": [str(c) for c in m.matrix.columns],
            "featurizers": [featv(f) for f in m.featurizers]}


def tab(x):
    """a table whose column order does not matter"""
    return {"index": [str(i) for i in x.index], "cols": util.values(x)}


def dsv(d):
    return {k: tab(getattr(d, k)) for k in ("train_X", "train_y", "test_X", "test_y")}


def state(k, o):
    if k == "featurizer":
        return featv(o)
    if k == "matrix":
        return matv(o)
    if k == "dataset":
        return dsv(o)
    if k == "splitter":
        return {"X": tab(o.X), "y": tab(o.y), "labels": list(o.feature_labels), "targets": list(o.targets),
                "fm": [featv(f) for f in o.feature_matrix.featurizers],
                "opts": util.jsonish([o.train_feature_drop_nan_thresh, o.train_sample_drop_nan_thresh,
                                      o.drop_nan_training_targets, o.impute_strategy, o.homogenize_features, o.n_splits,
                                      o.random_state, o.split_columns, o.exclusion_columns, o.drop_split_threshold, o.multi]),
                "datasets": None if o.datasets is None else [dsv(d) for d in o.datasets]}
    d = ml.model_values(o)
    d["dropnan"] = o.drop_nan_training_targets
    d["multi"] = o.multi
    d["fm"], d["tm"] = matv(o.feature_matrix), matv(o.target_matrix)
    return d


def further(scen, o):
    import numpy as np
    k = scen["kind"]
    out = {}

    def put(n, f):
        try:
            out[n] = util.jsonish(f())
        except (Exception, ml_error()) as e:
            out[n] = "error " + type(e).__name__
    if k == "featurizer":
        from beep.features.base import BEEPFeatureMatrix
        put("joined", lambda: [[str(x) for x in BEEPFeatureMatrix([o]).matrix.index], util.values(BEEPFeatureMatrix([o]).matrix)])
    elif k == "matrix":
        from beep.features.base import BEEPFeatureMatrix
        put("joined", lambda: matv(BEEPFeatureMatrix(list(o.featurizers))))
    elif k == "splitter":
        put("split", lambda: [dsv(d) for d in o.split()])
    elif k == "model":
        for j, p in enumerate(scen["pspecs"]):
            m = make_matrix(p, "features")
            for th in (None, 0.3):
                def pred(th=th, m=m):
                    if th is not None:
                        o.predict_sample_nan_thresh = th
                    y, dropped = o.predict(m.matrix if scen["asdf"] else m)
                    return [[str(i) for i in y.index], util.values(y), [str(d) for d in dropped]]
                old = o.predict_sample_nan_thresh
                put("pred%d-%s" % (j, th), pred)
                o.predict_sample_nan_thresh = old

        def again():
            np.random.seed(5)
            return o.train_and_score(0.7)[1:]
        put("score", again)
        put("retrain", lambda: [o.train()[1], o.model.coef_.tolist(), o.scaler.mean_.tolist()])
    return out


def ml_error():
    from beep.model import BEEPMLExperimentError
    return BEEPMLExperimentError


def save(k, o, path):
    from monty.serialization import dumpfn
    try:
        if k == "dataset":
            dumpfn(o.as_dict(), path)
        else:
            o.to_json_file(path)
        return True, None
    except Exception as e:
        return False, type(e).__name__


def lib_save(scen):
    k = scen["kind"]
    try:
        o = make(scen)
    except BaseException as e:
        if type(e).__name__ not in ("BEEPMLExperimentError", "BEEPDataSplitterError", "BEEPFeaturizationError", "ValueError",
                                    "LinAlgError", "IndexError", "TypeError", "KeyError", "AttributeError"):
            raise
        return {"saved": False, "unmade": type(e).__name__}
    if k in ("splitter", "dataset") and not (o.feature_labels if k == "splitter" else list(o.train_X.columns)):
        return {"saved": False, "unmade": "no features left"}
    out = {"l0": core.CUR.nlines, "state": state(k, o)}
    out["saved"], out["error"] = save(k, o, scen["path"])
    out["l1"] = core.CUR.nlines
    out["after"] = state(k, o)
    if not out["saved"]:
        out["resaved"], out["reerror"] = save(k, o, scen["path"])
        out["after2"] = state(k, o)
    if "pspecs" in scen or k != "model":
        out["further"] = further(scen, o)
    return out


def lib_load(scen, path, loader, path2):
    import importlib
    from monty.serialization import loadfn
    k = scen["kind"]
    out = {"error": None}
    try:
        if loader == "class" and k != "dataset":
            m, c = cls_of(scen)
            o = getattr(importlib.import_module(m), c).from_json_file(path)
        else:
            o = loadfn(path)
        if isinstance(o, (dict, list)):
            return {"error": "a plain document"}
    except BaseException as e:
        return {"error": "%s: %s" % (type(e).__name__, str(e)[:200])}
    out["type"] = type(o).__name__
    if out["type"] != cls_of(scen)[1]:
        return out
    out["state"] = state(k, o)
    if path2:
        out["saved2"], out["error2"] = save(k, o, path2)
        out["after"] = state(k, o)
        out["further"] = further(scen, o)
    return out


def cls_of(scen):
    k = scen["kind"]
    if k == "featurizer":
        if scen.get("any"):
            return "sim.simfeats", "SimAny"
        c = feat.fclass(scen["feat"]["name"])
        return c.__module__, c.__name__
    return {"matrix": ("beep.features.base", "BEEPFeatureMatrix"), "model": ("beep.model", "BEEPLinearModelExperiment"),
            "splitter": ("beep.prediction.beep_data_splitter", "BEEPDataSplitter"),
            "dataset": ("beep.prediction.beep_data_splitter", "BEEPDataset")}[k]


# ---------------------------------------------------------------- judgement
def execute(ctx, scen):
    fs = put(ctx, scen)
    k, path = scen["kind"], scen["path"]
    base = {x: y for x, y in scen.items() if x not in ("faults", "lines", "rest", "loader")}
    ref = ctx.solo(fs, lib_save, (base,), keep="all")
    if ref["outcome"] != "return":
        raise Violation("use", "making, saving or using a %s ended with %s" % (k, batch.exit_desc(ref)))
    R = ref["value"]
    if "unmade" in R:
        ctx.probe("unmade-" + k)
        return
    want = R["state"]
    if k == "splitter" and want["datasets"] is None:      # saving splits
        if R["after"]["datasets"] is None:
            raise Violation("save-split", "saving a splitter did not split")
        want = dict(want, datasets=R["after"]["datasets"])
    d = util.diff(want, R["after"])
    if d:
        raise Violation("save-alters", "saving changed the %s in memory: %s" % (k, d))
    if not R["saved"]:
        raise Violation("refused", "the %s could not be saved: %s" % (k, R["error"]))
    if scen.get("rest"):
        b = cut(ref["fs"][path], scen["rest"])
        if b == ref["fs"][path]:
            return
        ctx.reset()
        ctx.write(dict(fs, **{path: b}))
        g = ctx.run(lib_load, (scen, path, scen["loader"], None))
        if g["outcome"] != "return":
            raise Violation("damaged", "loading a damaged file ended with %s" % batch.exit_desc(g))
        if not g["value"]["error"]:
            raise Violation("damaged-loads", "a %s file with a damaged tail (%s) loads: %s"
                            % (k, scen["rest"], util.diff(want, g["value"].get("state"))[:2] or "equal"))
        ctx.probe("damage-refused")
        return
    r = ctx.run(lib_save, (base,), scen["faults"], scen["knobs"], lines=LINES if scen["lines"] else None)
    saved = None
    if r["outcome"] == "return":
        V = r["value"]
        if "unmade" in V:
            raise Violation("unmade", "making the %s again fails: %s" % (k, V["unmade"]))
        saved = V["saved"]
        for s in ("after", "after2"):
            if s in V:
                w = dict(want, datasets=V[s]["datasets"]) if k == "splitter" and V[s]["datasets"] is None else want
                d = util.diff(w, V[s])
                if d:
                    raise Violation("save-alters", "%s %s a %s save differs from before: %s"
                                    % (k, s, "good" if saved else "failed", d))
        if not saved:
            ctx.probe("failed-save")
            if not [f for f in r["fired"] if f[1] != "short"]:
                raise Violation("refused", "saving failed without a fault: %s" % V["error"])
            if V["resaved"]:
                saved = True
            elif len(r["fired"]) < 2:
                raise Violation("resave", "saving again after a failed save fails: %s" % V["reerror"])
        d = util.diff(R["further"], V["further"], rtol=1e-9)
        if d and not [f for f in scen["faults"] if f["kind"] == "line"]:
            raise Violation("further-after-save", "results after a save differ: %s" % d)
    elif not r["fired"]:
        raise Violation("use", "ended with %s" % batch.exit_desc(r))
    if not util.exists(ctx.root, path):
        if saved:
            raise Violation("no-file", "saved without error, but %s does not exist" % path)
        return
    if not saved and scen["old"] and util.rd(ctx.root, path) == old(ctx, scen):
        ctx.probe("old-kept")
        return
    g = ctx.run(lib_load, (base, path, scen["loader"], scen["path2"]), count=False)
    if g["outcome"] != "return":
        raise Violation("load", "reloading a %s ended with %s" % (k, batch.exit_desc(g)))
    G = g["value"]
    if G["error"]:
        if saved:
            raise Violation("unloadable", "%s saved without error, but reloading (%s) fails: %s" % (k, scen["loader"], G["error"]))
        ctx.probe("torn-refused")
        return
    if G["type"] != cls_of(scen)[1]:
        raise Violation("reload", "a saved %s reloads as %s" % (k, G["type"]))
    d = util.diff(want, G["state"])
    if d:
        raise Violation("reload" if saved else "torn", "%s reloads (%s) as something else: %s"
                        % ("the saved " + k if saved else "the file of a failed save", scen["loader"], d))
    d = util.diff(G["state"], G["after"])
    if d:
        raise Violation("save-alters", "saving the reloaded %s changed it: %s" % (k, d))
    d = util.diff(R["further"], G["further"], rtol=1e-9)
    if d:
        raise Violation("further", "the reloaded %s gives other answers: %s" % (k, d))
    if not G["saved2"]:
        raise Violation("refused", "the reloaded %s could not be saved again: %s" % (k, G["error2"]))
    g2 = ctx.run(lib_load, (base, scen["path2"], scen["loader"], None), count=False)["value"]
    if g2["error"]:
        raise Violation("unloadable", "saved again without error, but reloading fails: %s" % g2["error"])
    d = util.diff(want, g2["state"])
    if d:
        raise Violation("resave", "saving the reloaded %s again changes it: %s" % (k, d))
    ctx.probe("resaved-" + k)
    if k == "model":
        ctx.probe("mode-" + scen["mode"])
        if any(isinstance(v, list) and v[2] for n, v in R["further"].items() if n.startswith("pred")):
            ctx.probe("dropped")
