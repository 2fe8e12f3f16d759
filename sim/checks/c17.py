"""C17 Train/test splits are disjoint, complete and driven only by the given seed."""
import math
import os

from .. import batch, core, faults, ml, proc, util
from ..runner import Violation
from . import c09

ID = "C17"
RUNS = (260, 9000)
CAP = (200, 3500)
RULE = ("each seed draws a data set with missing values (any shape, row order, groups, inclusion flags), options and a history of "
        "seeding, drawing from and reseeding the shared random generators around and, at random program lines, inside repeated "
        "splits on the same and on new objects, with other training, predicting and splitting in between and with allocation "
        "failures and interrupts at random lines; what the models were fitted on is observed at the numerical library, and groups, "
        "values, proportions, scaling, coefficients and reported errors are compared with an independent reference")
ASSUME = ["the numerical library's fit is a function of its arguments", "at least two usable samples on each side"]
LINES = [core.REPO + "/beep/model.py", core.REPO + "/beep/prediction/", core.REPO + "/beep/features/base.py"]


def gen_event(rng, kind):
    x = rng.random()
    if x < 0.55:
        e = {"t": "go", "seed": rng.randrange(4), "burn": rng.choice([0, 0, 1, 7, 1000]), "new": rng.random() < 0.4}
        if kind == "split":
            e["rs"] = rng.choice([0, 10, 10, 77])
        else:
            e["frac"] = rng.choice([0.3, 0.5, 0.5, 0.7, 0.8, 0.9])
        return e
    if x < 0.75:
        return {"t": "draw", "how": rng.randrange(1000)}
    if x < 0.85:
        return {"t": "train"}
    if x < 0.93:
        return {"t": "predict"}
    return {"t": "other", "rs": rng.randrange(50)}


def gen(ctx, rng, i):
    kind = "split" if i % 5 in (1, 3) else "score"
    scen = {"kind": kind, "spec": ml.gen_spec(rng), "knobs": {"bufsize": 8192}, "faults": [], "lines": False, "_shrink": ["evs"]}
    scen["spec"]["n"] = rng.choice([6, 8, 9, 10, 12, 16, 25, 40])
    if kind == "score":
        scen["opts"] = ml.gen_opts(rng)
        scen["opts"].pop("frac", None)
    else:
        scen["targets"] = rng.choice([["life"], ["fade"], ["life", "fade"]])
        scen["split"] = {"n_splits": rng.choice([2, 3, 4, 5]), "impute_strategy": rng.choice(["median", "mean", "none"]),
                         "train_feature_drop_nan_thresh": rng.choice([0.2, 0.5, 0.75, 1.0]),
                         "train_sample_drop_nan_thresh": rng.choice([0.3, 0.5, 0.8, 1.0]),
                         "homogenize_features": rng.random() < 0.7}
        if rng.random() < 0.5:
            scen["split"]["split_columns"] = rng.choice([["group"], ["group"], ["group", "group2"]])
        if rng.random() < 0.5:
            scen["split"]["exclusion_columns"] = rng.choice([["incl"], ["incl", "incl2"], ["incl", "incl2", "incl3"]])
            scen["split"]["drop_split_threshold"] = rng.choice([0.2, 0.5, 0.75, 0.9])
            if rng.random() < 0.4:
                scen["spec"]["noflag"] = 1
    scen["evs"] = [gen_event(rng, kind) for _ in range(rng.randint(3, 9))]
    if rng.random() < 0.5:
        # the same call again at the end, possibly on another object
        go = [e for e in scen["evs"] if e["t"] == "go"]
        if go:
            scen["evs"].append(dict(rng.choice(go), new=rng.random() < 0.5))
    if kind == "score" and i % 7 == 2:
        scen.update(cli=True, evs=[{"t": "go", "seed": rng.randrange(50), "burn": 0, "new": True, "frac": rng.choice([0.5, 0.7, 0.8])}])
    yield scen
    ctx.reset()
    put(ctx, scen)
    r = ctx.run(lib_events, (scen,), (), scen["knobs"], lines=LINES, count=False)
    if kind == "split" and r["nlines"] > 1:             # other code using the generators all the time
        yield dict(scen, lines=True, faults=[{"kind": "line", "path": "", "nth": n, "do": "draw", "arg": rng.randrange(1000)}
                                             for n in sorted(rng.sample(range(1, r["nlines"] + 1), min(r["nlines"], 80)))])
    for _ in range(2):
        fl = []
        for _ in range(rng.choice([1, 2, 4])):
            f = faults.line_fault(rng, r, rng.choice(["draw", "draw", "draw", "memory", "interrupt"]))
            if f:
                fl.append(dict(f, arg=rng.randrange(1000)))
        yield dict(scen, faults=fl, lines=True)




def put(ctx, scen):
    if scen["kind"] == "score":
        ctx.write({ml.FM: matrix(ctx, scen, "features"), ml.TM: matrix(ctx, scen, "targets"),
                   ml.PM: ml.matrix_bytes(ctx, dict(scen["spec"], first=70, n=4), "features")})


def matrix(ctx, scen, what):
    return ml.matrix_bytes(ctx, scen["spec"], what)


# ---------------------------------------------------------------- inside simulated processes
def watch():
    """observe, at the numerical library, what models are fitted on"""
    import numpy as np
    from sklearn import linear_model as lm
    seen = []
    for c in ("ElasticNet", "Lasso", "Ridge", "MultiTaskElasticNet"):
        cls = getattr(lm, c)
        real = cls.fit

        def fit(self, X, y, *a, _real=real, **k):
            seen.append((self, np.array(X, dtype=float), np.array(y, dtype=float)))
            return _real(self, X, y, *a, **k)
        cls.fit = fit
    return seen


def lib_events(scen):
    return (lib_score if scen["kind"] == "score" else lib_split)(scen)


def setstate(e):
    import random
    import numpy as np
    np.random.seed(e["seed"])
    random.seed(e["seed"] + 1)
    for _ in range(e["burn"]):
        np.random.random_sample()


def errname(e):
    return type(e).__name__


def lib_score(scen):
    from beep.features.base import BEEPFeatureMatrix
    from beep.model import BEEPLinearModelExperiment, BEEPMLExperimentError
    seen = watch()
    o = scen["opts"]
    out = []

    def make():
        f, t = BEEPFeatureMatrix.from_json_file(ml.FM), BEEPFeatureMatrix.from_json_file(ml.TM)
        return BEEPLinearModelExperiment(feature_matrix=f, target_matrix=t, targets=ml.target_names(o, None),
                                         model_name=o["model"], **ml.lib_kwargs(o))

    def record(b, tr, te):
        fits = [(X, y) for m, X, y in seen if m is b.model]
        return {"X": fits[-1][0].tolist(), "y": fits[-1][1].tolist(), "model": ml.model_values(b),
                "train": util.jsonish(tr), "test": util.jsonish(te)} if fits else None
    sim = core.CUR
    if scen.get("cli"):
        v = lib_cli(scen, seen)
        v["hit"] = [f[1] for f in sim.fired]
        return [v]
    b = None
    for e in scen["evs"]:
        n0 = len(sim.fired)
        del seen[:]
        v = {"t": e["t"]}
        try:
            if b is None or (e["t"] == "go" and e["new"]):
                b = make()
            if e["t"] == "draw":
                core.draw(e["how"])
            elif e["t"] == "train":
                b.train()
            elif e["t"] == "predict":
                b.predict(BEEPFeatureMatrix.from_json_file(ml.PM))
            elif e["t"] == "other":
                make_splitter(dict(OTHER, split=dict(OTHER["split"], random_state=e["rs"]))).split()
            else:
                setstate(e)
                m, tr, te = b.train_and_score(e["frac"])
                if m is not b.model:
                    v["other"] = True
                v["rec"] = record(b, tr, te)
        except BaseException as x:
            if not isinstance(x, (Exception, KeyboardInterrupt, BEEPMLExperimentError)):
                raise
            v["error"] = errname(x)
            v["msg"] = str(x)[:200]
        v["hit"] = [f[1] for f in sim.fired[n0:]]
        out.append(v)
    return out


def lib_cli(scen, seen):
    import json
    from beep.model import BEEPLinearModelExperiment
    e = scen["evs"][0]
    setstate(e)
    v = {"t": "go", "hit": []}
    try:
        proc.cli(["-s", ml.STATUS] + ml.train_args(dict(scen["opts"], frac=e["frac"]), None))
    except SystemExit as x:
        if x.code not in (0, None):
            v["error"] = "exit %s" % x.code
            return v
    except BaseException as x:
        if isinstance(x, core.SimStall):
            raise
        v["error"] = errname(x)
        return v
    core.CUR.inhibit += 1
    if not os.path.exists(ml.MODEL):
        core.CUR.inhibit -= 1
        v["error"] = "no model"
        return v
    if [f for f in core.CUR.fired if f[1] != "draw"]:
        core.CUR.inhibit -= 1
        v["error"] = "hurt"            # C05 and C06 judge what a disturbed command leaves
        return v
    b = BEEPLinearModelExperiment.from_json_file(ml.MODEL)
    with open(ml.STATUS) as f:
        st = json.load(f)
    core.CUR.inhibit -= 1
    v["status"] = st
    c = ml.model_values(b)
    fits = [(X, y) for m, X, y in seen if getattr(m, "coef_", None) is not None
            and util.diff(m.coef_.tolist(), c["coef"], rtol=1e-12) == []]
    if fits:
        tr, te = errors_of(st)
        v["rec"] = {"X": fits[-1][0].tolist(), "y": fits[-1][1].tolist(), "model": c, "train": tr, "test": te}
    return v


def errors_of(st):
    """the reported errors, wherever the status keeps them"""
    def find(d, k):
        if isinstance(d, dict):
            for a, x in d.items():
                if a == k:
                    return x
                y = find(x, k)
                if y is not None:
                    return y
        return None
    return find(st, "training_error"), find(st, "test_error")


OTHER = {"spec": {"seed": 3, "n": 7, "k": 2, "nan": 0}, "targets": ["life"], "split": {"n_splits": 3, "homogenize_features": True}}


def flags(spec):
    """groups and inclusion flags per sample (None: missing)"""
    import random
    rows, _, order = ml.table(spec)
    rng = random.Random("split%s" % spec["seed"])
    ng = rng.choice([3, 5, 8])
    out = {s: {"group": float(rng.randrange(ng)), "group2": float(rng.randrange(2)), "incl": rng.random() < 0.75,
               "incl2": rng.random() < 0.9, "incl3": rng.random() < 0.95} for s in order}
    for s in order if spec.get("noflag") else ():
        for c in ("incl", "incl2"):
            if rng.random() < 0.12:
                out[s][c] = None                        # not excluded on purpose, but not known to be included
    return out


def split_matrix(spec):
    import pandas as pd
    from beep.features.base import BEEPFeatureMatrix
    from ..simfeats import SimMean, SimPick
    rows, tgt, order = ml.table(spec)
    fl = flags(spec)
    nan = float("nan")
    fs = []
    for s in order:
        f = SimMean(None, {"column": "c", "scale": 1.0, "opts": {"power": 1}})
        f.features = pd.DataFrame({"f%d" % j: [nan if v is None else v] for j, v in enumerate(rows[s])})
        g = SimPick(None, {"mode": "ok", "modulus": 2})
        g.features = pd.DataFrame(dict({"life": [nan if tgt[s][0] is None else tgt[s][0]], "fade": [tgt[s][1]]},
                                       **{k: [nan if v is None else v] for k, v in fl[s].items()}))
        for h in (f, g):
            h.paths = {"structured": s}
            fs.append(h)
    return BEEPFeatureMatrix(fs)


def make_splitter(scen):
    from beep.prediction.beep_data_splitter import BEEPDataSplitter
    m = split_matrix(scen["spec"])
    o = dict(scen["split"])
    cols = list(m.matrix.columns)

    def full(n):
        c = [c for c in cols if c.split("::")[0] == n][0]
        return "::".join(c.split("::")[:2]) if o["homogenize_features"] else c
    for k in ("split_columns", "exclusion_columns"):
        if k in o:
            o[k] = [full(n) for n in o[k]]
    return BEEPDataSplitter(feature_matrix=m, features=[full("f%d" % j) for j in range(scen["spec"]["k"])],
                            targets=[full(t) for t in scen["targets"]], **o)


def frame(x):
    short = [str(c).split("::")[0] for c in x.columns]
    return {"index": [str(i) for i in x.index], "cols": short,
            "rows": [[None if v != v else float(v) for v in r] for r in x.values.tolist()]}


def lib_split(scen):
    from beep.model import BEEPMLExperimentError
    from beep.prediction.beep_data_splitter import BEEPDataSplitterError
    sim = core.CUR
    cache, out = {}, []
    for e in scen["evs"]:
        n0 = len(sim.fired)
        v = {"t": e["t"]}
        try:
            if e["t"] == "draw":
                core.draw(e["how"])
            elif e["t"] == "go":
                setstate(e)
                if e["new"] or e["rs"] not in cache:
                    cache.pop(e["rs"], None)
                    cache[e["rs"]] = make_splitter(dict(scen, split=dict(scen["split"], random_state=e["rs"])))
                ds = cache[e["rs"]].split()
                v["ds"] = [{k: frame(getattr(d, k)) for k in ("train_X", "train_y", "test_X", "test_y")} for d in ds]
                v["kept"] = len(cache[e["rs"]].datasets) == len(ds)
            else:
                make_splitter(dict(OTHER, split=dict(OTHER["split"], random_state=e.get("rs", 1)))).split()
        except BaseException as x:
            if not isinstance(x, (Exception, KeyboardInterrupt, BEEPDataSplitterError, BEEPMLExperimentError)):
                raise
            v["error"] = errname(x)
            v["msg"] = str(x)[:200]
        v["hit"] = [f[1] for f in sim.fired[n0:]]
        out.append(v)
    return out


def lib_many(scen, n):
    """the groups of n different seeds"""
    out = []
    if scen["kind"] == "split":
        for rs in range(n):
            ds = make_splitter(dict(scen, split=dict(scen["split"], random_state=rs))).split()
            out.append([sorted(str(i) for i in d.test_X.index) for d in ds])
        return out
    seen = watch()
    from beep.features.base import BEEPFeatureMatrix
    from beep.model import BEEPLinearModelExperiment
    import numpy as np
    o = scen["opts"]
    f, t = BEEPFeatureMatrix.from_json_file(ml.FM), BEEPFeatureMatrix.from_json_file(ml.TM)
    for s in range(n):
        b = BEEPLinearModelExperiment(feature_matrix=f, target_matrix=t, targets=ml.target_names(o, None),
                                      model_name=o["model"], **ml.lib_kwargs(o))
        np.random.seed(s)
        b.train_and_score(0.5)
        out.append(sorted(np.round([x[2] for x in seen if x[0] is b.model][-1], 9).ravel().tolist()))
    return out


# ---------------------------------------------------------------- reference
def ref_split(scen):
    """(feature names, {sample: (x row, y row, group)}) a splitter has to split, or None"""
    import numpy as np
    rows, tgt, order = ml.table(scen["spec"])
    fl, o = flags(scen["spec"]), scen["split"]
    feats = ["f%d" % j for j in range(scen["spec"]["k"])]
    gcols, ecols = o.get("split_columns", []), o.get("exclusion_columns", [])
    cols = feats + gcols + ecols
    nan = float("nan")
    T = {s: [nan if v is None else v for v in rows[s]] + [nan if fl[s][c] is None else float(fl[s][c]) for c in gcols + ecols] for s in order}
    M = np.array([T[s] for s in order], dtype=float)
    keep = (~np.isnan(M)).sum(axis=0) >= o["train_feature_drop_nan_thresh"] * len(order)
    cols, M = [c for c, k in zip(cols, keep) if k], M[:, keep]
    keep = (~np.isnan(M)).sum(axis=1) >= o["train_sample_drop_nan_thresh"] * len(cols)
    names, M = [s for s, k in zip(order, keep) if k], M[keep]
    if not names:
        return None
    M = ml.impute(M, o["impute_strategy"])
    group = {s: tuple(fl[s][c] for c in gcols) for s in names}
    if any(c not in cols for c in gcols + ecols):
        return None                                     # a column the split needs has too few values
    incl = {s: all(fl[s][c] for c in ecols) for s in names}
    use = [s for s in names if incl[s]]
    if gcols and ecols:
        bad = {g for g in set(group.values())
               if sum(incl[s] for s in names if group[s] == g) / sum(1 for s in names if group[s] == g) < o["drop_split_threshold"]}
        use = [s for s in use if group[s] not in bad]
    if len(use) < 2:
        return None
    res = {}
    tj = [["life", "fade"].index(t) for t in scen["targets"]]
    fi = [j for j, c in enumerate(cols) if c in feats]
    for s in use:
        y = [tgt[s][j] for j in tj]
        if all(v is not None for v in y):
            res[s] = ([float(M[names.index(s)][j]) for j in fi], y, group[s])
    if len(res) < 2:
        return None
    return [cols[j] for j in fi], res


# ---------------------------------------------------------------- judgement
def execute(ctx, scen):
    ctx.reset()
    put(ctx, scen)
    r = ctx.run(lib_events, (scen,), scen["faults"], scen["knobs"], lines=LINES if scen["lines"] else None)
    if r["outcome"] != "return":
        raise Violation("use", "ended with %s %s" % (batch.exit_desc(r), (r["exc"] or {}).get("tb", "")))
    if scen["kind"] == "split":
        judge_split(ctx, scen, r["value"])
    else:
        judge_score(ctx, scen, r["value"])
    if not scen["faults"] and not scen.get("cli"):
        many(ctx, scen)


def many(ctx, scen):
    if scen["kind"] == "split":
        ref = ref_split(scen)
        if not ref or not ref[0] or (len({g for _, _, g in ref[1].values()}) if scen["split"].get("split_columns") else len(ref[1])) < max(
                5, scen["split"]["n_splits"]):
            return
    else:
        ref = clean(ctx, scen)
        if not ref or len(ref[0]) < 8 or any(x != x for row in ref[2].tolist() for x in row):
            return
    ctx.reset()
    put(ctx, scen)
    g = ctx.run(lib_many, (scen, 6), (), scen["knobs"], count=False)
    if g["outcome"] != "return":
        raise Violation("seeds", "splitting with six seeds in turn ended with %s" % batch.exit_desc(g))
    if all(x == g["value"][0] for x in g["value"]):
        raise Violation("seeds", "six different seeds all give the same groups")
    ctx.probe("seeds-differ")


def clean(ctx, scen):
    return ml.clean(matrix(ctx, scen, "features"), matrix(ctx, scen, "targets"), scen["opts"])


def judge_split(ctx, scen, evs):
    ref = ref_split(scen)
    o = scen["split"]
    first = {}
    for e, v in zip(scen["evs"], evs):
        hurt = [h for h in v["hit"] if h != "draw"]
        if e["t"] != "go":
            if v.get("error") and not hurt:
                raise Violation("use", "%s fails: %s %s" % (e["t"], v["error"], v["msg"]))
            continue
        if ref:
            units = len({g for _, _, g in ref[1].values()}) if o.get("split_columns") else len(ref[1])
        if v.get("error"):
            if hurt:
                ctx.probe("failed")
                continue
            if ref and ref[0] and units >= o["n_splits"]:
                raise Violation("refused", "splitting %d usable units into %d fails: %s %s" % (units, o["n_splits"], v["error"], v["msg"]))
            ctx.probe("refused")
            continue
        if not ref:
            raise Violation("usable", "splits although fewer than two samples are usable")
        feats, rows = ref
        ds = v["ds"]
        if len(ds) != o["n_splits"] or not v["kept"]:
            raise Violation("count", "%d data sets for %d splits" % (len(ds), o["n_splits"]))
        tests = []
        for j, d in enumerate(ds):
            for part in ("train", "test"):
                X, y = d[part + "_X"], d[part + "_y"]
                if X["index"] != y["index"]:
                    raise Violation("align", "data set %d: features and targets of the %sing rows are of different samples" % (j, part))
                if X["cols"] != feats and sorted(X["cols"]) != sorted(feats):
                    raise Violation("columns", "data set %d has features %s, not %s" % (j, X["cols"], feats))
                if y["cols"] != scen["targets"]:
                    raise Violation("columns", "data set %d has targets %s" % (j, y["cols"]))
                for s, xr, yr in zip(X["index"], X["rows"], y["rows"]):
                    if s not in rows:
                        raise Violation("usable", "data set %d uses sample %s, which is not usable" % (j, s))
                    wx = dict(zip(feats, rows[s][0]))
                    d1 = util.diff([None if wx[c] != wx[c] else wx[c] for c in X["cols"]], xr, rtol=1e-9) + util.diff(rows[s][1], yr, rtol=1e-9)
                    if d1:
                        raise Violation("values", "data set %d, sample %s: %s" % (j, s, d1))
            a, b = d["train_X"]["index"], d["test_X"]["index"]
            if len(set(a)) != len(a) or len(set(b)) != len(b) or set(a) & set(b):
                raise Violation("disjoint", "data set %d uses samples twice: %s" % (j, sorted(set(a) & set(b)) or "repeated"))
            if set(a) | set(b) != set(rows):
                raise Violation("complete", "data set %d leaves out %s" % (j, sorted(set(rows) - set(a) - set(b))))
            if o.get("split_columns"):
                g = {rows[s][2] for s in a} & {rows[s][2] for s in b}
                if g:
                    raise Violation("groups", "data set %d has group %s on both sides" % (j, sorted(g)))
            tests.append(b)
        if sorted(s for b in tests for s in b) != sorted(rows):
            raise Violation("complete", "not every sample is tested exactly once")
        if not o.get("split_columns") and max(map(len, tests)) - min(map(len, tests)) > 1:
            raise Violation("proportion", "test groups of %s samples" % [len(b) for b in tests])
        if e["rs"] in first:
            d = util.diff(first[e["rs"]], ds)
            if d:
                raise Violation("same", "the same input and seed give another split: %s" % d)
            ctx.probe("same-again")
        first.setdefault(e["rs"], ds)
        ctx.probe("split" + ("-groups" if o.get("split_columns") else "") + ("-excl" if o.get("exclusion_columns") else ""))


def judge_score(ctx, scen, evs):
    import numpy as np
    o = scen["opts"]
    ref = clean(ctx, scen)
    first = {}
    for e, v in zip(scen["evs"], evs):
        hurt = [h for h in v["hit"] if h != "draw"]
        if e["t"] != "go":
            if v.get("error") and not hurt and ref:
                ctx.probe("%s-%s" % (e["t"], v["error"]))
            continue
        n = len(ref[0]) if ref else 0
        nt = math.floor(e["frac"] * n + 1e-9)
        if v.get("error"):
            if hurt:
                ctx.probe("failed")
                continue
            if not ref or np.isnan(ref[2]).any() or nt < max(2, o["kfold"]):
                ctx.probe("refused")
                continue
            raise Violation("refused", "scoring %d samples with fraction %s fails: %s %s" % (n, e["frac"], v["error"], v.get("msg", "")))
        if not ref:
            raise Violation("usable", "trains although there are no usable samples")
        if v.get("other"):
            raise Violation("model", "returns another model than it keeps")
        rec = v["rec"]
        if rec is None:
            raise Violation("model", "the returned model was never fitted")
        names, labels, X, Y = ref
        m = rec["model"]
        if sorted(m["labels"]) != sorted(labels) or m["targets"] != ml.target_names(o, None):
            raise Violation("columns", "trained on %s for %s" % (m["labels"], m["targets"]))
        X = X[:, [labels.index(c) for c in m["labels"]]]
        T = match((np.array(rec["X"]) * np.array(m["scale"]) + np.array(m["mean"])), np.array(rec["y"]).reshape(len(rec["y"]), -1), X, Y)
        if isinstance(T, str):
            raise Violation("usable", T)
        if not (math.floor(e["frac"] * n) <= len(T) <= math.ceil(e["frac"] * n)):
            raise Violation("proportion", "fitted on %d of %d samples for a fraction of %s" % (len(T), n, e["frac"]))
        R = [j for j in range(n) if j not in T]
        want = ml.fit(X[T], Y[T], o)
        d = util.diff({k: want[k] for k in ("mean", "scale")}, {k: m[k] for k in ("mean", "scale")}, rtol=1e-7)
        if d:
            raise Violation("scaling", "features were scaled by something else than the training rows: %s" % d)
        d = util.diff(want["opt"], m["opt"], rtol=1e-7)
        if d:
            raise Violation("fit", "hyperparameters were not chosen on the training rows: %s" % d)
        d = util.diff(flat(want["coef"]) + flat(want["intercept"]), flat(m["coef"]) + flat(m["intercept"]), rtol=1e-6)
        if d:
            raise Violation("fit", "the model is not the one fitted on the training rows: %s" % d)
        tn = m["targets"]
        for part, J in (("train", T), ("test", R)):
            w = ml.metrics(Y[J], ml.apply(m, X[J], len(tn)), tn)
            g = rec[part]
            if not isinstance(g, dict):
                raise Violation("errors", "no %s errors reported" % part)
            for k in w:
                if k == "r2" and (len(J) < 2 or any(Y[J][:, c].std() == 0 for c in range(len(tn)))):
                    continue
                d = util.diff(w[k], g.get(k), rtol=1e-6)
                if d:
                    raise Violation("errors", "the reported %sing %s is not that of the model on the %sing samples: %s" % (part, k, part, d))
        if "draw" not in v["hit"]:
            k = (e["seed"], e["burn"], e["frac"])
            x = {y: rec[y] for y in ("X", "y", "train", "test")}
            if k in first:
                d = util.diff(first[k], x)
                if d:
                    raise Violation("same", "the same generator state gives another result: %s" % d)
                ctx.probe("same-again")
            first.setdefault(k, x)
        ctx.probe("scored-" + o["model"] + ("-cli" if scen.get("cli") else ""))


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, (list, tuple)) else [x]


def match(FX, FY, X, Y):
    """positions in X, Y of the rows a model was fitted on, in order"""
    import numpy as np
    if FX.shape[1] != X.shape[1] or FY.shape[1] != Y.shape[1]:
        return "fitted on a table of shape %s and %s" % (FX.shape, FY.shape)
    sx, sy = np.abs(X).max(axis=0) + 1e-300, np.abs(Y).max(axis=0) + 1e-300
    free, T = list(range(len(X))), []
    for x, y in zip(FX, FY):
        for j in free:
            if (np.abs(x - X[j]) <= 1e-8 * sx).all() and (np.abs(y - Y[j]) <= 1e-9 * sy).all():
                T.append(j)
                free.remove(j)
                break
        else:
            return "fitted on a row that is no usable sample (or twice on one): %s -> %s" % (x.tolist(), y.tolist())
    return T
