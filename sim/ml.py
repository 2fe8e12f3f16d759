"""Training and prediction: generated matrices, commands, an independent reference.  Shared by C05-C07, C09, C12, C13, C16-C18."""
import json
import random

from . import proc, util

STATUS = "/sim/w/status.json"
MODEL = "/sim/out/model.json"
PRED = "/sim/out/pred.json"
FM, TM, PM = "/sim/in/features.json.gz", "/sim/in/targets.json.gz", "/sim/in/predict.json.gz"


# ---------------------------------------------------------------- matrices
def table(spec):
    """{sample: {feature: value or None}} of a matrix description"""
    rng = random.Random("table/%s" % spec["seed"])
    n, k = spec["n"], spec["k"]
    rows = {}
    for i in range(n):
        z = rng.gauss(0, 1)
        rows["/data/cell_%03d_structured.json" % (i + spec.get("first", 0))] = [
            round(10 ** (j % 3) * (1 + 0.3 * z * (1 if j % 2 else -1) + 0.5 * rng.gauss(0, 1)), 6) for j in range(k)]
    names = list(rows)
    tgt = {}
    w = [random.Random("w/%s/%d" % (spec["seed"], j)).gauss(0, 1) for j in range(k)]
    for s in names:
        base = sum(a * b / 10 ** (j % 3) for j, (a, b) in enumerate(zip(rows[s], w)))
        tgt[s] = [round(100 + 20 * base + rng.gauss(0, 3), 6), round(5 - 2 * base + rng.gauss(0, 1), 6)]
    for s in names:
        for j in range(k):
            if rng.random() < spec.get("nan", 0):
                rows[s][j] = None
        if spec.get("holes") and rng.random() < spec["holes"]:
            for j in range(k):
                if rng.random() < 0.6:
                    rows[s][j] = None
    if spec.get("inf") and not spec.get("first"):       # only in matrices to train on
        for s in names:
            for j in range(k):
                if rng.random() < 0.05:
                    rows[s][j] = rng.choice([float("inf"), float("-inf")])
        if rng.random() < 0.5:
            tgt[names[0]][0] = rng.choice([float("inf"), float("-inf")])
    if spec.get("nan_target") and names:
        tgt[names[-1]][0] = None
    order = list(names)
    if spec.get("shuffle"):
        rng.shuffle(order)
    return rows, tgt, order


def lib_make(spec, what, out):
    """what: features | targets"""
    import pandas as pd
    from beep.features.base import BEEPFeatureMatrix
    from .simfeats import SimMean, SimPick
    rows, tgt, order = table(spec)
    fs = []
    nan = float("nan")
    if what == "features":
        k = spec["k"] + spec.get("extra", 0)
        for s in rows:
            vals = [nan if v is None else v for v in rows[s]] + [7.0] * spec.get("extra", 0)
            half = (k + 1) // 2
            for cls, lo, hi, hp in ((SimMean, 0, half, {"column": "c", "scale": spec.get("scale", 1.0), "opts": {"power": 1}}),
                                    (SimPick, half, k, {"mode": "ok", "modulus": spec.get("modulus", 2)})):
                if hi <= lo:
                    continue
                use = [j for j in range(lo, hi) if j not in spec.get("drop", [])]
                if not use:
                    continue
                f = cls(None, hp)
                f.features = pd.DataFrame({"f%d" % j: [vals[j]] for j in use})
                f.paths = {"structured": s}
                if spec.get("pad"):
                    f.paths["note"] = "%x" % random.Random("pad/%s/%s" % (spec["seed"], s)).getrandbits(4 * spec["pad"])
                fs.append(f)
    else:
        for s in order:
            f = SimMean(None, {"column": "t", "scale": 1.0, "opts": {"power": 1}})
            f.features = pd.DataFrame({"life": [nan if tgt[s][0] is None else tgt[s][0]], "fade": [tgt[s][1]]})
            f.paths = {"structured": s}
            if spec.get("pad"):
                f.paths["note"] = "%x" % random.Random("padt/%s/%s" % (spec["seed"], s)).getrandbits(4 * spec["pad"])
            fs.append(f)
    BEEPFeatureMatrix(fs).to_json_file(out)


def matrix_bytes(ctx, spec, what):
    r = ctx.solo({}, lib_make, (spec, what, "/sim/out/m.json.gz"), keep="all")
    if r["outcome"] != "return":
        raise RuntimeError("matrix generation failed: %s" % r["exc"])
    return r["fs"]["/sim/out/m.json.gz"]


def gen_spec(rng, n=None):
    s = {"seed": rng.randrange(10000), "n": n or rng.choice([8, 10, 12, 16, 25]), "k": rng.choice([2, 3, 5]),
         "nan": rng.choice([0, 0, 0.05, 0.2])}
    if rng.random() < 0.25:
        s["holes"] = 0.3
    if rng.random() < 0.2:
        s["nan_target"] = 1
    if rng.random() < 0.3:
        s["shuffle"] = 1
    return s


def gen_opts(rng):
    o = {"model": rng.choice(["elasticnet", "ridge", "lasso"]), "targets": ["life"], "kfold": rng.choice([2, 3]),
         "max_iter": rng.choice([2000, 5000])}
    if o["model"] == "elasticnet" and rng.random() < 0.3:
        o["targets"] = ["life", "fade"]
    if rng.random() < 0.5:
        o["frac"] = rng.choice([0.5, 0.7, 0.8])
    if rng.random() < 0.5:
        o["alphas"] = rng.choice([[0.01, 1.0, 4], [0.1, 50.0, 3]])
    if rng.random() < 0.3:
        o["impute"] = rng.choice(["mean", "median", "none"])
    if rng.random() < 0.3 and o["model"] == "elasticnet":
        o["l1"] = rng.choice(["0.1,0.9", "0.5"])
    if rng.random() < 0.3:
        o["pthresh"] = rng.choice([0.0, 0.3, 0.75, 1.0])
    if rng.random() < 0.3:
        o["sthresh"] = rng.choice([0.3, 0.6, 0.9])
    if rng.random() < 0.75:
        o["fthresh"] = rng.choice([0.2, 0.4, 0.6, 0.9])
    if rng.random() < 0.25 and o["model"] != "ridge":
        o["tol"] = rng.choice([1e-3, 1e-2])
    if rng.random() < 0.2:
        o["homog"] = False
    return o


# ---------------------------------------------------------------- commands
def target_names(o, spec):
    if o.get("homog", True):
        return ["%s::SimMean" % t for t in o["targets"]]
    import hashlib
    hp = {"column": "t", "scale": 1.0, "opts": {"power": 1}}
    h = hashlib.sha256("-".join("%s:%s" % (k, hp[k]) for k in sorted(hp)).encode()).hexdigest()
    return ["%s::SimMean::%s" % (t, h) for t in o["targets"]]


def train_args(o, spec, out=MODEL, fm=FM, tm=TM):
    a = ["train", "-fm", fm, "-tm", tm, "-m", o["model"]]
    for t in target_names(o, spec):
        a += ["-t", t]
    if out:
        a += ["-o", out]
    if "frac" in o:
        a += ["-s", str(o["frac"])]
    if "alphas" in o:
        a += ["-al", str(o["alphas"][0]), "-au", str(o["alphas"][1]), "-an", str(o["alphas"][2])]
    for k, f in (("impute", "--impute-strategy"), ("l1", "--l1-ratios"), ("pthresh", "--predict-sample-nan-thresh"),
                 ("sthresh", "--train-sample-nan-thresh"), ("fthresh", "--train-feature-nan-thresh"), ("kfold", "--kfold"),
                 ("max_iter", "--max-iter"), ("tol", "--tol"), ("homog", "--homogenize-features")):
        if k in o:
            a += [f, str(o[k])]
    return a


def predict_args(o, out=PRED, model=MODEL, pm=PM):
    a = ["predict", model, "-fm", pm]
    if out:
        a += ["-o", out]
    if "thresh" in o:
        a += ["--predict-sample-nan-thresh", str(o["thresh"])]
    return a


def lib_kwargs(o):
    kw = {"kfold": o["kfold"], "max_iter": o["max_iter"], "drop_nan_training_targets": True}
    if "alphas" in o:
        import numpy as np
        kw["alphas"] = np.linspace(o["alphas"][0], o["alphas"][1], o["alphas"][2]).tolist()
    for k, n in (("impute", "impute_strategy"), ("pthresh", "predict_sample_nan_thresh"),
                 ("sthresh", "train_sample_drop_nan_thresh"), ("fthresh", "train_feature_drop_nan_thresh"), ("tol", "tol"),
                 ("homog", "homogenize_features")):
        if k in o:
            kw[n] = o[k]
    if "l1" in o:
        kw["l1_ratio"] = [float(x) for x in o["l1"].split(",")]
    return kw


def lib_train(fm, tm, o, out=None):
    from beep.features.base import BEEPFeatureMatrix
    from beep.model import BEEPLinearModelExperiment
    f, t = BEEPFeatureMatrix.from_json_file(fm), BEEPFeatureMatrix.from_json_file(tm)
    b = BEEPLinearModelExperiment(feature_matrix=f, target_matrix=t, targets=target_names(o, None), model_name=o["model"],
                                  **lib_kwargs(o))
    if "frac" in o:
        _, tr, te = b.train_and_score(o["frac"])
    else:
        (_, tr), te = b.train(), None
    if out:
        b.to_json_file(out)
    return {"model": model_values(b), "train": util.jsonish(tr), "test": util.jsonish(te)}


def model_values(b):
    """what a trained model is, by value"""
    return util.jsonish({"coef": b.model.coef_.tolist(), "intercept": b.model.intercept_.tolist(),
                         "mean": b.scaler.mean_.tolist(), "scale": b.scaler.scale_.tolist(), "labels": b.feature_labels,
                         "targets": b.targets, "name": b.model_name, "alphas": b.alphas, "kfold": b.kfold,
                         "max_iter": b.max_iter, "tol": b.tol, "l1": list(b.l1_ratio), "impute": b.impute_strategy,
                         "pthresh": b.predict_sample_nan_thresh, "sthresh": b.train_sample_drop_thresh,
                         "fthresh": b.train_feature_drop_thresh, "homog": b.homogenize_features,
                         "opt": {k: float(v) for k, v in b.optimal_hyperparameters.items()},
                         "X": util.values(b.X), "y": util.values(b.y), "idx": [str(i) for i in b.X.index]})


def lib_load_model(path):
    from beep.model import BEEPLinearModelExperiment
    return model_values(BEEPLinearModelExperiment.from_json_file(path))


def lib_predict(model, pm, thresh=None):
    from beep.features.base import BEEPFeatureMatrix
    from beep.model import BEEPLinearModelExperiment
    m = BEEPLinearModelExperiment.from_json_file(model)
    if thresh is not None:
        m.predict_sample_nan_thresh = thresh
    f = BEEPFeatureMatrix.from_json_file(pm)
    y, dropped = m.predict(f)
    return {"idx": [str(i) for i in y.index], "y": util.values(y), "dropped": [str(d) for d in dropped]}


# ---------------------------------------------------------------- independent reference
def read_matrix(b, homog):
    """(samples, {label: [value or nan]}) of a saved matrix, from its stored featurizers"""
    import math
    d = util.loads_any(b)
    import hashlib
    rows, cols = [], {}
    for f in d["featurizers"]:
        s = f["paths"]["structured"]
        if s not in rows:
            rows.append(s)
        hp = f["hyperparameters"]
        h = hashlib.sha256("-".join("%s:%s" % (k, hp[k]) for k in sorted(hp)).encode()).hexdigest()
        for c, v in f["features"].items():
            lab = "%s::%s" % (c, f["@class"]) + ("" if homog else "::" + h)
            x = v[0]
            x = float("nan") if x is None or (isinstance(x, float) and math.isinf(x)) else float(x)
            cols.setdefault(lab, {})[s] = x
    return rows, {c: [cols[c].get(s, float("nan")) for s in rows] for c in sorted(cols)}


def clean(fb, tb, o):
    """training table as documented: (samples, labels, X, Y) or None when there is too little data"""
    import numpy as np
    homog = o.get("homog", True)
    rows, fc = read_matrix(fb, homog)
    trows, tc = read_matrix(tb, homog)
    if len(rows) != len(trows):
        return None
    labels = list(fc)
    X = np.array([fc[c] for c in labels], dtype=float).T.reshape(len(rows), len(labels))
    keep = (~np.isnan(X)).sum(axis=0) >= o.get("fthresh", 0.95) * len(rows)
    labels, X = [c for c, k in zip(labels, keep) if k], X[:, keep]
    keep = (~np.isnan(X)).sum(axis=1) >= o.get("sthresh", 0.5) * len(labels)
    rows, X = [r for r, k in zip(rows, keep) if k], X[keep]
    X = impute(X, o.get("impute", "median"))
    if len(rows) < 2 or not labels:
        return None
    targets = target_names(o, None)
    if any(t not in tc for t in targets) or any(r not in trows for r in rows):
        return None
    pos = [trows.index(r) for r in rows]
    Y = np.array([[tc[t][p] for t in targets] for p in pos], dtype=float)
    ok = ~np.isnan(Y).any(axis=1)
    rows, X, Y = [r for r, k in zip(rows, ok) if k], X[ok], Y[ok]
    if len(rows) < 2:
        return None
    return rows, labels, X, Y


def impute(X, how):
    import numpy as np
    X = np.array(X, dtype=float)
    if how in ("median", "mean") and X.size:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = (np.nanmedian if how == "median" else np.nanmean)(X, axis=0)
        for j in range(X.shape[1]):
            X[np.isnan(X[:, j]), j] = m[j]
    return X


def fit(X, Y, o):
    """the model that training on exactly these rows gives"""
    import numpy as np
    from sklearn import linear_model as lm
    mean, scale = X.mean(axis=0), X.std(axis=0)
    scale = np.where(scale == 0, 1.0, scale)
    Z = (X - mean) / scale
    kw = lib_kwargs(o)
    al = kw.get("alphas")
    multi = Y.shape[1] > 1
    y = Y if multi else Y[:, 0]
    if o["model"] == "ridge":
        cv = lm.RidgeCV(alphas=al or (1e-3, 1e-2, 1e-1, 1, 10, 100, 1000), cv=o["kfold"], fit_intercept=True)
    else:
        k = dict(alphas=al, cv=o["kfold"], max_iter=o["max_iter"], tol=o.get("tol", 1e-4), fit_intercept=True)
        if o["model"] == "lasso":
            cv = lm.LassoCV(**k)
        else:
            k["l1_ratio"] = kw.get("l1_ratio", [0.001, 0.1, 0.5, 0.7, 0.9, 0.95, 1])
            cv = (lm.MultiTaskElasticNetCV if multi else lm.ElasticNetCV)(**k)
    cv.fit(Z, y)
    opt = {"alpha": float(cv.alpha_)}
    if o["model"] == "elasticnet":
        opt["l1_ratio"] = float(cv.l1_ratio_)
    cls = {"ridge": lm.Ridge, "lasso": lm.Lasso, "elasticnet": lm.MultiTaskElasticNet if multi else lm.ElasticNet}[o["model"]]
    m = cls(fit_intercept=True, max_iter=o["max_iter"], **opt)
    m.fit(Z, y)
    return {"coef": m.coef_.tolist(), "intercept": m.intercept_.tolist(), "mean": mean.tolist(), "scale": scale.tolist(),
            "opt": opt}


def apply(m, X, ntargets):
    import numpy as np
    Z = (np.asarray(X, dtype=float) - np.asarray(m["mean"])) / np.asarray(m["scale"])
    c = np.asarray(m["coef"], dtype=float).reshape(ntargets, -1)
    return Z @ c.T + np.asarray(m["intercept"], dtype=float).reshape(1, -1)


def metrics(Y, P, targets):
    """error metrics per metric (per target when there are several)"""
    import numpy as np
    Y, P = np.asarray(Y, dtype=float), np.asarray(P, dtype=float)
    out = {}
    per = []
    for j in range(Y.shape[1]):
        e = Y[:, j] - P[:, j]
        sst = ((Y[:, j] - Y[:, j].mean()) ** 2).sum()
        per.append({"rmse": float(np.sqrt((e ** 2).mean())), "mae": float(np.abs(e).mean()),
                    "r2": float(1 - (e ** 2).sum() / sst) if sst else None, "max_error": float(np.abs(e).max())})
    for k in ("rmse", "mae", "r2", "max_error"):
        out[k] = {t: per[j][k] for j, t in enumerate(targets)} if len(targets) > 1 else per[0][k]
    return out


def ref_predict(m, pb, homog, thresh, how):
    """predictions of model values m on a saved matrix: (samples, P, dropped) or None when features are missing"""
    import numpy as np
    rows, fc = read_matrix(pb, homog)
    if any(c not in fc for c in m["labels"]):
        return None
    X = np.array([fc[c] for c in m["labels"]], dtype=float).T
    keep = (~np.isnan(X)).sum(axis=1) >= thresh * len(m["labels"])
    kept = [r for r, k in zip(rows, keep) if k]
    X = impute(X[keep], how)
    if not kept or np.isnan(X).any():
        return None
    return kept, apply(m, X, len(m["targets"])), [r for r, k in zip(rows, keep) if not k]


def close(a, b, rtol=1e-6):
    """differences of two JSON-like values up to rounding"""
    return util.diff(a, b, rtol=rtol)
