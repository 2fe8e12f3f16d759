"""C07 Training and prediction reports tell the truth under every fault."""
import json

from .. import batch, core, faults, ml, proc, rawgen, util
from ..runner import Violation

ID = "C07"
RUNS = (240, 5000)
RULE = ("each seed draws feature and target matrices (missing values, shuffled rows, extra or missing features, damaged "
        "files), model options and a prediction matrix, runs the real train and predict commands fault-free and then with I/O "
        "errors, full disks, torn writes, allocation failures and crashes; reported models and predictions are reloaded in a "
        "new process and compared with an independent reference computed from the input files and options")
ASSUME = ["scikit-learn's cross-validated linear models are trusted; the reference uses them on the documented training table"]
DMG = ["truncate", "empty", "garbage", "flip", "missing", "object"]


def gen(ctx, rng, i):
    spec = ml.gen_spec(rng)
    if rng.random() < 0.25:
        spec["inf"] = 1
    if i % 16 == 11:
        spec["pad"] = 150000
    scen = {"spec": spec, "opts": ml.gen_opts(rng), "cmd": rng.choice(["train", "predict"]), "faults": [],
            "knobs": {"bufsize": rng.choice([256, 8192])}, "auto": rng.random() < 0.15}
    if spec.get("pad"):
        scen["knobs"]["bufsize"] = 8192
    if rng.random() < 0.08:
        scen["damage"] = [rng.choice(["fm", "tm"] if scen["cmd"] == "train" else ["pm", "model"]), rng.choice(DMG),
                          round(rng.uniform(0.05, 0.98), 3)]
    if scen["cmd"] == "train" and rng.random() < 0.08:
        scen["tspec"] = dict(spec, n=spec["n"] - 1)
    if scen["cmd"] == "predict":
        p = dict(spec, n=rng.choice([1, 4, 9]), first=50, nan=rng.choice([0, 0.1, 0.4]), seed=spec["seed"])
        if rng.random() < 0.3:
            p["extra"] = rng.choice([1, 6])
        if rng.random() < 0.15:
            p["drop"] = [0]
        if rng.random() < 0.2:
            p["scale"] = 2.0
        scen["pspec"] = p
        scen["popts"] = {"thresh": rng.choice([0.0, 0.4, 0.75, 1.0])} if rng.random() < 0.5 else {}
        if rng.random() < 0.9:
            scen["opts"].pop("impute", None)
    yield scen
    ctx.reset()
    put(ctx, scen)
    lines = [core.REPO + "/beep/model.py", core.REPO + "/beep/features/base.py"] if rng.random() < 0.5 else None
    r = ctx.run(proc.cli, (command(scen),), (), scen["knobs"], lines=lines, count=False)
    outs = {t[1] for t in r["trace"] if t[0] == "open:w" and t[1] != ml.STATUS}
    for _ in range(2):
        fl = []
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.random()
            if x < 0.15:
                f = faults.crash_fault(rng, r["trace"])
            elif x < 0.4 and lines:
                f = faults.line_fault(rng, r, "memory")
            elif x < 0.75:
                f = faults.io_fault(rng, r["trace"], outs or None)
            else:
                f = faults.io_fault(rng, r["trace"], None)
            if f:
                fl.append(f)
        if fl:
            yield dict(scen, faults=fl, lines=bool(lines))


def inputs(ctx, scen):
    s = scen["spec"]
    out = {"fm": (ml.FM, ml.matrix_bytes(ctx, s, "features")), "tm": (ml.TM, ml.matrix_bytes(ctx, scen.get("tspec", s), "targets"))}
    if scen["cmd"] == "predict":
        r = ctx.solo({ml.FM: out["fm"][1], ml.TM: out["tm"][1]}, ml.lib_train, (ml.FM, ml.TM, scen["opts"], ml.MODEL), keep="all")
        mb = r["fs"].get(ml.MODEL)
        if mb is None:
            mb = b"{}"
        out = {"model": ("/sim/in/model.json", mb), "pm": (ml.PM, ml.matrix_bytes(ctx, scen["pspec"], "features"))}
    d = scen.get("damage")
    if d and d[0] in out:
        p, b = out[d[0]]
        out[d[0]] = (p, None if d[1] == "missing" else b"{\"a\": 1}" if d[1] == "object" else rawgen.damage(b, d[1], d[2]))
    return out


def put(ctx, scen):
    ins = inputs(ctx, scen)
    ctx.write({p: b for p, b in ins.values() if b is not None})
    return ins


def command(scen):
    a = ["-s", ml.STATUS]
    if scen.get("halt"):
        a.append("--halt-on-error")
    if scen["cmd"] == "train":
        return a + ml.train_args(scen["opts"], scen["spec"], None if scen.get("auto") else ml.MODEL)
    return a + ml.predict_args(scen["popts"], None if scen.get("auto") else ml.PRED, "/sim/in/model.json")


def execute(ctx, scen):
    ins = put(ctx, scen)
    lines = [core.REPO + "/beep/model.py", core.REPO + "/beep/features/base.py"] if scen.get("lines") else None
    r = ctx.run(proc.cli, (command(scen),), scen.get("faults", ()), scen["knobs"], lines=lines)
    fired = [f for f in r["fired"] if f[1] not in ("short", "jump")]
    missing = [p for p, b in ins.values() if b is None]
    if r["outcome"] != "exit" or r["code"] != 0:
        # the command itself may fail when its inputs cannot be read at all or the report cannot be written
        own = {p for p, _ in ins.values()} | {ml.STATUS, "stdout", "stderr"}
        if not missing and not [f for f in fired if f[2] in own or f[1].startswith("crash")]:
            raise Violation("exit", "the command failed although only %s failed: %s"
                            % (fired or "nothing", batch.exit_desc(r)))
        ctx.probe("aborted")
        return
    st = batch.load_status(ctx)
    if st is None:
        raise Violation("no-status", "no status report written")
    for k, (p, b) in ins.items():
        name = {"fm": "features", "tm": "targets", "model": "model", "pm": "predict_on_features"}[k]
        if st["files"][name] != p or b is None or st["files"][name + "_md5_chksum"] != util.md5(b):
            raise Violation("checksum", "%s recorded as %s with checksum %s" % (p, st["files"][name],
                                                                             st["files"][name + "_md5_chksum"]))
    e = st["trained_model" if scen["cmd"] == "train" else "predictions"]
    if not e["created"]:
        if e["output"] is not None:
            raise Violation("false-output", "nothing created, but output %s is named" % e["output"])
        if not st["traceback"]:
            raise Violation("no-error", "nothing created and no error recorded")
        if not fired and possible(ctx, scen, ins):
            raise Violation("not-created", "nothing created although inputs and options allow it: %s"
                            % batch.tb_type(st["traceback"]))
        ctx.probe("nothing")
        return
    if st["traceback"]:
        raise Violation("error", "created, but an error is recorded: %s" % batch.tb_type(st["traceback"]))
    o = e["output"]
    want = ml.MODEL if scen["cmd"] == "train" else ml.PRED
    if not scen.get("auto") and o != want:
        raise Violation("name", "%s named as output, %s requested" % (o, want))
    if not util.exists(ctx.root, o):
        raise Violation("missing", "%s reported as created but does not exist" % o)
    if scen["cmd"] == "train":
        check_model(ctx, scen, ins, st, o)
    else:
        check_pred(ctx, scen, ins, o)
    ctx.probe("created")


def expected(ctx, scen, ins):
    """library result of training in a fresh process (same generator state) and the independent reference"""
    o = scen["opts"]
    fb, tb = ins["fm"][1], ins["tm"][1]
    lib = ctx.solo({ml.FM: fb, ml.TM: tb}, ml.lib_train, (ml.FM, ml.TM, o))
    return lib["value"] if lib["outcome"] == "return" else None


def possible(ctx, scen, ins):
    if scen["cmd"] == "train":
        return expected(ctx, scen, ins) is not None or trainable(scen, ins)
    try:
        m = model_of(ctx, ins)
        pb = ins["pm"][1]
        return m is not None and ml.ref_predict(m, pb, m["homog"], scen["popts"].get("thresh", m["pthresh"]),
                                                m["impute"]) is not None
    except (ValueError, KeyError, TypeError, OSError, EOFError):
        return False
    except Exception as e:
        if type(e).__module__ in ("zlib", "builtins"):
            return False
        raise


def trainable(scen, ins):
    """by the independent reference"""
    import numpy as np
    if scen.get("damage"):
        return False
    o = scen["opts"]
    cl = ml.clean(ins["fm"][1], ins["tm"][1], o)
    if cl is None or not cl[2].size or np.isnan(cl[2]).any():
        return False
    n = len(cl[0])
    return min(n, n * o.get("frac", 1), n * (1 - o["frac"]) if "frac" in o else n) >= 3 * o["kfold"]


def model_of(ctx, ins):
    r = ctx.solo({"/sim/in/model.json": ins["model"][1]}, ml.lib_load_model, ("/sim/in/model.json",))
    return r["value"] if r["outcome"] == "return" else None


def check_model(ctx, scen, ins, st, path):
    o = scen["opts"]
    v = ctx.run(ml.lib_load_model, (path,), count=False)
    if v["outcome"] != "return":
        raise Violation("unloadable", "%s is reported as created but does not load: %s" % (path, (v["exc"] or {}).get("msg")))
    got = v["value"]
    want = expected(ctx, scen, ins)
    if want is None:
        raise Violation("false-success", "a model is reported although training on these files fails")
    d = ml.close(want["model"], got, 1e-7)
    if d:
        raise Violation("model", "the saved model differs from training with these files and options: %s" % d)
    cl = ml.clean(ins["fm"][1], ins["tm"][1], o)
    if cl is None:
        raise Violation("false-success", "a model is reported although there is too little data")
    rows, labels, X, Y = cl
    if got["labels"] != labels or got["idx"] != rows:
        raise Violation("table", "trained on samples %s features %s, expected %s, %s" % (got["idx"], got["labels"], rows, labels))
    d = ml.close({c: X[:, j].tolist() for j, c in enumerate(labels)}, got["X"], 1e-9)
    if d:
        raise Violation("table", "training table differs: %s" % d)
    for k, w in (("targets", ml.target_names(o, None)), ("name", o["model"]), ("kfold", o["kfold"]), ("max_iter", o["max_iter"]),
                 ("impute", o.get("impute", "median")), ("pthresh", o.get("pthresh", 0.75)), ("homog", o.get("homog", True))):
        if got[k] != w:
            raise Violation("option", "option %s of the saved model is %r, given %r" % (k, got[k], w))
    res = st["model_results"]
    if "frac" not in o:
        m = ctx.ref(("fit", util.md5(ins["fm"][1]), util.md5(ins["tm"][1]), json.dumps(o, sort_keys=True)), lambda: ml.fit(X, Y, o))
        d = ml.close(m, {k: got[k] for k in m}, 1e-4)
        if d:
            raise Violation("model", "the saved model is not the one these files and options give: %s" % d)
    else:
        for k, w in (("training_error", want["train"]), ("test_error", want["test"]), ("test_fraction", o["frac"]),
                     ("optimal_hyperparameters", got["opt"])):
            d = ml.close(util.jsonish(w), util.jsonish(res.get(k)), 1e-7)
            if d:
                raise Violation("results", "%s in the report differs: %s" % (k, d))


def check_pred(ctx, scen, ins, path):
    m = model_of(ctx, ins)
    if m is None:
        raise Violation("false-success", "predictions reported although the model file does not load")
    try:
        got = util.loads_any(util.rd(ctx.root, path))
    except ValueError as e:
        raise Violation("unloadable", "%s is reported as created but does not load: %s" % (path, e))
    th = scen["popts"].get("thresh", m["pthresh"])
    w = ml.ref_predict(m, ins["pm"][1], m["homog"], th, m["impute"])
    if w is None:
        raise Violation("false-success", "predictions reported although the features do not allow any")
    rows, P, dropped = w
    want = {t: {r: float(P[i][j]) for i, r in enumerate(rows)} for j, t in enumerate(m["targets"])}
    if sorted(got) != sorted(want):
        raise Violation("targets", "predicted %s, expected %s" % (sorted(got), sorted(want)))
    for t in want:
        if sorted(got[t]) != sorted(want[t]):
            raise Violation("samples", "predictions cover %s, samples satisfying the threshold %s are %s (dropped %s)"
                            % (sorted(got[t]), th, sorted(want[t]), dropped))
        d = ml.close(want[t], {k: got[t][k] for k in want[t]}, 1e-6)
        if d:
            raise Violation("values", "predictions differ from the model's: %s" % d)
    ctx.probe("pred-dropped" if dropped else "pred-all")
