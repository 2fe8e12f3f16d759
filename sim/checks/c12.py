"""C12 Results do not depend on what the process did before."""
import copy
import json
import os
import random
import threading

from .. import batch, cmds, conv, core, faults, feat, ml, proc, rawgen, util
from ..runner import Violation
from . import c08, c09

ID = "C12"
RUNS = (110, 3500)
CAP = (200, 4000)
RULE = ("each seed draws a history of 3-9 operations in one process - loading, validating, structuring (any options, diagnostics, "
        "unusable options), single summaries and interpolations, saving, featurizing with shared data sets, matrix building, "
        "splitting, training and predicting in every mode, conversions, waveforms and whole commands - on retained or new objects, "
        "some failing by their input, some by an allocation failure or interrupt at a random line; every result is compared with "
        "the same operation alone in a fresh process, and arguments, retained inputs and module defaults with their earlier values")
ASSUME = ["a splitter homogenising features renames the columns of the matrix it was given (the suite relies on it)",
          "an operation that was itself hit by an injected failure is not judged, only what follows it"]
LINES = [core.REPO + "/beep/"]
CALLS = ["load", "validate", "structure", "structure", "structure", "summarize", "interpolate", "paused", "life", "save",
         "diagsum", "unstructure"]


# ---------------------------------------------------------------- generation
def gen_params(rng):
    p = {"resolution": rng.choice([3, 5, 9]), "diagnostic_resolution": rng.choice([4, 6])}
    if rng.random() < 0.3:
        p["nominal_capacity"] = rng.choice([1.0, 4.84])
    if rng.random() < 0.3:
        p["full_fast_charge"] = rng.choice([0.6, 0.9])
    if rng.random() < 0.25:
        p["v_range"] = rng.choice([[2.5, 3.3], [2.0, 3.6]])
    if rng.random() < 0.2:
        p["charge_axis"] = rng.choice(["voltage", "test_time", "no_such_axis"])
    if rng.random() < 0.2:
        p["discharge_axis"] = rng.choice(["test_time", "discharge_capacity", "no_such_axis"])
    if rng.random() < 0.2:
        p["exclude_cycles"] = rng.choice([[1], [0, 1]])
    return p


def gen_q(rng, scen):
    x = rng.random()
    if x < 0.45:
        q = {"t": "dp", "file": rng.randrange(len(scen["files"])), "call": rng.choice(CALLS), "p": gen_params(rng)}
        if rng.random() < 0.35:
            q["diag"] = rng.choice(c08.DIAG + [{"rpt": [99]}])
            q["diagobj"] = rng.random() < 0.5
        elif rng.random() < 0.1:
            q.update(call="stepdiag", rule=rng.choice(["contains", "exact"]), steps=rng.choice([[[1], [2, 3]], [[1, 2, 3, 4]], [[1, 2]]]))
    elif x < 0.62 and scen["sfiles"]:
        j = rng.randrange(len(scen["sfiles"]))
        diag = scen["sfiles"][j].get("raw", {}).get("kind") == "diag"
        q = dict(rng.choice(feat.gen_feats(rng, 0.9 if diag else 0.1)), t="feat", file=j, save=rng.random() < 0.4)
    elif x < 0.64 and scen["sfiles"]:
        q = {"t": "pca", "files": [rng.randrange(len(scen["sfiles"])) for _ in range(rng.randint(1, 2))],
             "qty": rng.choice(["discharge_capacity", "internal_resistance"]), "cycles": sorted(rng.sample(range(0, 8), 5)),
             "seed": rng.randrange(100)}
    elif x < 0.7:
        q = {"t": "matrix", "any": []}
        keys = set()
        for _ in range(rng.randint(1, 3)):
            a = rng.choice(scen["any"])
            if c09.akey(a) not in keys:
                keys.add(c09.akey(a))
                q["any"].append(a)
        q["save"] = rng.random() < 0.3
    elif x < 0.84:
        q = dict(rng.choice(scen["models"]), t="model")
        q["mode"] = rng.choice(["all", "frac", "subset"])
        q["seed"] = rng.randrange(1000)
        q["share"] = rng.choice(["matrices", "experiment", "experiment"])
        q["pred"] = rng.choice([None, 0, 1])
        q["thresh"] = rng.choice([None, 0.3])
        q["asdf"] = rng.random() < 0.5
    elif x < 0.88:
        q = dict(rng.choice(scen["splits"]), t="split")
    elif x < 0.94:
        q = {"t": "conv", "c": rng.choice(scen["convs"])}
    else:
        q = {"t": "cli", "c": rng.choice(scen["cmds"])}
    q["new"] = rng.random() < 0.3
    return q


def gen_world(rng):
    s = {"files": [dict(c08.gen_file(rng), id=j) for j in range(rng.choice([1, 1, 2]))], "sfiles": []}
    for f in s["files"]:
        if rng.random() < 0.12:
            f["damage"], f["damage_arg"] = rng.choice(["truncate", "badvalue", "text"]), round(rng.uniform(0.1, 0.95), 3)
        if rng.random() < 0.3:
            f["seed"] = 6 * rng.randrange(80) + 3         # named after a project with its own validation schema
    for j in range(rng.choice([0, 1, 2])):
        f = feat.gen_file(rng, j, 0.1, 0.4)
        f["dir"] = "/sim/in/hist"
        s["sfiles"].append(f)
    s["any"] = [c09.gen_any(rng, rng.randrange(3), j) for j in range(3)]
    s["models"], s["splits"] = [], []
    for _ in range(2):
        o = ml.gen_opts(rng)
        o.pop("frac", None)
        sp = ml.gen_spec(rng, n=rng.choice([8, 12]))
        if rng.random() < 0.2:
            sp["inf"] = 1
        s["models"].append({"spec": sp, "opts": o,
                            "pspecs": [dict(sp, n=rng.choice([1, 4]), first=50, nan=rng.choice([0, 0.3])) for _ in range(2)]})
    s["splits"].append({"spec": ml.gen_spec(rng, n=10), "split": {
        "n_splits": rng.choice([2, 3]), "random_state": rng.choice([0, 10]), "homogenize_features": rng.random() < 0.5,
        "train_feature_drop_nan_thresh": 0.3}, "targets": ["life"]})
    if rng.random() < 0.5:
        s["splits"][0]["split"]["split_columns"] = ["group"]
    s["convs"] = [{k: v for k, v in conv.gen(rng).items() if k in ("op", "p")} for _ in range(2)]
    s["cmds"] = [cmds.gen(rng, damage=0.3, small=True) for _ in range(2)]
    return s


def gen(ctx, rng, i):
    scen = gen_world(rng)
    qs = [gen_q(rng, scen) for _ in range(rng.randint(3, 9))]
    while rng.random() < 0.6:                      # repeats
        qs.insert(rng.randint(0, len(qs)), copy.deepcopy(rng.choice(qs)))
    scen.update(qs=qs, faults=[], lines=False, knobs={"bufsize": 8192}, _shrink=["qs"])
    yield scen
    if rng.random() < 0.75:
        ctx.reset()
        full, _ = put(ctx, scen)
        r = ctx.run(lib_history, ({k: scen[k] for k in ("files", "sfiles")}, full["qs"]), (), scen["knobs"], lines=LINES, count=False)
        if r["outcome"] != "return":
            return
        v = r["value"]
        for _ in range(3):
            fl = []
            for _ in range(rng.choice([1, 1, 2])):
                o = rng.choice(v)
                if o["l1"] > o["l0"]:
                    fl.append({"kind": "line", "path": "", "nth": faults.line_step(rng, r, o["l0"], o["l1"]),
                               "do": rng.choice(["memory", "memory", "interrupt"])})
            if fl:
                yield dict(scen, faults=fl, lines=True)


def rawfile(scen, j):
    s = dict(scen["files"][j], dir="/sim/in/hist")
    return rawgen.build(s, s["id"])


def fixed(ctx, scen):
    fs = {}
    for j in range(len(scen["files"])):
        fs.update(rawfile(scen, j)[1])
    for f in scen["sfiles"]:
        fs[feat.name_of(f)] = feat.content(ctx, f)
        fs.update(feat.halves(f))
    return fs


def put(ctx, scen):
    """a copy of the scenario with the files of its commands"""
    scen = copy.deepcopy(scen)
    fs = fixed(ctx, scen)
    for q in scen["qs"]:
        if q["t"] == "cli":
            q["ins"] = cmds.inputs(ctx, q["c"])
            q["keep"] = sorted(set(fs) & {p for _, f in q["ins"] for p in f})
    ctx.write(fs)
    return scen, fs


# ---------------------------------------------------------------- inside simulated processes
class World:
    def __init__(self):
        self.o = {}
        self.seen = {}

    def get(self, key, new, make):
        if new or key not in self.o:
            v = make()
            self.o[key] = v
        return self.o[key]


PRE = {}


def tp(name):
    """a scratch file of the calling thread"""
    return "/sim/tmp/" + PRE.get(threading.get_ident(), "") + name


class quiet:
    """the harness's own file accesses: not part of the history"""

    def __enter__(self):
        core.CUR.inhibit += 1

    def __exit__(self, *a):
        core.CUR.inhibit -= 1


def disk(files, remove=()):
    with quiet():
        for d in remove:
            for a, ds, fs in os.walk(d, topdown=False):
                for f in fs:
                    os.unlink(os.path.join(a, f))
                for x in ds:
                    os.rmdir(os.path.join(a, x))
        for p, b in files.items():
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)


def core_read(p):
    with quiet():
        try:
            with open(p, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None


def gone(p):
    with quiet():
        os.unlink(p)


def snap_of(*tops):
    out = {}
    with quiet():
        ps = [os.path.join(a, f) for t in tops for a, ds, fs in os.walk(t) for f in fs]
    return {p: core_read(p) for p in sorted(ps)}


def config():
    """defaults that calls rely on"""
    import sys
    import beep.conversion_schemas as cs
    from beep.features.base import BEEPFeaturizer
    out = {"cwd": os.getcwd(), "env": {k: v for k, v in os.environ.items() if k.startswith(("BEEP", "TZ", "AWS"))}}
    for n, v in sorted(vars(cs).items()):
        if isinstance(v, (dict, list)) and n.isupper():
            out["cs." + n] = json.dumps(util.canon(v), default=str)

    def subs(c):
        for s in c.__subclasses__():
            yield s
            yield from subs(s)
    for c in subs(BEEPFeaturizer):
        out["defaults." + c.__module__ + c.__name__] = json.dumps(util.canon(c.DEFAULT_HYPERPARAMETERS), default=str)
    for m in sorted(sys.modules):
        if m.startswith("beep.") and not m.startswith("beep.tests") and m != "beep.conversion_schemas":
            for n, v in sorted(vars(sys.modules[m]).items()):
                if n.isupper() and isinstance(v, (dict, list, tuple, set, str, int, float)):
                    out[m + "." + n] = json.dumps(util.canon(v), default=str)
    return out


def err(e):
    core.CUR.out.append("ERR %s: %s\n" % (type(e).__name__, str(e)[:150]))
    return "error " + type(e).__name__


def dpstate(dp):
    d = util.dp_values(dp)
    d["labels"] = util.labels(dp.structured_summary)
    (d["metadata"] or {}).pop("_today_datetime", None)
    return d


def clean_json(b):
    def walk(x):
        if isinstance(x, dict):
            return {k: walk(v) for k, v in x.items() if k != "_today_datetime"}
        if isinstance(x, list):
            return [walk(v) for v in x]
        return x
    return walk(util.loads_any(b))


def do_dp(w, scen, q, mut):
    from beep.structure.diagnostic import DiagnosticConfig
    main, _ = rawfile(scen, q["file"])
    c = q["call"]
    dp = w.get("dp%d" % q["file"], q["new"] or c == "load", lambda: c08.load_raw(main, scen["files"][q["file"]]["kind"]))
    if c == "load":
        return dpstate(dp)
    raw = util.canon(dp.raw_data)
    if c == "validate":
        v = dp.validate()
        out = [bool(v[0]), dp.schema]
        if util.canon(dp.raw_data) != raw:
            mut.append("validate changed the raw data")
        return out
    if c == "unstructure":
        dp.unstructure()
        return dpstate(dp)
    if c == "stepdiag":
        crit = {"rpt": (q["rule"], q["steps"]), "hppc": ("contains", [[3, 4]])}
        c1 = copy.deepcopy(crit)
        dp.diagnostic = w.get("sd%d" % q["file"] + json.dumps(crit), True, lambda: DiagnosticConfig.from_step_numbers(dp.raw_data, crit))
        if crit != c1 or util.canon(dp.raw_data) != raw:
            mut.append("choosing diagnostic cycles by their steps changed its arguments")
        out = [{k: sorted(int(x) for x in v) for k, v in dp.diagnostic.cycle_type_to_cycle_ix.items()}, sorted(int(x) for x in dp.diagnostic.all_ix)]
        return [out, util.values(dp.summarize_diagnostic())]
    if q.get("diag"):
        k = "cfg" + json.dumps(q["diag"], sort_keys=True)
        cfg = w.get(k, not q.get("diagobj"), lambda: DiagnosticConfig(copy.deepcopy(q["diag"])))
        before = util.canon(cfg.as_dict())
        dp.diagnostic = cfg
    else:
        dp.diagnostic = None
    p = copy.deepcopy(q["p"])
    p0 = copy.deepcopy(p)
    sub = {k: p[k] for k in ("nominal_capacity", "full_fast_charge") if k in p}
    try:
        if c in ("structure", "save", "life"):
            dp.structure(**p)
            out = dpstate(dp)
            if c == "life":
                out = [util.values(dp.capacities_to_cycles()), util.jsonish(dp.get_cycle_life(2, 0.97)),
                       util.values(dp.cycles_to_capacities(0, 4, 1))]
            if c == "save":
                f = tp("h.json")
                dp.to_json_file(f, omit_raw=bool(q["file"] % 2))
                out = [out, clean_json(core_read(f))]
        elif c == "summarize":
            x = dp.summarize_cycles(**sub)
            out = [util.values(x), util.labels(x)]
        elif c == "interpolate":
            x = dp.interpolate_cycles(v_range=p.get("v_range"), resolution=p["resolution"],
                                      charge_axis=p.get("charge_axis", "charge_capacity"),
                                      discharge_axis=p.get("discharge_axis", "voltage"),
                                      exclude_cycles=p.get("exclude_cycles"))
            out = util.values(x)
        elif c == "diagsum":
            x, y = dp.summarize_diagnostic(), dp.interpolate_diagnostic_cycles(p["diagnostic_resolution"], p["diagnostic_resolution"])
            out = [util.values(x), util.values(y)]
        else:
            out = util.jsonish(dp.paused_intervals)
    finally:
        if util.canon(dp.raw_data) != raw:
            mut.append("%s changed the raw data" % c)
        if p != p0:
            mut.append("%s changed its options" % c)
        if q.get("diag") and util.canon(cfg.as_dict()) != before:
            mut.append("%s changed the diagnostic configuration" % c)
    return out


def do_feat(w, scen, q, mut):
    from beep.structure.cli import auto_load_processed
    path = feat.name_of(scen["sfiles"][q["file"]])
    dp = w.get("sdp%d" % q["file"], q["new"], lambda: auto_load_processed(path))
    if not hasattr(dp, "structured_summary"):
        return "error no dataset"
    hp = None if q["hp"] is None else feat.full_hp(q)
    if hp is not None:
        hp = w.get("hp" + json.dumps([q["name"], hp], sort_keys=True, default=str), q["new"], lambda: copy.deepcopy(hp))
    before = (dpstate(dp), copy.deepcopy(dp.paths), copy.deepcopy(hp))
    try:
        f = feat.fclass(q["name"])(dp, hp)
        v = f.validate()
        out = [bool(v[0])]
        if v[0]:
            f.create_features()
            out.append(c09.featv(f))
            if q["save"]:
                f.to_json_file(tp("f.json"))
                out.append(clean_json(core_read(tp("f.json"))))
    finally:
        after = (dpstate(dp), dp.paths, hp)
        for a, b, n in zip(before, after, ("data set", "file paths of the data set", "hyperparameters given")):
            d = util.diff(util.canon_dict(a), util.canon_dict(b))
            if d:
                mut.append("%s changed the %s: %s" % (q["name"], n, d))
    return out


def do_pca(w, scen, q, mut):
    """principal components of structured files, applied to other rows"""
    import numpy as np
    from beep.features.principal_components import PrincipalComponents, pivot_data
    names = json.dumps({"file_list": [feat.name_of(scen["sfiles"][j]) for j in q["files"]]})

    def make():
        cyc = np.array(q["cycles"])
        d = pivot_data(names, q["qty"], "voltage", cyc).dropna(axis=1)
        if list(cyc) != q["cycles"]:
            mut.append("choosing rows for principal components changed the list of cycles")
        return d, PrincipalComponents(d, n_components=min(d.shape), explained_variance_threshold=0.6)
    d, pc = w.get("pca" + json.dumps([names, q["qty"], q["cycles"]]), q["new"], make)
    rs = np.random.RandomState(q["seed"])
    x = d + rs.normal(0, 0.1, d.shape)
    x0, d0 = util.values(x), util.values(d)

    def arr(a):
        return util.jsonish([[float("%.6g" % v) for v in np.ravel(r)] for r in np.atleast_1d(a)])
    emb = pc.get_pca_embeddings(x)
    dist, far = pc.get_pca_decomposition_outliers(x)
    errs, bad = pc.get_reconstruction_error_outliers(x)
    out = [d0, int(pc.min_components), arr(np.abs(pc.embeddings)), arr(np.abs(emb)), arr(pc.get_pca_reconstruction(emb)), arr(dist),
           [bool(v) for v in far], arr(errs), [bool(v) for v in bad], arr(pc.reconstruction_errors)]
    if util.values(x) != x0 or util.values(d) != d0 or util.values(pc.data) != d0:
        mut.append("principal components changed the table they were given")
    return out


def do_matrix(w, scen, q, mut):
    from beep.features.base import BEEPFeatureMatrix
    fs = [w.get("any" + c09.akey(a) + json.dumps(a), q["new"], lambda a=a: c09.make_any(a)) for a in q["any"]]
    before = [c09.featv(f) for f in fs]
    try:
        m = BEEPFeatureMatrix(fs)
        out = c09.matv(m)
        if q["save"]:
            m.to_json_file(tp("m2.json"))
            out = [out, clean_json(core_read(tp("m2.json")))]
    finally:
        d = util.diff(before, [c09.featv(f) for f in fs])
        if d:
            mut.append("joining changed a featurizer: %s" % d)
    return out


def do_model(w, scen, q, mut):
    import numpy as np
    from beep.model import BEEPLinearModelExperiment
    key = json.dumps([q["spec"], q["opts"]], sort_keys=True)
    fm = w.get("fm" + json.dumps(q["spec"], sort_keys=True), q["new"], lambda: c09.make_matrix(q["spec"], "features", tp("")))
    tm = w.get("tm" + json.dumps(q["spec"], sort_keys=True), q["new"], lambda: c09.make_matrix(q["spec"], "targets", tp("")))
    ins = [fm, tm]
    pm = None
    if q["pred"] is not None:
        ps = q["pspecs"][q["pred"]]
        pm = w.get("pm" + json.dumps(ps, sort_keys=True), q["new"], lambda: c09.make_matrix(ps, "features", tp("")))
        ins.append(pm)
    before = [c09.matv(m) for m in ins]
    o = q["opts"]
    kw = ml.lib_kwargs(o)
    kw0 = copy.deepcopy(kw)
    tg = ml.target_names(o, None)
    try:
        b = w.get("exp" + key, q["new"] or q["share"] == "matrices", lambda: BEEPLinearModelExperiment(
            feature_matrix=fm, target_matrix=tm, targets=tg, model_name=o["model"], **kw))
        np.random.seed(q["seed"])
        if q["mode"] == "frac":
            sc = b.train_and_score(0.7)[1:]
        elif q["mode"] == "subset":
            n = max(4, len(b.X) // 2)
            sc = b.train(b.X.iloc[:n], b.y.iloc[:n])[1:]
        else:
            sc = b.train()[1:]
        out = [ml.model_values(b), util.jsonish(sc)]
        if pm is not None:
            old = b.predict_sample_nan_thresh
            try:
                if q["thresh"] is not None:
                    b.predict_sample_nan_thresh = q["thresh"]
                for _ in range(2):
                    y, dr = b.predict(pm.matrix if q["asdf"] else pm)
                    out.append([[str(i) for i in y.index], util.values(y), [str(x) for x in dr]])
            finally:
                b.predict_sample_nan_thresh = old
    finally:
        for m, s, n in zip(ins, before, ("feature matrix", "target matrix", "prediction matrix")):
            d = util.diff(s, c09.matv(m))
            if d:
                mut.append("training/predicting changed the %s: %s" % (n, d))
        if kw != kw0:
            mut.append("the options of the experiment changed")
    return out


def do_split(w, scen, q, mut):
    s = w.get("split" + json.dumps([q["spec"], q["split"]], sort_keys=True), q["new"], lambda: c09.make_splitter(q))
    x = (util.canon(s.X), util.canon(s.y))
    out = [c09.dsv(d) for d in s.split()]
    if (util.canon(s.X), util.canon(s.y)) != x:
        mut.append("split() changed the samples")
    return out


def do_conv(w, scen, q, mut):
    c = q["c"]
    pre = PRE.get(threading.get_ident(), "")
    if pre:                                             # the thread's own folders
        i, o = "/sim/in/" + pre + "/", "/sim/out/" + pre + "/"
    else:
        i, o = conv.IN, conv.OUT
    ins = {p.replace(conv.IN, i, 1): b for p, b in conv.inputs(c).items()}
    disk({o + ".keep": b""}, remove=[o[:-1]] if pre else ["/sim/out", "/sim/w"])
    disk(ins)
    try:
        try:
            v = conv.lib(c["op"], c["p"], [p.replace(conv.OUT, o, 1) for p in conv.outs(c)], i, o)
        except conv.Changed as e:
            mut.append("the procedure being saved: %s" % e)
            raise
        out = [util.jsonish(v), snap_of(o[:-1])]
        return [json.loads(json.dumps(out[0]).replace(o, conv.OUT)), {p.replace(o, conv.OUT, 1): b for p, b in out[1].items()}]
    finally:
        for p, b in ins.items():
            if core_read(p) != b:
                mut.append("input %s changed" % p)
            else:
                gone(p)


def do_cli(w, scen, q, mut):
    c = q["c"]
    here = core.CUR.getcwd()
    disk({"/sim/out/.k": b""}, remove=sorted({"/sim/out", "/sim/w", here}))
    fs = {}
    for _, f in q["ins"]:
        fs.update(f)
    disk(fs)
    code = None
    try:
        proc.cli(cmds.args(c, [(m, {}) for m, _ in q["ins"]]))
    except SystemExit as e:
        code = e.code
    snap = snap_of(*sorted({"/sim/out", "/sim/w", here}))
    for p, b in fs.items():
        if core_read(p) != b:
            mut.append("input %s changed" % p)
        elif p not in q["keep"]:
            gone(p)
    out = {}
    for p, b in snap.items():
        try:
            v = cmds.volatile(clean_json(b)) if p.endswith((".json", ".json.gz")) else b
        except ValueError:
            v = b"undecodable" if b[:2] == b"\x1f\x8b" else b
        out[cmds.TIME.sub("-TIME", p)] = v
    return [code, out]


DO = {"pca": do_pca, "dp": do_dp, "feat": do_feat, "matrix": do_matrix, "model": do_model, "split": do_split, "conv": do_conv, "cli": do_cli}


QUIET = ("dp", "feat", "pca", "matrix", "split", "conv")        # these draw nothing
G0 = [__import__("numpy").random.RandomState(7).random_sample(), random.Random(7).random()]


def lib_history(scen, qs, hits=lambda: len(core.CUR.fired)):
    import numpy as np
    w = World()
    out = []
    c0 = config()
    for q in qs:
        mut = []
        f0, l0 = hits(), core.CUR.nlines
        np.random.seed(7)                               # the state of the generator is an input
        random.seed(7)
        try:
            v = DO[q["t"]](w, scen, q, mut)
        except KeyboardInterrupt as e:
            v = err(e)
        except (Exception, SystemExit) as e:
            v = err(e)
        except BaseException as e:                      # beep's own errors derive from BaseException
            if not type(e).__name__.startswith("BEEP") and "BEEP" not in str([c.__name__ for c in type(e).__mro__]):
                raise
            v = err(e)
        l1 = core.CUR.nlines
        if q["t"] in QUIET and threading.get_ident() not in PRE:
            g1 = [np.random.random_sample(), random.random()]
            if g1 != G0:
                mut.append("the shared random generators, which training on a fraction relies on, are no longer in their state")
        c1 = config()
        for k in c0:
            if c1.get(k) != c0[k]:
                mut.append("%s is no longer what it was" % k)
        c0 = c1
        out.append({"v": v, "mut": mut, "hit": hits() > f0, "l0": l0, "l1": l1})
    return out


def lib_alone(scen, q):
    return lib_history(scen, [q])[0]


# ---------------------------------------------------------------- judgement
def execute(ctx, scen):
    scen, fs = put(ctx, scen)
    world = {k: scen[k] for k in ("files", "sfiles")}
    r = ctx.run(lib_history, (world, scen["qs"]), scen["faults"], scen["knobs"], lines=LINES if scen["lines"] else None)
    if r["outcome"] != "return":
        raise Violation("history", "the sequence ended with " + batch.exit_desc(r) + (r["exc"] or {}).get("tb", ""))
    done = []
    for q, g in zip(scen["qs"], r["value"]):
        what = describe(q)
        if g["hit"]:
            ctx.probe("hit")
            done.append(what + " (failure injected)")
            if g["mut"]:
                raise Violation("altered", "%s, failing halfway: %s" % (what, g["mut"][0]))
            continue
        if g["mut"]:
            raise Violation("altered", "%s: %s" % (what, g["mut"][0]))
        s = ctx.solo(fs, lib_alone, (world, dict(q, new=True)))
        if s["outcome"] != "return":
            raise Violation("alone", "%s alone in a fresh process ended with %s" % (what, batch.exit_desc(s)))
        want = s["value"]
        if want["mut"]:
            raise Violation("altered", "%s alone: %s" % (what, want["mut"][0]))
        d = util.diff(util.canon_dict(want["v"]), util.canon_dict(g["v"]))
        if d:
            raise Violation("differs", "%s gives another result than in a fresh process after [%s]: %s"
                            % (what, "; ".join(done), d))
        ctx.probe(q["t"] + ("-" + g["v"].split()[-1] if isinstance(g["v"], str) else ""))
        done.append(what)


def describe(q):
    t = q["t"]
    s = {"dp": lambda: "%s of file %d %s %s" % (q["call"], q["file"], q["p"], q.get("diag", "")),
         "feat": lambda: "%s %s on data set %d" % (q["name"], q["hp"], q["file"]), "pca": lambda: "principal components of %s" % q["files"], "matrix": lambda: "joining %d" % len(q["any"]),
         "model": lambda: "training (%s, %s, predict %s)" % (q["mode"], q["share"], q["pred"]), "split": lambda: "splitting",
         "conv": lambda: q["c"]["op"], "transfer": lambda: "transfer", "proto": lambda: "generating %d protocols" % len(q["rows"]), "cli": lambda: "command " + q["c"]["op"]}[t]()
    return s + (" (new objects)" if q["new"] else "")
