"""Featurizing batches: generation, execution, references.  Shared by C03, C04, C05, C06, C12, C13, C18."""
import itertools
import json
import os

from . import batch, core, proc, rawgen, util
from .runner import Violation

STATUS = "/sim/w/status.json"
FIXTURES = ["PreDiag_000233_00021F_truncated_structure.json", "PredictionDiagnostics_000107_0001B9_structure_short.json",
            "structure_insufficient.json"]
CORE = ["HPPCResistanceVoltageFeatures", "DeltaQFastCharge", "DiagnosticSummaryStats", "CycleSummaryStats"]
TARGETS = ["TrajectoryFastCharge", "DiagnosticProperties"]
DIAG = [{"kind": "diag", "seed": 0, "rows": 8}, {"kind": "diag", "seed": 1, "rows": 8, "fade": 0.03, "blocks": [4, 2]},
        {"kind": "diag", "seed": 2, "rows": 7, "fade": 0.02, "blocks": [3, 2, 1], "gaps": 2}]
HALF = {"/sim/in/half/anode.csv": "anode", "/sim/in/half/cathode.csv": "cathode"}
HALFHP = {"anode_file": "/sim/in/half/anode.csv", "cathode_file": "/sim/in/half/cathode.csv"}
DMG = ["truncate", "empty", "garbage", "flip", "list", "object", "unstructured", "number", "missing", "cutjson"]


def feat_lines():
    return [core.REPO + "/beep/features/", core.REPO + "/beep/structure/", os.path.dirname(__file__) + "/simfeats.py"]


# ---------------------------------------------------------------- inputs
def gen_file(rng, i, damage_p=0.2, diag_p=0.25):
    s = {"id": i, "raw": {"kind": "arbin", "seed": rng.randrange(12), "cycles": rng.choice([3, 4, 4, 6, 15]), "rows": 7,
                          "cap": rng.choice([1.0, 1.08]), "dt": 60.0, "fade": rng.choice([0.0, 0.03, 0.08]), "meta": 1},
         "res": rng.choice([4, 8]), "gz": rng.random() < 0.6, "noraw": rng.random() < 0.5}
    if s["raw"]["cycles"] == 15:
        s["raw"].update(fade=0.02, seed=rng.randrange(3), cap=1.08)
        s["res"] = 8
    if rng.random() < 0.12:
        s = {"id": i, "fixture": rng.choice(FIXTURES), "gz": False}
    if rng.random() < diag_p:
        s = {"id": i, "raw": dict(rng.choice(DIAG)), "gz": rng.random() < 0.5, "noraw": True, "res": 20,
             "base": "PreDiag_000%d_%06X_structured" % (233 + rng.randrange(3), i)}
    if rng.random() < damage_p:
        s["damage"] = rng.choice(DMG)
        s["arg"] = round(rng.uniform(0.05, 0.98), 3)
    if rng.random() < 0.2:
        s["dir"] = "/sim/in/d%d" % rng.randrange(2)
    return s


def name_of(s):
    d = s.get("dir", "/sim/in")
    b = s.get("base") or ("cell%d_structured" % s["id"])
    return "%s/%s.json%s" % (d, b, ".gz" if s["gz"] else "")


def lib_make(main, res, noraw, out, structure=True):
    from beep.structure.cli import auto_load
    dp = auto_load(main)
    if structure and isinstance(res, dict):
        from beep.structure.diagnostic import DiagnosticConfig
        dp.diagnostic = DiagnosticConfig({k: set(v) for k, v in res["types"].items()}, parameter_set=res["set"])
        dp.structure(v_range=[2.7, 4.2], resolution=res["res"], diagnostic_resolution=res["res"], nominal_capacity=4.84)
    elif structure:
        dp.structure(resolution=res)
    dp.to_json_file(out, omit_raw=noraw)


def make_structured(ctx, s):
    m, fs = rawgen.build(s["raw"], 5)
    out = "/sim/out/x.json" + (".gz" if s["gz"] else "")
    res = s["res"]
    if s["raw"]["kind"] == "diag":
        cyc = rawgen.diag_cycles(s["raw"])
        res = {"res": res, "set": "Tesla21700", "types": {t: sorted(c for c in cyc if cyc[c] == t) for t in rawgen.DIAG_TYPES}}
    r = ctx.solo(fs, lib_make, (m, res, s["noraw"], out, s.get("damage") != "unstructured"), keep="all")
    if r["outcome"] != "return":
        raise RuntimeError("input generation failed: %s" % (r["exc"] or {}).get("tb"))
    return r["fs"][out]


def content(ctx, s):
    if "fixture" in s:
        with open(os.path.join(core.REPO, "beep/tests/test_files", s["fixture"]), "rb") as f:
            b = f.read()
    else:
        b = ctx.shared(("structured", s["raw"], s["res"], s["gz"], s["noraw"], s.get("damage") == "unstructured"),
                       lambda: make_structured(ctx, s))
    d = s.get("damage")
    if d in ("truncate", "empty", "garbage", "flip"):
        b = rawgen.damage(b, d, s["arg"])
    elif d == "cutjson":
        j = util.loads_any(b)
        j.pop("summary", None)
        b = enc(json.dumps(j), s["gz"])
    elif d in ("list", "object", "number"):
        b = enc({"list": "[1, 2]", "object": "{\"a\": 1}", "number": "5"}[d], s["gz"])
    return b


def enc(text, gz):
    import gzip
    b = text.encode()
    return gzip.compress(b, mtime=0) if gz else b


def gen_diag_feat(rng):
    k = rng.choice(["HPPCResistanceVoltageFeatures", "DiagnosticSummaryStats", "DiagnosticProperties", "CycleSummaryStats",
                    "TrajectoryFastCharge", "beep.features.core.RawInterpolatedData", "beep.features.core.ChargingProtocol",
                    "beep.features.core.ExclusionCriteria", "IntracellFeatures", "IntracellCycles",
                    "beep.features.intracell_losses_v2.IntracellFeaturesV2"])
    hp = None
    c = k.rpartition(".")[2]
    if c.startswith("Intracell"):
        hp = dict(HALFHP) if rng.random() < 0.9 else None
        if hp and rng.random() < 0.3:
            hp["step_type"] = 1
    elif c == "ExclusionCriteria":
        hp = {"throughput_first_n_cycles": {"n": rng.choice([3, 3, 4, 100]), "cutoff": 20}}
    elif c == "RawInterpolatedData" and rng.random() < 0.7:
        hp = {"metrics": rng.choice([["capacity"], ["energy", "test_time"], ["dQdV", "voltage"]]), "diag_positions": [0, 1]}
    elif c == "ChargingProtocol" and rng.random() < 0.7:
        hp = {"quantities": rng.choice([["charge_cutoff_voltage"], ["charge_constant_current_1", "discharge_cutoff_voltage"], ["nope"]])}
    elif c == "DiagnosticProperties" and rng.random() < 0.5:
        hp = {"quantities": rng.choice([["discharge_energy"], ["discharge_capacity", "discharge_energy"]]), "threshold": rng.choice([0.95, 0.5]),
              "cycle_type": rng.choice(["rpt_1C", "rpt_0.2C"]), "interpolation_axes": rng.choice([["normalized_regular_throughput", "cycle_index"], ["cycle_index"]])}
        if rng.random() < 0.3:
            hp["extrapolate_threshold"] = False
        if rng.random() < 0.3:
            hp["filter_kinks"] = 0.04
    elif c == "DiagnosticSummaryStats" and rng.random() < 0.5:
        hp = {"test_time_filter_sec": 1000000, "cycle_index_filter": 6, "diagnostic_cycle_type": rng.choice(["rpt_1C", "rpt_0.2C"]),
              "diag_pos_list": rng.choice([[0, 1], [1, 0], [0, 2]])}
        if rng.random() < 0.4:
            hp["statistics"] = rng.choice([["var", "mean"], ["square", "abs", "min"]])
    elif c == "CycleSummaryStats":
        hp = {"cycle_comp_num": rng.choice([[0, 1], [5, 0]])}
    return {"name": k, "hp": hp}


def gen_feats(rng, diag=0.0):
    out = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < diag:
            out.append(gen_diag_feat(rng))
            continue
        k = rng.choice(["sim.simfeats.SimMean", "sim.simfeats.SimMean", "sim.simfeats.SimPick", "CycleSummaryStats",
                        "TrajectoryFastCharge", "DeltaQFastCharge", "DiagnosticProperties", "HPPCResistanceVoltageFeatures",
                        "DiagnosticSummaryStats", "IntracellCycles", "sim.simfeats.SimPick"])
        hp = None
        if k.endswith("SimMean") and rng.random() < 0.7:
            hp = {}
            if rng.random() < 0.6:
                hp["column"] = rng.choice(["charge_capacity", "discharge_energy", "nope"])
            if rng.random() < 0.5:
                hp["scale"] = rng.choice([2.0, -1.5])
            if rng.random() < 0.4:
                hp["opts"] = {"power": rng.choice([2, 3])}
        elif k.endswith("SimPick") and rng.random() < 0.9:
            hp = {"mode": rng.choice(["ok", "invalid", "value", "base", "key", "memory", "two-rows", "exit"]),
                  "modulus": rng.choice([2, 3])}
        elif k == "CycleSummaryStats" and rng.random() < 0.9:
            hp = {"cycle_comp_num": rng.choice([[0, 2], [1, 2], [2, 1], [2, 0], [1, 50]])}
            if rng.random() < 0.3:
                hp["statistics"] = rng.choice([["var", "mean"], ["square", "abs", "min"], ["kurtosis", "nope"]])
        elif k == "TrajectoryFastCharge" and rng.random() < 0.5:
            hp = {"thresh_max_cap": 0.95, "thresh_min_cap": 0.8, "interval_cap": 0.05}
        elif k == "DeltaQFastCharge" and rng.random() < 0.8:
            hp = {"init_pred_cycle": 5, "mid_pred_cycle": 11, "final_pred_cycle": 12,
                  "n_nominal_cycles": rng.choice([3, 40])}
        out.append({"name": k, "hp": hp})
    # the same combination twice cannot be joined into a matrix: rare
    if rng.random() > 0.05:
        seen, uniq = set(), []
        for f in out:
            key = json.dumps([f["name"], full_hp(f)], sort_keys=True, default=str)
            if key not in seen:
                seen.add(key)
                uniq.append(f)
        out = uniq
    if rng.random() < 0.08:
        out = [{"name": n, "hp": None} for n in CORE]
    elif rng.random() < 0.08:
        out = [{"name": n, "hp": None} for n in TARGETS]
    return out


def fclass(name):
    import importlib
    if "." in name:
        m, _, c = name.rpartition(".")
        return getattr(importlib.import_module(m), c)
    for m in ("beep.features.core", "beep.features.intracell_losses"):
        mod = importlib.import_module(m)
        if hasattr(mod, name):
            return getattr(mod, name)
    raise KeyError(name)


def full_hp(f):
    h = json.loads(json.dumps(fclass(f["name"]).DEFAULT_HYPERPARAMETERS))
    h.update(json.loads(json.dumps(f["hp"] or {})))
    return h


def ordered(scen):
    """-f featurizers come before -h ones"""
    fs = scen["feats"]
    return [f for f in fs if f["hp"] is None] + [f for f in fs if f["hp"] is not None]


def gen(rng, n=None, damage_p=0.2):
    n = n or rng.randint(1, 4)
    files = [gen_file(rng, j, damage_p) for j in range(n)]
    scen = {"files": files, "feats": gen_feats(rng, 0.6 if any(f.get("raw", {}).get("kind") == "diag" for f in files) else 0.05),
            "opts": {"out": rng.random() < 0.7, "outdir": rng.random() < 0.3, "inter": rng.random() < 0.5},
            "faults": [], "knobs": {"bufsize": rng.choice([128, 1024, 8192]), "dirsalt": rng.randrange(4)},
            "_shrink": ["files", "feats"]}
    if n > 1 and rng.random() < 0.15:      # same base name in two directories
        a, b = rng.sample(range(n), 2)
        scen["files"][b]["base"] = "cell%d_structured" % scen["files"][a]["id"]
        scen["files"][b]["dir"] = "/sim/in/other"
        scen["files"][b]["gz"] = scen["files"][a]["gz"]
        if scen["files"][b].get("fixture"):
            scen["files"][b]["gz"] = scen["files"][a]["gz"] = False
    if rng.random() < 0.06:
        scen["dups"] = [rng.randrange(n)]
    return scen


def halves(s):
    """the half-cell data that analyses of a diagnostic file read"""
    return {p: rawgen.half_cell(w) for p, w in HALF.items()} if s.get("raw", {}).get("kind") == "diag" else {}


def materialise(ctx, scen):
    """-> list of (path, {path: bytes})"""
    out, half = [], {}
    for s in scen["files"]:
        half.update(halves(s))
    for s in scen["files"]:
        p = name_of(s)
        out.append((p, dict({} if s.get("damage") == "missing" else {p: content(ctx, s)}, **half)))
    return out


def command(scen, mats):
    o = scen["opts"]
    a = ["-s", STATUS]
    if scen.get("halt"):
        a += ["--halt-on-error"]
    if scen.get("log"):
        a += ["-l", scen["log"]]
    a += ["featurize"]
    names = [f["name"] for f in scen["feats"] if f["hp"] is None]
    if names == CORE and all(f["hp"] is None for f in scen["feats"]):
        a += ["-f", "all_features"]
    elif names == TARGETS and all(f["hp"] is None for f in scen["feats"]):
        a += ["-f", "all_targets"]
    else:
        for n in names:
            a += ["-f", n]
    for f in scen["feats"]:
        if f["hp"] is not None:
            a += ["-h", repr({f["name"]: f["hp"]})]
    if not names:
        # -f has a default; an empty selection cannot be expressed, so one -f is always given
        a += ["-f", "sim.simfeats.SimMean"]
    if o["out"]:
        a += ["-o", "/sim/out/matrix.json" + (".gz" if o.get("gz", 1) else "")]
    if o["outdir"]:
        a += ["-d", "/sim/out"]
    if o["inter"]:
        a += ["--save-intermediates"]
    a += [m for m, _ in mats] + [mats[d][0] for d in scen.get("dups", []) if d < len(mats)]
    return a


def effective(scen):
    """featurizers in the order in which the command applies them"""
    fs = ordered(scen)
    if not any(f["hp"] is None for f in fs):
        fs = [{"name": "sim.simfeats.SimMean", "hp": None}] + fs
    return fs


def run_cli(ctx, scen, mats, plan=(), lines=None, knobs=None, count=True, args=None):
    for _, fs in mats:
        ctx.write(fs)
    k = dict(scen.get("knobs", {}))
    k.update(knobs or {})
    return ctx.run(proc.cli, (args or command(scen, mats),), plan, k, lines=lines, count=count)


# ---------------------------------------------------------------- references
def lib_featurize(path, name, hp):
    """one featurizer on one file, in the library"""
    from beep.structure.cli import auto_load_processed
    out = {"loaded": False, "valid": False, "featurized": False, "error": None, "features": None}
    try:
        dp = auto_load_processed(path)
    except BaseException as e:
        out["error"] = type(e).__name__
        return out
    out["loaded"] = True
    try:
        f = fclass(name)(structured_datapath=dp, hyperparameters=hp)
        ok, why = f.validate()
        if not ok:
            out["error"] = "BEEPFeaturizationError"
            return out
        out["valid"] = True
        f.create_features()
        out["featurized"] = True
        out["features"] = util.values(f.features)
    except BaseException as e:
        out["error"] = type(e).__name__
    return out


def ref(ctx, mat, f):
    r = ctx.solo(mat[1], lib_featurize, (mat[0], f["name"], full_hp(f)))
    if r["outcome"] != "return":
        raise RuntimeError("reference failed: %s" % r["outcome"])
    return r["value"]


def lib_load_matrix(path):
    from beep.features.base import BEEPFeatureMatrix
    m = BEEPFeatureMatrix.from_json_file(path)
    return {"index": [str(x) for x in m.matrix.index], "cols": util.values(m.matrix),
            "n": len(m.featurizers)}


def lib_load_inter(paths):
    from monty.serialization import loadfn
    out = {}
    for p in paths:
        try:
            f = loadfn(p)
            out[p] = {"cls": type(f).__name__, "hp": util.jsonish(f.hyperparameters), "features": util.values(f.features),
                      "file": f.paths.get("structured")}
        except Exception as e:
            out[p] = "unloadable %s" % type(e).__name__
    return out


def match_matrix(got, expect):
    """expect: {(file, class, hpjson): {feature: [value]}} -> list of differences

    The third part of a column name stands for the hyperparameters: it only has to be one-to-one per class.
    """
    files = sorted({k[0] for k in expect})
    if sorted(got["index"]) != files:
        return ["rows %s, expected %s" % (sorted(got["index"]), files)]
    rowof = {f: i for i, f in enumerate(got["index"])}
    bycls = {}
    for col in got["cols"]:
        parts = col.split("::")
        if len(parts) < 3:
            return ["column %r does not name feature, featurizer and hyperparameters" % col]
        bycls.setdefault(parts[-2], {}).setdefault(parts[-1], {})["::".join(parts[:-2])] = got["cols"][col]
    want = {}
    for (f, c, h), feats in expect.items():
        want.setdefault(c, {}).setdefault(h, {})[f] = feats
    if sorted(bycls) != sorted(want):
        return ["featurizers in columns %s, expected %s" % (sorted(bycls), sorted(want))]
    for c in want:
        hs, gs = sorted(want[c]), sorted(bycls[c])
        if len(hs) != len(gs):
            return ["%s: %d hyperparameter sets in columns, expected %d" % (c, len(gs), len(hs))]
        best = None
        for perm in itertools.permutations(gs):
            d = []
            for h, g in zip(hs, perm):
                cols = bycls[c][g]
                names = {n for fe in want[c][h].values() for n in fe}
                if names != set(cols):
                    d.append("%s: feature columns differ: %s" % (c, sorted(names ^ set(cols))[:5]))
                    continue
                for f in files:
                    for n in names:
                        w = want[c][h].get(f, {}).get(n, ["NaN"])[0]
                        v = cols[n][rowof[f]]
                        if w != v and not (isinstance(w, (int, float)) and isinstance(v, (int, float)) and float(w) == float(v)):
                            d.append("%s of %s %s on %s is %r, alone %r" % (n, c, h, f, v, w))
            if not d:
                best = None
                break
            if best is None or len(d) < len(best):
                best = d
        if best:
            return best[:4]
    return []
