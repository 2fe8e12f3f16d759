"""Structuring batches: generation, execution, reference results.  Shared by C01, C02, C05, C06, C13, C18."""
import json
import os

from . import proc, rawgen, util
from .runner import Violation

STATUS = "/sim/w/status.json"
LINES_STRUCT = None      # set lazily


def struct_lines():
    from . import core
    return [core.REPO + "/beep/structure/"]


KIND_W = [("arbin", 6), ("maccor", 3), ("barchive", 3), ("neware", 2), ("biologic", 1), ("indigo", 1)]
DAMAGE = ["truncate", "empty", "garbage", "flip", "zeros", "header", "text", "badvalue", "word", "truncate", "badvalue"]


def wchoice(rng, pairs):
    tot = sum(w for _, w in pairs)
    x = rng.random() * tot
    for v, w in pairs:
        x -= w
        if x <= 0:
            return v
    return pairs[-1][0]


def gen_spec(rng, i, damage_p=0.3, kinds=None):
    k = wchoice(rng, kinds or KIND_W)
    s = {"kind": k, "seed": rng.randrange(1000), "cycles": rng.randint(2, 4), "rows": rng.randint(6, 14),
         "cap": round(rng.uniform(0.9, 1.15), 3), "dt": rng.choice([30.0, 60.0, 600.0])}
    if k == "arbin":
        if rng.random() < 0.5:
            s["meta"] = 1
            if rng.random() < 0.15:
                s["meta_damage"] = rng.choice(["empty", "garbage", "truncate"])
        if rng.random() < 0.2:
            s["drop"] = rng.choice([["Temperature"], ["Internal_Resistance"], ["Internal_Resistance", "dV/dt"]])
        if rng.random() < 0.08:
            s["spike"] = 1
        if rng.random() < 0.15:
            s["name"] = "FastCharge_%06d_CH%d.csv" % (i, i)
    if k == "maccor":
        if rng.random() < 0.3:
            s["waveform"] = 1
        if rng.random() < 0.3:
            s["gap"] = 4000.0
    if k == "biologic" and rng.random() < 0.15:
        s["no_mpl"] = 1
    if rng.random() < damage_p:
        s["damage"] = rng.choice(DAMAGE)
        s["damage_arg"] = round(rng.uniform(0.05, 0.98), 3)
    if rng.random() < 0.1:
        s["name"] = rng.choice(["unknown%d.dat", "odd%d.csv"]) % i
    if rng.random() < 0.25:
        s["dir"] = "/sim/in/sub%d" % rng.randrange(2)
    return s


def enlarge(rng, s):
    """the same file with more records than any buffer holds"""
    s.update(rng.choice([{"cycles": 2, "rows": 700}, {"cycles": 3, "rows": 2200}, {"cycles": 130, "rows": 8}]))
    return s


def gen_opts(rng):
    o = {"resolution": rng.choice([3, 5, 8, 11])}
    if rng.random() < 0.2:
        o["validation_only"] = True
    if rng.random() < 0.3:
        o["no_raw"] = True
    if rng.random() < 0.2:
        o["v_range"] = rng.choice([[2.5, 3.3], [2.0, 3.6]])
    if rng.random() < 0.2:
        o["nominal_capacity"] = rng.choice([1.0, 1.1, 4.84])
    if rng.random() < 0.2:
        o["full_fast_charge"] = rng.choice([0.6, 0.85])
    if rng.random() < 0.2:
        o["charge_axis"] = rng.choice(["voltage", "test_time"])
    if rng.random() < 0.2:
        o["discharge_axis"] = rng.choice(["discharge_capacity", "test_time", "no_such_axis"])
    if rng.random() < 0.15:
        o["automatic"] = True
    o["out"] = rng.choice(["cwd", "cwd", "dir", "names", "names-json"])
    return o


def out_path(o, i, main):
    base = os.path.basename(main)
    auto = os.path.splitext(base)[0] + "_structured.json.gz"
    if o["out"] == "cwd":
        return "/sim/w/" + auto
    if o["out"] == "dir":
        return "/sim/out/" + auto
    return "/sim/out/named_%d.json%s" % (i, "" if o["out"] == "names-json" else ".gz")


def opt_args(o):
    a = []
    for k, f in (("resolution", "-r"), ("nominal_capacity", "-n"), ("full_fast_charge", "-f"), ("charge_axis", "-c"),
                 ("discharge_axis", "-x")):
        if k in o:
            a += [f, str(o[k])]
    if "v_range" in o:
        a += ["-v", str(o["v_range"][0]), str(o["v_range"][1])]
    for k, f in (("validation_only", "--validation-only"), ("no_raw", "--no-raw"), ("automatic", "--automatic")):
        if o.get(k):
            a += [f]
    if o["out"] == "dir":
        a += ["-d", "/sim/out"]
    return a


def materialise(scen):
    """-> list of (main path, files dict)"""
    out = []
    for i, s in enumerate(scen["files"]):
        j = s.get("id", i)
        out.append(rawgen.build(s, j))
    return out


def command(scen, mats, only=None, pre=()):
    """the command line for the batch (only: index of a single file)"""
    o = scen["opts"]
    idx = range(len(mats)) if only is None else [only]
    order = list(idx)
    if only is None:
        order = order + [d for d in scen.get("dups", []) if d < len(mats)]
    args = list(pre) + ["-s", STATUS]
    if scen.get("halt"):
        args += ["--halt-on-error"]
    if scen.get("log"):
        args += ["-l", scen["log"]]
    args += ["structure"] + opt_args(o)
    for i in order:
        if o["out"] in ("names", "names-json"):
            args += ["-o", out_path(o, scen["files"][i].get("id", i), mats[i][0])]
    args += [mats[i][0] for i in order]
    return args


def outpath_of(scen, mats, i):
    return out_path(scen["opts"], scen["files"][i].get("id", i), mats[i][0])


def norm_json(b):
    """content of a structured file, without time-of-operation fields"""
    d = util.loads_any(b)
    if isinstance(d, dict) and isinstance(d.get("metadata"), dict):
        d["metadata"].pop("_today_datetime", None) if d.get("@class") in ("BiologicDatapath", "IndigoDatapath") else None
    return d


def entry_key(e):
    """comparable part of a report entry"""
    e = dict(e)
    e.pop("walltime", None)
    tb = e.pop("traceback", None)
    e["error"] = None if not tb else tb_type(tb)
    return e


def tb_type(tb):
    last = (tb[-1] if isinstance(tb, list) else str(tb)).strip().split("\n")[0]
    return last.split(":")[0].strip() or "?"


def run_cli(ctx, scen, mats, plan=(), lines=None, knobs=None, count=True, args=None):
    for _, files in mats:
        ctx.write(files)
    k = dict(scen.get("knobs", {}))
    k.update(knobs or {})
    return ctx.run(proc.cli, (args or command(scen, mats),), plan, k, lines=lines, count=count)


def load_status(ctx, path=STATUS):
    try:
        return util.loads_any(util.rd(ctx.root, path))
    except FileNotFoundError:
        return None
    except ValueError as e:
        raise Violation("status-unreadable", "status report %s is not a JSON document: %s" % (path, e))


def alone(ctx, scen, mats, i):
    """CLI on this file alone, fresh process, no faults: (entry, output bytes parsed or None)"""
    s1 = {k: v for k, v in scen.items() if k not in ("faults", "dups", "halt", "log")}
    args = command(s1, mats, only=i)
    r = ctx.solo(mats[i][1], proc.cli, (args,), {k: v for k, v in scen.get("knobs", {}).items() if k == "epoch"}, keep="all")
    if r["outcome"] != "exit" or r["code"] != 0:
        raise Violation("alone-exit", "structuring %s alone (no faults, no halt-on-error) ended with %s code %s: %s\n%s"
                        % (mats[i][0], r["outcome"], r["code"], (r["exc"] or {}).get("msg"), r["err"][-600:]))
    st = util.loads_any(r["fs"][STATUS])
    if list(st["files"]) != [mats[i][0]]:
        raise Violation("report-keys", "report of %s alone lists %s" % (mats[i][0], list(st["files"])))
    e = st["files"][mats[i][0]]
    op = outpath_of(scen, mats, i)
    out = r["fs"].get(op)
    if e["structured"] and out is None:
        raise Violation("no-output", "%s alone: marked structured but %s does not exist" % (mats[i][0], op))
    ek = entry_key(e)
    if out is not None and e["structured"]:
        if ek.pop("processed_md5_chksum") != util.md5(out):
            raise Violation("md5", "%s alone: output checksum in report is not that of %s" % (mats[i][0], op))
        out = norm_json(out)
    else:
        out = None
        ek.pop("processed_md5_chksum")
    return ek, out


def exit_desc(r):
    return "%s code=%s %s\n%s" % (r["outcome"], r["code"], (r["exc"] or {}).get("msg", ""), (r["err"] or "")[-800:])


# ---------------------------------------------------------------- library references
def lib_structure(path, opts):
    """what structuring this raw file in the library gives, step by step"""
    from beep.structure.cli import auto_load
    out = {"loaded": False, "valid": None, "schema": None, "structured": False, "data": None, "params": None}
    dp = auto_load(path)
    out["loaded"], out["schema"] = True, dp.schema
    ok, why = dp.validate()
    out["valid"] = bool(ok)
    if not ok:
        return out
    try:
        ca, da = opts.get("charge_axis", "charge_capacity"), opts.get("discharge_axis", "voltage")
        if opts.get("automatic"):
            dp.autostructure(charge_axis=ca, discharge_axis=da, parameters_path=None)
        else:
            dp.structure(v_range=opts.get("v_range"), resolution=opts.get("resolution", 1000),
                         nominal_capacity=opts.get("nominal_capacity", 1.1),
                         full_fast_charge=opts.get("full_fast_charge", 0.8), charge_axis=ca, discharge_axis=da)
    except Exception as e:
        out["error"] = type(e).__name__
        return out
    out["structured"] = True
    out["data"] = util.dp_values(dp)
    out["params"] = out["data"]["params"]
    for k in ("_today_datetime",):
        (out["data"]["metadata"] or {}).pop(k, None)
    return out


def lib_reload(path):
    from beep.structure.cli import auto_load_processed
    dp = auto_load_processed(path)
    d = util.dp_values(dp)
    (d["metadata"] or {}).pop("_today_datetime", None)
    return d


def lib_reload_many(paths):
    out = {}
    for p in paths:
        try:
            out[p] = lib_reload(p)
        except Exception as e:
            out[p] = "unloadable %s: %s" % (type(e).__name__, str(e)[:200])
    return out


def lib_ref(ctx, files, main, opts):
    o = {k: v for k, v in opts.items() if k not in ("out", "no_raw", "validation_only")}
    if "v_range" in o:
        o["v_range"] = tuple(o["v_range"])
    r = ctx.solo(files, lib_structure, (main, o))
    if r["outcome"] == "return":
        return r["value"]
    return {"loaded": False, "valid": None, "schema": None, "structured": False, "data": None, "params": None}
