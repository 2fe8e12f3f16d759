"""C08 Saved battery data reloads unchanged, or refuses to load."""
import json

from .. import batch, core, faults, rawgen, util
from ..runner import Violation

ID = "C08"
RUNS = (160, 5000)
CAP = (150, 3000)
RULE = ("each seed draws a cycler file of any format, metadata additions, validation schema, diagnostic configuration and a sequence of structure, "
        "unstructure and diagnostic steps, saves the dataset (plain or compressed, with or without raw data, over an older file "
        "or not) undisturbed and under write errors, full disk, torn writes, allocation failures and crashes; new simulated "
        "processes reload it by every loader, compare it by value with what was in memory, use it further, save and reload it "
        "again, and load copies with a lost or zeroed tail")
ASSUME = ["metadata is JSON-representable; a dataset that cannot be represented is refused with an error",
          "column types may widen on reload: results of further processing are compared to 1e-4"]
LINES = [core.REPO + "/beep/structure/"]
KINDS = [("arbin", 6), ("maccor", 3), ("barchive", 3), ("neware", 2), ("indigo", 1), ("biologic", 1), ("novonix", 2)]
DIAG = [{"rpt_1": [1]}, {"rpt_0.2C": [1], "hppc": [2]}, {"reset": [0], "rpt": [1]}, {"custom": [1, 2], "HPPC_a": [0]}]
META = [{}, {"note": "caf\u00e9 \u2603"}, {"n": None, "list": [1, 2.5, "x"], "d": {"k": True}}, {"channel_id": 7, "barcode": None},
        {"protocol": "a/b\\\\c.sdu", "quote": "\"q\" \n"}]


def gen_op(rng):
    x = rng.random()
    if x < 0.55:
        p = {"resolution": rng.choice([3, 5, 9])}
        if rng.random() < 0.3:
            p["nominal_capacity"] = rng.choice([1.0, 4.84])
        if rng.random() < 0.3:
            p["full_fast_charge"] = rng.choice([0.6, 0.9])
        if rng.random() < 0.2:
            p["v_range"] = rng.choice([[2.5, 3.3], [2.0, 3.6]])
        if rng.random() < 0.2:
            p["charge_axis"] = rng.choice(["voltage", "test_time"])
        if rng.random() < 0.15:
            p["exclude_cycles"] = [1]
        p["diagnostic_resolution"] = rng.choice([4, 6])
        return ["structure", p]
    if x < 0.7:
        return ["unstructure", None]
    if x < 0.92:
        return ["diag", [rng.choice(DIAG), rng.choice([{}, {"parameter_set": "Tesla21700"}, {"k": 1.5, "flag": True}])]]
    return ["nodiag", None]


def gen_file(rng):
    k = batch.wchoice(rng, KINDS)
    s = {"kind": k, "seed": rng.randrange(500), "cycles": rng.choice([3, 4]), "rows": rng.choice([7, 9]),
         "cap": round(rng.uniform(0.9, 1.15), 3), "dt": rng.choice([30.0, 60.0, 600.0]), "id": 0}
    if k == "arbin":
        if rng.random() < 0.7:
            s["meta"] = 1
        if rng.random() < 0.3:
            s["c0"] = rng.choice([1, 40000])
        if rng.random() < 0.3:
            s["nan_every"] = 5
        if rng.random() < 0.2:
            s["drop"] = ["Temperature"]
        if rng.random() < 0.1:
            s["spike"] = 1
    if k == "maccor" and rng.random() < 0.4:
        s["waveform"] = 1
    return s


def gen(ctx, rng, i):
    scen = {"file": gen_file(rng), "meta": rng.choice(META), "ops": [gen_op(rng) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))],
            "save": ["/sim/out/a.json" + rng.choice(["", ".gz"]), rng.random() < 0.4],
            "loader": rng.choice(["class", "auto", "loadfn"]), "more": [gen_op(rng) for _ in range(rng.choice([0, 1, 2]))],
            "save2": ["/sim/out/b.json" + rng.choice(["", ".gz"]), rng.random() < 0.3], "old": rng.random() < 0.3, "faults": [],
            "knobs": {"bufsize": rng.choice([64, 512, 8192])}, "lines": False, "_shrink": ["ops", "more"]}
    if i % 25 == 9:
        batch.enlarge(rng, scen["file"])
        scen["knobs"]["bufsize"] = 8192
    if rng.random() < 0.15:
        scen["save2"][0] = scen["save"][0]
    if rng.random() < 0.3:
        scen["schema"] = ["/sim/in/own/" + rng.choice(["schema-arbin-lfp.yaml", "schema-maccor-2170.yaml", "mine.yaml"]),
                          rng.choice([1.0, 3.4, 100.0])]
    yield scen
    for k in range(2):
        yield dict(scen, rest=[rng.choice(["cut", "cut", "zero", "empty"]), rng.choice([1, 2, 8, 9, 64, 0.1, 0.5, 0.9])],
                   loader=rng.choice(["class", "auto", "loadfn"]))
    ctx.reset()
    fs = put(ctx, scen)
    lines = rng.random() < 0.4
    r = ctx.run(lib_save, args(scen), (), scen["knobs"], lines=LINES if lines else None, count=False)
    if r["outcome"] != "return" or not r["value"]["saved"]:
        return
    for k in range(3):
        x = rng.random()
        fl = []
        for _ in range(rng.choice([1, 1, 2])):
            if x < 0.25:
                f = faults.crash_fault(rng, r["trace"], [scen["save"][0]])
            elif x < 0.5 and lines:
                f = faults.line_fault(rng, r, rng.choice(["memory", "interrupt"]), r["value"]["l0"])
            else:
                f = faults.io_fault(rng, r["trace"], [scen["save"][0]], kinds=("open:w", "write", "write", "close"))
            if f:
                fl.append(f)
        if fl:
            yield dict(scen, faults=fl, lines=lines)


def put(ctx, scen):
    m, fs = rawgen.build(scen["file"], 0)
    if scen["old"]:
        fs = dict(fs, **{scen["save"][0]: old(ctx, scen)})
    if scen.get("schema"):
        p, top = scen["schema"]
        fs = dict(fs, **{p: ("voltage:\n  schema:\n    max: %s\n    min: 0.0\n    type: float\n  type: list\n" % top).encode()})
    ctx.write(fs)
    return fs


def old(ctx, scen):
    f = {"kind": "arbin", "seed": 9999, "cycles": 3, "rows": 7, "cap": 1.0, "dt": 60.0, "id": 0}
    m, fs = rawgen.build(f, 9)
    s = ctx.solo(fs, lib_save, (m, "arbin", {}, [["structure", {"resolution": 6}]], [scen["save"][0], True], []), keep="all")
    return s["fs"][scen["save"][0]]


def args(scen):
    m, _ = rawgen.build(scen["file"], 0)
    return m, scen["file"]["kind"], scen["meta"], scen["ops"], scen["save"], scen["more"], (scen.get("schema") or [None])[0]


# ---------------------------------------------------------------- inside simulated processes
def load_raw(path, kind):
    from beep.structure.cli import auto_load
    from beep.structure.novonix import NovonixDatapath
    return NovonixDatapath.from_file(path) if kind == "novonix" else auto_load(path)


def do(dp, ops):
    from beep.structure.diagnostic import DiagnosticConfig
    errs = []
    for op, p in ops:
        try:
            if op == "structure":
                dp.structure(**p)
            elif op == "unstructure":
                dp.unstructure()
            elif op == "diag":
                dp.diagnostic = DiagnosticConfig(p[0], **p[1])
            else:
                dp.diagnostic = None
            errs.append(None)
        except Exception as e:
            errs.append(type(e).__name__)
    return errs


def state(dp):
    d = util.dp_values(dp)
    if d["diagnostic"]:
        d["diagnostic"]["cycle_type_to_ix"] = {k: sorted(v) for k, v in d["diagnostic"]["cycle_type_to_ix"].items()}
    d["paths"] = {k: v for k, v in (dp.paths or {}).items() if k != "structured"}
    d["labels"] = {a: util.labels(getattr(dp, a)) for a in
                   ("structured_summary", "diagnostic_summary")}
    d["attrs"] = [dp.metadata.barcode, util.jsonish(dp.metadata.protocol), util.jsonish(dp.metadata.channel_id)]
    return d


def further(dp, more):
    """results of using the dataset"""
    from .. import simfeats
    out = {}

    def put(k, f):
        try:
            out[k] = util.jsonish(f())
        except Exception as e:
            out[k] = "error " + type(e).__name__
    put("life", lambda: dp.get_cycle_life(3, 0.95))
    put("c2c", lambda: util.values(dp.cycles_to_capacities(0, 3, 1)))
    put("paused", lambda: dp.paused_intervals)
    if dp.is_structured:
        f = simfeats.SimMean(dp, None)
        put("feat", lambda: (f.validate()[0], f.create_features(), util.values(f.features)))
    if not dp._is_legacy:
        put("valid", lambda: [bool(dp.validate()[0])])
        errs = do(dp, more)
        out["errs"] = errs
        out["state"] = state(dp)
    return out


def save(dp, s):
    try:
        dp.to_json_file(s[0], omit_raw=s[1])
        return True, None
    except Exception as e:
        return False, type(e).__name__


def lib_save(path, kind, meta, ops, s, more, schema=None):
    dp = load_raw(path, kind)
    if schema:
        dp.schema = schema
    dp.metadata.raw.update(meta)
    for k in ("barcode", "protocol", "channel_id"):
        if k in meta:
            setattr(dp.metadata, k, meta[k])
    out = {"errs": do(dp, ops), "l0": core.CUR.nlines, "state": state(dp)}
    sp = dict(dp.paths or {})
    out["saved"], out["error"] = save(dp, s)
    out["after"] = state(dp)
    if dict(dp.paths or {}) != sp:
        out["after"]["paths"] = dict(dp.paths)
    if not out["saved"]:
        out["resaved"], out["reerror"] = save(dp, [s[0], s[1]])
        out["after2"] = state(dp)
    out["further"] = further(dp, more)
    return out


def lib_load(path, loader, cls, more, s2):
    from monty.serialization import loadfn
    from beep.structure.cli import auto_load_processed
    import beep.structure as bs
    out = {}
    try:
        if loader == "class":
            import importlib
            m, c = cls
            dp = getattr(importlib.import_module(m), c).from_json_file(path)
        elif loader == "auto":
            dp = auto_load_processed(path)
        else:
            dp = loadfn(path)
            if isinstance(dp, dict):
                return {"error": "a dictionary"}
    except Exception as e:
        return {"error": "%s: %s" % (type(e).__name__, str(e)[:200])}
    out["state"] = state(dp)
    out["spath"] = (dp.paths or {}).get("structured")
    out["error"] = None
    if s2 is not None:
        out["saved2"], out["error2"] = save(dp, s2)
        out["after"] = state(dp)
        out["further"] = further(dp, more)
    return out


def cls_of(scen):
    k = scen["file"]["kind"]
    return {"arbin": ("beep.structure.arbin", "ArbinDatapath"), "maccor": ("beep.structure.maccor", "MaccorDatapath"),
            "barchive": ("beep.structure.battery_archive", "BatteryArchiveDatapath"),
            "neware": ("beep.structure.neware", "NewareDatapath"), "indigo": ("beep.structure.indigo", "IndigoDatapath"),
            "biologic": ("beep.structure.biologic", "BiologicDatapath"),
            "novonix": ("beep.structure.novonix", "NovonixDatapath")}[k]


# ---------------------------------------------------------------- judgement
def norm(st, omit):
    d = dict(st)
    if omit:
        d["raw_data"] = None
    return d


def cut(b, rest):
    how, n = rest
    k = n if n >= 1 else max(1, int(len(b) * n))
    k = min(k, len(b))
    if how == "empty":
        return b""
    return b[:-k] if how == "cut" else b[:-k] + b"\0" * k


def execute(ctx, scen):
    fs = put(ctx, scen)
    path, omit = scen["save"]
    ref = ctx.solo(fs, lib_save, args(scen), keep="all")
    if ref["outcome"] != "return":
        raise Violation("use", "loading or using the file ended with %s" % batch.exit_desc(ref))
    R = ref["value"]
    d = util.diff(R["state"], R["after"])
    if d:
        raise Violation("save-alters", "saving changed the dataset in memory: %s" % d)
    if not R["saved"]:
        if scen["file"]["kind"] != "biologic":
            raise Violation("refused", "the dataset could not be saved: %s" % R["error"])
        ctx.probe("refused")
        return
    want = norm(R["state"], omit)
    if scen.get("rest"):
        b = cut(ref["fs"][path], scen["rest"])
        if b == ref["fs"][path]:
            return
        ctx.reset()
        ctx.write(dict(fs, **{path: b}))
        g = ctx.run(lib_load, (path, scen["loader"], cls_of(scen), [], None))
        if g["outcome"] != "return":
            raise Violation("damaged", "loading a damaged file ended with %s" % batch.exit_desc(g))
        if not g["value"]["error"]:
            raise Violation("damaged-loads", "a file with a damaged tail (%s) loads: %s"
                            % (scen["rest"], util.diff(want, g["value"]["state"])[:2] or "equal"))
        ctx.probe("damage-refused")
        return
    r = ctx.run(lib_save, args(scen), scen["faults"], scen["knobs"], lines=LINES if scen["lines"] else None)
    if r["outcome"] in ("stall", "hang"):
        raise Violation("hang", batch.exit_desc(r))
    saved = None
    if r["outcome"] == "return":
        V = r["value"]
        saved = V["saved"]
        for k in ("state", "after", "after2"):
            if k in V:
                d = util.diff(R["state"], V[k])
                if d:
                    raise Violation("save-alters", "dataset %s a %s save differs from before: %s"
                                    % (k, "failed" if not saved else "good", d))
        if not saved:
            ctx.probe("failed-save")
            if not [f for f in r["fired"] if f[1] != "short"]:
                raise Violation("refused", "saving failed without a fault: %s" % V["error"])
            if V["resaved"]:
                saved = True
            elif len(r["fired"]) < 2:
                raise Violation("resave", "saving again after a failed save fails: %s" % V["reerror"])
        d = util.diff(R["further"], V["further"], rtol=1e-9)
        if d and not [f for f in scen["faults"] if f["kind"] == "line"]:     # a late line fault may hit the use instead
            raise Violation("further-after-save", "results after a save differ: %s" % d)
    elif not r["fired"]:
        raise Violation("use", "ended with %s" % batch.exit_desc(r))
    if not util.exists(ctx.root, path):
        if saved:
            raise Violation("no-file", "saved without error, but %s does not exist" % path)
        return
    ob = old(ctx, scen) if scen["old"] else None
    if not saved and ob is not None and util.rd(ctx.root, path) == ob:
        ctx.probe("old-kept")
        return
    g = ctx.run(lib_load, (path, scen["loader"], cls_of(scen), scen["more"], scen["save2"]), count=False)
    if g["outcome"] != "return":
        raise Violation("load", "reloading ended with %s" % batch.exit_desc(g))
    G = g["value"]
    if G["error"]:
        if saved:
            raise Violation("unloadable", "saved without error, but reloading (%s) fails: %s" % (scen["loader"], G["error"]))
        ctx.probe("torn-refused")
        return
    d = util.diff(want, G["state"])
    if d:
        raise Violation("reload" if saved else "torn", "%s reloads (%s) as something else: %s"
                        % ("the saved file" if saved else "the file of a failed save", scen["loader"], d))
    ctx.probe("reloaded-" + scen["loader"])
    if scen["loader"] != "loadfn" and G["spath"] != path:
        raise Violation("path", "reloaded dataset names %s as its file, it is %s" % (G["spath"], path))
    d = util.diff(G["state"], G["after"])
    if d:
        raise Violation("save-alters", "saving the reloaded dataset changed it: %s" % d)
    F, H = R["further"], G["further"]
    keys = ["life", "c2c", "feat"] + ([] if omit else ["paused", "valid", "errs"])
    for k in keys:
        d = util.diff(F.get(k), H.get(k), rtol=1e-4)
        if d:
            raise Violation("further", "%s of the reloaded dataset differs: %s" % (k, d))
    if not omit:
        d = util.diff(F["state"], H["state"], rtol=1e-4)
        if d:
            raise Violation("further", "further steps %s on the reloaded dataset give something else: %s" % (scen["more"], d))
        ctx.probe("further")
    # saving again
    p2, omit2 = scen["save2"]
    if not G["saved2"]:
        if not omit:
            raise Violation("refused", "the reloaded dataset could not be saved again: %s" % G["error2"])
        ctx.probe("resave-refused")
        return
    how = "class" if scen["loader"] == "loadfn" else scen["loader"]
    g2 = ctx.run(lib_load, (p2, how, cls_of(scen), [], None), count=False)["value"]
    if g2["error"]:
        raise Violation("unloadable", "saved again without error, but reloading fails: %s" % g2["error"])
    if g2["spath"] != p2:
        raise Violation("path", "reloaded dataset names %s as its file, it is %s" % (g2["spath"], p2))
    d = util.diff(norm(want, omit2), g2["state"])
    if d:
        raise Violation("resave", "saving the reloaded dataset again changes it: %s" % d)
    ctx.probe("resaved")
