"""C16 Results do not depend on the host's clock, time zone, hash seed or location."""
import copy
import json
import os
import re

from .. import batch, conv, core, faults, feat, rawgen, util
from ..runner import Violation
from . import c12

ID = "C16"
RUNS = (250, 8000)
CAP = (220, 4000)
RULE = ("each seed draws raw files of every format with timestamps around daylight-saving changes, midnight and year ends, structured "
        "files, matrices and options, and a sequence of operations (loading, validating, structuring, pauses, impedance runs, "
        "featurizing, joining, splitting, training, predicting, conversions, whole commands); the sequence runs on a reference "
        "host (UTC, one fixed clock, hash seed 0) and on another one: other time zone and daylight-saving rules, clock years away "
        "and jumping at chosen operations, interpreter with another string-hash seed, other working directory, parent folders, "
        "process id, file times and directory order; every result must be equal")
ASSUME = ["operations use the same seed of the random generators on both hosts",
          "fields documented as time of operation, elapsed time or absolute location are masked"]
ZONES = ["UTC0", "America/Los_Angeles", "Europe/London", "Australia/Lord_Howe", "Asia/Kathmandu", "Pacific/Apia", "America/St_Johns",
         "Africa/Casablanca", "PST8PDT,M3.2.0,M11.1.0", "XXX-14", "YYY12", "Asia/Kolkata", "America/Sao_Paulo"]
EPOCHS = [951782399.0, 1572771600.0, 1583661599.0, 1600000000.0, 1615712399.5, 1635660000.0, 1672531199.9, 2208988800.0]
DATES = [[2019, 11, 3, 0, 30, 0], [2019, 11, 3, 1, 59, 30], [2019, 3, 10, 1, 30, 0], [2019, 3, 10, 1, 59, 50], [2020, 3, 29, 0, 30, 0],
         [2019, 10, 27, 0, 45, 0], [2019, 12, 31, 23, 50, 0], [2020, 2, 28, 23, 0, 0], [2019, 10, 20, 22, 0, 0],
         [2020, 10, 4, 1, 40, 0], [2018, 11, 4, 0, 0, 0], [2019, 1, 2, 3, 4, 5]]
DIRS = ["/sim/in/hist", "/sim/in/elsewhere/with a space", "/sim/srv/\u00fcnit_2020-11-05_09"]


def gen_host(rng):
    h = {"tz": rng.choice(ZONES), "epoch": rng.choice(EPOCHS) + rng.choice([0, 0.25, 86400 * 3]), "hash": rng.choice([0, 3, 1234]),
         "cwd": rng.choice(["/sim/w", "/sim/w", "/sim/x/deep/er", "/sim/h\u00f6me dir"]), "dir": rng.choice(DIRS),
         "mtime": rng.choice([0, 1, 1e9, 1.9e9]), "dirsalt": rng.randrange(6), "pidsalt": rng.randrange(500)}
    return h


def gen(ctx, rng, i):
    scen = c12.gen_world(rng)
    for f in scen["files"]:
        if f["kind"] != "arbin" and rng.random() < 0.8:
            f["date"] = rng.choice(DATES)
            f["dt"] = rng.choice([60.0, 600.0, 1800.0])
            if rng.random() < 0.5:
                f["gap"] = rng.choice([3500.0, 4000.0, 7300.0, 90000.0])
            if f["kind"] == "maccor" and rng.random() < 0.4:
                f["midnight"] = 1
            if f["kind"] == "maccor" and rng.random() < 0.5:
                f["eis"] = rng.randint(1, 4)
        elif f["kind"] == "arbin" and rng.random() < 0.6:
            f["t0"] = rng.choice([1572771600.0, 1583661599.0, 0.0, 1494377253.25, 1520762400.0])
            f["gap"] = rng.choice([0.0, 4000.0])
    qs = []
    for _ in range(rng.randint(3, 8)):
        q = c12.gen_q(rng, scen)
        if q["t"] == "dp" and scen["files"][q["file"]].get("eis") and rng.random() < 0.3:
            q = {"t": "eis", "file": q["file"], "new": True}
        elif rng.random() < 0.4:
            q = {"t": "dp", "file": rng.randrange(len(scen["files"])), "call": rng.choice(["structure", "paused", "load", "diagsum"]),
                 "p": c12.gen_params(rng), "new": rng.random() < 0.5}
            if q["call"] == "diagsum" or rng.random() < 0.3:
                q["diag"] = {"rpt_1": [1], "hppc": [2]}
        qs.append(q)
    jumps = [{"kind": rng.choice(["read", "open:r", "open:w", "write"]), "path": "*", "nth": rng.choice([1, 2, 5, 20, 100]), "do": "jump",
              "arg": rng.choice([-7200.5, 3600, 86400 * 200, -86400 * 4000, 0.5])} for _ in range(rng.choice([0, 1, 3]))]
    scen.update(qs=qs, host=gen_host(rng), faults=jumps, knobs={"bufsize": 8192}, _shrink=["qs"])
    yield scen


def place(scen, d):
    """the scenario's inputs as they lie on a host whose data folder is d"""
    fs, mains = {}, []
    for j, s in enumerate(scen["files"]):
        m, f = rawgen.build(dict(s, dir=d), s["id"])
        for k in range(s.get("eis", 0)):
            a, b = m.rsplit(".", 1)
            f["%s.E%d.%s" % (a, k, b)] = rawgen.maccor_eis({"seed": s["seed"] * 10 + k})
        mains.append(m)
        fs.update(f)
    return fs, mains


def lib_host(world, qs, d):
    c12.DO["eis"] = do_eis
    c12.rawfile, old = (lambda scen, j: rawgen.build(dict(scen["files"][j], dir=d), scen["files"][j]["id"])), c12.rawfile
    try:
        return [[o["v"], [m for m in o["mut"] if "no longer" not in m]] for o in c12.lib_history(world, qs)]
    finally:
        c12.rawfile = old


def do_eis(w, scen, q, mut):
    from beep.structure.maccor import MaccorDatapath
    main, _ = c12.rawfile(scen, q["file"])
    dp = MaccorDatapath.from_file(main)
    dp.load_eis()
    return [[util.values(e.data), util.jsonish(e.metadata)] for e in dp.eis] + [util.jsonish(dp.paths)]


def run_host(ctx, scen, host):
    ctx.reset()
    s = copy.deepcopy(scen)
    fs, _ = place(s, host["dir"])
    for f in s["sfiles"]:
        f["dir"] = host["dir"]
        fs[feat.name_of(f)] = feat.content(ctx, f)
        fs.update(feat.halves(f))
    from .. import cmds
    for q in s["qs"]:
        if q["t"] == "cli":
            q["ins"] = cmds.inputs(ctx, q["c"])
            q["keep"] = sorted(set(fs) & {p for _, f in q["ins"] for p in f})
    ctx.write(fs)
    for p in sorted(fs):
        os.utime(ctx.root + p[4:], (host["mtime"], host["mtime"]))
    k = dict(scen["knobs"], **{x: host[x] for x in ("tz", "epoch", "dirsalt", "pidsalt", "cwd")}, entropy=int(host is not REF))
    os.makedirs(ctx.root + host["cwd"][4:], exist_ok=True)
    world = {x: s[x] for x in ("files", "sfiles")}
    return ctx.run_hash(host["hash"], lib_host, (world, s["qs"], host["dir"]), scen["faults"] if host is not REF else (), k)


REF = {"tz": "UTC0", "epoch": 1600000000.0, "hash": 0, "cwd": "/sim/w", "dir": "/sim/in/hist", "mtime": 1.5e9, "dirsalt": 0, "pidsalt": 0}
STAMP = re.compile(r"(?<!\d)(19|20)\d{6}_\d{4}\.csv")


def mask(x, host):
    if isinstance(x, dict):
        return {mask(k, host): mask(v, host) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [mask(v, host) for v in x]
    if isinstance(x, str):
        x = x.replace(host["dir"], "/DATA").replace(host["cwd"] + "/", "/CWD/").replace("/sim/w/", "/CWD/")
        return STAMP.sub("NAMES.csv", x)
    return x


def execute(ctx, scen):
    a = run_host(ctx, scen, REF)
    if a["outcome"] != "return":
        raise Violation("history", "on the reference host: " + batch.exit_desc(a) + (a["exc"] or {}).get("tb", ""))
    b = run_host(ctx, scen, scen["host"])
    if b["outcome"] != "return":
        raise Violation("host", "fails on another host only: " + batch.exit_desc(b) + (b["exc"] or {}).get("tb", ""))
    for q, x, y in zip(scen["qs"], a["value"], b["value"]):
        d = util.diff(util.canon_dict(mask(x, REF)), util.canon_dict(mask(y, scen["host"])))
        if d:
            raise Violation("host", "%s gives another result on host %s: %s" % (
                "impedance of file %d" % q["file"] if q["t"] == "eis" else c12.describe(q), scen["host"], d))
        ctx.probe(q["t"] + ("-" + x[0].split()[-1] if isinstance(x[0], str) else ""))
    for k in ("tz", "hash", "cwd"):
        ctx.probe("host-%s-%s" % (k, scen["host"][k]))
