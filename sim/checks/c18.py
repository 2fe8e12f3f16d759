"""C18 Commands and callers running at the same time do not disturb each other."""
import copy
import json
import re
import threading

from .. import batch, cmds, conv, core, faults, proc, proto, rawgen, s3, sched, util
from ..runner import Violation, scen_hash
from . import c10, c12, c14

ID = "C18"
RUNS = (120, 4000)
CAP = (220, 4000)
RULE = ("each seed draws two or three commands of any kind with their own inputs (or the same ones) and distinct outputs in one "
        "working directory, structuring commands fetching overlapping objects into one download cache, or sequences of library "
        "calls on separate objects for two or three threads of one process, and a schedule (random walk, priorities with change "
        "points, racing around file creation, meeting at common places, round robin); a seeded scheduler lets exactly one of them take one step (file or "
        "network operation; in threads also every line of the code) at a time; then again with one of them crashing, failing I/O "
        "or running out of memory; exit codes, reports, files and results are compared with each running alone")
ASSUME = ["outputs are distinct files", "threads do not share objects, and draw nothing from the shared random generators",
          "library code outside the repository is atomic between the lines of repository code that call it"]
STUB = ["the bucket service behind boto3"]
LINES = [core.REPO + "/beep/"]
KINDS = ["procs", "threads", "procs", "s3", "threads", "dir", "procs", "threads"]
ALL = "/sim/out/all"                                      # one directory for the protocols of several commands


def gen(ctx, rng, i):
    k = KINDS[i % len(KINDS)]
    scen = {"kind": k, "sched": sched.gen(rng), "faults": []}
    n = rng.choice([2, 2, 3])
    if k == "dir":
        scen.update(kind="procs", cmds=[cmds.gen(rng, op="protocol", damage=0.05) for _ in range(n)], share=[False] * n, dir=True,
                    pids=True)
        fams = rng.choice([["Drive"], ["RapidC"], ["Drive", "RapidC"], ["V3", "Form", "EXP", "Drive"]])
        for j, c in enumerate(scen["cmds"]):
            if rng.random() < 0.8:
                c["rows"] = proto.gen_table(rng, n=rng.choice([1, 1, 2]), fams=fams)
            for r in c["rows"]:
                r["seq_num"] += 100 * j
                if r["family"] == "Drive":                # each command its own waveforms
                    r["max_profile_power"] = str([40.0, 30.0, 20.0][j])
                    r["power_scaling"] = rng.choice(["0.6", "1.0"])
    elif k == "procs":
        scen["cmds"] = [cmds.gen(rng, damage=0.1, small=True) for _ in range(n)]
        scen["share"] = [False] * n
        if rng.random() < 0.5:
            op = scen["cmds"][0]["op"]
            scen["cmds"][1] = cmds.gen(rng, op=op, damage=0.1, small=True)
        if rng.random() < 0.35:                       # the same inputs for different outputs
            scen["cmds"][1] = copy.deepcopy(scen["cmds"][0])
            scen["share"] = [True, True] + [False] * (n - 2)
        if rng.random() < 0.4:                        # scratch directories in play
            j = rng.randrange(2)
            for f in [0] if scen["share"][0] else range(2):
                scen["cmds"][f] = struct_neware(rng, scen["cmds"][f])
            if scen["share"][0]:
                scen["cmds"][1] = copy.deepcopy(scen["cmds"][0])
        scen["pids"] = rng.random() < 0.7
        for c in scen["cmds"]:
            c["wlog"] = rng.random() < 0.3
    elif k == "s3":
        while True:
            s = next(c10.gen(ctx, rng, 0))
            if s["bucket"] == c10.BUCKET:
                break
        s["cache"] = rng.random() < 0.8
        s["nocachedir"] = rng.random() < 0.7
        s["stale"] = []
        s["out"] = "dir" if rng.random() < 0.8 else s["out"]
        keys = [o["key"] for o in s["objs"]]
        scen["world"] = s
        scen["args"] = []
        for _ in range(n):
            a = rng.sample(keys, rng.randint(1, min(3, len(keys))))
            if rng.random() < 0.3:
                a = [rng.choice(["*", "*.csv", a[0][:3] + "*"])]
            scen["args"].append(a)
        if rng.random() < 0.5:
            scen["args"][1] = list(scen["args"][0])
        scen["pids"] = True
    else:
        w = c12.gen_world(rng)
        for o in w["models"]:
            o["opts"].pop("frac", None)
        scen.update(w)
        scen["qss"] = []
        for _ in range(n):
            qs = []
            while len(qs) < rng.choice([1, 2, 3]):
                q = c12.gen_q(rng, w)
                if rng.random() < 0.12:
                    q = {"t": "conv", "c": {k: v for k, v in conv.gen(rng).items() if k in ("op", "p")}, "new": True}
                elif rng.random() < 0.1:
                    q = dict(gen_transfer(ctx, rng), uid="q%d_" % len(qs))
                elif rng.random() < 0.1:
                    q = {"t": "proto", "rows": proto.gen_table(rng, n=rng.choice([1, 2])), "new": True}
                    for r in q["rows"]:
                        r["seq_num"] += 100 * len(scen["qss"]) + 10 * len(qs)
                if q["t"] == "cli":
                    continue
                if q["t"] == "model" and q["mode"] == "frac":
                    q["mode"] = "all"
                qs.append(q)
            scen["qss"].append(qs)
        if rng.random() < 0.4:
            scen["qss"][1] = copy.deepcopy(scen["qss"][0])
        scen["sched"]["len"] = rng.choice([300, 3000, 30000])
        if scen["sched"]["mode"] in ("race", "meet"):
            scen["sched"] = {"mode": "walk", "p": rng.choice([0.02, 0.1]), "seed": scen["sched"]["seed"]}
        for k in ("convs", "cmds", "any", "models", "splits"):
            scen.pop(k, None)
    yield scen
    yield dict(scen, sched=sched.gen(rng))
    who = rng.randrange(n)
    if k == "threads" or scen["kind"] == "threads":
        ctx.reset()
        ctx.write(c12.fixed(ctx, scen))
        r = ctx.run(lib_threads, (world(scen), scen["qss"], {"mode": "serial"}, ()), (), KN, s3=True, count=False)
        if r["outcome"] != "return":
            return
        m = r["value"]["lines"][who]
        if m:
            yield dict(scen, faults=[{"who": who, "kind": "line", "path": "", "nth": rng.randint(1, m), "do": "memory"}])
        return
    jobs, fs = setup(ctx, scen)
    ctx.reset()
    ctx.write(fs)
    r = ctx.run(proc.cli, (jobs[who]["args"][0],), (), jobs[who]["knobs"], s3=scen["kind"] == "s3", count=False)
    for _ in range(3):
        f = (faults.crash_fault(rng, r["trace"]) if rng.random() < 0.7 else
             faults.io_fault(rng, r["trace"], None, ("open:r", "read", "open:w", "write", "close", "mkdir", "rename")))
        if f:
            yield dict(scen, faults=[dict(f, who=who)], sched=sched.gen(rng))


KN = {"bufsize": 8192}


def gen_transfer(ctx, rng):
    while True:
        s = next(c14.gen(ctx, rng, 0), None)
        if s and s["names"] is None and not s["nobucket"] and c14.chosen(s) and len(s["objs"]) < 6:
            break
    if rng.random() < 0.5:
        s["dry"] = True
    return {"t": "transfer", "s": {k: s[k] for k in ("inp", "outp", "bucket", "prefix", "objs", "excl", "dry", "names")}, "new": True}


def struct_neware(rng, c):
    if c["op"] != "structure":
        c = cmds.gen(rng, op="structure", damage=0.1, small=True)
    f = c["files"][0]
    f["kind"] = "neware"
    for k in ("meta", "meta_damage", "drop", "name", "waveform", "gap", "no_mpl"):
        f.pop(k, None)
    return c


# ---------------------------------------------------------------- processes
def rel(x, k, share):
    """everything of command k: own names in the common places"""
    if isinstance(x, (list, tuple)):
        return [rel(v, k, share) for v in x]
    x = x.replace("/sim/w/status.json", "/sim/w/status%d.json" % k)
    x = re.sub(r"^/sim/out(?=/|$)", "/sim/out/p%d" % k, x)
    if not share:
        x = re.sub(r"^/sim/in(?=/|$)", "/sim/in/p%d" % k, x)
    return x


def shift(c, k):
    """different cells are given different names"""
    c = copy.deepcopy(c)
    for j, f in enumerate(c.get("files", [])):
        if c["op"] == "structure":
            f["id"] = f.get("id", j) + 10 * k
            if f.get("name"):
                f["name"] = "p%d%s" % (k, f["name"])
    return c


def setup(ctx, scen):
    """-> (jobs, all files)"""
    jobs, fs = [], {}
    if scen["kind"] == "s3":
        s = scen["world"]
        ini = c10.initial(s)
        for k, a in enumerate(scen["args"]):
            line = rel(c10.cmdline(s, a), k, True)
            jobs.append({"args": (line,), "files": dict(ini)})
    else:
        for k, c in enumerate(scen["cmds"]):
            sh = scen["share"][k]
            c = shift(c, 0 if sh else k + 1)
            ins = cmds.inputs(ctx, c)
            line = rel(cmds.args(c, [(m, {}) for m, _ in ins], glob=["-l", "/sim/out/run.log"] if c.get("wlog") else ()), k, sh)
            if scen.get("dir"):
                line = ["/sim/in/p%d/t%d_parameters.csv" % (k, k) if a.endswith(".csv") else
                        ALL if a == "/sim/out/p%d" % k else a for a in line]
            if sh and c["op"] == "structure" and c["opts"]["out"] == "cwd":
                line[line.index("structure") + 1:line.index("structure") + 1] = ["-d", "/sim/out/p%d" % k]
            if sh and c["op"] == "featurize" and not c["opts"]["outdir"]:
                line[line.index("featurize") + 1:line.index("featurize") + 1] = ["-d", "/sim/out/p%d" % k]
            own = {}
            for _, f in ins:
                own.update({rel(p, k, sh): b for p, b in f.items()})
            if scen.get("dir"):
                own = {p.replace("/t_", "/t%d_" % k): b for p, b in own.items()}
            jobs.append({"args": (line,), "files": own})
    for k, j in enumerate(jobs):
        j["files"]["/sim/out/p%d/.k" % k] = b""
        j["files"]["/sim/w/.k"] = b""
        j["knobs"] = dict((scen["world"] if scen["kind"] == "s3" else scen["cmds"][k])["knobs"],
                          pidsalt=k + 1 if scen["pids"] else 0, epoch=1600000000.0 + 5000 * k)
        j["fn"] = proc.cli
        j["plan"] = [f for f in scen["faults"] if f["who"] == k]
        fs.update(j["files"])
    return jobs, fs


def settle(p, b):
    """content of an output without times"""
    if b is None:
        return None
    if p.endswith((".json", ".json.gz")):
        try:
            return cmds.volatile(c12.clean_json(b))
        except ValueError:
            return "undecodable"
    if p.endswith(".log"):
        return re.sub(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(,\d+)?|\d+(\.\d+)?(e-?\d+)? ?s\w*", b"T", b)
    return b


def execute(ctx, scen):
    if scen["kind"] == "threads":
        return threads(ctx, scen)
    jobs, fs = setup(ctx, scen)
    store = None
    if scen["kind"] == "s3":
        ctx.put_s3({(c10.BUCKET, o["key"]): c10.data_of(o["spec"]) for o in scen["world"]["objs"]})
        store = ctx.store
    solos = [solo(ctx, j, store, scen) for j in jobs]
    trees = []
    for j, s in zip(jobs, solos):
        trees.append({p: settle(cmds.TIME.sub("-TIME", p), b) for p, b in s["fs"].items() if b is not None and p not in j["files"]})
    for j, s in zip(jobs, solos):
        if scen["kind"] == "s3" and any(s["fs"].get(p) != b for p, b in j["files"].items()):
            ctx.probe("replaces-initial")
            return                                     # a download over a file that was there
    for a in range(len(jobs)):
        for b in range(a):
            for p in set(trees[a]) & set(trees[b]):
                if scen["kind"] != "s3" or not p.startswith("/sim/cache/") or trees[a][p] != trees[b][p]:
                    ctx.probe("same-output")
                    return                             # not on different outputs
    ctx.write(fs)
    for j in jobs:
        j["store"] = store
    rs, ch = sched.run_many(ctx.root, jobs, scen["sched"])
    remember(scen, ch.runs)
    for j, r in zip(jobs, rs):
        ctx.note(r, j["plan"], False)
    ctx.stats["distinct"].add(scen_hash([scen["kind"], ch.runs])[:16])
    ctx.probe("switches", len(ch.runs))
    ctx.digest.update(json.dumps(ch.runs).encode())
    got = util.snapshot(ctx.root, content=True)
    hurt = [bool(r["fired"]) for r in rs]
    known = set(fs)
    for k, (j, r, s, t) in enumerate(zip(jobs, rs, solos, trees)):
        what = "command %d (%s)" % (k, " ".join(j["args"][0])[:200])
        known |= set(t)
        for p, b in j["files"].items():
            if got.get(p) != b:
                raise Violation("input", "%s: its input %s was changed" % (what, p))
        if hurt[k]:
            ctx.probe("hurt-" + r["fired"][0][1].split(":")[0])
            continue
        if (r["outcome"], r["code"]) != (s["outcome"], s["code"]):
            raise Violation("exit", "%s ends with %s, alone with %s" % (what, batch.exit_desc(r), batch.exit_desc(s)))
        if s["outcome"] == "raise" and r["exc"]["type"] != s["exc"]["type"]:
            raise Violation("exit", "%s fails with %s, alone with %s" % (what, r["exc"]["type"], s["exc"]["type"]))
        for p, w in t.items():
            if p not in got:
                raise Violation("missing", "%s: %s, written when it runs alone, is missing" % (what, p))
            d = util.diff(util.canon_dict(w), util.canon_dict(settle(p, got[p])))
            if d:
                raise Violation("differs", "%s: %s is not what it is when run alone: %s" % (what, p, d))
        ctx.probe("same-" + scen.get("cmds", [{"op": "s3"}] * 9)[k]["op"])
    extra = [p for p, b in got.items() if b is not None and p not in known]
    if extra and not any(hurt):
        raise Violation("extra", "together the commands also leave %s" % sorted(extra)[:4])


def solo(ctx, j, store, scen):
    if store is None:
        return ctx.solo(j["files"], proc.cli, j["args"], j["knobs"], keep="all")

    def go():
        ctx_root = ctx.scratch + "/solo"
        util.wipe(ctx_root)
        util.write_tree(ctx_root, j["files"])
        r = proc.run(ctx_root, proc.cli, j["args"], (), j["knobs"], store)
        out = {k: r[k] for k in ("outcome", "code", "exc", "err")}
        out["fs"] = util.snapshot(ctx_root, content=True)
        return out
    return ctx.ref(("c18s3", scen_hash(scen["world"]), j["args"], sorted(j["knobs"].items())), go)


# ---------------------------------------------------------------- threads
def do_transfer(w, scen, q, mut):
    s = own_transfer(q["s"], c12.PRE.get(threading.get_ident(), "") + q["uid"])
    pre = c12.PRE.get(threading.get_ident(), "") + q["uid"]
    st = s3.Store(core.CUR.s3.store.d)
    with c12.quiet():
        for o in s["objs"]:
            st.put(s["bucket"], o["key"], bytes.fromhex(o["data"]))
        st.put(c14.T, "zz-unrelated", b"unrelated")
        here = core.CUR.getcwd()
    names, same = c14.op_transfer(s)
    with c12.quiet():
        return util.jsonish([sorted(names), same, core.CUR.getcwd() == here,
                             [[[k, d.hex()] for k, d in sorted(st.dump().get(b, {}).items()) if k.startswith(pre)]
                              for b in (s["bucket"], c14.T)]])


def own_transfer(s, pre):
    """under a prefix of this transfer in the calling thread"""
    return dict(s, prefix=pre + s["prefix"], objs=[dict(o, key=pre + o["key"]) for o in s["objs"]])


def model_transfer(s, pre):
    s = own_transfer(s, pre)
    a = {o["key"]: o["data"] for o in s["objs"]}
    b = {}
    new = {c14.renamed(s, k): c14.modified(s, bytes.fromhex(a[k])).hex() for k in c14.chosen(s)}
    (b if s["dry"] in (True, None) else a).update(new)
    return util.jsonish([sorted(c14.listed(s)), True, True, [[list(x) for x in sorted(m.items())] for m in (a, b)]])


def do_proto(w, scen, q, mut):
    """several threads may generate into one directory"""
    from beep.protocol.generate_protocol import generate_protocol_files_from_csv
    pre = c12.PRE.get(threading.get_ident(), "")
    t = "%s%d" % (pre.rstrip("_"), q["rows"][0]["seq_num"])
    c = "/sim/in/%s_parameters.csv" % t
    c12.disk({c: proto.csv_of(q["rows"])})
    f, fails, res, msg = generate_protocol_files_from_csv(c, output_directory=ALL)
    c12.gone(c)
    got = c12.snap_of(ALL)
    mine = [proto.out_of(r, ALL) for r in q["rows"]]
    names = [b for p, b in got.items() if p.startswith("%s/names/%s_" % (ALL, t))]
    return [list(f), util.jsonish(fails), res, dict(msg), {p: got.get(p) for p in mine if p}, names]


c12.DO.update(transfer=do_transfer, proto=do_proto)


def world(scen):
    return {k: scen[k] for k in ("files", "sfiles")}


def lib_threads(wd, qss, sc, plan):
    box = {}

    def body(i):
        def f():
            c12.PRE[threading.get_ident()] = "t%d_" % i
            return c12.lib_history(wd, qss[i], lambda: box["t"].hits[i])
        return f
    t = box["t"] = sched.Threads([body(i) for i in range(len(qss))], sc, LINES, plan)
    v = t.run()
    return {"values": v, "lines": t.lines, "runs": t.ch.runs, "switches": t.switches}


def threads(ctx, scen):
    fs = c12.fixed(ctx, scen)
    ctx.write(fs)
    wd = world(scen)
    r = ctx.run(lib_threads, (wd, scen["qss"], scen["sched"], scen["faults"]), (), KN, s3=True, count=False)
    if r["outcome"] != "return":
        raise Violation("threads", "the threads ended with " + batch.exit_desc(r) + (r["exc"] or {}).get("tb", ""))
    V = r["value"]
    remember(scen, V["runs"])
    ctx.stats["distinct"].add(scen_hash(["threads", V["runs"]])[:16])
    ctx.probe("switches", V["switches"])
    ctx.digest.update(json.dumps(V["runs"]).encode())
    for k, (qs, (how, v)) in enumerate(zip(scen["qss"], V["values"])):
        if how != "return":
            raise Violation("threads", "thread %d ended with %s: %s" % (k, v["type"], v["tb"]))
        for q, g in zip(qs, v):
            what = "thread %d: %s" % (k, c12.describe(q))
            if g["mut"]:
                raise Violation("altered", "%s: %s" % (what, g["mut"][0]))
            if g["hit"]:
                ctx.probe("hurt-thread")
                continue
            if q["t"] == "transfer":
                s = {"outcome": "return", "value": {"v": model_transfer(q["s"], "t%d_%s" % (k, q["uid"]))}}
            else:
                s = ctx.solo(fs, c12.lib_alone, (wd, dict(q, new=True)))
            if s["outcome"] != "return":
                raise Violation("alone", "%s alone in a fresh process ended with %s" % (what, batch.exit_desc(s)))
            d = util.diff(util.canon_dict(s["value"]["v"]), util.canon_dict(g["v"]))
            if d:
                raise Violation("differs", "%s gives another result than alone: %s" % (what, d))
            ctx.probe("thread-" + q["t"] + ("-" + g["v"].split()[-1] if isinstance(g["v"], str) else ""))


# ---------------------------------------------------------------- smaller schedules
LAST = {}


def remember(scen, runs):
    if len(LAST) > 50:
        LAST.clear()
    LAST[scen_hash(scen)] = [list(x) for x in runs]


def shrink(s):
    for j in range(len(s["faults"])):
        t = copy.deepcopy(s)
        del t["faults"][j]
        yield t
    if s["kind"] == "threads":
        for a, qs in enumerate(s["qss"]):
            for b in range(len(qs)):
                t = copy.deepcopy(s)
                del t["qss"][a][b]
                yield t
    runs = LAST.get(scen_hash(s))
    if runs is None:
        return
    yield dict(s, sched={"mode": "serial"})
    n = len(runs)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield dict(s, sched={"mode": "runs", "runs": runs[:a] + runs[a + size:]})
        if n > 24 and size < n // 12:
            break
        size //= 2
