"""C10 Bucket inputs: the selected objects, complete, and never over local files."""
import fnmatch
import os

from .. import batch, faults, proc, rawgen, util
from ..runner import Violation

ID = "C10"
RUNS = (300, 6000)
RULE = ("each seed draws a bucket (keys with prefixes, equal base names, empty or damaged objects, page sizes down to 1), local "
        "files, leftovers of earlier downloads, literal and wildcard arguments and a cache setting; the real structure command "
        "runs against it fault-free and then with refused, dropped or vanishing requests, transfers cut in the middle, disk "
        "errors on the downloads, clock jumps and crashes; the set of processed files, their bytes, entries and outputs are "
        "compared with a reference selection and with structuring the same files from local disk; a crashed command is run again")
ASSUME = ["transfers are atomic below boto3 (s3transfer renames a completed temporary file into place): the stand-in does that",
          "wildcards are those of fnmatch, '*' crossing '/'"]
STUB = ["the bucket service behind boto3"]
BUCKET = "beep-raw"
PRE = ["", "d1/", "d2/", "d1/deep/", "2017-12-04/", "d[12]/"]
FILL = "!others/%05d.txt"
CODES = ["s3:AccessDenied", "s3:SlowDown", "s3:InternalError", "s3:404", "drop", "drop"]


def gen(ctx, rng, i):
    n = rng.choice([1, 2, 3, 4, 6, 9])
    objs, names = [], []
    for j in range(n):
        s = batch.gen_spec(rng, j, 0.15, [("arbin", 3), ("maccor", 2), ("barchive", 2), ("neware", 1)])
        for k in ("dir", "meta", "name", "meta_damage"):
            s.pop(k, None)
        if rng.random() < 0.08:
            s["damage"], s["damage_arg"] = "empty", 0.5
        s["id"] = j
        nm = rawgen.name_for(s, j)
        if names and rng.random() < 0.12:
            nm = rng.choice(names)
        names.append(nm)
        objs.append({"key": rng.choice(PRE) + nm, "spec": s})
    objs = list({o["key"]: o for o in objs}.values())
    keys = [o["key"] for o in objs]
    locs = []
    for j in range(rng.choice([0, 0, 1, 1, 2])):
        s = batch.gen_spec(rng, 50 + j, 0.1, [("arbin", 3), ("barchive", 1)])
        for k in ("dir", "meta", "name", "meta_damage"):
            s.pop(k, None)
        s["id"] = 50 + j
        p = rng.choice(["", "d1/", "sub/"]) + rawgen.name_for(s, 50 + j)
        if rng.random() < 0.4:
            p = rng.choice(keys)                      # a local file named like an object
            if rng.random() < 0.4:
                p = os.path.basename(p)
        locs.append({"path": p, "spec": s})
    locs = list({o["path"]: o for o in locs}.values())
    args = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        x = rng.random()
        if x < 0.3:
            args.append(rng.choice(keys))
        elif x < 0.45:
            k = rng.choice(keys)
            d, b = os.path.split(k)
            args.append(rng.choice([d + "/*" if d else "*", "*" + b[-6:], k[:max(1, len(k) // 2)] + "*", "*.csv", "*",
                                    b[:4] + "*", "*/" + b]))
        elif x < 0.75 and locs:
            p = rng.choice(locs)["path"]
            args.append(rng.choice([p, "/sim/w/" + p]))
        elif x < 0.8:
            args.append(rng.choice(["nothing.csv", "none*", "d1", os.path.basename(rng.choice(keys)), rng.choice(keys)[:-1]]))
        else:
            args.append(rng.choice(PRE) + "*")
    scen = {"objs": objs, "locs": locs, "args": args, "cache": rng.random() < 0.4, "nocachedir": rng.random() < 0.5,
            "out": rng.choice(["cwd", "dir"]), "bucket": BUCKET if rng.random() < 0.97 else "no-such-bucket",
            "opts": {"resolution": 4}, "faults": [],
            "stale": [[rng.choice(keys), rng.choice(["junk", "same size", "same size", "shorter", "longer"])]] if rng.random() < 0.35 else [],
            "knobs": {"s3page": rng.choice([1, 2, 3, 1000]), "bufsize": rng.choice([128, 8192])},
            "_shrink": ["objs", "args", "locs"]}
    if i % 16 == 5 and not any("*" in a and fnmatch.fnmatchcase(FILL % 0, a) for a in args):
        scen["many"] = 1040                            # more objects than one answer of the service can list
        scen["knobs"]["s3page"] = 1000
    yield scen
    r = go(ctx, scen, count=False)
    dl = [t for t in r["trace"] if t[1].startswith("s3://")]
    last = max([n for n, t in enumerate(r["trace"]) if t[1].startswith("s3://")] or [0])
    tmp = set(t[1] for t in r["trace"][:last] if t[0] in ("open:w", "mkdir"))        # where downloads are written
    if not dl:
        return
    for _ in range(4):
        fl = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            x = rng.random()
            if x < 0.5:
                t = faults.pick_op(rng, r["trace"], None, ("s3.list", "s3.head", "s3.get", "s3.body"))
                if t:
                    fl.append({"kind": t[0], "path": t[1], "nth": t[2], "do": rng.choice(CODES)})
            elif x < 0.7:
                f = faults.io_fault(rng, r["trace"], tmp, ("open:w", "write", "close", "rename", "mkdir"))
                if f:
                    fl.append(f)
            elif x < 0.9:
                t = faults.pick_op(rng, r["trace"], tmp | {t[1] for t in dl},
                                   ("s3.list", "s3.head", "s3.get", "s3.body", "open:w", "write", "close", "rename"))
                if t:
                    fl.append({"kind": t[0], "path": t[1], "nth": t[2], "do": rng.choice(["crash", "crash", "interrupt", "jump"]),
                               "arg": rng.choice([3600, -7200])})
            else:
                f = faults.crash_fault(rng, r["trace"], tmp)
                if f:
                    fl.append(f)
        if fl:
            yield dict(scen, faults=fl)


def data_of(spec):
    s = dict(spec)
    m, fs = rawgen.build(s, s["id"])
    return fs[m]


def initial(scen):
    fs = {}
    for lo in scen["locs"]:
        fs["/sim/w/" + lo["path"]] = data_of(lo["spec"])
    spec = {o["key"]: o["spec"] for o in scen["objs"]}
    for k, how in scen["stale"]:                       # an earlier version of the object, or another file of that name
        d = "/sim/cache/" if scen["cache"] else "/sim/w/"
        old = data_of(spec[k]) if k in spec else b""
        if how == "same size" and old:
            m = len(old) // 2
            old = old[:m] + bytes([old[m] ^ 1]) + old[m + 1:]
        elif how == "shorter" and old:
            old = old[:len(old) * 2 // 3]
        elif how == "longer" and old:
            old += old[-100:]
        else:
            old = b"left over from an earlier download of another file\n"
        fs.setdefault(d + os.path.basename(k), old)
    if scen["cache"] and not scen["nocachedir"]:
        fs.setdefault("/sim/cache/other.txt", b"unrelated")
    return fs


def select(scen, fs):
    """reference selection -> (local paths, [(key, destination)]) or the reason to refuse"""
    keys = sorted({o["key"] for o in scen["objs"]})
    if scen["bucket"] != BUCKET:
        return None, "no such bucket"
    loc, sel = [], []
    for a in scen["args"]:
        p = a if a.startswith("/") else "/sim/w/" + a
        if p in fs or any(x.startswith(p.rstrip("/") + "/") for x in fs):
            if p not in fs:
                return None, "directory"
            loc.append(p)
        elif "*" in a:
            m = [k for k in keys if fnmatch.fnmatchcase(k, a)]
            if not m:
                return None, "nothing matches " + a
            sel += m
        elif a in keys:
            sel.append(a)
        else:
            return None, "no such object " + a
    d = "/sim/cache/" if scen["cache"] else "/sim/w/"
    dst, used = [], {}
    for k in sel:
        t = d + os.path.basename(k)
        if t in loc:
            return None, "would replace a local argument"
        if used.setdefault(t, k) != k:
            return None, "two objects for one file"
        dst.append((k, t))
    return (loc, dst), None


def cmdline(scen, files, s3=True):
    a = ["-s", batch.STATUS, "structure", "-r", str(scen["opts"]["resolution"])]
    if scen["out"] == "dir":
        a += ["-d", "/sim/out"]
    if s3:
        a += ["--s3-bucket", scen["bucket"]]
        if scen["cache"]:
            a += ["--s3-use-cache"]
    return a + list(files)


def go(ctx, scen, plan=(), count=True, keep=False):
    if not keep:
        ctx.reset()
        ctx.write(dict(initial(scen), **{"/sim/out/.k": b""}))
        ctx.put_s3({(BUCKET, o["key"]): data_of(o["spec"]) for o in scen["objs"]})
        ctx.put_s3({(BUCKET, FILL % j): b"" for j in range(scen.get("many", 0))})
    return ctx.run(proc.cli, (cmdline(scen, scen["args"]),), plan, scen["knobs"], s3=True, count=count)


def execute(ctx, scen):
    ini = initial(scen)
    if any(p + "/x" in {os.path.dirname(q) + "/x" for q in ini if q != p} for p in ini):
        return                                        # a path both file and directory
    r = go(ctx, scen, scen["faults"])
    judge(ctx, scen, r, bool([f for f in r["fired"] if f[1] not in ("short", "jump")]))
    if r["outcome"] == "crash":
        ctx.probe("crash")
        r = go(ctx, scen, keep=True)
        judge(ctx, scen, r, False)


def judge(ctx, scen, r, faulty):
    ini = initial(scen)
    objs = {o["key"]: data_of(o["spec"]) for o in scen["objs"]}
    sel, why = select(scen, ini)
    if why == "directory":
        return
    got = util.snapshot(ctx.root, content=True)
    args_local = [p for p in ini if any((a if a.startswith("/") else "/sim/w/" + a) == p for a in scen["args"])]
    for p in args_local:
        if got.get(p) != ini[p]:
            raise Violation("overwritten", "the local file %s named on the command line was changed (%s)"
                            % (p, "gone" if p not in got else "other bytes"))
    from .. import s3
    now = s3.Store(ctx.store).dump().get(BUCKET, {})
    here = dict(objs, **{FILL % j: b"" for j in range(scen.get("many", 0))})
    if now != here:
        raise Violation("bucket", "the command changed the bucket: %s" % sorted(set(now) ^ set(here))[:5])
    if r["outcome"] == "crash":
        return
    outs = sorted(p for p in got if p.endswith("_structured.json.gz"))
    done = batch.STATUS in got
    if not done:
        ctx.probe("refused")
        if outs:
            raise Violation("partial", "the command failed (%s) after processing: %s exist" % (batch.exit_desc(r), outs))
        if r["outcome"] == "return" or (r["outcome"] == "exit" and r["code"] == 0):
            raise Violation("silent", "the command ended successfully without report; %s" % (why or "nothing was wrong"))
        if not why and not faulty:
            raise Violation("refused", "the command failed although everything was there: %s" % batch.exit_desc(r))
        return
    if why:
        st = util.loads_any(got[batch.STATUS])
        raise Violation("ran-anyway", "the command processed %s although %s" % (sorted(st["files"]), why))
    ctx.probe("processed")
    if r["outcome"] == "raise" or r["code"] != 0:
        raise Violation("exit", "processing ended with " + batch.exit_desc(r))
    loc, dst = sel
    files = loc + [t for _, t in dst]
    st = util.loads_any(got[batch.STATUS])
    if sorted(st["files"]) != sorted(set(files)):
        raise Violation("selection", "processed %s, the arguments select %s" % (sorted(st["files"]), sorted(set(files))))
    for k, t in dst:
        if got.get(t) != objs[k]:
            raise Violation("bytes", "%s does not hold the bytes of object %s (%s of %d bytes)"
                            % (t, k, "missing" if t not in got else len(got[t]), len(objs[k])))
    allowed = set(ini) | set(files) | {batch.STATUS, "/sim/out/.k"} | set(outs)
    extra = [p for p in got if p not in allowed and not p.startswith("/sim/tmp/") and not p.endswith("/")
             and got[p] is not None]
    if extra and not scen["faults"]:
        raise Violation("extra", "the command also left %s" % extra[:4])
    for p, b in ini.items():
        if p not in files and got.get(p) != b:
            raise Violation("overwritten", "the unrelated local file %s was changed" % p)
    if len({os.path.basename(f) for f in files}) < len(set(files)):
        return                                        # outputs of equal names: C02
    pre = {f: (objs[dict((t, k) for k, t in dst)[f]] if f not in loc else ini[f]) for f in files}
    ref = ctx.solo(dict(pre, **{"/sim/out/.k": b""}), proc.cli, (cmdline(scen, files, False),), keep="all")
    want = util.loads_any(ref["fs"][batch.STATUS])
    for f in files:
        a, b = batch.entry_key(want["files"][f]), batch.entry_key(st["files"][f])
        for x in (a, b):
            x.pop("processed_md5_chksum")
        d = util.diff(util.canon_dict(a), util.canon_dict(b))
        if d:
            raise Violation("entry", "%s: entry differs from structuring the same bytes from disk: %s" % (f, d))
    routs = sorted(p for p in ref["fs"] if p.endswith("_structured.json.gz"))
    if routs != outs:
        raise Violation("outputs", "outputs %s, structuring the same bytes from disk gives %s" % (outs, routs))
    for p in outs:
        d = util.diff(util.canon_dict(batch.norm_json(ref["fs"][p])), util.canon_dict(batch.norm_json(got[p])))
        if d:
            raise Violation("output", "%s differs from structuring the same bytes from disk: %s" % (p, d))
