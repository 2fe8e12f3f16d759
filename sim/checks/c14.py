"""C14 Project transfer copies every object whole, once, and touches nothing else."""
import os
import posixpath

from .. import faults, s3, util
from ..runner import Violation

ID = "C14"
RUNS = (900, 30000)
RULE = ("each seed draws a bucket (keys under, beside and below the prefix, folder markers, names with the project once, twice or "
        "not at all, contents with and without the project name in and after the first line, binary, empty, without newline, "
        "bigger than the copy buffer), page sizes down to 1, exclusion lists, dry-run or not; the real listing and transfer run "
        "fault-free and then with refused, dropped and cut requests, disk errors in the scratch directory, interrupts and "
        "crashes; the selection, all buckets, the local tree, cwd and the printed refusals are compared with a reference model; "
        "a transfer that failed is repeated and must then complete")
ASSUME = ["the renamed keys are distinct and none of them is itself one of the transferred objects",
          "transfers are atomic below boto3"]
STUB = ["the bucket service behind boto3"]
BASE = {"/sim/" + d + "/" for d in ("w", "tmp", "cache", "out", "in")}
T = "beep-sync-test-stage"
CODES = ["s3:AccessDenied", "s3:SlowDown", "s3:InternalError", "drop"]


def op_transfer(scen):
    from beep.utils.project_transfer import ProjectTransfer
    t = ProjectTransfer(scen["inp"], scen["outp"], scen["bucket"], scen["prefix"], **({} if scen["dry"] is None else {"dry_run": scen["dry"]}))
    names = t.get_list_files(list(scen["excl"]))
    got = list(names)
    if scen["names"] is not None:
        names = list(scen["names"])
    before = list(names)
    t.download_and_modify(names)
    return got, names == before


def content(rng, inp):
    r = rng.random()
    if r < 0.06:
        return b""
    p = inp.encode()
    first = rng.choice([b"Today''s Date,02/03/2018 Filename," + p + b"_000.sdu Procedure," + p + b"_0.000",
                        b"no such name here", p, p + p, b"x" + p[:-1], b""])
    if r < 0.12:
        return first                                    # no newline at all
    nl = rng.choice([b"\n", b"\n", b"\r\n"])
    rest = []
    for _ in range(rng.choice([0, 1, 3, 20, 2500])):
        rest.append(rng.choice([b"1,2,3.5", b"Rec#,Cyc#", p + b" again", b"\x00\xff\xfe\x80", b"caf\xe9", b"a\rb", b"", b"\x1a"]))
    return first + nl + nl.join(rest) + (nl if rng.random() < 0.7 else b"")


def gen(ctx, rng, i):
    inp, outp = rng.choice([("PredictionDiagnostics", "PreDiag"), ("ABC", "XYZ"), ("A", "BCD"), ("Proj_1", "Proj_22"),
                            ("long name", "s"), ("a.b", "a_b"), ("PreDiag", "PreDiag2"), ("P1", "P1")])
    prefix = rng.choice(["raw", "d3Batt/raw/arbin", "d3Batt/raw/maccor/STANFORD LOANER #2", "raw/"])
    pd = prefix.rstrip("/") + "/"
    objs = {}
    n = rng.choice([0, 1, 2, 3, 5, 8, 12])
    for j in range(n):
        x = rng.random()
        mid = rng.choice(["_000%03d" % rng.randrange(60), "_%d" % j, "_" + inp + "_%d" % j, "", "-Logs%d" % j, ".%03d" % j])
        ext = rng.choice(["", ".092", ".csv", "_rename.csv"])
        if x < 0.6:
            k = pd + inp + mid + ext
        elif x < 0.7:
            k = pd + "Other" + mid + ext
        elif x < 0.77:
            k = pd + "x" + inp + mid + ext              # the name, but not at the start
        elif x < 0.84:
            k = pd + "deep/" + inp + mid + ext
        elif x < 0.9:
            k = rng.choice(["", "other/", pd[:-1] + "2/", "a" + pd]) + inp + mid + ext
        elif x < 0.95:
            k = rng.choice([pd, pd + inp + "/", pd + outp + mid + ext])
        else:
            k = pd + inp.lower() + mid + ext
        objs[k] = None
    objs = [{"key": k, "data": content(rng, inp).hex()} for k in sorted(objs)]
    excl = rng.choice([[], [], ["_000052", "Logs"], ["_00"], [".csv", "Logs"], [inp + "_" + inp], ["nothing like it"], [prefix.rstrip("/").rsplit("/", 1)[-1]], ["raw/"]])
    scen = {"inp": inp, "outp": outp, "bucket": rng.choice(["beep-input-data", "beep-input-data-stage", "beep-sync-test", "b"]), "prefix": prefix, "objs": objs, "excl": excl,
            "dry": rng.choice([True, False, False, None]), "names": None, "nobucket": rng.random() < 0.03,
            "other": rng.random() < 0.4, "local": rng.random() < 0.5, "faults": [],
            "knobs": {"s3page": rng.choice([1, 1, 2, 3, 1000]), "bufsize": rng.choice([64, 8192])},
            "_shrink": ["objs", "excl"]}
    if i % 150 == 7:
        scen["many"] = 1040                             # more objects than one answer of the service can list
        scen["knobs"]["s3page"] = 1000
    if rng.random() < 0.2 and objs:
        ks = [o["key"] for o in objs if not o["key"].endswith("/")]
        scen["names"] = [k for k in ks if rng.random() < 0.7]
        rng.shuffle(scen["names"])
    sel = chosen(scen)
    new = [renamed(scen, k) for k in sel]
    if len(set(new)) < len(new) or set(new) & set(sel) and inp != outp:
        return
    yield scen
    r = go(ctx, scen, count=False)
    if not r["trace"]:
        return
    for _ in range(4):
        fl = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            x = rng.random()
            if x < 0.6:
                t = faults.pick_op(rng, r["trace"], None, ("s3.list", "s3.head", "s3.get", "s3.body", "s3.put", "s3.put", "s3.put"))
                if t and rng.random() < 0.4:
                    t = faults.pick_op(rng, r["trace"], None, ("s3.put",)) or t
                if t:
                    fl.append({"kind": t[0], "path": t[1], "nth": t[2], "do": rng.choice(CODES)})
            elif x < 0.8:
                f = faults.io_fault(rng, r["trace"], None, ("open:w", "open:r", "read", "write", "close", "rename", "mkdir"))
                if f:
                    fl.append(f)
            elif x < 0.9:
                f = faults.interrupt_fault(rng, r["trace"], None, ("open:r", "read", "open:w", "write", "close", "s3.put", "s3.get"))
                if f:
                    fl.append(f)
            else:
                t = faults.pick_op(rng, r["trace"], None, ("open:w", "write", "close", "rename", "mkdir", "s3.put", "s3.get", "s3.body"))
                if t:
                    fl.append({"kind": t[0], "path": t[1], "nth": t[2], "do": "crash"})
        if fl:
            yield dict(scen, faults=fl)


def listed(scen):
    pd = scen["prefix"] if scen["prefix"].endswith("/") else scen["prefix"] + "/"
    want = posixpath.join(scen["prefix"], scen["inp"])
    return [o["key"] for o in scen["objs"] if o["key"].startswith(pd) and "/" not in o["key"][len(pd):]
            and want in o["key"] and not any(e in o["key"] for e in scen["excl"])]


def chosen(scen):
    return listed(scen) if scen["names"] is None else list(scen["names"])


def renamed(scen, k):
    d, n = posixpath.split(k)
    return posixpath.join(d, n.replace(scen["inp"], scen["outp"]))


def modified(scen, data):
    i = data.find(b"\n") + 1 or len(data)
    return data[:i].replace(scen["inp"].encode(), scen["outp"].encode()) + data[i:]


def local(scen):
    fs = {"/sim/w/keep.txt": b"keep"}
    if scen["local"]:
        for o in scen["objs"]:
            n = posixpath.basename(o["key"])
            if n:
                fs["/sim/w/" + n] = b"a local file of that name"
                fs["/sim/w/" + n.replace(scen["inp"], scen["outp"])] = b"another local file"
    return fs


def initial(scen):
    B = scen["bucket"]
    st = {(B, o["key"]): bytes.fromhex(o["data"]) for o in scen["objs"]}
    st[(B, "zz-unrelated")] = b"unrelated"
    for j in range(scen.get("many", 0)):
        st[(B, scen["prefix"].rstrip("/") + "/!%05d" % j)] = b""
    if not scen["nobucket"]:
        st[(T, "zz-unrelated")] = b"unrelated"
        if scen["other"] and scen["objs"]:
            st[(T, renamed(scen, scen["objs"][0]["key"]))] = b"old copy"
    return st


def go(ctx, scen, plan=(), count=True, keep=False):
    if not keep:
        ctx.reset()
        ctx.put_s3(initial(scen))
    util.wipe(ctx.root)
    ctx.write(local(scen))
    return ctx.run(op_transfer, (scen,), plan, scen["knobs"], s3=True, count=count)


def execute(ctx, scen):
    new = [renamed(scen, k) for k in chosen(scen)]
    if scen["names"] is not None and set(scen["names"]) - {o["key"] for o in scen["objs"]}:
        return
    if len(set(new)) < len(new):
        return
    ini = initial(scen)
    r = go(ctx, scen, scen["faults"])
    ok = judge(ctx, scen, r, ini)
    if not ok and (scen["inp"] not in scen["outp"] or scen["dry"] in (True, None)):   # else a repeat selects the copies too
        r = go(ctx, scen, keep=True)
        if not judge(ctx, scen, r, ini, again=True):
            raise Violation("repeat", "repeating the transfer after the fault was gone failed: %s" % r["exc"]["tb"])


def judge(ctx, scen, r, ini, again=False):
    plan = [] if again else scen["faults"]
    dry = scen["dry"] in (True, None)
    B = scen["bucket"]
    tb = T if dry else B
    sel = chosen(scen)
    target = {(tb, renamed(scen, k)): modified(scen, ini[(B, k)]) for k in sel}
    now = {(b, k): d for b, m in s3.Store(ctx.store).dump().items() for k, d in m.items()}
    # every object is either as it was or one complete, correct copy - at any time, whatever happened
    for key in sorted(set(now) | set(ini)):
        a, b = ini.get(key), now.get(key)
        if a == b:
            continue
        if key not in target:
            raise Violation("touched", "%s/%s was %s" % (key + ("changed" if a is not None and b is not None else
                                                               "deleted" if b is None else "created",)))
        if b != target[key]:
            raise Violation("content", "%s/%s holds %r, expected %r" % (key + (brief(b), brief(target[key]))))
        if not dry and key[1] in sel and a != b and scen["inp"] != scen["outp"]:
            raise Violation("source", "the source object %s was changed" % key[1])
    if r["outcome"] == "crash":
        ctx.probe("crash")
        return False
    got = util.snapshot(ctx.root, content=True)
    want = local(scen)
    bad = [f for f in r["fired"] if f[1] not in ("short", "jump")]
    if r["cwd"] != "/sim/w":
        raise Violation("cwd", "the working directory afterwards is %r" % r["cwd"])
    for p in sorted(set(got) | set(want)):
        if got.get(p) != want.get(p) and p not in BASE:
            raise Violation("local", "the local file %s was %s" % (p, "left behind" if p not in want else "changed"))
    if r["outcome"] != "return":
        ctx.probe("raised")
        if not bad:
            raise Violation("raised", "failed although nothing was wrong: %s" % (r["exc"] or r["outcome"]))
        # a refused upload alone must not end the transfer
        if all(p["do"].startswith("s3:") and p["kind"] == "s3.put" for p in plan):
            raise Violation("stopped", "refused uploads ended the transfer: %s" % r["exc"]["msg"])
        return False
    ctx.probe("returned")
    names, untouched = r["value"]
    if sorted(names) != sorted(listed(scen)):
        raise Violation("selection", "selected %s, expected %s" % (sorted(names), sorted(listed(scen))))
    refused = set()
    for i, do, path in r["fired"]:
        if do.startswith("s3:") and plan[i]["kind"] == "s3.put":
            refused.add(path)
    if scen["nobucket"] and dry:
        refused |= {"s3://%s/%s" % k for k in target}
    puts = [o for o in r["s3ops"] if o[0] == "put"]
    for key, data in target.items():
        u = "s3://%s/%s" % key
        if u in refused:
            ctx.probe("refused")
            if key[1] not in r["out"] + r["err"] and posixpath.basename(key[1]) not in r["out"] + r["err"]:
                raise Violation("unreported", "the refused upload of %s was not reported; output: %r" % (key[1], r["out"][-300:]))
        else:
            if now.get(key) != data:
                raise Violation("missing", "returned normally, but %s/%s %s" % (key + (
                    "does not exist" if key not in now else "holds %r" % brief(now[key]),)))
            ctx.probe("copied")
            c = len([o for o in puts if o[1:] == key])
            if c != 1:
                raise Violation("twice", "%s was uploaded %d times" % (key[1], c))
    return True


def brief(b):
    return b if b is None or len(b) < 160 else b[:80] + b"..." + b[-60:] + b" (%d bytes)" % len(b)
