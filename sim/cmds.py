"""Any command of the tool as one scenario {"op": ..., ...}.  Shared by C05, C06, C13, C16, C18."""
import os
import re

from . import batch, core, feat, ml, proc, proto, util
from .checks import c07

OPS = ["structure", "featurize", "train", "predict", "protocol"]
STATUS = "/sim/w/status.json"


def gen(rng, op=None, damage=0.15, small=False):
    op = op or rng.choice(OPS)
    if op == "structure":
        n = rng.randint(1, 2 if small else 4)
        s = {"files": [dict(batch.gen_spec(rng, j, damage), id=j) for j in range(n)], "opts": batch.gen_opts(rng),
             "_shrink": ["files"]}
    elif op == "featurize":
        s = feat.gen(rng, n=rng.randint(1, 2 if small else 3), damage_p=damage)
        s.pop("dups", None)
    elif op in ("train", "predict"):
        spec = ml.gen_spec(rng, n=rng.choice([8, 10, 12]))
        s = {"spec": spec, "opts": ml.gen_opts(rng), "cmd": op, "auto": rng.random() < 0.15}
        if rng.random() < damage / 2:
            s["damage"] = [rng.choice(["fm", "tm"] if op == "train" else ["pm", "model"]),
                           rng.choice([d for d in c07.DMG if d != "missing"]), round(rng.uniform(0.05, 0.98), 3)]
        if op == "predict":
            s["pspec"] = dict(spec, n=rng.choice([1, 4]), first=50, nan=rng.choice([0, 0.1]))
            if rng.random() < damage / 2:
                s["pspec"]["drop"] = [0]
            s["popts"] = {"thresh": rng.choice([0.4, 1.0])} if rng.random() < 0.5 else {}
            s["opts"].pop("impute", None)
    elif op == "protocol":
        s = {"rows": proto.gen_table(rng, n=rng.randint(1, 3),
                                     fams=None if rng.random() < 2 * damage else ["EXP", "V2", "V3", "Drive", "RapidC", "Form"]),
             "_shrink": ["rows"]}
    else:
        raise ValueError(op)
    s["op"] = op
    s["faults"] = []
    s["knobs"] = {"bufsize": rng.choice([512, 8192]), "dirsalt": rng.randrange(4)}
    return s


def lines(scen):
    b = core.REPO + "/beep/"
    return {"structure": [b + "structure/", b + "cmd.py"],
            "featurize": [b + "features/", b + "structure/", b + "cmd.py", os.path.dirname(__file__) + "/simfeats.py"],
            "train": [b + "model.py", b + "features/base.py", b + "cmd.py"],
            "predict": [b + "model.py", b + "features/base.py", b + "cmd.py"],
            "protocol": [b + "protocol/", b + "utils/waveform.py", b + "cmd.py"]}[scen["op"]]


def inputs(ctx, scen):
    """ordered list of (main path, {path: bytes})"""
    op = scen["op"]
    if op == "structure":
        return batch.materialise(scen)
    if op == "featurize":
        return feat.materialise(ctx, scen)
    if op in ("train", "predict"):
        return [(p, {} if b is None else {p: b}) for p, b in c07.inputs(ctx, scen).values()]
    c = "/sim/in/t_parameters.csv"
    return [(c, {c: proto.csv_of(scen["rows"])})]


def put(ctx, scen):
    ins = inputs(ctx, scen)
    for _, fs in ins:
        ctx.write(fs)
    for d in ("out", "w", "tmp"):
        os.makedirs(os.path.join(ctx.root, d), exist_ok=True)
    return ins


def args(scen, ins, halt=None, glob=(), status=True):
    """command line; glob: further global options"""
    op = scen["op"]
    s = {k: v for k, v in scen.items() if k != "halt"}
    if op == "structure":
        a = batch.command(s, ins)
    elif op == "featurize":
        a = feat.command(s, ins)
    elif op in ("train", "predict"):
        a = c07.command(s)
    else:
        a = ["-s", STATUS, "protocol", ins[0][0], "-d", "/sim/out"]
    if not status:
        a = a[2:]
    if halt if halt is not None else scen.get("halt"):
        a = ["--halt-on-error"] + a
    return list(glob) + a


def run(ctx, scen, ins, plan=(), use_lines=False, halt=None, glob=(), count=True, knobs=None):
    k = dict(scen["knobs"])
    k.update(knobs or {})
    return ctx.run(proc.cli, (args(scen, ins, halt, glob),), plan, k, lines=lines(scen) if use_lines else None, count=count)


TIME = re.compile(r"-\d{4}-\d\d-\d\d_\d\d\.\d\d\.\d\d\.\d+")


def volatile(x, drop=("walltime", "op_datetime_utc", "processed_md5_chksum", "subop_md5_chksum")):
    """a status report without times (checksums of archives cover the time of writing); errors by type"""
    if isinstance(x, dict):
        return {k: (batch.tb_type(v) if v else None) if k == "traceback" else volatile(v) for k, v in x.items()
                if k not in drop or (k == "processed_md5_chksum" and "structured" not in x)}
    if isinstance(x, list):
        return [volatile(v) for v in x]
    if isinstance(x, str):
        return TIME.sub("-TIME", x)
    return x


def failed(st):
    """does the report record any failure"""
    def walk(x):
        if isinstance(x, dict):
            if x.get("traceback"):
                return True
            return any(walk(v) for v in x.values())
        if isinstance(x, list):
            return any(walk(v) for v in x)
        return False
    return walk(st)
