"""Conversion, splicing and file generation as one-operation scenarios with own models.  Shared by C13, C15, C18.

A scenario {"op", "p": parameters, ...}; inputs(scen) -> {path: bytes}; outs(scen) -> promised paths in order;
lib(op, p) runs the operation (in a simulated process); reload(op, p, outs) reads the outputs back the way a user
would; model(scen, files) judges their content without beep code.
"""
import io
import json
import os
import random
import re
import xml.etree.ElementTree as ET

import pandas as pd

from . import core, rawgen, util

OPS = ["procedure", "schedule", "settings", "to-arbin", "to-biologic", "to-maccor", "cycles", "waveform", "splice"]
PT = core.REPO + "/beep/protocol/procedure_templates/"
ST = core.REPO + "/beep/protocol/schedule_templates/20170630-3_6C_9per_5C.sdu"
BT = core.REPO + "/beep/protocol/biologic_templates/"
IN, OUT = "/sim/in/", "/sim/out/"


def _r(p):
    with open(p, "rb") as f:
        return f.read()


# ------------------------------------------------------------------ generation
NOTES = ["", "CC1", "hold 5 \u00b5A", "a=b", "x & y <z>", "step [2]", "caf\u00e9", "50% SOC"]


def gen(rng, op=None):
    op = op or rng.choice(OPS)
    p = {}
    if op == "procedure":
        p["template"] = rng.choice(["EXP.000", "diagnosticV2.000", "diagnosticV3.000", "diagnosticV4.000", "BioTest_000001.000",
                                    "drivingV1.000", "diagnosticV5.000"])
        p["enc"] = rng.choice(["UTF-8", "UTF-8", "ISO-8859-1"])
        p["mods"] = [[rng.randrange(0, 40), rng.choice(["StepValue", "StepNote", "modify"]),
                      rng.choice(["1.5", "0.01C", "4.2E-3"] + NOTES[1:])] for _ in range(rng.randint(0, 5))]
    elif op == "schedule":
        p["how"] = rng.choice(["fast", "labels", "plain"])
        p["fast"] = [round(rng.uniform(0.5, 8), 3), round(rng.uniform(0.05, 0.9), 3), round(rng.uniform(0.5, 8), 3)]
        p["labels"] = [[rng.choice(["CC1", "CC2", "Adv Cycle"]), rng.choice(["m_szCtrlValue", "m_szLabel", "m_szNote"]),
                        rng.choice(["1.25"] + [n for n in NOTES if n])] for _ in range(rng.randint(0, 3))]
    elif op == "settings":
        p["template"] = rng.choice(["formationV1.mps", "formationV1.mps",
                                    "BCS - 171.64.160.115_Ta19_ourprotocol_gdocSEP2019_CC7.mps"])
        p["twice"] = rng.random() < 0.3
        p["form"] = p["template"] == "formationV1.mps" and not p["twice"] and rng.random() < 0.5
        p["seed"] = rng.randrange(1000)
        p["sets"] = [[rng.randint(1, 5), rng.choice(["ctrl1_val", "lim1_value", "rec1_value"]),
                      rng.choice(["1.250", "0.001", "3.1415", "99999.999", "1234567890.12345678", "12345678901.12345678"])]
                     for _ in range(rng.randint(0, 3))]
    elif op in ("to-arbin", "to-biologic"):
        p["steps"] = gen_steps(rng, op == "to-biologic")
        p["name"] = "proc_%03d" % rng.randrange(1000)
        p["twice"] = op == "to-arbin" and rng.random() < 0.3
    elif op == "to-maccor":
        p["seqs"] = gen_seqs(rng)
    elif op == "cycles":
        p["n"] = rng.randint(1, 3)
        p["seed"] = rng.randrange(10000)
        p["rows"] = rng.randint(1, 40)
    elif op == "waveform":
        p["col"] = rng.choice(["power", "current"])
        p["n"] = rng.randint(2, 60)
        p["seed"] = rng.randrange(10000)
        p["mode"] = rng.choice([None, "P", "I"])
        p["scale"] = rng.choice([0.1, 1.0, 5.5])
    elif op == "splice":
        p["a"] = {"kind": "maccor", "seed": rng.randrange(999), "cycles": rng.randint(1, 3), "rows": rng.randint(2, 9)}
        p["b"] = {"kind": "maccor", "seed": rng.randrange(999), "cycles": rng.randint(1, 3), "rows": rng.randint(2, 9),
                  "gap": rng.choice([0.0, 500.0])}
        p["inplace"] = False
        if rng.random() < 0.3:
            p["a"]["waveform"] = 1
        if rng.random() < 0.25:
            rng.choice([p["a"], p["b"]])["dup"] = rng.choice([3, 5])
        if rng.random() < 0.5:      # the second file goes on (or repeats the last number) in some columns
            last = dict(zip(INC, [float(_table(rawgen.maccor(p["a"]))[2][-1][k]) for k in (0, 1, 3)]))
            if rng.random() < 0.6:
                p["b"]["rec0"] = int(last["Rec#"]) - rng.choice([0, 1, 1, 2])
            if rng.random() < 0.6:
                p["b"]["cyc0"] = int(last["Cyc#"]) + rng.choice([0, 0, 1])
            if rng.random() < 0.6:
                p["b"]["sec0"] = last["Test (Sec)"] + rng.choice([0.0, 10.0])
    return {"op": op, "p": p, "stale": rng.random() < 0.5, "faults": [],
            "knobs": {"bufsize": rng.choice([64, 512, 8192]), "dirsalt": rng.randrange(4)}}


def gen_steps(rng, bio):
    """a small Maccor procedure: nested lists ["loop", n, [..]] around plain steps"""
    def plain():
        k = rng.choice(["rest", "chg", "dis", "cccv", "chg", "dis"])
        if k == "rest":
            return {"k": k, "t": rng.choice(["00:10:00", "01:00:00", "00:00:30"])}
        return {"k": k, "i": rng.choice(["0.500", "1.000", "0.050", "2.250"]), "v": rng.choice(["3.600", "4.200", "2.700"]),
                "t": rng.choice([None, "05:00:00", "00:30:00"]), "rep": rng.choice([1, 2] if bio else [0, 1, 1, 2]), "note": rng.choice(["", "n1", "main [a]" if not bio else "m"])}

    def body(n):
        return [plain() for _ in range(n)]
    s = body(rng.randint(1, 2))
    if rng.random() < 0.3:
        s += ["adv"] * rng.choice([1, 1, 2])
        s += body(1)
    many = rng.random() < 0.12
    for _ in range(rng.randint(5, 6) if many else rng.randint(0, 2)):
        x = rng.random() + many
        if x < 0.6:
            s.append(["loop", 1, rng.randint(2, 4), body(rng.randint(2, 3)) + (["adv"] if rng.random() < 0.8 else [])])
        else:
            s.append(["loop", 1, rng.randint(2, 3), body(rng.randint(1, 2)) +
                      [["loop", 2, rng.randint(2, 3), body(2) + (["adv"] if rng.random() < 0.7 else [])]] +
                      body(1) + (["adv"] if rng.random() < 0.7 else [])])
        if rng.random() < 0.7:
            s += body(1)
    return s


def flatten(steps):
    """list of step dicts in file order with 1-based numbers and jump targets"""
    out = []

    def add(lst):
        for x in lst:
            if x == "adv":
                out.append({"type": "AdvCycle"})
            elif isinstance(x, list):
                _, lev, n, b = x
                do = len(out) + 1
                out.append({"type": "Do %d" % lev})
                add(b)
                out.append({"type": "Loop %d" % lev, "n": n, "do": do})
            else:
                out.append(dict(x, type={"rest": "Rest", "chg": "Charge", "dis": "Dischrge", "cccv": "Charge"}[x["k"]]))
    add(steps)
    out.append({"type": "End"})
    return out


def procedure_xml(steps):
    fl = flatten(steps)
    h = _r(core.REPO + "/beep/protocol/procedure_templates/diagnosticV2.000").decode()
    head = h[:h.index("<ProcSteps>")]
    x = [head + "<ProcSteps>"]

    def end(t, oper, val, step):
        return ("<EndEntry><EndType>%s</EndType><SpecialType> </SpecialType><Oper>%s</Oper><Step>%03d</Step><Value>%s</Value>"
                "</EndEntry>" % (t, oper, step, val))
    for i, s in enumerate(fl):
        n = i + 1
        mode, val, lim, ends, rep, note = "        ", "", "<Limits/>", "", "", s.get("note", "")
        if s["type"] == "Rest":
            ends = end("StepTime", " = ", s["t"], n + 1)
        elif s["type"] in ("Charge", "Dischrge"):
            mode, val = "Current ", s["i"]
            if s["k"] == "cccv":
                lim = "<Limits><Voltage>%s</Voltage></Limits>" % s["v"]
                ends = end("Current ", "&lt;= ", "0.020", n + 1)
            elif s["type"] == "Charge":
                ends = end("Voltage ", "&gt;= ", s["v"], n + 1)
            else:
                ends = end("Voltage ", "&lt;= ", s["v"], n + 1)
            if s["t"]:
                ends += end("StepTime", " = ", s["t"], n + 1)
        elif s["type"].startswith("Loop"):
            ends = end("Loop Cnt", " = ", str(s["n"]), n + 1)
        if "k" in s:
            rep = "".join("<ReportEntry><ReportType>%s</ReportType><Value>%s</Value></ReportEntry>" % x for x in
                          (("StepTime", "00:00:30"), ("Voltage ", "0.010"))[:s.get("rep", 1)])
        x.append("<TestStep><StepType>%s</StepType><StepMode>%s</StepMode><StepValue>%s</StepValue>%s%s%s<Range>4</Range>"
                 "<Option1>N</Option1><Option2>N</Option2><Option3>N</Option3><StepNote>%s</StepNote></TestStep>"
                 % (s["type"].center(8), mode, val, lim, "<Ends>%s</Ends>" % ends if ends else "<Ends/>",
                    "<Reports>%s</Reports>" % rep if rep else "<Reports/>", note))
    x.append("</ProcSteps></MaccorTestProcedure>")
    return ("\n".join(x) + "\n").encode()


def gen_seqs(rng):
    def plain():
        k = rng.choice(["CC", "CV", "Rest", "CC"])
        return {"k": k, "v": rng.choice(["1.500", "2.000", "0.250"]), "dis": rng.random() < 0.5,
                "lim": rng.choice([["Time", ">", "10.000", "s"], ["Ecell", ">", "3.600", "V"], ["I", "<", "4.000", "mA"]])}
    s = [plain() for _ in range(rng.randint(1, 3))]
    for _ in range(rng.randint(0, 2)):
        m = rng.randint(1, 3)
        start = len(s)
        s += [plain() for _ in range(m)]
        s.append({"k": "Loop", "to": start, "n": rng.randint(1, 9)})
        if rng.random() < 0.5:
            s += [plain() for _ in range(rng.randint(1, 2))]
    return s


def mps_text(seqs):
    head, rest = SAMPLE_HEAD, SAMPLE_ROWS
    rows = [r.split("|") for r in rest.split(";")]
    out = [head]
    for name, default in rows:
        line = name.ljust(20)
        for i, s in enumerate(seqs):
            v = default
            if name == "Ns":
                v = str(i)
            elif name == "ctrl_type":
                v = s["k"]
            elif name == "ctrl1_val":
                v = s.get("v", "") if s["k"] in ("CC", "CV") else ""
            elif name == "ctrl1_val_unit":
                v = {"CC": "A", "CV": "V"}.get(s["k"], "")
            elif name == "ctrl1_val_vs":
                v = {"CC": "<None>", "CV": "Ref"}.get(s["k"], "")
            elif name == "ctrl_seq":
                v = str(s.get("to", 0))
            elif name == "ctrl_repeat":
                v = str(s.get("n", 0))
            elif name == "charge/discharge":
                v = "Discharge" if s.get("dis") else "Charge"
            elif name == "lim_nb":
                v = "0" if s["k"] == "Loop" else "1"
            elif name.startswith("lim1_") and "lim" in s:
                d = dict(zip(("lim1_type", "lim1_comp", "lim1_value", "lim1_value_unit"), s["lim"]))
                v = d.get(name, default)
            if name in ("lim1_seq", "lim2_seq", "lim3_seq"):
                v = str(i + 1)
            if name == "rec_nb":
                v = "0" if s["k"] == "Loop" else "1"
            line += v.ljust(20)
        out.append(line)
    return ("\r\n".join(out) + "\r\n").encode("latin-1")


SAMPLE_HEAD = "\r\n".join([
    "BT-LAB SETTING FILE", "", "Number of linked techniques : 1", "", "Filename : C:\\Users\\s.mps", "", "Device : BCS-805",
    "Ecell ctrl range : min = 0.00 V, max = 10.00 V", "Electrode material : ", "Initial state : ", "Electrolyte : ",
    "Comments : ", "Mass of active material : 0.001 mg", "at x = 0.000", "Battery capacity : 2.280 mA.h",
    "Cycle Definition : Charge/Discharge alternance", "Turn to OCV between techniques", "", "Technique : 1", "Modulo Bat"])
SAMPLE_ROWS = ("Ns|;ctrl_type|;Apply I/C|I;ctrl1_val|;ctrl1_val_unit|;ctrl1_val_vs|;ctrl2_val|;ctrl2_val_unit|;ctrl2_val_vs|;"
               "ctrl3_val|;ctrl3_val_unit|;ctrl3_val_vs|;N|1.00;charge/discharge|Charge;ctrl_seq|0;ctrl_repeat|0;"
               "ctrl_trigger|Falling Edge;ctrl_TO_t|0.000;ctrl_TO_t_unit|d;ctrl_Nd|6;ctrl_Na|2;ctrl_corr|1;lim_nb|1;"
               "lim1_type|Time;lim1_comp|>;lim1_Q|Q limit;lim1_value|1.000;lim1_value_unit|s;lim1_action|Next sequence;"
               "lim1_seq|1;lim2_type|Time;lim2_comp|>;lim2_Q|Q limit;lim2_value|0.000;lim2_value_unit|s;"
               "lim2_action|Next sequence;lim2_seq|1;lim3_type|Time;lim3_comp|>;lim3_Q|Q limit;lim3_value|0.000;"
               "lim3_value_unit|s;lim3_action|Next sequence;lim3_seq|1;rec_nb|1;rec1_type|Time;rec1_value|30.000;"
               "rec1_value_unit|s;rec2_type|Time;rec2_value|0.000;rec2_value_unit|s;rec3_type|Time;rec3_value|0.000;"
               "rec3_value_unit|s;E range min (V)|0.000;E range max (V)|9.000;I Range|1 A;I Range min|Unset;"
               "I Range max|Unset;I Range init|Unset;auto rest|0;Bandwidth|5")


def cycle_case(p):
    """random exported tables and rules"""
    r = random.Random("cyc%d" % p["seed"])
    files, exp, cyc = {}, [], 1
    for t in range(p["n"]):
        nseq = r.randint(1, 4)
        trans = {(a, b): r.randint(1, 2) for a in range(nseq) for b in range(nseq) if a != b and r.random() < 0.5}
        rules = {"tech_num": t + 1, "tech_does_loop": True, "adv_cycle_on_start": r.randint(0, 2) if r.random() < 0.5 else 0,
                 "adv_cycle_on_tech_loop": r.randint(0, 2),
                 "adv_cycle_seq_transitions": [{"source": a, "target": b, "adv_cycle_count": n} for (a, b), n in trans.items()],
                 "debug_adv_cycle_on_step_transitions": []}
        files[IN + "rules%d.json" % t] = json.dumps(rules).encode()
        rows, loop, seq = [], 0, 0
        for k in range(p["rows"]):
            x = r.random()
            if x < 0.15:
                loop, seq = loop + 1, 0
            elif x < 0.4:
                seq = r.randrange(nseq)
            rows.append((k, seq, loop, round(2 + r.random(), 5)))
        files[IN + "tech%d.csv" % t] = ("\n".join(["time/s;Ns;Loop;Ecell/V"] + ["%d;%d;%d;%r" % (k, s, l, v)
                                                                               for k, s, l, v in rows]) + "\n").encode()
        cyc += rules["adv_cycle_on_start"]
        ps, pl, col = rows[0][1], rows[0][2], []
        for k, s, l, v in rows:
            if l != pl:
                cyc += rules["adv_cycle_on_tech_loop"]
            elif s != ps:
                cyc += trans.get((ps, s), 0)
            ps, pl = s, l
            col.append(cyc)
        exp.append((rows, col))
    return files, exp


def wave_table(p):
    r = random.Random("wave%d" % p["seed"])
    v, out = 0.0, []
    for k in range(p["n"]):
        if r.random() < 0.5:
            v = r.choice([0.0, round(r.uniform(-3, 3), 3), round(r.uniform(-3, 3), 3)])
        out.append(v)
    if not any(out):
        out[-1] = -1.5
    return out


# ------------------------------------------------------------------ the operation
def inputs(scen):
    op, p = scen["op"], scen["p"]
    if op == "procedure":
        return {IN + "template.000": _r(PT + p["template"])}
    if op == "schedule":
        return {IN + "template.sdu": _r(ST)}
    if op == "settings":
        b = _r(BT + p["template"])
        if p["twice"]:
            t = b.decode("latin-1")
            i = t.index("Technique : 1")
            t = t.replace("linked techniques : 1", "linked techniques : 2") + "\r\n" + t[i:].replace("Technique : 1", "Technique : 2")
            b = t.encode("latin-1")
        return {IN + "template.mps": b}
    if op == "to-arbin":
        return {IN + "template.sdu": _r(ST), IN + "p.000": procedure_xml(p["steps"])}
    if op == "to-biologic":
        return {IN + "p.000": procedure_xml(p["steps"])}
    if op == "to-maccor":
        return {IN + "p.mps": mps_text(p["seqs"])}
    if op == "cycles":
        return cycle_case(p)[0]
    if op == "waveform":
        return {}
    if op == "splice":
        return {IN + "a.001": rawgen.maccor(p["a"]), IN + "b.001": rawgen.maccor(p["b"])}


def outs(scen):
    op, p = scen["op"], scen["p"]
    if op == "to-biologic":
        return [OUT + p["name"] + ".mps"] + [OUT + "%stechnique_%d_cycle_advancement_rules.json" % (p["name"], n)
                                              for n, _, _, _ in partitions(p["steps"])]
    if op == "cycles":
        return [OUT + "tech%d.csv" % t for t in range(p["n"])]
    return [OUT + {"procedure": "o.000", "schedule": "o.sdu", "settings": "o.mps", "to-arbin": "o.sdu", "to-maccor": "o.000",
                   "waveform": "w.MWF", "splice": "o.001"}[op]]


def lib(op, p, out, IN=IN, OUT=OUT):
    """-> canonical value of what was saved (None where only the files count)"""
    if op == "procedure":
        from beep.protocol.maccor import Procedure
        o = Procedure.from_file(IN + "template.000")
        steps = o["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
        for n, k, v in p["mods"]:
            n %= len(steps)
            if k == "modify":
                o.modify_step_value(n, steps[n]["StepType"], v)
            else:
                steps[n][k] = v
        want = plain(o)
        o.to_file(out[0], encoding=p["enc"])
        same(want, plain(o))
        return want
    if op == "schedule":
        from beep.protocol.arbin import Schedule
        if p["how"] == "fast":
            o = Schedule.from_fast_charge(*p["fast"], IN + "template.sdu")
        else:
            o = Schedule.from_file(IN + "template.sdu")
        if p["how"] != "plain":
            for l, k, v in p["labels"]:
                o.set_labelled_steps(l, k, v)
        want = plain(o)
        o.to_file(out[0])
        same(want, plain(o))
        return want
    if op == "settings":
        from beep.protocol.biologic import Settings
        o = Settings.from_file(IN + "template.mps")
        if p["form"]:
            o.formation_protocol_bcs(form_params(p["seed"]))
        for n, k, v in p["sets"]:
            o.set("Technique.1.Step.%d.%s" % (n, k), v)
        want = plain(o, True)
        o.to_file(out[0])
        same(want, plain(o, True))
        return want
    if op == "to-arbin":
        from beep.protocol.maccor import Procedure
        from beep.protocol.maccor_to_arbin import ProcedureToSchedule
        o = Procedure.from_file(IN + "p.000")
        st = o["MaccorTestProcedure"]["ProcSteps"]["TestStep"]
        c = ProcedureToSchedule(st)
        if p["twice"]:
            c.create_sdu(IN + "template.sdu", out[0])
        c.create_sdu(IN + "template.sdu", out[0])
        return None
    if op == "to-biologic":
        from beep.protocol.maccor_to_biologic_mb import MaccorToBiologicMb
        a, b = MaccorToBiologicMb().convert(IN + "p.000", OUT[:-1], p["name"])
        return [str(a)] + [str(x) for x in b]
    if op == "to-maccor":
        from beep.protocol.biologic_mb_to_maccor import BiologicMbToMaccorProcedure
        BiologicMbToMaccorProcedure.convert(IN + "p.mps", out[0])
        return None
    if op == "cycles":
        from beep.protocol.maccor_to_biologic_mb import add_cycle_nums_to_csvs
        n = p["n"]
        add_cycle_nums_to_csvs([IN + "tech%d.csv" % t for t in range(n)], [IN + "rules%d.json" % t for t in range(n)], out)
        return None
    if op == "waveform":
        from beep.conversion_schemas import MACCOR_WAVEFORM_CONFIG
        from beep.protocol.maccor import generate_maccor_waveform_file
        v = wave_table(p)
        df = pd.DataFrame({"time": range(len(v)), p["col"]: v})
        cfg = None
        if p["mode"]:
            cfg = dict(MACCOR_WAVEFORM_CONFIG, control_mode=p["mode"], value_scale=p["scale"])
        return [str(generate_maccor_waveform_file(df, "w", OUT[:-1], cfg) if cfg else
                    generate_maccor_waveform_file(df, "w", OUT[:-1]))]
    if op == "splice":
        from beep.utils.splice import MaccorSplice
        MaccorSplice(IN + "a.001", IN + "b.001", out[0]).run_splice()
        return None


class Changed(Exception):
    """the saved object was changed by saving it"""


def same(a, b):
    if a != b:
        raise Changed(str(util.diff(a, b)))


def plain(o, text=False):
    o = json.loads(json.dumps(o))

    def s(x):
        if isinstance(x, dict):
            return {k: s(v) for k, v in x.items()}
        if isinstance(x, list):
            return [s(v) for v in x]
        return str(x) if text and x is not None else x
    return s(o)


def reload(op, p, out):
    """what a user reads back, canonical"""
    if op == "procedure":
        from beep.protocol.maccor import Procedure
        return plain(Procedure.from_file(out[0], encoding=p["enc"]))
    if op == "schedule":
        from beep.protocol.arbin import Schedule
        return plain(Schedule.from_file(out[0]))
    if op == "settings":
        from beep.protocol.biologic import Settings
        return plain(Settings.from_file(out[0]), True)
    if op == "to-arbin":
        from beep.protocol.arbin import Schedule
        return plain(Schedule.from_file(out[0]))
    if op == "to-biologic":
        from beep.protocol.maccor_to_biologic_mb import CycleAdvancementRulesSerializer
        s = CycleAdvancementRulesSerializer()
        r = []
        for f in out[1:]:
            with open(f) as h:
                c = s.parse_json(h.read())
            r.append([c.tech_num, bool(c.tech_does_loop), c.adv_cycle_on_start, c.adv_cycle_on_tech_loop,
                      sorted([list(k), v] for k, v in c.adv_cycle_seq_transitions.items())])
        return r
    if op == "to-maccor":
        from beep.protocol.maccor import Procedure
        return plain(Procedure.from_file(out[0]))
    if op == "splice":
        from beep.structure.maccor import MaccorDatapath
        return util.canon(MaccorDatapath.from_file(out[0]).raw_data.shape)
    return None


def form_params(seed):
    r = random.Random("form%d" % seed)
    keys = ("initial_charge_current_1 initial_charge_voltage_1 initial_charge_cvhold_1 initial_charge_rest_1 "
            "initial_charge_current_2 initial_charge_voltage_2 initial_charge_cvhold_2 initial_charge_rest_2 "
            "initial_discharge_current_1 initial_discharge_voltage_1 mid_charge_current_1 mid_charge_voltage_1 "
            "mid_discharge_current_1 mid_discharge_voltage_1 final_charge_current_1 final_charge_voltage_1 "
            "final_discharge_current_1 final_discharge_voltage_1 final_discharge_cvhold_1 capacity_nominal").split()
    d = {k: round(r.uniform(0.1, 60), 4) for k in keys}
    d["mid_cycle_reps"] = r.randint(1, 9)
    return pd.Series(d)


# ------------------------------------------------------------------ own models of the content
def partitions(steps):
    """[(technique number, loops?, count, [(step number, step)])]: a level-1 loop around a level-2 loop is its own technique"""
    fl = flatten(steps)[:-1]
    nums = [(i + 1, s) for i, s in enumerate(fl)]
    out, cur, tech, i = [], [], 1, 0
    while i < len(nums):
        n, s = nums[i]
        if s["type"] == "Do 1":
            j = next(k for k in range(i, len(nums)) if nums[k][1]["type"] == "Loop 1")
            inner = nums[i + 1:j]
            if any(x["type"] == "Do 2" for _, x in inner):
                if cur:
                    out.append((tech, False, 0, cur))
                    tech += 1
                out.append((tech, True, nums[j][1]["n"], inner))
                tech += 2
                cur, i = [], j + 1
                continue
            cur += nums[i:j + 1]
            i = j + 1
            continue
        cur.append((n, s))
        i += 1
    if cur:
        out.append((tech, False, 0, cur))
    return out


def parse_mps(text):
    """{technique number: (type, {row: [values]})}"""
    out = {}
    blocks = re.split(r"\r?\nTechnique : (\d+)\r?\n", text)
    for num, body in zip(blocks[1::2], blocks[2::2]):
        lines = [l for l in re.split(r"\r?\n", body)]
        rows = {}
        for l in lines[1:]:
            if not l.strip():
                continue
            vals = [l[k:k + 20].strip() for k in range(20, max(len(l), 21), 20)]
            rows[l[:20].strip()] = vals
        out[int(num)] = (lines[0].strip(), rows)
    return out


UNIT = {"A": 1, "mA": 1e-3, "\u00b5A": 1e-6, "nA": 1e-9, "V": 1, "mV": 1e-3, "h": 3600, "mn": 60, "s": 1, "ms": 1e-3}


def secs(t):
    h, m, s = t.split(":")
    return float(h) * 3600 + float(m) * 60 + float(s)


def model(scen, files):
    """files: {path: bytes} -> list of complaints"""
    op, p = scen["op"], scen["p"]
    o = outs(scen)
    return globals()["_m_" + op.replace("-", "_")](p, [files[x] for x in o])


def _elem(e):
    kids = list(e)
    if not kids:
        t = (e.text or "").strip()
        return t
    return [(k.tag, _elem(k)) for k in kids]


def _xml(b):
    root = ET.fromstring(b)
    return _elem(root.find("header")), [dict((k.tag, _elem(k)) for k in s) for s in root.find("ProcSteps")]


def _m_procedure(p, fs):
    h0, s0 = _xml(_r(PT + p["template"]))
    h1, s1 = _xml(fs[0])
    if h0 != h1:
        return ["header differs"]
    for n, k, v in p["mods"]:
        n %= len(s0)
        s0[n]["StepValue" if k == "modify" else k] = v
    return [] if s0 == s1 else ["%d steps, expected %d; first difference: %s" % (
        len(s1), len(s0), next(((a, b) for a, b in zip(s0, s1) if a != b), None))]


def ini(b):
    out, cur = {}, None
    for l in b.decode("latin-1").split("\n"):
        l = l.rstrip("\r")
        if re.match(r"^\[.+\]$", l):
            cur = out.setdefault(l[1:-1], {})
        elif l.strip() and cur is not None:
            k, _, v = l.partition("=")
            cur[k] = v
    return out


def _m_schedule(p, fs):
    a, b = ini(_r(ST)), ini(fs[0])
    if p["how"] == "fast":
        def f(x):
            return "{0:.3f}".format(x).rstrip("0")
        _set(a, "CC1", "m_szCtrlValue", f(p["fast"][0]))
        sec = _label(a, "CC1", all=True)
        for s in sec:
            for q in a:
                if q.startswith(s + "_Limit") and a[q].get("m_bStepLimit") == "1" and \
                        a[q].get("Equation0_szLeft") == "PV_CHAN_Charge_Capacity":
                    a[q]["Equation0_szCompareSign"] = ">"
                    a[q]["Equation0_szRight"] = f(p["fast"][1])
        _set(a, "CC2", "m_szCtrlValue", f(p["fast"][2]))
    if p["how"] != "plain":
        for l, k, v in p["labels"]:
            _set(a, l, k, v)
    return util.diff(a, b)


def _label(a, l, all=False):
    r = [s for s in a if re.match(r"^Schedule_Step\d+$", s) and a[s].get("m_szLabel") == l]
    return r if all else r[:1]


def _set(a, l, k, v):
    for s in _label(a, l):
        a[s][k] = v


def _m_settings(p, fs):
    a = parse_mps(inputs({"op": "settings", "p": p})[IN + "template.mps"].decode("latin-1"))
    b = parse_mps(fs[0].decode("latin-1"))
    for n, k, v in p["sets"]:
        a[1][1][k][n - 1] = v
    if p["form"]:
        if sorted(a) != sorted(b) or [len(x[1]) for x in a.values()] != [len(x[1]) for x in b.values()]:
            return ["techniques or rows lost"]
        d = [(r, i) for r in a[1][1] for i, (x, y) in enumerate(zip(a[1][1][r], b[1][1][r])) if x != y]
        w = form_params(p["seed"])
        try:
            if float(b[1][1]["lim1_value"][2]) != round(w["initial_charge_cvhold_1"], 3) and \
                    not any(s[0] == 3 for s in p["sets"]):
                return ["parameter not saved"]
        except ValueError as e:
            return [str(e)]
        return [] if len(d) <= 25 else ["%d values changed" % len(d)]
    return util.diff(util.canon(a), util.canon(b))


def _m_to_arbin(p, fs):
    fl = flatten(p["steps"])
    a = ini(fs[0])
    st = [s for s in a if re.match(r"^Schedule_Step\d+$", s)]
    if st != ["Schedule_Step%d" % i for i in range(len(fl))]:
        return ["steps %s, expected %d" % (st, len(fl))]
    if a["Schedule"]["m_uStepNum"] != str(len(fl)):
        return ["step number %s" % a["Schedule"]["m_uStepNum"]]
    out = []
    for i, s in enumerate(fl):
        g = a["Schedule_Step%d" % i]
        want = {"Rest": "Rest", "End": "Rest"}.get(s["type"], "Set Variable(s)")
        val = None
        if "k" in s and s["k"] != "rest":
            want = "CCCV" if s["k"] == "cccv" else "Current(A)"
            val = s["i"] if s["type"] == "Charge" else "-" + s["i"]
        if g["m_szStepCtrlType"] != want or (val is not None and g["m_szCtrlValue"] != val):
            out.append("step %d: %s %s, expected %s %s" % (i + 1, g["m_szStepCtrlType"], g["m_szCtrlValue"], want, val))
        lims = [q for q in a if re.match(r"^Schedule_Step%d_Limit\d+$" % i, q)]
        n = int(g["m_uLimitNum"])
        if len(lims) != n:
            out.append("step %d has %d limits, says %d" % (i + 1, len(lims), n))
        if "k" in s:
            exp = []
            if s["k"] == "rest":
                exp.append(("PV_CHAN_Step_Time", secs(s["t"])))
            else:
                exp.append(("PV_CHAN_CV_Stage_Current", 0.02) if s["k"] == "cccv" else ("PV_CHAN_Voltage", float(s["v"])))
                if s["t"]:
                    exp.append(("PV_CHAN_Step_Time", secs(s["t"])))
            exp += [("DV_Time", 30.0), ("DV_Voltage", 0.01)][:s.get("rep", 1)]
            got = [(a[q].get("Equation0_szLeft"), float(a[q].get("Equation0_szRight") or "nan")) for q in lims]
            if got != exp:
                out.append("step %d: limits %s, expected %s" % (i + 1, got, exp))
        if s["type"].startswith("Loop"):
            if len(lims) != 2 or a[lims[0]]["Equation0_szRight"] != str(s["n"]) or a[lims[1]]["Equation0_szRight"] != str(s["n"]):
                out.append("loop at step %d: %s" % (i + 1, [a[q].get("Equation0_szRight") for q in lims]))
    t = ini(_r(ST))
    if [s for s in a if s not in st and not s.startswith("Schedule_Step")] != \
            [s for s in t if not s.startswith("Schedule_Step") or False] and \
            sorted(s for s in a if not s.startswith("Schedule_Step")) != sorted(s for s in t if not s.startswith("Schedule_Step")):
        out.append("sections of the shell schedule lost")
    return out


def _m_to_biologic(p, fs):
    ps = partitions(p["steps"])
    got = parse_mps(fs[0].decode("latin-1"))
    want_nums = []
    for n, loops, _, _ in ps:
        want_nums += [n, n + 1] if loops else [n]
    out = []
    if sorted(got) != want_nums:
        return ["techniques %s, expected %s" % (sorted(got), want_nums)]
    if ("linked techniques : %d\r\n" % len(want_nums)) not in fs[0].decode("latin-1"):
        out.append("number of linked techniques")
    for n, loops, cnt, steps in ps:
        ty, rows = got[n]
        seqs = []
        for num, s in steps:
            if s["type"] == "Rest":
                seqs.append(("Rest", None))
            elif s["type"].startswith("Loop"):
                seqs.append(("Loop", None))
            elif "k" in s:
                seqs.append(("CC", float(s["i"])))
                if s["k"] == "cccv":
                    seqs.append(("CV", float(s["v"])))
        if rows["ctrl_type"] != [k for k, _ in seqs]:
            out.append("technique %d: %s, expected %s" % (n, rows["ctrl_type"], [k for k, _ in seqs]))
            continue
        if rows["Ns"] != [str(i) for i in range(len(seqs))]:
            out.append("technique %d: Ns %s" % (n, rows["Ns"]))
        for i, (k, v) in enumerate(seqs):
            if v is not None and abs(float(rows["ctrl1_val"][i]) * UNIT[rows["ctrl1_val_unit"][i]] - v) > 1e-9:
                out.append("technique %d sequence %d: value %s %s, expected %s" % (
                    n, i, rows["ctrl1_val"][i], rows["ctrl1_val_unit"][i], v))
        if len({len(v) for v in rows.values()}) != 1:
            out.append("technique %d: ragged table" % n)
        if loops and got[n + 1][1].get("nt times", [None])[0] != str(cnt):
            out.append("loop technique %d: %s" % (n + 1, got[n + 1]))
    # the rules, by simulating the procedure
    for (n, loops, cnt, steps), b in zip(ps, fs[1:]):
        r = json.loads(b.decode())
        if r["tech_num"] != n or r["tech_does_loop"] != loops:
            out.append("rules of technique %d describe %s" % (n, r["tech_num"]))
    out += _rules(ps, [json.loads(b.decode()) for b in fs[1:]])
    return out


def _rules(ps, rules):
    """walk the procedure, counting cycles as Maccor would, and the rules' count over the sequence numbers visited"""
    true, cnt = 1, 1
    for (n, loops, k, steps), r in zip(ps, rules):
        trans = {(d["source"], d["target"]): d["adv_cycle_count"] for d in r["adv_cycle_seq_transitions"]}
        seqno, q = {}, 0
        for num, s in steps:
            if s["type"].startswith("Loop"):
                q += 1
            elif "k" in s:
                seqno[num] = [q] + ([q + 1] if s["k"] == "cccv" else [])
                q += len(seqno[num])
        cnt += r["adv_cycle_on_start"]
        prev = None
        for it in range(max(k, 1) if loops else 1):
            i, counts = 0, {}
            first_of_tech = True
            while i < len(steps):
                num, s = steps[i]
                if s["type"] == "AdvCycle":
                    true += 1
                elif s["type"].startswith("Loop"):
                    counts[num] = counts.get(num, 0) + 1
                    if counts[num] < s["n"]:
                        i = next(j for j in range(len(steps)) if steps[j][0] == s["do"]) + 1
                        continue
                    counts[num] = 0
                elif "k" in s:
                    for sq in seqno[num]:
                        if prev is not None:
                            if first_of_tech and it > 0:
                                cnt += r["adv_cycle_on_tech_loop"]
                            elif sq != prev:
                                cnt += trans.get((prev, sq), 0)
                        first_of_tech = False
                        prev = sq
                    if cnt != true:
                        return ["rules of technique %d give cycle %d at step %d, the procedure is in cycle %d" % (n, cnt, num, true)]
                i += 1
    return []


def _m_to_maccor(p, fs):
    h, steps = _xml(fs[0])
    want, seqs = [], p["seqs"]
    starts = {s["to"] for s in seqs if s["k"] == "Loop"}
    for i, s in enumerate(seqs):
        if i in starts:
            want.append("Do 1")
        if s["k"] == "Loop":
            want += ["AdvCycle", "Loop 1"]
        elif s["k"] == "Rest":
            want.append("Rest")
        else:
            want.append({"CC": "Current", "CV": "Voltage"}[s["k"]] + " " + s["v"])
    want.append("End")
    got = []
    for s in steps:
        t = s["StepType"]
        got.append("%s %s" % (s["StepMode"], s["StepValue"]) if t in ("Charge", "Dischrge") else t)
    return [] if got == want else ["steps %s, expected %s" % (got, want)]


def _m_cycles(p, fs):
    _, exp = cycle_case(p)
    out = []
    for t, ((rows, col), b) in enumerate(zip(exp, fs)):
        df = pd.read_csv(io.BytesIO(b), sep=";")
        if "cycle_index" not in df.columns or len(df) != len(rows):
            out.append("table %d: %d rows, expected %d" % (t, len(df), len(rows)))
            continue
        if list(df["cycle_index"]) != col or list(df["Ns"]) != [r[1] for r in rows] or list(df["Loop"]) != [r[2] for r in rows] \
                or list(df["time/s"]) != [r[0] for r in rows] or \
                any(abs(x - r[3]) > 1e-12 for x, r in zip(df["Ecell/V"], rows)):
            out.append("table %d: rows or cycle numbers differ" % t)
    return out


def _m_waveform(p, fs):
    v = wave_table(p)
    rows = [l.split("\t") for l in fs[0].decode().split("\n") if l]
    m = max(abs(x) for x in v)
    runs = []
    for x in v:
        if runs and runs[-1][0] == x:
            runs[-1][1] += 1
        else:
            runs.append([x, 1])
    if len(runs) != len(rows):
        return ["%d rows, expected %d" % (len(rows), len(runs))]
    out = []
    scale = p["scale"] if p["mode"] else None
    for (x, n), r in zip(runs, rows):
        if len(r) != 12 or int(r[5]) != n or r[0] != ("D" if x <= 0 else "C") or \
                (scale is not None and abs(float(r[2]) - abs(x) / m * scale) > 2e-5):
            out.append("row %s for %s x %d" % (r, x, n))
    return out[:3]


INC = ["Rec#", "Cyc#", "Test (Sec)", "Loop1", "Loop2", "Loop3", "Loop4"]


def _table(b):
    lines = b.decode().replace("\r\n", "\n").split("\n")
    head = lines[1].split("\t")
    return lines[0], head, [l.split("\t") for l in lines[2:] if l]


def _num(x):
    try:
        return float(x)
    except ValueError:
        return "" if x in ("N/A", "") else x


def _m_splice(p, fs):
    ma, ha, ra = _table(rawgen.maccor(p["a"]))
    mb, hb, rb = _table(rawgen.maccor(p["b"]))
    m, h, r = _table(fs[0])
    if m.strip() != ma.strip() or h != ha:
        return ["header or columns differ"]
    last = dict(zip(ha, ra[-1]))
    for c in INC:
        i = hb.index(c)
        if float(rb[0][i]) < float(last[c]):
            for x in rb:
                x[i] = repr(float(x[i]) + float(last[c]))
    want = ra + rb
    if len(r) != len(want):
        return ["%d rows, expected %d" % (len(r), len(want))]
    for k, (x, y) in enumerate(zip(r, want)):
        for c, s, t in zip(h, x, y):
            s, t = _num(s), _num(t)
            if s != t and not (isinstance(s, float) and isinstance(t, float) and abs(s - t) <= 1e-9 * max(1, abs(t))):
                return ["row %d %s: %r, expected %r" % (k, c, s, t)]
    return []
