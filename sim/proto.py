"""Protocol tables: generation, references.  Shared by C05, C06, C11, C12, C13, C16, C18."""
import re

from . import util

STATUS = "/sim/w/status.json"
FAMILIES = {
    "EXP": ("name", ["EXP.000"]),
    "V2": ("PreDiag", ["diagnosticV2.000", "diagnosticV1.000"]),
    "V3": ("PredictionDiagnostics", ["diagnosticV3.000", "diagnosticV4.000", "diagnosticV5.000"]),
    "Drive": ("Drive", ["diagnosticV5.000", "drivingV1.000"]),
    "RapidC": ("RapidC", ["diagnosticV4.000"]),
    "Form": ("Form", ["formationV1.mps"]),
    "bad": ("Odd", ["EXP-SOH.000", "step.sdu", "notes.txt", "formationV2.mps", "diagnosticV9.000"]),
}
COLS = {
    # (values) per column; floats always carry a decimal point, so that a column has one type whatever its rows
    "cutoff_voltage": ["4.2", "4.1", "3.95"], "charge_rate": ["2.0", "1.5"], "discharge_rate": ["1.0", "2.5"],
    "charge_constant_current_1": ["2.0", "1.0", "0.5"], "charge_percent_limit_1": ["30.0", "40.0"],
    "charge_constant_current_2": ["1.0", "0.5"], "charge_cutoff_voltage": ["4.1", "4.2", "3.9"],
    "charge_constant_voltage_time": ["60", "30"], "charge_rest_time": ["5", "10"],
    "discharge_constant_current": ["1.0", "0.2"], "discharge_cutoff_voltage": ["2.7", "3.0"], "discharge_rest_time": ["15", "20"],
    "cell_temperature_nominal": ["25"], "cell_type": ["Tesla_Model3_21700"], "capacity_nominal": ["4.84", "1.1"],
    "diagnostic_type": ["HPPC+RPT"], "diagnostic_parameter_set": ["Tesla21700", "BJ-A1003335AA", "PHEVNMC"],
    "diagnostic_start_cycle": ["30", "20"], "diagnostic_interval": ["100", "200"],
    "discharge_profile": ["US06", "LA4"], "profile_charge_limit": ["4.2", "4.1"], "max_profile_power": ["40.0", "30.0"],
    "n_repeats": ["1", "2", "4"], "power_scaling": ["0.6", "0.27", "1.0"],
    "charge_type_1": ["smooth", "step"], "charge_start_soc": ["0.05", "0.1"], "charge_current_param_1": ["1.46", "1.58"],
    "charge_current_param_2": ["2.17", "2.33"], "charge_current_param_3": ["1.02", "0.88"],
    "charge_current_param_4": ["0.46", "0.8"], "charge_soc_param_1": ["0.2", "0.3"], "charge_soc_param_2": ["0.55", "0.6"],
    "charge_voltage_offset_1": ["0.01", "0.02"], "charge_fast_soc_limit": ["0.8", "0.7"],
    "initial_charge_voltage_1": ["3.5", "3.7"], "initial_charge_current_1": ["0.1", "0.2"], "initial_charge_cvhold_1": ["60.0", "30.0"],
    "initial_charge_rest_1": ["30.0"], "initial_charge_voltage_2": ["4.2", "4.1"], "initial_charge_current_2": ["0.2", "0.3"],
    "initial_charge_cvhold_2": ["30.0"], "initial_charge_rest_2": ["30.0", "20.0"], "initial_discharge_voltage_1": ["3.0"],
    "initial_discharge_current_1": ["0.2"], "mid_charge_voltage_1": ["4.1", "4.0"], "mid_charge_current_1": ["0.5"],
    "mid_discharge_voltage_1": ["3.9"], "mid_discharge_current_1": ["0.5"], "mid_cycle_reps": ["2", "3"],
    "final_charge_voltage_1": ["4.2"], "final_charge_current_1": ["1.0"], "final_discharge_voltage_1": ["3.5"],
    "final_discharge_current_1": ["1.0"], "final_discharge_cvhold_1": ["30.0"], "initial_temperature_1": ["30.0"],
}


def gen_row(rng, seq, fams=None):
    fam = rng.choice(fams or ["EXP", "V2", "V3", "Drive", "RapidC", "Form", "bad", "bad", "EXP"])
    proj, tmpl = FAMILIES[fam]
    r = {"family": fam, "project_name": proj, "seq_num": seq, "template": rng.choice(tmpl)}
    for c, vs in COLS.items():
        r[c] = rng.choice(vs)
    if fam == "Drive":
        r["charge_constant_current_2"] = r["charge_constant_current_1"]     # the driving procedure has one charge current
    return r


def wave_key(r):
    """rows whose waveform file has the same name"""
    if r["family"] != "Drive":
        return None
    return (r["discharge_profile"], r["n_repeats"], int(float(r["max_profile_power"]) * float(r["power_scaling"])))


def gen_table(rng, n=None, fams=None, first=0):
    rows, seen = [], {}
    for j in range(n or rng.randint(1, 5)):
        for _ in range(20):
            r = gen_row(rng, first + j, fams)
            if rows and rng.random() < 0.2:
                r = dict(rng.choice(rows), seq_num=first + j)     # the same parameters again
            k = wave_key(r)
            v = (r["profile_charge_limit"], r["discharge_cutoff_voltage"], r["max_profile_power"], r["power_scaling"])
            if k is None or seen.setdefault(k, v) == v:
                break
        else:
            continue
        rows.append(r)
    return rows


def csv_of(rows):
    head = ["project_name", "seq_num", "template"] + list(COLS)
    out = [",".join(head)]
    for r in rows:
        out.append(",".join(str(r[c]) for c in head))
    return ("\n".join(out) + "\n").encode()


def out_of(r, d):
    """main output of a row, or None when it is not supported"""
    p = "%s_%06d" % (r["project_name"], r["seq_num"])
    if r["family"] == "bad":
        return None
    if r["family"] == "Form":
        return "%s/settings/%s.mps" % (d, p)
    return "%s/procedures/%s.000" % (d, p)


def filler(r):
    return dict(r, family="bad", project_name="Odd", template="filler.sdu")


def lib_generate(csvs):
    """[(csv, directory)] one after the other in this process"""
    from beep.protocol.generate_protocol import generate_protocol_files_from_csv
    out = []
    for c, d in csvs:
        f, fails, res, msg = generate_protocol_files_from_csv(c, output_directory=d)
        out.append({"files": list(f), "failures": util.jsonish(fails), "result": res, "message": dict(msg)})
    return out


def ref(ctx, row, index, d, csvname="/sim/in/ref_parameters.csv"):
    """files of this row generated on its own at the same position: {path: bytes} without the names list"""
    rows = [filler(row)] * index + [row]
    r = ctx.solo({csvname: csv_of(rows)}, lib_generate, ([(csvname, d)],), keep="all")
    if r["outcome"] != "return":
        return None
    return {p: b for p, b in r["fs"].items() if b is not None and p.startswith(d + "/") and "/names/" not in p}


def counts(msg):
    return [int(x) for x in re.findall(r"\d+", msg or "")]
