"""Small synthetic cycler files, as bytes, from a spec {"kind", "seed", "cycles", "rows", ...}.

Pure functions of the spec.  Numbers come from a private Random(seed).
"""
import datetime
import io
import json
import random


def _curve(spec):
    """yields (cycle, step, i, n, sgn, cap, frac, t, step_t)"""
    r = random.Random("raw%s" % spec.get("seed", 0))
    ncyc = spec.get("cycles", 3)
    n = spec.get("rows", 12)
    fade = spec.get("fade", 0.01)
    t = 0.0
    for c in range(ncyc):
        cap = spec.get("cap", 1.05) * (1 - fade * c) + 0.002 * r.random()
        for si, sgn in enumerate((1, -1)):
            st = 0.0
            for i in range(n):
                f = i / (n - 1)
                yield c, si + 1, i, n, sgn, cap, f, t, st, r
                t += spec.get("dt", 60.0)
                st += spec.get("dt", 60.0)
        t += spec.get("gap", 0.0)


def _f(x):
    return repr(round(float(x), 9))


PROJECTS = ["Iris", "xIris", "Talos", "PriorLAMVal", "LAMVal", "ClosedLoopOED", "Nowhere"]


def project(spec):
    """the project some files belong to by their name, which decides the validation schema used"""
    s = spec.get("seed", 0)
    if "name" in spec or s % 6 != 3 or spec["kind"] not in ("arbin", "maccor"):
        return None
    if spec["kind"] == "maccor":
        return ["Talos", "PredictionDiagnostics", "xTESLADIAG", "Nowhere"][s // 6 % 4]
    return PROJECTS[s // 6 % len(PROJECTS)]


def arbin(spec):
    cols = ("Data_Point,Test_Time,DateTime,Step_Time,Step_Index,Cycle_Index,Current,Voltage,Charge_Capacity,"
            "Discharge_Capacity,Charge_Energy,Discharge_Energy,dV/dt,Internal_Resistance,Temperature").split(",")
    drop = set(spec.get("drop", ()))
    keep = [i for i, c in enumerate(cols) if c not in drop]
    out = ["," + ",".join(cols[i] for i in keep)]
    t0 = spec.get("t0", 1494377253.0)
    big = 2.5 if project(spec) in PROJECTS[:5] and spec.get("seed", 0) % 12 == 3 else 1.0     # valid for this project only
    spike = spec.get("spike")
    for k, (c, s, i, n, sgn, cap, f, t, st, r) in enumerate(_curve(spec)):
        cap *= big
        if sgn > 0:
            v, cq, dq = 2.0 + 1.6 * f, cap * f, 0.0
        else:
            v, cq, dq = 3.6 - 1.6 * f, cap, cap * 0.99 * f
        row = [str(k), _f(t), _f(t0 + t), _f(st), str(s), str(c + spec.get("c0", 0)), _f(sgn * 2.0), _f(v), _f(cq), _f(dq),
               _f(cq * 3.2), _f(dq * 3.1), "0.001", _f(0.016 + 0.0001 * c), _f(30 + 2 * r.random())]
        if spec.get("nan_every") and k % spec["nan_every"] == 3:
            row[14] = ""
        if spike and c == 1 and k % 3 == 0:
            row[10] = "5000000.0"         # a glitch of the cycler, beyond every plausible energy
        out.append("%d," % k + ",".join(row[i] for i in keep))
    return ("\n".join(out) + "\n").encode()


DIAG_TYPES = ["reset", "hppc", "rpt_0.2C", "rpt_1C", "rpt_2C"]


def diag_cycles(spec):
    """cycle index -> type ("regular" or a diagnostic) of a file with diagnostics in the middle of its life"""
    out, c = {0: "regular"}, 1
    for k, n in enumerate(spec.get("blocks", [3, 3, 2])):
        for t in DIAG_TYPES:
            out[c] = t
            c += 1
        for _ in range(n):
            out[c] = "regular"
            c += 1
    return out


def diag(spec):
    """an Arbin file of a cell with reset, HPPC and RPT cycles"""
    r = random.Random("diag%s" % spec.get("seed", 0))
    cols = ("Data_Point,Test_Time,DateTime,Step_Time,Step_Index,Cycle_Index,Current,Voltage,Charge_Capacity,"
            "Discharge_Capacity,Charge_Energy,Discharge_Energy,dV/dt,Internal_Resistance,Temperature")
    out, t, k, n = ["," + cols], 0.0, 0, spec.get("rows", 8)
    t0 = spec.get("t0", 1494377253.0)

    def ocv(x):
        return 2.85 + 1.2 * x - 0.12 * x * (1 - x) + 0.03 * x ** 3
    for c, typ in diag_cycles(spec).items():
        fade = 1 - spec.get("fade", 0.012) * c
        q = 4.84 * fade * (1 - 0.002 * r.random())
        res = 0.02 * (1 + 0.03 * c)
        soc = [0.0]
        cum = [0.0, 0.0, 0.0, 0.0]

        def step(idx, amp, dur, rows):
            nonlocal t, k
            s0, c0 = soc[0], list(cum)
            for i in range(rows):
                f = i / (rows - 1)
                x = s0 + amp * dur * f / 3600.0 / q
                relax = 0.004 * (1 - f) ** 2 if amp == 0 else 0.0
                v = ocv(x) + amp * res * (1 + 0.2 * f) + relax
                dq = abs(amp) * dur * f / 3600.0
                if amp > 0:
                    cum[0], cum[2] = c0[0] + dq, c0[2] + dq * 3.6
                elif amp < 0:
                    cum[1], cum[3] = c0[1] + dq, c0[3] + dq * 3.5
                row = [str(k), _f(t), _f(t0 + t), _f(dur * f), str(idx), str(c), _f(amp), _f(v), _f(cum[0]), _f(cum[1]),
                       _f(cum[2]), _f(cum[3]), "0.001", _f(res), _f(25 + r.random())]
                if c % 3 == spec.get("gaps"):           # cycles without a temperature reading
                    row[-1] = ""
                out.append("%d," % k + ",".join(row))
                k += 1
                if i < rows - 1:
                    t += dur / (rows - 1)
            t += 1.0
            soc[0] = s0 + amp * dur / 3600.0 / q
        if typ == "hppc":
            step(11, 2.42, 0.999 * q / 2.42 * 3600, 2 * n)
            for _ in range(9):
                step(12, 0.0, 3600.0, n)
                step(13, -4.84, 10.0, n)
                step(14, 0.0, 40.0, n)
                step(15, 3.63, 10.0, n)
                step(16, -2.42, 0.1 * q / 2.42 * 3600, 2 * n)
            step(17, -0.968, 0.07 * q / 0.968 * 3600, n)
        else:
            rate = {"reset": 0.05, "rpt_0.2C": 0.2, "rpt_1C": 1.0, "rpt_2C": 2.0, "regular": 0.5}[typ] * 4.84
            base = {"reset": 21, "rpt_0.2C": 31, "rpt_1C": 41, "rpt_2C": 51, "regular": 1}[typ]
            use = q * {"rpt_1C": 0.97, "rpt_2C": 0.93}.get(typ, 0.999)
            step(base, rate, use / rate * 3600, 3 * n)
            step(base + 1, -rate, use / rate * 3600, 3 * n)
    return ("\n".join(out) + "\n").encode()


def half_cell(which):
    """voltage of one electrode against its state of charge"""
    import math
    out = [",SOC_aligned,Voltage_aligned"]
    for k in range(401):
        x = k / 4.0
        if which == "anode":
            v = 0.08 + 0.12 * math.exp(-x / 18.0) + 1.3 * math.exp(-x / 0.35) + 0.06 / (1 + math.exp((x - 52) / 2.5)) - 0.0003 * x
        else:
            v = 3.5 + 0.0075 * x - 0.65 * math.exp(-x / 0.3) + 0.05 / (1 + math.exp((40 - x) / 4.0)) + 1.5e-5 * max(0.0, x - 75) ** 2
        out.append("%d,%r,%r" % (k, x, round(v, 9)))
    return ("\n".join(out) + "\n").encode()


def arbin_meta(spec):
    if spec["kind"] == "diag":
        return ("item_ID,barcode,protocol,channel_id,start_datetime\n%d,EL%06d,PreDiag_%06d.000,%d,1494377253\n"
                % (spec.get("seed", 0) % 97, spec.get("seed", 0), 233 + spec.get("seed", 0) % 50, spec.get("seed", 0) % 48)).encode()
    return ("item_ID,barcode,protocol,channel_id,start_datetime\n"
            "%d,EL%06d,2017-12-04_tests\\\\20170630-%d.sdu,%d,1494377253\n"
            % (spec.get("seed", 0) % 97, spec.get("seed", 0) % 1000000, spec.get("seed", 0) % 13,
               spec.get("seed", 0) % 48)).encode()


MACCOR_COLS = ("Rec#\tCyc#\tStep\tTest (Sec)\tStep (Sec)\tAmp-hr\tWatt-hr\tAmps\tVolts\tState\tES\tDPt Time\tLoop1\tLoop2\t"
               "Loop3\tLoop4\tACImp/Ohms\tDCIR/Ohms\tWF Chg Cap\tWF Dis Cap\tWF Chg E\tWF Dis E\tRange\t"
               + "\t".join("VAR%d" % i for i in range(1, 16)))


def maccor(spec):
    out = ["Today's Date 10/10/2019  Date of Test:\t10/10/2019\t Filename:\tC:\\Users\\Maccor\\X_%06d.052 "
           "Procedure: %s_%06d.000\tComment/Barcode: %06X" % (spec.get("seed", 0) % 10 ** 6,
                                                             spec.get("project", "PreDiag"), spec.get("seed", 0) % 10 ** 6,
                                                             spec.get("seed", 0) % 0xFFFFFF), MACCOR_COLS]
    t0 = datetime.datetime(*spec.get("date", [2019, 10, 20, 22, 0, 0]))
    wf = spec.get("waveform")
    for k, (c, s, i, n, sgn, cap, f, t, st, r) in enumerate(_curve(spec)):
        q = cap * 3.5 * f
        v = 2.8 + 1.3 * f if sgn > 0 else 4.1 - 1.3 * f
        last = i == n - 1
        dt = t0 + datetime.timedelta(seconds=t)
        stamp = dt.strftime("%m/%d/%Y %H:%M:%S")
        if spec.get("midnight") and dt.hour == 0 and dt.minute == 0 and dt.second == 0:
            stamp = dt.strftime("%m/%d/%Y")
        row = [str(k + 1 + spec.get("rec0", 0)), str(c + spec.get("cyc0", 0)), str(s + (10 if wf and sgn < 0 else 0)),
               "%.4f" % (t + spec.get("sec0", 0.0)), "%.4f" % st, "%.10f" % q,
               "%.10f" % (q * 3.6), "%.10f" % (sgn * 1.5), "%.8f" % v, "C" if sgn > 0 else "D", "133" if last else "1",
               stamp, "0", "0", "0", "0", "0.00000", "%.5f" % (0.02 + 0.001 * c)]
        if wf and sgn < 0:
            row += ["%.6f" % 0.0, "%.6f" % (q * 1.01), "%.6f" % 0.0, "%.6f" % (q * 3.7)]
        else:
            row += ["N/A"] * 4
        row += ["1"] + ["0.00000"] * 15
        out.append("\t".join(row))
        if spec.get("dup") and k % spec["dup"] == 1:
            out.append("\t".join(row))               # a record exported twice
    return ("\r\n".join(out) + "\r\n").encode()


def maccor_eis(spec):
    r = random.Random("eis%s" % spec.get("seed", 0))
    lines = ["Maccor EIS", "Frequency Sweep: 10000 Hz to 0.01 Hz Open Circut", "Method: galvanostatic", "file.EDA",
             "", "", "Start Date: Friday, September 27, 2019 Start Time: %02d:%02d" % (r.randrange(24), r.randrange(60)),
             "", "OCV 3.7 V", "", "Frequency\tZ'\tZ''\tMag\tPhase"]
    for i in range(spec.get("rows", 6)):
        lines.append("%.5f\t%.6f\t%.6f\t%.6f\t%.3f" % (10.0 ** (4 - i), 0.02 + 0.01 * r.random(), -0.01 * r.random(),
                                                     0.03, -10.0 * i))
    return ("\n".join(lines) + "\n").encode()


def neware(spec):
    h1 = ["Cycle ID", "Cap_Chg(mAh)", "Cap_DChg(mAh)"]
    h2 = ["", '"Step ID"', '"Step Name"', '"Step Time(h:min:s.ms)"', '"DCIR(O)"']
    rec = ["", "", "Record ID", "Time(h:min:s.ms)", "Voltage(V)", "Current(mA)", "Temperature(C)", "Capacity(mAh)",
           "Capacity Density(mAh/g)", "Energy(mWh)", "CmpEng(mWh/g)", "Realtime", "Min-T(C)", "Max-T(C)", "Avg-T(C)",
           "Power(mW)", "Capacitance_Chg(mAh)", "Capacitance_DChg(mAh)", "Engy_Chg(mWh)", "Engy_DChg(mWh)",
           "dQ/dV(mAh/V)", "dQm/dV(mAh/V.g)", "x", "pad"]
    out = [",".join(h1) + ",", ",".join(h2) + ",", ",".join(rec) + ","]
    t0 = datetime.datetime(*spec.get("date", [2019, 11, 5, 9, 0, 0]))
    lastc, lasts = None, None
    for k, (c, s, i, n, sgn, cap, f, t, st, r) in enumerate(_curve(spec)):
        if c != lastc:
            out.append("%d,%.4f,%.4f," % (c + 1, cap * 1000, cap * 990))
            lastc, lasts = c, None
        if s != lasts:
            out.append(',"%d","%s","00:20:00.000",%s,' % (s, "CC_Chg" if sgn > 0 else "CC_DChg",
                                                       "%.3f" % (0.02 + c * 0.001) if c % 2 == 0 else "\t-"))
            lasts = s
        q = cap * f * 1000
        hh, mm, ss = int(st // 3600), int(st % 3600 // 60), st % 60
        v = 2.0 + 1.6 * f if sgn > 0 else 3.6 - 1.6 * f
        stamp = (t0 + datetime.timedelta(seconds=t)).strftime("%m/%d/%Y %H:%M:%S")
        cq, dq = (q, 0.0) if sgn > 0 else (cap * 1000, q)
        row = ["", "", str(k + 1), "%02d:%02d:%06.3f" % (hh, mm, ss), "%.4f" % v, "%.2f" % (sgn * 1500.0),
               "%.2f" % (25 + r.random()), "%.4f" % q, "0", "%.4f" % (q * 3.6), "0", "\t" + stamp, "0", "0", "0", "0",
               "%.4f" % cq, "%.4f" % dq, "%.4f" % (cq * 3.6), "%.4f" % (dq * 3.5), "0", "0", "0", ""]
        out.append(",".join(row) + ",")
    return ("\n".join(out) + "\n").encode("latin-1")


def barchive(spec):
    out = ["Date_Time,Test_Time (s),Cycle_Index,Current (A),Voltage (V),Charge_Capacity (Ah),Discharge_Capacity (Ah),"
           "Charge_Energy (Wh),Discharge_Energy (Wh),Environment_Temperature (C),Cell_Temperature (C)"]
    t0 = datetime.datetime(*spec.get("date", [2019, 3, 9, 22, 0, 0]))
    for k, (c, s, i, n, sgn, cap, f, t, st, r) in enumerate(_curve(spec)):
        v = 2.0 + 1.6 * f if sgn > 0 else 3.6 - 1.6 * f
        cq, dq = (cap * f, 0.0) if sgn > 0 else (cap, cap * 0.99 * f)
        cur = sgn * 2.0 if not (sgn > 0 and i == 0) else 0.0
        stamp = (t0 + datetime.timedelta(seconds=t)).strftime("%Y-%m-%d %H:%M:%S.%f")
        out.append(",".join([stamp, _f(t), str(c + 1), _f(cur), _f(v), _f(cq), _f(dq), _f(cq * 3.2), _f(dq * 3.1),
                             "25.0", _f(27 + r.random())]))
    return ("\n".join(out) + "\n").encode()


def biologic(spec):
    cols = ["Ns", "time/s", "Ecell/V", "I/mA", "Q discharge/mA.h", "Q charge/mA.h", "Energy charge/W.h",
            "Energy discharge/W.h", "cycle number"]
    sep = "\t" if spec.get("txt") else ";"
    out = ["BT-Lab ASCII FILE", "Nb header lines : 3", sep.join(cols) + sep + "z"]
    t0 = datetime.datetime(*spec.get("date", [2019, 11, 5, 9, 0, 0]))
    for k, (c, s, i, n, sgn, cap, f, t, st, r) in enumerate(_curve(spec)):
        q = cap * f * 1000
        cq, dq = (q, 0.0) if sgn > 0 else (cap * 1000, q)
        v = 2.0 + 1.6 * f if sgn > 0 else 3.6 - 1.6 * f
        stamp = (t0 + datetime.timedelta(seconds=t)).strftime("%m/%d/%Y %H:%M:%S.%f")
        out.append(sep.join([str(s), stamp, "%.5f" % v, "%.3f" % (sgn * 1500), "%.5f" % dq, "%.5f" % cq,
                             "%.6f" % (cq * 3.6e-3), "%.6f" % (dq * 3.5e-3), "%.6f" % (c + 1), "0"]))
    return ("\n".join(out) + "\n").encode()


def biologic_mpl(spec):
    return ("BT-Lab LOG FILE\r\nRun on channel : A%d (SN 11)\r\nComments : bar%05d\r\n%sNs 0 1 2\r\n\r\n"
            % (spec.get("seed", 0) % 8 + 1, spec.get("seed", 0) % 99999,
               "Cycle Definition : Charge\r\n" if spec.get("mpl_protocol") else "")).encode()


def novonix(spec):
    out = ["[Summary]", "Novonix Ultra High Precision Charger", "Channel: %d" % (spec.get("seed", 0) % 8),
           "Cell: cell%d" % (spec.get("seed", 0) % 100), "Serial Number: SN%d" % (spec.get("seed", 0) % 1000),
           "Description: d", "Protocol: p.pro", "Mass: 1.0", "[End Summary]", "[Data]"]
    out.append("Date and Time,Cycle Number,Step Type,Run Time (h),Step Time (h),Current (A),Potential (V),Capacity (Ah),"
               "Temperature (\u00b0C),dVdt (I/h),dIdt (V/h),Step Number,Step position,Energy (Wh),Circuit Temperature (\u00b0C)")
    t0 = datetime.datetime(*spec.get("date", [2021, 3, 13, 22, 0, 0]))
    for k, (c, s, i, n, sgn, cap, f, t, st, r) in enumerate(_curve(spec)):
        v = 2.8 + 1.3 * f if sgn > 0 else 4.1 - 1.3 * f
        q = cap * f if sgn > 0 else cap * (1 - f)
        stamp = (t0 + datetime.timedelta(seconds=t)).strftime("%Y-%m-%d %I:%M:%S %p")
        out.append(",".join([stamp, str(c), "1" if sgn > 0 else "2", _f(t / 3600), _f(st / 3600), _f(sgn * 0.5), _f(v),
                             _f(q), _f(25 + r.random()), "0.0", "0.0", str(2 * c + s), str(min(i, 2)), _f(q * 3.6), "27.0"]))
    return ("\n".join(out) + "\n").encode("utf-8")


def indigo(spec):
    import h5py
    import numpy as np
    rows = list(_curve(spec))
    bio = io.BytesIO()
    ints = ["cell_id", "cycle_count", "half_cycle_count", "system_time_us"]
    flo = ["cell_coulomb_count_c", "cell_current_a", "cell_energy_j", "cell_temperature_c", "cell_voltage_v", "test_time"]
    oth = ["extra"]
    A, B, C = [], [], []
    t0 = 1551000000
    for k, (c, s, i, n, sgn, cap, f, t, st, r) in enumerate(rows):
        q = cap * f * 3600
        v = 2.0 + 1.6 * f if sgn > 0 else 3.6 - 1.6 * f
        A.append([spec.get("seed", 0) % 50, c, 2 * c + (1 if sgn > 0 else 0), int((t0 + t) * 1e6)])
        B.append([sgn * q, sgn * 1.5, q * 3.6, 25 + r.random(), v, t])
        C.append([0])
    with h5py.File(bio, "w", track_order=False) as h:
        g = h.create_group("time_series_data")
        g.create_dataset("axis0", data=np.array([x.encode() for x in ints + flo + oth]), track_times=False)
        g.create_dataset("axis1", data=np.arange(len(rows)), track_times=False)
        g.create_dataset("block0_values", data=np.array(A, dtype="int64"), track_times=False)
        g.create_dataset("block1_values", data=np.array(B, dtype="float64"), track_times=False)
        g.create_dataset("block2_values", data=np.array(C, dtype="int64"), track_times=False)
    return bio.getvalue()


KINDS = {"arbin": arbin, "maccor": maccor, "neware": neware, "barchive": barchive, "biologic": biologic,
         "novonix": novonix, "indigo": indigo, "diag": diag}


def name_for(spec, i=0):
    k, s = spec["kind"], spec.get("seed", 0)
    if "name" in spec:
        return spec["name"]
    p = project(spec)
    if p == "xTESLADIAG":
        return "xTESLADIAG_%06d_%d.csv" % (s % 10 ** 6, i)
    if p and k == "maccor":
        return "%s_%06d_%06X.%03d" % (p, s % 10 ** 6, i, i + 1)
    if p:
        return "%s_%06d_CH%d_%d.csv" % (p, s % 10 ** 6, s % 48 + 1, i)
    return {"arbin": "cell%d_CH%d.csv" % (i, s % 48 + 1), "maccor": "PreDiag_%06d_%06X.%03d" % (s % 10 ** 6, i, i + 1),
            "neware": "neware_%d_%d.csv" % (i, s % 100), "barchive": "ba%d_timeseries.csv" % i,
            "biologic": "bio%d_CA1.csv" % i if not spec.get("txt") else "bio%d_CA1.txt" % i,
            "novonix": "nov%d_x.csv" % i, "indigo": "ind%d.h5" % i,
            "diag": "PreDiag_%06d_%06X_CH%d.csv" % (233 + s % 50, i, s % 48 + 1)}[k]


def damage(data, how, arg=0.5):
    """at-rest damage of an input (torn copy, lost tail, flipped byte, zeroed page, empty, garbage)"""
    n = len(data)
    k = int(n * arg)
    if how == "none":
        return data
    if how == "truncate":
        return data[:k]
    if how == "empty":
        return b""
    if how == "garbage":
        r = random.Random("g%s" % arg)
        return bytes(r.randrange(256) for _ in range(200))
    if how == "flip":
        k = min(k, n - 1)
        return data[:k] + bytes([data[k] ^ 0x41]) + data[k + 1:]
    if how == "zeros":
        return data[:k] + b"\0" * min(64, n - k) + data[k + 64:]
    if how == "header":
        return data[:data.find(b"\n") + 1]
    if how == "text":
        return b"this is not a data file\nnor is this\n"
    if how == "badvalue":      # an out-of-range / non numeric value in one row
        lines = data.split(b"\n")
        j = max(3, int(len(lines) * arg))
        if j < len(lines) - 1:
            lines[j] = lines[j].replace(b"3.", b"333.").replace(b"2.", b"222.")
        return b"\n".join(lines)
    if how == "word":
        lines = data.split(b"\n")
        j = max(3, int(len(lines) * arg))
        if j < len(lines) - 1:
            lines[j] = lines[j].replace(b"0.", b"oops")
        return b"\n".join(lines)
    raise ValueError(how)


def build(spec, i, d="/sim/in"):
    """{virtual path: bytes} of one raw input (with its companion files) and its main path"""
    nm = name_for(spec, i)
    main = (spec.get("dir") or d) + "/" + nm
    data = KINDS[spec["kind"]](spec)
    if spec.get("damage"):
        data = damage(data, spec["damage"], spec.get("damage_arg", 0.5))
    files = {main: data}
    if spec["kind"] == "diag" or spec["kind"] == "arbin" and spec.get("meta"):
        m = arbin_meta(spec)
        if spec.get("meta_damage"):
            m = damage(m, spec["meta_damage"])
        files[main.replace(".csv", "_Metadata.csv")] = m
    if spec["kind"] == "biologic" and not spec.get("no_mpl"):
        m = biologic_mpl(spec)
        files[main.replace(".csv", ".mpl")] = m
    return main, files
