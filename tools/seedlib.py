"""helpers for demonstrations: small raw files, in-process command line, a scratch directory that is removed"""
import contextlib
import json
import os
import shutil
import sys
import tempfile

os.environ.setdefault("BEEP_ENV", "dev")
os.environ.setdefault("TQDM_OFF", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
REPO = os.getcwd()
sys.path.insert(0, REPO)


def arbin(n_cycles=4, n=12, vlo=2.0, vhi=3.6, cap=1.05, fade=0.01, start=0):
    cols = ("Data_Point,Test_Time,DateTime,Step_Time,Step_Index,Cycle_Index,Current,Voltage,Charge_Capacity,"
            "Discharge_Capacity,Charge_Energy,Discharge_Energy,dV/dt,Internal_Resistance,Temperature")
    out, k, t = ["," + cols], 0, 0.0
    for c in range(n_cycles):
        q = cap * (1 - fade * c)
        for s, sgn in ((1, 1), (2, -1)):
            for i in range(n):
                f = i / (n - 1)
                v = vlo + (vhi - vlo) * f if sgn > 0 else vhi - (vhi - vlo) * f
                cq, dq = (q * f, 0.0) if sgn > 0 else (q, q * 0.99 * f)
                out.append("%d,%d,%.1f,%.1f,%.1f,%d,%d,%.3f,%.6f,%.6f,%.6f,%.6f,%.6f,0.001,0.0165,30.5" % (
                    k, k, t, 1494377253 + t, i * 60.0, s, c + start, sgn * 2.0, v, cq, dq, cq * 3.2, dq * 3.1))
                k += 1
                t += 60.0
    return "\n".join(out) + "\n"


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix="demo-"))
    old = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def write(name, text):
    os.makedirs(os.path.dirname(os.path.abspath(name)), exist_ok=True)
    with open(name, "w") as f:
        f.write(text)
    return os.path.abspath(name)


def cli(*args):
    """(exit code, exception) of one beep command"""
    from click.testing import CliRunner
    import beep.cmd
    try:
        r = CliRunner().invoke(beep.cmd.cli, list(args))
    except BaseException as e:          # as the interpreter does: a failure exit
        return 1, e
    return r.exit_code, r.exception


def status(name="status.json"):
    with open(name) as f:
        return json.load(f)


def check(ok, msg):
    if not ok:
        print("FAILED: " + msg)
        sys.exit(1)
