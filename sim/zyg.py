"""Interpreters with another string-hash seed, from which simulated processes are forked."""
import importlib
import os
import pickle
import struct
import subprocess
import sys

from . import core, proc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def _put(f, x):
    d = pickle.dumps(x, protocol=4)
    f.write(struct.pack("<Q", len(d)) + d)
    f.flush()


def _get(f):
    h = f.read(8)
    if len(h) < 8:
        return None
    return pickle.loads(f.read(struct.unpack("<Q", h)[0]))


class Zygote:
    def __init__(self, hashseed):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        self.p = subprocess.Popen([sys.executable, "-m", "sim", "zygote"], cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def run(self, root, fn, args, plan, knobs, lines=None, seed=0):
        _put(self.p.stdin, (root, fn.__module__, fn.__name__, args, list(plan), knobs, lines, seed))
        r = _get(self.p.stdout)
        if r is None:
            raise proc.HarnessError("zygote ended")
        return proc.check_harness(r)


def serve():
    from . import runner
    inp, out = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    os.dup2(2, 1)
    runner.prepare()
    while True:
        q = _get(inp)
        if q is None:
            return 0
        root, mod, fn, args, plan, knobs, lines, seed = q
        f = getattr(importlib.import_module(mod), fn)
        _put(out, proc.Proc(root, f, args, plan, knobs, None, lines, seed).wait())
