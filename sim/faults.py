"""Fault plans drawn from a recorded fault-free history."""

WRITE_DO = ["EIO", "ENOSPC", "torn", "torn", "short", "EDQUOT"]
READ_DO = ["EIO", "short", "ESTALE"]
OPEN_R_DO = ["EIO", "ENOENT", "EACCES", "EMFILE"]
OPEN_W_DO = ["EACCES", "ENOSPC", "EMFILE", "EROFS"]


def pick_op(rng, trace, paths=None, kinds=None, pred=None):
    """an operation of the history; rare kinds/paths get equal weight to frequent ones"""
    ops = [t for t in trace if t[0] != "FAULT" and (paths is None or t[1] in paths)
           and (kinds is None or t[0] in kinds) and (pred is None or pred(t))]
    if not ops:
        return None
    groups = {}
    for t in ops:
        groups.setdefault((t[0], t[1]), []).append(t)
    g = groups[rng.choice(sorted(groups))]
    # first / last / random occurrence
    return rng.choice([g[0], g[-1], rng.choice(g), rng.choice(g)])


def io_fault(rng, trace, paths=None, kinds=("open:r", "read", "open:w", "write", "close"), extra=(), pred=None):
    t = pick_op(rng, trace, paths, kinds, pred)
    if t is None:
        return None
    k = t[0]
    do = {"open:r": OPEN_R_DO, "open:w": OPEN_W_DO, "read": READ_DO, "write": WRITE_DO, "close": ["EIO", "ENOSPC"],
          "mkdir": ["EACCES", "ENOSPC"], "rename": ["EACCES", "ENOSPC", "EIO"], "unlink": ["EACCES"], "rmdir": ["EACCES"],
          "chdir": ["EACCES"], "fsync": ["EIO"], "link": ["EACCES"], "meta": ["EACCES"], "list": ["EIO"]}.get(k, ["EIO"])
    do = rng.choice(list(do) + list(extra))
    f = {"kind": k, "path": t[1], "nth": t[2], "do": do}
    if do in ("torn", "crash-torn"):
        f["arg"] = rng.choice([0.0, 0.3, 0.7, 0.99])
    if do in ("torn", "short", "crash-torn") and k not in ("write",) and not (do == "short" and k == "read"):
        f["do"] = "EIO"
    return f


def crash_fault(rng, trace, paths=None):
    t = pick_op(rng, trace, paths, ("open:r", "read", "open:w", "write", "close", "mkdir", "rename", "unlink", "out"))
    if t is None:
        return None
    f = {"kind": t[0], "path": t[1], "nth": t[2], "do": "crash"}
    if t[0] == "write" and rng.random() < 0.5:
        f["do"], f["arg"] = "crash-torn", rng.choice([0.0, 0.3, 0.7, 0.99])
    return f


def interrupt_fault(rng, trace, paths=None, kinds=None):
    t = pick_op(rng, trace, paths, kinds or ("open:r", "read", "open:w", "write", "close", "out"))
    if t is None:
        return None
    return {"kind": t[0], "path": t[1], "nth": t[2], "do": "interrupt"}


def jump_fault(rng, trace):
    t = pick_op(rng, trace)
    if t is None:
        return None
    return {"kind": t[0], "path": t[1], "nth": t[2], "do": "jump",
            "arg": rng.choice([-7200.5, -1, 3600, 86400 * 40, -86400 * 400])}


def line_step(rng, r, lo=0, hi=None):
    """a program step of the history r in (lo, hi]: half of the time every line of the program counts alike, however often it ran"""
    hi = r["nlines"] if hi is None else hi
    if hi <= lo:
        return None
    pts = [p for p in r.get("linepts", ()) if p[0] <= hi and p[1] > lo]
    if pts and rng.random() < 0.55:
        a, b = rng.choice(pts)
        return rng.choice([n for n in (a, b) if lo < n <= hi] or [rng.randint(lo + 1, hi)])
    return rng.randint(lo + 1, hi)


def line_fault(rng, r, do, lo=0, hi=None):
    n = line_step(rng, r, lo, hi)
    return None if n is None else {"kind": "line", "path": "", "nth": n, "do": do}
