"""cov.py DIR: lines of the repository's functions that no run recorded in DIR (VERIF_COV=DIR) reached"""
import ast, os, sys
R = os.environ.get("VERIF_REPO", "/repo") + "/beep/"
hit = {}
for f in os.listdir(sys.argv[1]):
    for l in open(os.path.join(sys.argv[1], f)):
        a, b = l.rstrip("\n").rsplit(":", 1)
        hit.setdefault(a, set()).add(int(b))
for d, _, fs in os.walk(R):
    for f in sorted(fs):
        p = os.path.join(d, f)
        rel = p[len(R):]
        if not f.endswith(".py") or "test" in rel:
            continue
        t = ast.parse(open(p).read())
        want = set()
        for fn in ast.walk(t):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for st in ast.walk(fn):
                    if isinstance(st, ast.stmt) and st is not fn and not isinstance(st, (ast.FunctionDef, ast.ClassDef)) and not (
                            isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        want.add(st.lineno)
        miss = sorted(want - hit.get(rel, set()))
        runs, s = [], None
        for x in sorted(want):
            if x in miss:
                s = [x, x] if s is None else [s[0], x]
            elif s:
                runs.append(s); s = None
        if s:
            runs.append(s)
        print("%-45s %4d/%4d  %s" % (rel, len(want) - len(miss), len(want), " ".join("%d-%d" % tuple(r) if r[0] != r[1] else "%d" % r[0] for r in runs)))
