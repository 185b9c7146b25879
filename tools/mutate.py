"""Development aid: AST mutants of given functions, and which of them a check
notices.   mutate.py PROP module.function [...] [-n MAX] [--only CONTRACT]
Works on scratch copies under /tmp (DV_REPO)."""
import argparse
import ast
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

SRC = os.path.join(os.environ.get("DV_REPO", "/repo"), "src/disc_solver")


def mutants(fn, names):
    """yield (description, mutated function node)"""
    nodes = list(ast.walk(fn))

    def variant(i, edit, desc):
        f = copy.deepcopy(fn)
        n = list(ast.walk(f))[i]
        edit(n)
        return ("%s:%d %s" % (fn.name, getattr(nodes[i], "lineno", 0), desc),
                f)

    for i, n in enumerate(nodes):
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: [ast.Sub], ast.Sub: [ast.Add],
                  ast.Mult: [ast.Div], ast.Div: [ast.Mult],
                  ast.Pow: [ast.Mult]}.get(type(n.op), [])
            for o in sw:
                yield variant(i, lambda x, o=o: setattr(x, "op", o()),
                              "%s -> %s in %s" % (
                                  type(n.op).__name__, o.__name__,
                                  ast.unparse(n)[:70]))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.USub, ast.Not)):
                def e(x):
                    x.op = ast.UAdd() if isinstance(x.op, ast.USub) else None
                    if x.op is None:
                        x.op = ast.Not()
                        x.operand = ast.UnaryOp(ast.Not(), x.operand)
                yield variant(i, e, "drop %s in %s" % (
                    type(n.op).__name__, ast.unparse(n)[:60]))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt],
                  ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
                  ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                  ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
                  ast.In: [ast.NotIn], ast.NotIn: [ast.In]
                  }.get(type(n.ops[0]), [])
            for o in sw:
                yield variant(i, lambda x, o=o: setattr(x, "ops", [o()]),
                              "%s -> %s in %s" % (
                                  type(n.ops[0]).__name__, o.__name__,
                                  ast.unparse(n)[:60]))
        if isinstance(n, ast.Constant):
            if type(n.value) in (int, float):
                yield variant(i, lambda x: setattr(x, "value", x.value + 1),
                              "const %r + 1" % n.value)
            elif type(n.value) is bool:
                yield variant(i, lambda x: setattr(x, "value", not x.value),
                              "const not %r" % n.value)
            elif type(n.value) is str and len(n.value) < 40:
                o = random.choice([
                    c.value for c in nodes if isinstance(c, ast.Constant) and
                    isinstance(c.value, str) and c.value != n.value and
                    len(c.value) < 40] or [n.value + "x"])
                yield variant(i, lambda x, o=o: setattr(x, "value", o),
                              "text %r -> %r" % (n.value, o))
        if isinstance(n, ast.BoolOp):
            yield variant(i, lambda x: setattr(
                x, "op", ast.And() if isinstance(x.op, ast.Or) else ast.Or()),
                "and/or in %s" % ast.unparse(n)[:60])
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and n.value.id.endswith("ODEIndex"):
            for o in {"B_r": ["B_φ"], "B_φ": ["B_r"], "B_θ": ["B_φ"],
                      "v_r": ["v_φ"], "v_φ": ["v_θ"], "v_θ": ["v_r"],
                      "ρ": ["v_θ"], "η_O": ["η_A"], "η_A": ["η_H"],
                      "η_H": ["η_O"], "B_φ_prime": ["ρ"]}.get(n.attr, []):
                yield variant(i, lambda x, o=o: setattr(x, "attr", o),
                              "index %s -> %s" % (n.attr, o))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                n.id in names:
            others = [m for m in names if m != n.id]
            if others:
                o = random.choice(others)
                yield variant(i, lambda x, o=o: setattr(x, "id", o),
                              "name %s -> %s" % (n.id, o))
        if isinstance(n, (ast.If, ast.While)):
            def e2(x):
                x.test = ast.UnaryOp(ast.Not(), x.test)
            yield variant(i, e2, "negate if %s" % ast.unparse(n.test)[:60])
        if isinstance(n, ast.IfExp):
            def e3(x):
                x.body, x.orelse = x.orelse, x.body
            yield variant(i, e3, "swap ifexp")
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr,
                                      ast.Raise, ast.Return)) and not (
                            isinstance(s, ast.Expr) and isinstance(
                                s.value, ast.Constant)):
                        def e4(x, k=k, field=field):
                            getattr(x, field)[k] = ast.copy_location(
                                ast.Pass(), getattr(x, field)[k])
                        yield variant(i, e4, "delete %s" %
                                      ast.unparse(s)[:70])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("funcs", nargs="+")
    ap.add_argument("-n", type=int, default=60)
    ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=6)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    random.seed(a.seed)
    work = []
    for f in a.funcs:
        mod, name = f.rsplit(".", 1)
        path = mod.replace(".", "/") + ".py"
        if not os.path.exists(os.path.join(SRC, path)):
            path = mod.replace(".", "/") + "/__init__.py"
        tree = ast.parse(open(os.path.join(SRC, path)).read())
        found = False
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.ClassDef)) and \
                    fn.name == name:
                loc = sorted({x.id for x in ast.walk(fn)
                              if isinstance(x, ast.Name) and
                              isinstance(x.ctx, ast.Store)} |
                             ({x.arg for x in ast.walk(fn.args)
                               if isinstance(x, ast.arg)}
                              if isinstance(fn, ast.FunctionDef) else set()))
                for d, m in mutants(fn, loc):
                    work.append((path, fn.lineno, d, m))
                found = True
        if not found:
            sys.exit("no " + f)
    random.shuffle(work)
    work = work[:a.n]
    base = tempfile.mkdtemp(prefix="mut")

    def run(w):
        path, lineno, desc, m = w
        d = tempfile.mkdtemp(dir=base)
        try:
            shutil.copytree(os.path.dirname(SRC), d + "/src", symlinks=True,
                            ignore=shutil.ignore_patterns("__pycache__"))
            p = os.path.join(d, "src/disc_solver", path)
            tree = ast.parse(open(p).read())
            for parent in ast.walk(tree):
                for field in ("body", "orelse"):
                    b = getattr(parent, field, None)
                    if isinstance(b, list):
                        for k, s in enumerate(b):
                            if getattr(s, "name", None) == m.name and \
                                    s.lineno == lineno:
                                b[k] = m
            try:
                txt = ast.unparse(ast.fix_missing_locations(tree))
            except Exception as e:
                return desc, "bad " + repr(e), ""
            open(p, "w").write(txt)
            env = dict(os.environ, DV_REPO=d, DV_EVIDENCE=d)
            cmd = ["/opt/venv/bin/python", "-B", "/verif/run.py", a.prop]
            if a.only:
                cmd += ["--only", a.only]
            try:
                r = subprocess.run(cmd, capture_output=True, text=True,
                                   env=env, timeout=900, cwd="/verif")
            except subprocess.TimeoutExpired:
                return desc, "timeout", ""
            res = "caught" if r.returncode == 1 and "VIOLATION" in r.stdout \
                else ("MISSED" if r.returncode == 0
                      else "exit %d" % r.returncode)
            if res == "caught" and "no-failing-input" in r.stdout and \
                    all("no-failing" in x for x in r.stdout.splitlines()
                        if x.startswith("VIOLATION")):
                res = "caught-noinput"
            return desc, res, r.stdout[-600:] + r.stderr[-300:]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    tally = {}
    with ThreadPoolExecutor(a.j) as ex:
        for desc, res, out in ex.map(run, work):
            tally[res] = tally.get(res, 0) + 1
            if res not in ("caught",):
                print(res, "|", desc, flush=True)
                if res.startswith("exit") or res == "timeout":
                    print(out)
    print(tally)
    shutil.rmtree(base, ignore_errors=True)


main()
