"""Translation of nodes to SMT and discharge with z3, then cvc5."""
import os
import subprocess
import tempfile
import time
from fractions import Fraction

import z3

from . import expr as E
from . import inst


CTX = z3.main_ctx()


class Trans:
    def __init__(self):
        self.memo = {}
        self.axioms = []
        self.funcs = {}
        self.vars = {}
        self.roots = 0
        self.bound = set()

    def sort(self, s):
        return {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[s]

    def f(self, name, sorts, out):
        k = (name, tuple(sorts), out)
        if k not in self.funcs:
            self.funcs[k] = z3.Function(
                name, *[self.sort(s) for s in sorts], self.sort(out))
        return self.funcs[k]

    def ax(self, a):
        self.axioms.append(a)

    def go(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._go(n)
            self.memo[n] = r
        return r

    def num(self, n, want):
        t = self.go(n)
        if want == "R" and n.sort == "I":
            return z3.ToReal(t)
        return t

    def pair(self, a, b):
        s = "I" if a.sort == "I" and b.sort == "I" else "R"
        return self.num(a, s), self.num(b, s)

    def has_bound(self, n):
        return any(v.args[0].startswith("?b") for v in E.free_vars(n))

    def _go(self, n):
        o = n.op
        if o == "c":
            v = n.args[0]
            if n.sort == "I":
                return z3.IntVal(int(v))
            return z3.RealVal("%d/%d" % (v.numerator, v.denominator))
        if o == "b":
            return z3.BoolVal(n.args[0])
        if o == "v":
            nm = n.args[0]
            v = z3.Const(nm, self.sort(n.sort))
            self.vars[n] = v
            if nm == "π":
                self.ax(v > z3.RealVal("314159/100000"))
                self.ax(v < z3.RealVal("31416/10000"))
            return v
        if o in ("+", "*"):
            a, b = self.pair(*n.args)
            v = (z3.Ast * 2)(a.ast, b.ast)
            return z3.ArithRef((z3.Z3_mk_add if o == "+" else z3.Z3_mk_mul)(
                CTX.ref(), 2, v), CTX)
        if o == "/":
            return self.num(n.args[0], "R") / self.num(n.args[1], "R")
        if o == "^":
            a = self.go(n.args[0])
            r = a
            for _ in range(n.args[1] - 1):
                r = r * a
            return r
        if o == "idiv":
            # Python floor division; z3 div floors for positive divisors
            a, b = self.go(n.args[0]), self.go(n.args[1])
            q = a / b
            return z3.If(b > 0, q, (0 - a) / (0 - b))
        if o == "imod":
            a, b = self.go(n.args[0]), self.go(n.args[1])
            return a - b * z3.If(b > 0, a / b, (0 - a) / (0 - b))
        if o == "toreal":
            return z3.ToReal(self.go(n.args[0]))
        if o == "ite":
            a, b = self.pair(n.args[1], n.args[2])
            return z3.If(self.go(n.args[0]), a, b)
        if o in ("<", "<=", "=="):
            a, b = self.pair(*n.args)
            return z3.BoolRef({"<": z3.Z3_mk_lt, "<=": z3.Z3_mk_le,
                               "==": z3.Z3_mk_eq}[o](
                                   CTX.ref(), a.ast, b.ast), CTX)
        if o == "iff":
            return z3.BoolRef(z3.Z3_mk_iff(
                CTX.ref(), self.go(n.args[0]).ast, self.go(n.args[1]).ast),
                CTX)
        if o == "not":
            return z3.BoolRef(z3.Z3_mk_not(
                CTX.ref(), self.go(n.args[0]).ast), CTX)
        if o == "and":
            parts = [self.go(a) for a in n.args]
            v = (z3.Ast * len(parts))(*[a.ast for a in parts])
            return z3.BoolRef(z3.Z3_mk_and(CTX.ref(), len(parts), v), CTX)
        if o in ("forall", "exists"):
            v = self.go(n.args[0])
            mark = len(self.axioms)
            b = self.go(n.args[1])
            if len(self.axioms) != mark:
                # definitional axioms mentioning the bound variable
                new = self.axioms[mark:]
                del self.axioms[mark:]
                dep = [a for a in new if occurs(a, v)]
                self.axioms.extend(a for a in new if not occurs(a, v))
                if dep:
                    self.axioms.append(z3.ForAll([v], z3.And(*dep)))
            if o == "forall":
                return z3.ForAll([v], b)
            return z3.Exists([v], b)
        if o == "app":
            args = n.args[1:]
            g = self.f(n.args[0], [a.sort for a in args], n.sort)
            return g(*[self.go(a) for a in args])
        if o == "f":
            name = n.args[0]
            args = n.args[1:]
            ts = [self.num(a, "R") for a in args]
            if name == "sqrt":
                g = self.f("sqrt!", ["R"], "R")
                r = g(ts[0])
                self.ax(z3.Implies(ts[0] >= 0, z3.And(r >= 0, r * r == ts[0])))
                return r
            if name == "floor":
                return z3.ToReal(z3.ToInt(ts[0]))
            g = self.f(name + "!", ["R"] * len(args), "R")
            r = g(*ts)
            if name in ("sin", "cos"):
                s, c = self.f("sin!", ["R"], "R"), self.f("cos!", ["R"], "R")
                self.ax(s(ts[0]) * s(ts[0]) + c(ts[0]) * c(ts[0]) == 1)
                self.ax(z3.And(r <= 1, r >= -1))
            if name == "exp":
                self.ax(r > 0)
            if name == "pow":
                self.ax(z3.Implies(ts[0] > 0, r > 0))
            return r
        raise E.Unsupported("smt: " + o)


class GroundTrans(Trans):
    """Remembers translations of quantifier-free nodes between queries."""
    MEMO, NEEDS, AX, FUNCS = {}, {}, [], {}

    def __init__(self):
        super().__init__()
        self.funcs = self.FUNCS
        self.stack = [set()]
        self.told = set()

    def go(self, n):
        r = self.MEMO.get(n)
        if r is None:
            self.stack.append(set())
            try:
                r = self._go(n)
            finally:
                need = self.stack.pop()
            self.MEMO[n] = r
            if need:
                self.NEEDS[n] = need
        need = self.NEEDS.get(n)
        if need:
            self.stack[-1] |= need
        return r

    def ax(self, a):
        self.AX.append(a)
        self.stack[-1].add(len(self.AX) - 1)

    def new_axioms(self):
        new = self.stack[0] - self.told
        self.told |= new
        return [self.AX[i] for i in sorted(new)]


def occurs(t, v):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.eq(x, v):
            return True
        todo.extend(x.children())
        if z3.is_quantifier(x):
            todo.append(x.body())
    return False


STATS = {"z3": [0, 0.0], "cvc5": [0, 0.0]}


def check(assertions, timeout=20.0, want_model=False, use_cvc5=True,
          quick=False):
    """-> ('unsat'|'sat'|'unknown', model_env or None, backend)"""
    memo = {}
    quantified = any(inst.has_quant(a, memo) for a in assertions)
    if quantified:
        t0 = time.time()
        u = inst.unsat(assertions, min(timeout, 8.0))
        STATS["z3"][0] += 1
        STATS["z3"][1] += time.time() - t0
        if u:
            return "unsat", None, "z3"
        if quick:
            return "unknown", None, "z3"
    tr = Trans()
    fs = [tr.go(a) for a in assertions]
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    for a in fs + tr.axioms:
        s.add(a)
    r = s.check()
    STATS["z3"][0] += 1
    STATS["z3"][1] += time.time() - t0
    if r == z3.unsat:
        return "unsat", None, "z3"
    if r == z3.sat:
        return "sat", model_env(s.model(), tr) if want_model else None, "z3"
    # second strategy: nlsat-style tactic, quantifier free only
    if use_cvc5:
        t0 = time.time()
        r = cvc5_run(s, timeout)
        STATS["cvc5"][0] += 1
        STATS["cvc5"][1] += time.time() - t0
        if r == "unsat":
            return "unsat", None, "cvc5"
        if r == "sat":
            return "sat", None, "cvc5"
    return "unknown", None, "z3"


def cvc5_run(s, timeout):
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, p = tempfile.mkstemp(suffix=".smt2")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        try:
            out = subprocess.run(
                ["cvc5", "--tlimit=%d" % int(timeout * 1000), p],
                capture_output=True, text=True, timeout=timeout + 5).stdout
        except (subprocess.TimeoutExpired, OSError):
            return "unknown"
    finally:
        os.unlink(p)
    w = out.split()
    return w[0] if w and w[0] in ("sat", "unsat") else "unknown"


def model_env(m, tr):
    env = {}
    for n, v in tr.vars.items():
        if n.args[0].startswith("?b"):
            continue
        val = m.eval(v, model_completion=True)
        env[n.args[0]] = pyval(val)
    fe = {}
    for (name, sorts, out), g in tr.funcs.items():
        fe[name] = (m, g)
    return env, fe


def pyval(val):
    if z3.is_true(val):
        return True
    if z3.is_false(val):
        return False
    if z3.is_int_value(val):
        return val.as_long()
    if z3.is_rational_value(val):
        return Fraction(val.numerator_as_long(), val.denominator_as_long())
    if z3.is_algebraic_value(val):
        a = val.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
