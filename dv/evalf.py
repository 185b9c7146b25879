"""Numeric evaluation of nodes at a point (mpmath)."""
import mpmath as mp

from . import expr as E

mp.mp.dps = 40


def ev(n, env, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is None:
        r = _ev(n, env, memo)
        memo[n] = r
    return r


def _ev(n, env, memo):
    o = n.op
    if o == "c":
        return mp.mpf(n.args[0].numerator) / n.args[0].denominator
    if o == "b":
        return n.args[0]
    if o == "inf":
        return mp.inf * n.args[0]
    if o == "nan":
        return mp.nan
    if o == "v":
        if n.args[0] == "π":
            return mp.pi
        return env(n)
    if o == "app":
        return env(n, *[ev(a, env, memo) for a in n.args[1:]])
    a = [ev(x, env, memo) if isinstance(x, E.Node) else x for x in n.args]
    if o == "+":
        return a[0] + a[1]
    if o == "*":
        return a[0] * a[1]
    if o == "/":
        if a[1] == 0:
            raise ZeroDivisionError
        return mp.mpf(a[0]) / a[1]
    if o == "^":
        return a[0] ** a[1]
    if o == "toreal":
        return a[0]
    if o == "idiv":
        return mp.floor(mp.mpf(a[0]) / a[1])
    if o == "imod":
        return a[0] - a[1] * mp.floor(mp.mpf(a[0]) / a[1])
    if o == "f":
        f = a[0]
        if f == "pow":
            if a[1] < 0:
                raise ValueError
            return mp.power(a[1], a[2])
        if f == "sqrt":
            if a[1] < 0:
                raise ValueError
            return mp.sqrt(a[1])
        g = {"log10": mp.log10, "arctan": mp.atan, "arcsin": mp.asin,
             "arccos": mp.acos, "arccosh": mp.acosh}.get(f)
        if g is None:
            g = getattr(mp, f)
        r = g(a[1])
        if isinstance(r, mp.mpc):
            raise ValueError
        return r
    if o == "<":
        return bool(a[0] < a[1])
    if o == "<=":
        return bool(a[0] <= a[1])
    if o in ("==", "iff"):
        return bool(a[0] == a[1])
    if o == "not":
        return not a[0]
    if o == "and":
        return all(a)
    if o == "ite":
        return a[1] if a[0] else a[2]
    raise E.Unsupported("evaluate " + o)
