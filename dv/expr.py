"""Hash-consed expressions and the Python values that carry them.

Arithmetic is mathematical (reals / integers), not IEEE; the evidence lists
this as an assumption.
"""
import math
import numbers
from fractions import Fraction

import numpy as np


class Unsupported(Exception):
    """The engine cannot model an operation: the run is undecided."""


class Node:
    __slots__ = ("op", "args", "sort", "id", "_h")

    def __repr__(self):
        return show(self)


_table = {}


def reset():
    """Nothing is reset: nodes are immutable and interning is global."""


def mk(op, args, sort):
    key = (op, tuple(id(a) if isinstance(a, Node) else a for a in args), sort)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op, n.args, n.sort, n.id = op, tuple(args), sort, len(_table)
        _table[key] = n
    return n


# ---------------------------------------------------------------- constants
PI_MAX = 720


def rationalise(f):
    """A float literal stands for the simplest rational rounding to it."""
    if isinstance(f, Fraction):
        return f
    if isinstance(f, (int, np.integer)):
        return Fraction(int(f))
    f = float(f)
    if math.isnan(f) or math.isinf(f):
        raise Unsupported("non-finite constant")
    ex = Fraction(f)
    for lim in (1000, 1000000):
        s = ex.limit_denominator(lim)
        if s != 0 and float(s) == f or ex == 0:
            return s
    # a short decimal?
    r = Fraction(repr(f))
    if float(r) == f and r.denominator < ex.denominator:
        return r
    return ex


def const(v, sort=None):
    if isinstance(v, (bool, np.bool_)):
        return TRUE if v else FALSE
    if isinstance(v, (int, np.integer)):
        return mk("c", (Fraction(int(v)),), sort or "I")
    if isinstance(v, Fraction):
        return mk("c", (v,), sort or "R")
    f = float(v)
    if math.isinf(f):
        return mk("inf", (1 if f > 0 else -1,), "R")
    if math.isnan(f):
        return NANNODE
    q = f / math.pi
    if q != 0:
        s = Fraction(q).limit_denominator(PI_MAX)
        if s != 0 and abs(s.numerator) <= PI_MAX:
            ok = float(s) * math.pi == f or (
                s.numerator * math.pi) / s.denominator == f or (
                f * s.denominator / s.numerator == math.pi)
            if ok:
                p = PI
                if s == 1:
                    return p
                return mul(mk("c", (s,), "R"), p)
    return mk("c", (rationalise(f),), sort or "R")


TRUE = mk("b", (True,), "B")
FALSE = mk("b", (False,), "B")
PI = mk("v", ("π", ), "R")
NANNODE = mk("nan", (), "R")
ZERO = mk("c", (Fraction(0),), "R")
ONE = mk("c", (Fraction(1),), "R")


def isc(n):
    return n.op == "c"


def cv(n):
    return n.args[0]


def jsort(a, b):
    return "I" if a.sort == "I" and b.sort == "I" else "R"


def nanlike(a, b):
    return a.op == "nan" or b.op == "nan"


def add(a, b):
    if nanlike(a, b):
        return NANNODE
    if a.op == "inf" or b.op == "inf":
        if a.op == "inf" and b.op == "inf" and a is not b:
            return NANNODE
        return a if a.op == "inf" else b
    s = jsort(a, b)
    if isc(a) and isc(b):
        return mk("c", (cv(a) + cv(b),), s)
    if isc(a) and cv(a) == 0 and b.sort == s:
        return b
    if isc(b) and cv(b) == 0 and a.sort == s:
        return a
    return mk("+", (a, b), s)


def mul(a, b):
    if nanlike(a, b):
        return NANNODE
    s = jsort(a, b)
    if isc(a) and isc(b):
        return mk("c", (cv(a) * cv(b),), s)
    for x, y in ((a, b), (b, a)):
        if y.op == "inf" and isc(x):
            if cv(x) == 0:
                return NANNODE
            return y if cv(x) > 0 else mk("inf", (-y.args[0],), "R")
        if y.op == "inf":
            raise Unsupported("infinity arithmetic")
        if isc(x):
            if cv(x) == 0:
                return mk("c", (Fraction(0),), s)
            if cv(x) == 1 and y.sort == s:
                return y
    return mk("*", (a, b), s)


def neg(a):
    return mul(mk("c", (Fraction(-1),), a.sort), a)


def sub(a, b):
    if a is b and a.op not in ("inf", "nan"):
        return mk("c", (Fraction(0),), a.sort)
    return add(a, neg(b))


def div(a, b):
    if nanlike(a, b):
        return NANNODE
    if b.op == "inf":
        return ZERO
    if isc(b):
        if cv(b) == 0:
            if isc(a):
                if cv(a) == 0:
                    return NANNODE
                return mk("inf", (1 if cv(a) > 0 else -1,), "R")
            raise Unsupported("division by constant zero")
        if isc(a):
            return mk("c", (cv(a) / cv(b),), "R")
        return mul(mk("c", (1 / cv(b),), "R"), a)
    if isc(a) and cv(a) == 0:
        return ZERO
    return mk("/", (a, b), "R")


def ipow(a, n):
    if n == 0:
        return mk("c", (Fraction(1),), a.sort)
    if n == 1:
        return a
    if n < 0:
        return div(ONE, ipow(a, -n))
    if isc(a):
        return mk("c", (cv(a) ** n,), a.sort)
    if a.op == "nan":
        return a
    return mk("^", (a, n), a.sort)


def sqrt(a):
    if a.op in ("nan",):
        return a
    if isc(a):
        v = cv(a)
        if v < 0:
            return NANNODE
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return mk("c", (Fraction(n, d),), "R")
    return mk("f", ("sqrt", toreal(a)), "R")


def toreal(a):
    if a.sort == "R":
        return a
    if isc(a):
        return mk("c", (cv(a),), "R")
    return mk("toreal", (a,), "R")


def fn(name, *args):
    if any(a.op == "nan" for a in args):
        return NANNODE
    if name in ("sin", "tan") and isc(args[0]) and cv(args[0]) == 0:
        return ZERO
    if name in ("cos", "exp") and isc(args[0]) and cv(args[0]) == 0:
        return ONE
    return mk("f", (name,) + tuple(toreal(a) for a in args), "R")


def power(a, b):
    if isc(b):
        v = cv(b)
        if v.denominator == 1:
            return ipow(a, int(v))
        if v.denominator == 2:
            return ipow(sqrt(a), int(v.numerator))
    return mk("f", ("pow", toreal(a), toreal(b)), "R")


def lt(a, b):
    if nanlike(a, b):
        return FALSE
    if a.op == "inf" or b.op == "inf":
        if a.op == "inf" and b.op == "inf":
            return TRUE if a.args[0] < b.args[0] else FALSE
        if a.op == "inf":
            return TRUE if a.args[0] < 0 else FALSE
        return TRUE if b.args[0] > 0 else FALSE
    if isc(a) and isc(b):
        return TRUE if cv(a) < cv(b) else FALSE
    if a is b:
        return FALSE
    a, b = over_pi(a, b)
    return mk("<", (a, b), "B")


def le(a, b):
    if nanlike(a, b):
        return FALSE
    if a is b:
        return TRUE
    if a.op == "inf" or b.op == "inf":
        return bnot(lt(b, a))
    if isc(a) and isc(b):
        return TRUE if cv(a) <= cv(b) else FALSE
    a, b = over_pi(a, b)
    return mk("<=", (a, b), "B")


def over_pi(a, b):
    """Both times π where one of them is a quotient by it: solvers then see
    angles without divisions."""
    if a.op == "/" and a.args[1] is PI:
        if b.op == "/" and b.args[1] is PI:
            return a.args[0], b.args[0]
        return a.args[0], mul(b, PI)
    if b.op == "/" and b.args[1] is PI:
        return mul(a, PI), b.args[0]
    return a, b


def eq(a, b):
    if a.sort == "B" or b.sort == "B":
        if a is b:
            return TRUE
        if a.op == "b" and b.op == "b":
            return FALSE
        if a.op == "b":
            return b if a.args[0] else bnot(b)
        if b.op == "b":
            return a if b.args[0] else bnot(a)
        return mk("iff", (a, b), "B")
    if nanlike(a, b):
        return FALSE
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return TRUE if cv(a) == cv(b) else FALSE
    if a.op == "inf" or b.op == "inf":
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("==", (a, b), "B")


def bnot(a):
    if a.op == "b":
        return FALSE if a.args[0] else TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE or x in out:
            continue
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", out, "B")


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def ite(c, a, b):
    if c.op == "b":
        return a if c.args[0] else b
    if a is b:
        return a
    if a.sort == "B":
        return bor(band(c, a), band(bnot(c), b))
    s = jsort(a, b)
    if s == "R":
        a, b = toreal(a), toreal(b)
    return mk("ite", (c, a, b), s)


def nan_cond(n, seen=None):
    """When the value of n is not a number: a square root (logarithm) of a
    negative number somewhere in it."""
    if n.op == "nan":
        return TRUE
    if seen is None:
        seen = {}
    r = seen.get(n)
    if r is not None:
        return r
    if n.op == "ite":
        c = n.args[0]
        a, b = nan_cond(n.args[1], seen), nan_cond(n.args[2], seen)
        r = bor(band(c, a), band(bnot(c), b))
    else:
        parts = [nan_cond(a, seen) for a in n.args if isinstance(a, Node)]
        if n.op == "f" and n.args[0] in ("sqrt", "log", "log10"):
            parts.append(lt(n.args[1], ZERO))
        r = bor(*parts) if parts else FALSE
    seen[n] = r
    return r


def var(name, sort="R"):
    return mk("v", (name,), sort)


def app(name, sort, *args):
    """Uninterpreted function application (arrays: app('a', 'R', i))."""
    return mk("app", (name,) + tuple(args), sort)


def quant(kind, bound, body):
    if body.op == "b":
        return body
    return mk(kind, (bound, body), "B")


_fresh = [0]


def fresh_bound(sort="I"):
    _fresh[0] += 1
    return mk("v", ("?b%d" % _fresh[0],), sort)


def reset_fresh():
    _fresh[0] = 0


def subst(n, m, memo=None):
    """Substitute nodes by nodes."""
    if memo is None:
        memo = {}
    r = memo.get(n)
    if r is not None:
        return r
    if n in m:
        r = m[n]
    elif not any(isinstance(a, Node) for a in n.args):
        r = n
    else:
        r = rebuild(n, [subst(a, m, memo) if isinstance(a, Node) else a
                        for a in n.args])
    memo[n] = r
    return r


def rebuild(n, args):
    o = n.op
    if o == "+":
        return add(*args)
    if o == "*":
        return mul(*args)
    if o == "/":
        return div(*args)
    if o == "^":
        return ipow(*args)
    if o == "f":
        if args[0] == "sqrt":
            return sqrt(args[1])
        if args[0] == "pow":
            return power(args[1], args[2])
        return fn(*args)
    if o == "<":
        return lt(*args)
    if o == "<=":
        return le(*args)
    if o in ("==", "iff"):
        return eq(*args)
    if o == "not":
        return bnot(*args)
    if o == "and":
        return band(*args)
    if o == "ite":
        return ite(*args)
    if o == "toreal":
        return toreal(*args)
    if o in ("forall", "exists"):
        return quant(o, *args)
    return mk(o, args, n.sort)


def show(n, depth=12):
    if not isinstance(n, Node):
        return str(n)
    if depth == 0:
        return "…"
    o = n.op
    if o == "c":
        return str(n.args[0])
    if o in ("v", "b"):
        return str(n.args[0])
    if o in ("f", "app"):
        return "%s(%s)" % (n.args[0], ", ".join(
            show(a, depth - 1) for a in n.args[1:]))
    if o in ("+", "*", "/", "<", "<=", "==", "^", "iff"):
        return "(%s %s %s)" % (show(n.args[0], depth - 1), o,
                               show(n.args[1], depth - 1))
    return "%s(%s)" % (o, ", ".join(show(a, depth - 1) for a in n.args))


# ------------------------------------------------------- Python-level values
def node(x):
    """Node of a Python / numpy / symbolic scalar."""
    if isinstance(x, (Sym, SymB)):
        return x.n
    if isinstance(x, Node):
        return x
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return node(x.item())
    if isinstance(x, (bool, np.bool_, numbers.Number, np.generic, Fraction)):
        if isinstance(x, complex):
            raise Unsupported("complex")
        return const(x)
    raise Unsupported("not a scalar: %r" % (type(x),))


def scalar(x):
    return isinstance(x, (Sym, SymB, numbers.Number, np.generic, Fraction)) \
        and not isinstance(x, complex)


_decider = [None]


class SymB:
    """Symbolic truth value; using it as a bool forks the execution."""
    __slots__ = ("n",)
    __array_priority__ = 1000

    def __init__(self, n):
        self.n = n

    def __bool__(self):
        if self.n.op == "b":
            return self.n.args[0]
        if _decider[0] is None:
            raise Unsupported("symbolic branch outside an exploration")
        return _decider[0](self.n)

    def __and__(self, o):
        return SymB(band(self.n, node(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymB(bor(self.n, node(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymB(bnot(self.n))

    def __xor__(self, o):
        return SymB(bnot(eq(self.n, node(o))))
    __rxor__ = __xor__

    def __eq__(self, o):
        if not scalar(o):
            return NotImplemented
        return SymB(eq(self.n, node(o)))

    def __ne__(self, o):
        if not scalar(o):
            return NotImplemented
        return SymB(bnot(eq(self.n, node(o))))

    def __hash__(self):
        return hash(("SymB", self.n.id))

    def __repr__(self):
        return "SymB[%s]" % show(self.n)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.ufunc(ufunc, method, inputs, kw)

    # numpy boolean scalar API
    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self

    # arithmetic on truth values
    def _num(self):
        return Sym(ite(self.n, const(1), const(0)))

    def __add__(self, o):
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__


def _bin(f, swap=False):
    def op(self, o):
        if isinstance(o, SymB):
            o = o._num()
        if not scalar(o):
            return NotImplemented
        a, b = self.n, node(o)
        return wrap(f(b, a) if swap else f(a, b))
    return op


def wrap(n):
    return SymB(n) if n.sort == "B" else Sym(n)


def floordiv(a, b):
    if a.sort == "I" and b.sort == "I":
        if isc(a) and isc(b):
            return mk("c", (Fraction(cv(a) // cv(b)),), "I")
        return mk("idiv", (a, b), "I")
    return mk("f", ("floor", div(a, b)), "R")


def mod(a, b):
    if a.sort == "I" and b.sort == "I":
        if isc(a) and isc(b):
            return mk("c", (Fraction(cv(a) % cv(b)),), "I")
        return mk("imod", (a, b), "I")
    raise Unsupported("real modulo")


str_hook = [None]      # text of a number, while texts are in use


class Sym:
    """Symbolic number (sort 'R' or 'I')."""
    __slots__ = ("n",)
    __array_priority__ = 1000

    def __init__(self, n):
        self.n = n

    __add__ = _bin(add)
    __radd__ = _bin(add, True)
    __sub__ = _bin(sub)
    __rsub__ = _bin(sub, True)
    __mul__ = _bin(mul)
    __rmul__ = _bin(mul, True)
    __truediv__ = _bin(div)
    __rtruediv__ = _bin(div, True)
    __pow__ = _bin(power)
    __rpow__ = _bin(power, True)
    __floordiv__ = _bin(floordiv)
    __rfloordiv__ = _bin(floordiv, True)
    __mod__ = _bin(mod)
    __rmod__ = _bin(mod, True)
    __lt__ = _bin(lt)
    __le__ = _bin(le)
    __gt__ = _bin(lt, True)
    __ge__ = _bin(le, True)

    def __eq__(self, o):
        if not scalar(o):
            return NotImplemented
        return SymB(eq(self.n, node(o)))

    def __ne__(self, o):
        if not scalar(o):
            return NotImplemented
        return SymB(bnot(eq(self.n, node(o))))

    def __hash__(self):
        return hash(("Sym", self.n.id))

    def __neg__(self):
        return Sym(neg(self.n))

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(ite(lt(self.n, const(0)), neg(self.n), self.n))

    def __bool__(self):
        return bool(SymB(bnot(eq(self.n, const(0)))))

    def __index__(self):
        if isc(self.n) and self.n.sort == "I":
            return int(cv(self.n))
        raise Unsupported("symbolic index")

    def __float__(self):
        if isc(self.n):
            return float(cv(self.n))
        if self.n.op == "inf":
            return float("inf") * self.n.args[0]
        if self.n.op == "nan":
            return float("nan")
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if isc(self.n):
            return int(cv(self.n))
        raise Unsupported("int() of a symbolic value")

    def __repr__(self):
        return "Sym[%s]" % show(self.n)

    def __str__(self):
        return str_hook[0](self) if str_hook[0] else repr(self)

    def __format__(self, spec):
        if str_hook[0] and not spec:
            return str.__str__(str_hook[0](self))
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def dtype(self):
        return np.dtype(float) if self.n.sort == "R" else np.dtype(int)

    def astype(self, *a, **k):
        return self

    def conjugate(self):
        return self

    def is_integer(self):
        return self.n.sort == "I"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.ufunc(ufunc, method, inputs, kw)

    # methods numpy's object loops call
    def sqrt(self):
        return Sym(sqrt(self.n))

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def any(self, *a, **k):
        return SymB(bnot(eq(self.n, const(0))))


for _f in ("sin", "cos", "exp", "log", "log10", "arctan", "arcsin", "arccos",
           "arccosh", "sinh", "cosh", "tanh", "floor"):
    def _mk(f):
        def m(self):
            return Sym(fn(f, self.n))
        m.__name__ = f
        return m
    setattr(Sym, _f, _mk(_f))


def _tan(self):
    return Sym(div(fn("sin", self.n), fn("cos", self.n)))


Sym.tan = _tan


def real(name):
    return Sym(var(name, "R"))


def integer(name):
    return Sym(var(name, "I"))


def boolean(name):
    return SymB(mk("v", (name,), "B"))


def free_vars(n, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if n in seen:
        return acc
    seen.add(n)
    if n.op == "v":
        acc.add(n)
    for a in n.args:
        if isinstance(a, Node):
            free_vars(a, acc, seen)
    return acc
