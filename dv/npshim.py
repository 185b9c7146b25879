"""numpy semantics for symbolic scalars inside object arrays."""
import functools
import sys

import numpy as np

from . import expr as E
from .expr import Sym, SymB, Unsupported, node, wrap

_REAL = {}      # shim targets: original numpy function -> replacement


def _u1(f):
    return lambda x: wrap(f(node(x)))


def _u2(f):
    return lambda x, y: wrap(f(num(x), num(y)))


def num(x):
    n = node(x)
    if n.sort == "B":
        return E.ite(n, E.const(1), E.const(0))
    return n


def truth(x):
    n = node(x)
    if n.sort == "B":
        return n
    return E.bnot(E.eq(n, E.const(0)))


def _tan(n):
    return E.div(E.fn("sin", n), E.fn("cos", n))


OPS = {
    "add": _u2(E.add), "subtract": _u2(E.sub), "multiply": _u2(E.mul),
    "true_divide": _u2(E.div), "divide": _u2(E.div), "power": _u2(E.power),
    "float_power": _u2(E.power),
    "floor_divide": _u2(E.floordiv), "remainder": _u2(E.mod),
    "negative": lambda x: Sym(E.neg(num(x))), "positive": lambda x: x,
    "absolute": lambda x: abs(Sym(num(x))),
    "fabs": lambda x: abs(Sym(num(x))),
    "square": lambda x: Sym(E.ipow(num(x), 2)),
    "reciprocal": lambda x: Sym(E.div(E.ONE, num(x))),
    "sqrt": lambda x: Sym(E.sqrt(num(x))),
    "tan": lambda x: Sym(_tan(num(x))),
    "less": _u2(E.lt), "less_equal": _u2(E.le), "equal": _u2(E.eq),
    "greater": lambda x, y: wrap(E.lt(num(y), num(x))),
    "greater_equal": lambda x, y: wrap(E.le(num(y), num(x))),
    "not_equal": lambda x, y: wrap(E.bnot(E.eq(num(x), num(y)))),
    "logical_and": lambda x, y: SymB(E.band(truth(x), truth(y))),
    "logical_or": lambda x, y: SymB(E.bor(truth(x), truth(y))),
    "logical_not": lambda x: SymB(E.bnot(truth(x))),
    "logical_xor": lambda x, y: SymB(E.bnot(E.eq(truth(x), truth(y)))),
    "bitwise_and": lambda x, y: SymB(E.band(truth(x), truth(y))),
    "bitwise_or": lambda x, y: SymB(E.bor(truth(x), truth(y))),
    "bitwise_xor": lambda x, y: SymB(E.bnot(E.eq(truth(x), truth(y)))),
    "invert": lambda x: SymB(E.bnot(truth(x))),
    "isnan": lambda x: SymB(E.nan_cond(node(x))),
    "isfinite": lambda x: SymB(
        E.FALSE if node(x).op == "inf" else E.bnot(E.nan_cond(node(x)))),
    "isinf": lambda x: SymB(E.TRUE if node(x).op == "inf" else E.FALSE),
    "maximum": lambda x, y: Sym(E.ite(E.lt(num(x), num(y)), num(y), num(x))),
    "minimum": lambda x, y: Sym(E.ite(E.lt(num(y), num(x)), num(y), num(x))),
    "fmax": lambda x, y: Sym(E.ite(E.lt(num(x), num(y)), num(y), num(x))),
    "fmin": lambda x, y: Sym(E.ite(E.lt(num(y), num(x)), num(y), num(x))),
    "radians": lambda x: Sym(
        E.mul(num(x), E.mul(E.const(E.Fraction(1, 180)), E.PI))),
    "deg2rad": lambda x: Sym(
        E.mul(num(x), E.mul(E.const(E.Fraction(1, 180)), E.PI))),
    "degrees": lambda x: Sym(
        E.div(E.mul(num(x), E.const(E.Fraction(180))), E.PI)),
    "rad2deg": lambda x: Sym(
        E.div(E.mul(num(x), E.const(E.Fraction(180))), E.PI)),
    "sign": lambda x: Sym(E.ite(
        E.lt(num(x), E.const(0)), E.const(-1),
        E.ite(E.eq(num(x), E.const(0)), E.const(0), E.const(1)))),
    "conjugate": lambda x: x,
    "hypot": lambda x, y: Sym(E.sqrt(E.add(
        E.ipow(num(x), 2), E.ipow(num(y), 2)))),
}
for _f in ("sin", "cos", "exp", "log", "log10", "arctan", "arcsin", "arccos",
           "arccosh", "sinh", "cosh", "tanh", "floor"):
    OPS[_f] = (lambda f: lambda x: Sym(E.fn(f, num(x))))(_f)


def obj0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def asobj(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray).astype(object)
    if isinstance(x, (list, tuple)):
        return to_object_array(x)
    return obj0(x)


def to_object_array(x):
    """np.array(x) with object elements, numpy's nesting rules."""
    def shape(v):
        if isinstance(v, np.ndarray):
            return v.shape
        if isinstance(v, (list, tuple)):
            if not v:
                return (0,)
            return (len(v),) + shape(v[0])
        return ()
    sh = shape(x)
    a = np.empty(sh, dtype=object)

    def fill(idx, v):
        if len(idx) == len(sh):
            a[idx] = v
            return
        if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
            if len(v) != sh[len(idx)]:
                raise ValueError("inhomogeneous shape")
            for i, w in enumerate(v):
                fill(idx + (i,), w)
        else:
            raise ValueError("inhomogeneous shape")
    if sh == ():
        a[()] = x
    elif isinstance(x, np.ndarray):
        a[...] = np.asarray(x.view(np.ndarray), dtype=object)
    else:
        fill((), x)
    return a


def is_sym(x):
    if isinstance(x, (Sym, SymB, SArr)):
        return True
    if getattr(x, "_dv_vec", False):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_sym(v) for v in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(v, (Sym, SymB)) for v in x.flat)
    return False


class SArr(np.ndarray):
    """Object array of symbolic scalars."""
    __array_priority__ = 500

    def __array_ufunc__(self, u, method, *inputs, **kw):
        return ufunc(u, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        from . import vec
        if any(issubclass(t, vec.SVec) for t in types):
            return NotImplemented
        r = func._implementation(*args, **kwargs)
        return fixview(r)

    def __getitem__(self, key):
        r = super().__getitem__(conckey(key))
        return r

    def __setitem__(self, key, val):
        key = conckey(key)
        if isinstance(val, SArr):
            val = val.view(np.ndarray)
        super().__setitem__(key, val)

    def any(self, axis=None, **k):
        return reduce_op(OPS["logical_or"], self, axis, SymB(E.FALSE))

    def all(self, axis=None, **k):
        return reduce_op(OPS["logical_and"], self, axis, SymB(E.TRUE))

    def astype(self, dtype, *a, **k):
        return self.copy()

    def max(self, axis=None, **k):
        return reduce_op(OPS["maximum"], self, axis, None)

    def min(self, axis=None, **k):
        return reduce_op(OPS["minimum"], self, axis, None)

    def sum(self, axis=None, **k):
        return reduce_op(OPS["add"], self, axis, Sym(E.ZERO))


def conckey(key):
    if isinstance(key, SymB):
        return bool(key)
    if isinstance(key, Sym):
        return key.__index__()
    if isinstance(key, tuple):
        return tuple(conckey(k) for k in key)
    if isinstance(key, np.ndarray) and key.dtype == object:
        if key.size and isinstance(next(iter(key.flat)), (SymB, bool)):
            return np.array([bool(b) for b in key.flat],
                            dtype=bool).reshape(key.shape)
        return np.array([int(b) for b in key.flat],
                        dtype=int).reshape(key.shape)
    if isinstance(key, list) and any(isinstance(k, (Sym, SymB)) for k in key):
        return conckey(to_object_array(key))
    return key


def fixview(r):
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray) and r.dtype == object:
        return r.view(SArr)
    if isinstance(r, list):
        return [fixview(x) for x in r]
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(fixview(x) for x in r)
    return r


def reduce_op(op, a, axis, init):
    a = asobj(a)
    if axis is None:
        vals = list(a.flat)
        if not vals:
            if init is None:
                raise ValueError("zero-size array to reduction")
            return init
        r = functools.reduce(op, vals)
        if init is not None and len(vals) == 1:
            r = op(init, r)
        return r
    if isinstance(axis, tuple):
        raise Unsupported("reduction over several axes")
    a = np.moveaxis(a, axis, 0)
    out = np.empty(a.shape[1:], dtype=object)
    for idx in np.ndindex(*a.shape[1:]):
        out[idx] = reduce_op(op, a[(slice(None),) + idx], None, init)
    return out.view(SArr)


INIT = {"add": lambda: Sym(E.ZERO), "multiply": lambda: Sym(E.ONE),
        "logical_and": lambda: SymB(E.TRUE),
        "logical_or": lambda: SymB(E.FALSE),
        "bitwise_and": lambda: SymB(E.TRUE),
        "bitwise_or": lambda: SymB(E.FALSE)}


def ufunc(u, method, inputs, kw):
    name = u.__name__
    from . import vec
    if any(isinstance(x, vec.SVec) for x in inputs):
        return vec.ufunc(u, method, inputs, kw)
    if name in ("matmul",):
        return matmul(*inputs)
    op = OPS.get(name)
    if op is None:
        raise Unsupported("numpy ufunc " + name)
    kw = dict(kw)
    out = kw.pop("out", None)
    if method == "__call__":
        where = kw.pop("where", True)
        if where is not True:
            raise Unsupported("ufunc where")
        if all(not isinstance(x, (np.ndarray, list, tuple)) for x in inputs):
            r = op(*inputs)
        else:
            arrs = [asobj(x) for x in inputs]
            r = np.frompyfunc(op, len(arrs), 1)(*arrs)
            if isinstance(r, np.ndarray):
                r = r.view(SArr)
        if out is not None:
            o = out[0]
            if o is not None:
                o[...] = r
                return o
        return r
    if method == "reduce":
        axis = kw.get("axis", 0)
        init = INIT.get(name, lambda: None)()
        return reduce_op(op, inputs[0], axis, init)
    if method == "accumulate":
        a = asobj(inputs[0])
        o = np.empty_like(a)
        acc = None
        for i in range(len(a)):
            acc = a[i] if acc is None else op(acc, a[i])
            o[i] = acc
        return o.view(SArr)
    if method == "outer":
        a, b = asobj(inputs[0]), asobj(inputs[1])
        o = np.empty(a.shape + b.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            for j in np.ndindex(*b.shape):
                o[i + j] = op(a[i], b[j])
        return o.view(SArr)
    raise Unsupported("ufunc method " + method)


def matmul(a, b):
    a, b = asobj(a), asobj(b)
    return fixview(np.dot(a, b))


def f_any(a, axis=None, **k):
    return reduce_op(OPS["logical_or"], a, axis, SymB(E.FALSE))


def f_all(a, axis=None, **k):
    return reduce_op(OPS["logical_and"], a, axis, SymB(E.TRUE))


def f_where(c, x=None, y=None):
    if x is None:
        raise Unsupported("where with one argument")
    f = np.frompyfunc(lambda c, a, b: wrap(E.ite(truth(c), num(a), num(b))),
                      3, 1)
    r = f(asobj(c), asobj(x), asobj(y))
    return fixview(r)


def f_isclose(*a, **k):
    raise Unsupported("isclose")


def f_linspace(start, stop, num=50, endpoint=True, **k):
    from . import vec
    return vec.linspace(start, stop, num, endpoint)


def f_mean(a, axis=None, **k):
    a = asobj(a)
    n = a.size if axis is None else a.shape[axis]
    return reduce_op(OPS["add"], a, axis, Sym(E.ZERO)) / n


FUNCS = {
    "any": f_any, "all": f_all, "where": f_where, "isclose": f_isclose,
    "allclose": f_isclose, "mean": f_mean,
    "max": lambda a, axis=None, **k: reduce_op(OPS["maximum"], a, axis, None),
    "amax": lambda a, axis=None, **k: reduce_op(OPS["maximum"], a, axis, None),
    "min": lambda a, axis=None, **k: reduce_op(OPS["minimum"], a, axis, None),
    "amin": lambda a, axis=None, **k: reduce_op(OPS["minimum"], a, axis, None),
    "nanmax": lambda a, axis=None, **k: reduce_op(
        OPS["maximum"], a, axis, None),
    "nanmin": lambda a, axis=None, **k: reduce_op(
        OPS["minimum"], a, axis, None),
    "sum": lambda a, axis=None, **k: reduce_op(
        OPS["add"], a, axis, Sym(E.ZERO)),
    "copy": lambda a, *r, **k: np.ndarray.copy(a),
}


# ------------------------------------------------------------- module shims
def s_zeros(shape, dtype=None, *a, **k):
    if dtype is bool or dtype is int:
        return np.zeros(shape, dtype=dtype)
    return _filled(shape, Sym(E.ZERO))


def s_ones(shape, dtype=None, *a, **k):
    if dtype is bool or dtype is int:
        return np.ones(shape, dtype=dtype)
    return _filled(shape, Sym(E.ONE))


def s_full(shape, value, dtype=None, *a, **k):
    if isinstance(value, (float, np.floating)):
        value = Sym(E.const(float(value)))
    return _filled(shape, value)


def _filled(shape, v):
    from . import vec
    if isinstance(shape, (tuple, list)) and any(
            isinstance(s, Sym) and not E.isc(s.n) for s in shape):
        return vec.filled(shape, v)
    if isinstance(shape, Sym) and not E.isc(shape.n):
        return vec.filled((shape,), v)
    a = np.empty(shape, dtype=object)
    a.fill(v) if a.ndim else a.__setitem__((), v)
    return a.view(SArr)


def s_like(v):
    def f(a, dtype=None, *r, **k):
        if getattr(a, "_dv_vec", False):
            from . import vec
            return vec.filled(a.shape, v)
        return _filled(np.shape(a), v)
    return f


def s_full_like(a, value, *r, **k):
    if isinstance(value, (float, np.floating)):
        value = Sym(E.const(float(value)))
    return s_like(value)(a)


def s_array(x, dtype=None, *a, **k):
    if getattr(x, "_dv_vec", False):
        return x.copy()
    if isinstance(x, SArr):
        return x.copy()
    if is_sym(x):
        from . import vec
        if isinstance(x, (list, tuple)) and any(
                isinstance(v, vec.SVec) for v in x):
            return vec.stack_rows(x)
        return to_object_array(x).view(SArr)
    if dtype is FT or dtype is None or dtype in (float, np.float64):
        r = np.array(x) if dtype is None else np.array(x, dtype=float)
        if r.dtype.kind == "f":
            o = np.empty(r.shape, dtype=object)
            for i in np.ndindex(*r.shape):
                o[i] = Sym(E.const(float(r[i])))
            return o.view(SArr)
        return r
    return np.array(x, dtype=dtype, *a, **k)


def s_asarray(x, *a, **k):
    if isinstance(x, SArr) or getattr(x, "_dv_vec", False):
        return x
    return s_array(x, *a, **k)


def s_copy(x, *a, **k):
    if isinstance(x, (Sym, SymB)):
        return x
    if isinstance(x, SArr) or getattr(x, "_dv_vec", False):
        return x.copy()
    return np.copy(x, *a, **k)


def s_concatenate(seq, axis=0, **k):
    from . import vec
    seq = list(seq)
    if any(isinstance(v, vec.SVec) for v in seq):
        return vec.concatenate(seq, axis)
    if any(is_sym(v) for v in seq):
        return np.concatenate([asobj(v) for v in seq], axis=axis).view(SArr)
    return np.concatenate(seq, axis=axis, **k)


def s_insert(arr, obj, values, axis=None):
    from . import vec
    if isinstance(arr, vec.SVec):
        if obj == 0:
            return vec.concatenate([[values], arr], 0)
        raise Unsupported("insert")
    if is_sym(arr) or is_sym(values):
        return np.insert(asobj(arr), obj, obj0(values), axis=axis).view(SArr)
    return np.insert(arr, obj, values, axis=axis)


def s_linspace(start, stop, num=50, endpoint=True, **k):
    from . import vec
    return vec.linspace(start, stop, num, endpoint)


class FloatType:
    """Stands for float_type / FLOAT_TYPE: the identity on symbolic values."""
    __name__ = "float64"

    def __call__(self, x=0):
        if isinstance(x, (Sym, SymB)):
            return x
        if getattr(x, "_dv_opaque", False):
            return x._dv_float()
        return Sym(E.const(float(x)))

    def __getattr__(self, k):
        return getattr(np.float64, k)


FT = FloatType()


def table():
    t = {}
    for name, f in (
        ("zeros", s_zeros), ("ones", s_ones), ("full", s_full),
        ("empty", s_zeros), ("array", s_array), ("asarray", s_asarray),
        ("copy", s_copy), ("concatenate", s_concatenate),
        ("insert", s_insert), ("linspace", s_linspace),
        ("zeros_like", s_like(Sym(E.ZERO))),
        ("ones_like", s_like(Sym(E.ONE))),
        ("empty_like", s_like(Sym(E.ZERO))), ("full_like", s_full_like),
    ):
        t[id(getattr(np, name))] = f
    t[id(np.float64)] = FT
    return t


class NumpyProxy:
    def __init__(self, tab):
        self.__dict__["_tab"] = tab

    def __getattr__(self, k):
        v = getattr(np, k)
        if not callable(v):
            return v
        return self._tab.get(id(v), v)


def scalar_like(x):
    return E.scalar(x) or isinstance(x, np.ndarray) and x.ndim == 0
