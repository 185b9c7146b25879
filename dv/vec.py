"""Vectors (and fixed-width tables) of symbolic length.

An SVec is (length, index -> element expression).  Elementwise numpy
operations compose the element function, so a proof about element i is a proof
about every element of arrays of every length; reductions become quantifiers.
"""
import numpy as np

from . import expr as E
from . import npshim as S
from .expr import Sym, SymB, Unsupported, node, wrap

_ctx = [None]        # current symbolic context (for assumptions, fresh names)


def I(x):
    n = node(x)
    if n.sort != "I":
        raise Unsupported("non-integer index")
    return n


def has_bound(n):
    return any(v.args[0].startswith("?b") for v in E.free_vars(n))


class SVec:
    _dv_vec = True
    __array_priority__ = 2000

    def __init__(self, n, get, cols=None, sort="R"):
        self.n = n if isinstance(n, E.Node) else node(n)
        self.get = get            # get(i) or get(i, j) -> Node
        self.cols = cols
        self.sort = sort

    # -- numpy-ish attributes
    @property
    def shape(self):
        if self.cols is None:
            return (wrap(self.n),)
        return (wrap(self.n), self.cols)

    @shape.setter
    def shape(self, v):
        # giving an empty table its columns; rows with more than one index
        # are opaque elements
        v = tuple(v)
        if not SymB(E.eq(self.n, E.const(0))) or v[0] != 0:
            raise Unsupported("reshape")
        if len(v) == 2 and self.cols != v[1]:
            if self.cols is not None:
                raise Unsupported("reshape")
            self.cols = v[1]
            self.get = lambda i, j: E.const(0)

    @property
    def ndim(self):
        return 1 if self.cols is None else 2

    @property
    def size(self):
        n = wrap(self.n)
        return n if self.cols is None else n * self.cols

    @property
    def dtype(self):
        return np.dtype(bool) if self.sort == "B" else np.dtype(float)

    @property
    def T(self):
        if self.cols is None:
            return self
        return SVecT(self)

    def __len__(self):
        if E.isc(self.n):
            return int(E.cv(self.n))
        raise Unsupported("len() of a vector of symbolic length")

    def __iter__(self):
        if E.isc(self.n):
            return iter([self.row(E.const(i)) for i in range(len(self))])
        raise Unsupported("iteration over a vector of symbolic length")

    def copy(self):
        return SVec(self.n, self.get, self.cols, self.sort)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **k):
        return self.copy()

    def row(self, i):
        if self.cols is None:
            return wrap(self.get(i))
        a = np.empty(self.cols, dtype=object)
        for j in range(self.cols):
            a[j] = wrap(self.get(i, j))
        return a.view(S.SArr)

    def norm_index(self, i):
        i = I(i)
        if any(v.args[0].startswith("?b") for v in E.free_vars(i)):
            return i            # under a quantifier: the body bounds it
        neg = SymB(E.lt(i, E.const(0)))
        if neg:
            i = E.add(i, self.n)
        ok = SymB(E.band(E.le(E.const(0), i), E.lt(i, self.n)))
        if not ok:
            raise IndexError("index out of bounds")
        return i

    def slice(self, s):
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                n = self.n
                rev = lambda i: E.sub(E.sub(n, E.const(1)), i)
                if self.cols is None:
                    return SVec(n, lambda i: self.get(rev(i)), None, self.sort)
                return SVec(n, lambda i, j: self.get(rev(i), j), self.cols,
                            self.sort)
            raise Unsupported("slice step")
        z = E.const(0)

        def pick(c, a, b):
            if has_bound(c):
                return E.ite(c, a, b)
            return a if SymB(c) else b

        def clip(x, dflt):
            if x is None:
                return dflt
            x = I(x)
            x = pick(E.lt(x, z), E.add(x, self.n), x)
            x = pick(E.lt(x, z), z, x)
            return pick(E.lt(self.n, x), self.n, x)
        a, b = clip(s.start, z), clip(s.stop, self.n)
        m = pick(E.lt(a, b), E.sub(b, a), z)
        if self.cols is None:
            return SVec(m, lambda i: self.get(E.add(a, i)), None, self.sort)
        return SVec(m, lambda i, j: self.get(E.add(a, i), j), self.cols,
                    self.sort)

    def colsel(self, j):
        if isinstance(j, (int, np.integer)):
            j = int(j)
            if j < 0:
                j += self.cols
            if not 0 <= j < self.cols:
                raise IndexError("column out of range")
            return SVec(self.n, lambda i: self.get(i, j), None, self.sort)
        if isinstance(j, slice):
            idx = list(range(self.cols))[j]
        elif isinstance(j, (list, tuple, np.ndarray)):
            idx = [int(x) for x in j]
            idx = [x + self.cols if x < 0 else x for x in idx]
        else:
            raise Unsupported("column index")
        return SVec(self.n, lambda i, k: self.get(i, idx[k]), len(idx),
                    self.sort)

    def mask(self, m):
        cx = _ctx[0]
        if not same_len(m.n, self.n):
            raise IndexError("boolean index did not match")
        z = E.const(0)
        n = self.n
        # the same rows whichever vector they are taken from
        key = ("mask", m.n, m.get(E.var("?probe", "I")))
        if key in cx.ghost:
            k, nm = cx.ghost[key]
            idx = lambda i: E.app(nm, "I", i)
            inv = lambda i: E.app(nm + "'", "I", i)
            return self.masked(m, k, idx, inv)
        k = E.var(cx.fresh("mlen"), "I")
        nm = cx.fresh("midx")
        cx.ghost[key] = k, nm
        idx = lambda i: E.app(nm, "I", i)
        inv = lambda i: E.app(nm + "'", "I", i)
        cx.assume_node(E.band(E.le(z, k), E.le(k, n)))
        b = E.fresh_bound()
        cx.assume_node(E.quant("forall", b, imp(
            E.band(E.le(z, b), E.lt(b, k)),
            E.band(E.le(z, idx(b)), E.lt(idx(b), n), m.get(idx(b)),
                   E.eq(inv(idx(b)), b)))))
        b1, b2 = E.fresh_bound(), E.fresh_bound()
        cx.assume_node(E.quant("forall", b1, E.quant("forall", b2, imp(
            E.band(E.le(z, b1), E.lt(b1, b2), E.lt(b2, k)),
            E.lt(idx(b1), idx(b2))))))
        b3 = E.fresh_bound()
        cx.assume_node(E.quant("forall", b3, imp(
            E.band(E.le(z, b3), E.lt(b3, n), m.get(b3)),
            E.band(E.le(z, inv(b3)), E.lt(inv(b3), k),
                   E.eq(idx(inv(b3)), b3)))))
        # consequence of the above: nothing selected in between
        b4, b5 = E.fresh_bound(), E.fresh_bound()
        cx.assume_node(E.quant("forall", b4, E.quant("forall", b5, imp(
            E.band(E.le(z, b4), E.lt(E.add(b4, E.const(1)), k),
                   E.lt(idx(b4), b5),
                   E.lt(b5, idx(E.add(b4, E.const(1))))),
            E.bnot(m.get(b5))))))
        return self.masked(m, k, idx, inv)

    def masked(self, m, k, idx, inv):
        cx = _ctx[0]
        if self.cols is None:
            r = SVec(k, lambda i: self.get(idx(i)), None, self.sort)
        else:
            r = SVec(k, lambda i, j: self.get(idx(i), j), self.cols, self.sort)
        r.mask_of = (self, m, idx, inv)
        # by induction, a vector rising step by step rises
        if self.cols is None and self.sort == "R":
            cx.assume_node(rising(r.get, k))
        return r

    def __getitem__(self, key):
        if isinstance(key, tuple):
            key = tuple(k for k in key)
            if len(key) == 2 and key[0] is Ellipsis:
                if self.cols is None:
                    return self[key[1]]
                return self.colsel(key[1])
            if len(key) == 1:
                return self[key[0]]
            if len(key) == 2 and self.cols is None and key[1] is None and \
                    (key[0] is Ellipsis or key[0] == slice(None)):
                # a table of one column
                return SVec(self.n, lambda i, j: self.get(i), 1, self.sort)
            if len(key) != 2 or self.cols is None:
                raise IndexError("too many indices")
            if isinstance(key[0], SVec) and isinstance(
                    key[1], (int, np.integer)):
                return self.colsel(key[1])[key[0]]
            r = self[key[0]]
            if isinstance(r, SVec):
                if isinstance(key[1], slice) and key[1] == slice(None):
                    return r
                return r.colsel(key[1])
            return r[key[1]]
        if key is Ellipsis:
            return self
        if isinstance(key, slice):
            return self.slice(key)
        if isinstance(key, SVec):
            if key.sort == "B":
                return self.mask(key)
            raise Unsupported("fancy indexing")
        return self.row(self.norm_index(key))

    def __setitem__(self, key, val):
        old = self.get
        if isinstance(key, tuple) and len(key) == 2 and self.cols is not None \
                and (key[0] is Ellipsis or key[0] == slice(None)):
            j = key[1]
            if isinstance(j, (int, np.integer)):
                js = [int(j) % self.cols]
                one = True
            elif isinstance(j, slice):
                js, one = list(range(self.cols))[j], False
            else:
                js, one = [int(x) % self.cols for x in j], False
            if isinstance(val, SVec):
                if not same_len(val.n, self.n):
                    raise ValueError("shape mismatch")
                if one or val.cols is None:
                    if val.cols is not None:
                        raise ValueError("shape mismatch")
                    if not one:
                        raise Unsupported("broadcast of a vector on columns")
                    vals = {js[0]: lambda i: val.get(i)}
                else:
                    if val.cols != len(js):
                        raise ValueError("shape mismatch")
                    g = val.get
                    vals = {jj: (lambda k: lambda i: g(i, k))(k)
                            for k, jj in enumerate(js)}
            elif S.scalar_like(val):
                nv = node(val)
                vals = {jj: lambda i: nv for jj in js}
            else:
                raise Unsupported("assignment to a table")

            def get(i, j, old=old, vals=vals):
                if j in vals:
                    return vals[j](i)
                return old(i, j)
            self.get = get
            return
        if isinstance(key, slice) and key == slice(None) or key is Ellipsis:
            if isinstance(val, SVec):
                if not same_len(val.n, self.n):
                    raise ValueError("shape mismatch")
                self.get = val.get
                return
            nv = node(val)
            self.get = (lambda i: nv) if self.cols is None else (
                lambda i, j: nv)
            return
        if isinstance(key, SVec) and key.sort == "B" and S.scalar_like(val):
            nv, m = node(val), key
            if self.cols is None:
                self.get = lambda i: E.ite(m.get(i), nv, old(i))
            else:
                self.get = lambda i, j: E.ite(m.get(i), nv, old(i, j))
            return
        if self.cols is None and S.scalar_like(key):
            k, nv = self.norm_index(key), node(val)
            self.get = lambda i: E.ite(E.eq(i, k), nv, old(i))
            return
        if self.cols is not None and S.scalar_like(key):
            k = self.norm_index(key)
            vals = [node(v) for v in val]
            self.get = lambda i, j: E.ite(E.eq(i, k), vals[j], old(i, j))
            return
        raise Unsupported("assignment into a vector")

    # -- operators
    def __array_ufunc__(self, u, method, *inputs, **kw):
        return ufunc(u, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func.__name__)
        if h is None:
            raise Unsupported("numpy function %s on a vector of symbolic "
                              "length" % func.__name__)
        return h(*args, **kwargs)

    def any(self, axis=None, **k):
        return f_any(self, axis)

    def all(self, axis=None, **k):
        return f_all(self, axis)

    def max(self, axis=None, **k):
        return f_max(self, axis)

    def min(self, axis=None, **k):
        return f_min(self, axis)

    def argmax(self, axis=None, **k):
        return f_argmax(self, axis)

    def argmin(self, axis=None, **k):
        if self.sort == "B":
            return f_argmax(~self)
        raise Unsupported("argmin")

    def nonzero(self):
        raise Unsupported("nonzero")

    def __hash__(self):
        return id(self)


class SVecT:
    """Transpose of a table; only what broadcasting idioms need."""
    _dv_vec = True
    __array_priority__ = 2000

    def __init__(self, v):
        self.v = v

    @property
    def T(self):
        return self.v

    @property
    def shape(self):
        return (self.v.cols, wrap(self.v.n))

    def _bin(self, u, a, b):
        o = b if a is self else a
        if isinstance(o, SVec) and o.cols is None:
            if not same_len(o.n, self.v.n):
                raise ValueError("shape mismatch")
            op = S.OPS[u]
            v = self.v
            if a is self:
                g = lambda i, j: node(op(wrap(v.get(i, j)), wrap(o.get(i))))
            else:
                g = lambda i, j: node(op(wrap(o.get(i)), wrap(v.get(i, j))))
            return SVecT(SVec(v.n, g, v.cols))
        if S.scalar_like(o):
            op = S.OPS[u]
            v, on = self.v, node(o)
            if a is self:
                g = lambda i, j: node(op(wrap(v.get(i, j)), wrap(on)))
            else:
                g = lambda i, j: node(op(wrap(on), wrap(v.get(i, j))))
            return SVecT(SVec(v.n, g, v.cols))
        if isinstance(o, SVecT):
            return SVecT(ufunc(getattr(np, u), "__call__",
                               (a.v, b.v), {}))
        raise Unsupported("transposed operation")

    def __array_ufunc__(self, u, method, *inputs, **kw):
        if method != "__call__" or len(inputs) != 2:
            raise Unsupported("transposed ufunc")
        return self._bin(u.__name__, *inputs)

    def __iter__(self):
        return iter([self.v.colsel(j) for j in range(self.v.cols)])

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return self.v.colsel(int(k))
        if isinstance(k, (list, np.ndarray)):
            return SVecT(self.v.colsel(k))
        raise Unsupported("transposed index")


def _op(name, swap=False):
    u = getattr(np, name)

    def f(self, o):
        if swap:
            return u(o, self) if not isinstance(o, (SVec, SVecT)) else \
                o.__array_ufunc__(u, "__call__", o, self)
        return self.__array_ufunc__(u, "__call__", self, o)
    return f


for _c in (SVec, SVecT):
    for _n, _u in (("add", "add"), ("sub", "subtract"), ("mul", "multiply"),
                   ("truediv", "true_divide"), ("pow", "power"),
                   ("and", "bitwise_and"), ("or", "bitwise_or"),
                   ("xor", "bitwise_xor"), ("floordiv", "floor_divide"),
                   ("mod", "remainder")):
        setattr(_c, "__%s__" % _n, _op(_u))

        def _r(u):
            uf = getattr(np, u)
            return lambda self, o: self.__array_ufunc__(
                uf, "__call__", o, self)
        setattr(_c, "__r%s__" % _n, _r(_u))
    for _n, _u in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"),
                   ("ge", "greater_equal"), ("eq", "equal"),
                   ("ne", "not_equal")):
        setattr(_c, "__%s__" % _n, _op(_u))
    _c.__neg__ = lambda self: self.__array_ufunc__(
        np.negative, "__call__", self)
    _c.__invert__ = lambda self: self.__array_ufunc__(
        np.invert, "__call__", self)
    _c.__abs__ = lambda self: self.__array_ufunc__(
        np.absolute, "__call__", self)
SVec.__hash__ = lambda self: id(self)
SVecT.__hash__ = lambda self: id(self)


def imp(a, b):
    return E.bor(E.bnot(a), b)


def same_len(a, b):
    if a is b:
        return True
    return bool(SymB(E.eq(a, b)))


def ufunc(u, method, inputs, kw):
    for x in inputs:
        if isinstance(x, SVecT):
            return x.__array_ufunc__(u, method, *inputs, **kw)
    if method == "reduce":
        h = {"logical_or": f_any, "logical_and": f_all, "maximum": f_max,
             "minimum": f_min}.get(u.__name__)
        if h is None:
            raise Unsupported("reduction " + u.__name__)
        return h(inputs[0], kw.get("axis"))
    if method != "__call__" or kw.get("out"):
        raise Unsupported("ufunc method on vectors")
    op = S.OPS.get(u.__name__)
    if op is None:
        raise Unsupported("ufunc " + u.__name__)
    n = None
    cols = None
    for x in inputs:
        if isinstance(x, SVec):
            if n is None:
                n = x.n
            elif not same_len(n, x.n):
                if E.isc(x.n) and E.cv(x.n) == 1 or \
                        E.isc(n) and E.cv(n) == 1:
                    raise Unsupported("broadcast of length 1")
                raise ValueError("operands could not be broadcast together")
            if x.cols is not None:
                if cols not in (None, 1, x.cols) and x.cols != 1:
                    raise ValueError("operands could not be broadcast")
                if cols in (None, 1):
                    cols = x.cols
    gets = []
    for x in inputs:
        if isinstance(x, SVec):
            if cols is not None and x.cols is None:
                raise Unsupported("broadcast of a vector against a table")
            if cols not in (None, 1) and x.cols == 1:
                gets.append((lambda g: lambda i, j: g(i, 0))(x.get))
                continue
            gets.append(x.get)
        elif S.scalar_like(x):
            nn = node(x)
            gets.append((lambda c: lambda i, j=None: c)(nn))
        elif isinstance(x, np.ndarray) and x.ndim == 1 and cols is not None \
                and len(x) == cols:
            xs = [node(v) for v in x]
            gets.append((lambda c: lambda i, j: c[j])(xs))
        else:
            raise Unsupported("mixing vectors and arrays")
    if cols is None:
        g = lambda i: node(op(*[wrap(f(i)) for f in gets]))
    else:
        g = lambda i, j: node(op(*[wrap(f(i, j)) for f in gets]))
    probe = E.var("?probe", "I")
    sort = g(probe).sort if cols is None else g(probe, 0).sort
    return SVec(n, g, cols, sort)


def rising(get, n):
    """(all i: v[i] <= v[i + 1]) implies (all i < j: v[i] <= v[j])"""
    i, j, k = E.fresh_bound(), E.fresh_bound(), E.fresh_bound()
    z, one = E.const(0), E.const(1)
    return imp(
        E.quant("forall", i, imp(
            E.band(E.le(z, i), E.lt(E.add(i, one), n)),
            E.le(get(i), get(E.add(i, one))))),
        E.quant("forall", j, E.quant("forall", k, imp(
            E.band(E.le(z, j), E.lt(j, k), E.lt(k, n)),
            E.le(get(j), get(k))))))


def rng(b, n):
    return E.band(E.le(E.const(0), b), E.lt(b, n))


def f_any(v, axis=None, **k):
    b = E.fresh_bound()
    if v.cols is None:
        return SymB(E.quant("exists", b, E.band(rng(b, v.n), S.truth(
            wrap(v.get(b))))))
    if axis is None:
        return SymB(E.quant("exists", b, E.band(rng(b, v.n), E.bor(*[
            S.truth(wrap(v.get(b, j))) for j in range(v.cols)]))))
    if axis in (1, -1):
        return SVec(v.n, lambda i: E.bor(*[
            S.truth(wrap(v.get(i, j))) for j in range(v.cols)]), None, "B")
    raise Unsupported("any axis")


def f_all(v, axis=None, **k):
    b = E.fresh_bound()
    if v.cols is None:
        return SymB(E.quant("forall", b, imp(rng(b, v.n), S.truth(
            wrap(v.get(b))))))
    if axis is None:
        return SymB(E.quant("forall", b, imp(rng(b, v.n), E.band(*[
            S.truth(wrap(v.get(b, j))) for j in range(v.cols)]))))
    if axis in (1, -1):
        return SVec(v.n, lambda i: E.band(*[
            S.truth(wrap(v.get(i, j))) for j in range(v.cols)]), None, "B")
    raise Unsupported("all axis")


def f_extreme(v, axis, less):
    cx = _ctx[0]
    if v.cols is not None:
        raise Unsupported("max of a table")
    if SymB(E.le(v.n, E.const(0))):
        raise ValueError("zero-size array to reduction operation")
    k = E.var(cx.fresh("argext"), "I")
    m = v.get(k)
    cx.assume_node(rng(k, v.n))
    b = E.fresh_bound()
    cx.assume_node(E.quant("forall", b, imp(rng(b, v.n), E.bnot(
        less(v.get(b), m)))))
    return wrap(m)


def f_max(v, axis=None, **k):
    return f_extreme(v, axis, lambda x, m: E.lt(m, x))


def f_min(v, axis=None, **k):
    return f_extreme(v, axis, lambda x, m: E.lt(x, m))


def f_argmax(v, axis=None, **k):
    cx = _ctx[0]
    if SymB(E.le(v.n, E.const(0))):
        raise ValueError("attempt to get argmax of an empty sequence")
    key = ("argmax", v.n, v.get(E.var("?probe", "I")))
    if key in cx.ghost:
        return cx.ghost[key]
    r = E.var(cx.fresh("argmax"), "I")
    cx.ghost[key] = wrap(r)
    b = E.fresh_bound()
    if v.sort == "B":
        ex = f_any(v).n
        b2 = E.fresh_bound()
        cx.assume_node(rng(r, v.n))
        cx.assume_node(E.ite(ex, E.band(v.get(r), E.quant(
            "forall", b2, imp(E.band(E.le(E.const(0), b2), E.lt(b2, r)),
                              E.bnot(v.get(b2))))), E.eq(r, E.const(0))))
        return wrap(r)
    cx.assume_node(rng(r, v.n))
    cx.assume_node(E.quant("forall", b, imp(rng(b, v.n), E.le(
        v.get(b), v.get(r)))))
    b2 = E.fresh_bound()
    cx.assume_node(E.quant("forall", b2, imp(
        E.band(E.le(E.const(0), b2), E.lt(b2, r)),
        E.lt(v.get(b2), v.get(r)))))
    return wrap(r)


def f_diff(v, n=1, axis=-1, **k):
    if v.cols is not None:
        raise Unsupported("diff of a table")
    for _ in range(n):
        g = v.get
        m = E.ite(E.lt(E.const(0), v.n), E.sub(v.n, E.const(1)), E.const(0))
        v = SVec(m, (lambda g: lambda i: E.sub(
            g(E.add(i, E.const(1))), g(i)))(g))
    return v


def concatenate(seq, axis=0, **k):
    if axis not in (0, None):
        raise Unsupported("concatenate axis")
    parts = []
    cols = None
    for x in seq:
        if isinstance(x, SVec):
            parts.append(x)
            cols = x.cols
        else:
            a = S.asobj(x)
            if a.ndim == 1:
                vals = [node(v) for v in a]
                parts.append(SVec(E.const(len(vals)), pick(vals)))
            elif a.ndim == 2:
                rows = [[node(v) for v in r] for r in a]
                parts.append(SVec(E.const(len(rows)), pick2(rows),
                                  a.shape[1]))
                cols = a.shape[1]
            elif a.shape[0] == 0:
                # the rows of a table of opaque rows: none of them
                continue
            else:
                raise Unsupported("concatenate")
    for p in parts:
        if p.cols != cols:
            raise ValueError("dimension mismatch in concatenate")
    parts = [p for p in parts if not E.isc(p.n) or E.cv(p.n)] or parts[:1]
    total = E.const(0)
    offs = []
    for p in parts:
        offs.append(total)
        total = E.add(total, p.n)

    def at(i, *j):
        r = parts[-1].get(E.sub(i, offs[-1]), *j)
        for p, o in list(zip(parts, offs))[-2::-1]:
            r = E.ite(E.lt(i, E.add(o, p.n)), p.get(E.sub(i, o), *j), r)
        return r
    return SVec(total, at, cols, parts[0].sort)


def pick(vals):
    def g(i):
        if E.isc(i):
            return vals[int(E.cv(i))]
        r = vals[-1]
        for k in range(len(vals) - 2, -1, -1):
            r = E.ite(E.eq(i, E.const(k)), vals[k], r)
        return r
    return g


def pick2(rows):
    def g(i, j):
        return pick([r[j] for r in rows])(i)
    return g


def filled(shape, v):
    nv = node(v)
    if len(shape) == 1:
        return SVec(node(shape[0]), lambda i: nv)
    return SVec(node(shape[0]), lambda i, j: nv, int(shape[1]))


def stack_rows(seq):
    """the vectors as the rows of a table: its transpose has them as columns"""
    seq = list(seq)
    if not all(isinstance(v, SVec) and v.cols is None for v in seq):
        raise Unsupported("array of vectors")
    n = seq[0].n
    for v in seq[1:]:
        if not same_len(v.n, n):
            raise ValueError("inhomogeneous shape")
    gets = [v.get for v in seq]
    return SVecT(SVec(n, lambda i, j: gets[j](i), len(gets)))


def linspace(start, stop, num, endpoint=True):
    a, b, n = node(start), node(stop), node(num)
    a, b = E.toreal(a), E.toreal(b)
    if not endpoint:
        raise Unsupported("linspace endpoint")
    if n.sort == "R":
        raise Unsupported("linspace with a real count")
    d = E.toreal(E.sub(n, E.const(1)))

    def g(i):
        return E.add(a, E.mul(E.toreal(i), E.div(E.sub(b, a), d)))
    return SVec(n, g)


def f_gradient(f, *x, axis=None, edge_order=1):
    """numpy.gradient along the only axis, with its uneven spacing"""
    if not isinstance(f, SVec) or f.cols is not None or len(x) > 1 or \
            edge_order != 1 or axis not in (None, 0, -1):
        raise Unsupported("gradient")
    one = E.const(1)
    if SymB(E.lt(f.n, E.const(2))):
        raise ValueError("Shape of array too small to calculate a "
                         "numerical gradient")
    if x and isinstance(x[0], SVec):
        if not same_len(x[0].n, f.n):
            raise ValueError("when 1d, distances must match the length")
        at = x[0].get
    else:
        h = node(x[0]) if x else one
        at = lambda i: E.mul(E.toreal(i), h)
    y, n = f.get, f.n

    def slope(i, j):
        return E.div(E.sub(y(j), y(i)), E.sub(at(j), at(i)))

    def g(i):
        b, a = E.sub(i, one), E.add(i, one)
        if E.isc(i) and E.cv(i) == 0:
            return slope(i, a)
        d1, d2 = E.sub(at(i), at(b)), E.sub(at(a), at(i))
        mid = E.div(E.add(E.mul(d2, slope(b, i)), E.mul(d1, slope(i, a))),
                    E.add(d1, d2))
        return E.ite(E.eq(i, E.const(0)), slope(i, a), E.ite(
            E.eq(i, E.sub(n, one)), slope(b, i), mid))
    return SVec(n, g)


FUNCS = {
    "any": f_any, "all": f_all, "max": f_max, "amax": f_max, "min": f_min,
    "amin": f_min, "nanmax": f_max, "nanmin": f_min, "argmax": f_argmax, "nanargmax": f_argmax,
    "diff": f_diff, "concatenate": concatenate,
    "copy": lambda v, *a, **k: v.copy(),
    "zeros_like": lambda v, *a, **k: filled(v.shape, Sym(E.ZERO)),
    "full_like": lambda v, x, *a, **k: filled(v.shape, x),
    "shape": lambda v: v.shape, "ndim": lambda v: v.ndim,
    "insert": S.s_insert, "gradient": f_gradient,
    "linspace": lambda a, b, n=50, *r, **k: linspace(a, b, n),
    "where": lambda c, x, y: f_where(c, x, y),
    "flip": lambda v, axis=None: v.slice(slice(None, None, -1)),
}


def f_where(c, x, y):
    n = next(v for v in (c, x, y) if isinstance(v, SVec))

    def g(v):
        if isinstance(v, SVec):
            if not same_len(v.n, n.n):
                raise ValueError("shape")
            return v.get
        nv = node(v)
        return lambda i: nv
    gc, gx, gy = g(c), g(x), g(y)
    return SVec(n.n, lambda i: E.ite(S.truth(wrap(gc(i))), gx(i), gy(i)))


def symvec(name, n, cols=None, sort="R"):
    if cols is None:
        return SVec(n, lambda i: E.app(name, sort, i), None, sort)
    return SVec(n, lambda i, j: E.app("%s_%d" % (name, j), sort, i), cols,
                sort)
