"""Assumed contracts of external functions, used in symbolic runs."""
from dv import expr as E, vec as V, npshim as S
from dv.expr import SymB, Unsupported, wrap, node


class LinearInterp:
    """scipy.interpolate.interp1d, kind="linear": the points are taken in the
    order of x; outside them a ValueError; between two neighbouring ones the
    straight line through them."""

    def __init__(self, x, y, **kw):
        if kw:
            raise Unsupported("interp1d options")
        if not isinstance(x, V.SVec):
            x = V.concatenate([x])
        if not isinstance(y, V.SVec):
            y = V.concatenate([y])
        self.x, self.y = x, y
        if not V.same_len(x.n, y.n):
            raise ValueError("x and y arrays must be equal in length")

    def __call__(self, v):
        cx = V._ctx[0]
        x, y, n = self.x, self.y, self.x.n
        v = E.toreal(S.num(v))
        i, j, k = E.fresh_bound(), E.fresh_bound(), E.fresh_bound()
        inside = E.band(
            E.quant("exists", i, E.band(V.rng(i, n), E.le(x.get(i), v))),
            E.quant("exists", j, E.band(V.rng(j, n), E.le(v, x.get(j)))))
        if not SymB(inside):
            raise ValueError("A value in x_new is outside the interpolation "
                             "range.")
        if SymB(E.eq(n, E.const(2))):
            x0, x1 = x.get(E.const(0)), x.get(E.const(1))
            y0, y1 = y.get(E.const(0)), y.get(E.const(1))
            return wrap(E.add(y0, E.mul(E.div(E.sub(y1, y0), E.sub(x1, x0)),
                                        E.sub(v, x0))))
        r = E.var(cx.fresh("interp"), "R")
        i, j = E.fresh_bound(), E.fresh_bound()
        adjacent = E.band(
            V.rng(i, n), V.rng(j, n), E.le(x.get(i), v), E.le(v, x.get(j)),
            E.lt(x.get(i), x.get(j)),
            E.quant("forall", k, V.imp(V.rng(k, n), E.bor(
                E.le(x.get(k), x.get(i)), E.le(x.get(j), x.get(k))))))
        cx.assume_node(E.quant("forall", i, E.quant("forall", j, V.imp(
            adjacent, E.eq(
                E.mul(E.sub(x.get(j), x.get(i)), E.sub(r, y.get(i))),
                E.mul(E.sub(y.get(j), y.get(i)), E.sub(v, x.get(i))))))))
        return wrap(r)


def install_interp(cx):
    if cx.symbolic:
        from scipy.interpolate import interp1d
        cx.stub(interp1d, LinearInterp)


INTERP = ("scipy.interpolate.interp1d (kind linear): sorted piecewise linear "
          "interpolation, ValueError outside the range")
