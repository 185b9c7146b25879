"""What was recorded while solving: joining parts and reversing them."""
import numpy as np

from disc_solver.file_format import _containers as C

from dv.api import registry

PROPERTY = "C09"
CONTRACTS, contract = registry()
ASSUMPTIONS = ["a recorded jacobian is one opaque element"]

ONE = ("angles", "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor",
       "v_φ_taylor", "ρ_taylor")
TWO = ("derivs", "params")


def series(cx, tag, kind):
    """One of each: vectors, or lists of rows as recorded"""
    out = {}
    for k in ONE + TWO + ("jac.angles", "jac.derivs", "jac.params",
                          "jac.jacobians"):
        cols = 11 if k.split(".")[-1] in TWO else None
        if kind == "empty":
            out[k] = []
        elif kind == "lists":
            out[k] = [cx.real_array([cx.real("%s%s %d %d" % (tag, k, i, j))
                                     for j in range(11)]) if cols else
                      cx.real("%s%s %d" % (tag, k, i)) for i in range(2)]
            if k == "jac.jacobians":
                out[k] = [np.full((11, 11), 1. + i + (7 if tag else 0))
                          for i in range(2)]
        elif k == "jac.jacobians" and not cx.symbolic:
            out[k] = np.random.RandomState(3 + len(tag)).rand(
                cx.int(tag + "jacobians", lo=0, hi=4), 11, 11)
        else:
            out[k] = cx.vec(tag + k, cols=cols)
    return out


def data(s, p):
    return C.InternalData(
        problems=p, jacobian_data=C.JacobianData(
            **{k[4:]: v for k, v in s.items() if k.startswith("jac.")}),
        **{k: v for k, v in s.items() if not k.startswith("jac.")})


def get(d, k):
    if k.startswith("jac."):
        return getattr(d.jacobian_data, k[4:])
    return getattr(d, k)


def row(v, k, i):
    """entries of row i"""
    if k.split(".")[-1] in TWO:
        return [v[i, j] for j in range(11)]
    return [v[i]]


def matches(cx, name, got, parts, flipped=False):
    """got is the parts one after the other"""
    for k in parts[0]:
        g = get(got, k)
        vs = [p[k] for p in parts]
        if all(isinstance(v, (list, np.ndarray)) for v in vs) or \
                not cx.symbolic:
            rows = [x for v in vs for x in v]
            if flipped:
                rows = rows[::-1]
            ok = len(g) == len(rows)
            cx.ensure_true("%s: length of %s" % (name, k), ok)
            if ok:
                for a, b in zip(g, rows):
                    a, b = np.ravel(a), np.ravel(b)
                    cx.ensure_true("%s: width of %s" % (name, k),
                                   len(a) == len(b))
                    if len(a) != len(b):
                        continue
                    if len(a) > 11:
                        cx.ensure_true("%s: %s" % (name, k), bool(
                            np.array_equal(a, b)))
                        continue
                    for x, y in zip(a, b):
                        cx.ensure_eq("%s: %s" % (name, k), x, y)
            continue
        n = [len(v) if isinstance(v, list) else cx.length(v) for v in vs]
        total = n[0]
        for m in n[1:]:
            total = total + m
        cx.ensure_eq("%s: length of %s" % (name, k), cx.length(g), total)
        off = 0
        for v, m in zip(vs, n):
            if isinstance(v, list) and v and k.split(".")[-1] in TWO:
                for i, r in enumerate(v):
                    for j in range(11):
                        cx.ensure_eq("%s: %s" % (name, k), g[off + i, j],
                                     r[j])
            elif isinstance(v, list):
                for i, r in enumerate(v):
                    if k != "jac.jacobians":
                        cx.ensure_eq("%s: %s" % (name, k), g[off + i], r)
            else:
                width = 11 if k.split(".")[-1] in TWO else 1
                for j in range(width):
                    def body(i, j=j, v=v, off=off, m=m):
                        p = m - 1 - i if flipped else i
                        return cx.eq(row(g, k, off + i)[j], row(v, k, p)[j])
                    cx.ensure("%s: %s" % (name, k),
                              cx.forall_int(body, 0, m))
            off = off + m


def some_problems(cx, tag):
    p = C.Problems()
    for k, v in cx.choice(tag + "problems", [
            {}, {.25: ["a"], .5: ["b", "c"]}, {.5: ["d"]}]).items():
        for x in v:
            p[k].append(x)
    return p


def show(p):
    return {k: list(v) for k, v in p.items() if v}


@contract("joining", [
    "file_format.InternalData.__add__", "file_format.JacobianData.__add__",
    "file_format.InternalData._finalise",
    "file_format.JacobianData._finalise"], budget=200)
def joining(cx):
    kinds = cx.choice("recorded", [("tables", "tables"), ("empty", "tables"),
                                   ("tables", "empty"), ("empty", "empty"),
                                   ("lists", "lists"), ("empty", "lists")])
    p, q = some_problems(cx, "first "), some_problems(cx, "second ")
    a, b = series(cx, "", kinds[0]), series(cx, "2 ", kinds[1])
    if "tables" in kinds and cx.symbolic:
        # a table of no rows is the case "empty"
        for s in (a, b):
            for v in s.values():
                if getattr(v, "_dv_vec", False):
                    cx.require(0 < cx.length(v))
    wp, wq = show(p), show(q)
    x, y = data(a, p), data(b, q)
    z = x + y
    matches(cx, "joined", z, [a, b])
    matches(cx, "first part stays", x, [a])
    matches(cx, "second part stays", y, [b])
    want = {k: wp.get(k, []) + wq.get(k, []) for k in {**wp, **wq}}
    cx.ensure_true("joined: problems", show(z.problems) == want)
    cx.ensure_true("problems stay", show(x.problems) == wp and
                   show(y.problems) == wq)
    z.problems[.25].append("later")
    z.problems[.5].append("later")
    cx.ensure_true("problems of the parts stay", show(x.problems) == wp and
                   show(y.problems) == wq)


@contract("joining jacobians", ["file_format.JacobianData.__add__",
                                "file_format.JacobianData._finalise"])
def jacobians(cx):
    kinds = cx.choice("recorded", [("tables", "tables"), ("empty", "tables"),
                                   ("tables", "empty"), ("empty", "empty"),
                                   ("lists", "lists"), ("lists", "empty"),
                                   ("empty", "lists")])
    a, b = ({k: v for k, v in series(cx, tag, kind).items()
             if k.startswith("jac.")} for tag, kind in zip(("", "2 "), kinds))
    if "tables" in kinds and cx.symbolic:
        for s in (a, b):
            for v in s.values():
                if getattr(v, "_dv_vec", False):
                    cx.require(0 < cx.length(v))

    def jac(s):
        return C.JacobianData(**{k[4:]: v for k, v in s.items()})
    x, y = jac(a), jac(b)
    matches(cx, "joined", C.InternalData(jacobian_data=x + y), [a, b])
    matches(cx, "first part stays", C.InternalData(jacobian_data=x), [a])
    matches(cx, "second part stays", C.InternalData(jacobian_data=y), [b])


@contract("reversing", [
    "file_format.InternalData.flip", "file_format.JacobianData.flip"])
def reversing(cx):
    kind = cx.choice("recorded", ["tables", "empty", "lists"])
    p = some_problems(cx, "")
    w = show(p)
    a = series(cx, "", kind)
    if cx.symbolic and kind == "tables":
        for v in a.values():
            if getattr(v, "_dv_vec", False):
                cx.require(0 < cx.length(v))
    x = data(a, p)
    y = x.flip()
    matches(cx, "reversed", y, [a], flipped=True)
    cx.ensure_true("problems", show(y.problems) == w)
    z = y.flip()
    matches(cx, "reversed twice", z, [a])


@contract("empty records", ["file_format.InternalData._finalise",
                            "file_format.JacobianData._finalise"])
def empty(cx):
    d = C.InternalData()
    d._finalise()
    for k in TWO:
        cx.ensure_true("columns of " + k, np.shape(getattr(d, k)) == (0, 11))
        cx.ensure_true("columns of " + k, np.shape(
            getattr(d.jacobian_data, k)) == (0, 11))
    for k in ONE:
        cx.ensure_true("no " + k, np.shape(getattr(d, k)) == (0,))
    cx.ensure_true("no jacobians", np.shape(d.jacobian_data.jacobians) ==
                   (0, 11, 11) and np.shape(d.jacobian_data.angles) == (0,))
    a, b = C.InternalData(), C.InternalData()
    cx.ensure_true("records are their own", a.derivs is not b.derivs and
                   a.problems is not b.problems and
                   a.jacobian_data is not b.jacobian_data)
