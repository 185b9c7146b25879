"""Wave speeds, Mach numbers and critical points."""
import numpy as np

from disc_solver import critical_points as CP
from disc_solver import utils as U
from disc_solver.utils import ODEIndex as O, MHD_Wave_Index as W

from dv.api import registry
from dv.jet import sqrt
from . import common as P
from . import models

PROPERTY = "C12"
CONTRACTS, contract = registry()
ASSUMPTIONS = [models.INTERP]


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def table(cx, name="soln", minlen=1):
    return cx.vec(name, cols=11, minlen=minlen)


@contract("wave speeds of a state",
          ["critical_points.mhd_wave_speeds"])
def speeds(cx):
    x = P.state(cx, "")
    v = P.F(x)
    a_0, c = cx.real("a_0", pos=True), cx.real("sound_speed", pos=True)
    default = cx.choice("sound speed", ["given", "default"])
    if default == "default":
        c = 1
        out = CP.mhd_wave_speeds(values=x, a_0=a_0)
    else:
        out = CP.mhd_wave_speeds(values=x, a_0=a_0, sound_speed=c)
    slow, alfven, fast = out[W.slow], out[W.alfven], out[W.fast]
    v_a = a_0 * (v.B_r ** 2 + v.B_θ ** 2 + v.B_φ ** 2) / v.ρ
    cx.ensure_eq("Alfvén speed along θ", alfven, a_0 * v.B_θ ** 2 / v.ρ)
    cx.ensure_eq("sum of the magnetosonic speeds", slow + fast, c ** 2 + v_a)
    cx.ensure_zero("product of the magnetosonic speeds", slow * fast,
                   -c ** 2 * a_0 * v.B_θ ** 2 / v.ρ,
                   *([0 * slow * fast] if cx.symbolic else
                     [(c ** 2 + v_a) ** 2, -(c ** 2 + v_a) ** 2]))
    cx.ensure("slow is not faster than fast", cx.le(slow, fast))


@contract("wave speeds of a table", ["critical_points.mhd_wave_speeds"])
def speeds_table(cx):
    t = table(cx)
    a_0 = cx.real("a_0", pos=True)
    n = cx.length(t)
    i = cx.int("row", lo=0)
    cx.require(i < n)
    cx.require(0 < t[i, O.ρ])
    cx.require(0 < t[i, O.B_θ] ** 2)
    one = CP.mhd_wave_speeds(values=t[i], a_0=a_0)
    many = CP.mhd_wave_speeds(values=t, a_0=a_0)
    for w in W:
        cx.ensure_eq("number of %s speeds" % w.name, cx.length(many[w]), n)
        cx.ensure_eq("%s speed of each row" % w.name, many[w][i], one[w])


@contract("Mach numbers", ["critical_points.get_mach_numbers",
                           "critical_points.mhd_wave_speeds"])
def mach(cx):
    t = table(cx)
    a_0 = cx.real("a_0", pos=True)
    soln = NS(solution=t, initial_conditions=NS(a_0=a_0))
    i = cx.int("row", lo=0)
    cx.require(i < cx.length(t))
    cx.require(0 < t[i, O.ρ])
    cx.require(0 < t[i, O.B_θ] ** 2)
    one = CP.mhd_wave_speeds(values=t[i], a_0=a_0)
    cx.require(0 < one[W.slow])
    cx.require(0 < one[W.fast])
    out = CP.get_mach_numbers(soln)
    v_θ = t[i, O.v_θ]
    for name, k, w in (("slow", 0, W.slow), ("Alfvén", 2, W.alfven),
                       ("fast", 3, W.fast)):
        m = out[k][i]
        cx.ensure_eq(name + " Mach number", m ** 2 * one[w], v_θ ** 2)
        cx.ensure(name + " Mach number not negative", cx.le(0, m))
    cx.ensure_eq("sonic Mach number", out[1][i], v_θ)


def crossing(cx, m, i):
    """i is the first row at or past 1, coming from the side of row 0."""
    n = cx.length(m)
    below = m[0] < 1
    above = m[0] > 1
    if i is None:
        cx.ensure("none only if never reached", cx.forall_int(
            lambda k: U_and(cx, cx.imply(below, m[k] < 1),
                            cx.imply(above, m[k] > 1)), 0, n))
        cx.ensure("none only if not at 1 already", neq(cx, m[0], 1))
        return
    cx.ensure("index in range", U_and(cx, cx.le(0, i), i < n))
    cx.ensure("reached from below", cx.imply(below, cx.le(1, m[i])))
    cx.ensure("reached from above", cx.imply(above, cx.le(m[i], 1)))
    cx.ensure("not reached before", cx.forall_int(
        lambda k: U_and(cx, cx.imply(below, m[k] < 1),
                        cx.imply(above, m[k] > 1)), 0, i))
    if not below and not above:
        cx.ensure("already there", cx.eq(i, 0))


def U_and(cx, a, b):
    if cx.symbolic:
        return a & b
    return bool(a) and bool(b)


def neq(cx, a, b):
    return ~(a == b) if cx.symbolic else bool(a != b)


@contract("first index past a value", ["utils.first_closest_index"])
def closest(cx):
    m = cx.vec("values", minlen=1)
    shift = cx.real("value")
    out = U.first_closest_index(m, shift)
    crossing(cx, m - shift + 1, out)


@contract("interpolated crossing", ["utils.interp_for_value",
                                    "utils.first_closest_index"])
def interp(cx):
    models.install_interp(cx)
    n = cx.int("n", lo=1, hi=None if cx.symbolic else 8)
    ys, xs = cx.vec("ys", n), cx.vec("xs", n)
    y = cx.real("y")
    out = U.interp_for_value(xs=xs, ys=ys, y=y)
    at_crossing(cx, "", xs, ys, y, out)


def at_crossing(cx, name, xs, ys, y, out):
    n = cx.length(ys)
    below, above = ys[0] < y, ys[0] > y

    def same_side(k):
        return U_and(cx, cx.imply(below, ys[k] < y),
                     cx.imply(above, ys[k] > y))
    if out is None:
        cx.ensure(name + "none only if never crossed", U_and(
            cx, neq(cx, ys[0], y), cx.forall_int(same_side, 0, n)))
        return
    # the row at which the crossing is complete (contract of the callee)
    if cx.symbolic:
        i = U.first_closest_index(ys, y)
        if i is None:
            cx.ensure(name + "nothing without a crossing", False)
            return
    else:
        i = next(k for k in range(n) if not same_side(k))
    if bool(below) or bool(above):
        cx.ensure_zero(
            name + "on the line between the two rows",
            (ys[i] - ys[i - 1]) * out, -(ys[i] - ys[i - 1]) * xs[i - 1],
            -(xs[i] - xs[i - 1]) * (y - ys[i - 1]))
    else:
        cx.ensure_eq(name + "the first row", out, xs[0])


NAMES = ["slow", "sonic", "Alfvén", "fast"]


def machs(cx):
    """A solution and its four Mach numbers."""
    if cx.symbolic:
        n = cx.int("n", lo=1)
        ms = [cx.vec("mach_" + k, n) for k in NAMES]
        cx.stub(CP.get_mach_numbers, lambda s: tuple(ms))
        return NS(angles=cx.vec("angles", n)), ms
    n = cx.int("n", lo=1, hi=9)
    t = cx.vec("soln", n, cols=11)
    t[:, O.ρ] = abs(t[:, O.ρ]) + .1
    t[:, O.B_θ] = abs(t[:, O.B_θ]) + .1
    s = NS(angles=cx.vec("angles", n), solution=t,
           initial_conditions=NS(a_0=cx.real("a_0", pos=True)))
    c = CP.mhd_wave_speeds(values=t, a_0=s.initial_conditions.a_0)
    v = abs(t[:, O.v_θ])
    return s, [v / np.sqrt(c[0]), t[:, O.v_θ], v / np.sqrt(c[1]),
               v / np.sqrt(c[2])]


@contract("critical point indices",
          ["critical_points.get_critical_point_indices"], weak=True)
def indices(cx):
    s, ms = machs(cx)
    if cx.symbolic:
        calls = []

        def callee(a, val):
            calls.append((a, val, object()))
            return calls[-1][2]
        cx.stub(U.first_closest_index, callee)
        out = CP.get_critical_point_indices(s)
        cx.ensure("four indices", len(out) == 4)
        for m, r, name in zip(ms, out, NAMES):
            hit = [c for c in calls if c[2] is r]
            cx.ensure(name + ": from the search", len(hit) == 1)
            cx.ensure_vec_eq(name + ": its Mach number", hit[0][0], m)
            cx.ensure_eq(name + ": against one", hit[0][1], 1)
        return
    out = CP.get_critical_point_indices(s)
    for m, r in zip(ms, out):
        crossing(cx, m, r)


@contract("critical points", ["critical_points.get_all_sonic_points"],
          weak=True)
def points(cx):
    s, ms = machs(cx)
    calls = []
    if cx.symbolic:
        def callee(*, xs, ys, y, **kw):
            cx.ensure("plain interpolation", not kw)
            calls.append((xs, ys, y, object()))
            return calls[-1][3]
        cx.stub(U.interp_for_value, callee)
    out = CP.get_all_sonic_points(s)
    cx.ensure("four points", len(out) == 4)
    for m, r, name in zip(ms, out, NAMES):
        exceeds = cx.exists_int(lambda k: m[k] > 1, 0, cx.length(m))
        if not exceeds:
            cx.ensure(name + ": nothing when one is not exceeded", r is None)
        elif cx.symbolic:
            hit = [c for c in calls if c[3] is r]
            cx.ensure(name + ": from the interpolation", len(hit) == 1)
            cx.ensure_vec_eq(name + ": angles", hit[0][0], s.angles)
            cx.ensure_vec_eq(name + ": its Mach number", hit[0][1], m)
            cx.ensure_eq(name + ": at one", hit[0][2], 1)
        else:
            at_crossing(cx, name + ": ", s.angles, m, 1, r)
