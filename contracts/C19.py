"""How one flow is put together from the parts that are integrated."""
import inspect

import numpy as np
from scikits.odes.sundials import (
    CVODESolveFailed, CVODESolveFoundRoot, CVODESolveReachedTSTOP)
from scikits.odes.sundials.cvode import (
    SolverReturn, SolverVariables, StatusEnum)

from disc_solver.file_format import _containers as C
from disc_solver.solve import solution as S
from disc_solver.solve.utils import SolverError
from disc_solver.solve.deriv_midplane import (
    get_taylor_first_order, get_taylor_second_order, get_taylor_third_order)
from disc_solver.utils import ODEIndex as O, deduplicate_and_interpolate

from dv.api import registry
from . import common as P
from .C03 import continued
from .C05 import FIELDS

PROPERTY = "C19"
CONTRACTS, contract = registry()
ASSUMPTIONS = [
    "CVODE (scikits.odes): solve(angles, start) returns rows for an "
    "increasing, non-empty sequence of angles beginning with the start, or "
    "raises one of its three exceptions with such rows attached; it calls "
    "the equations and the root function any number of times",
    "solve.solution.ode_system by contract (C01): the equations are a "
    "function of their arguments; each evaluation is recorded in the "
    "internal data it returned",
    "angles are not rescaled (θ_scale = 1, which every caller uses)"]

ONE = ("angles", "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor",
       "v_φ_taylor", "ρ_taylor")


class Thing:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __call__(self, *a):
        raise AssertionError("not to be called")


class World:
    """Stands in for the equations and the integrator, remembering calls."""

    def __init__(self, cx, outcomes=None, evaluations=2, at=None):
        self.cx = cx
        self.systems = []
        self.at = at
        self.solves = []
        self.interps = []
        self.outcomes = outcomes
        self.evaluations = evaluations
        sig = inspect.signature(S.ode_system)

        def ode_system(**kw):
            b = sig.bind(**kw)
            b.apply_defaults()
            rec = dict(b.arguments)
            n = len(self.systems)
            data = C.InternalData() if rec["store_internal"] else None
            rec["data"], rec["points"] = data, []

            def rhs(x, params, derivs):
                i = len(rec["points"])
                row = [cx.real("f%d.%d %s" % (n, i, k), nonzero=k == "v_θ")
                       for k in P.NAMES]
                rec["points"].append((x, params, row))
                for j in range(11):
                    derivs[j] = row[j]
                if data is not None:
                    data.derivs.append(cx.real_array(row))
                    data.params.append(params)
                    for k in ONE[1:]:
                        getattr(data, k).append(
                            cx.real("%s%d.%d" % (k, n, i)))
                    data.angles.append(x)
                    data.problems[.125 * (i + 1)].append("part %d" % n)
                return 0
            rec["rhs"] = rhs
            self.systems.append(rec)
            return rhs, data
        cx.stub(S.ode_system, ode_system)
        world = self

        class Solver:
            def __init__(self, integrator, rhs, **options):
                self.rhs, self.options = rhs, options
                self.integrator = integrator

            def solve(self, angles, start):
                return world.solve(self, angles, start)
        cx.stub(S.ode, Solver)

    def solve(self, solver, angles, start):
        cx = self.cx
        n = len(self.solves)
        t = cx.sorted_vec("t%d" % n, minlen=1, first=angles[0])
        m = cx.length(t)
        y = cx.vec("y%d" % n, n=m, cols=11)
        if cx.symbolic:
            for j in range(11):
                cx.require(cx.eq(y[0, j], start[j]))
        else:
            y[0] = start
        rec = dict(solver=solver, angles=angles, start=start, t=t, y=y,
                   options=solver.options, system=next(
                       s for s in self.systems if s["rhs"] is solver.rhs))
        self.solves.append(rec)
        for i in range(self.evaluations):
            solver.rhs(cx.real("x%d.%d" % (n, i)), cx.real_array(
                [cx.real("p%d.%d %s" % (n, i, k)) for k in P.NAMES]),
                [None] * 11)
        outcome = self.outcomes[n] if self.outcomes else cx.choice(
            "outcome %d" % n, ["reached the end", "root", "tstop", "failed",
                               "too close"])
        rec["outcome"] = outcome
        at = self.at if self.at is not None else cx.real("stopped at %d" % n)
        yt = cx.real_array([cx.real("stopped %d %s" % (n, k))
                            for k in P.NAMES])
        one = SolverVariables(t=cx.real_array([at]),
                              y=[yt] if cx.symbolic else np.array([yt]))
        none = SolverVariables(t=None, y=None)
        rec["stop"] = at, yt
        rec["one"] = one
        flags = {"reached the end": StatusEnum.SUCCESS,
                 "root": StatusEnum.ROOT_RETURN,
                 "tstop": StatusEnum.TSTOP_RETURN,
                 "failed": StatusEnum.TOO_MUCH_WORK,
                 "too close": StatusEnum.TOO_CLOSE}
        rec["flag"] = flags[outcome]
        err = cx.real("failed at")
        soln = SolverReturn(
            flag=flags[outcome], values=SolverVariables(t=t, y=y),
            errors=SolverVariables(t=err, y=yt) if outcome in (
                "failed", "too close") else none,
            roots=one if outcome == "root" else none,
            tstop=one if outcome == "tstop" else none, message="message")
        rec["soln"] = soln
        if outcome == "reached the end":
            return soln
        e = {"root": CVODESolveFoundRoot, "tstop": CVODESolveReachedTSTOP,
             "failed": CVODESolveFailed, "too close": CVODESolveFailed}[
                 outcome]
        x = e.__new__(e)
        x.soln = soln
        raise x


def setting(cx, more=[]):
    """What describes the problem, and how it is integrated"""
    η_derivs, use_E_r = cx.choice("η_derivs, use_E_r", [
        (True, False), (False, True)] + more)
    return dict(
        γ=cx.real("γ"), a_0=cx.real("a_0"),
        norm_kepler_sq=cx.real("norm_kepler_sq", pos=True),
        relative_tolerance=cx.real("rtol"),
        absolute_tolerance=cx.real("atol"), max_steps=cx.int("max_steps"),
        η_derivs=η_derivs, use_E_r=use_E_r)


def same_problem(cx, name, rec, s, ic, with_taylor, store):
    q = rec["system"]
    for k in ("γ", "a_0", "norm_kepler_sq"):
        cx.ensure_eq("%s: %s" % (name, k), q[k], s[k])
    for k in ("η_derivs", "use_E_r"):
        cx.ensure_true("%s: %s" % (name, k), q[k] is s[k])
    for j in range(11):
        cx.ensure_eq("%s: the conditions on the midplane" % name,
                     q["init_con"][j], ic[j])
    cx.ensure_true("%s: series or equations" % name,
                   bool(q["with_taylor"]) is with_taylor)
    cx.ensure_true("%s: recording" % name, bool(q["store_internal"]) is store)
    cx.ensure_true("%s: scale" % name, q["θ_scale"] == 1)
    o = rec["options"]
    cx.ensure_eq("%s: relative tolerance" % name, o["rtol"],
                 s["relative_tolerance"])
    cx.ensure_eq("%s: absolute tolerance" % name, o["atol"],
                 s["absolute_tolerance"])
    cx.ensure_eq("%s: steps" % name, o["max_steps"], s["max_steps"])
    cx.ensure_true("%s: solution objects" % name, o.get("old_api") is False)


def same_vec(cx, name, a, b):
    if a is b:
        cx.ensure_true(name, True)
        return
    n = cx.length(b)
    cx.ensure_eq(name + ", length", cx.length(a), n)
    cx.ensure(name, cx.forall_int(lambda i: cx.eq(a[i], b[i]), 0, n))


def every(cx, conds):
    r = conds[0]
    for c in conds[1:]:
        r = (r & c) if cx.symbolic else bool(r) and bool(c)
    return r


def rows(cx, name, angles, table, parts):
    """angles and rows are those of the parts, one after the other"""
    total = cx.length(parts[0][0])
    for t, y in parts[1:]:
        total = total + cx.length(t)
    cx.ensure_eq(name + ": number of angles", cx.length(angles), total)
    cx.ensure_eq(name + ": number of rows", cx.length(table), total)
    off = 0
    for k, (t, y) in enumerate(parts):
        n = cx.length(t)
        if isinstance(t, np.ndarray) and cx.symbolic:
            for i in range(len(t)):
                cx.ensure_eq("%s: angles of part %d" % (name, k),
                             angles[off + i], t[i])
                for j in range(11):
                    cx.ensure_eq("%s: rows of part %d" % (name, k),
                                 table[off + i, j], y[i, j])
            off = off + n
            continue
        cx.ensure("%s: rows of part %d" % (name, k), cx.forall_int(
            lambda i: every(cx, [cx.eq(angles[off + i], t[i])] + [
                cx.eq(table[off + i, j], y[i, j]) for j in range(11)]), 0, n))
        off = off + n


def recorded(cx, name, data, systems):
    """the internal data are those of the systems, one after the other"""
    if data is None:
        cx.ensure_true(name + ": recorded", False)
        return
    points = [p for s in systems for p in s["points"]]
    cx.ensure_true(name + ": evaluations", len(data.angles) == len(points))
    for k in ("derivs", "params") + ONE:
        cx.ensure_true("%s: evaluations (%s)" % (name, k),
                       len(getattr(data, k)) == len(points))
    if any(len(getattr(data, k)) != len(points) for k in (
            "derivs", "params") + ONE):
        return
    names = [(i, j) for i, s in enumerate(systems)
             for j in range(len(s["points"]))]
    for n, (x, params, row) in enumerate(points):
        cx.ensure_eq(name + ": angle", data.angles[n], x)
        for j in range(11):
            cx.ensure_eq(name + ": values", data.params[n][j], params[j])
            cx.ensure_eq(name + ": derivatives", data.derivs[n][j], row[j])


SOLVE = ["solve.solution.main_solution", "solve.utils.velocity_stop_generator",
         "solve.utils.rad_to_scaled", "solve.utils.scaled_to_rad"]


@contract("one integration", SOLVE)
def one(cx):
    w = World(cx)
    s = setting(cx)
    store = cx.choice("store_internal", [True, False])
    ic, start = P.state(cx, "0"), P.state(cx, "start ")
    angles = cx.sorted_vec("angles")
    size = cx.real("size", pos=True)
    onroot, ontstop, root, speed = [Thing(k) for k in (
        "onroot", "ontstop", "root", "speed")]
    kw = dict(cx.choice("stopping", [
        dict(), dict(jump_before_sonic=size), dict(sonic_interp_size=size),
        dict(root_func=root, root_func_args=3), dict(root_func=root),
        dict(root_func=root, root_func_args=1, onroot_func=onroot),
        dict(onroot_func=onroot),
        dict(jump_before_sonic=size, onroot_func=onroot),
        dict(sonic_interp_size=size, jump_before_sonic=size),
        dict(sonic_interp_size=size, root_func=root, root_func_args=1),
        dict(jump_before_sonic=size, root_func=root, root_func_args=1)]))
    kw.update(cx.choice("speed", [
        dict(), dict(deriv_v_θ_func=speed, ontstop_func=ontstop,
                     tstop=cx.real("stop"))]))
    tstop = kw.get("tstop")
    status, r = cx.attempt(
        S.main_solution, angles=angles, system_initial_conditions=ic,
        ode_initial_conditions=start, store_internal=store,
        **s, **kw)
    refused = status == "raise" and isinstance(r, SolverError)
    ways = sum(k in kw for k in ("jump_before_sonic", "sonic_interp_size",
                                 "root_func"))
    if ways > 1 or ("jump_before_sonic" in kw and "onroot_func" in kw):
        cx.ensure_true("two ways to stop are refused", refused)
        return
    if "root_func" in kw and "root_func_args" not in kw:
        cx.ensure_true("a root function without its size is refused",
                       refused)
        return
    if "sonic_interp_size" in kw and not store:
        cx.ensure_true("crossing from nothing recorded is refused", refused)
        return
    if not w.solves:
        cx.ensure("angles to solve at", cx.length(angles) < 2)
        cx.ensure_true("too few angles are refused", refused)
        return
    cx.ensure("at least two angles", cx.length(angles) >= 2)
    rec, = w.solves
    same_problem(cx, "problem", rec, s, ic, False, store)
    q, o = rec["system"], rec["options"]
    cx.ensure_true("derivative of the polar velocity",
                   q["deriv_v_θ_func"] is kw.get("deriv_v_θ_func"))
    same_vec(cx, "angles", rec["angles"], angles)
    for j in range(11):
        cx.ensure_eq("start", rec["start"][j], start[j])
    cx.ensure_true("what happens at a root",
                   o.get("onroot") is kw.get("onroot_func"))
    cx.ensure_true("what happens at the end",
                   o.get("ontstop") is kw.get("ontstop_func"))
    if tstop is None:
        cx.ensure_true("no last angle", o.get("tstop") is None)
    else:
        cx.ensure_eq("last angle", o.get("tstop"), tstop)
    if ways == 0:
        cx.ensure_true("no root", not o.get("nr_rootfns"))
    elif "root_func" in kw:
        cx.ensure_true("root", o["rootfn"] is root and
                       o["nr_rootfns"] == kw["root_func_args"])
    else:
        cx.ensure_true("one root", o["nr_rootfns"] == 1)
        out = [None]
        at = P.state(cx, "root ")
        cx.ensure_eq("root function goes on",
                     o["rootfn"](cx.real("θ"), at, out), 0)
        cx.ensure_eq("root below the sound speed", out[0],
                     1 - size - at[O.v_θ])
    if rec["outcome"] == "too close":
        cx.ensure_true("no room to integrate", status == "raise" and
                       isinstance(r, CVODESolveFailed))
        return
    cx.ensure_true("solved", status == "ok")
    if status != "ok":
        return
    cx.ensure_true("what the integrator returned", r[0] is rec["soln"])
    if store:
        recorded(cx, "record", r[1], [q])
    else:
        cx.ensure_true("nothing recorded", r[1] is None)


@contract("integrating the series", ["solve.solution.taylor_solution"])
def taylor(cx):
    h = cx.real("taylor_stop_angle", pos=True)
    # CVODE stops at the angle it was told to
    w = World(cx, at=h)
    s = setting(cx)
    store = s["use_E_r"]
    ic = P.state(cx, "0")
    angles = cx.sorted_vec("angles", minlen=2, first=0 * h)
    n = cx.length(angles)
    if not cx.symbolic:
        h = w.at = angles[0] * .3 + angles[n - 1] * .7
    cx.require(h < angles[n - 1])
    status, r = cx.attempt(
        S.taylor_solution, angles=angles, init_con=ic, taylor_stop_angle=h,
        store_internal=store, **s)
    rec, = w.solves
    same_problem(cx, "problem", rec, s, ic, True, store)
    same_vec(cx, "angles", rec["angles"], angles)
    for j in range(11):
        cx.ensure_eq("start", rec["start"][j], ic[j])
    cx.ensure_eq("stops at the end of the series", rec["options"]["tstop"], h)
    if rec["outcome"] == "root":
        cx.ensure_true("no roots asked for",
                       not rec["options"].get("nr_rootfns"))
        return
    if rec["outcome"] != "tstop":
        cx.ensure_true("not reaching the end is refused", status == "raise"
                       and isinstance(r, SolverError))
        return
    cx.ensure_true("solved", status == "ok")
    if status != "ok":
        return
    rows(cx, "recorded", r.angles, r.params, [(rec["t"], rec["y"])])
    for j in range(11):
        cx.ensure_eq("continued from the values there",
                     r.new_initial_conditions[j], rec["stop"][1][j])
    continued(cx, r, angles, n, h)
    if store:
        recorded(cx, "record", r.internal_data, [rec["system"]])
    else:
        cx.ensure_true("nothing recorded", r.internal_data is None)


def later(cx, name, a, angles, start, order=True):
    """a is start, then every angle of the grid after it"""
    m, n = cx.length(a), cx.length(angles)
    cx.ensure_eq(name + ": continued from there", a[0], start)
    if order:
        cx.ensure(name + ": increasing angles, none repeated",
                  cx.is_sorted(a))
    cx.ensure(name + ": every later angle of the grid is kept", cx.forall_int(
        lambda i: cx.imply(angles[i] > start, cx.exists_int(
            lambda k: cx.eq(a[k], angles[i]), 1, m)), 0, n))
    cx.ensure(name + ": only angles of the grid are added", cx.forall_int(
        lambda k: cx.exists_int(lambda i: cx.eq(a[k], angles[i]), 0, n),
        1, m))


@contract("jumping over the sonic point", [
    "solve.solution.jump_across_sonic"])
def jump(cx):
    w = World(cx)
    s = setting(cx)
    for k in ("relative_tolerance", "absolute_tolerance", "max_steps"):
        del s[k]
    ic = P.state(cx, "0")
    angles = cx.sorted_vec("angles", minlen=2)
    t = cx.sorted_vec("t", minlen=1, first=angles[0])
    m = cx.length(t)
    y = cx.vec("y", n=m, cols=11)
    before = cx.real("before", pos=True)
    after = cx.choice("after", [None, cx.real("after size", pos=True)])
    r = S.jump_across_sonic(
        base_solution=SolverReturn(
            flag=StatusEnum.ROOT_RETURN, values=SolverVariables(t=t, y=y),
            errors=SolverVariables(t=None, y=None),
            roots=SolverVariables(t=None, y=None),
            tstop=SolverVariables(t=None, y=None), message=""),
        angles=angles, system_initial_conditions=ic,
        jump_before_sonic=before, jump_after_sonic=after, **s)
    q, = w.systems
    for k in ("γ", "a_0", "norm_kepler_sq"):
        cx.ensure_eq("same problem: " + k, q[k], s[k])
    cx.ensure_true("same problem: settings", all(
        q[k] is s[k] for k in ("η_derivs", "use_E_r")) and
        not q["with_taylor"] and q["deriv_v_θ_func"] is None)
    for j in range(11):
        cx.ensure_eq("same problem: midplane", q["init_con"][j], ic[j])
    cx.ensure_true("one evaluation", len(q["points"]) == 1)
    x, params, f = q["points"][0]
    cx.ensure_eq("evaluated at the last angle", x, t[m - 1])
    size = before + (before if after is None else after)
    dθ = size / f[O.v_θ]
    for j in range(11):
        cx.ensure_eq("evaluated at the last values", params[j], y[m - 1, j])
        cx.ensure_eq("a straight step", r[1][j], y[m - 1, j] + dθ * f[j])
    cx.ensure_eq("polar velocity steps over the sound speed", r[1][O.v_θ],
                 y[m - 1, O.v_θ] + size)
    later(cx, "angles", r[0], angles, t[m - 1] + dθ)


@contract("crossing by interpolation", ["solve.solution.interp_cross_sonic"])
def crossing(cx):
    fails = cx.choice("interpolation", ["works", "fails"])
    made, speed = [], Thing("speed")

    def interpolate(x, y, **kw):
        made.append((x, y, kw))
        if fails == "fails":
            raise ValueError("no interpolation")
        return speed
    cx.stub(deduplicate_and_interpolate, interpolate)
    cut = cx.choice("slice", [slice(-3, -1), slice(1, None)])
    w = World(cx, None if cut.stop else ["root"])
    s = setting(cx)
    store = s["use_E_r"]
    ic = P.state(cx, "0")
    angles = cx.sorted_vec("angles", minlen=2)
    n = cx.length(angles)
    t = cx.sorted_vec("t", minlen=1, first=angles[0])
    m = cx.length(t)
    y = cx.vec("y", n=m, cols=11)
    data = C.InternalData()
    points = []
    for i in range(4):
        row = [cx.real("d%d %s" % (i, k)) for k in P.NAMES]
        points.append((cx.real("x%d" % i), row))
        data.angles.append(points[-1][0])
        data.derivs.append(cx.real_array(row))
        data.params.append(cx.real_array(row))
        for k in ONE[1:]:
            getattr(data, k).append(points[-1][0])
    data._finalise()
    after = cx.real("after", pos=True)
    status, r = cx.attempt(
        S.interp_cross_sonic,
        base_solution=SolverReturn(
            flag=StatusEnum.ROOT_RETURN, values=SolverVariables(t=t, y=y),
            errors=SolverVariables(t=None, y=None),
            roots=SolverVariables(t=None, y=None),
            tstop=SolverVariables(t=None, y=None), message=""),
        angles=angles, system_initial_conditions=ic, after_sonic=after,
        base_internal_data=data, store_internal=store, interp_slice=cut, **s)
    cx.ensure_true("one interpolation", len(made) == 1)
    x, v, kw = made[0]
    want = points[cut]
    cx.ensure_true("chosen points", len(x) == len(want) == len(v))
    if len(x) == len(want) == len(v):
        for i, (a, row) in enumerate(want):
            cx.ensure_eq("angle of the point", x[i], a)
            cx.ensure_eq("polar acceleration at the point", v[i],
                         row[O.v_θ])
    if fails == "fails":
        cx.ensure_true("nothing to continue with", status == "ok" and all(
            a is None for a in r) and not w.solves)
        return
    if not w.solves:
        cx.ensure("too few angles left", cx.forall_int(
            lambda i: cx.imply(angles[i] >= t[m - 1], cx.eq(i, n - 1)), 0, n))
        cx.ensure_true("too few angles refused", status == "raise" and
                       isinstance(r, SolverError))
        return
    rec, = w.solves
    same_problem(cx, "problem", rec, s, ic, False, store)
    q, o = rec["system"], rec["options"]
    cx.ensure_true("imposed acceleration", q["deriv_v_θ_func"] is speed)
    for j in range(11):
        cx.ensure_eq("start", rec["start"][j], y[m - 1, j])
    a = rec["angles"]
    cx.ensure("angles of the grid from there", cx.forall_int(
        lambda i: cx.imply(angles[i] >= t[m - 1], cx.exists_int(
            lambda k: cx.eq(a[k], angles[i]), 0, cx.length(a))), 0, n))
    cx.ensure("only those", cx.forall_int(
        lambda k: cx.exists_int(lambda i: cx.eq(a[k], angles[i]), 0, n),
        0, cx.length(a)))
    cx.ensure("from there on", cx.forall_int(
        lambda k: cx.le(t[m - 1], a[k]), 0, cx.length(a)))
    cx.ensure("increasing angles", cx.is_sorted(a))
    cx.ensure_true("one root", o["nr_rootfns"] == 1)
    out, at = [None], P.state(cx, "root ")
    o["rootfn"](cx.real("θ"), at, out)
    cx.ensure_eq("root above the sound speed", out[0],
                 1 + after - at[O.v_θ])
    if rec["outcome"] == "too close":
        cx.ensure_true("no room to integrate", status == "raise" and
                       isinstance(r, CVODESolveFailed))
        return
    cx.ensure_true("crossed", status == "ok")
    if status != "ok":
        return
    cx.ensure_true("what the integrator returned", r[0] is rec["soln"])
    if store:
        recorded(cx, "record", r[1], [q])
    else:
        cx.ensure_true("nothing recorded", r[1] is None)
    last = cx.length(rec["t"])
    for j in range(11):
        cx.ensure_eq("goes on from the end", r[3][j], rec["y"][last - 1, j])
    later(cx, "angles", r[2], angles, rec["t"][last - 1])


def starts(cx, name, rec, want):
    for j in range(11):
        cx.ensure_eq(name, rec["start"][j], want[j])


def rising(cx, rec):
    """the sonic root function of an integration"""
    o = rec["options"]
    if o.get("nr_rootfns") != 1 or not callable(o.get("rootfn")):
        return None
    out, at = [None], P.state(cx, "root ")
    o["rootfn"](cx.real("θ"), at, out)
    return out[0] + at[O.v_θ]


def assembled(cx, sonic):
    made, speed = [], Thing("speed")
    how, works = cx.choice("leaving the midplane, interpolation works", [
        ("series", True), ("integrated series", True), ("no series", True),
        ("modified", True)] + [("series", False)] * (
            sonic == "interpolation"))

    def interpolate(x, y, **kw):
        made.append((list(x), list(y)))
        if not works:
            raise ValueError("no interpolation")
        return speed
    cx.stub(deduplicate_and_interpolate, interpolate)
    end = cx.choice("first integration", ["root", "tstop"] if sonic != "none"
                    else ["reached the end", "root", "tstop", "failed"])
    s = setting(cx)
    store = s["use_E_r"] or sonic == "interpolation"
    angles = cx.sorted_vec("angles", minlen=2, first=0 * s["γ"])
    n = cx.length(angles)
    ic = P.state(cx, "0")
    h = deg = None
    if how in ("series", "integrated series"):
        deg = cx.real("taylor_stop_angle", pos=True)
        if not cx.symbolic:
            deg = np.degrees(.6 * angles[n - 1])
        h = deg * (np.pi / 180)
        cx.require(h < angles[n - 1])
    w = World(cx, (["tstop"] if how == "integrated series" else []) +
              [end] + ["reached the end"] * 2, evaluations=1, at=h)
    f, g, k3 = [P.state(cx, p, positive=()) for p in "123"]
    cx.stub(get_taylor_first_order, lambda **kw: f)
    cx.stub(get_taylor_second_order, lambda **kw: g)
    cx.stub(get_taylor_third_order, lambda **kw: k3)
    size = None if sonic == "none" else cx.real("size", pos=True)
    after = None if sonic == "none" or s["η_derivs"] else cx.real(
        "after size", pos=True)
    values = {k: None for k in FIELDS if k != "label"}
    values.update(
        γ=s["γ"], use_taylor_jump=how == "series", after_sonic=after,
        jump_before_sonic=size if sonic == "jump" else None,
        sonic_interp_size=size if sonic == "interpolation" else None,
        taylor_stop_angle=deg, interp_slice=slice(0, 1),
        **{k: s[k] for k in (
            "relative_tolerance", "absolute_tolerance", "max_steps",
            "η_derivs", "use_E_r")})
    inp = C.SolutionInput(**values)
    cond = C.InitialConditions(
        norm_kepler_sq=s["norm_kepler_sq"], γ=s["γ"], a_0=s["a_0"],
        init_con=ic, angles=angles)
    kw, modified = {}, None
    if how in ("no series", "modified"):
        kw["with_taylor"] = False
    first, grid = ic, angles
    if how == "modified":
        first = P.state(cx, "modified ")
        grid = cx.sorted_vec("modified angles", minlen=2)
        modified = kw["modified_initial_conditions"] = C.InitialConditions(
            norm_kepler_sq=cx.real("other kepler", pos=True), γ=cx.real(
                "other γ"), a_0=cx.real("other a_0"), init_con=first,
            angles=grid)
    funcs = dict(tstop=cx.real("stop"), ontstop_func=Thing("ontstop"))
    if sonic == "none":
        funcs.update(root_func=Thing("root"), root_func_args=2,
                     onroot_func=Thing("onroot"))
    elif sonic == "interpolation":
        funcs["onroot_func"] = Thing("onroot")
    if cx.choice("shock", [True, False]) if sonic == "none" else False:
        kw["is_post_shock_only"] = True
    status, r = cx.attempt(
        S.solution, inp, cond, store_internal=store, **funcs, **kw)

    solves = list(w.solves)
    parts, systems = [], []
    if how == "integrated series":
        rec = solves.pop(0)
        same_problem(cx, "series", rec, s, ic, True, store)
        starts(cx, "series: start", rec, ic)
        same_vec(cx, "series: angles", rec["angles"], angles)
        cx.ensure_eq("series: end", rec["options"]["tstop"], h)
        parts.append((rec["t"], rec["y"]))
        systems.append(rec["system"])
        first = rec["stop"][1]
    elif how == "series":
        z = 0 * h
        parts.append((cx.real_array([z]), cx.real_array([ic[j] for j in range(
            11)]).reshape(1, 11)))
        first = [ic[j] + h * f[j] + h ** 2 / 2 * g[j] + h ** 3 / 6 * k3[j]
                 for j in range(11)]
    main = solves.pop(0)
    same_problem(cx, "main", main, s, ic, False, store)
    starts(cx, "main: start", main, first)
    q, o = main["system"], main["options"]
    cx.ensure_true("main: free acceleration", q["deriv_v_θ_func"] is None)
    if h is None:
        same_vec(cx, "main: angles", main["angles"], grid)
    else:
        later(cx, "main", main["angles"], angles, h, order=False)

    def stops(name, rec, root):
        o = rec["options"]
        cx.ensure_eq(name + ": last angle", o.get("tstop"), funcs["tstop"])
        cx.ensure_true(name + ": at the last angle", o.get(
            "ontstop") is funcs["ontstop_func"])
        cx.ensure_true(name + ": at a root", o.get("onroot") is funcs.get(
            "onroot_func"))
        if root is None:
            cx.ensure_true(name + ": no roots", not o.get("nr_rootfns"))
        elif root == "given":
            cx.ensure_true(name + ": roots", o["rootfn"] is funcs[
                "root_func"] and o["nr_rootfns"] == 2)
        else:
            v = rising(cx, rec)
            cx.ensure_true(name + ": one root", v is not None)
            if v is not None:
                cx.ensure_eq(name + ": root", v, root)
    stops("main", main, "given" if sonic == "none" else 1 - size)
    parts.append((main["t"], main["y"]))
    systems.append(main["system"])
    m = cx.length(main["t"])
    grid = main["angles"]

    if sonic == "interpolation":
        cx.ensure_true("one interpolation", len(made) == 1)
        x, row = systems[0]["points"][0][0], systems[0]["points"][0][2]
        ok = len(made[0][0]) == 1 == len(made[0][1])
        cx.ensure_true("chosen records", ok)
        if ok:
            cx.ensure_eq("chosen records: angle", made[0][0][0], x)
            cx.ensure_eq("chosen records: acceleration", made[0][1][0],
                         row[O.v_θ])
        if works and not solves:
            # only without angles left: see "crossing by interpolation"
            cx.ensure_true("refused", status == "raise" and isinstance(
                r, SolverError))
            return
        if works:
            cross = solves.pop(0)
            same_problem(cx, "crossing", cross, s, ic, False, store)
            starts(cx, "crossing: start", cross, [
                main["y"][m - 1, j] for j in range(11)])
            cx.ensure_true("crossing: imposed acceleration", cross["system"][
                "deriv_v_θ_func"] is speed)
            v = rising(cx, cross)
            cx.ensure_true("crossing: one root", v is not None)
            if v is not None:
                cx.ensure_eq("crossing: root", v,
                             1 + (size if after is None else after))
            parts.append((cross["t"], cross["y"]))
            systems.append(cross["system"])
            k = cx.length(cross["t"])
            at = cross["t"][k - 1]
            start = [cross["y"][k - 1, j] for j in range(11)]
    elif sonic == "jump":
        over = [x for x in w.systems if len(x["points"]) and not any(
            x is y["system"] for y in w.solves)]
        cx.ensure_true("one evaluation before the jump", len(over) == 1)
        x, params, row = over[0]["points"][0]
        cx.ensure_eq("evaluated where the first part ended", x,
                     main["t"][m - 1])
        dθ = (size + (size if after is None else after)) / row[O.v_θ]
        at = x + dθ
        start = [main["y"][m - 1, j] + dθ * row[j] for j in range(11)]
    if sonic == "jump" or sonic == "interpolation" and works:
        if not solves:
            few = cx.forall_int(
                lambda i: cx.le(grid[i], at), 0, cx.length(grid))
            cx.ensure("after: only without angles left", few)
            cx.ensure_true("refused", status == "raise" and isinstance(
                r, SolverError))
            return
        rec = solves.pop(0)
        same_problem(cx, "after", rec, s, ic, False, store)
        starts(cx, "after: start", rec, start)
        cx.ensure_true("after: free acceleration",
                       rec["system"]["deriv_v_θ_func"] is None)
        later(cx, "after", rec["angles"], grid, at, order=False)
        stops("after", rec, None)
        parts.append((rec["t"], rec["y"]))
        systems.append(rec["system"])
    cx.ensure_true("nothing else is integrated", not solves)
    cx.ensure_true("solved", status == "ok")
    if status != "ok":
        return
    rows(cx, "flow", r.angles, r.solution, parts)
    if store:
        recorded(cx, "record", r.internal_data, systems)
    else:
        cx.ensure_true("nothing recorded", r.internal_data is None)
    cx.ensure_true("how it ended", r.flag is main["flag"])
    if end == "root":
        cx.ensure_eq("angle of the root", r.t_roots[0], main["stop"][0])
        for j in range(11):
            cx.ensure_eq("values at the root", r.y_roots[0][j],
                         main["stop"][1][j])
    else:
        cx.ensure_true("no root", r.t_roots is None and r.y_roots is None)
    cx.ensure_true("its input", r.solution_input is inp)
    cx.ensure_true("its conditions", r.initial_conditions is cond)
    cx.ensure_true("its coordinates",
                   r.coordinate_system == "spherical midplane 0")
    cx.ensure_true("post shock", bool(r.is_post_shock_only) is bool(
        kw.get("is_post_shock_only")))


for _sonic in ("none", "jump", "interpolation"):
    contract("the whole flow, sonic point: " + _sonic, [
        "solve.solution.solution"] + SOLVE + [
        "solve.solution.taylor_jump", "solve.solution.taylor_solution"] + (
            ["solve.solution.jump_across_sonic"] if _sonic == "jump" else
            ["solve.solution.interp_cross_sonic"]
            if _sonic == "interpolation" else []), budget=600)(
                lambda cx, a=_sonic: assembled(cx, a))


@contract("a flow that is known to be wrong", [
    "solve.solution.get_known_broken_solution",
    "solve.utils.validate_solution"], samples=.2)
def broken(cx):
    from disc_solver.solve.utils import validate_solution
    inp = Thing("input")
    r = S.get_known_broken_solution(inp)
    cx.ensure_true("its input", r.solution_input is inp)
    cx.ensure_true("no flag, conditions or records", r.flag is None and
                   r.initial_conditions is None and r.internal_data is None)
    cx.ensure_true("one row without values", np.shape(r.angles) == (1,) and
                   np.shape(r.solution) == (1, 11) and bool(
                       np.all(np.isnan(np.asarray(r.solution, float)))))
    cx.ensure_true("never taken for a valid flow",
                   not validate_solution(r)[1])
