"""Diagnostics: residuals of the equations, currents and electric fields,
statistics of a solution."""
import csv
from types import SimpleNamespace as NS

import numpy as np

from disc_solver.analyse import j_e_plot as JE
from disc_solver.analyse import stats as ST
from disc_solver.analyse import validate_plot as VP
from disc_solver.file_format import SOLUTION_INPUT_FIELDS, registries
from disc_solver.file_format import _containers as C
from disc_solver.utils import CylindricalODEIndex as K
from disc_solver.utils import ODEIndex as O

from h5preserve import open as h5open

from dv import h5model, tok
from dv.api import registry
from . import C06
from . import common as P
from .C05 import same
from .C10 import Thing
from .C15 import some_run
from .C18 import Scratch, begin, some_input

PROPERTY = "C22"
CONTRACTS, contract = registry()
ASSUMPTIONS = ["tables hold no NaN", tok.PARSE, h5model.STORE]


def fake(cx, recorded):
    """A solution with arbitrary records (or none), and what they are"""
    n = None
    angles = cx.vec("angles") if recorded else cx.sorted_vec("angles",
                                                             minlen=2)
    n = cx.length(angles)
    rows = cx.vec("rows", n=n, cols=11)
    con = NS(a_0=cx.real("a_0", pos=True), γ=cx.real("γ"),
             norm_kepler_sq=cx.real("norm_kepler_sq", pos=True))
    if recorded:
        derivs = cx.vec("derivs", n=n, cols=11)
        other = cx.sorted_vec("solution angles", minlen=1)
        s = NS(internal_data=NS(params=rows, derivs=derivs, angles=angles),
               initial_conditions=con, angles=other,
               solution=cx.vec("solution", n=cx.length(other), cols=11))
    else:
        derivs = None
        s = NS(internal_data=None, initial_conditions=con, angles=angles,
               solution=rows)
    return s, angles, rows, derivs, con


def fields(θ, v, d, γ):
    """magnitudes that must not vanish are those of the code"""
    J = P.currents(θ, v, d, γ)
    return J, P.electric(v, J, P.unit(v))


@contract("residuals are those of the equations", [
    "analyse.validate_plot.validate_continuity",
    "analyse.validate_plot.validate_solenoid",
    "analyse.validate_plot.validate_radial_momentum",
    "analyse.validate_plot.validate_azimuthal_mometum",
    "analyse.validate_plot.validate_polar_momentum",
    "analyse.validate_plot.validate_polar_induction",
    "analyse.validate_plot.validate_E_φ",
    "analyse.validate_plot.get_values",
    "analyse.validate_plot.get_E_values"])
def residuals(cx):
    s, θ, rows, derivs, con = fake(cx, True)
    x = VP.get_values(s)
    v, d = P.F(rows), P.F(derivs)
    c = x.initial_conditions
    γ, a_0 = con.γ, con.a_0
    K2 = con.norm_kepler_sq
    _, E = fields(θ, v, d, γ)
    want = {
        "continuity": ("validate_continuity", [
            t / v.ρ for t in P.continuity(θ, v, d, γ)], 1),
        "solenoid": ("validate_solenoid", P.solenoid(θ, v, d, γ), 1),
        "radial momentum": ("validate_radial_momentum", P.radial(
            θ, v, d, γ, a_0, K2), 1),
        "azimuthal momentum": ("validate_azimuthal_mometum", P.azimuthal(
            θ, v, d, γ, a_0), 1),
        "polar momentum": ("validate_polar_momentum", P.polar(
            θ, v, d, γ, a_0), 1),
        "polar induction": ("validate_polar_induction", E[2], -1),
        "E_φ": ("validate_E_φ", E[2], 1),
    }
    for k, (f, terms, sign) in want.items():
        got = getattr(VP, f)(c, x)
        if cx.symbolic:
            cx.ensure_vec_eq(k, got, sign * P.total(terms))
        else:
            cx.ensure_zero(k, -got, *[sign * t for t in terms])


@contract("currents and electric fields", [
    "analyse.validate_plot.get_values", "analyse.validate_plot.get_E_values",
    "analyse.j_e_plot.J_func", "analyse.j_e_plot.E_func",
    "solve.j_e_funcs.J_r_func", "solve.j_e_funcs.J_θ_func",
    "solve.j_e_funcs.J_φ_func", "solve.j_e_funcs.E_r_func",
    "solve.j_e_funcs.E_θ_func", "solve.j_e_funcs.E_φ_func"])
def electric(cx):
    s, θ, rows, derivs, con = fake(cx, True)
    x = VP.get_values(s)
    v, d = P.F(rows), P.F(derivs)
    J, E = fields(θ, v, d, con.γ)
    drift = (v.v_θ * v.B_φ - v.v_φ * v.B_θ, v.v_φ * v.B_r - v.v_r * v.B_φ,
             v.v_r * v.B_θ - v.v_θ * v.B_r)
    for i, n in enumerate(("r", "θ", "φ")):
        cx.ensure_vec_eq("J_" + n, getattr(x, "J_" + n), J[i])
        terms = {"E_" + n: E[i], "E_%s_dash" % n: E[i] + [-drift[i]]}
        for k, t in terms.items():
            if cx.symbolic:
                cx.ensure_vec_eq(k, getattr(x, k), P.total(t))
            else:
                cx.ensure_zero(k, -getattr(x, k), *t)
    for n in P.NAMES:
        if n in ("B_φ_prime",):
            continue
        cx.ensure_vec_eq("recorded " + n, getattr(x, n), rows[:, O[n]])
    for n in P.NAMES:
        cx.ensure_vec_eq("derivative of " + n, getattr(x.deriv, n),
                         derivs[:, O[n]])
    cx.ensure_vec_eq("recorded angles", x.angles, θ)


@contract("derivatives without records", [
    "analyse.validate_plot.get_values"])
def gradients(cx):
    """those of the parabola through a row and its neighbours"""
    s, θ, rows, _, con = fake(cx, False)
    n = cx.length(θ)
    x = VP.get_values(s)
    cx.ensure_vec_eq("angles", x.angles, θ)
    i = cx.int("row", lo=1)
    cx.require(i < n - 1)
    h, k = θ[i] - θ[i - 1], θ[i + 1] - θ[i]
    for name in P.NAMES:
        y = rows[:, O[name]]
        d = getattr(x.deriv, name)
        cx.ensure_eq("derivative of " + name, d[i] * h * k * (h + k),
                     h * h * (y[i + 1] - y[i]) + k * k * (y[i] - y[i - 1]))
        cx.ensure_eq("first derivative of " + name,
                     d[0] * (θ[1] - θ[0]), y[1] - y[0])
        cx.ensure_eq("last derivative of " + name,
                     d[n - 1] * (θ[n - 1] - θ[n - 2]), y[n - 1] - y[n - 2])


CHECKS = {
    "max_diff_continuity": "validate_continuity",
    "max_diff_solenoid": "validate_solenoid",
    "max_diff_radial_momentum": "validate_radial_momentum",
    "max_diff_azimuthal_momentum": "validate_azimuthal_mometum",
    "max_diff_polar_momentum": "validate_polar_momentum",
    "max_diff_polar_induction": "validate_polar_induction",
    "max_diff_E_φ": "validate_E_φ"}


def largest(cx, name, got, at, n, of=None):
    """got is the largest of at(i), i < n"""
    cx.ensure(name + ": none is larger", cx.forall_int(
        lambda i: cx.le(at(i), got), 0, n))
    cx.ensure(name + ": one of them", cx.exists_int(
        lambda i: cx.eq(at(i), got), 0, n))


@contract("worst residuals", [
    "analyse.stats.compute_max_difference_in_equations"])
def worst(cx):
    n = cx.int("rows", lo=1, hi=None if cx.symbolic else 6)
    rs = {k: cx.vec(k, n=n) for k in CHECKS}
    con = Thing("conditions")
    vals = NS(initial_conditions=con)
    soln = Thing("solution")
    cx.stub(VP.get_values, lambda s: vals if s is soln else None)
    for k, f in CHECKS.items():
        cx.stub(getattr(VP, f), lambda c, v, k=k: rs[k]
                if c is con and v is vals else None)
    got = ST.compute_max_difference_in_equations(soln)
    cx.ensure_true("one for each equation", set(got) == set(CHECKS))
    for k in CHECKS:
        r = rs[k]
        largest(cx, k, got[k], lambda i: abs(r[i]), n)


@contract("largest Mach numbers", ["analyse.stats.get_max_mach_numbers"])
def mach(cx):
    angles = cx.sorted_vec("angles", minlen=1)
    n = cx.length(angles)
    names = ("slow", "sonic", "alfven", "fast")
    m = [cx.vec(k, n=n) for k in names]
    soln = NS(angles=angles)
    cx.patches.set(vars(ST), "get_mach_numbers",
                   lambda s: m if s is soln else None)
    got = ST.get_max_mach_numbers(soln)
    for k, v in zip(names, m):
        top = got["max_%s_mach" % k]
        largest(cx, k, top, lambda i: v[i], n)
        at = got["max_%s_mach_angle_degrees" % k]
        cx.ensure(k + ": where it is", cx.exists_int(
            lambda i: every(cx, [cx.eq(v[i], top), cx.eq(
                at * (np.pi / 180), angles[i])]), 0, n))


def every(cx, conds):
    from .C19 import every as e
    return e(cx, conds)


@contract("critical points of the table", [
    "analyse.stats.labelled_get_all_sonic_points"])
def labelled(cx):
    pts = [Thing(k) for k in ("slow", "sonic", "alfven", "fast")]
    soln = Thing("solution")
    cx.patches.set(vars(ST), "get_all_sonic_points",
                   lambda s: pts if s is soln else None)
    got = ST.labelled_get_all_sonic_points(soln)
    cx.ensure_true("each under its name", got == {
        "slow_sonic_point": pts[0], "sonic_sonic_point": pts[1],
        "alfven_sonic_point": pts[2], "fast_sonic_point": pts[3]})


@contract("shape of the velocity", [
    "analyse.stats.is_v_θ_monotonic",
    "utils.is_monotonically_increasing"])
def shape(cx):
    angles = cx.sorted_vec("angles", minlen=1)
    n = cx.length(angles)
    t = cx.vec("rows", n=n, cols=11)
    soln = NS(angles=angles, solution=t)
    v = t[:, O.v_θ]
    deg, up = 20, {}
    if cx.choice("up to", ["default", "given"]) == "given":
        deg = cx.real("up to")
        up = {"upto_degrees": deg}
    got = bool(ST.is_v_θ_monotonic(soln, **up))
    def at(i):
        return angles[i] * 180 / np.pi

    below = cx.forall_int(lambda i: cx.forall_int(lambda j: cx.imply(every(
        cx, [i < j, at(j) <= deg]), at(i) <= deg), 0, n), 0, n)
    cx.ensure("the rows up to there are the first ones", below)
    cx.require(below)
    falls = cx.exists_int(lambda i: cx.exists_int(lambda j: every(cx, [
        i < j, at(j) <= deg, v[j] < v[i]]), 0, n), 0, n)
    rises = cx.forall_int(lambda i: cx.forall_int(lambda j: cx.imply(every(
        cx, [i < j, at(j) <= deg]), v[i] <= v[j]), 0, n), 0, n)
    cx.ensure("rises to there", rises if got else falls)


@contract("end of the velocity", ["analyse.stats.does_v_θ_end_low"])
def end(cx):
    t = cx.vec("rows", cols=11, minlen=1)
    n = cx.length(t)
    cut, kw = 10, {}
    if cx.choice("cutoff", ["default", "given"]) == "given":
        cut = cx.real("cutoff")
        kw = {"cutoff": cut}
    low = bool(ST.does_v_θ_end_low(NS(solution=t), **kw))
    v = t[n - 1, O.v_θ]
    cx.ensure("ends low", (v <= cut) if low else (v > cut))


@contract("fastest part of the jet", [
    "analyse.stats.compute_max_vert_jet_velocity"])
def jet(cx):
    n = cx.int("rows", lo=1, hi=None if cx.symbolic else 6)
    heights = cx.vec("heights", n=n)
    t = cx.vec("cylindrical", n=n, cols=11)
    soln = NS(solution=Thing("table"), angles=Thing("angles"),
              solution_input=NS(γ=Thing("γ"), c_s_on_v_k=Thing("c_s")))
    asked = []

    def convert(a, s, **k):
        asked.append((a, s, k["γ"], k["c_s_on_v_k"]))
        return heights, t
    cx.patches.set(vars(ST), "convert_spherical_to_cylindrical", convert)
    got = ST.compute_max_vert_jet_velocity(soln)
    i = soln.solution_input
    cx.ensure_true("of this solution", asked == [
        (soln.angles, soln.solution, i.γ, i.c_s_on_v_k)])
    v = t[:, K.v_z]
    largest(cx, "v_z", got["max_jet_v_z"], lambda i: v[i], n)
    cx.ensure("where it is", cx.exists_int(lambda i: every(cx, [
        cx.eq(v[i], got["max_jet_v_z"]),
        cx.eq(heights[i], got["max_jet_v_z_height"])]), 0, n))


STATS = {
    "get_max_mach_numbers": [
        "max_%s_mach%s" % (k, a) for k in (
            "slow", "sonic", "alfven", "fast") for a in (
                "", "_angle_degrees")],
    "labelled_get_all_sonic_points": [
        "%s_sonic_point" % k for k in ("slow", "sonic", "alfven", "fast")],
    "singluar_stats": [
        "M_dot_out_on_M_dot_in", "Σ", "max_B_p_on_B_t",
        "max_angle_reached_degrees", "v_θ_starts_monotonic",
        "v_θ_ends_low"],
    "compute_max_vert_jet_velocity": ["max_jet_v_z", "max_jet_v_z_height"],
    "compute_max_difference_in_equations": list(CHECKS)}


def measured(cx, of):
    """The statistics replaced by of(name, solution)"""
    new = {}
    for k in STATS:
        old = getattr(ST, k)
        new[old] = (lambda k: lambda s: of(k, s))(k)
        cx.stub(old, new[old])
    for k, v in list(vars(ST).items()):
        if isinstance(v, (list, tuple)) and any(f in new for f in v
                                                if callable(f)):
            cx.patches.set(vars(ST), k, type(v)(new.get(f, f) for f in v))


@contract("statistics of one solution", ["analyse.stats.singluar_stats"])
def single(cx):
    angles = cx.sorted_vec("angles", minlen=1)
    n = cx.length(angles)
    t = cx.vec("rows", n=n, cols=11)
    soln = NS(angles=angles, solution=t)
    up, low = cx.choice("monotonic", [True, False]), cx.choice(
        "low", [True, False])
    flow, column = Thing("flow"), Thing("column")
    for f, v in ((ST.compute_M_dot_out_on_M_dot_in, flow),
                 (ST.compute_Σ, column), (ST.is_v_θ_monotonic, up),
                 (ST.does_v_θ_end_low, low)):
        cx.stub(f, lambda s, v=v: v if s is soln else None)
    cx.stub(ST.compute_B_poloidal_vs_B_toroidal, lambda s: t[:, 0])
    got = ST.singluar_stats(soln)
    cx.ensure_true("labels", set(got) == set(STATS["singluar_stats"]))
    cx.ensure_true("each under its name", [
        got["M_dot_out_on_M_dot_in"], got["Σ"],
        got["v_θ_starts_monotonic"], got["v_θ_ends_low"]] == [
            flow, column, up, low])
    cx.ensure_eq("the last angle", got["max_angle_reached_degrees"],
                 angles[n - 1] * 180 / np.pi)


@contract("a row of the table", ["analyse.stats.compute_solution_stats"])
def row(cx):
    soln, seen = Thing("solution"), []

    def of(k, s):
        seen.append((k, s))
        return {n: "%s %s" % (k, n) for n in STATS[k]}
    measured(cx, of)
    meta = cx.choice("metadata", [None, {"filename": "f", "γ": 3}])
    got = ST.compute_solution_stats(soln, metadata=meta)
    cx.ensure_true("of this solution", sorted(k for k, _ in seen) == sorted(
        STATS) and all(s is soln for _, s in seen))
    want = {n: "%s %s" % (k, n) for k in STATS for n in STATS[k]}
    cx.ensure_true("everything", got == dict(want, **(meta or {})))
    cx.ensure_true("every column is known",
                   set(want) <= set(ST.FIELD_NAMES) and
                   set(SOLUTION_INPUT_FIELDS) <= set(ST.FIELD_NAMES) and
                   {"filename", "solution_name"} <= set(ST.FIELD_NAMES) and
                   len(set(ST.FIELD_NAMES)) == len(ST.FIELD_NAMES))


@contract("statistics of all solutions", ["analyse.stats.write_stats"],
          bounded="partly symbolic: three solutions", samples=2)
def table(cx):
    begin(cx)
    vs = [some_input(cx, "%d " % i, simple=True) for i in range(2)]
    a, b = (NS(solution_input=C.SolutionInput(**v)) for v in vs)
    c = NS(solution_input=a.solution_input)
    solns = [("f", "0", a), ("f", "final", b), ("g", "0", c)]
    marks = [cx.text("mark %d" % i, free=False) for i in range(3)]
    missing, bad, before = cx.choice("case", [
        (m, f, w) for m in (None, 0, 1, 2) for f in (None, 0, 1, 2)
        for w in (True, False) if m is None or m != f])
    if missing is not None:
        solns[missing] = solns[missing][:2] + (None,)

    def of(k, s):
        i = [x is s for x in (a, b, c)].index(True)
        if i == bad and k == "get_max_mach_numbers":
            raise ValueError("empty")
        return {n: marks[i] if n == STATS[k][0] else i for n in STATS[k]}
    measured(cx, of)
    with Scratch() as d:
        p = d / "out.csv"
        if before:
            p.write_text("before\n")
        ST.write_stats(iter(solns), output_file=str(p))
        lines = p.read_text().splitlines()
    if before:
        cx.ensure_true("kept", lines[0] == "before")
        del lines[0]
    head, *rows = list(csv.reader(lines, dialect="unix"))
    cx.ensure_true("columns", head == list(ST.FIELD_NAMES))
    good = [i for i in range(3) if i not in (missing, bad)]
    cx.ensure_true("one row for each", len(rows) == len(good))
    if len(rows) != len(good):
        return
    for i, r in zip(good, rows):
        r = dict(zip(head, r))
        cx.ensure_true("where it is from", (
            r["filename"], r["solution_name"]) == solns[i][:2])
        for k in STATS:
            for j, n in enumerate(STATS[k]):
                if j:
                    cx.ensure_true(n, r[n] == str(i))
                else:
                    same(cx, n, r[n], marks[i])
        given = {k: r[k] for k in SOLUTION_INPUT_FIELDS}
        st, inp = cx.attempt(lambda: C.ConfigInput(**dict(
            {"label": ""}, **given)).to_soln_input())
        cx.ensure_true("its input", st == "ok")
        if st == "ok":
            for k, v in vs[i % 2].items():
                same(cx, "value of " + k, getattr(inp, k), v)


def marked(cx, flag):
    s = C06.solution(cx, "%d " % flag, full=True)
    s.flag = flag
    return s


@contract("all solutions of the files", ["analyse.stats.get_all_solutions"],
          bounded="partly symbolic: three files of up to two solutions",
          samples=2)
def files(cx):
    begin(cx)
    case = cx.choice("files", [
        "readable", "first missing", "second missing", "third missing",
        "second without run", "second is no run"])
    with h5model.Disk(cx) as disk:
        base = disk.path("x").parent
        names = [base / k for k in ("a.hdf5", "b.hdf5", "c.hdf5")]
        want = []
        for i, p in enumerate(names):
            if case == ("first missing", "second missing",
                        "third missing")[i]:
                continue
            with h5open(p, registries, mode="x") as f:
                if i == 1 and case == "second without run":
                    f["other"] = 3
                    continue
                if i == 1 and case == "second is no run":
                    f["run"] = 3
                    continue
                run = some_run(cx)
                f["run"] = run
                for j in range(i):
                    run.solutions.add_solution(marked(cx, 10 * i + j))
                    want.append((p, str(j), 10 * i + j))
                run.final_solution = marked(cx, 10 * i + 9) if i else None
                want.append((p, "final", 10 * i + 9 if i else None))
        st, got = cx.attempt(lambda: [
            (f, n, None if s is None else int(s.flag))
            for f, n, s in ST.get_all_solutions(names)])
        cx.ensure_true("unreadable files are skipped", st == "ok")
        if st == "ok":
            cx.ensure_true("every solution once, with its final one",
                           got == want)
