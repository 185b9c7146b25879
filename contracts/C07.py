"""Files written by older versions."""
from fractions import Fraction
import math

import attr
import numpy as np
from h5preserve import GroupContainer
from h5preserve import open as h5open

from disc_solver import utils as U
from disc_solver.file_format import _containers as C
from disc_solver.file_format import registries

from dv import h5model, tok
from dv.api import registry
from .C05 import FIELDS
from . import C06
from .C06 import flag, npreal, pyint, same, some_slice, some_vars

PROPERTY = "C07"
CONTRACTS, contract = registry()
ASSUMPTIONS = [
    h5model.STORE,
    "which settings each older version stored, and where, is taken from the "
    "version history of the formats (table SINCE)"]

# the version from which on a setting is in the file
SINCE = {k: 1 for k in (
    "start", "stop", "taylor_stop_angle", "max_steps", "num_angles", "label",
    "relative_tolerance", "absolute_tolerance", "v_rin_on_c_s", "v_a_on_c_s",
    "c_s_on_v_k", "η_O", "η_H", "η_A", "γ")}
SINCE.update({
    "jump_before_sonic": 2, "η_derivs": 3, "nwalkers": 5, "iterations": 5,
    "threads": 5, "target_velocity": 6, "split_method": 7,
    "use_taylor_jump": 8, "mcmc_vars": 9, "v_θ_sonic_crit": 10,
    "after_sonic": 11, "sonic_interp_size": 12, "interp_range": 12,
    "interp_slice": 13, "use_E_r": 14})
MEMBERS = {"jump_before_sonic", "mcmc_vars", "v_θ_sonic_crit", "after_sonic",
           "sonic_interp_size", "interp_slice"}


def group(label, version, attrs=None, **members):
    g = GroupContainer(attrs=dict(attrs or {}), **members)
    g._namespace, g._label, g._version = "disc_solver", label, version
    return g


def through(cx, *objs):
    with h5model.Disk(cx) as d:
        p = d.path("a.hdf5")
        with h5open(p, registries, mode="x") as f:
            for i, o in enumerate(objs):
                f["x%d" % i] = o
        with h5open(p, registries, mode="r") as f:
            return [f["x%d" % i] for i in range(len(objs))]


def stored_settings(cx, label, version, texts, tag="", few=False):
    """The group of a file of that version, and the values it stands for"""
    attrs, members, want = {}, {}, {}
    given = "all" if few else cx.choice(
        tag + "optional settings", ["all", "none"])
    for k, since in SINCE.items():
        if since > version or k == "label" and not texts:
            continue
        member = k in MEMBERS or k == "interp_range" and version >= 13
        kind = FIELDS[k][2]
        if member and given == "none":
            v = None
        elif texts:
            v = cx.text(tag + k, "word", free=False)
            if k == "γ" and version < 4:
                v = "4/3"
        elif kind == "slice":
            v = slice(-20, -3) if few else some_slice(cx, tag + k)
        elif kind == "vars":
            v = None if few else some_vars(cx, tag + k)
        elif kind == "word":
            v = cx.text(tag + k, "word")
        else:
            v = {"real": npreal, "int": pyint, "bool": flag}[kind](
                cx, tag + k)
        if k == "γ" and version < 4:
            if texts:
                attrs["β"] = v
                want[k] = Fraction(5, 4) - Fraction(v)
            else:
                attrs["β"] = v
                want[k] = 1.25 - v
            continue
        want[k] = v
        if member:
            members[k] = v
        else:
            attrs[k] = v
    return group(label, version, attrs, **members), want


def check_settings(cx, got, want, cls):
    cx.ensure_true("type", isinstance(got, cls))
    if not isinstance(got, cls):
        return
    for a in attr.fields(cls):
        k, v = a.name, getattr(got, a.name)
        if k in want:
            if isinstance(want[k], Fraction):
                cx.ensure_true("γ", isinstance(v, str) and abs(
                    U.str_to_float(v) - want[k]) < 1e-12)
            else:
                same(cx, k, v, want[k])
        else:
            # not in the file: nothing, or the documented default
            ok = v is None or (a.default is not attr.NOTHING and
                               v == a.default) or \
                str(v) == FIELDS[k][1]
            cx.ensure_true("%s, which the file does not have, is none or the "
                           "default" % k, bool(ok))


def config_text(cx):
    if cx.symbolic:
        tok.start(cx)


@contract("configurations", [
    "file_format._loaders._config_loader" + str(i or "")
    for i in [0] + list(range(2, 15))] + ["file_format._utils._str_β_to_γ"])
def configs(cx):
    config_text(cx)
    version = cx.choice("version", list(range(1, 15)))
    g, want = stored_settings(cx, "ConfigInput", version, True)
    st, got = cx.attempt(through, cx, g)
    cx.ensure_true("version can be read", st == "ok")
    if st == "ok":
        check_settings(cx, got[0], want, C.ConfigInput)


@contract("β of a configuration", ["file_format._utils._str_β_to_γ"],
          bounded="sampled texts of β: decimals and fractions")
def β_text(cx):
    if cx.symbolic:
        cx.cover("texts of numbers")
        return
    b = cx.choice("β", ["1.249", "4/3", "1.25", "0", "5/4", "1e-3", "-1.5",
                        "%.6f" % cx.real("b", lo=-3, hi=3)])
    g, want = stored_settings(cx, "ConfigInput", cx.choice(
        "version", [1, 2, 3]), True)
    g.attrs["β"] = b
    want["γ"] = Fraction(5, 4) - Fraction(b)
    got, = through(cx, g)
    check_settings(cx, got, want, C.ConfigInput)


@contract("settings of a solution", [
    "file_format._loaders._input_loader" + str(i or "")
    for i in [0] + list(range(2, 15))], budget=240)
def inputs(cx):
    config_text(cx)
    version = cx.choice("version", list(range(1, 15)))
    g, want = stored_settings(cx, "SolutionInput", version, False)
    st, got = cx.attempt(through, cx, g)
    cx.ensure_true("version can be read", st == "ok")
    if st == "ok":
        check_settings(cx, got[0], want, C.SolutionInput)


@contract("initial conditions", [
    "file_format._loaders._initial_load_old",
    "file_format._loaders._initial_load", "file_format._loaders._initial_load3",
    "file_format.InitialConditions.__init__"])
def conditions(cx):
    version = cx.choice("version", [1, 2, 3])
    short = cx.choice("values", [8, 11])
    a = {k: npreal(cx, k) for k in ("norm_kepler_sq", "η_O", "η_A", "η_H")}
    x = [npreal(cx, "x%d" % i) for i in range(8)]
    full = x + [a["η_O"], a["η_A"], a["η_H"]]
    a["init_con"] = cx.real_array(full[:short]) if cx.symbolic else \
        np.array(full[:short])
    γ = npreal(cx, "γ or β")
    a["γ" if version == 3 else "β"] = γ
    if version > 1:
        a["a_0"] = npreal(cx, "a_0")
    angles = cx.vec("angles")
    got, = through(cx, group("InitialConditions", version, a, angles=angles))
    for k in ("norm_kepler_sq", "η_O", "η_A", "η_H"):
        same(cx, k, getattr(got, k), a[k])
    same(cx, "angles", got.angles, angles)
    cx.ensure_true("eleven values", np.shape(got.init_con) == (11,))
    for i in range(11):
        cx.ensure_eq("values", got.init_con[i], full[i])
    cx.ensure_eq("γ", got.γ, γ if version == 3 else 1.25 - γ)
    if version > 1:
        same(cx, "a_0", got.a_0, a["a_0"])
    else:
        cx.ensure_true("a_0 unknown", isnan(got.a_0))


def isnan(x):
    if hasattr(x, "n"):
        from dv.expr import nan_cond, isc
        n = nan_cond(x.n)
        return n.op == "b" and n.args[0] is True or x.n.op == "nan"
    return isinstance(x, (float, np.floating)) and math.isnan(x)


ONE = ("angles", "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor",
       "v_φ_taylor", "ρ_taylor")


@contract("data recorded while solving", [
    "file_format._loaders._internal_load",
    "file_format._loaders._internal_load2",
    "file_format._loaders._internal_load3",
    "file_format.InternalData._finalise"])
def internal(cx):
    version = cx.choice("version", [1, 2, 3])
    m = {k: cx.vec(k, minlen=1) for k in ONE}
    for k in ("derivs", "params"):
        m[k] = cx.vec(k, cols=11, minlen=1)
    p = C06.some_problems(cx, "")
    members = dict(m)
    if version > 1:
        members["problems"] = p
    if version > 2:
        members["jacobian_data"] = C.JacobianData(
            angles=cx.vec("jac angles", minlen=1))
    st, got = cx.attempt(through, cx, group("InternalData", version,
                                            **members))
    cx.ensure_true("version can be read", st == "ok")
    if st != "ok":
        return
    got, = got
    for k, v in m.items():
        same(cx, k, getattr(got, k), v)
    same(cx, "problems", got.problems, p if version > 1 else C.Problems())
    st, _ = cx.attempt(got._finalise)
    cx.ensure_true("can be written and joined again", st == "ok")


@contract("solutions", ["file_format._loaders._solution_loader",
                        "file_format._loaders._solution_loader_2",
                        "file_format._loaders._solution_loader_3",
                        "file_format._loaders._solution_loader_4"])
def solutions(cx):
    config_text(cx)
    version = cx.choice("version", [1, 2, 3, 4])
    g, want = old_solution(cx, version)
    st, got = cx.attempt(through, cx, g)
    cx.ensure_true("version can be read", st == "ok")
    if st == "ok":
        check_solution(cx, got[0], want)


def old_solution(cx, version, tag="", few=False):
    a = {"flag": 0 if few else cx.choice(tag + "flag", [0, 2]),
         "coordinate_system": "spherical polar"}
    what = "all" if few else cx.choice(tag + "missing", ["nothing", "roots"])
    m = {"angles": cx.vec(tag + "angles"),
         "solution": cx.vec(tag + "solution", cols=11),
         "internal_data": None, "initial_conditions": None,
         "t_roots": None if what == "roots" else cx.vec(tag + "t_roots"),
         "y_roots": None if what == "roots" else cx.vec(tag + "y_roots",
                                                        cols=11)}
    inp, settings = stored_settings(
        cx, "SolutionInput", min(14, 9 + version), False, tag, True)
    m["solution_input"] = inp
    if version > 1:
        m["derivatives"] = None
    if version > 2:
        m["sonic_point"] = npreal(cx, tag + "sonic")
        m["sonic_point_values"] = cx.vec(tag + "sonic values")
    if version > 3:
        a["is_post_shock_only"] = True if few else cx.choice(
            tag + "post shock", [False, True])
    return group("Solution", version, a, **m), dict(a, **m,
                                                    settings=settings)


def check_solution(cx, got, want):
    cx.ensure_true("a solution", isinstance(got, C.Solution))
    if not isinstance(got, C.Solution):
        return
    for k in ("flag", "coordinate_system", "angles", "solution",
              "internal_data", "initial_conditions", "t_roots", "y_roots"):
        same(cx, k, getattr(got, k), want[k])
    for k in ("derivatives", "sonic_point", "sonic_point_values"):
        same(cx, k, getattr(got, k), want.get(k))
    same(cx, "is_post_shock_only", bool(got.is_post_shock_only),
         want.get("is_post_shock_only", False))
    check_settings(cx, got.solution_input, want["settings"], C.SolutionInput)


SINCE_RUN = {"config_input": 1, "config_filename": 1, "time": 1,
             "final_solution": 1, "solutions": 1, "disc_solver_version": 2,
             "float_type": 3, "sonic_method": 4, "use_E_r": 5,
             "based_on_solution_filename": 6,
             "based_on_solution_solution_name": 6}


@contract("runs", ["file_format._loaders._run_loader" + (
    str(i) if i > 1 else "") for i in range(1, 7)] + [
        "file_format._old_dict_loading._dict_loader"], budget=240)
def runs(cx):
    config_text(cx)
    version = cx.choice("version", [1, 2, 3, 4, 5, 6])
    cx.patch(C, "environ", {"NO_CACHE": "1"} if cx.choice(
        "cache", [True, False]) is False else {})
    m = {}
    for k in ("config_filename", "time", "disc_solver_version", "float_type",
              "sonic_method", "based_on_solution_filename",
              "based_on_solution_solution_name"):
        if version >= SINCE_RUN[k]:
            m[k] = cx.text(k, "word")
    texts, config_want = stored_settings(
        cx, "ConfigInput", cx.choice("config version", [4, 13, 14])
        if version > 4 else 3, True, "config ", True)
    m["config_input"] = texts
    sv = min(version, 4)
    both = [old_solution(cx, sv, "s%d " % i, True) for i in range(2)]
    final = cx.choice("final", ["stored", "none"])
    last, last_want = old_solution(cx, sv, "last ", True)
    m["final_solution"] = last if final == "stored" else None
    store = GroupContainer(**{str(i): s for i, (s, _) in enumerate(both)})
    if version < 5:
        store._namespace, store._label = "Python: dict as group", "dict"
    else:
        store._namespace, store._label = "disc_solver", "Solutions"
        store._version = 1
        store._on_demand = True
    m["solutions"] = store
    E_r = None
    attrs = {}
    if version >= 5:
        E_r = m["use_E_r"] = cx.choice("use_E_r", [False, True])
    if version >= 6:
        attrs["is_post_shock_only"] = cx.choice("post shock", [False, True])
    with h5model.Disk(cx) as d:
        p = d.path("a.hdf5")
        with h5open(p, registries, mode="x") as f:
            f["run"] = group("Run", version, attrs, **m)
        with h5open(p, registries, mode="r") as f:
            st, got = cx.attempt(lambda: f["run"])
            cx.ensure_true("version can be read", st == "ok")
            if st != "ok":
                return
            for k in ("config_filename", "time", "disc_solver_version",
                      "float_type", "sonic_method",
                      "based_on_solution_filename",
                      "based_on_solution_solution_name"):
                if k in m:
                    same(cx, "run." + k, getattr(got, k), m[k])
                else:
                    cx.ensure_true("run.%s is unknown" % k, getattr(
                        got, k) in (None, "unknown"))
            cx.ensure_true("post shock", bool(got.is_post_shock_only) ==
                           attrs.get("is_post_shock_only", False))
            cx.ensure_true("formulation", bool(got.use_E_r) == bool(E_r))
            fill(config_want, None if E_r is None else str(E_r))
            check_settings(cx, got.config_input, config_want, C.ConfigInput)
            cx.ensure_true("all solutions", sorted(got.solutions) ==
                           ["0", "1"])
            for i, (_, w) in enumerate(both):
                fill(w["settings"], E_r)
                check_solution(cx, got.solutions[str(i)], w)
            if final == "none":
                cx.ensure_true("no final solution",
                               got.final_solution is None)
            else:
                fill(last_want["settings"], E_r)
                check_solution(cx, got.final_solution, last_want)


def fill(want, E_r):
    """The formulation was a property of the run before it was a setting"""
    if E_r is not None and "use_E_r" not in want:
        want["use_E_r"] = E_r
