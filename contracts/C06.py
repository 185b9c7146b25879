"""Runs and solutions read back from a file as they were written."""
import numpy as np
from h5preserve import open as h5open

from disc_solver.file_format import _containers as C
from disc_solver.file_format import registries

from dv import expr as E
from dv import h5model, tok, vec
from dv.api import registry
from .C05 import FIELDS

PROPERTY = "C06"
CONTRACTS, contract = registry()
ASSUMPTIONS = [h5model.STORE]

ATTRS = [k for k in FIELDS if k != "label" and not FIELDS[k][3]]
MAYBE = ["jump_before_sonic", "v_θ_sonic_crit", "after_sonic",
         "sonic_interp_size", "interp_range"]


def npreal(cx, name):
    """A number of the solver's float type"""
    x = cx.real(name)
    return x if cx.symbolic else np.float64(x)


def pyint(cx, name):
    x = cx.int(name)
    return h5model.PyInt(x.n) if cx.symbolic else x


def pyfloat(cx, name):
    x = cx.real(name)
    return h5model.PyFloat(x.n) if cx.symbolic else x


def flag(cx, name):
    return cx.bool(name)


def is_sym(x):
    return isinstance(x, (E.Sym, E.SymB)) or getattr(x, "_dv_vec", False)


def same(cx, name, got, want):
    """The value read is the value written"""
    if want is None or got is None:
        cx.ensure_true(name, got is None and want is None)
    elif isinstance(want, slice):
        cx.ensure_true(name + " is a slice", isinstance(got, slice))
        if isinstance(got, slice):
            for p in ("start", "stop", "step"):
                same(cx, name + " " + p, getattr(got, p), getattr(want, p))
    elif isinstance(want, C.MCMCVars):
        cx.ensure_true(name + " is a choice of variables",
                       isinstance(got, C.MCMCVars))
        if isinstance(got, C.MCMCVars):
            for p in ("with_v_r", "with_v_a", "with_v_k"):
                cx.ensure_true(name + " " + p, bool(getattr(got, p)) ==
                               bool(getattr(want, p)))
    elif isinstance(want, C.Problems):
        cx.ensure_true(name + " are problems", isinstance(got, C.Problems))
        if isinstance(got, C.Problems):
            cx.ensure_true(name, {k: list(v) for k, v in want.items()} ==
                           {k: list(v) for k, v in got.items()})
    elif isinstance(want, (C.SolutionInput, C.ConfigInput, C.InternalData,
                           C.JacobianData, C.InitialConditions, C.Solution)):
        cx.ensure_true(name + " type", type(got) is type(want))
        if type(got) is type(want):
            fields(cx, name, got, want)
    elif isinstance(want, str):
        cx.ensure_true(name, isinstance(got, str) and got == want)
    elif isinstance(want, bool) or isinstance(want, E.SymB):
        if is_sym(want) or is_sym(got):
            cx.ensure(name, ~(want ^ got) if hasattr(want, "__xor__") else
                      cx.eq(got, want))
        else:
            cx.ensure_true(name, bool(got) == want)
    elif getattr(want, "_dv_vec", False) or getattr(got, "_dv_vec", False):
        table(cx, name, got, want)
    elif isinstance(want, np.ndarray) and not want.size:
        cx.ensure_true(name, np.shape(got) == want.shape)
    elif isinstance(want, np.ndarray) and want.dtype != object:
        cx.ensure_true(name, np.shape(got) == want.shape and
                       np.array_equal(got, want, equal_nan=True))
    elif isinstance(want, np.ndarray):
        cx.ensure_true(name + " shape", np.shape(got) == want.shape)
        if np.shape(got) == want.shape:
            for i in np.ndindex(*want.shape):
                cx.ensure_eq(name, got[i], want[i])
    elif isinstance(got, (np.ndarray, E.Sym, np.number, int, float)):
        cx.ensure_true(name + " is a number", np.ndim(got) == 0)
        if np.ndim(got) == 0:
            cx.ensure_eq(name, got, want)
    else:
        cx.ensure_true("%s: %s read as %s" % (
            name, type(want).__name__, type(got).__name__), False)


def table(cx, name, got, want):
    """Tables of symbolic length"""
    if not (getattr(want, "_dv_vec", False) and getattr(got, "_dv_vec",
                                                        False)):
        cx.ensure_true("%s is a table" % name, False)
        return
    cx.ensure_true(name + " columns", got.cols == want.cols)
    cx.ensure_eq(name + " length", cx.length(got), cx.length(want))
    n = cx.length(want)
    if want.cols is None:
        cx.ensure(name, cx.forall_int(lambda i: cx.eq(got[i], want[i]), 0, n))
    elif got.cols == want.cols:
        for j in range(want.cols):
            cx.ensure(name, cx.forall_int(
                lambda i: cx.eq(got[i, j], want[i, j]), 0, n))


def names(x):
    import attr
    return [a.name for a in attr.fields(type(x))]


def fields(cx, name, got, want, skip=()):
    for k in names(want):
        if k not in skip:
            same(cx, "%s.%s" % (name, k), getattr(got, k), getattr(want, k))


def through(cx, *objs):
    """Write, close, open, read"""
    with h5model.Disk(cx) as d:
        p = d.path("a.hdf5")
        with h5open(p, registries, mode="x") as f:
            for i, o in enumerate(objs):
                f["x%d" % i] = o
        with h5open(p, registries, mode="r") as f:
            return [f["x%d" % i] for i in range(len(objs))]


def some_slice(cx, name):
    k = cx.choice(name, ["none", "both", "start", "stop", "step"])
    if k == "none":
        return None
    a, b, c = (pyint(cx, name + p) for p in (" a", " b", " c"))
    return {"both": slice(a, b), "start": slice(a, None),
            "stop": slice(None, b), "step": slice(a, b, c)}[k]


def some_vars(cx, name):
    k = cx.choice(name, [None] + list(range(8)))
    return None if k is None else C.MCMCVars(bool(k & 1), bool(k & 2),
                                             bool(k & 4))


def soln_input(cx, tag="", python=False, full=False):
    v = {}
    for k in ATTRS:
        kind = FIELDS[k][2]
        v[k] = {"real": npreal, "int": pyint, "bool": flag,
                "word": lambda c, n: c.text(n, "word")}[kind](cx, tag + k)
    given = cx.choice(tag + "optional settings", [
        "all", "none"] + MAYBE) if not full else "all"
    for k in MAYBE:
        if given in ("all", k):
            if k == "interp_range":
                v[k] = pyint(cx, tag + k)
            else:
                v[k] = (pyfloat if python else npreal)(cx, tag + k)
        else:
            v[k] = None
    v["interp_slice"] = some_slice(cx, tag + "slice") if not full else \
        slice(-20, -3)
    v["mcmc_vars"] = some_vars(cx, tag + "vars") if not full else None
    return C.SolutionInput(**v)


@contract("settings of a solution", [
    "file_format._dumpers._input_dumper",
    "file_format._loaders._input_loader14",
    "file_format._dumpers._slice_dumper", "file_format._loaders._slice_loader",
    "file_format._dumpers._mcmc_vars_dumper",
    "file_format._loaders._mcmc_vars_loader"], budget=240)
def settings(cx):
    start(cx)
    s = soln_input(cx, python=cx.choice("python floats", [False, True]))
    got, = through(cx, s)
    same(cx, "input", got, s)


def start(cx):
    if cx.symbolic:
        tok.start(cx)


@contract("texts of the configuration", [
    "file_format._dumpers._config_dumper",
    "file_format._loaders._config_loader14"])
def config(cx):
    start(cx)
    none = cx.choice("none", [None, "all", "mcmc_vars"] + MAYBE + [
        "interp_slice"])
    c = config_input(cx, none)
    got, = through(cx, c)
    same(cx, "config", got, c)


def config_input(cx, none=None, tag=""):
    v = {}
    for k in FIELDS:
        if FIELDS[k][3] and none in ("all", k):
            v[k] = None
        else:
            v[k] = cx.text(tag + k, "word", free=False)
    return C.ConfigInput(**v)


def conditions(cx, tag="", n=None):
    init = cx.real_array([cx.real("%sx%d" % (tag, i)) for i in range(11)])
    return C.InitialConditions(
        norm_kepler_sq=npreal(cx, tag + "norm_kepler_sq"),
        a_0=npreal(cx, tag + "a_0"), γ=npreal(cx, tag + "γ"), init_con=init,
        angles=cx.vec(tag + "angles", n))


@contract("initial conditions", [
    "file_format._dumpers._initial_dump",
    "file_format._loaders._initial_load3"])
def initial(cx):
    c = conditions(cx)
    got, = through(cx, c)
    same(cx, "conditions", got, c)


PROBLEMS = [{}, {0.25: ["negative velocity"]},
            {0.5: ["negative density", "negative velocity"], 1: ["θ"],
             0.25: ["x", "negative density", "x"]}]


def some_problems(cx, tag):
    p = C.Problems()
    for k, v in cx.choice(tag + "problems", PROBLEMS).items():
        for s in v:
            p[k].append(s)
    return p


def internal(cx, tag=""):
    kind = cx.choice(tag + "recorded", ["nothing", "tables", "rows"])
    p = some_problems(cx, tag)
    if kind == "nothing":
        return C.InternalData(problems=p)
    one = ("angles", "v_r_normal", "v_φ_normal", "ρ_normal", "v_r_taylor",
           "v_φ_taylor", "ρ_taylor")
    v = {}
    if kind == "rows":
        # as recorded during the integration: lists of rows
        for k in one:
            v[k] = [npreal(cx, "%s%s %d" % (tag, k, i)) for i in range(3)]
        for k in ("derivs", "params"):
            v[k] = [cx.real_array([cx.real("%s%s %d %d" % (tag, k, i, j))
                                   for j in range(11)]) for i in range(3)]
        return C.InternalData(problems=p, **v)
    for k in one:
        v[k] = cx.vec(tag + k, minlen=1)
    for k in ("derivs", "params"):
        v[k] = cx.vec(tag + k, cols=11, minlen=1)
    jac = np.ones((2, 11, 11))
    jac[1, 3] = 5
    v["jacobian_data"] = C.JacobianData(
        derivs=cx.vec(tag + "jac derivs", cols=11, minlen=1),
        params=cx.vec(tag + "jac params", cols=11, minlen=1),
        angles=cx.vec(tag + "jac angles", minlen=1), jacobians=jac)
    return C.InternalData(problems=p, **v)


@contract("data recorded while solving", [
    "file_format._dumpers._internal_dump2",
    "file_format._loaders._internal_load3",
    "file_format._dumpers._jacobian_data_dumper",
    "file_format._loaders._jacobian_data_loader",
    "file_format._dumpers._problems_dumper",
    "file_format._loaders._problems_loader",
    "file_format.InternalData._finalise"],
    note="the jacobians themselves are one fixed array")
def recorded(cx):
    d = internal(cx)
    was = {k: getattr(d, k) for k in names(d)}
    got, = through(cx, d)
    for k in names(d):
        w = was[k]
        if isinstance(w, list) and w and not isinstance(w[0], np.ndarray):
            w = cx.real_array(w) if cx.symbolic else np.array(w)
        elif isinstance(w, list) and w:
            cx.ensure_true(k + " shape", np.shape(getattr(got, k)) ==
                           (3, 11))
            for i in range(3):
                same(cx, k, getattr(got, k)[i], w[i])
            continue
        elif isinstance(w, list):
            w = np.zeros((0, 11) if k in ("derivs", "params") else 0)
        if isinstance(w, C.JacobianData) and isinstance(w.jacobians, list):
            w = C.JacobianData(np.zeros((0, 11, 11)), np.zeros((0, 11)),
                               np.zeros((0, 11)), np.zeros(0))
        same(cx, k, getattr(got, k), w)


def solution(cx, tag="", full=False):
    what = "all" if full else cx.choice(
        tag + "missing", ["all", "no roots", "no internal data",
                          "no sonic point"])
    s = dict(
        solution_input=soln_input(cx, tag, full=True),
        angles=cx.vec(tag + "angles"), solution=cx.vec(tag + "solution",
                                                       cols=11),
        flag=cx.choice(tag + "flag", [0, 2, 99]) if not full else 0,
        coordinate_system="spherical polar",
        internal_data=None if what == "no internal data" else
        C.InternalData(angles=cx.vec(tag + "recorded angles", minlen=1)),
        initial_conditions=conditions(cx, tag + "start "),
        t_roots=None if what == "no roots" else cx.vec(tag + "t_roots"),
        y_roots=None if what == "no roots" else cx.vec(tag + "y_roots",
                                                       cols=11),
        sonic_point=None, sonic_point_values=None)
    if what not in ("no sonic point", "no roots"):
        s.update(sonic_point=npreal(cx, tag + "sonic point"),
                 sonic_point_values=cx.real_array([
                     cx.real("%ssonic %d" % (tag, i)) for i in range(11)]))
    s["is_post_shock_only"] = cx.choice(tag + "post shock", [False, True]) \
        if not full else False
    return C.Solution(**s)


@contract("a solution", [
    "file_format._dumpers._solution_dumper",
    "file_format._loaders._solution_loader_4"], budget=240)
def one_solution(cx):
    start(cx)
    s = solution(cx)
    got, = through(cx, s)
    cx.ensure_true("a solution", type(got) is C.Solution)
    if type(got) is C.Solution:
        fields(cx, "solution", got, s)


def some_run(cx, kind="solve", E_r=True, time=None):
    run = C.Run(
        config_input=config_input(cx), disc_solver_version=cx.text("version"),
        config_filename=None if kind == "csv" else cx.text("config file"),
        float_type=cx.text("float type"), sonic_method=cx.text("method"),
        use_E_r=E_r, time=time)
    if kind != "solve":
        run.based_on_solution_filename = cx.text("based on file")
        run.based_on_solution_solution_name = cx.text("based on solution")
    run.is_post_shock_only = kind == "shock"
    return run


def meta(cx, got, run):
    cx.ensure_true("a run", isinstance(got, C.Run))
    for k in ("config_input", "config_filename", "float_type",
              "disc_solver_version", "sonic_method", "time",
              "use_E_r", "is_post_shock_only",
              "based_on_solution_filename",
              "based_on_solution_solution_name"):
        same(cx, "run." + k, getattr(got, k), getattr(run, k))


@contract("what a run says of itself", [
    "file_format._dumpers._run_dumper", "file_format._loaders._run_loader6"])
def about(cx):
    start(cx)
    run = some_run(cx, cx.choice("kind of run", ["solve", "csv", "shock"]),
                   cx.choice("use_E_r", [False, True]),
                   cx.choice("time", [None, "now"]))
    run.final_solution = None
    got, = through(cx, run)
    meta(cx, got, run)


@contract("a run", [
    "file_format._dumpers._run_dumper", "file_format._loaders._run_loader6",
    "file_format._dumpers._solutions_dumper",
    "file_format._loaders._solutions_loader",
    "file_format.Solutions.__setitem__", "file_format.Solutions.__getitem__",
    "file_format.Solutions._h5preserve_update",
    "file_format.Solutions.add_solution", "file_format.Run.final_solution"],
    bounded="partly symbolic: runs of up to two solutions", budget=300)
def a_run(cx):
    start(cx)
    cx.patch(C, "environ", {"NO_CACHE": "1"} if cx.choice(
        "cache", [True, False]) is False else {})
    run = some_run(cx)
    before = cx.choice("solutions already there", [0, 1, 2])
    after = cx.choice("solutions added later", [0, 1, 2]) if before < 2 else 0
    final = cx.choice("final", ["none", "given", "finalise"]) \
        if before + after else "none"
    early = before and cx.choice("final solution already there",
                                 [False, True])
    solns = [solution(cx, "s%d " % i, full=True)
             for i in range(before + after)]
    want_final = None
    for s in solns[:before]:
        run.solutions.add_solution(s)
    if final == "given":
        want_final = solns[0]
    elif final == "finalise":
        want_final = solns[-1] if not early else solns[before - 1]

    def finish():
        if final == "given":
            run.final_solution = solns[0]
        elif final == "finalise":
            run.finalise()
        elif final == "none":
            run.final_solution = None
    with h5model.Disk(cx) as d:
        p = d.path("run.hdf5")
        with h5open(p, registries, mode="x") as f:
            if early:
                finish()
            f["run"] = run
            for s in solns[before:]:
                run.solutions.add_solution(s)
            if not early:
                finish()
        with h5open(p, registries, mode="r") as f:
            got = f["run"]
            meta(cx, got, run)
            cx.ensure_true("numbered solutions", sorted(got.solutions) ==
                           [str(i) for i in range(len(solns))])
            for i, s in enumerate(solns):
                if str(i) in got.solutions:
                    same(cx, "solution", got.solutions[str(i)], s)
            same(cx, "final solution", got.final_solution, want_final)


@contract("a run that ended without a final solution", [
    "file_format._loaders._run_loader6"])
def unfinished(cx):
    start(cx)
    run = some_run(cx)
    n = cx.choice("solutions", [0, 1])
    solns = [solution(cx, "s%d " % i, full=True) for i in range(n)]
    import warnings
    with h5model.Disk(cx) as d:
        p = d.path("run.hdf5")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with h5open(p, registries, mode="x") as f:
                f["run"] = run
                for s in solns:
                    run.solutions.add_solution(s)
        with h5open(p, registries, mode="r") as f:
            st, got = cx.attempt(lambda: f["run"])
            cx.ensure_true("can be read", st == "ok")
            if st != "ok":
                return
            for i, s in enumerate(solns):
                same(cx, "solution", got.solutions[str(i)], s)
            cx.ensure_true("no final solution", not isinstance(
                got.final_solution, C.Solution))
