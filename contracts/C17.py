"""The Monte Carlo search."""
import copy
import math

import numpy as np

from disc_solver.file_format import _containers as C
from disc_solver.solve import mcmc as M
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex as O

from dv.api import registry
from .C05 import FIELDS
from .C10 import Thing, new_run

PROPERTY = "C17"
CONTRACTS, contract = registry()
ASSUMPTIONS = ["emcee proposes positions and evaluates the function it is "
               "given; numpy.random.randn returns an array of the asked shape"]

NAMES = ["γ", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k"]


def some_input(cx, which, pos=False):
    values = {k: Thing(k) for k in FIELDS if k != "label"}
    for k in NAMES:
        values[k] = cx.real(k, pos=pos)
    values["interp_slice"] = slice(-20, -3)
    values["nwalkers"] = 2
    values["mcmc_vars"] = None if which is None else C.MCMCVars(*which)
    return C.SolutionInput(**values)


def choose(cx):
    w = cx.choice("variables", [None] + [
        (bool(i & 1), bool(i & 2), bool(i & 4)) for i in range(8)])
    names = ["γ"] + [n for n, on in zip(NAMES[1:], w or (True,) * 3) if on]
    return w, names


@contract("positions and inputs", [
    "solve.mcmc.generate_sysvars_enum", "solve.mcmc.sys_vars_to_solution_input",
    "solve.mcmc.solution_input_to_sys_vars"])
def positions(cx):
    w, names = choose(cx)
    inp = some_input(cx, w)
    before = copy.copy(inp)
    enum = M.generate_sysvars_enum(inp)
    cx.ensure_true("the variables asked for",
                   sorted(enum.__members__) == sorted(names) and
                   len(enum) == len(names))
    cx.ensure_true("positions used once", sorted(int(v) for v in enum) ==
                   list(range(len(names))))
    pos = M.solution_input_to_sys_vars(inp, enum)
    cx.ensure_true("one position each", len(pos) == len(names))
    for v in enum:
        cx.ensure_eq("position of %s" % v.name, pos[v],
                     getattr(inp, v.name))
    new = [cx.real("new " + n) for n in names]
    out = M.sys_vars_to_solution_input(
        cx.real_array(new) if cx.symbolic else np.array(new), inp, enum)
    back = M.solution_input_to_sys_vars(out, enum)
    for i in range(len(names)):
        cx.ensure_eq("and back", back[i], new[i])
    for v in enum:
        cx.ensure_eq("value of %s" % v.name, getattr(out, v.name), new[v])
    for k in FIELDS:
        if k in ("label", "interp_slice"):
            continue
        if k not in names:
            cx.ensure_true("other settings kept",
                           getattr(out, k) is getattr(inp, k))
        cx.ensure_true("the given input is left alone",
                       getattr(inp, k) is getattr(before, k))


@contract("inputs that are tried", ["solve.mcmc.solution_input_valid"])
def valid(cx):
    inp = some_input(cx, None)
    zero = cx.choice("at zero", [None] + NAMES)
    if zero:
        setattr(inp, zero, cx.real("zero", lo=0, hi=0))
    ok = M.solution_input_valid(inp)
    good = None
    for k in NAMES:
        c = 0 < getattr(inp, k)
        good = c if good is None else (
            good & c if cx.symbolic else bool(good) and bool(c))
    if ok:
        cx.ensure("accepted only if all are positive", good)
    else:
        cx.ensure("refused only if one is not positive",
                  ~good if cx.symbolic else not good)


def solution(i):
    return C.Solution(
        solution_input=i, angles=None, solution=None, flag=0,
        coordinate_system=None, internal_data=None, initial_conditions=None,
        t_roots=None, y_roots=None, sonic_point=None, sonic_point_values=None)


def evaluate(cx, n):
    """n evaluations of the log probability"""
    w, names = choose(cx)
    inp = some_input(cx, w)
    internal = cx.choice("internal data", [True, False])
    enum = M.generate_sysvars_enum(inp)
    run = new_run()
    state = {}

    def conditions(i):
        state["inp"] = i
        if state["how"] == "no conditions":
            raise SolverError("no")
        return Thing("conditions", inp=i)

    def solve(i, cons, *, store_internal=True, **k):
        cx.ensure_true("conditions of this input", cons.inp is i)
        cx.ensure_true("internal data as asked", store_internal is internal)
        if state["how"] == "no solution":
            raise SolverError("no")
        state["soln"] = solution(i)
        return state["soln"]

    def prob(s):
        cx.ensure_true("of the solution found", s is state["soln"])
        return state["prob"]
    cx.stub(M.define_conditions, conditions)
    cx.stub(M.solution, solve)
    cx.stub(M.get_logprob_of_soln, prob)
    f = M.LogProbGenerator(inp, run, store_internal=internal,
                           sys_vars_enum=enum)
    cx.ensure_true("no best solution yet", f.best_solution is None)
    probs, kept = [], []
    for k in range(n):
        state.clear()
        state["how"] = cx.choice("trial %d" % k, [
            "solved", "no conditions", "no solution", "invalid", "infinite",
            "undefined"])
        state["prob"] = {"infinite": -math.inf, "undefined": math.nan}.get(
            state["how"])
        if state["prob"] is None:
            state["prob"] = cx.real("prob %d" % k)
        pos = [cx.real("pos %d %s" % (k, m), pos=True) for m in names]
        if state["how"] == "invalid":
            pos[0] = -pos[0]
        for m in NAMES:     # variables that are not searched
            if m not in names:
                cx.require(0 < getattr(inp, m))
        got = f(cx.real_array(pos) if cx.symbolic else np.array(pos))
        if state["how"] in ("no conditions", "no solution", "invalid",
                            "infinite"):
            cx.ensure_true("impossible", isinf(got))
        elif state["how"] == "undefined":
            cx.ensure_true("undefined", not isinf(got))
        else:
            cx.ensure_eq("its log probability", got, state["prob"])
            probs.append(state["prob"])
            kept.append(state["soln"])
            for v in enum:
                cx.ensure_eq("solved where asked", getattr(
                    state["soln"].solution_input, v.name), pos[v])
        cx.ensure_true("solutions with a probability are stored",
                       [run.solutions[str(i)] for i in range(len(
                           run.solutions))] == kept)
        best = f.best_solution
        if not kept:
            cx.ensure_true("no best solution", best is None)
            continue
        at = [i for i, s in enumerate(kept) if s is best]
        cx.ensure_true("the best is one that was found", len(at) == 1)
        if len(at) == 1:
            for p in probs:
                cx.ensure("the best is at least as good",
                          p <= probs[at[0]])
    return run, f


def isinf(x):
    if hasattr(x, "n") and getattr(x.n, "op", None) == "inf":
        return x.n.args[0] == -1
    return isinstance(x, float) and x == -math.inf


@contract("evaluating positions", [
    "solve.mcmc.LogProbGenerator.__call__",
    "solve.mcmc.LogProbGenerator.best_solution"], samples=2, budget=400,
    note="the state after any history is (best value, its index), reached in "
    "full generality by one evaluation")
def evaluating(cx):
    evaluate(cx, 2)


@contract("evaluating more positions", [
    "solve.mcmc.LogProbGenerator.__call__"], samples=2,
    bounded="three to five evaluations, sampled")
def evaluating_more(cx):
    evaluate(cx, cx.choice("evaluations", [3, 4, 5]))


@contract("the log probability", ["solve.mcmc.get_logprob_of_soln",
                                  "solve.mcmc.get_outflow_rate_probability"],
          bounded="partly symbolic: tables of one to six rows")
def logprob(cx):
    n = cx.choice("rows", [1, 2, 3, 4, 5, 6])
    v = [cx.real("v%d" % i) for i in range(n)]
    if cx.symbolic:
        t = cx.real_array([cx.real("x%d" % k) for k in range(11 * n)])
        t = t.reshape((n, 11))
    else:
        t = np.ones((n, 11))
    for i in range(n):
        t[i, O.v_θ] = v[i]
    s = Thing("soln", solution=t)
    big = v[0]
    for x in v[1:]:
        big = cx.ite(big < x, x, big)
    got = M.get_logprob_of_soln(s)
    d = [(v[i + 1] - v[i]) ** 2 for i in range(n - 1)]
    rough = 0
    for i in range(n - 2):
        rough = rough + (d[i + 1] - d[i]) ** 2
    from dv import expr as E
    e = E.wrap(E.fn("exp", E.node(-big))) if cx.symbolic else math.exp(-big)
    cx.ensure_eq("value", got, -10 * e - rough)


@contract("where the walkers start",
          ["solve.mcmc.generate_initial_positions"],
          bounded="partly symbolic: one to three walkers")
def start(cx):
    w, names = choose(cx)
    inp = some_input(cx, w)
    inp.nwalkers = cx.choice("walkers", [1, 2, 3])
    enum = M.generate_sysvars_enum(inp)
    z = {}

    def randn(*shape):
        cx.ensure_true("one number per walker and variable",
                       shape == (inp.nwalkers, len(names)))
        a = [[cx.real("z%d%d" % (i, j)) for j in range(len(names))]
             for i in range(inp.nwalkers)]
        z["a"] = a
        if cx.symbolic:
            r = cx.real_array([x for row in a for x in row])
            return r.reshape((inp.nwalkers, len(names)))
        return np.array(a)
    cx.stub(M.randn, randn)
    out = M.generate_initial_positions(inp, enum)
    cx.ensure_true("shape", np.shape(out) == (inp.nwalkers, len(names)))
    for i in range(inp.nwalkers):
        for v in enum:
            cx.ensure_eq("around the input", out[i, v], getattr(
                inp, v.name) * (1 + z["a"][i][v] / 10))


@contract("the whole search", ["solve.mcmc.solver"],
          bounded="partly symbolic: up to two evaluations")
def whole(cx):
    w, names = choose(cx)
    inp = some_input(cx, w, pos=True)
    inp.iterations = Thing("iterations")
    internal = cx.choice("internal data", [True, False])
    run = new_run()
    found = []
    n = cx.choice("evaluations", [0, 1, 2])
    asked = {}

    def solve(i, cons, *, store_internal=True, **k):
        cx.ensure_true("internal data as asked", store_internal is internal)
        found.append(solution(i))
        return found[-1]
    probs = []

    def prob(s):
        probs.append(cx.real("prob %d" % len(probs)))
        return probs[-1]

    class Sampler:
        def __init__(self, walkers, dims, f, *a, **k):
            cx.ensure_true("walkers", walkers is inp.nwalkers)
            cx.ensure_true("dimensions", dims == len(names))
            self.f = f

        def run_mcmc(self, start, iterations, **k):
            cx.ensure_true("iterations", iterations is inp.iterations)
            cx.ensure_true("starting points", start == "positions")
            asked["ran"] = True
            for k in range(n):
                pos = [cx.real("pos %d %s" % (k, m), pos=True)
                       for m in names]
                self.f(cx.real_array(pos) if cx.symbolic else np.array(pos))
    cx.patch(M, "emcee", Thing("emcee", EnsembleSampler=Sampler))
    cx.stub(M.define_conditions, lambda i: Thing("c"))
    cx.stub(M.solution, solve)
    cx.stub(M.get_logprob_of_soln, prob)
    cx.stub(M.generate_initial_positions, lambda *a, **k: "positions")
    ok = M.solver(inp, run, store_internal=internal)
    cx.ensure_true("ran", asked.get("ran") and ok is True)
    if not found:
        cx.ensure_true("no final solution", run.final_solution is None)
        return
    at = [i for i, s in enumerate(found) if s is run.final_solution]
    cx.ensure_true("the final solution is one found", len(at) == 1)
    if len(at) == 1:
        for p in probs:
            cx.ensure("the best one", p <= probs[at[0]])
