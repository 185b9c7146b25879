"""The search for the input whose flow passes the sonic point."""
import copy
import sys

from disc_solver.file_format import _containers as C
from disc_solver.solve import stepper as ST

from dv.api import registry
from dv.core import Infeasible
from .C05 import FIELDS, OPTIONAL

PROPERTY = "C10"
CONTRACTS, contract = registry()
ASSUMPTIONS = [
    "the running time of the search and what the flow solver does with an "
    "input are outside these contracts (see C04, C19)"]

STOP, FLIP, DIVERGE = (ST.SplitterStatus.STOP, ST.SplitterStatus.SIGN_FLIP,
                       ST.SplitterStatus.DIVERGE)


class Thing:
    """An opaque value."""
    def __init__(self, name, **k):
        self.name = name
        self.__dict__.update(k)

    def __repr__(self):
        return self.name


def some_input(cx, γ):
    """An input with recognisable values for everything but γ"""
    values = {k: Thing(k) for k in FIELDS if k != "label"}
    values.update(γ=γ, mcmc_vars=None, interp_slice=slice(-20, -3),
                  split_method="v_θ_deriv")
    return C.SolutionInput(**values)


def check_only_γ(cx, what, new, old):
    for k in FIELDS:
        if k not in ("label", "γ", "interp_slice"):
            cx.ensure_true("%s: other settings" % what,
                           getattr(new, k) is getattr(old, k))
    cx.ensure_true("%s: slice" % what, new.interp_slice == old.interp_slice)


@contract("the next input", ["solve.stepper.step_input"], budget=40)
def step(cx):
    γ, size = cx.real("γ"), cx.real("step", pos=True)
    inp = some_input(cx, γ)
    old = copy.copy(inp)
    t = cx.choice("type", [STOP, FLIP, DIVERGE, None, "sign flip"])
    status, new = cx.attempt(ST.step_input(), Thing(
        "soln", solution_input=inp), t, size)
    cx.ensure_eq("the trial keeps its own input", inp.γ, γ)
    check_only_γ(cx, "trial", inp, old)
    if t is STOP:
        cx.ensure_true("stops", status == "raise" and
                       isinstance(new, ST.StepperStop))
        return
    if t not in (FLIP, DIVERGE):
        cx.ensure_true("refuses unknown types", status == "raise" and
                       isinstance(new, ST.StepperError))
        return
    cx.ensure_true("goes on", status == "ok")
    if status == "ok":
        check_only_γ(cx, "next", new, old)
        cx.ensure_true("a new input", new is not inp)
        cx.ensure_eq("next γ", new.γ, γ + size if t is FLIP else γ - size)


@contract("the next input at the limit of precision",
          ["solve.stepper.step_input"], samples=2,
          bounded="sampled γ in 1e-4 … 2 and steps down to 1e-25 (machine "
          "arithmetic)")
def limit(cx):
    if cx.symbolic:
        cx.cover("machine arithmetic only")
        return
    γ = cx.real("γ", lo=1e-4, hi=2)
    size = γ * 10 ** -cx.real("digits", lo=14, hi=21)
    inp = some_input(cx, γ)
    t = cx.choice("type", [FLIP, DIVERGE])
    status, new = cx.attempt(ST.step_input(), Thing(
        "soln", solution_input=inp), t, size)
    if t is DIVERGE and γ - size == γ:
        cx.ensure_true("stops", status == "raise" and
                       isinstance(new, ST.StepperStop))
        return
    cx.ensure_true("goes on", status == "ok")
    if status != "ok":
        return
    if γ + size != γ and γ - size != γ:
        cx.ensure_true("next γ", new.γ == (
            γ + size if t is FLIP else γ - size))
    elif t is FLIP:
        cx.ensure_true("a larger γ", new.γ > γ)
        cx.ensure_true("not much larger", new.γ - γ <= 1e-14 * γ)


# ---------------------------------------------------------------- step sizes
class Log:
    def __init__(self):
        self.calls = []


def machine(cx, types):
    """A stepper with recorded collaborators, fed the given trial types."""
    s0 = cx.real("initial step", pos=True)
    m = cx.int("search limit", lo=1, hi=None if cx.symbolic else 6)
    seen = []
    feed = {"t": None}

    def write(soln, attempt):
        seen.append(("write", soln, attempt))

    def kind(soln):
        seen.append(("type", soln))
        return feed["t"]

    def move(soln, soln_type, step_size):
        seen.append(("step", soln, soln_type, step_size))
        return Thing("next")
    stepper = ST.stepper_creator(write, move, kind, initial_step_size=s0,
                                 max_search_steps=m)

    def feed_one(t, attempt):
        """-> (raised?, step size used)"""
        soln = Thing("soln")
        feed["t"] = t
        del seen[:]
        status, out = cx.attempt(stepper, soln, attempt)
        writes = [c for c in seen if c[0] == "write"]
        cx.ensure_true("the trial is written once", len(writes) == 1 and
                       writes[0][1] is soln and writes[0][2] is attempt)
        steps = [c for c in seen if c[0] == "step"]
        if status == "raise":
            cx.ensure_true("gives up as a search failure",
                           isinstance(out, ST.StepperError))
            cx.ensure_true("no step when giving up", not steps)
            return True, None
        cx.ensure_true("one step", len(steps) == 1 and
                       steps[0][1] is soln and steps[0][2] == t)
        cx.ensure_true("the next input is returned",
                       getattr(out, "name", "") == "next")
        return False, steps[0][3] if len(steps) == 1 else None
    return s0, m, stepper, feed_one


def at_most(cx, m, k):
    return bool(cx.le(k, m)) if not cx.symbolic else cx.le(k, m)


@contract("step sizes of a search", ["solve.stepper.stepper_creator"],
          bounded="partly symbolic: searches of up to five trials", samples=2)
def history(cx):
    n = cx.choice("trials", [1, 2, 3, 4, 5])
    types = [cx.choice("type %d" % i, [FLIP, DIVERGE]) for i in range(n)]
    s0, m, _, feed = machine(cx, types)
    started = None
    for i, t in enumerate(types):
        raised, size = feed(t, Thing("attempt"))
        if started is None:
            cx.ensure("gives up only after the limit",
                      cx.le(i + 1, m) if not raised else not_(
                          cx, cx.le(i + 1, m)))
        else:
            cx.ensure_true("does not give up once halving", not raised)
        if raised:
            return
        if started is None and t != types[0]:
            started = i
        want = s0 if started is None else s0 / 2 ** (i - started + 1)
        cx.ensure_eq("step size", size, want)


def not_(cx, c):
    return ~c if cx.symbolic else not c


def cells(f):
    out = {}
    for k, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
        try:
            out[k] = c
        except ValueError:
            pass
    return out


@contract("step sizes of any search", ["solve.stepper.stepper_creator"],
          weak=True)
def induction(cx):
    """After any number of trials: the state of the stepper is generalised
    (the counter to any number, the step to any size) and one more trial is
    made; the state reached is again one of those."""
    if not cx.symbolic:
        return
    phase = cx.choice("phase", ["searching", "halving"])
    t0 = cx.choice("first", [FLIP, DIVERGE])
    s0, m, stepper, feed = machine(cx, None)
    att = Thing("attempt")
    cx.require(cx.le(3, m))
    raised, _ = feed(t0, att)
    v1 = {k: c.cell_contents for k, c in cells(stepper).items()}
    raised, size = feed(t0, att)
    v2 = {k: c.cell_contents for k, c in cells(stepper).items()}
    moved = [k for k in v1 if v1[k] is not v2[k] and not (
        isinstance(v1[k], (int, bool)) and v1[k] == v2[k])]
    counters = [k for k in moved if type(v2[k]) is int and
                v2[k] == v1[k] + 1]
    sizes = [k for k in v2 if v2[k] is s0 and k not in moved]
    if moved != counters or len(counters) != 1 or v2[counters[0]] != 2 \
            or not sizes:
        cx.cover("another representation: bounded histories only")
        return
    cell = cells(stepper)
    c = cx.int("trials so far", lo=1)
    if phase == "searching":
        cell[counters[0]].cell_contents = c
        t = cx.choice("type", [FLIP, DIVERGE])
        raised, size = feed(t, att)
        cx.ensure("gives up exactly past the limit",
                  cx.le(c + 1, m) if not raised else not_(
                      cx, cx.le(c + 1, m)))
        if raised:
            return
        cx.ensure_eq("step size", size, s0 if t == t0 else s0 / 2)
        after = {k: x.cell_contents for k, x in cell.items()}
        if t == t0:
            cx.ensure_eq("counts on", after[counters[0]], c + 1)
            for k in after:
                if k not in counters:
                    cx.ensure_true("same state", after[k] is v2[k] or
                                   after[k] == v2[k])
        return
    other = DIVERGE if t0 is FLIP else FLIP
    feed(other, att)
    h1 = {k: x.cell_contents for k, x in cell.items()}
    s = cx.real("current step", pos=True)
    halved = [k for k in h1 if k in sizes and h1[k] is not v2[k]]
    if len(halved) != 1:
        cx.cover("another representation: bounded histories only")
        return
    cx.ensure_eq("first halving", h1[halved[0]], s0 / 2)
    cell[halved[0]].cell_contents = s
    cell[counters[0]].cell_contents = c
    t = cx.choice("type", [FLIP, DIVERGE])
    raised, size = feed(t, att)
    cx.ensure_true("goes on", not raised)
    if raised:
        return
    cx.ensure_eq("step size", size, s / 2)
    after = {k: x.cell_contents for k, x in cell.items()}
    cx.ensure_eq("remembered", after[halved[0]], s / 2)
    for k in after:
        if k not in halved and k not in counters:
            cx.ensure_true("same state", after[k] is h1[k] or
                           after[k] == h1[k])


# ------------------------------------------------------------------ the loop
class World:
    """Recorded collaborators of the search loop; results[i] says how trial i
    ends: pass, fail, or fail by raising."""
    def __init__(self, cx, result):
        self.cx, self.result = cx, result
        self.first = Thing("initial input")
        self.inputs, self.trials, self.events = [], [], []
        self.next = self.first

    def func(self, inp):
        self.inputs.append(inp)
        self.events.append("trial")
        out = Thing("trial %d" % len(self.trials))
        self.trials.append(out)
        k = self.result(len(self.trials) - 1)
        self.last = k
        return out, k == "pass"

    def passed(self, out, attempt):
        self.events.append("pass")
        self.arg = (out, attempt)
        return Thing("passed")

    def fail(self, out, attempt):
        self.events.append("fail")
        self.arg = (out, attempt)
        if self.last == "error":
            raise ST.StepperError("e")
        if self.last == "stop":
            raise ST.StepperStop("s")
        self.next = Thing("input")
        return self.next

    def final(self, attempt):
        self.events.append("final")
        self.final_arg = attempt
        return Thing("final")

    def run(self, n):
        return self.cx.attempt(ST.binary_searcher, self.func, self.passed,
                               self.fail, self.final, self.first,
                               num_attempts=n)


@contract("the search loop", ["solve.stepper.binary_searcher"],
          bounded="partly symbolic: up to four attempts", samples=2)
def loop(cx):
    n = cx.choice("attempts", [0, 1, 2, 3, 4])
    results = []

    def result(i):
        results.append(cx.choice("result %d" % i,
                                 ["fail", "pass", "error", "stop"]))
        return results[-1]
    w = World(cx, result)
    inputs = []
    orig = w.fail

    def fail(out, attempt):
        cx.ensure_true("the failed trial is passed on",
                       out is w.trials[-1])
        cx.ensure_eq("with its number", attempt, len(w.trials) - 1)
        r = orig(out, attempt)
        inputs.append(r)
        return r
    w.fail = fail
    status, out = w.run(n)
    cx.ensure_true("returns", status == "ok")
    if status != "ok":
        return
    end = [r for r in results if r != "fail"]
    cx.ensure_true("stops at the first end", results[:-1] ==
                   ["fail"] * (len(results) - 1))
    cx.ensure_true("as many trials as needed",
                   len(results) == n or bool(end))
    cx.ensure_true("inputs in order",
                   [id(x) for x in w.inputs] == [
                       id(x) for x in ([w.first] + inputs)[:len(results)]])
    name = getattr(out, "name", None)
    if end == ["pass"]:
        cx.ensure_true("accepted", name == "passed" and
                       w.arg[0] is w.trials[-1])
        cx.ensure_eq("its number", w.arg[1], len(results) - 1)
        cx.ensure_true("nothing after", w.events.count("pass") == 1
                       and "final" not in w.events)
    elif end == ["stop"]:
        cx.ensure_true("stopped", name == "final")
        if name == "final":
            cx.ensure_eq("at the last trial", w.final_arg, len(results) - 1)
    else:
        cx.ensure_true("not found", out is None and
                       "final" not in w.events and "pass" not in w.events)


class Cut(Infeasible):
    """The arbitrary iteration is done."""


@contract("any iteration of the search loop",
          ["solve.stepper.binary_searcher"], weak=True)
def iteration(cx):
    """Base case and step of an induction over the attempts: after the first
    iteration the only state is the input handed back by the stepper, so the
    second iteration stands for iteration k of any search."""
    if not cx.symbolic:
        return
    n = cx.int("attempts", lo=1)
    k = cx.int("iteration", lo=1)
    cx.require(k < n)
    results = []

    def result(i):
        results.append("fail" if i == 0 else cx.choice(
            "result", ["fail", "pass", "error", "stop"]))
        return results[-1]
    w = World(cx, result)
    jumped = {}

    def rng(*a):
        lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
        if len(a) > 2:
            cx.ghost["other"] = True
            raise Cut()
        cx.ensure_eq("first number", lo, 0)
        cx.ensure_eq("number of attempts", hi, n)
        yield 0
        known = [w.first, w.func, w.passed, w.fail, w.final, n,
                 w.next] + w.trials + [False, 0]
        f = sys._getframe(1)
        for v in f.f_locals.values():
            if not any(v is x or type(v) is type(x) and
                       isinstance(v, (int, bool)) and v == x
                       for x in known) and not callable(v) and \
                    not hasattr(v, "gi_frame"):
                raise Cut()     # other state: not this induction
        jumped["yes"] = True
        yield k
        jumped["again"] = True
        if cx.choice("then", ["more", "exhausted"]) == "more":
            raise Cut()
    cx.patch(ST, "range", rng)
    status, out = w.run(n)
    if "yes" not in jumped or len(w.inputs) < 2:
        return
    last = results[-1]
    cx.ensure_true("returns", status == "ok")
    if status != "ok":
        return
    cx.ensure_true("the input handed back is tried", w.inputs[1].name ==
                   "input")
    cx.ensure_true("one trial each", len(w.inputs) == 2)
    name = getattr(out, "name", None)
    if last == "fail":
        cx.ensure_true("goes on until exhausted", "again" in jumped and
                       out is None)
    elif last == "pass":
        cx.ensure_true("accepted", name == "passed" and
                       w.arg[0] is w.trials[-1])
        cx.ensure_eq("its number", w.arg[1], k)
    elif last == "stop":
        cx.ensure_true("stopped", name == "final")
        if name == "final":
            cx.ensure_eq("at this trial", w.final_arg, k)
    else:
        cx.ensure_true("not found", out is None)
    if last != "fail":
        cx.ensure_true("ends here", "again" not in jumped)


# ------------------------------------------------------------ what is stored
def new_run():
    return C.Run(config_input=None, config_filename=None,
                 disc_solver_version=None, float_type=None,
                 sonic_method="step")


@contract("what a search stores and returns", [
    "solve.stepper.solver", "solve.stepper.writer_generator",
    "solve.stepper.cleanup_generator",
    "solve.stepper.alternate_cleanup_generator",
    "solve.stepper.solution_generator"],
    bounded="partly symbolic: searches of up to four trials", samples=2,
    budget=90)
def stored(cx):
    n = cx.choice("attempts", [1, 2, 3, 4])
    none_final = cx.choice("final solution", ["kept", "not kept"])
    internal = cx.choice("internal data", [True, False])
    γ = cx.real("γ", pos=True)
    inp = some_input(cx, γ)
    results, sols, γs = [], [], []

    def conditions(i):
        return Thing("conditions", inp=i)

    def solve(i, cons, *, store_internal=True, **k):
        cx.ensure_true("conditions of this input", cons.inp is i or
                       cons.inp == i)
        cx.ensure_true("internal data as asked", store_internal == internal)
        s = C.Solution(
            solution_input=i, angles=None, solution=None, flag=0,
            coordinate_system=None, internal_data=None,
            initial_conditions=None, t_roots=None, y_roots=None,
            sonic_point=None, sonic_point_values=None)
        sols.append(s)
        γs.append(i.γ)
        return s

    def best(s):
        results.append(cx.choice("result %d" % len(results), [
            "pass", FLIP, DIVERGE, STOP]))
        return s, results[-1] == "pass"
    cx.stub(ST.define_conditions, conditions)
    cx.stub(ST.solution, solve)
    cx.stub(ST.is_solution_best, best)
    cx.stub(ST.v_θ_deriv_splitter, lambda s, **k: results[-1])
    run = new_run()
    m = cx.choice("search limit", [2, 20])
    status, ok = cx.attempt(
        ST.solver, inp, run, store_internal=internal, num_attempts=n,
        max_search_steps=m, no_final_solution=none_final == "not kept")
    cx.ensure_true("returns", status == "ok")
    if status != "ok":
        return
    # what should have happened
    want, size, started = [γ], γ / 10, False
    end = None
    for i, r in enumerate(results):
        if r == "pass":
            end = "pass"
            break
        if not started and i + 1 > m:
            end = "error"
            break
        if r != results[0]:
            started = True
        if started:
            size = size / 2
        if r == STOP:
            end = "stop"
            break
        want.append(want[-1] + size if r == FLIP else want[-1] - size)
    cx.ensure_true("trials made", len(sols) == len(results) and (
        len(results) == n or end is not None) and (
            end is None or results.index(results[-1]) >= 0))
    cx.ensure_true("every trial stored in order", [
        run.solutions[str(i)] for i in range(len(sols))] == sols and
        len(run.solutions) == len(sols))
    for i, s in enumerate(sols):
        cx.ensure_eq("γ of each trial", γs[i], want[i])
        cx.ensure_eq("stored input is the one solved", s.solution_input.γ,
                     want[i])
    cx.ensure_eq("the given input is left alone", inp.γ, γ)
    if none_final == "not kept":
        cx.ensure_true("reports success", ok is True)
        cx.ensure_true("no final solution",
                       not isinstance(run.final_solution, C.Solution))
    elif end in ("pass", "stop"):
        cx.ensure_true("reports success", ok is True)
        cx.ensure_true("final solution", run.final_solution is sols[-1])
    else:
        cx.ensure_true("reports failure", ok is False)
        cx.ensure_true("no final solution", run.final_solution is None)


@contract("how trials are told apart", ["solve.stepper.create_soln_splitter"])
def splitter(cx):
    m = cx.choice("method", ["v_θ_deriv", "no such method"])
    status, out = cx.attempt(ST.create_soln_splitter, m)
    cx.ensure_true("the default is the automatic one",
                   status == "ok" and out is ST.v_θ_deriv_splitter)
