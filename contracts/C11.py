"""Which trial flows are accepted, and how the others are classified."""
from scikits.odes.sundials.cvode import StatusEnum

from disc_solver.file_format import _containers as C
from disc_solver.solve import stepper as ST
from disc_solver.solve import utils as SU
from disc_solver.utils import ODEIndex as O

from dv.api import registry

PROPERTY = "C11"
CONTRACTS, contract = registry()
ASSUMPTIONS = []

CUT = 0.9


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def flow(cx, minlen=1, **k):
    if cx.symbolic:
        t = cx.vec("soln", cols=11, minlen=minlen)
        return t, NS(solution=t, flag=StatusEnum.SUCCESS, internal_data=None,
                     **k)
    # concrete: velocities near the sonic point, sorted or nearly so
    t = cx.vec("soln", cols=11, minlen=minlen)
    mode = cx.choice("shape", ["any", "sorted", "concave", "convex"])
    n = len(t)
    if mode != "any" and n:
        import numpy as np
        top = cx.real("top", lo=.5, hi=1.4)
        if cx.choice("close", [False, True]):
            top = 1 + (top - 1) / 20
            x = np.linspace(cx.real("bottom", lo=.95, hi=.99), 1, n)
        else:
            x = np.linspace(cx.real("bottom", lo=0, hi=.95), 1, n)
        x = {"sorted": x, "concave": 1 - (1 - x) ** 2,
             "convex": x ** 2}[mode]
        t[:, O.v_θ] = x * top
        t[:, O.ρ] = abs(t[:, O.ρ])
    return t, NS(solution=t, flag=StatusEnum.SUCCESS, internal_data=None,
                 **k)


def land(cx, *cs):
    if cx.symbolic:
        out = cs[0]
        for c in cs[1:]:
            out = out & c
        return out
    return all(bool(c) for c in cs)


def neg(cx, c):
    return ~c if cx.symbolic else not c


def healthy(cx, t):
    n = cx.length(t)
    return land(
        cx,
        cx.forall_int(lambda i: (0 <= t[i, O.v_θ]), 0, n),
        cx.forall_int(lambda i: (0 <= t[i, O.ρ]), 0, n),
        cx.forall_int(lambda i: (t[i, O.v_θ] <= t[i + 1, O.v_θ]), 0, n - 1))


@contract("a valid flow", ["solve.utils.validate_solution"])
def valid(cx):
    t, s = flow(cx)
    s.flag = cx.choice("flag", [
        StatusEnum.SUCCESS, StatusEnum.TSTOP_RETURN, StatusEnum.ROOT_RETURN,
        StatusEnum.TOO_CLOSE, StatusEnum.TOO_MUCH_WORK, None])
    out, ok = SU.validate_solution(s)
    cx.ensure_true("hands the flow back", out is s)
    if s.flag != StatusEnum.SUCCESS:
        cx.ensure_true("only finished integrations", not ok)
        return
    good = healthy(cx, t)
    cx.ensure("accepted only if healthy" if ok else
              "refused only if not healthy", good if ok else neg(cx, good))


def near(cx, t, i):
    v = t[i, O.v_θ]
    return land(cx, CUT < v, v < 1)


@contract("an accepted flow", ["solve.stepper.is_solution_best",
                               "solve.utils.validate_solution"])
def best(cx):
    t, s = flow(cx)
    n = cx.length(t)
    out, ok = ST.is_solution_best(s)
    cx.ensure_true("hands the flow back", out is s)
    cx.lemma_rising(lambda i: t[i, O.v_θ], n)
    good = healthy(cx, t)
    reaches = cx.exists_int(lambda i: near(cx, t, i), 0, n)
    bends = cx.forall_int(lambda i: cx.imply(
        land(cx, near(cx, t, i), near(cx, t, i + 1), near(cx, t, i + 2)),
        (t[i + 2, O.v_θ] - t[i + 1, O.v_θ] <=
         t[i + 1, O.v_θ] - t[i, O.v_θ])), 0, n - 2)
    if ok:
        cx.ensure("healthy", good)
        cx.ensure("comes close to the sonic speed", reaches)
        cx.ensure("does not steepen there", bends)
    else:
        cx.ensure("refused for a reason",
                  neg(cx, land(cx, good, reaches, bends)))


@contract("a flow that failed", ["solve.stepper.is_solution_best"])
def failed(cx):
    t, s = flow(cx)
    s.flag = cx.choice("flag", [StatusEnum.TOO_CLOSE, StatusEnum.TSTOP_RETURN,
                                StatusEnum.ROOT_RETURN, None])
    out, ok = ST.is_solution_best(s)
    cx.ensure_true("not accepted", out is s and not ok)


def by_velocity(cx, t, kind):
    """Classification by the velocities alone"""
    n = cx.length(t)
    reaches = cx.exists_int(lambda i: near(cx, t, i), 0, n)
    above = cx.exists_int(lambda i: 1 < t[i, O.v_θ], 0, n)
    # rows in the interval follow each other upwards
    rising = cx.forall_int(lambda i: cx.forall_int(
        lambda j: cx.imply(land(cx, near(cx, t, i), near(cx, t, j),
                                cx.le(i, j) if cx.symbolic else i <= j),
                           t[i, O.v_θ] <= t[j, O.v_θ]), 0, n), 0, n)
    diverges = land(cx, reaches, lor(cx, above, rising))
    cx.ensure_true("one of two types", kind in (
        ST.SplitterStatus.DIVERGE, ST.SplitterStatus.SIGN_FLIP))
    cx.ensure("diverges only if", diverges) \
        if kind is ST.SplitterStatus.DIVERGE else \
        cx.ensure("turns back only if", neg(cx, diverges))


def lor(cx, a, b):
    return a | b if cx.symbolic else bool(a) or bool(b)


@contract("the type of a trial without internal data",
          ["solve.stepper.v_θ_deriv_splitter",
           "utils.is_monotonically_increasing"])
def split(cx):
    t, s = flow(cx)
    by_velocity(cx, t, ST.v_θ_deriv_splitter(s))


@contract("the type of a trial with a negative velocity",
          ["solve.stepper.v_θ_deriv_splitter"])
def negative(cx):
    t, s = flow(cx)
    p = C.Problems()
    where = cx.choice("where", [0, 1])
    if where:
        p[0.1].append("other problem")
    p[0.2].append("negative velocity")
    s.internal_data = C.InternalData(problems=p)
    cx.ensure_true("turns back", ST.v_θ_deriv_splitter(s) is
                   ST.SplitterStatus.SIGN_FLIP)


@contract("the type of a trial with uneventful internal data",
          ["solve.stepper.v_θ_deriv_splitter"])
def steady(cx):
    t, s = flow(cx)
    d = cx.vec("derivs", cols=11, minlen=11)
    c = cx.real("slope")
    m = cx.length(d)
    if cx.symbolic:
        for j in range(11):
            cx.require(cx.forall_int(lambda i: cx.eq(d[i, j], c), 0, m))
    else:
        d[...] = c
    p = C.Problems()
    if cx.choice("problem", [False, True]):
        p[0.1].append("other problem")
    s.internal_data = C.InternalData(problems=p, derivs=d)
    by_velocity(cx, t, ST.v_θ_deriv_splitter(s))


@contract("the type of a trial from the slope of the velocity",
          ["solve.stepper.v_θ_deriv_splitter"], bounded="two histories of the "
          "slope (linear fall; quadratic rise)")
def derivs(cx):
    import numpy as np
    d = np.zeros((12, 11))
    which = cx.choice("slope", ["falling", "curving up"])
    if which == "falling":
        d[:, O.v_θ] = -np.arange(12)
    else:
        d[:] = 25
        d[:, O.v_θ] = np.arange(12) ** 2
    t = np.zeros((3, 11))
    t[:, O.v_θ] = [0, .1, .2]
    s = NS(solution=t, flag=StatusEnum.SUCCESS,
           internal_data=C.InternalData(derivs=d))
    kind = ST.v_θ_deriv_splitter(s)
    if which == "falling":
        cx.ensure_true("a falling slope turns back",
                       kind is ST.SplitterStatus.SIGN_FLIP)
    else:
        cx.ensure_true("a slope curving up diverges",
                       kind is ST.SplitterStatus.DIVERGE)
