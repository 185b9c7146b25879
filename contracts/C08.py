"""Containers of a run: solutions, final solution, problems, conditions."""
import copy

import attr
import numpy as np

from disc_solver.file_format import _containers as C

from dv.api import registry
from . import C06
from .C05 import FIELDS
from .C06 import same
from .C10 import Thing

PROPERTY = "C08"
CONTRACTS, contract = registry()
ASSUMPTIONS = ["files are covered by C06; here runs are kept in memory"]


def solutions(cx, n):
    s = C.Solutions()
    things = [Thing("s%d" % i) for i in range(n)]
    order = list(range(n))
    if n > 2 and cx.choice("order in the file", ["by number", "by name"]) == \
            "by name":
        order.sort(key=str)
    for i in order:
        s[str(i)] = things[i]
    return s, things


@contract("adding solutions", [
    "file_format.Solutions.add_solution",
    "file_format.Solutions._get_next_index",
    "file_format.Solutions.get_last_solution",
    "file_format.Solutions.__getitem__", "file_format.Solutions.__setitem__"],
    bounded="partly symbolic: after 0, 1, 2, 9, 10, 11, 99 or 100 solutions")
def adding(cx):
    n = cx.choice("solutions", [0, 1, 2, 9, 10, 11, 99, 100])
    s, things = solutions(cx, n)
    if n:
        cx.ensure_true("last", s.get_last_solution() is things[-1])
    for k in range(2):
        new = Thing("new %d" % k)
        index = s.add_solution(new)
        cx.ensure_true("the next number", index == str(n + k))
        things.append(new)
        cx.ensure_true("stored under it", s[index] is new)
        cx.ensure_true("last", s.get_last_solution() is new)
    cx.ensure_true("the others stay", len(s) == n + 2 and all(
        s[str(i)] is t for i, t in enumerate(things)))


@contract("adding never replaces", ["file_format.Solutions._get_next_index"])
def replace(cx):
    n = cx.choice("solutions", [1, 2, 3])
    s, things = solutions(cx, n)
    gone = cx.choice("removed", [0, 1, 2])
    if gone >= n:
        return
    del s[str(gone)]
    before = {k: s[k] for k in s}
    cx.ensure_true("removed", str(gone) not in before)
    st, r = cx.attempt(s.add_solution, Thing("new"))
    cx.ensure_true("the others stay", all(s[k] is v for k, v in
                                          before.items()))
    if st == "ok":
        cx.ensure_true("under a free number", r not in before)


OPS = ["add", "set first", "set last", "set none", "finalise"]


@contract("the final solution", [
    "file_format.Run.final_solution", "file_format.Run.finalise"],
    bounded="partly symbolic: histories of up to four operations")
def final(cx):
    run = C.Run(config_input=Thing("c"), config_filename="f",
                disc_solver_version="v", float_type="t", sonic_method="m")
    cx.ensure_true("none at first", not isinstance(run.final_solution, Thing))
    things, chosen, set_ = [], None, False
    for k in range(cx.choice("operations", [1, 2, 3, 4])):
        op = cx.choice("operation %d" % k, OPS)
        if op == "add":
            things.append(Thing("s%d" % len(things)))
            run.solutions.add_solution(things[-1])
        elif op == "finalise":
            if not things and not set_:
                return
            run.finalise()
            if not set_:
                chosen, set_ = things[-1], True
        else:
            if op != "set none" and not things:
                return
            what = {"set first": lambda: things[0],
                    "set last": lambda: things[-1],
                    "set none": lambda: None}[op]()

            def put():
                run.final_solution = what
            st, _ = cx.attempt(put)
            cx.ensure_true("may be chosen once", (st == "ok") == (not set_))
            if not set_:
                chosen, set_ = what, True
        if set_:
            cx.ensure_true("stays as chosen", run.final_solution is chosen)
        cx.ensure_true("all solutions stay", [
            run.solutions[str(i)] for i in range(len(things))] == things and
            len(run.solutions) == len(things))


@contract("the run of a shock", ["file_format.Run.create_shock_run"])
def shock(cx):
    done = cx.choice("final solution chosen", [False, True])
    v = {k: Thing(k) for k in (
        "config_input", "config_filename", "disc_solver_version",
        "float_type", "sonic_method", "time", "use_E_r")}
    v["is_post_shock_only"] = cx.choice("post shock", [False, True])
    run = C.Run(**v)
    a, b = Thing("a"), Thing("b")
    run.solutions.add_solution(a)
    if done:
        run.final_solution = a
    new = run.create_shock_run(filename="file", solution_name="name")
    for k in v:
        if k != "is_post_shock_only":
            cx.ensure_true("same " + k, getattr(new, k) is v[k])
        cx.ensure_true("the old run stays", getattr(run, k) is v[k])
    cx.ensure_true("post shock", new.is_post_shock_only is True)
    cx.ensure_true("based on", new.based_on_solution_filename == "file" and
                   new.based_on_solution_solution_name == "name")
    cx.ensure_true("the old run is not based on it",
                   run.based_on_solution_filename is None)
    cx.ensure_true("no solutions", len(new.solutions) == 0)
    cx.ensure_true("no final solution", new.final_solution is not a)
    new.solutions.add_solution(b)
    new.final_solution = b
    cx.ensure_true("its own final solution", new.final_solution is b)
    cx.ensure_true("the old solutions stay", list(run.solutions) == ["0"] and
                   run.solutions["0"] is a)
    if done:
        cx.ensure_true("the old final solution stays",
                       run.final_solution is a)
    else:
        run.final_solution = a
        cx.ensure_true("the old run can still choose",
                       run.final_solution is a and new.final_solution is b)


POPS = ["append", "text", "list", "look"]


@contract("problems", [
    "file_format.Problems.__getitem__", "file_format.Problems.__setitem__",
    "file_format.Problems.__delitem__", "file_format.Problems.__iter__",
    "file_format.Problems.__len__", "file_format.Problems.__init__"],
    bounded="partly symbolic: three operations on two angles")
def problems(cx):
    p = C.Problems()
    want = {}
    angles = [0.25, 1.5]
    names = cx.choice("by name", [0, 1])
    for k in range(3):
        op = cx.choice("operation %d" % k, POPS)
        x = cx.choice("angle %d" % k, angles)
        key = str(x) if (k + names) % 2 else x
        if op == "append":
            p[key].append("a%d" % k)
            want.setdefault(str(x), []).append("a%d" % k)
        elif op == "text":
            p[key] = "t%d" % k
            want.setdefault(str(x), []).append("t%d" % k)
        elif op == "list":
            p[key] = ["l%d" % k, "m%d" % k]
            want.setdefault(str(x), []).extend(["l%d" % k, "m%d" % k])
        else:
            cx.ensure_true("what was reported", list(p[key]) ==
                           want.get(str(x), []))
    full = {k: list(v) for k, v in p.items() if v}
    cx.ensure_true("all problems, in order", full == want)
    q = C.Problems(**p)
    cx.ensure_true("a copy", {k: list(v) for k, v in q.items() if v} == want)
    q[.25].append("new")
    cx.ensure_true("a copy of its own", {
        k: list(v) for k, v in p.items() if v} == want)


@contract("removing problems", ["file_format.Problems.__delitem__"])
def remove(cx):
    p = C.Problems()
    p[0.25].append("a")
    p[1.5].append("b")
    key = cx.choice("key", [0.25, "0.25"])

    def drop():
        del p[key]
    st, _ = cx.attempt(drop)
    cx.ensure_true("removed", st == "ok" and list(p) == ["1.5"] and
                   p[1.5] == ["b"])


@contract("initial conditions", ["file_format.InitialConditions.__init__",
                                 "file_format.InitialConditions."
                                 "create_modified"])
def conditions(cx):
    short = cx.choice("values", [8, 11])
    x = [cx.real("x%d" % i) for i in range(11)]
    given = cx.choice("diffusivities", ["given", "left out"]) \
        if short == 11 else "given"
    bad = cx.choice("differing", [None, 0, 1, 2]) \
        if short == 11 and given == "given" else None
    η = list(x[8:])
    if bad is not None:
        η[bad] = cx.real("other")
        cx.require(η[bad] != x[8 + bad])
    kw = dict(zip(("η_O", "η_A", "η_H"), η)) if given == "given" else {}
    init = cx.real_array(x[:short])
    angles = cx.vec("angles")
    rest = {k: cx.real(k) for k in ("norm_kepler_sq", "a_0", "γ")}
    st, c = cx.attempt(C.InitialConditions, init_con=init, angles=angles,
                       **rest, **kw)
    if bad is not None:
        cx.ensure_true("refused", st == "raise")
        return
    cx.ensure_true("made", st == "ok")
    if st != "ok":
        return
    check(cx, c, x, rest, angles)
    y = [cx.real("y%d" % i) for i in range(11)]
    later = cx.vec("later angles")
    d = c.create_modified(init_con=cx.real_array(y), angles=later)
    check(cx, d, y, rest, later)
    check(cx, c, x, rest, angles)


def check(cx, c, x, rest, angles):
    cx.ensure_true("eleven values", np.shape(c.init_con) == (11,))
    for i in range(11):
        cx.ensure_eq("values", c.init_con[i], x[i])
    for i, k in enumerate(("η_O", "η_A", "η_H")):
        cx.ensure_eq(k, getattr(c, k), x[8 + i])
    for k, v in rest.items():
        cx.ensure_eq(k, getattr(c, k), v)
    same(cx, "angles", c.angles, angles)


DROPPED = ["jump_before_sonic", "v_θ_sonic_crit", "after_sonic",
           "interp_range", "interp_slice", "sonic_interp_size"]


@contract("settings without the midplane and the sonic point",
          ["file_format.SolutionInput.new_without_sonic_taylor"])
def without(cx):
    v = {k: Thing(k) for k in FIELDS if k != "label"}
    v.update(interp_slice=slice(-9, -3), mcmc_vars=C.MCMCVars(1, 0, 1),
             use_taylor_jump=cx.choice("taylor", [True, False]))
    s = C.SolutionInput(**v)
    old = copy.copy(s)
    n = s.new_without_sonic_taylor()
    for a in attr.fields(C.SolutionInput):
        k = a.name
        cx.ensure_true("the input stays", getattr(s, k) is getattr(old, k))
        if k in DROPPED:
            cx.ensure_true("no " + k, getattr(n, k) is None)
        elif k == "use_taylor_jump":
            cx.ensure_true("no taylor series", n.use_taylor_jump is False)
        else:
            cx.ensure_true("same " + k, getattr(n, k) is getattr(s, k))
