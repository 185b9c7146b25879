"""Shocks: jump conditions, where they are tried, what is stored."""
from contextlib import contextmanager
from pathlib import Path
from types import SimpleNamespace as NS

import numpy as np
from h5preserve import open as h5open

from disc_solver.file_format import _containers as C
from disc_solver.file_format import registries
from disc_solver.solve import shock as SH
from disc_solver.utils import ODEIndex as O

from dv import h5model, tok
from dv.api import registry
from . import C06
from .C05 import FIELDS, like
from .C10 import Thing
from .C19 import every

PROPERTY = "C15"
CONTRACTS, contract = registry()
ASSUMPTIONS = [
    tok.PARSE, h5model.STORE,
    "multiprocessing.Pool.imap applies a copy of the function to each item, "
    "in order", "tables hold no NaN"]


def begin(cx):
    if cx.symbolic:
        tok.install(cx)
        cx.ghost["tok_hash"] = True
    cx.patches.set(vars(SH), "print", lambda *a, **k: None)
    cx.patches.set(vars(SH), "print_err", lambda *a, **k: None)


def quantities(cx, tag=""):
    x = [cx.real("%s%d" % (tag, i)) for i in range(11)]
    x[O.v_θ] = cx.real(tag + "v_θ", pos=True)
    x[O.ρ] = cx.real(tag + "ρ", pos=True)
    return x


def behind(cx, name, got, x):
    """the state behind an isothermal shock in front of which it is x"""
    cx.ensure_true(name + ": all values", np.shape(got) == (11,))
    v, r, w, s = got[O.v_θ], got[O.ρ], x[O.v_θ], x[O.ρ]
    cx.ensure_eq(name + ": mass flux", r * v, s * w)
    cx.ensure_eq(name + ": momentum flux", r * (v * v + 1), s * (w * w + 1))
    # and it is a shock, not the state itself
    cx.ensure_eq(name + ": other side of the sound speed", v * w, 1)
    for i in range(11):
        if i not in (O.v_θ, O.ρ):
            cx.ensure_eq(name + ": value %d is carried over" % i, got[i],
                         x[i])


@contract("jump conditions", [
    "solve.shock.get_v_θ_post", "solve.shock.get_ρ_post",
    "solve.shock.get_shock_modified_initial_conditions"])
def jump(cx):
    begin(cx)
    x = quantities(cx)
    angles = cx.sorted_vec("angles")
    at = cx.real("jump")
    init = [cx.real("init%d" % i) for i in range(11)]
    rest = {k: cx.real(k) for k in ("norm_kepler_sq", "a_0", "γ")}
    old = C.InitialConditions(init_con=cx.real_array(init), angles=angles,
                              **rest)
    pre = cx.real_array(x)
    new = SH.get_shock_modified_initial_conditions(
        initial_conditions=old, angles=angles, jump_θ=at,
        pre_jump_values=pre)
    behind(cx, "behind", new.init_con, x)
    for i in range(11):
        cx.ensure_eq("the state in front is left alone", pre[i], x[i])
        cx.ensure_eq("the old conditions are left alone", old.init_con[i],
                     init[i])
    for k, v in rest.items():
        cx.ensure_eq("same " + k, getattr(new, k), v)
    for i, k in enumerate(("η_O", "η_A", "η_H")):
        cx.ensure_eq("same " + k, getattr(new, k), x[8 + i])
    a = new.angles
    n, m = cx.length(angles), cx.length(a)
    cx.ensure("increasing", cx.is_sorted(a))
    cx.ensure("every angle from the shock on is kept", cx.forall_int(
        lambda i: cx.imply(angles[i] >= at, cx.exists_int(
            lambda k: cx.eq(a[k], angles[i]), 0, m)), 0, n))
    cx.ensure("only those are", cx.forall_int(
        lambda k: every(cx, [a[k] >= at, cx.exists_int(
            lambda i: cx.eq(a[k], angles[i]), 0, n)]), 0, m))


@contract("where shocks are tried", ["solve.shock.find_shock_test_values"])
def where(cx):
    begin(cx)
    angles = cx.sorted_vec("angles", minlen=1)
    n = cx.length(angles)
    table = cx.vec("rows", n=n, cols=11)
    soln = NS(angles=angles, solution=table)
    kind = cx.choice("limits", ["given", "default"])
    post = cx.choice("after the maximum", [True, False, None])
    kw = {} if post is None else {"post_max": post}
    lo, hi, deg = 1, 10, 40
    if kind == "given":
        lo, hi, deg = (cx.real(k) for k in ("min", "max", "angle"))
        kw.update(min_v_θ_pre=lo, max_v_θ_pre=hi, min_angle=deg)
    a, t = SH.find_shock_test_values(soln, **kw)
    m = cx.length(a)
    cx.ensure_eq("a row for each angle", cx.length(t), m)
    v = table[:, O.v_θ]
    first = deg * (np.pi / 180)
    if post is False:
        def past(i):
            return True
    else:
        # strictly after some row whose v_θ no other row exceeds, the first
        # such one
        def past(i):
            return cx.exists_int(lambda k: every(cx, [
                k < i, cx.forall_int(lambda j: v[j] <= v[k], 0, n)]), 0, n)

    def fits(i):
        return every(cx, [v[i] > lo, v[i] < hi, angles[i] > first])

    def cond(i):
        return fits(i) if post is False else every(cx, [fits(i), past(i)])

    def row(k, i):
        return every(cx, [cx.eq(a[k], angles[i])] + [
            cx.eq(t[k, j], table[i, j]) for j in range(11)])
    cx.ensure("in order", cx.is_sorted(a))
    cx.ensure("every fitting row is tried", cx.forall_int(
        lambda i: cx.imply(cond(i), cx.exists_int(
            lambda k: row(k, i), 0, m)), 0, n))
    cx.ensure("only fitting rows are tried", cx.forall_int(
        lambda k: cx.exists_int(lambda i: every(cx, [
            row(k, i), cond(i)]), 0, n), 0, m))


def some_run(cx, label="a run"):
    t = {k: cx.text(k, like(k), free=False) for k in FIELDS}
    t.update(mcmc_vars="v_r,v_k", interp_slice="-20,-3", label=label)
    return C.Run(
        config_input=C.ConfigInput(**t), config_filename="c",
        disc_solver_version="v", float_type="t", sonic_method="m",
        use_E_r=False, is_post_shock_only=True,
        based_on_solution_filename="origin",
        based_on_solution_solution_name="final")


def table(cx, tag, n):
    return cx.vec(tag, n=n, cols=11)


@contract("one shock", ["solve.shock.ShockFinder"], samples=2,
          bounded="partly symbolic: flows of 0, 4, 5 or 7 rows")
def one(cx):
    begin(cx)
    run = some_run(cx)
    inp, ic = Thing("input"), Thing("conditions")
    angles, values, at = Thing("angles"), Thing("values"), Thing("at")
    made = Thing("made")
    fails = cx.choice("fails", [None, "conditions", "solution", "saving",
                                "plot"])
    kind = cx.choice("error", [ValueError, RuntimeError])
    n = cx.choice("rows", [0, 4, 5, 7])
    store = cx.choice("store", [True, False])
    s = C06.solution(cx, "s ", full=True)
    s.angles = cx.vec("reached", n=n)
    s.solution = table(cx, "flow", n)
    calls, asked, plots = [], [], []

    def conditions(**k):
        asked.append(k)
        if fails == "conditions":
            raise kind("no")
        return made

    def solution(*a, **k):
        calls.append((a, k))
        if fails == "solution":
            raise kind("no")
        return s

    def plot(r, **k):
        plots.append((r, k))
        if fails == "plot":
            raise kind("no")
    cx.stub(SH.get_shock_modified_initial_conditions, conditions)
    cx.patches.set(vars(SH), "solution", solution)
    cx.stub(SH.plot_shock_solution, plot)
    told = []
    cx.patches.set(vars(SH), "print", lambda *a, **k: told.append(
        " ".join(str(x) for x in a)))
    with h5model.Disk(cx) as disk:
        d = disk.path("x").parent
        if fails == "saving":
            cx.stub(SH.get_multiprocessing_filename, lambda r: "there.hdf5")
            with h5open(d / "there.hdf5", registries, mode="x") as f:
                f["run"] = 3
        finder = SH.ShockFinder(
            new_solution_input=inp, initial_conditions=ic, angles=angles,
            store_internal=store, output_dir=d, run=run)
        st, r = cx.attempt(finder, (at, values))
        cx.ensure_true("failures do not stop the others", st == "ok")
        cx.ensure_true("starts behind the shock", asked == [dict(
            initial_conditions=ic, angles=angles, jump_θ=at,
            pre_jump_values=values)])
        if fails == "conditions":
            cx.ensure_true("nothing is solved", not calls)
        else:
            cx.ensure_true("one flow", len(calls) == 1)
            a, k = calls[0]
            names = ["soln_input", "initial_conditions"]
            k = dict(zip(names, a), **k)
            cx.ensure_true("of the same problem", k.get("soln_input") is inp
                           and k.get("initial_conditions") is ic and
                           k.get("store_internal") == store)
            cx.ensure_true("from behind the shock, without the midplane",
                           k.get("modified_initial_conditions") is made and
                           k.get("with_taylor") is False)
            cx.ensure_true("marked as such",
                           k.get("is_post_shock_only") is True)
        if fails in ("conditions", "solution") or n < 5 or \
                fails == "saving":
            cx.ensure_true("no result", r == (None, None))
            if fails == "saving":
                with h5open(d / "there.hdf5", registries, mode="r") as f:
                    cx.ensure_true("an existing file is kept",
                                   f["run"] == 3)
            return
        cx.ensure_true("one picture of the run", len(plots) == 1 and
                       plots[0][0] is run)
        if fails == "plot":
            cx.ensure_true("no result", r == (None, None))
            p = plots[0][1]["output_hdf5_filename"]
        else:
            p, q = r
            cx.ensure_true("picture beside the file", Path(q) == Path(
                p).with_suffix(".png") and Path(plots[0][1][
                    "plot_filename"]) == Path(q))
            v = s.solution[:, O.v_θ]
            said = any(str(q) in x for x in told)
            cx.ensure("flows slower than sound everywhere are pointed out",
                      cx.forall_int(lambda i: v[i] < 1, 0, n) if said else
                      cx.exists_int(lambda i: v[i] >= 1, 0, n))
        cx.ensure_true("in the output directory", Path(p).parent == d)
        with h5open(p, registries, mode="r") as f:
            got = f["run"]
            cx.ensure_true("one solution", list(got.solutions) == ["0"])
            for x in (got.solutions["0"], got.final_solution):
                C06.same(cx, "flow", x.solution, s.solution)
                C06.same(cx, "angles", x.angles, s.angles)
            cx.ensure_true("where it is from", (
                got.based_on_solution_filename,
                got.based_on_solution_solution_name,
                bool(got.is_post_shock_only)) == ("origin", "final", True))


@contract("all shocks of a flow", [
    "solve.shock.compute_shock", "solve.shock.shock_from_file",
    "file_format.Run.create_shock_run"], samples=2,
    bounded="partly symbolic: flows with up to three places for a shock")
def all_(cx):
    begin(cx)
    run = some_run(cx)
    run.is_post_shock_only = False
    run.based_on_solution_filename = None
    v = {k: Thing(k) for k in FIELDS if k != "label"}
    v.update(interp_slice=slice(-9, -3), mcmc_vars=C.MCMCVars(1, 0, 1))
    inp = C.SolutionInput(**v)
    ic, angles = Thing("conditions"), Thing("angles")
    soln = NS(solution_input=inp, initial_conditions=ic, angles=angles)
    other = NS(solution_input=None, initial_conditions=None, angles=None)
    run.solutions["0"], run.solutions["1"] = other, soln
    n = cx.choice("places", [0, 1, 3])
    at = [Thing("at %d" % i) for i in range(n)]
    rows = [Thing("row %d" % i) for i in range(n)]
    no = cx.choice("without result", [None, 0])
    seen, pools, places = [], [], []

    def find(s, **k):
        places.append((s, k))
        return at, rows

    class Finder:
        def __init__(self, **k):
            self.k = k

        def __call__(self, v):
            seen.append((self.k, v))
            return (None, None) if no == len(seen) - 1 else ("f", "p")

    class Pool:
        def imap(self, f, xs):
            return iter([f(x) for x in xs])

    @contextmanager
    def pool(*a, **k):
        pools.append((a, k))
        yield Pool()
    cx.stub(SH.find_shock_test_values, find)
    cx.stub(SH.ShockFinder, Finder)
    cx.patches.set(vars(SH), "nicer_mp_pool", pool)
    how = cx.choice("called", ["here", "on a file"])
    if how == "here":
        limits = dict(min_v_θ_pre=Thing("min"), max_v_θ_pre=Thing("max"),
                      min_angle=Thing("angle"))
        store = cx.choice("store", [True, False])
        SH.compute_shock(soln, run=run, nworkers=3, store_internal=store,
                         **limits)
    else:
        limits, store = None, True
        SH.shock_from_file.__wrapped__(
            run, soln_range="1", filename="origin", nworkers=3)
    cx.ensure_true("looked for in the chosen flow", [
        s for s, _ in places] == [soln])
    if limits:
        cx.ensure_true("within the limits", places[0][1] == limits)
    cx.ensure_true("workers", [a + tuple(k.values()) for a, k in pools] ==
                   [(3,)])
    cx.ensure_true("every place once, in order", [
        v for _, v in seen] == list(zip(at, rows)))
    for k, _ in seen:
        cx.ensure_true("same conditions", k["initial_conditions"] is ic and
                       k["angles"] is angles and
                       k["store_internal"] == store)
        i = k["new_solution_input"]
        want = inp.new_without_sonic_taylor()
        cx.ensure_true("the input without midplane and sonic point",
                       vars_of(i) == vars_of(want))
        r = k["run"]
        if how == "here":
            cx.ensure_true("the given run", r is run)
            continue
        cx.ensure_true("a new run of that origin", r is not run and
                       len(r.solutions) == 0 and
                       r.based_on_solution_filename == "origin" and
                       r.based_on_solution_solution_name == "1" and
                       r.config_input is run.config_input and
                       r.is_post_shock_only)
    cx.ensure_true("the origin is left alone", len(run.solutions) == 2)


def vars_of(i):
    return {k: getattr(i, k) for k in FIELDS if k != "label"}
