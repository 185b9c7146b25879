"""The commands: solving, solving again, choosing solutions, showing them."""
import io
import shutil
import tempfile
from contextlib import contextmanager
from pathlib import Path
from types import SimpleNamespace as NS

import arrow
from h5preserve import open as h5open

import disc_solver
import disc_solver.solve as SV
from disc_solver import utils as U
from disc_solver.analyse import dump_config as DF
from disc_solver.analyse import info as IN
from disc_solver.analyse import utils as AU
from disc_solver.file_format import _containers as C
from disc_solver.file_format import registries
from disc_solver import float_handling as FH
from disc_solver.solve import (
    config as CF, fast_crosser, hydrostatic, mcmc, mod_hydro, resolve as RS,
    single as SI, sonic_root, stepper,
)
from disc_solver.solve import utils as SU

from dv import h5model, tok
from dv.api import registry
from . import C06
from .C05 import FIELDS, check_input, like, same, some_input
from .C10 import Thing

PROPERTY = "C16"
CONTRACTS, contract = registry()
ASSUMPTIONS = [tok.PARSE, h5model.STORE]
METHODS = {
    "step": stepper, "single": SI, "mcmc": mcmc,
    "sonic_root": sonic_root, "hydrostatic": hydrostatic,
    "mod_hydro": mod_hydro, "fast_crosser": fast_crosser}


def begin(cx):
    if cx.symbolic:
        tok.install(cx)
        cx.ghost["tok_hash"] = True
    for m in (SV, RS):
        cx.patches.set(vars(m), "print", lambda *a, **k: None)


def raised(st, r, kind):
    return st == "raise" and isinstance(r, kind)


def texts(cx, tag=""):
    t = {k: cx.text(tag + k, like(k), free=False) for k in FIELDS}
    t["mcmc_vars"] = "v_r,v_k"
    t["interp_slice"] = "-20,-3"
    t["label"] = "a run"
    return t


class Method:
    """A solver: records its call, stores solutions, ends as told"""
    def __init__(self, cx, few=False):
        self.cx, self.calls = cx, []
        self.adds, self.final, self.result = cx.choice("it does", [
            (2, "the first", True), (2, "none", True), (2, "not chosen", True),
            (2, "the first", False), (1, "none", False),
            (1, "not chosen", False), (0, "none", "error"),
            (1, "not chosen", "error")][::3 if few else 1])
        self.solutions = [C06.solution(cx, "s%d " % i, full=True)
                          for i in range(self.adds)]

    def __call__(self, inp, run, **kw):
        self.calls.append((inp, run, kw))
        for s in self.solutions:
            s.solution_input = inp
            run.solutions.add_solution(s)
        if self.result == "error":
            raise SU.SolverError("stops")
        if self.final == "the first":
            run.final_solution = run.solutions["0"]
        elif self.final == "none":
            run.final_solution = None
        return self.result


def install(cx, method, few=False):
    m, no = Method(cx, few), Thing("another method")
    for k in METHODS:
        cx.patches.set(SV.SONIC_METHOD_MAP, k, m if k == method else no)
    return m


def target(cx, disk):
    """-> output_file, path or None, whether it is there already"""
    d = disk.path("x").parent
    kind = cx.choice("output file", ["named", "exists", "unnamed"])
    if kind == "unnamed":
        cx.patches.set(vars(arrow), "now", lambda *a: "now")
        return None, None
    p = d / "out.hdf5"
    if kind == "exists":
        with h5open(p, registries, mode="x") as f:
            f["run"] = 3
    return "out.hdf5", p


def stored(cx, p, m, want, config, inp):
    with h5open(p, registries, mode="r") as f:
        run = f["run"]
        for k, v in want.items():
            same(cx, "recorded " + k, getattr(run, k), v)
        for k in FIELDS:
            same(cx, "recorded configuration: " + k,
                 getattr(run.config_input, k), getattr(config, k))
        cx.ensure_true("all trials stored", sorted(run.solutions) == [
            str(i) for i in range(m.adds)])
        for i, s in enumerate(m.solutions):
            C06.same(cx, "solution %d" % i, run.solutions[str(i)].solution,
                     s.solution)
        if m.result == "error":
            return
        fin = run.final_solution
        if m.final == "none":
            cx.ensure_true("no final solution", fin is None)
        else:
            s = m.solutions[0 if m.final == "the first" else -1]
            cx.ensure_true("a final solution", fin is not None)
            if fin is not None:
                C06.same(cx, "final solution", fin.solution, s.solution)


def called(cx, m, inp, store, extra):
    cx.ensure_true("solved once", len(m.calls) == 1)
    if not m.calls:
        return None
    got, run, kw = m.calls[0]
    for k in FIELDS:
        if k != "label":
            same(cx, "solver input: " + k, getattr(got, k), getattr(inp, k))
    cx.ensure_true("options of the method", kw == dict(
        extra, store_internal=store))
    return run


def finish(cx, disk, m, st, r, out, p, want, conf, inp, store, extra):
    run = called(cx, m, inp, store, extra)
    if run is None:
        return
    if m.result == "error":
        cx.ensure_true("a failure is reported", raised(
            st, r, SU.SolverError))
        if p is not None:
            stored(cx, p, m, want, conf, inp)
        return
    cx.ensure_true("ends", st == "ok")
    if st != "ok":
        return
    path, ok = r
    cx.ensure_true("how it ended", ok == m.result)
    d = disk.path("x").parent
    if p is not None:
        cx.ensure_true("where asked", Path(path) == p)
    else:
        cx.ensure_true("in the directory", Path(path).parent == d)
        cx.ensure_true("named after the run", Path(path).name.startswith(
            "a run") and "now" in Path(path).name)
    stored(cx, path, m, want, conf, inp)


def refused(cx, st, r, method):
    """an existing file is kept, an unknown method refused"""
    if method is None:
        cx.ensure_true("an unknown method is refused", raised(
            st, r, SU.SolverError))
        return True
    return False


def exists(cx, out, p):
    if p is None:
        return False
    try:
        with h5open(p, registries, mode="r"):
            return True
    except OSError:
        return False


def kept(cx, p, m, st):
    cx.ensure_true("an existing file is not written over", st != "ok")
    cx.ensure_true("nothing solved for it", not m.calls)
    with h5open(p, registries, mode="r") as f:
        cx.ensure_true("it is as it was", f["run"] == 3)


def common(cx, few=False):
    begin(cx)
    method, store, over, extra = cx.choice("asked", [
        ("single", True, {}, {}), ("step", False, None, {}),
        ("mcmc", True, {"γ": "0.25"}, {}),
        ("hydrostatic", False, {"use_E_r": "True"}, {}),
        ("sonic_root", True, {"γ": "0.25", "label": "a run 2"},
         {"no_final_solution": True}), (None, True, {}, {})])
    return method, install(cx, method, few), store, over, extra


@contract("solving", ["solve.solve", "file_format.Run.finalise"],
          samples=1, budget=240)
def solve(cx):
    method, m, store, over, extra = common(cx)
    t = texts(cx)
    asked = []

    def configured(*, config_file, overrides=None):
        asked.append((config_file, overrides))
        return C.ConfigInput(**{**t, **(overrides or {})})
    cx.stub(CF.get_input_from_conffile, configured)
    with h5model.Disk(cx) as disk:
        out, p = target(cx, disk)
        there = exists(cx, out, p)
        st, r = cx.attempt(lambda: SV.solve(
            output_file=out, sonic_method=method or "unheard of",
            config_file=Path("/conf"), output_dir=disk.path("x").parent,
            store_internal=store, overrides=over, **extra))
        cx.ensure_true("the configuration is read with the overrides",
                       [(str(c), o or {}) for c, o in asked] == [
                           ("/conf", over or {})])
        if there:
            return kept(cx, p, m, st)
        if refused(cx, st, r, method):
            return
        conf = C.ConfigInput(**{**t, **(over or {})})
        inp = conf.to_soln_input()
        want = dict(
            config_filename="/conf", sonic_method=method,
            disc_solver_version=disc_solver.__version__,
            float_type=str(FH.float_type), use_E_r=inp.use_E_r,
            based_on_solution_filename=None,
            based_on_solution_solution_name=None, is_post_shock_only=False)
        finish(cx, disk, m, st, r, out, p, want, conf, inp, store, extra)


@contract("solving again", [
    "solve.resolve.resolve", "solve.config.new_inputs_with_overrides",
    "utils.get_solutions"], samples=1, budget=300)
def resolve(cx):
    method, m, store, over, extra = common(cx, True)
    t = texts(cx)
    which, mine = cx.choice("solution", [
        ("0", "none"), ("1", "0"), ("latest", "none"), ("latest", "0"),
        ("final", "0"), ("final", "1")])
    old = C.Run(
        config_input=C.ConfigInput(**t), config_filename="old.cfg",
        disc_solver_version="old", float_type="old", sonic_method="old",
        use_E_r=False)
    with h5model.Disk(cx) as disk:
        d = disk.path("x").parent
        with h5open(d / "old.hdf5", registries, mode="x") as f:
            f["run"] = old
            solns = []
            for i in range(2):
                s = C06.solution(cx, "old %d " % i, full=True)
                s.solution_input = C.ConfigInput(**{
                    **t, "stop": str(60 + i)}).to_soln_input()
                solns.append(s)
                old.solutions.add_solution(s)
            old.final_solution = None if mine == "none" else \
                old.solutions[mine]
        out, p = target(cx, disk)
        there = exists(cx, out, p)
        st, r = cx.attempt(lambda: RS.resolve(
            output_file=out, sonic_method=method or "unheard of",
            soln_filename=d / "old.hdf5", soln_range=which, output_dir=d,
            store_internal=store, overrides=over, **extra))
        if there:
            return kept(cx, p, m, st)
        if refused(cx, st, r, method):
            return
        n = {"latest": "1" if mine == "none" else mine, "final": mine}.get(
            which, which)
        conf = C.ConfigInput(**{**t, **(over or {})})
        inp = C.ConfigInput(**{**t, "stop": str(60 + int(n)),
                               **(over or {})}).to_soln_input()
        want = dict(
            config_filename="old.cfg", sonic_method=method,
            disc_solver_version=disc_solver.__version__,
            float_type=str(FH.float_type), use_E_r=inp.use_E_r,
            based_on_solution_filename=str(d / "old.hdf5"),
            based_on_solution_solution_name=which, is_post_shock_only=False)
        finish(cx, disk, m, st, r, out, p, want, conf, inp, store, extra)


@contract("choosing a solution", ["utils.get_solutions"],
          bounded="partly symbolic: runs of 1, 2, 10, 11 and 12 solutions")
def choosing(cx):
    n = cx.choice("solutions", [1, 2, 10, 11, 12])
    run = C.Run(config_input=Thing("c"), config_filename="f",
                disc_solver_version="v", float_type="t", sonic_method="m")
    things = [Thing("s%d" % i) for i in range(n)]
    order = list(range(n))
    if cx.choice("order in the file", ["by number", "by name"]) == "by name":
        order.sort(key=str)
    for i in order:
        run.solutions[str(i)] = things[i]
    final = cx.choice("final", [None, "first"])
    run.final_solution = None if final is None else things[0]
    which = cx.choice("range", [None, "0", "latest", "final", "last", "no"])
    if which == "no":
        st, _ = cx.attempt(U.get_solutions, run, str(n))
        cx.ensure_true("an unknown solution is refused", st != "ok")
        return
    got = U.get_solutions(run, str(n - 1) if which == "last" else which)
    last = things[-1]
    cx.ensure_true("the solution asked for", got is {
        None: things[0], "0": things[0], "last": last,
        "latest": last if final is None else things[0],
        "final": None if final is None else things[0]}[which])


@contract("the methods", ["solve.SONIC_METHOD_MAP",
                          "solve.utils.add_solver_arguments"])
def methods(cx):
    cx.ensure_true("named as documented", {
        k: v for k, v in SV.SONIC_METHOD_MAP.items()} == {
        k: v.solver for k, v in METHODS.items()})


@contract("solving once", ["solve.single.solver"])
def single(cx):
    inp, soln, cond = Thing("input"), Thing("solution"), Thing("conditions")
    made = []

    def solution(*a, **k):
        made.append((a, k))
        return soln
    cx.stub(CF.define_conditions, lambda i: cond if i is inp else None)
    cx.patches.set(vars(SI), "solution", solution)
    run = C.Run(config_input=Thing("c"), config_filename="f",
                disc_solver_version="v", float_type="t", sonic_method="m")
    store = cx.choice("store", [True, False, None])
    nofin = cx.choice("no final", [True, False, None])
    kw = {}
    if store is not None:
        kw["store_internal"] = store
    if nofin is not None:
        kw["no_final_solution"] = nofin
    r = SI.solver(inp, run, **kw)
    cx.ensure_true("one solution", made == [(
        (inp, cond), {"store_internal": store is not False})])
    cx.ensure_true("stored", list(run.solutions) == ["0"] and
                   run.solutions["0"] is soln)
    cx.ensure_true("succeeded", r is True)
    if nofin:
        run.final_solution = None
    else:
        cx.ensure_true("final", run.final_solution is soln)


@contract("ds-soln and ds-resoln", [
    "solve.main", "solve.resolve.main", "solve.utils.add_solver_arguments",
    "solve.utils.validate_overrides", "utils.main_entry_point_wrapper"],
    bounded="given command lines", samples=2)
def commands(cx):
    which = cx.choice("command", ["ds-soln", "ds-resoln"])
    method = cx.choice("method", [None] + list(METHODS))
    store = cx.choice("store", [None, True, False])
    over = cx.choice("override", [{}, {"γ": "1", "start": "2"}])
    out = cx.choice("output", [None, "file", "directory"])
    ends = cx.choice("ends", [True, False])
    argv = []
    if method:
        argv += ["--sonic-method", method]
    if store is not None:
        argv += ["--store-internal" if store else "--no-store-internal"]
    for k, v in over.items():
        argv += ["--override", k, v]
    if out == "file":
        argv += ["--output-file", "o.hdf5"]
    elif out == "directory":
        argv += ["--output-dir", "/tmp/x"]
    got, shown = [], []
    mod, name = {"ds-soln": (SV, "solve"), "ds-resoln": (RS, "resolve")}[
        which]

    def solving(**k):
        got.append(k)
        return Path("/there"), ends
    cx.patches.set(vars(mod), name, solving)
    cx.patches.set(vars(mod), "print", lambda *a, **k: shown.append(
        " ".join(map(str, a))))
    r = mod.main(argv + (["in.cfg"] if which == "ds-soln" else [
        "in.hdf5", "final"]))
    cx.ensure_true("solved once", len(got) == 1)
    g = got[0]
    cx.ensure_true("exit status", r == (0 if ends else 1))
    cx.ensure_true("the file is printed", shown == ["/there"])
    cx.ensure_true("method", g["sonic_method"] == (method or "single"))
    cx.ensure_true("overrides", (g.get("overrides") or {}) == over)
    cx.ensure_true("internal data", g["store_internal"] == (
        store is not False))
    cx.ensure_true("output file", g["output_file"] == (
        "o.hdf5" if out == "file" else None))
    cx.ensure_true("output directory", Path(g["output_dir"]) == (
        Path("/tmp/x") if out == "directory" else Path.cwd()))
    if which == "ds-soln":
        cx.ensure_true("input", Path(g["config_file"]) ==
                       Path.cwd() / "in.cfg")
    else:
        cx.ensure_true("input", Path(g["soln_filename"]) ==
                       Path.cwd() / "in.hdf5" and g["soln_range"] == "final")


@contract("files and standard output", ["utils.open_or_stream"],
          bounded="real files", samples=2)
def streams(cx):
    kind = cx.choice("to", ["-", "stream", "file"])
    fails = cx.choice("body", ["works", "fails"])
    d = tempfile.mkdtemp(prefix="dv-")
    try:
        s = io.StringIO()
        p = Path(d) / "o"
        p.write_text("old\n")
        mode = cx.choice("mode", ["a", "w"])
        what = {"-": "-", "stream": s, "file": str(p)}[kind]

        def use():
            with U.open_or_stream(what, mode=mode) as f:
                seen.append(f)
                if kind != "-":
                    f.write("new\n")
                if fails == "fails":
                    raise KeyError("mine")
        seen = []
        st, r = cx.attempt(use)
        cx.ensure_true("errors pass", raised(st, r, KeyError) ==
                       (fails == "fails"))
        if kind == "file":
            cx.ensure_true("closed afterwards", seen[0].closed)
            cx.ensure_true("written", p.read_text() == (
                "old\nnew\n" if mode == "a" else "new\n"))
        else:
            cx.ensure_true("used as it is", seen[0] is (
                U.stdout if kind == "-" else s))
            cx.ensure_true("left open", not seen[0].closed)
    finally:
        shutil.rmtree(d)


@contract("worker processes", ["utils.nicer_mp_pool"])
def pools(cx):
    start = cx.choice("start", ["works", "fails"])
    body = cx.choice("body", ["works", "fails"])
    done, asked = [], []

    class Pool:
        def close(self):
            done.append("close")

        def join(self):
            done.append("join")

    def pool(*a, **k):
        asked.append((a, k))
        if start == "fails":
            raise OSError("no processes")
        return Pool()
    cx.patches.set(vars(U), "Pool", pool)

    def use():
        with U.nicer_mp_pool(3, initializer=len) as p:
            done.append(type(p) is Pool)
            if body == "fails":
                raise KeyError("mine")
    st, r = cx.attempt(use)
    cx.ensure_true("as asked", asked == [((3,), {"initializer": len})])
    if start == "fails":
        cx.ensure_true("the reason is reported", raised(st, r, OSError))
        cx.ensure_true("nothing is used", done == [])
        return
    cx.ensure_true("errors pass", raised(st, r, KeyError) ==
                   (body == "fails"))
    cx.ensure_true("all work is finished", done == [True, "close", "join"])


@contextmanager
def opened(cx, run, log):
    @contextmanager
    def h5(path, reg, mode=None, **k):
        log.append((path, mode))
        yield {"run": run}
        log.append("closed")
    cx.patches.set(vars(AU), "h5open", h5)
    yield


def a_run(cx, soln, n=2):
    conf = NS(label="a run", γ=3, start="0")
    return NS(config_input=conf, config_filename="my.cfg", sonic_method="m",
              disc_solver_version="9.9", use_E_r="yes",
              solutions={str(i): soln for i in range(n)},
              final_solution=soln)


@contract("what is told of a run", ["analyse.info.info",
                                    "analyse.utils.analysis_func_wrapper",
                                    "analyse.utils.get_scale_height"])
def info(cx):
    group = cx.choice("group", ["run", "status", "input",
                                "initial-conditions", "sonic-points",
                                "crosses-points", "sonic-on-scale",
                                "unheard of"])
    has = {k: cx.choice(k, [True, False]) for k in (
        "slow", "sonic", "alfven", "fast")} if group in (
        "sonic-points", "crosses-points", "sonic-on-scale") else {}
    at = {"slow": .25, "sonic": .5, "alfven": .75, "fast": 1.25}
    points = [at[k] if has.get(k) else None for k in at]
    parts = {k: Thing(k) if cx.choice(k, [True, False]) else None
             for k in ("internal_data", "derivatives", "t_roots", "y_roots")
             } if group == "status" else {}
    soln = NS(flag="FLAG", coordinate_system="coords", **parts,
              solution_input=NS(γ="γ value", stop="stop value",
                                c_s_on_v_k=.125),
              initial_conditions=NS(β="β value"))
    run = a_run(cx, soln)
    cx.patches.set(vars(IN), "get_all_sonic_points", lambda s: tuple(
        points) if s is soln else None)
    out, log = io.StringIO(), []
    with opened(cx, run, log):
        st, r = cx.attempt(lambda: IN.info(
            "file", group=group, soln_range="final", output_file=out))
    cx.ensure_true("the file is only read", log[:1] == [("file", "r")])
    if group == "unheard of":
        cx.ensure_true("refused", raised(st, r, U.DiscSolverError))
        return
    cx.ensure_true("shown", st == "ok")
    lines = out.getvalue().splitlines()
    shown = {}
    for ln in lines:
        k, _, v = ln.partition(":")
        shown[k.strip()] = v.strip()
    if group == "run":
        want = {"filename": "file", "label": "a run",
                "config filename": "my.cfg", "sonic method": "m",
                "DiscSolver version": "9.9", "using E_r": "yes",
                "number of solutions": "2", "γ": "3", "start": "0"}
    elif group == "status":
        want = {"ODE return flag": "FLAG", "Coordinate System": "coords"}
        want.update({"Has " + k.replace("_d", " d"): str(
            v is not None) for k, v in parts.items()})
    elif group == "input":
        want = {"γ": "γ value", "stop": "stop value"}
    elif group == "initial-conditions":
        want = {"β": "β value"}
    elif group == "sonic-points":
        want = dict(zip(("slow sonic point", "sonic point",
                         "alfven sonic point", "fast sonic point"),
                        map(str, points)))
    elif group == "crosses-points":
        want = {"a run": ([k for k in ("fast", "alfven", "sonic", "slow")
                           if has[k]] + ["none"])[0]}
    else:
        want = {"a run": "None" if not has["sonic"] else str(.5 / .125)}
    for k, v in want.items():
        cx.ensure_true(k, shown.get(k) == v)


@contract("solutions by probability", ["analyse.info.sort_solutions",
                                       "analyse.info.info"],
          bounded="partly symbolic: three solutions")
def ordered(cx):
    ps = [cx.real("p%d" % i) for i in range(3)]
    things = [Thing("s%d" % i) for i in range(3)]
    cx.stub(mcmc.get_logprob_of_soln, lambda s: ps[things.index(s)])
    got = IN.sort_solutions({str(i): t for i, t in enumerate(things)})
    cx.ensure_true("each once", sorted(n for n, _ in got) == ["0", "1", "2"])
    for n, p in got:
        cx.ensure_eq("its probability", p, ps[int(n)])
    for (_, p), (_, q) in zip(got, got[1:]):
        cx.ensure("rising", p <= q)


@contract("the configuration of a solution", ["analyse.dump_config.dump_cfg"])
def dumped(cx):
    begin(cx)
    v = some_input(cx)
    soln = NS(solution_input=C.SolutionInput(**v))
    run = a_run(cx, soln)
    run.config_input = NS(label="another label")
    log = []
    if cx.symbolic:
        held = [tok.TextFile()]

        def target(name, mode="r"):
            if mode.startswith("w"):
                held[0] = tok.TextFile()
            return stream(held[0])
        cx.patches.set(vars(DF), "open_or_stream", target)
    d = Path(tempfile.mkdtemp(prefix="dv-"))
    try:
        # over a file which is there
        for name in cx.choice("written", [["0"], ["1", "0"]]):
            with opened(cx, run, log):
                DF.dump_cfg("file", soln_range=name,
                            output_file=str(d / "o.cfg"))
        new = CF.get_input_from_conffile(
            config_file=held[0] if cx.symbolic else d / "o.cfg")
    finally:
        shutil.rmtree(d)
    cx.ensure_true("label", new.label == "another label")
    check_input(cx, new.to_soln_input(), v)


@contextmanager
def stream(f):
    yield f
