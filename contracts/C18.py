"""Lists of inputs as CSV files, and the batch runners."""
import argparse
import csv
import io
import shutil
import tempfile
from contextlib import contextmanager
from pathlib import Path

from h5preserve import open as h5open
from pympler.asizeof import asizeof

from disc_solver import utils as U
from disc_solver.analyse import dump_csv as DC
from disc_solver.analyse import stats as ST
from disc_solver.file_format import _containers as C
from disc_solver.file_format import registries, SOLUTION_INPUT_FIELDS
from disc_solver.solve import csvrunner as CR
from disc_solver.solve import hdf5runner as HR
from disc_solver.solve import utils as SU

from dv import h5model, tok
from dv.api import registry
from .C05 import FIELDS, OPTIONAL, like, same

PROPERTY = "C18"
CONTRACTS, contract = registry()
POOL = "multiprocessing.Pool.imap applies the function to the inputs in order"
ASSUMPTIONS = [tok.PARSE, h5model.STORE, POOL]

INPUT = [k for k in FIELDS if k != "label"]
LATER = ["after_sonic", "sonic_interp_size", "interp_range", "interp_slice",
         "use_E_r"]
assert list(SOLUTION_INPUT_FIELDS)[-len(LATER):] == LATER
CHAR = ["a note", " slack , 1", "γ=3"]


def begin(cx):
    if cx.symbolic:
        tok.install(cx)
        cx.ghost["tok_hash"] = True
    cx.stub(asizeof, lambda *a, **k: 0)
    for m in (CR, HR):
        cx.patches.set(vars(m), "print", lambda *a, **k: None)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="dv-csv-")
        return Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def write(path, lines):
    """lines: comments (texts) and rows (lists)"""
    with open(path, "w") as f:
        w = csv.writer(f, dialect="unix")
        for x in lines:
            if isinstance(x, str):
                f.write(x + "\n")
            else:
                w.writerow(x)


@contract("inputs from a CSV file", [
    "solve.utils.get_csv_inputs", "solve.utils.add_labels",
    "solve.utils.filter_csv_columns", "solve.utils.CSVReaderHelper"],
    bounded="partly symbolic: one or two lines; comments in front, in "
    "between or at the end", samples=2)
def inputs(cx):
    begin(cx)
    header = cx.choice("header", ["all", "some", "reordered", "none",
                                  "none, short"])
    n = cx.choice("lines", [1, 2])
    comments = cx.choice("comments", ["none", "first", "between", "last"])
    extra = cx.choice("other columns", ["no", "source", "unknown"])
    cols = list(SOLUTION_INPUT_FIELDS)
    if header == "some":
        cols = [c for c in cols if c not in LATER]
    elif header == "reordered":
        cols = cols[::-1]
    elif header == "none, short":
        cols = cols[:-len(LATER)]
    named = not header.startswith("none")
    if named and extra == "source":
        cols = cols + ["filename", "solution_name"]
    elif named and extra == "unknown":
        cols = ["max_slow_mach"] + cols
    rows = [[cx.text("%s %d" % (k, i), like(k) if k in FIELDS else "word",
                     free=False) for k in cols] for i in range(n)]
    label = cx.choice("label", ["", "a run"])
    lines = [list(cols)] if named else []
    lines += rows
    note = "#" + cx.choice("note", CHAR) if comments != "none" else ""
    if comments == "first":
        lines = [note, "  #" + note] + lines
    elif comments == "between":
        lines.insert(1, note)
    elif comments == "last":
        lines.append(note)
    with Scratch() as d:
        write(d / "in.csv", lines)
        kw = {"label": label} if label else {}
        out = list(SU.get_csv_inputs(d / "in.csv", **kw))
    cx.ensure_true("one input for each line", len(out) == n)
    if len(out) != n:
        return
    for got, row in zip(out, rows):
        want = dict(zip(cols, row), label=label)
        want.pop("max_slow_mach", None)
        cx.ensure_true("names", set(got) == set(want))
        for k in want:
            if k in got:
                cx.ensure("value of " + k, got[k] == want[k])
        conf = dict(got)
        for k in ("filename", "solution_name"):
            conf.pop(k, None)
        st, c = cx.attempt(C.ConfigInput, **conf)
        cx.ensure_true("a configuration", st == "ok")
        if st == "ok":
            for k in LATER:
                if k not in cols:
                    v, want = getattr(c, k), FIELDS[k][1]
                    cx.ensure_true("default of " + k, v == want or
                                   v is None and want == "None")


@contract("comments of a CSV file", [
    "solve.utils.CSVReaderHelper", "solve.utils.CSVWriterHelper"],
    bounded="given lists of comments and lines", samples=2)
def comments(cx):
    f = io.StringIO()
    w = SU.CSVWriterHelper(f)
    notes = [cx.choice("note %d" % i, CHAR) for i in range(2)]
    meta = {"a": 1, "b": "x"}
    rows = [["1", "a,b", 'q"q'], ["2", "", "γ"]]
    out = csv.writer(w, dialect=w.dialect)
    w.add_comment(notes[0])
    out.writerow(rows[0])
    w.add_metadata(meta)
    out.writerow(rows[1])
    w.add_comment(notes[1], marker="# ")
    f.seek(0)
    h = SU.CSVReaderHelper(f)
    for _ in range(2):
        f.seek(0)
        cx.ensure_true("rows", list(csv.reader(h, dialect="unix")) == rows)
        cx.ensure_true("comments", tuple(h.comments) == (
            notes[0].strip(), "a=1", "b=x", " " + notes[1].rstrip())
            or tuple(x.strip() for x in h.comments) == (
            notes[0].strip(), "a=1", "b=x", notes[1].strip()))


def some_input(cx, tag="", simple=False):
    """A solver input with every number unknown"""
    values = {}
    absent = "nothing" if simple else cx.choice(
        tag + "absent", ["nothing", "all"] + OPTIONAL)
    for k, (_, _, kind, blank) in FIELDS.items():
        if kind == "real":
            values[k] = cx.real(tag + k)
        elif kind == "int":
            values[k] = cx.int(tag + k)
        elif kind == "word":
            values[k] = cx.text(tag + k, free=False)
        if absent in ("all", k) and k in OPTIONAL:
            values[k] = None
    del values["label"]
    bits = 1 if simple else cx.choice(tag + "switches", range(4))
    values["η_derivs"], values["use_taylor_jump"] = [
        (True, True), (False, True), (True, False), (False, False)][bits]
    values["use_E_r"] = bits in (1, 2)
    values["mcmc_vars"] = None
    values["interp_slice"] = slice(-1000, -100)
    group = "neither" if simple else cx.choice(tag + "group",
                                               ["variables", "slice"])
    if group == "variables":
        w = cx.choice(tag + "with", range(1, 8))
        values["mcmc_vars"] = C.MCMCVars(
            with_v_r=bool(w & 1), with_v_a=bool(w & 2), with_v_k=bool(w & 4))
    elif group == "slice":
        values["interp_slice"] = cx.choice(tag + "ends", [
            None, slice(-9, -3), slice(None, -3), slice(5, None),
            slice(2, 20, 3), slice(None)])
    return values


def reread(cx, path, wants):
    """The rows of the file as solver inputs"""
    out = list(SU.get_csv_inputs(path))
    cx.ensure_true("one line for each", len(out) == len(wants))
    if len(out) != len(wants):
        return
    for d, want in zip(out, wants):
        for k in ("filename", "solution_name"):
            d.pop(k, None)
        st, s = cx.attempt(lambda: C.ConfigInput(**d).to_soln_input())
        cx.ensure_true("readable as an input", st == "ok")
        if st == "ok":
            for k, v in want.items():
                same(cx, "value of " + k, getattr(s, k), v)


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


@contract("dumped inputs read back", [
    "analyse.dump_csv.dump_csv", "solve.utils.get_csv_inputs",
    "file_format.SolutionInput.asdict", "file_format.ConfigInput"],
    samples=2)
def dumped(cx):
    begin(cx)
    header = cx.choice("header", [True, False])
    values = some_input(cx)
    soln = NS(solution_input=C.SolutionInput(**values))
    other = NS(solution_input=C.SolutionInput(
        **{**values, "start": cx.real("other start")}))
    run = NS(solutions={"0": other, "1": soln}, final_solution=other)
    f = getattr(DC.dump_csv, "__wrapped__", DC.dump_csv)
    with Scratch() as d:
        p = d / "out.csv"
        f(run, soln_range="1", output_file=str(p), with_header=header)
        reread(cx, p, [values])
        f(run, soln_range="0", output_file=str(p), with_header=False)
        reread(cx, p, [values, dict(values,
                                    start=other.solution_input.start)])


@contract("inputs of all solutions", ["analyse.stats.write_inputs"],
          bounded="partly symbolic: three solutions", samples=2)
def all_inputs(cx):
    begin(cx)
    vs = [some_input(cx, "%d " % i, simple=True) for i in range(2)]
    a, b = (NS(solution_input=C.SolutionInput(**v)) for v in vs)
    missing = cx.choice("missing", [None, 0, 1, 2])
    solns = [("f", "0", a), ("f", "final", b), ("g", "0", a)]
    want = [vs[0], vs[1], vs[0]]
    if missing is not None:
        solns[missing] = solns[missing][:2] + (None,)
        del want[missing]
    with Scratch() as d:
        p = d / "out.csv"
        ST.write_inputs(iter(solns), output_file=str(p))
        reread(cx, p, want)


METHODS = ["step", "single", "mcmc", "sonic_root", "hydrostatic",
           "mod_hydro", "fast_crosser"]


class Method:
    """A solver which records what it is called with"""
    def __init__(self, cx, result):
        self.cx, self.result, self.calls = cx, result, []

    def __call__(self, inp, run, **kw):
        self.calls.append((inp, run, kw))
        if self.result == "error":
            raise SU.SolverError("no solution")
        if self.result == "no":
            return False
        run.solutions.add_solution(NS(solution_input=inp))
        run.final_solution = run.solutions.get_last_solution()
        return True


def some_row(cx, tag="", label=True):
    row = {k: cx.text(tag + k, like(k), free=False) for k in INPUT}
    row["mcmc_vars"] = "v_r,v_k"
    row["interp_slice"] = "-20,-3"
    row["label"] = cx.choice("label", ["", "a run"]) if label else ""
    return row


def check_call(cx, m, row, over, source, extra, method):
    cx.ensure_true("solved once", len(m.calls) == 1)
    if len(m.calls) != 1:
        return None
    inp, run, kw = m.calls[0]
    conf = dict(row, **over)
    want = C.ConfigInput(**conf)
    for k in FIELDS:
        same(cx, "recorded configuration: " + k,
             getattr(run.config_input, k), getattr(want, k))
    w = want.to_soln_input()
    for k in INPUT:
        same(cx, "solver input: " + k, getattr(inp, k), getattr(w, k))
    cx.ensure_true("recorded method", run.sonic_method == method)
    cx.ensure_eq("recorded formulation", _num(run.use_E_r),
                 _num(inp.use_E_r))
    cx.ensure_true("recorded source", (
        run.based_on_solution_filename,
        run.based_on_solution_solution_name) == source)
    import disc_solver
    cx.ensure_true("recorded version", run.disc_solver_version ==
                   disc_solver.__version__)
    cx.ensure_true("options of the method", kw == extra)
    return run


def _num(b):
    from dv import expr as E
    if isinstance(b, E.SymB):
        return E.wrap(E.ite(b.n, E.const(1), E.const(0)))
    return int(bool(b))


def case(cx):
    row = some_row(cx)
    source = (None, None)
    d = dict(row)
    if cx.choice("source", ["no", "given"]) == "given":
        source = d["filename"], d["solution_name"] = "old.hdf5", "final"
    over = cx.choice("override", [
        {}, None, {"γ": "0.25"}, {"label": "other"}, {"use_E_r": "True"}])
    method = cx.choice("method", ["step", "single", "mcmc"])
    result = cx.choice("result", ["yes", "no", "error"])
    m = Method(cx, result)
    no = Method(cx, "error")
    for k in METHODS:
        cx.patches.set(CR.SONIC_METHOD_MAP, k, m if k == method else no)
    store = cx.choice("store", [True, False])
    return row, d, source, over, method, result, m, no, store


@contract("one input of ds-csvrunner", [
    "solve.csvrunner.SolutionFinder", "solve.utils.add_overrides"],
    samples=2)
def csv_one(cx):
    begin(cx)
    row, d, source, over, method, result, m, no, store = case(cx)
    f = CR.SolutionFinder(sonic_method=method, store_internal=store,
                          overrides=over, more=3)
    st, out = cx.attempt(f, d)
    cx.ensure_true("ended", st == "ok")
    cx.ensure_true("no other method", not no.calls)
    if st != "ok":
        return
    run = check_call(cx, m, row, over or {}, source,
                     {"store_internal": store, "more": 3}, method)
    if result != "yes":
        cx.ensure_true("nothing to write", out is None)
    elif run is not None:
        inp = m.calls[0][0]
        cx.ensure_true("the settings", isinstance(out, dict) and
                       set(out) == set(INPUT))
        if isinstance(out, dict):
            for k in INPUT:
                same(cx, "written " + k, out.get(k), getattr(inp, k))


@contract("one input of ds-hdf5runner", [
    "solve.hdf5runner.SolutionFinder", "solve.utils.add_overrides"],
    samples=2)
def hdf5_one(cx):
    begin(cx)
    row, d, source, over, method, result, m, no, store = case(cx)
    named = cx.choice("output file", [None, "out.hdf5"])
    saved = {}

    class Solver(Method):
        def __call__(self, inp, run, **kw):
            self.calls.append((inp, run, kw))
            if result == "error":
                raise SU.SolverError("no solution")
            if result == "no":
                run.solutions.add_solution(soln(cx, inp))
                return False
            run.solutions.add_solution(soln(cx, inp))
            run.final_solution = run.solutions.get_last_solution()
            return True
    m = Solver(cx, result)
    cx.patches.set(CR.SONIC_METHOD_MAP, method, m)
    with h5model.Disk(cx) as disk:
        f = HR.SolutionFinder(
            sonic_method=method, store_internal=store, output_file=named,
            output_dir=disk.path("x").parent, overrides=over, more=3)
        real = HR.h5open

        def opening(path, *a, **k):
            saved["path"] = Path(path)
            return real(path, *a, **k)
        cx.patches.set(vars(HR), "h5open", opening)
        st, out = cx.attempt(f, d)
        cx.ensure_true("ended", st == "ok")
        cx.ensure_true("no other method", not no.calls)
        if st != "ok":
            return
        check_call(cx, m, row, over or {}, source,
                   {"store_internal": store, "more": 3}, method)
        cx.ensure_true("in the output directory", "path" in saved and
                       saved["path"].parent == disk.path("x").parent)
        if named:
            cx.ensure_true("named file", saved["path"].name == named)
        else:
            label = dict(row, **(over or {}))["label"]
            cx.ensure_true("file named after the label",
                           saved["path"].name.startswith(label) and
                           saved["path"].name.endswith(".hdf5"))
        if result == "error":
            cx.ensure_true("no result", out is None)
            return
        cx.ensure_true("result", bool(out) == (result == "yes"))
        with h5open(saved["path"], registries, mode="r") as g:
            run = g["run"]
            cx.ensure_true("solution in the file", list(run.solutions) ==
                           ["0"])
            for k in INPUT:
                same(cx, "final solution: " + k, getattr(
                    run.final_solution.solution_input, k),
                    getattr(m.calls[0][0], k))
                same(cx, "configuration: " + k, getattr(
                    run.config_input, k),
                    getattr(m.calls[0][1].config_input, k))


def soln(cx, inp):
    import numpy as np
    e = np.zeros(0)
    t = np.zeros((0, 11))
    return C.Solution(
        solution_input=inp, angles=e, solution=t, flag=0,
        coordinate_system="spherical midplane 0", internal_data=None,
        initial_conditions=C.InitialConditions(
            norm_kepler_sq=1., a_0=1., γ=1., init_con=np.zeros(11),
            angles=e), t_roots=None, y_roots=None, sonic_point=None,
        sonic_point_values=None)


@contract("unknown method", ["solve.csvrunner.SolutionFinder",
                             "solve.hdf5runner.SolutionFinder"], samples=2)
def unknown(cx):
    begin(cx)
    which = cx.choice("runner", ["csv", "hdf5"])
    row = some_row(cx)
    with Scratch() as d:
        if which == "csv":
            f = CR.SolutionFinder(sonic_method="steps", store_internal=True,
                                  overrides={})
        else:
            f = HR.SolutionFinder(sonic_method="steps", store_internal=True,
                                  overrides={}, output_dir=d)
        st, e = cx.attempt(f, row)
        cx.ensure_true("refused", st == "raise" and
                       isinstance(e, U.DiscSolverError))
        cx.ensure_true("no file", not list(d.iterdir()))


class InOrder:
    """multiprocessing.Pool, by its contract"""
    def __init__(self, workers):
        self.workers = workers

    def imap(self, f, xs, *a):
        return (f(x) for x in xs)

    def imap_unordered(self, f, xs, *a):
        return reversed([f(x) for x in xs])

    def map(self, f, xs, *a):
        return [f(x) for x in xs]

    starmap = None


def pools(cx, seen):
    @contextmanager
    def pool(n=None):
        seen.append(n)
        yield InOrder(n)
    cx.stub(U.nicer_mp_pool, pool)


class Batch:
    """The solving method of a batch, one result for each input"""
    def __init__(self, cx, results, finish):
        self.cx, self.results, self.finish = cx, results, finish
        self.calls = []

    def __call__(self, inp, run, **kw):
        i = len(self.calls)
        self.calls.append((inp, run, kw))
        r = self.results[i]
        if r == "error":
            raise SU.SolverError("no solution")
        return self.finish(i, r, inp, run)


def batch_calls(cx, m, rows, label, over, store):
    cx.ensure_true("every input solved, in order", len(m.calls) == len(rows))
    if len(m.calls) != len(rows):
        return
    for (inp, run, kw), r in zip(m.calls, rows):
        want = C.ConfigInput(**{**dict(zip(INPUT, r)), "label": label or "",
                                **over})
        w = want.to_soln_input()
        for k in FIELDS:
            same(cx, "configuration: " + k, getattr(run.config_input, k),
                 getattr(want, k))
        for k in INPUT:
            same(cx, "input: " + k, getattr(inp, k), getattr(w, k))
        cx.ensure_true("options of the method",
                       kw == {"store_internal": store, "more": 5})


def batch(cx, finish):
    seen = []
    pools(cx, seen)
    n = 2
    results = [cx.choice("result %d" % i, ["yes", "no", "error"])
               for i in range(n)]
    m = Batch(cx, results, finish)
    cx.patches.set(CR.SONIC_METHOD_MAP, "step", m)
    rows = []
    for i in range(n):
        r = some_row(cx, "%d " % i, label=False)
        rows.append([r[k] for k in INPUT])
    label = cx.choice("label", [None, "a run"])
    kw = {} if label is None else {"label": label}
    over = cx.choice("override", [{}, {"γ": "1"}])
    args = dict(nworkers=cx.choice("workers", [None, 3]),
                store_internal=cx.choice("store", [True, False]),
                sonic_method="step", overrides=over, more=5, **kw)
    return seen, m, rows, label, over, args


@contract("ds-csvrunner", ["solve.csvrunner.csvrunner",
                           "solve.csvrunner.SolutionFinder"],
          bounded="partly symbolic: two inputs", samples=2)
def csv_all(cx):
    begin(cx)
    values = [some_input(cx, "%d " % i, simple=True) for i in range(2)]

    def finish(i, r, inp, run):
        if r == "no":
            return False
        run.solutions.add_solution(
            NS(solution_input=C.SolutionInput(**values[i])))
        run.final_solution = run.solutions.get_last_solution()
        return True
    seen, m, rows, label, over, args = batch(cx, finish)
    to = cx.choice("output", ["file", "open file"])
    with Scratch() as d:
        write(d / "in.csv", [INPUT] + rows)
        out = d / "out.csv"
        if to == "file":
            CR.csvrunner(input_file=d / "in.csv", output_file=str(out),
                         **args)
        else:
            with open(out, "a") as f:
                CR.csvrunner(input_file=d / "in.csv", output_file=f, **args)
                cx.ensure_true("given file left open", not f.closed)
        cx.ensure_true("workers", seen == [args["nworkers"]])
        batch_calls(cx, m, rows, label, over, args["store_internal"])
        reread(cx, out, [v for v, r in zip(values, m.results) if r == "yes"])


@contract("ds-hdf5runner", ["solve.hdf5runner.hdf5runner",
                            "solve.hdf5runner.SolutionFinder"],
          bounded="partly symbolic: two inputs", samples=2)
def hdf5_all(cx):
    begin(cx)
    opened = []

    def finish(i, r, inp, run):
        run.solutions.add_solution(soln(cx, inp))
        return r == "yes"
    seen, m, rows, label, over, args = batch(cx, finish)
    real = HR.h5open

    def opening(path, *a, **k):
        opened.append(Path(path))
        return real(path, *a, **k)
    with h5model.Disk(cx) as disk, Scratch() as d:
        cx.patches.set(vars(HR), "h5open", opening)
        write(d / "in.csv", [INPUT] + rows)
        HR.hdf5runner(input_file=d / "in.csv",
                      output_dir=disk.path("x").parent, **args)
        cx.ensure_true("workers", seen == [args["nworkers"]])
        batch_calls(cx, m, rows, label, over, args["store_internal"])
        cx.ensure_true("a file for each input", len(set(opened)) == 2 and all(
            p.parent == disk.path("x").parent for p in opened))
        for p, r, (inp, _, _) in zip(opened, m.results, m.calls):
            if r == "error":
                continue
            with h5open(p, registries, mode="r") as g:
                run = g["run"]
                for k in INPUT:
                    same(cx, "final solution: " + k, getattr(
                        run.final_solution.solution_input, k),
                        getattr(inp, k))


@contract("arguments of the batch commands", [
    "solve.csvrunner.main", "solve.hdf5runner.main",
    "solve.utils.add_solver_arguments", "solve.utils.add_worker_arguments"],
    bounded="given command lines", samples=2)
def commands(cx):
    which = cx.choice("command", ["csv", "hdf5"])
    method = cx.choice("method", [None] + METHODS)
    store = cx.choice("store", [None, True, False])
    over = cx.choice("override", [{}, {"γ": "1", "start": "2"}])
    n = cx.choice("workers", [None, 4])
    got = {}
    argv = []
    if method:
        argv += ["--sonic-method", method]
    if store is not None:
        argv += ["--store-internal" if store else "--no-store-internal"]
    for k, v in over.items():
        argv += ["--override", k, v]
    if n:
        argv += ["-n", str(n)]
    out = cx.choice("output", [None, "given"])
    if out:
        argv += ["--output-file", "o.csv"] if which == "csv" else \
            ["--output-dir", "/tmp/x"]
    label = cx.choice("label", [None, "l"]) if which == "hdf5" else None
    if label:
        argv += ["--label", label]
    mod, name = {"csv": (CR, "csvrunner"), "hdf5": (HR, "hdf5runner")}[which]
    cx.patches.set(vars(mod), name, lambda **k: got.update(k))
    mod.main(argv + ["in.csv"])
    cx.ensure_true("input", Path(got["input_file"]).name == "in.csv")
    cx.ensure_true("method", got["sonic_method"] == (
        method or ("step" if which == "csv" else "single")))
    cx.ensure_true("workers", got["nworkers"] == n)
    cx.ensure_true("overrides", got["overrides"] == over)
    cx.ensure_true("internal data", got["store_internal"] == (
        (which == "hdf5") if store is None else store))
    if which == "csv":
        cx.ensure_true("output", got["output_file"] == (
            "o.csv" if out else "-"))
    else:
        cx.ensure_true("label", got.get("label", "") == (label or ""))
        cx.ensure_true("output", Path(got["output_dir"]) == (
            Path("/tmp/x") if out else Path(".").absolute()))
