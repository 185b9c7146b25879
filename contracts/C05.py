"""Settings: from the configuration file to the solver and back."""
import io
import os
import shutil
import tempfile
from pathlib import Path

from disc_solver import utils as U
from disc_solver.file_format import _containers as C
from disc_solver.solve import config as CF
from disc_solver.solve import utils as SU

from dv import tok
from dv.api import registry

PROPERTY = "C05"
CONTRACTS, contract = registry()
ASSUMPTIONS = [tok.PARSE, tok.PARSER]

# name: (section, default, how it is read, may be left blank)
FIELDS = {
    "start": ("config", "0", "real", False),
    "stop": ("config", "5", "real", False),
    "taylor_stop_angle": ("config", "0.001", "real", False),
    "max_steps": ("config", "10000", "int", False),
    "num_angles": ("config", "10000", "int", False),
    "label": ("config", "default", "word", False),
    "relative_tolerance": ("config", "1e-6", "real", False),
    "absolute_tolerance": ("config", "1e-10", "real", False),
    "jump_before_sonic": ("config", "None", "real", True),
    "v_θ_sonic_crit": ("config", "None", "real", True),
    "after_sonic": ("config", "None", "real", True),
    "interp_range": ("config", "10", "int", True),
    "sonic_interp_size": ("config", "None", "real", True),
    "interp_slice": ("config", "-1000,-100", "slice", True),
    "η_derivs": ("config", "True", "bool", False),
    "nwalkers": ("config", "8", "int", False),
    "iterations": ("config", "3", "int", False),
    "threads": ("config", "1", "int", False),
    "mcmc_vars": ("config", "v_r,v_a,v_k", "vars", True),
    "target_velocity": ("config", "0.9", "real", False),
    "split_method": ("config", "v_θ_deriv", "word", False),
    "use_taylor_jump": ("config", "True", "bool", False),
    "use_E_r": ("config", "False", "bool", False),
    "γ": ("initial", "0.001", "real", False),
    "v_rin_on_c_s": ("initial", "1", "real", False),
    "v_a_on_c_s": ("initial", "1", "real", False),
    "c_s_on_v_k": ("initial", "0.03", "real", False),
    "η_O": ("initial", "0.001", "real", False),
    "η_H": ("initial", "0.0001", "real", False),
    "η_A": ("initial", "0.0005", "real", False),
}
OPTIONAL = [k for k, v in FIELDS.items() if v[3] and v[2] in ("real", "int")]
REQUIRED = [k for k, v in FIELDS.items() if not v[3]]


def begin(cx):
    if cx.symbolic:
        tok.install(cx)


def like(f):
    k = FIELDS[f][2]
    return k if k in ("real", "int", "bool", "word") else "word"


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="dv-cfg-")
        return Path(self.d)

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def read(cx, sections, overrides):
    """get_input_from_conffile on a file with the given options"""
    if sections is None:
        return CF.get_input_from_conffile(
            config_file=None, overrides=overrides)
    if cx.symbolic:
        return CF.get_input_from_conffile(
            config_file=tok.TextFile(sections), overrides=overrides)
    with Scratch() as d:
        p = d / "in.cfg"
        with p.open("w") as f:
            for s, opts in sections.items():
                f.write("[%s]\n" % s)
                for k, v in opts.items():
                    f.write("%s = %s\n" % (k, v))
        return CF.get_input_from_conffile(config_file=p, overrides=overrides)


def same(cx, name, got, want):
    """Two texts, or two values out of the solver input"""
    if isinstance(want, slice) or isinstance(got, slice):
        cx.ensure_true(name + ": is a slice", isinstance(want, slice)
                       and isinstance(got, slice))
        for part in ("start", "stop", "step"):
            same(cx, "%s %s" % (name, part), getattr(got, part, None),
                 getattr(want, part, None))
        return
    if isinstance(want, C.MCMCVars) or isinstance(got, C.MCMCVars):
        cx.ensure_true(name + ": variables",
                       isinstance(want, C.MCMCVars) and
                       isinstance(got, C.MCMCVars) and
                       [bool(got.with_v_r), bool(got.with_v_a),
                        bool(got.with_v_k)] ==
                       [bool(want.with_v_r), bool(want.with_v_a),
                        bool(want.with_v_k)])
        return
    if want is None or got is None:
        cx.ensure_true(name, want is None and got is None)
    elif isinstance(want, (str, bool)) or isinstance(got, str):
        cx.ensure(name, got == want)
    else:
        cx.ensure_eq(name, got, want)


@contract("a setting read from a file", [
    "solve.config.get_input_from_conffile", "solve.utils.add_overrides",
    "file_format.ConfigInput"], samples=2)
def setting(cx):
    begin(cx)
    f = cx.choice("setting", sorted(FIELDS))
    section, default, kind, blank = FIELDS[f]
    present = cx.choice("in file", ["set", "left out", "no file"])
    over = cx.choice("overridden", ["no", "this", "another", "none given"])
    texts = {k: cx.text(k, like(k), nonempty=k != f) for k in FIELDS
             if k != f}
    mine = cx.text(f, like(f), nonempty=not blank)
    ov = cx.text("override", like(f))
    other = "label" if f != "label" else "γ"
    sections = {"config": {}, "initial": {}}
    for k, v in texts.items():
        sections[FIELDS[k][0]][k] = v
    if present == "set":
        sections[section][f] = mine
    if present == "no file":
        sections = None
    overrides = {"no": {}, "this": {f: ov}, "another": {other: ov},
                 "none given": None}[over]
    out = read(cx, sections, overrides)
    want = default
    if present == "set":
        want = mine
        if blank and mine == "":
            want = "None"
    if over == "this":
        want = ov
    same(cx, "the setting", getattr(out, f), want)
    if over == "another":
        same(cx, "the overridden setting", getattr(out, other), ov)


@contract("overrides from the command line", [
    "solve.utils.validate_overrides"],
    bounded="partly symbolic: lists of up to three overrides", samples=2)
def overrides(cx):
    begin(cx)
    n = cx.choice("number", [0, 1, 2, 3])
    names, pairs = [], []
    for i in range(n):
        kinds = ["known", "unknown", "label"] + (["first"] if i else [])
        k = cx.choice("name %d" % i, kinds)
        if k == "known":
            k = cx.choice("field %d" % i, sorted(FIELDS)) if i == 0 else "γ"
        elif k == "first":
            k = names[0]
        elif k == "unknown":
            k = cx.choice("wrong name %d" % i,
                          ["gamma", "config", "", "LABEL"])
        names.append(k)
        pairs.append((k, cx.text("value %d" % i)))
    status, out = cx.attempt(SU.validate_overrides, pairs)
    bad = [k for k in names if k not in FIELDS]
    if bad:
        cx.ensure_true("unknown names are refused", status == "raise" and
                       isinstance(out, U.DiscSolverError))
        return
    cx.ensure_true("accepted", status == "ok")
    if status != "ok":
        return
    cx.ensure_true("all names kept", set(out) == set(names))
    for k in set(names):
        last = [v for q, v in pairs if q == k][-1]
        same(cx, "last value wins", out.get(k), last)


@contract("overriding no setting but the given ones",
          ["solve.utils.add_overrides"])
def evolve(cx):
    begin(cx)
    conf = C.ConfigInput(**{k: cx.text(k, like(k)) for k in FIELDS})
    before = {k: getattr(conf, k) for k in FIELDS}
    f = cx.choice("setting", sorted(FIELDS))
    none = cx.choice("overrides", ["one", "none"])
    v = cx.text("override", like(f))
    out = SU.add_overrides(overrides={f: v} if none == "one" else None,
                           config_input=conf)
    for k in FIELDS:
        want = before[k] if k != f or none == "none" else v
        same(cx, "settings after overriding", getattr(out, k), want)
        same(cx, "original settings", getattr(conf, k), before[k])


PARSED = {"real": "R", "int": "I"}


def parsed(cx, f, t):
    """what the solver should see for the text t"""
    kind = FIELDS[f][2]
    if kind == "word":
        return t
    if cx.symbolic:
        return {"real": U.str_to_float, "int": U.str_to_int,
                "bool": U.str_to_bool}[kind](t)
    from fractions import Fraction
    if kind == "bool":
        return t in ("True", "yes")
    return float(Fraction(t)) if kind == "real" else int(t)


@contract("the solver sees the settings",
          ["file_format.ConfigInput.to_soln_input"])
def solver_input(cx):
    begin(cx)
    conf = {k: cx.text(k, like(k), free=False) for k in FIELDS}
    absent = cx.choice("left out", ["nothing"] + OPTIONAL)
    none = cx.choice("as", ["None", None, ""])
    if absent != "nothing":
        conf[absent] = none
    names = cx.choice("variables", [
        None, "None", "", "v_r", "v_a,v_k", "v_k", "v_r,v_a,v_k"])
    conf["mcmc_vars"] = names
    ends = cx.choice("slice", [None, "None", "", "two", "three", "one"])
    a, b, c = cx.int("slice start"), cx.int("slice stop"), cx.int("step")
    conf["interp_slice"] = {
        "two": "%s,%s" % (a, b), "three": "%s,%s,%s" % (a, b, c),
        "one": "%s" % b}.get(ends, ends)
    out = C.ConfigInput(**conf).to_soln_input()
    for k in FIELDS:
        if k in ("mcmc_vars", "interp_slice", "label"):
            continue
        same(cx, "value of " + k, getattr(out, k),
             None if k == absent else parsed(cx, k, conf[k]))
    same(cx, "variables", out.mcmc_vars,
         None if names in (None, "None", "") else C.MCMCVars(
             with_v_r="v_r" in names, with_v_a="v_a" in names,
             with_v_k="v_k" in names))
    same(cx, "slice", out.interp_slice, {
        "two": slice(a, b), "three": slice(a, b, c),
        "one": slice(b)}.get(ends))


def some_input(cx):
    """SolutionInput with every value unknown"""
    values = {}
    absent = cx.choice("absent", ["nothing", "all"] + OPTIONAL)
    for k, (_, _, kind, blank) in FIELDS.items():
        if k == "label":
            continue
        if kind == "real":
            values[k] = cx.real(k)
        elif kind == "int":
            values[k] = cx.int(k)
        elif kind == "word":
            values[k] = cx.text(k)
        if absent in ("all", k) and k in OPTIONAL:
            values[k] = None
    bits = cx.choice("switches", range(4))
    values["η_derivs"], values["use_taylor_jump"] = [
        (True, True), (False, True), (True, False), (False, False)][bits]
    values["use_E_r"] = bits in (1, 2)
    group = cx.choice("group", ["variables", "slice"])
    values["mcmc_vars"] = None
    values["interp_slice"] = slice(cx.int("slice start"),
                                   cx.int("slice stop"))
    if group == "variables":
        w = cx.choice("with", range(1, 8))
        values["mcmc_vars"] = C.MCMCVars(
            with_v_r=bool(w & 1), with_v_a=bool(w & 2), with_v_k=bool(w & 4))
    else:
        w = cx.choice("ends", range(9))
        if w == 8:
            values["interp_slice"] = None
        else:
            values["interp_slice"] = slice(
                cx.int("slice start") if w & 1 else None,
                cx.int("slice stop") if w & 2 else None,
                cx.int("slice step") if w & 4 else None)
    return values


def check_input(cx, out, values):
    for k, v in values.items():
        same(cx, "value of " + k, getattr(out, k), v)


@contract("solver input as settings and back", [
    "file_format.SolutionInput.to_config_input",
    "file_format.ConfigInput.to_soln_input",
    "file_format._containers.slice_to_str",
    "file_format._containers.str_to_slice",
    "file_format._containers.mcmc_vars_str_to_obj"])
def back(cx):
    begin(cx)
    values = some_input(cx)
    label = cx.text("label")
    conf = C.SolutionInput(**values).to_config_input(label)
    same(cx, "label", conf.label, label)
    check_input(cx, conf.to_soln_input(), values)


@contract("solver input through a configuration file", [
    "file_format.SolutionInput.to_config_input",
    "file_format.ConfigInput.to_conf_file",
    "solve.config.get_input_from_conffile"])
def dump(cx):
    begin(cx)
    values = some_input(cx)
    label = cx.text("label")
    conf = C.SolutionInput(**values).to_config_input(label)
    new = through_file(cx, conf)
    same(cx, "label", new.label, label)
    check_input(cx, new.to_soln_input(), values)


def through_file(cx, conf):
    if cx.symbolic:
        f = tok.TextFile()
        conf.to_conf_file(f)
        return CF.get_input_from_conffile(config_file=f)
    f = io.StringIO()
    conf.to_conf_file(f)
    with Scratch() as d:
        p = d / "out.cfg"
        p.write_text(f.getvalue())
        return CF.get_input_from_conffile(config_file=p)


@contract("settings through a configuration file", [
    "file_format.ConfigInput.to_conf_file",
    "solve.config.get_input_from_conffile"])
def rewrite(cx):
    begin(cx)
    conf = {k: cx.text(k, like(k), free=False) for k in FIELDS}
    absent = cx.choice("absent", ["nothing"] + [
        k for k, v in FIELDS.items() if v[3]])
    none = cx.choice("as", ["None", None, ""])
    if absent != "nothing":
        conf[absent] = none
    new = through_file(cx, C.ConfigInput(**conf))
    for k in FIELDS:
        got = getattr(new, k)
        if k == absent:
            cx.ensure_true("still absent", got is None or got == "None")
        else:
            same(cx, "setting %s" % k, got, conf[k])


@contract("resolving with overrides",
          ["solve.config.new_inputs_with_overrides"])
def resolve(cx):
    begin(cx)
    f = cx.choice("setting", sorted(FIELDS))
    differs = cx.choice("solution input", ["as configured", "differs"])
    over = cx.choice("overridden", ["yes", "no", "none given", "another"])
    texts = {k: cx.text(k, like(k), free=k == f) for k in FIELDS}
    texts["mcmc_vars"] = cx.choice("variables", ["v_r,v_k", "None"])
    texts["interp_slice"] = "-20,-3"
    conf = C.ConfigInput(**texts)
    soln = conf.to_soln_input()
    ov = {"mcmc_vars": "v_a", "interp_slice": "-7,-2"}.get(
        f, cx.text("override", like(f), free=False))
    mine = None
    if differs == "differs":
        if f == "label":
            return
        mine = {"mcmc_vars": C.MCMCVars(True, True, False),
                "interp_slice": slice(1, 2)}.get(f)
        if mine is None:
            mine = parsed(cx, f, cx.text("solution's value", like(f),
                                          free=False))
        setattr(soln, f, mine)
    other = "stop" if f != "stop" else "start"
    overrides = {"yes": {f: ov}, "no": {}, "none given": None,
                 "another": {other: "3"}}[over]
    before = {k: getattr(soln, k) for k in FIELDS if k != "label"}
    new_conf, new_soln = CF.new_inputs_with_overrides(conf, soln, overrides)
    for k in FIELDS:
        want = texts[k]
        if over == "yes" and k == f:
            want = ov
        if over == "another" and k == other:
            want = "3"
        same(cx, "configured " + k, getattr(new_conf, k), want)
        same(cx, "old configuration " + k, getattr(conf, k), texts[k])
        if k == "label":
            continue
        same(cx, "old input " + k, getattr(soln, k), before[k])
        if over == "yes" and k == f:
            want = C.ConfigInput(**{**texts, f: ov}).to_soln_input()
            want = getattr(want, k)
        elif over == "another" and k == other:
            want = 3
        else:
            want = before[k]
        same(cx, "input " + k, getattr(new_soln, k), want)
