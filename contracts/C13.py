"""Normalisation, and moving a solution to other radii and coordinates."""
import math

import numpy as np

from disc_solver import utils as U
from disc_solver import constants as K
from disc_solver.utils import ODEIndex as O, CylindricalODEIndex as Z

from dv.api import registry
from dv.jet import cos, sin, sqrt

PROPERTY = "C13"
CONTRACTS, contract = registry()
ASSUMPTIONS = []


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


@contract("normalisation", ["utils.get_normalisation"])
def normalisation(cx):
    c, a = cx.real("c_s_on_v_k", pos=True), cx.real("v_a_on_c_s", pos=True)
    inp = NS(c_s_on_v_k=c, v_a_on_c_s=a)
    if cx.choice("place", ["default", "given"]) == "default":
        n = U.get_normalisation(inp)
        m = U.get_normalisation(inp, radius=K.AU, mass=K.M_SUN,
                                density=1.5e-9)
        for k in m:
            cx.ensure_eq("default place: " + k, n[k], m[k])
        return
    R, M = cx.real("radius", pos=True), cx.real("mass", pos=True)
    ρ = cx.real("density", pos=True)
    n = U.get_normalisation(inp, radius=R, mass=M, density=ρ)
    cx.ensure_true("what is normalised", set(n) == {
        "v_norm", "B_norm", "ρ_norm", "η_norm"})
    v_K = K.G * M / R
    cx.ensure_eq("sound speed", n["v_norm"] ** 2, c ** 2 * v_K)
    cx.ensure("sound speed is positive", 0 < n["v_norm"])
    cx.ensure_eq("Alfvén speed", n["B_norm"] ** 2,
                 4 * math.pi * ρ * (a * n["v_norm"]) ** 2)
    cx.ensure("field is positive", 0 < n["B_norm"])
    cx.ensure_eq("density", n["ρ_norm"], ρ)
    cx.ensure_eq("diffusivity", n["η_norm"], R * n["v_norm"])


@contract("constants", ["constants"])
def constants(cx):
    for name, v, tol in (("G", 6.674e-8, 1e-4), ("AU", 1.4959787e13, 2e-4),
                         ("M_SUN", 1.989e33, .01), ("KM", 1e5, 0),
                         ("YEAR", 365.25 * 86400, 0)):
        cx.ensure_true(name, abs(float(getattr(K, name)) - v) <= tol * v)


@contract("cot, sec and cosec", ["utils.cot", "utils.sec", "utils.cosec"])
def trig(cx):
    x = cx.real("angle")
    if cx.choice("angle is", ["any", "0", "π/2", "π"]) == "any":
        cx.require(abs(sin(x)) > .001)
        cx.require(abs(cos(x)) > .001)
        cx.require(x > .1)
        cx.require(x < 1.5)
        cx.ensure_eq("cot", U.cot(x) * sin(x), cos(x))
        cx.ensure_eq("sec", U.sec(x) * cos(x), 1)
        cx.ensure_eq("cosec", U.cosec(x) * sin(x), 1)
    else:
        cx.ensure_true("cot 0", U.cot(0) == math.inf)
        cx.ensure_true("cot π/2", U.cot(math.pi / 2) == 0)
        cx.ensure_true("cot π", U.cot(math.pi) == -math.inf)


def data(cx, kind):
    """one state or a table, and a function giving (row, its radius)"""
    if kind == "one state":
        t = cx.real_array([cx.real(o.name) for o in O])
        return t, None
    t = cx.vec("soln", cols=11, minlen=1)
    i = cx.int("row", lo=0)
    cx.require(i < cx.length(t))
    return t, i


POWERS = {"v_r": -1 / 2, "v_φ": -1 / 2, "v_θ": -1 / 2, "η_O": 1 / 2,
          "η_A": 1 / 2, "η_H": 1 / 2}
FIELD = ["B_r", "B_φ", "B_θ", "B_φ_prime"]


def factor(o, r, γ):
    if o in FIELD:
        return r ** (γ - 5 / 4)
    if o == "ρ":
        return r ** (2 * γ - 3 / 2)
    return sqrt(r) if POWERS[o] > 0 else 1 / sqrt(r)


NAMES = ["B_r", "B_φ", "B_θ", "v_r", "v_φ", "v_θ", "ρ", "B_φ_prime", "η_O",
         "η_A", "η_H"]


@contract("scaling to other radii", ["utils.scale_solution_to_radii"])
def radii(cx):
    t, i = data(cx, cx.choice("of", ["one state", "table"]))
    γ = cx.real("γ")
    if i is None:
        r = rs = cx.real("radius", pos=True)
        one = old = t
    else:
        same = cx.choice("radii", ["one for all", "one for each row"])
        if same == "one for all":
            r = rs = cx.real("radius", pos=True)
        else:
            rs = cx.vec("radii", n=cx.length(t))
            r = rs[i]
            cx.require(0 < r)
        one = t[i]
    old = [one[O[n]] for n in NAMES]
    out = U.scale_solution_to_radii(t, rs, γ=γ, use_E_r=False)
    if i is not None:
        cx.ensure_eq("as many rows", cx.length(out), cx.length(t))
    new = out if i is None else out[i]
    for k, n in enumerate(NAMES):
        cx.ensure_eq(n, new[O[n]], factor(n, r, γ) * old[k])
        cx.ensure_eq("input stays", (t if i is None else t[i])[O[n]], old[k])


@contract("invariants of the scaling", ["utils.scale_solution_to_radii"])
def invariants(cx):
    """Self-similarity: the ratio of any two speeds, and the Reynolds numbers,
    do not depend on the radius"""
    γ, r = cx.real("γ"), cx.real("radius", pos=True)
    x = cx.real_array([cx.real(n, pos=n in ("ρ", "v_θ", "η_O")) for n in NAMES])
    y = U.scale_solution_to_radii(x, r, γ=γ, use_E_r=False)
    cx.ensure_eq("Alfvén speed on poloidal speed",
                 y[O.B_r] ** 2 / y[O.ρ] / y[O.v_θ] ** 2,
                 x[O.B_r] ** 2 / x[O.ρ] / x[O.v_θ] ** 2)
    cx.ensure_eq("magnetic Reynolds number", r * y[O.v_θ] / y[O.η_O],
                 x[O.v_θ] / x[O.η_O])
    cx.ensure_eq("mass flux through the surface",
                 y[O.ρ] * y[O.v_r] * r ** 2,
                 x[O.ρ] * x[O.v_r] * r ** (2 * γ))


@contract("no scaling of E_r", [
    "utils.scale_solution_to_radii", "utils.convert_spherical_to_cylindrical",
    "utils.convert_solution_to_vertical"])
def with_E_r(cx):
    t, i = data(cx, cx.choice("of", ["one state", "table"]))
    a = cx.real("angle") if i is None else cx.vec("angles",
                                                  n=cx.length(t))
    γ, c = cx.real("γ"), cx.real("c_s_on_v_k", pos=True)
    r = cx.real("radius", pos=True)
    if i is not None:
        cx.require(0 < cos(a[i]))
    else:
        cx.require(0 < cos(a))
    for name, f, args, kw in (
            ("radii", U.scale_solution_to_radii, (t, r), {}),
            ("vertical", U.convert_solution_to_vertical, (a, t),
             {"c_s_on_v_k": c}),
            ("cylindrical", U.convert_spherical_to_cylindrical, (a, t),
             {"c_s_on_v_k": c})):
        st, e = cx.attempt(f, *args, γ=γ, use_E_r=True, **kw)
        cx.ensure_true(name + " refused", st == "raise" and isinstance(
            e, U.DiscSolverError))


@contract("heights and radii at fixed cylindrical radius",
          ["utils.get_heights", "utils.get_vertical_scaling"])
def heights(cx):
    """The point at unit cylindrical radius along the ray of angle θ above
    the midplane is at height tan θ and radius 1 / cos θ"""
    if cx.choice("of", ["one", "many"]) == "one":
        a = θ = cx.real("angle", lo=-1.5, hi=1.5)
        pick = lambda v: v
    else:
        a = cx.vec("angles", minlen=1)
        i = cx.int("row", lo=0)
        cx.require(i < cx.length(a))
        θ = a[i]
        pick = lambda v: v[i]
    cx.require(0 < cos(θ))
    c = cx.real("c_s_on_v_k", pos=True)
    h = U.get_heights(a, c_s_on_v_k=c)
    r = U.get_vertical_scaling(a, c_s_on_v_k=c)
    cx.ensure_eq("height", pick(h) * c * cos(θ), sin(θ))
    cx.ensure_eq("radius", (pick(r) * cos(θ)) ** 2, 1)
    cx.ensure("radius is positive", 0 < pick(r))
    if θ is not a:
        cx.ensure_eq("as many heights", cx.length(h), cx.length(a))
        cx.ensure_eq("as many radii", cx.length(r), cx.length(a))


@contract("rotation to cylindrical components",
          ["utils.spherical_r_θ_to_cylindrical_R_z"])
def rotation(cx):
    θ, a, b = cx.real("angle"), cx.real("r part"), cx.real("θ part")
    R, z = U.spherical_r_θ_to_cylindrical_R_z(a, b, θ)
    cx.ensure_eq("along r", R * cos(θ) + z * sin(θ), a)
    cx.ensure_eq("along θ", z * cos(θ) - R * sin(θ), b)


@contract("vertical and cylindrical solutions", [
    "utils.convert_solution_to_vertical",
    "utils.convert_spherical_to_cylindrical",
    "utils.scale_solution_to_radii", "utils.get_vertical_scaling",
    "utils.spherical_r_θ_to_cylindrical_R_z"])
def cylindrical(cx):
    t, i = data(cx, cx.choice("of", ["one state", "table"]))
    γ, c = cx.real("γ"), cx.real("c_s_on_v_k", pos=True)
    if i is None:
        a = θ = cx.real("angle", lo=-1.5, hi=1.5)
        one, pick = t, lambda v: v
    else:
        a = cx.vec("angles", n=cx.length(t))
        θ = a[i]
        one, pick = t[i], lambda v: v[i]
    cx.require(0 < cos(θ))
    old = [one[O[n]] for n in NAMES]
    # by the contract of get_vertical_scaling r cos θ = 1
    r = pick(U.get_vertical_scaling(a, c_s_on_v_k=c))
    h = pick(U.get_heights(a, c_s_on_v_k=c))
    x = {n: factor(n, r, γ) * v for n, v in zip(NAMES, old)}

    for name, f in (("vertical", U.convert_solution_to_vertical),
                    ("cylindrical", U.convert_spherical_to_cylindrical)):
        hs, out = f(a, t, γ=γ, c_s_on_v_k=c, use_E_r=False)
        cx.ensure_eq(name + ": height", pick(hs), h)
        if i is not None:
            cx.ensure_eq(name + ": rows", cx.length(out), cx.length(t))
        y = pick(out)
        cyl = name == "cylindrical"
        for n in NAMES:
            if cyl and n in ("v_r", "v_θ", "B_r", "B_θ"):
                continue
            cx.ensure_eq("%s: %s" % (name, n), y[Z[n] if cyl else O[n]], x[n])
        if cyl:
            for q in "vB":
                r_, z_ = y[Z[q + "_r"]], y[Z[q + "_z"]]
                cx.ensure_eq("cylindrical: %s along r" % q,
                             r_ * cos(θ) + z_ * sin(θ), x[q + "_r"])
                cx.ensure_eq("cylindrical: %s along θ" % q,
                             z_ * cos(θ) - r_ * sin(θ), x[q + "_θ"])
        for k, n in enumerate(NAMES):
            cx.ensure_eq("input stays", pick(t)[O[n]], old[k])
