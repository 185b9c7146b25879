"""The right-hand side handed to the ODE solver satisfies the equations."""
import numpy as np

from disc_solver.solve import solution as S
from disc_solver.utils import ODEIndex as O

from dv.api import registry
from . import common as P

PROPERTY = "C01"
CONTRACTS, contract = registry()
FUNCS = [
    "solve.solution.ode_system", "solve.solution.rhs_equation",
    "solve.deriv_funcs.deriv_B_r_func", "solve.deriv_funcs.deriv_B_φ_func",
    "solve.deriv_funcs.deriv_E_r_func", "solve.deriv_funcs.deriv_η_skw_func",
    "solve.deriv_funcs.C_func", "solve.deriv_funcs.Z_5_func",
    "solve.j_e_funcs.J_r_func", "solve.j_e_funcs.J_θ_func",
    "solve.j_e_funcs.J_φ_func", "solve.j_e_funcs.E_θ_func",
    "solve.utils.scaled_to_rad",
]


def setup(cx, use_E_r, **kw):
    g = {}
    g["γ"] = cx.real("γ")
    g["a_0"] = cx.real("a_0", pos=True)
    g["K2"] = cx.real("norm_kepler_sq", pos=True)
    g["ic"] = P.state(cx, "mid_")
    g["θ"] = cx.real("θ", lo=0, hi=1.5)
    g["p"] = P.state(cx, "", positive=("ρ", "v_θ", "η_O", "η_A"))
    cx.require(g["p"][O.v_θ] != 1)
    g["rhs"], g["internal"] = S.ode_system(
        γ=g["γ"], a_0=g["a_0"], norm_kepler_sq=g["K2"], init_con=g["ic"],
        use_E_r=use_E_r, **kw)
    g["d"] = P.state(cx, "uninitialised_", positive=())
    return g


def equations(cx, g, v, d, *, use_E_r, η_derivs, taylor=False, v_θ_func=None):
    θ, γ, a_0, K2, ic = g["θ"], g["γ"], g["a_0"], g["K2"], P.F(g["ic"])
    Z = cx.ensure_zero
    Z("solenoidal constraint", *P.solenoid(θ, v, d, γ))
    J = P.currents(θ, v, d, γ)
    b = P.unit(v)
    E_r, E_θ, E_φ = P.electric(v, J, b)
    Z("azimuthal electric field vanishes", *E_φ)
    if use_E_r:
        Z("radial electric field", *(E_r + [-v.E_r]))
        Z("curl of the electric field",
          *([d.E_r] + [-(γ - 3 / 4) * t for t in E_θ]))
    else:
        cx.ensure_eq("B_φ' is the stored B_φ'", d.B_φ, v.B_φ_prime)
    if not taylor:
        Z("radial momentum", *P.radial(θ, v, d, γ, a_0, K2))
        Z("azimuthal momentum", *P.azimuthal(θ, v, d, γ, a_0))
        Z("mass conservation", *P.continuity(θ, v, d, γ))
    if v_θ_func is None and not taylor:
        Z("polar momentum", *P.polar(θ, v, d, γ, a_0))
    if taylor:
        # mass conservation used to eliminate the density gradient
        d_ρ = -(v.ρ * d.v_θ - v.ρ * v.v_θ * P.tan(θ)
                + 2 * γ * v.ρ * v.v_r) / v.v_θ

        class D:
            pass
        e = D()
        for n in P.NAMES:
            setattr(e, n, getattr(d, n))
        e.ρ = d_ρ
        Z("polar momentum", *P.polar(θ, v, e, γ, a_0))
    if v_θ_func is not None:
        cx.ensure_eq("v_θ' is the imposed one", d.v_θ, v_θ_func(θ))
    # η = η_0 B² / ρ
    B2 = v.B_r ** 2 + v.B_φ ** 2 + v.B_θ ** 2
    for n in ("η_O", "η_A", "η_H"):
        if η_derivs:
            Z("scaling of " + n, getattr(d, n) * v.ρ ** 2,
              -getattr(ic, n) * 2 * v.ρ * v.B_r * d.B_r,
              -getattr(ic, n) * 2 * v.ρ * v.B_φ * d.B_φ,
              -getattr(ic, n) * 2 * v.ρ * v.B_θ * d.B_θ,
              getattr(ic, n) * B2 * d.ρ)
        else:
            cx.ensure_eq("constant " + n, getattr(d, n), 0 * γ)


@contract("equations at one point", FUNCS)
def at_point(cx):
    use_E_r = cx.choice("use_E_r", [False, True])
    η_derivs = cx.choice("η_derivs", [True, False])
    store = cx.choice("store_internal", [False, True])
    g = setup(cx, use_E_r, η_derivs=η_derivs, store_internal=store)
    p0 = g["p"].copy()
    r = g["rhs"](g["θ"], g["p"], g["d"])
    cx.ensure("success is reported", r == 0)
    cx.ensure_eq("the state is not modified", g["p"], p0)
    equations(cx, g, P.F(p0), P.F(g["d"]), use_E_r=use_E_r,
              η_derivs=η_derivs)
    if store:
        recorded(cx, g, p0)
    else:
        cx.ensure("nothing is recorded", g["internal"] is None)


def recorded(cx, g, p0):
    i = g["internal"]
    for n in ("derivs", "params", "angles", "v_r_normal", "v_φ_normal",
              "ρ_normal", "v_r_taylor", "v_φ_taylor", "ρ_taylor"):
        cx.ensure("one entry in " + n, len(getattr(i, n)) == 1)
    d = g["d"].copy()
    g["d"][:] = g["d"] * 0
    g["p"][:] = g["p"] * 0
    cx.ensure_eq("recorded angle", i.angles[0], g["θ"])
    cx.ensure_eq("recorded state", i.params[0], p0)
    cx.ensure_eq("recorded derivatives", i.derivs[0], d)
    cx.ensure_eq("recorded v_r'", i.v_r_normal[0], d[O.v_r])
    cx.ensure_eq("recorded v_φ'", i.v_φ_normal[0], d[O.v_φ])
    cx.ensure_eq("recorded ρ'", i.ρ_normal[0], d[O.ρ])
    g["d"][:] = d
    g["p"][:] = p0


@contract("equations with an imposed v_θ'", FUNCS)
def imposed(cx):
    use_E_r = cx.choice("use_E_r", [False, True])
    f = cx.func("v_θ'")
    g = setup(cx, use_E_r, store_internal=False, deriv_v_θ_func=f)
    r = g["rhs"](g["θ"], g["p"], g["d"])
    cx.ensure("success is reported", r == 0)
    equations(cx, g, P.F(g["p"]), P.F(g["d"]), use_E_r=use_E_r,
              η_derivs=True, v_θ_func=f)


@contract("equations near the midplane (series branch)", FUNCS + [
    "solve.deriv_midplane.taylor_series"])
def series_branch(cx):
    from disc_solver.solve.deriv_midplane import taylor_series
    use_E_r = cx.choice("use_E_r", [False, True])
    coeff = P.state(cx, "second_", positive=())
    seen = {}

    def contract_of_series(**kw):
        seen.update(kw)
        return coeff
    cx.stub(taylor_series, contract_of_series)
    g = setup(cx, use_E_r, store_internal=True, with_taylor=True)
    r = g["rhs"](g["θ"], g["p"], g["d"])
    cx.ensure("success is reported", r == 0)
    for n in ("v_r", "v_φ", "ρ"):
        cx.ensure_eq("%s' is linear in θ" % n, g["d"][O[n]],
                     g["θ"] * coeff[O[n]])
        cx.ensure_eq("recorded series %s'" % n,
                     getattr(g["internal"], n + "_taylor")[0],
                     g["θ"] * coeff[O[n]])
    for n, k in (("γ", "γ"), ("a_0", "a_0"), ("init_con", "ic")):
        cx.ensure_eq("series is that of the system: " + n, seen[n], g[k])
    cx.ensure("series formulation", seen["use_E_r"] is use_E_r)
    cx.ensure("series diffusivity", seen["η_derivs"] is True)
    equations(cx, g, P.F(g["p"]), P.F(g["d"]), use_E_r=use_E_r,
              η_derivs=True, taylor=True)


@contract("unphysical states are refused", FUNCS)
def refused(cx):
    use_E_r = cx.choice("use_E_r", [False, True])
    store = cx.choice("store_internal", [False, True])
    γ = cx.real("γ")
    a_0 = cx.real("a_0", pos=True)
    K2 = cx.real("norm_kepler_sq", pos=True)
    ic = P.state(cx, "mid_")
    p = P.state(cx, "", positive=())
    θ = cx.real("θ", lo=0, hi=1.5)
    cx.require((p[O.ρ] < 0) | (p[O.v_θ] < 0))
    rhs, internal = S.ode_system(
        γ=γ, a_0=a_0, norm_kepler_sq=K2, init_con=ic, use_E_r=use_E_r,
        store_internal=store)
    d = P.state(cx, "uninitialised_", positive=())
    r = rhs(θ, p, d)
    cx.ensure("failure is reported", r != 0)
    cx.ensure("a negative density is recoverable",
              cx.imply(p[O.ρ] < 0, r > 0))
    cx.ensure("a negative velocity alone is not recoverable",
              cx.imply(cx.le(0, p[O.ρ]), r < 0))
    if store:
        cx.ensure("nothing is recorded", len(internal.params) == 0)
        cx.ensure("no angle is recorded", len(internal.angles) == 0)
        cx.ensure("the problem is noted", len(internal.problems) == 1)


@contract("derivatives recomputed for a whole solution", FUNCS)
def whole_solution(cx):
    """Post-solution evaluation on arrays: every row satisfies the same
    equations, whatever the sign of the density or velocity."""
    use_E_r = cx.choice("use_E_r", [False, True])
    γ = cx.real("γ")
    a_0 = cx.real("a_0", pos=True)
    K2 = cx.real("norm_kepler_sq", pos=True)
    ic = P.state(cx, "mid_")
    n = cx.int("rows", lo=1)
    θ = cx.vec("θ", n)
    p = cx.vec("state", n, cols=len(P.NAMES))
    d = cx.vec("out", n, cols=len(P.NAMES))
    i = cx.int("i", lo=0)
    cx.require(i < n)
    row = p[i]
    for k in ("ρ", "v_θ"):
        cx.require(row[O[k]] != 0)
    cx.require(row[O.v_θ] ** 2 != 1)
    for k in ("η_O", "η_A"):
        cx.require(row[O[k]] > 0)
    rhs, internal = S.ode_system(
        γ=γ, a_0=a_0, norm_kepler_sq=K2, init_con=ic, use_E_r=use_E_r,
        store_internal=False, derivs_post_solution=True)
    r = rhs(θ, p, d)
    cx.ensure("success is reported", r == 0)
    g = dict(θ=θ[i], γ=γ, a_0=a_0, K2=K2, ic=ic)
    equations(cx, g, P.F(p[i]), P.F(d[i]), use_E_r=use_E_r, η_derivs=True)
