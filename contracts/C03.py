"""The series used to leave the midplane satisfies the equations."""
import numpy as np

from disc_solver.solve import solution as S
from disc_solver.solve import deriv_midplane as M
from disc_solver.utils import ODEIndex as O

from dv.api import registry
from dv.jet import Jet
from . import common as P

PROPERTY = "C03"
CONTRACTS, contract = registry()
FUNCS = ["solve.deriv_midplane." + f for f in (
    "taylor_series", "get_taylor_first_order", "get_taylor_second_order",
    "get_taylor_third_order", "Y_1_func", "Y_2_func", "Y_3_func", "Y_4_func",
    "Y_5_func", "Y_6_func", "dderiv_E_r_midplane", "dderiv_v_r_midplane",
    "dderiv_v_φ_midplane", "ddderiv_B_φ_midplane", "ddderiv_B_r_midplane",
    "ddderiv_v_θ_midplane", "dderiv_η_skw_midplane", "midplane_C_func",
    "deriv_B_r_midplane_func", "midplane_deriv_A_func", "midplane_Z_5_func",
    "dderiv_Z_5_midplane", "dderiv_b_θ_midplane")] + [
    "solve.config.B_φ_prime_boundary_func"]


class NS:
    pass


def midplane(cx, use_E_r):
    z = 0 * cx.real("γ")
    v_r = cx.real("v_r", nonzero=True)
    v_φ = cx.real("v_φ", pos=True)
    η = {n: cx.real(n, pos=n != "η_H") for n in ("η_O", "η_A", "η_H")}
    seven = cx.real("E_r") if use_E_r else cx.real("B_φ_prime")
    vals = {"B_r": z, "B_φ": z, "B_θ": z + 1, "v_r": v_r, "v_φ": v_φ,
            "v_θ": z, "ρ": z + 1, "B_φ_prime": seven, **η}
    return cx.real_array([vals[n] for n in P.NAMES])


def series(cx, use_E_r, η_derivs):
    g = {"γ": cx.real("γ"), "a_0": cx.real("a_0", pos=True)}
    ic = midplane(cx, use_E_r)
    f = M.get_taylor_first_order(init_con=ic, γ=g["γ"], a_0=g["a_0"])
    s = M.get_taylor_second_order(
        init_con=ic, γ=g["γ"], a_0=g["a_0"], η_derivs=η_derivs,
        use_E_r=use_E_r)
    t = M.get_taylor_third_order(
        init_con=ic, γ=g["γ"], a_0=g["a_0"], η_derivs=η_derivs,
        use_E_r=use_E_r)
    return g, ic, f, s, t


def jets(cx, g, ic, f, s, t):
    z = 0 * g["γ"]
    v, d = NS(), NS()
    for n in P.NAMES:
        k = O[n]
        c = [ic[k], f[k], s[k] / 2, t[k] / 6]
        setattr(v, n, Jet(c[:3]))
        setattr(d, n, Jet([c[1], 2 * c[2], 3 * c[3]]))
    return Jet([z, z + 1, z]), v, d


def orders(cx, use_E_r, η_derivs):
    g, ic, f, s, t = series(cx, use_E_r, η_derivs)
    γ, a_0 = g["γ"], g["a_0"]
    θ, v, d = jets(cx, g, ic, f, s, t)

    # symmetry about the midplane
    for n in P.NAMES:
        k = O[n]
        if n in ("B_r", "B_φ", "v_θ"):
            cx.ensure_zero("odd function " + n, s[k])
        elif n != "B_φ_prime":
            cx.ensure_zero("even function " + n, f[k])
            cx.ensure_zero("even function, third order, " + n, t[k])
    if use_E_r:
        cx.ensure_zero("even function E_r", f[O.E_r])
    else:
        cx.ensure_eq("B_φ' expansion", s[O.B_φ_prime], t[O.B_φ])

    def Z(name, terms, order):
        cx.ensure_zero("%s, order %d" % (name, order),
                       *[x.c[order] if isinstance(x, Jet) else
                         (x if order == 0 else 0 * γ) for x in terms])
    Z("solenoidal constraint", P.solenoid(θ, v, d, γ), 0)
    Z("solenoidal constraint", P.solenoid(θ, v, d, γ), 1)
    for k in (0, 1, 2):
        Z("mass conservation", P.continuity(θ, v, d, γ), k)
    b = P.unit(v)
    J = P.currents(θ, v, d, γ)
    E_r, E_θ, E_φ = P.electric(v, J, b)
    for k in (0, 1, 2):
        Z("azimuthal electric field vanishes", E_φ, k)
    for k in (0, 1, 2):
        Z("azimuthal momentum", P.azimuthal(θ, v, d, γ, a_0), k)
    for k in (0, 1):
        Z("polar momentum", P.polar(θ, v, d, γ, a_0), k)
    # the Keplerian velocity is whatever satisfies the midplane equation
    zero = Jet([0 * γ] * 3)
    rad = P.radial(θ, v, d, γ, a_0, zero)
    for k in (1, 2):
        Z("radial momentum", rad, k)
    # radial electric field: 2 E_r(2) = (γ - 3/4) E_θ(1)
    cx.ensure_zero("curl of the electric field, order 1",
                   2 * P.total(E_r).c[2], -(γ - 3 / 4) * P.total(E_θ).c[1])
    if use_E_r:
        cx.ensure_zero("curl of the electric field, E_r''",
                       s[O.E_r], -(γ - 3 / 4) * P.total(E_θ).c[1])
    B2 = v.B_r ** 2 + v.B_φ ** 2 + v.B_θ ** 2
    for n in ("η_O", "η_A", "η_H"):
        if η_derivs:
            Z("scaling of " + n, [getattr(v, n) * v.ρ,
                                  -(B2 * ic[O[n]])], 2)
        else:
            cx.ensure_zero("constant " + n, s[O[n]])


def _register():
    for use_E_r in (True, False):
        for η_derivs in (True, False):
            contract("equations order by order, %s, %s" % (
                "E_r" if use_E_r else "B_φ'",
                "η scaling" if η_derivs else "η constant"), FUNCS,
                budget=600)(
                    lambda cx, a=use_E_r, b=η_derivs: orders(cx, a, b))


_register()


@contract("the expansion is summed and continued from its end", FUNCS + [
    "solve.solution.taylor_jump"])
def jump(cx):
    use_E_r = cx.choice("use_E_r", [True, False])
    η_derivs = cx.choice("η_derivs", [True, False])
    γ, a_0 = cx.real("γ"), cx.real("a_0", pos=True)
    h = cx.real("taylor_stop_angle", pos=True)
    ic, f, s, t = [P.state(cx, p, positive=()) for p in "0123"]
    seen = []

    def con(arr, third):
        def get(**kw):
            seen.append((third, kw))
            return arr
        return get
    cx.stub(M.get_taylor_first_order, con(f, 1))
    cx.stub(M.get_taylor_second_order, con(s, 2))
    cx.stub(M.get_taylor_third_order, con(t, 3))
    angles = cx.sorted_vec("angles", minlen=2, first=0 * h)
    n = cx.length(angles)
    cx.require(h < angles[n - 1])
    r = S.taylor_jump(angles=angles, init_con=ic, γ=γ, a_0=a_0,
                      taylor_stop_angle=h, η_derivs=η_derivs, use_E_r=use_E_r)
    for k, name in enumerate(P.NAMES):
        cx.ensure_zero("value of " + name, r.new_initial_conditions[k],
                       -ic[k], -h * f[k], -h ** 2 / 2 * s[k],
                       -h ** 3 / 6 * t[k])
    for which, kw in seen:
        cx.ensure_eq("series of the same problem (γ)", kw["γ"], γ)
        cx.ensure_eq("series of the same problem (a_0)", kw["a_0"], a_0)
        cx.ensure_eq("series of the same problem", kw["init_con"], ic)
        if which > 1:
            cx.ensure("series of the same formulation",
                      kw["use_E_r"] is use_E_r)
            cx.ensure("series of the same diffusivity",
                      kw["η_derivs"] is η_derivs)
    cx.ensure_eq("the midplane is recorded", r.params[0], ic)
    cx.ensure_eq("the midplane angle is recorded", r.angles[0], 0 * h)
    continued(cx, r, angles, n, h)
    cx.ensure("no internal data", r.internal_data is None)


def continued(cx, r, angles, n, h):
    a = r.new_angles
    m = cx.length(a)
    cx.ensure("there are angles left", m > 1)
    cx.ensure_eq("continued from the end of the series", a[0], h)
    cx.ensure("increasing angles, none repeated", cx.is_sorted(a))
    cx.ensure("the last angle is kept", cx.eq(a[m - 1], angles[n - 1]))
    cx.ensure("every later angle of the grid is kept", cx.forall_int(
        lambda i: cx.imply(angles[i] > h, cx.exists_int(
            lambda k: a[k] == angles[i], 1, m)), 0, n))
    cx.ensure("only angles of the grid are added", cx.forall_int(
        lambda k: cx.exists_int(lambda i: a[k] == angles[i], 0, n), 1, m))
    cx.ensure_eq("angle stopped", r.angle_stopped, h)
