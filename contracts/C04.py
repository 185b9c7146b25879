"""Initial conditions solve the midplane equations."""
import numpy as np

from disc_solver.file_format import SolutionInput
from disc_solver.solve import config as C
from disc_solver.solve.utils import SolverError
from disc_solver.utils import ODEIndex as O

from dv.api import registry
from . import common as P

PROPERTY = "C04"
CONTRACTS, contract = registry()
FUNCS = ["solve.config.define_conditions", "solve.config.v_φ_boundary_func",
         "solve.config.B_φ_prime_boundary_func",
         "solve.config.E_r_boundary_func",
         "file_format.InitialConditions.__init__"]


class NS:
    pass


def soln_input(cx, **kw):
    """A SolutionInput with arbitrary physical parameters."""
    v = dict(
        start=cx.real("start", lo=0, hi=89), stop=cx.real("stop", lo=0, hi=89),
        taylor_stop_angle=cx.real("taylor_stop_angle", pos=True),
        max_steps=cx.int("max_steps", lo=1),
        num_angles=cx.int("num_angles", lo=2, hi=kw.pop("max_angles", None)),
        relative_tolerance=cx.real("rtol", pos=True),
        absolute_tolerance=cx.real("atol", pos=True),
        γ=cx.real("γ"), nwalkers=8, iterations=3, threads=1,
        target_velocity=cx.real("target_velocity", pos=True),
        split_method="v_θ_deriv",
        v_rin_on_c_s=cx.real("v_rin_on_c_s"),
        v_a_on_c_s=cx.real("v_a_on_c_s", pos=True),
        c_s_on_v_k=cx.real("c_s_on_v_k", pos=True),
        η_O=cx.real("η_O", pos=True), η_H=cx.real("η_H"),
        η_A=cx.real("η_A", nonneg=True),
    )
    v.update(kw)
    return SolutionInput(**v)


def discriminant(inp):
    """4th/(...) of the quadratic for v_φ: the midplane equations have a real
    solution when it is not negative."""
    v_r, a_0 = -inp.v_rin_on_c_s, inp.v_a_on_c_s ** 2
    η_P = inp.η_O + inp.η_A
    return (
        1 / inp.c_s_on_v_k ** 2 - 5 / 2 + 2 * inp.γ + v_r * a_0 / η_P
        + v_r ** 2 / 2 * (inp.η_H ** 2 / (8 * η_P ** 2) - 1))


@contract("the midplane equations hold", FUNCS)
def conditions(cx):
    use_E_r = cx.choice("use_E_r", [False, True])
    inp = soln_input(cx, use_E_r=use_E_r, max_angles=None)
    disc = discriminant(inp)
    before = dict(vars(inp))
    st, ic = cx.attempt(C.define_conditions, inp)
    if st == "raise":
        cx.ensure("an error is a solver error", isinstance(ic, SolverError))
        cx.ensure("error only without a real solution", disc < 0)
        return
    cx.ensure("no complex velocity", cx.le(0, disc))
    for k, v in before.items():
        cx.ensure("input not modified: " + k, getattr(inp, k) is v)
    x = ic.init_con
    v, d = P.F(x), NS()
    γ, a_0 = inp.γ, inp.v_a_on_c_s ** 2
    cx.ensure_eq("γ", ic.γ, γ)
    cx.ensure_eq("a_0 is the squared Alfvén speed", ic.a_0, a_0)
    cx.ensure_eq("Keplerian speed", ic.norm_kepler_sq * inp.c_s_on_v_k ** 2,
                 1)
    for n, val in (("B_r", 0), ("B_φ", 0), ("B_θ", 1), ("v_θ", 0), ("ρ", 1)):
        cx.ensure_eq("normalisation of " + n, x[O[n]], val)
    for n in ("η_O", "η_A", "η_H"):
        cx.ensure_eq(n, x[O[n]], getattr(inp, n))
        cx.ensure_eq(n + " of the conditions", getattr(ic, n),
                     getattr(inp, n))
    cx.ensure_eq("accretion speed", x[O.v_r], -inp.v_rin_on_c_s)
    cx.ensure_eq("number of variables", len(x), 11)

    # derivatives at the midplane: E_φ = 0 gives B_r'
    z = 0 * γ
    for n in P.NAMES:
        setattr(d, n, z)
    η_P = inp.η_O + inp.η_A
    # azimuthal momentum with v_θ = 0 and B_r = 0
    d.B_φ = v.v_φ * v.v_r / (2 * a_0)
    if not use_E_r:
        cx.ensure_eq("B_φ' balances the azimuthal momentum", v.B_φ_prime,
                     d.B_φ)
    b = (z, z, z + 1)
    E0 = P.electric(v, P.currents(z, v, d, γ), b)[2]
    d.B_r = -P.total(E0) / η_P
    J = P.currents(z, v, d, γ)
    E_r, E_θ, E_φ = P.electric(v, J, b)
    cx.ensure_zero("azimuthal electric field vanishes", *E_φ)
    cx.ensure_zero("azimuthal momentum", *P.azimuthal(z, v, d, γ, a_0))
    cx.ensure_zero("radial momentum", *P.radial(
        z, v, d, γ, a_0, ic.norm_kepler_sq))
    if use_E_r:
        cx.ensure_zero("E_r is that of Ohm's law", v.E_r,
                       *[-t for t in E_r])
    root = v.v_φ - v.v_r * inp.η_H / (4 * η_P)
    cx.ensure("v_φ is the prograde solution", cx.le(0, root))

    # angles
    n = cx.length(ic.angles)
    cx.ensure_eq("number of angles", n, inp.num_angles)
    rad = np.pi / 180
    cx.ensure_eq("first angle", ic.angles[0], inp.start * rad)
    cx.ensure_eq("last angle", ic.angles[n - 1], inp.stop * rad)
    cx.ensure_vec_eq("equally spaced angles", ic.angles, grid(cx, inp, n))


def grid(cx, inp, n):
    rad = np.pi / 180
    if cx.symbolic:
        from dv import vec, expr as E
        step = (inp.stop - inp.start) / (n - 1) * rad
        return vec.SVec(n, lambda i: E.node(
            inp.start * rad + E.Sym(E.toreal(i)) * step))
    return inp.start * rad + np.arange(int(n)) * (
        inp.stop - inp.start) / (int(n) - 1) * rad
