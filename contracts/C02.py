"""Closure of the induction equation when B_φ' is integrated: B_φ'' is the
value for which the electric field stays curl free."""
from disc_solver.solve import solution as S
from disc_solver.utils import ODEIndex as O

from dv.api import registry
from dv.jet import Jet
from . import common as P
from .C01 import setup

PROPERTY = "C02"
CONTRACTS, contract = registry()
FUNCS = ["solve.solution.ode_system", "solve.solution.rhs_equation",
         "solve.deriv_funcs.dderiv_B_φ_soln", "solve.deriv_funcs.A_func",
         "solve.deriv_funcs.C_func", "solve.deriv_funcs.B_unit_derivs",
         "solve.deriv_funcs.deriv_B_r_func"]


class NS:
    pass


def field_jet(g, dd):
    """E_r along the solution through the state, to first order in dθ, when
    B_φ'' = dd; B_r' is eliminated with E_φ = 0 (linear in B_r')."""
    p, d, γ = P.F(g["p"]), P.F(g["d"]), g["γ"]
    v, e = NS(), NS()
    for n in ("B_r", "B_φ", "B_θ", "v_r", "v_φ", "v_θ", "η_O", "η_A", "η_H"):
        setattr(v, n, Jet([getattr(p, n), getattr(d, n)]))
    e.B_φ = Jet([p.B_φ_prime, dd])
    θ = Jet([g["θ"], 1 + 0 * g["θ"]])
    b = P.unit(v)
    e.B_r = v.B_r * 0
    rest = P.total(P.electric(v, P.currents(θ, v, e, γ), b)[2])
    e.B_r = -rest / (v.η_O + v.η_A * (1 - b[1] ** 2))
    J = P.currents(θ, v, e, γ)
    E_r, E_θ, E_φ = P.electric(v, J, b)
    return P.total(E_r), P.total(E_θ)


@contract("electric field stays curl free", FUNCS, timeout=60)
def curl_free(cx):
    η_derivs = cx.choice("η_derivs", [True, False])
    g = setup(cx, False, η_derivs=η_derivs, store_internal=False)
    r = g["rhs"](g["θ"], g["p"], g["d"])
    cx.ensure("success is reported", r == 0)
    dd = g["d"][O.B_φ_prime]
    # derivatives of everything else are arbitrary: the argument of C01
    E_r, E_θ = field_jet(g, dd)
    cx.ensure_zero("dE_r/dθ", E_r.c[1], -(g["γ"] - 3 / 4) * E_θ.c[0])
