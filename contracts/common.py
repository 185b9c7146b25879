"""Specification functions shared by the contracts.

The equations are written from the physics (steady, axisymmetric, radially
self-similar, isothermal disc in spherical coordinates measured from the
midplane, with Ohmic, Hall and ambipolar diffusion), in residual form: lists
of terms that have to sum to zero.
"""
import numpy as np

from disc_solver.utils import ODEIndex as O

from dv.jet import Jet, cos, sin, sqrt

NAMES = [o.name for o in O]


def state(cx, prefix, positive=("ρ",)):
    vals = []
    for n in NAMES:
        vals.append(cx.real(prefix + n, pos=n in positive))
    return cx.real_array(vals)


class F:
    """Field values by name."""

    def __init__(self, arr):
        for n in NAMES:
            setattr(self, n, arr[..., O[n]])
        self.E_r = arr[..., O.E_r]


def tan(θ):
    return sin(θ) / cos(θ)


def unit(v):
    B = sqrt(v.B_r ** 2 + v.B_φ ** 2 + v.B_θ ** 2)
    return v.B_r / B, v.B_φ / B, v.B_θ / B


def currents(θ, v, d, γ):
    """J = curl B for B ~ r^-(5/4 - γ)."""
    return (
        v.B_φ * tan(θ) - d.B_φ,
        -(v.B_φ * (1 / 4 - γ)),
        d.B_r + v.B_θ * (1 / 4 - γ),
    )


def electric(v, J, b):
    """E' = -v x B + η_O J + η_H J x b - η_A (J x b) x b, as term lists."""
    J_r, J_θ, J_φ = J
    b_r, b_φ, b_θ = b
    # J x b
    H_r = J_θ * b_φ - J_φ * b_θ
    H_θ = J_φ * b_r - J_r * b_φ
    H_φ = J_r * b_θ - J_θ * b_r
    # (J x b) x b
    A_r = H_θ * b_φ - H_φ * b_θ
    A_θ = H_φ * b_r - H_r * b_φ
    A_φ = H_r * b_θ - H_θ * b_r
    return (
        [v.η_O * J_r, -v.η_H * H_r, -v.η_A * A_r,
         v.v_θ * v.B_φ, -v.v_φ * v.B_θ],
        [v.η_O * J_θ, -v.η_H * H_θ, -v.η_A * A_θ,
         v.v_φ * v.B_r, -v.v_r * v.B_φ],
        [v.η_O * J_φ, -v.η_H * H_φ, -v.η_A * A_φ,
         v.v_r * v.B_θ, -v.v_θ * v.B_r],
    )


def total(terms):
    t = terms[0]
    for x in terms[1:]:
        t = t + x
    return t


def solenoid(θ, v, d, γ):
    return [d.B_θ, -v.B_θ * tan(θ), (γ + 3 / 4) * v.B_r]


def continuity(θ, v, d, γ):
    return [v.ρ * d.v_θ, d.ρ * v.v_θ, -v.ρ * v.v_θ * tan(θ),
            2 * γ * v.ρ * v.v_r]


def radial(θ, v, d, γ, a_0, K2):
    """ρ-divided radial momentum; K2 is the squared Keplerian velocity."""
    J_r, J_θ, J_φ = currents(θ, v, d, γ)
    return [
        v.v_θ * d.v_r, -v.v_r ** 2 / 2, -v.v_θ ** 2, -v.v_φ ** 2,
        K2, -(5 / 2 - 2 * γ),
        -a_0 / v.ρ * (J_φ * v.B_θ), a_0 / v.ρ * (J_θ * v.B_φ),
    ]


def azimuthal(θ, v, d, γ, a_0):
    J_r, J_θ, J_φ = currents(θ, v, d, γ)
    return [
        v.v_θ * d.v_φ, v.v_φ * v.v_r / 2, -v.v_φ * v.v_θ * tan(θ),
        a_0 / v.ρ * (J_r * v.B_θ), -a_0 / v.ρ * (J_θ * v.B_r),
    ]


def polar(θ, v, d, γ, a_0):
    """θ momentum: pressure gradient ρ' / ρ with unit sound speed."""
    J_r, J_θ, J_φ = currents(θ, v, d, γ)
    return [
        v.v_θ * d.v_θ, v.v_r * v.v_θ / 2, v.v_φ ** 2 * tan(θ), d.ρ / v.ρ,
        -a_0 / v.ρ * (J_r * v.B_φ), a_0 / v.ρ * (J_φ * v.B_r),
    ]
