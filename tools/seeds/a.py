RHS = '''
import numpy as np
from disc_solver.solve.solution import ode_system
from disc_solver.utils import ODEIndex as O
from disc_solver.solve.config import define_conditions
from disc_solver.file_format import SolutionInput


def inp(**kw):
    v = dict(start=0, stop=5, taylor_stop_angle=.001, max_steps=1000,
             num_angles=11, relative_tolerance=1e-6, absolute_tolerance=1e-10,
             γ=.001, nwalkers=8, iterations=3, threads=1, target_velocity=.9,
             split_method="v_θ_deriv", v_rin_on_c_s=1., v_a_on_c_s=1.,
             c_s_on_v_k=.03, η_O=.001, η_H=.0001, η_A=.0005, η_derivs=True,
             use_E_r=False, use_taylor_jump=True, jump_before_sonic=None,
             v_θ_sonic_crit=None, after_sonic=None, interp_slice=None,
             sonic_interp_size=None)
    v.update(kw)
    return SolutionInput(**v)

'''
bug("C01-refusal-without-internal-data", "C01",
    [("solve/solution.py", '''                problems[θ].append("negative velocity")
            return -1
''', '''                problems[θ].append("negative velocity")
                return -1
''')],
    "internal data not stored, and a trial state with negative v_θ",
    "a state with negative velocity is no longer refused when nothing is "
    "recorded, so the integrator accepts steps through v_θ < 0",
    RHS + '''
i = inp()
c = define_conditions(i)
for store in (True, False):
    rhs, data = ode_system(γ=c.γ, a_0=c.a_0, norm_kepler_sq=c.norm_kepler_sq,
                           init_con=c.init_con, store_internal=store)
    x = np.array(c.init_con)
    x[O.v_θ] = -.1
    assert rhs(.01, x, np.zeros(len(O))) != 0, store
''')

bug("C04-grid-ignores-start", "C04",
    [("solve/config.py", "np.linspace(inp.start, inp.stop, inp.num_angles)",
      "np.linspace(0, inp.stop, inp.num_angles)")],
    "a start angle other than zero",
    "the angle grid starts at the midplane whatever start is",
    RHS + '''
c = define_conditions(inp(start=1., stop=4., num_angles=7))
assert np.allclose(np.degrees(c.angles), [1, 1.5, 2, 2.5, 3, 3.5, 4])
''')

bug("C12-field-strength-without-toroidal", "C12",
    [("critical_points.py", "    B_sq = B_r ** 2 + B_φ ** 2 + B_θ ** 2\n",
      "    B_sq = B_r ** 2 + B_θ ** 2\n")],
    "a row with a toroidal field comparable to the poloidal one",
    "fast and slow speeds miss the toroidal magnetic pressure",
    '''
import numpy as np
from disc_solver.critical_points import mhd_wave_speeds
from disc_solver.utils import ODEIndex as O
x = np.zeros((1, 11))
x[:, O.B_θ], x[:, O.B_φ], x[:, O.ρ] = 1, 2, .5
s, a, f = mhd_wave_speeds(values=x, a_0=1)
assert np.allclose(s + f, 1 + 5 / .5), (s, f)
assert np.allclose(s * f, 1 / .5), (s, f)
''')

bug("C12-crossing-from-above-exact", "C12",
    [("utils.py", "        mask = a <= val\n", "        mask = a < val\n")],
    "a quantity that comes down and hits the value exactly at a row",
    "the critical row is one too late when the value is met exactly from "
    "above (and missed when it is the last row)",
    '''
import numpy as np
from disc_solver.utils import first_closest_index, interp_for_value
a = np.array([3., 2., 1., .5])
assert first_closest_index(a, 1.) == 2
assert first_closest_index(a[:3], 1.) == 2
assert interp_for_value(xs=np.array([0., 1., 2.]), ys=a[:3], y=1.) == 2
''')
