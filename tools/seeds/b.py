INP = '''
import numpy as np
from disc_solver.file_format import SolutionInput


def inp(**kw):
    v = dict(start=0, stop=5, taylor_stop_angle=.001, max_steps=1000,
             num_angles=11, relative_tolerance=1e-6, absolute_tolerance=1e-10,
             γ=.001, nwalkers=8, iterations=3, threads=1, target_velocity=.9,
             split_method="v_θ_deriv", v_rin_on_c_s=1., v_a_on_c_s=1.,
             c_s_on_v_k=.03, η_O=.001, η_H=.0001, η_A=.0005, η_derivs=True,
             use_E_r=False, use_taylor_jump=True, jump_before_sonic=None,
             v_θ_sonic_crit=None, after_sonic=None, interp_slice=None,
             sonic_interp_size=None)
    v.update(kw)
    return SolutionInput(**v)

'''
bug("C10-halve-only-on-a-turn", "C10",
    [("solve/stepper.py", '''        step_size /= 2
        return step_func(soln, soln_type, step_size)

    return stepper''', '''        if prev_soln_type != soln_type:
            step_size /= 2
        return step_func(soln, soln_type, step_size)

    return stepper''')],
    "a search whose trials, after the first change of type, are of the first "
    "type again",
    "the step is not halved at a trial of the same type as the first trial, so "
    "the search does not converge",
    '''
from disc_solver.solve.stepper import stepper_creator, SplitterStatus as S
sizes = []
kinds = iter([S.DIVERGE, S.SIGN_FLIP, S.DIVERGE, S.DIVERGE])
f = stepper_creator(lambda *a: None, lambda s, k, size: sizes.append(size),
                    lambda s: next(kinds), initial_step_size=1.)
for i in range(4):
    f(None, i)
assert sizes == [1, .5, .25, .125], sizes
''')
bug("C11-steepening-across-the-cut", "C11",
    [("solve/stepper.py", "    if np_any(diff(v_θ[v_θ_near_sonic], n=2) > 0):",
      "    if np_any(diff(v_θ, n=2)[v_θ_near_sonic[2:]] > 0):")],
    "a flow which steepens when entering the range (0.9, 1) and not inside it",
    "rows below 0.9 take part in the test for steepening, so good flows are "
    "refused",
    '''
import numpy as np
from types import SimpleNamespace as N
from scikits.odes.sundials.cvode import StatusEnum
from disc_solver.solve.stepper import is_solution_best
t = np.ones((6, 11))
t[:, 5] = [0, .01, .91, .93, .94, .945]
for c in range(11):
    if c != 5:
        assert True
from disc_solver.utils import ODEIndex as O
u = np.ones((6, 11))
u[:, O.v_θ] = [0, .01, .88, .93, .97, 1]
u[:, O.v_θ] = [0, .01, .02, .91, .95, .98]
assert is_solution_best(N(solution=u, flag=StatusEnum.SUCCESS))[1]
''')
bug("C17-validity-of-the-original-input", "C17",
    [("solve/mcmc.py", "        if not solution_input_valid(new_soln_input):",
      "        if not solution_input_valid(self._soln_input):")],
    "a walker that proposes a negative value",
    "positions with negative settings are solved instead of refused",
    INP + '''
from disc_solver.solve import mcmc as M
tried = []


def solve(i, cons, **k):
    tried.append(i)
    raise M.SolverError("no")


M.solution = solve
i = inp()
enum = M.generate_sysvars_enum(i)
f = M.LogProbGenerator(i, None, store_internal=False, sys_vars_enum=enum)
p = np.array([getattr(i, v.name) for v in sorted(enum)])
p[enum["γ"]] = -.1
assert f(p) == -float("inf") and not tried
''')
bug("C05-stored-input-ignored-without-overrides", "C05",
    [("solve/config.py", """    if solution_input == initial_soln_input:
        return new_config_input, new_soln_input
""", """    if not overrides or solution_input == initial_soln_input:
        return new_config_input, new_soln_input
""")],
    "resolving, without overrides, a solution whose input differs from the "
    "configuration of its run (every trial of a search but the first)",
    "the solution is solved with the settings of the configuration instead "
    "of its own",
    INP + '''
from disc_solver.solve.config import new_inputs_with_overrides
i = inp()
c = i.to_config_input("x")
s = inp(γ=.002)
_, out = new_inputs_with_overrides(c, s, None)
assert out.γ == .002, out
''')
