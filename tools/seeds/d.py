bug("C15-largest-velocity-of-a-part", "C15",
    [("solve/shock.py",
      "        max_v_θ_index = nanargmax(v_θ)\n",
      "        max_v_θ_index = nanargmax(v_θ[angles > min_angle_rad])\n")],
    "a flow whose v_θ peaks above the smallest angle of a shock, later than "
    "the rows skipped",
    "rows before the peak are tried as shocks: the index found in the part "
    "above the smallest angle is used for the whole grid",
    '''
import numpy as np
from types import SimpleNamespace as N
from disc_solver.solve.shock import find_shock_test_values
from disc_solver.utils import ODEIndex as O

angles = np.radians(np.arange(0, 90, 5.))
v = np.array([.1, .2, .5, .8, 1.1, 1.3, 1.5, 2, 2.5, 3, 3.5, 4, 5, 4.5, 4, 3,
              2, 1.5])
y = np.zeros((len(v), 11))
y[:, O.v_θ] = v
a, rows = find_shock_test_values(N(angles=angles, solution=y))
assert np.allclose(np.degrees(a), [65, 70, 75, 80, 85]), np.degrees(a)
assert np.allclose(rows[:, O.v_θ], [4.5, 4, 3, 2, 1.5])
''')

bug("C16-formulation-before-the-overrides", "C16",
    [("solve/resolve.py", "        use_E_r=new_soln_input.use_E_r,",
      "        use_E_r=old_solution.solution_input.use_E_r,")],
    "solving again with an override of the formulation",
    "the run claims the formulation of the run it is based on",
    INP + '''
import tempfile
from pathlib import Path
from types import SimpleNamespace as N
from h5preserve import open as h5open
from disc_solver.file_format import Run, Solution, registries
from disc_solver.file_format import InitialConditions
from disc_solver.solve import resolve as R

i = inp(use_taylor_jump=False, jump_before_sonic=.1)
seen = []


def method(soln_input, run, **k):
    seen.append(soln_input.use_E_r)
    return False


def solution():
    return Solution(
        solution_input=i, angles=np.arange(3.), solution=np.ones((3, 11)),
        flag=0, coordinate_system="spherical polar", internal_data=None,
        initial_conditions=InitialConditions(
            norm_kepler_sq=1., a_0=1., γ=.1, init_con=np.ones(11),
            angles=np.arange(3.), η_O=1., η_A=1., η_H=1.),
        t_roots=None, y_roots=None, sonic_point=None,
        sonic_point_values=None, is_post_shock_only=False)


R.SONIC_METHOD_MAP["test"] = method
with tempfile.TemporaryDirectory() as d:
    d = Path(d)
    run = Run(config_input=i.to_config_input("x"), config_filename="x",
              disc_solver_version="1", float_type="f", sonic_method="m",
              use_E_r=False)
    with h5open(d / "old", registries, mode="x") as f:
        f["run"] = run
        run.solutions.add_solution(solution())
        run.finalise()
    try:
        R.resolve(output_file="new", sonic_method="test",
                  soln_filename=d / "old", soln_range="0", output_dir=d,
                  store_internal=False, overrides={"use_E_r": "True"})
    except IndexError:
        pass            # nothing was solved
    with h5open(d / "new", registries, mode="r") as f:
        assert seen == [True]
        assert bool(f["run"].use_E_r) is True
''')

bug("C16-configuration-appended", "C16",
    [("analyse/dump_config.py", "open_or_stream(output_file, mode='w')",
      "open_or_stream(output_file, mode='a')")],
    "writing the configuration of a solution to a file that exists",
    "the file holds two configurations and cannot be read",
    INP + '''
import tempfile
from pathlib import Path
from types import SimpleNamespace as N
from disc_solver.analyse.dump_config import dump_cfg
from disc_solver.solve.config import get_input_from_conffile

i = inp(use_taylor_jump=False, jump_before_sonic=.1)
j = inp(use_taylor_jump=False, jump_before_sonic=.1, stop=7)
run = N(solutions={"0": N(solution_input=i), "1": N(solution_input=j)},
        final_solution=None, config_input=N(label="x"))
with tempfile.TemporaryDirectory() as d:
    p = Path(d) / "c"
    for k, s in (("0", 5), ("1", 7)):
        dump_cfg.__wrapped__(run, soln_range=k, output_file=str(p))
        c = get_input_from_conffile(config_file=p)
        assert c.to_soln_input().stop == s
''')

bug("C22-differences-of-an-even-grid", "C22",
    [("analyse/validate_plot.py",
      "            gradient(solution.solution[:, i], solution.angles)",
      "            gradient(\n"
      "                solution.solution[:, i],\n"
      "                solution.angles[1] - solution.angles[0],\n"
      "            )")],
    "a solution without internal data on an uneven grid (a sonic point or a "
    "series at the midplane)",
    "derivatives are wrong away from the first step",
    '''
import numpy as np
from types import SimpleNamespace as N
from disc_solver.analyse.validate_plot import get_values

for a in (np.linspace(0, 1, 6), np.array([0, .1, .3, .35, .8, 1])):
    y = np.array([k + (k + 1) * a + k * a ** 2 for k in range(11)]).T
    x = get_values(N(
        internal_data=None, solution=y, angles=a,
        initial_conditions=N(a_0=1., γ=.1, norm_kepler_sq=1.)))
    assert np.allclose(x.deriv.B_r[1:-1], (1 + 0 * a)[1:-1])
    assert np.allclose(x.deriv.ρ[1:-1], (7 + 12 * a)[1:-1])
''')

bug("C22-largest-size-of-the-mach-number", "C22",
    [("analyse/stats.py", "            idx = nanargmax(mach)\n",
      "            idx = nanargmax(mach ** 2)\n")],
    "a flow whose v_θ is more negative somewhere than it is positive anywhere",
    "the angle given is not that of the largest Mach number",
    '''
import numpy as np
from types import SimpleNamespace as N
from disc_solver.analyse.stats import get_max_mach_numbers
from disc_solver.utils import ODEIndex as O

a = np.radians([0., 10, 20, 30])
y = np.ones((4, 11))
for v in ([0, .5, 1.2, 1.1], [0, -.8, .5, .2]):
    y[:, O.v_θ] = v
    r = get_max_mach_numbers(N(
        solution=y, angles=a, initial_conditions=N(a_0=1.)))
    assert np.isclose(r["max_sonic_mach"], max(v))
    assert np.isclose(r["max_sonic_mach_angle_degrees"],
                      10 * int(np.argmax(v))), r
''')

bug("C22-stops-at-an-unreadable-file", "C22",
    [("analyse/stats.py",
      "                except KeyError:\n                    log.notice(",
      "                except KeyError:\n                    files = []\n"
      "                    log.notice("),
     ("analyse/stats.py",
      "    for file in files:\n        with log.catch_exceptions(",
      "    files = list(files)\n    while files:\n"
      "        file = files.pop(0)\n        with log.catch_exceptions(")],
    "a file without a run in front of others",
    "the solutions of the later files are missing from the table",
    INP + '''
import tempfile
from pathlib import Path
from h5preserve import open as h5open
from disc_solver.analyse.stats import get_all_solutions
from disc_solver.file_format import Run, registries

with tempfile.TemporaryDirectory() as d:
    names = [Path(d) / k for k in "abc"]
    for p in names:
        with h5open(p, registries, mode="x") as f:
            if p.name == "b":
                f["other"] = 1
                continue
            r = Run(config_input=inp().to_config_input("x"),
                    config_filename="x",
                    disc_solver_version="1", float_type="f",
                    sonic_method="m", use_E_r=False)
            r.final_solution = None
            f["run"] = r
    got = [(f.name, n) for f, n, _ in get_all_solutions(names)]
    assert got == [("a", "final"), ("c", "final")], got
''')

bug("C22-limit-of-the-rise", "C22",
    [("analyse/stats.py",
      "    to_check_slice = degrees(solution.angles) <= upto_degrees",
      "    to_check_slice = slice(\n        0, (degrees(solution.angles) > "
      "upto_degrees).argmax() or None\n    )")],
    "a flow which starts above the limit",
    "the whole of such a flow is looked at instead of none of it",
    '''
import numpy as np
from types import SimpleNamespace as N
from disc_solver.analyse.stats import is_v_θ_monotonic
from disc_solver.utils import ODEIndex as O


def ask(a, v, **k):
    y = np.ones((len(a), 11))
    y[:, O.v_θ] = v
    return bool(is_v_θ_monotonic(N(angles=np.radians(a), solution=y), **k))


assert ask([0., 10, 19, 30], [0, 1, 2, 1])
assert not ask([0., 10, 19, 30], [0, 1, .5, 1])
assert ask([0., 10, 19], [0, 1, 1.5])
assert ask([30., 40, 50], [2, 1, 0], upto_degrees=20)
''')
