bug("C06-slice-from-zero", "C06",
    [("file_format/_dumpers.py", "        start=slice_.start,\n",
      "        start=slice_.start or None,\n")],
    "an interp_slice which starts at 0",
    "the slice read back starts at None: the stored input differs from the "
    "one that was solved",
    INP + '''
import os
import tempfile
from disc_solver.file_format import registries, Run
from h5preserve import open as h5open
i = inp(interp_slice=slice(0, 7))
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.hdf5")
    with h5open(p, registries, mode="x") as f:
        f["run"] = Run(
            config_input=i.to_config_input("x"), config_filename="x",
            disc_solver_version="1", float_type="float64",
            sonic_method="single", time="now", use_E_r=False,
            final_solution=None)
        f["inp"] = i
    with h5open(p, registries, mode="r") as f:
        back = f["inp"]
assert back.interp_slice == slice(0, 7), back.interp_slice
''')
bug("C07-formulation-of-the-final-solution", "C07",
    [("file_format/_loaders.py", """        final_solution.solution_input.use_E_r is None
    ):
        final_solution.solution_input.use_E_r = use_E_r

    return Run(
        config_input=config_input,
        config_filename=group["config_filename"],
        time=group["time"],
        final_solution=final_solution,
        solutions=solutions,
        disc_solver_version=group["disc_solver_version"],
        float_type=group["float_type"],
        sonic_method=group["sonic_method"],
        use_E_r=use_E_r,
    )
""", """        config_input.use_E_r is None
    ):
        final_solution.solution_input.use_E_r = use_E_r

    return Run(
        config_input=config_input,
        config_filename=group["config_filename"],
        time=group["time"],
        final_solution=final_solution,
        solutions=solutions,
        disc_solver_version=group["disc_solver_version"],
        float_type=group["float_type"],
        sonic_method=group["sonic_method"],
        use_E_r=use_E_r,
    )
""")],
    "a run of version 5 whose inputs are of a version without use_E_r",
    "the final solution is read without the formulation it was solved with",
    INP + '''
from types import SimpleNamespace as N
from disc_solver.file_format._utils import ds_registry


class Group(dict):
    attrs = {}


old = inp(use_E_r=None)
group = Group(
    use_E_r=True, config_input=inp(use_E_r=None), config_filename="x",
    time="now", final_solution=N(solution_input=old),
    solutions={"0": N(solution_input=inp(use_E_r=None))},
    disc_solver_version="1", float_type="float64", sonic_method="single")
run = ds_registry.loaders["Run"][5](group)
assert run.solutions["0"].solution_input.use_E_r is True
assert run.final_solution.solution_input.use_E_r is True
''')
bug("C08-latest-of-more-than-ten", "C08",
    [("file_format/_containers.py",
      "        return self[sorted(list(self), key=int)[-1]]",
      "        return self[max(self)]")],
    "a run with more than ten solutions",
    "the tenth solution (number 9) is taken for the latest one",
    '''
from disc_solver.file_format._containers import Solutions
s = Solutions()
for i in range(12):
    s._solutions[str(i)] = i
assert s.get_last_solution() == 11, s.get_last_solution()
''')
bug("C09-problems-of-the-second-part", "C09",
    [("file_format/_containers.py", """        problems.update(other.problems)
""", """        for angle, found in other.problems.items():
            problems.setdefault(angle, found)
""")],
    "both parts having problems at the same angle",
    "the problems of the second part at an angle where the first had some are "
    "lost",
    '''
from disc_solver.file_format import InternalData
a, b = InternalData(), InternalData()
a.problems[.5].append("negative density")
b.problems[.5].append("negative velocity")
b.problems[.25].append("negative velocity")
c = a + b
assert list(c.problems[.25]) == ["negative velocity"]
assert list(c.problems[.5]) == ["negative density", "negative velocity"], \\
    c.problems
''')
bug("C13-single-row-azimuthal-gradient", "C13",
    [("utils.py", """            scaled_soln[ODEIndex.B_φ_prime] = B_scale * soln[
                ODEIndex.B_φ_prime
            ]
""", """            scaled_soln[ODEIndex.B_φ_prime] = v_scale * soln[
                ODEIndex.B_φ_prime
            ]
""")],
    "scaling a single row (e.g. the sonic point) rather than a table",
    "B_φ' is scaled as a speed",
    '''
import numpy as np
from disc_solver.utils import scale_solution_to_radii, ODEIndex as O
row = np.arange(1., 12)
out = scale_solution_to_radii(row, 4., γ=.1, use_E_r=False)
tab = scale_solution_to_radii(np.array([row, row]), np.array([4., 4.]), γ=.1,
                              use_E_r=False)
assert np.allclose(out, tab[0]), (out, tab[0])
''')
bug("C18-runs-out-of-order", "C18",
    [("solve/csvrunner.py", "            for best_input in pool.imap(SolutionFinder(",
      "            for best_input in pool.imap_unordered(SolutionFinder(")],
    "several workers, and an input which takes longer than the next",
    "rows of the output are not in the order of the inputs",
    INP + '''
import os
import tempfile
import time
from types import SimpleNamespace as N
from disc_solver.solve import csvrunner as R


def slow(i, run, **k):
    if i.γ < .0015:
        time.sleep(5)
    run._final_solution = N(solution_input=i)
    return True


R.SONIC_METHOD_MAP["single"] = slow
with tempfile.TemporaryDirectory() as d:
    src, out = os.path.join(d, "in.csv"), os.path.join(d, "out.csv")
    cs = [inp(γ=g).to_config_input("x").asdict() for g in (.001, .002)]
    for c in cs:
        c["mcmc_vars"] = "None"
        c.pop("label")
    import csv
    with open(src, "w") as f:
        w = csv.DictWriter(f, fieldnames=list(cs[0]), dialect="unix")
        w.writeheader()
        w.writerows(cs)
    R.csvrunner(output_file=out, input_file=src, nworkers=2,
                store_internal=False, sonic_method="single", overrides=None)
    rows = [x for x in open(out) if not x.startswith("#")]
    got = [float(r["γ"]) for r in csv.DictReader(rows, dialect="unix")]
assert got == [.001, .002], got
''')
bug("C19-steps-of-the-crossing", "C19",
    [("solve/solution.py", """        angles=angles[angles >= starting_angle],
        ode_initial_conditions=base_solution.values.y[-1], γ=γ, a_0=a_0,
        norm_kepler_sq=norm_kepler_sq, relative_tolerance=relative_tolerance,
        absolute_tolerance=absolute_tolerance, max_steps=max_steps,
""", """        angles=angles[angles >= starting_angle],
        ode_initial_conditions=base_solution.values.y[-1], γ=γ, a_0=a_0,
        norm_kepler_sq=norm_kepler_sq, relative_tolerance=relative_tolerance,
        absolute_tolerance=relative_tolerance, max_steps=max_steps,
""")],
    "crossing the sonic point by interpolation",
    "the crossing is integrated with the relative tolerance as the absolute "
    "one",
    INP + '''
from types import SimpleNamespace as N
from disc_solver.solve import solution as S
seen = []


class Solver:
    def __init__(self, *a, **k):
        seen.append((k["rtol"], k["atol"]))

    def solve(self, angles, y0):
        none = N(t=None, y=None)
        return N(flag=0, message="", errors=none, roots=none, tstop=none,
                 values=N(t=angles, y=np.array([y0] * len(angles))))


S.ode = Solver
ang = np.linspace(0, .1, 30)
y = np.zeros((5, 11))
S.interp_cross_sonic(
    base_solution=N(values=N(t=ang[:5], y=y)), angles=ang,
    system_initial_conditions=np.ones(11), after_sonic=.01, γ=.1, a_0=1.,
    norm_kepler_sq=1000., base_internal_data=N(
        angles=ang[:20], derivs=np.ones((20, 11))),
    relative_tolerance=1e-5, absolute_tolerance=1e-11,
    interp_slice=slice(None))
assert seen == [(1e-5, 1e-11)], seen
''')
bug("C19-jump-with-different-sizes", "C19",
    [("solve/solution.py",
      "    dθ = (jump_before_sonic + jump_after_sonic) / derivs[ODEIndex.v_θ]",
      "    dθ = (1 + jump_after_sonic - initial_values[ODEIndex.v_θ]) / "
      "derivs[ODEIndex.v_θ] * (\n"
      "        jump_before_sonic / max(jump_before_sonic, jump_after_sonic)\n"
      "    ) if jump_before_sonic < jump_after_sonic else (\n"
      "        jump_before_sonic + jump_after_sonic\n"
      "    ) / derivs[ODEIndex.v_θ]")],
    "a jump which is larger after the sonic point than before it",
    "the jump is too short",
    '''
import numpy as np
from types import SimpleNamespace as N
from disc_solver.solve import solution as S
from disc_solver.utils import ODEIndex as O


def system(**k):
    def rhs(x, y, d):
        d[:] = np.arange(1, 12)
        return 0
    return rhs, None


S.ode_system = system
y = np.full((3, 11), .5)
y[-1, O.v_θ] = .9
for after in (.05, .1, .4):
    a, ic = S.jump_across_sonic(
        base_solution=N(values=N(t=np.array([0, .01, .02]), y=y)),
        angles=np.linspace(0, 1, 50), system_initial_conditions=np.ones(11),
        γ=.1, a_0=1., norm_kepler_sq=1000., jump_before_sonic=.1,
        jump_after_sonic=after)
    assert np.isclose(ic[O.v_θ], 1 + after), (after, ic[O.v_θ])
''')
