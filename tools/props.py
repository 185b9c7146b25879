"""The properties: one entry each; tools/gen.py writes the registered files."""
NA = []
PROPS = []


def P(**k):
    PROPS.append(k)


P(id="C01",
  title="Integrated derivatives satisfy the disc equations",
  statement="At every state the right-hand side accepts, the derivatives it "
  "returns satisfy the solenoidal constraint, mass conservation, the radial, "
  "azimuthal and polar momentum equations, the vanishing azimuthal electric "
  "field, the relation between the seventh variable and B_φ' or E_r, and the "
  "chosen diffusivity scaling (constant, or proportional to B²/ρ), whether v_θ' "
  "is free, imposed or taken from the series. A state with negative density "
  "or velocity is refused during integration with a non-zero status and "
  "nothing is recorded for it; otherwise what is recorded is the state, the "
  "angle and exactly the derivatives returned. Evaluating a stored table of "
  "states gives each row the derivatives of that row.",
  over=["inputs"],
  text="all states, angles, parameters and option combinations accepted by "
  "the right-hand side; tables of any length",
  why="The tests evaluate the residuals on one integrated solution; an error "
  "in a term that is small there, or in an option not used there, passes.",
  files=["src/disc_solver/solve/solution.py",
         "src/disc_solver/solve/deriv_funcs.py"],
  mechanism=[("ode_system / rhs_equation", "solve/solution.py"),
             ("derivative formulas", "solve/deriv_funcs.py")],
  observe=["values written to the derivative vector"],
  note="All identities are decided exactly over the reals for every state. "
  "Machine floats are treated as reals.")

P(id="C02",
  title="Electric field stays curl free when B_φ' is integrated",
  statement="When B_φ' is the integrated variable, the second derivative of "
  "B_φ returned at any state is the one for which the radial electric field "
  "obeys dE_r/dθ = (γ - 3/4) E_θ along the solution.",
  over=["inputs"],
  text="all states, derivatives of the other variables and parameters, with "
  "constant and with scaled diffusivities",
  why="The tests compare the closure with its own algebra on one solution.",
  files=["src/disc_solver/solve/deriv_funcs.py",
         "src/disc_solver/solve/solution.py"],
  mechanism=[("second derivative of B_φ", "solve/deriv_funcs.py")],
  observe=["derivative of the seventh variable"],
  note="The unchanged tree breaks it (known findings, identified by the value "
  "of the residual at fixed points); any other failure is reported.")

P(id="C03",
  title="Midplane series satisfies the equations; integration continues from it",
  statement="The first, second and third derivatives used to leave the midplane "
  "have the symmetry of the disc and satisfy the disc equations order by order "
  "at the midplane, for both formulations and both diffusivity laws. The state "
  "after the jump is the series summed at the stop angle, the midplane state is "
  "the recorded first row, and the integration continues from the stop angle "
  "over exactly the later angles of the requested grid.",
  over=["inputs", "configurations"],
  text="all midplane states and parameters, stop angles inside the grid, and "
  "increasing grids of any length",
  why="The tests run a handful of parameter sets and do not look at the "
  "residuals of the series or at the grid.",
  files=["src/disc_solver/solve/deriv_midplane.py",
         "src/disc_solver/solve/solution.py"],
  mechanism=[("series coefficients", "solve/deriv_midplane.py"),
             ("taylor_jump", "solve/solution.py")],
  observe=["series coefficients", "first rows and angles of a solution"],
  note="Identities decided exactly; grid obligations by ground instantiation "
  "and z3 for grids of any length. Some second order coefficients are wrong in "
  "the unchanged tree (known findings).")

P(id="C04",
  title="Initial conditions are a midplane equilibrium of the given parameters",
  statement="The initial conditions built from an input carry its parameters "
  "(accretion speed, Alfvén speed, Keplerian speed, diffusivities, γ) and "
  "solve the midplane equations: vanishing azimuthal electric field, radial "
  "and azimuthal momentum, and Ohm's law for the seventh variable, on the "
  "prograde branch. They are refused with the solver's own error exactly "
  "when no real solution exists, the input is left unchanged, and the "
  "requested angles are equally spaced in radians between the requested ends.",
  over=["inputs"],
  text="all parameter values and both formulations, any number of angles of "
  "at least two",
  why="The tests build conditions for a few parameter sets and check no "
  "equation on them.",
  files=["src/disc_solver/solve/config.py",
         "src/disc_solver/file_format/_containers.py"],
  mechanism=[("define_conditions and the boundary functions",
              "solve/config.py")],
  observe=["initial values and angles"],
  note="All obligations discharged for every real input. Machine floats are "
  "treated as reals.")

P(id="C12",
  title="Wave speeds, Mach numbers and critical points of a solution",
  statement="At every row the squared slow, Alfvén and fast speeds are those "
  "of waves travelling along θ in the field normalised by the midplane Alfvén "
  "speed: v_A = B_θ √(a_0/ρ), and slow ≤ fast are the two roots of "
  "c⁴ - (c_s² + a_0 B²/ρ) c² + c_s² a_0 B_θ²/ρ. A Mach number is |v_θ| over "
  "that speed (v_θ itself for the sonic one); its critical index is the first "
  "row that reaches or passes one, coming from the side of the first row. Its "
  "critical angle is the angle of that crossing, by linear interpolation "
  "between the two rows around it, and is absent if the Mach number never "
  "exceeds one.",
  over=["inputs"],
  text="all tables of any length without NaN, in any order (no monotonicity "
  "assumed)",
  why="The tests only check that the commands that use them run.",
  files=["src/disc_solver/critical_points.py", "src/disc_solver/utils.py"],
  mechanism=[("mhd_wave_speeds, get_mach_numbers, get_all_sonic_points",
              "critical_points.py"),
             ("first_closest_index, interp_for_value", "utils.py")],
  observe=["speeds, Mach numbers, indices and angles returned"],
  note="Proved for tables of any length. scipy's interp1d is replaced by its "
  "contract (linear interpolation in sorted order).")

P(id="C05",
  title="Settings reach the solver as given",
  statement="A setting has the value of its last override, else the text in "
  "the configuration file, else the documented default; a blank optional "
  "setting means none. Override names that are not settings are refused. "
  "Overriding changes only the named settings, and never the input it starts "
  "from. The solver input holds exactly the number, flag, word, slice or "
  "variable list each text denotes, the texts made from a solver input read "
  "back as that input (also through a written file), and resolving a stored "
  "solution uses its own input with only the overridden settings changed.",
  over=["inputs", "configurations"],
  text="every setting, present or missing or blank, any texts, any overrides",
  why="The tests read two files; no test writes settings and reads them back "
  "or overrides each setting.",
  files=["src/disc_solver/solve/config.py", "src/disc_solver/solve/utils.py",
         "src/disc_solver/file_format/_containers.py",
         "src/disc_solver/utils.py", "src/disc_solver/solve/resolve.py"],
  mechanism=[("get_input_from_conffile", "solve/config.py"),
             ("add_overrides, add_overridding_options, ConfigInput/"
              "SolutionInput conversions", "solve/utils.py, "
              "file_format/_containers.py"),
             ("slice_to_str, str_to_slice, MCMCVars text", "utils.py"),
             ("resolve", "solve/resolve.py")],
  observe=["ConfigInput and SolutionInput fields", "configuration files"],
  note="Texts are opaque: what float(), int() and configparser do with a text "
  "is assumed and sampled. Lists of overrides from the command line up to "
  "three entries.")

P(id="C10",
  title="The search steps γ towards the sonic point and keeps every trial",
  statement="The search solves one trial at a time from the initial input until "
  "a trial is accepted, the attempts run out, or it stops. Between trials only "
  "γ changes: down after a diverging trial, up after one that turns back. The "
  "step is a tenth of γ until the type first changes; from that trial on it is "
  "halved at each trial. If the type does not change within the allowed number "
  "of steps the search gives up; if γ can no longer change in machine "
  "precision it stops. Every trial is stored, in order, with the input it was "
  "solved from. The final solution is the accepted trial, or the last trial "
  "when the search stops; otherwise there is none and failure is reported.",
  over=["inputs", "histories"],
  text="any sequence of trial outcomes, any initial γ and steps, any number of "
  "trials (by induction over the stepper's state)",
  why="The tests run whole searches on fixed inputs and look only at success.",
  files=["src/disc_solver/solve/stepper.py",
         "src/disc_solver/file_format/_containers.py"],
  mechanism=[("binary_searcher, stepper_creator, create_soln_splitter, "
              "writer_generator, solver", "solve/stepper.py")],
  observe=["Run.solutions, Run.final_solution, inputs of the trials"],
  note="Induction over the closure state of the stepper, and over one "
  "iteration of the loop from an arbitrary one. The stop at machine precision "
  "is bounded (sampled), as is the end to end composition (up to four trials, "
  "symbolic).")

P(id="C11",
  title="Which trials are accepted, and the type of the others",
  statement="A trial is accepted exactly when the integration finished "
  "successfully, v_θ is never negative and never falls, ρ is never negative, "
  "some row has v_θ in (0.9, 1), and v_θ does not steepen over those rows. "
  "Otherwise it turns back if a negative velocity was recorded; else the "
  "recorded slope decides; else it diverges exactly when it comes close to the "
  "sonic speed and passes it or rises all the way there. The trial's solution "
  "is handed back unchanged.",
  over=["inputs"],
  text="all tables of any length, flags and recorded problems",
  why="The tests run whole searches, never the decision on its own.",
  files=["src/disc_solver/solve/stepper.py", "src/disc_solver/solve/utils.py",
         "src/disc_solver/utils.py"],
  mechanism=[("is_solution_best, v_θ_deriv_splitter", "solve/stepper.py"),
             ("validate_solution", "solve/utils.py"),
             ("is_monotonically_increasing", "utils.py")],
  observe=["decision and type returned"],
  note="Tables of any length. The decision from the recorded slope is bounded "
  "(two histories), and wrong in the unchanged tree (known findings).")

P(id="C17",
  title="The Monte Carlo search tries valid inputs and keeps the best",
  statement="The search varies exactly the variables asked for (γ and the "
  "chosen speeds); turning an input into a position and back changes nothing, "
  "and every other setting keeps its value. Only inputs whose varied settings "
  "are all positive are tried; impossible ones, and ones the solver refuses, "
  "have log probability -∞ and store nothing. Every trial of finite "
  "probability is stored; the log probability is -10 exp(-v) less the summed "
  "squared changes between squared velocity steps, for v the largest v_θ: it "
  "rises with v. Walkers start with 10% normal scatter around the input. "
  "The final solution is the stored trial of the highest log probability.",
  over=["inputs", "histories"],
  text="any positions and any outcome of each trial",
  why="The tests run one short chain.",
  files=["src/disc_solver/solve/mcmc.py"],
  mechanism=[("LogProbGenerator, sys_vars_to_solution_input, "
              "generate_initial_positions, solver", "solve/mcmc.py")],
  observe=["log probability, Run.solutions, Run.final_solution"],
  note="One evaluation from an arbitrary state of the generator is proved; "
  "sequences, table lengths and numbers of walkers are bounded where stated.")

P(id="C06",
  title="Run files read back what was written",
  statement="Everything a run records is equal after the file is written and "
  "read again: the texts of the configuration, every setting of an input "
  "(absent ones stay absent, slices and lists of variables stay what they "
  "were), the tables, roots, sonic points and flags of a solution, the initial "
  "conditions, what was recorded while solving, and problems at each angle. "
  "This holds for every combination of absent optional parts, whether the "
  "solutions were there when the run was created or were added later, whether "
  "or not reading is cached, and for a run that ended without a final "
  "solution.",
  over=["inputs", "configurations", "histories"],
  text="all values and all combinations of present and absent parts",
  why="The tests read a few stored files; they write no run with parts absent "
  "and never compare what was written.",
  files=["src/disc_solver/file_format/_containers.py",
         "src/disc_solver/file_format/_dumpers.py",
         "src/disc_solver/file_format/_loaders.py",
         "src/disc_solver/file_format/_utils.py"],
  mechanism=[("dumpers and loaders of the current versions",
              "file_format/_dumpers.py, _loaders.py")],
  observe=["objects returned by h5open after writing"],
  note="The HDF5 library is replaced by a model (dv/h5model.py) in symbolic "
  "runs; the concrete runs of every check use real files. A run is bounded to "
  "two solutions.")

P(id="C07",
  title="Files of older versions are read with the values they hold",
  statement="Every stored version of every container can be read. Each setting "
  "it holds is read as stored; γ is 5/4 - β where the version stored β; what "
  "the version did not have is absent or has its documented default; the "
  "formulation of a run whose version recorded it elsewhere reaches the inputs "
  "of all its solutions, cached or not; and what is read can be used as the "
  "current version (internal data can be finalised, inputs converted).",
  over=["inputs", "configurations"],
  text="all versions of all containers, all values, all combinations of absent "
  "parts",
  why="The tests hold files of a few versions, without the optional parts.",
  files=["src/disc_solver/file_format/_loaders.py",
         "src/disc_solver/file_format/_containers.py"],
  mechanism=[("loaders of all versions", "file_format/_loaders.py")],
  observe=["objects returned by the loaders"],
  note="Texts of β are sampled (decimals and fractions), all else symbolic.")

P(id="C08",
  title="A run keeps its solutions, description and final solution",
  statement="Solutions are numbered from 0 in the order they are added and "
  "never replaced; the last one added is the one returned as latest. The final "
  "solution can be set once; finalising picks the last solution only when none "
  "was set. A run made for shocks has the description of its origin, no "
  "solutions, and records where it came from, leaving the origin as it was. "
  "Problems are kept in order per angle and can be removed. Initial conditions "
  "refuse diffusivities which disagree with their state. Modified conditions "
  "change only what was given. Dropping the sonic point and series settings "
  "from an input drops exactly those.",
  over=["inputs", "histories"],
  text="any values; histories of the stated length",
  why="No test adds more than a handful of solutions or builds these "
  "containers directly.",
  files=["src/disc_solver/file_format/_containers.py"],
  mechanism=[("Run, Problems, InitialConditions, SolutionInput",
              "file_format/_containers.py")],
  observe=["Run.solutions, Run.final_solution, copies"],
  note="Histories are bounded where stated (0 to 100 earlier solutions, four "
  "operations on the final solution, three on problems).")

P(id="C09",
  title="What was recorded stays aligned when parts are joined or reversed",
  statement="Joining two records gives every series of the first followed by "
  "the same series of the second: angle, state, derivatives, both variants of "
  "each derivative, and the jacobians with theirs, with the problems of both "
  "at each angle; neither part changes. Reversing gives every series "
  "backwards, and twice gives it back. Empty records have the right number of "
  "columns.",
  over=["inputs"],
  text="records of any length, as lists while recording or as tables",
  why="The tests join nothing; solving with both parts empty or of different "
  "kinds never happens in them.",
  files=["src/disc_solver/file_format/_containers.py"],
  mechanism=[("InternalData, JacobianData", "file_format/_containers.py")],
  observe=["series of the joined or reversed record"],
  note="Tables of symbolic length. A jacobian is one opaque element.")

P(id="C13",
  title="Normalisation, and solutions at other radii and in other coordinates",
  statement="Physical units: speeds in the sound speed, fields in the Alfvén "
  "field of the midplane, B = v_a √(4πρ), densities in the midplane density, "
  "diffusivities in radius times sound speed. Moving a solution to radius r "
  "scales speeds by r^-1/2, fields by r^(γ - 5/4), density by r^(2γ - 3/2) and "
  "diffusivities by r^1/2, row by row, and leaves the given one alone. At a "
  "fixed cylindrical radius the height is tan θ radii, in scale heights, and "
  "the radius 1/cos θ. Cylindrical components are the rotation of the "
  "spherical ones by θ, in the right columns. Solutions with E_r are refused.",
  over=["inputs"],
  text="all solutions of any number of rows, all radii, angles and parameters",
  why="The tests check shapes, or one row.",
  files=["src/disc_solver/utils.py", "src/disc_solver/constants.py",
         "src/disc_solver/analyse/utils.py"],
  mechanism=[("get_normalisation, scale_solution_to_radii, "
              "convert_solution_to_vertical, "
              "convert_spherical_to_cylindrical", "utils.py")],
  observe=["returned tables and factors"],
  note="Exact over the reals; tables of symbolic length.")

P(id="C18",
  title="Batches: every input is read as written, solved once and recorded",
  statement="Each line of a csv file becomes one input with the values as "
  "written, with or without a header line, with columns reordered or missing "
  "(those take the default) and comments skipped; the label is set. Rows "
  "written by the batch and dump commands read back as the same solver input. "
  "Each input is solved once, in order, by the chosen method with the "
  "overrides applied; its run records configuration, method, version and "
  "source. Inputs that fail are skipped without stopping the batch, and an "
  "unknown method is refused. The hdf5 batch writes one file per input.",
  over=["inputs", "configurations", "histories"],
  text="all settings and texts, every method and outcome; batches of two inputs",
  why="The tests run one batch with one kind of file.",
  files=["src/disc_solver/solve/utils.py", "src/disc_solver/solve/csvrunner.py",
         "src/disc_solver/solve/hdf5runner.py",
         "src/disc_solver/analyse/dump_csv.py",
         "src/disc_solver/analyse/info.py"],
  mechanism=[("CSVReaderHelper, get_csv_inputs, SolutionFinder, csvrunner, "
              "hdf5runner", "solve/utils.py, solve/csvrunner.py, "
              "solve/hdf5runner.py")],
  observe=["inputs passed to the solver; rows and runs written"],
  note="Texts are opaque tokens. The commands are bounded to two inputs and "
  "worker processes are replaced by a sequential map.")

P(id="C19",
  title="A flow is put together from its integrated parts in order",
  statement="Leaving the midplane, the main integration, the crossing of the "
  "sonic point and what follows are integrated as the same problem with the "
  "same tolerances, each from where and with what values the part before "
  "ended, over the later angles of the grid. A jump moves all values along "
  "their derivatives until v_θ has grown by the sizes before and after; an "
  "interpolated crossing follows the recorded acceleration of the chosen "
  "records; stops lie at v_θ = 1 ∓ size. The solution holds the angles and "
  "rows of all parts in order, what was recorded in all of them, and how the "
  "main part ended. Contradictory ways to stop, too few angles, and a series "
  "that does not reach its end are refused.",
  over=["inputs", "configurations", "histories"],
  text="all grids, states, parameters and options, and every outcome of the "
  "integrator",
  why="The tests integrate a few inputs, mostly without a crossing, and "
  "compare with stored output of the same code.",
  files=["src/disc_solver/solve/solution.py", "src/disc_solver/solve/utils.py"],
  mechanism=[("solution, main_solution, taylor_solution, interp_cross_sonic, "
              "jump_across_sonic", "solve/solution.py"),
             ("velocity_stop_generator", "solve/utils.py")],
  observe=["calls of the integrator; Solution.angles, solution, "
           "internal_data, flag, roots"],
  note="The integrator is an arbitrary one (assumed contract of CVODE). Grids "
  "and tables have symbolic length.")

P(id="C16",
  title="The commands solve what was asked and record how",
  statement="Solving a configuration, or again a stored solution, calls the "
  "chosen method once with the input that the configuration (or the stored "
  "solution, chosen by its number, as latest or as final) and the overrides "
  "give, and with the asked options; the result is a new file at the asked "
  "place, holding the configuration, source, method, version, formulation, "
  "all solutions and the final one (the last, unless the method chose). It "
  "never writes over an existing file, refuses an unknown method or solution, "
  "and keeps what was solved when the method fails. The exit status tells "
  "whether it succeeded. What is told of a run is what the run holds, and the "
  "configuration written for a solution solves that solution's input.",
  over=["inputs", "configurations", "histories"],
  text="all settings and overrides, all outcomes of the method, existing and "
  "missing files, and all ways to choose a solution",
  why="The tests run each method on a few inputs and look at the final "
  "solution only; existing files, failures and the choice of solutions are "
  "not tested.",
  files=["src/disc_solver/solve/__init__.py",
         "src/disc_solver/solve/resolve.py", "src/disc_solver/solve/single.py",
         "src/disc_solver/utils.py", "src/disc_solver/analyse/info.py",
         "src/disc_solver/analyse/dump_config.py"],
  mechanism=[("solve, main", "solve/__init__.py"),
             ("resolve, main", "solve/resolve.py"),
             ("get_solutions, open_or_stream, nicer_mp_pool", "utils.py"),
             ("info", "analyse/info.py"), ("dump_cfg", "dump_config.py")],
  observe=["call of the method; content of the file written; exit status; "
           "text printed"],
  note="The method is an arbitrary one; files are the HDF5 model (real files "
  "in the concrete runs). Command lines are given examples.")

P(id="C15",
  title="Shocks conserve mass and momentum and continue the flow",
  statement="Across a shock the mass flux ρ v_θ and the momentum flux "
  "ρ (v_θ² + 1) stay the same while v_θ passes to the other side of the sound "
  "speed (v_θ v_θ' = 1); every other value is carried over, and the flow "
  "behind starts from that state over exactly the angles of the grid from the "
  "shock on, without the midplane series and the sonic point. Shocks are "
  "tried once at exactly the rows whose v_θ lies strictly between the limits, "
  "above the smallest angle and after the largest v_θ (unless told "
  "otherwise). Each flow of at least five rows is stored as the only and "
  "final solution of its own new file, marked as behind a shock of its "
  "origin; a failure at one place does not stop the others, and neither the "
  "origin nor the state in front is changed.",
  over=["inputs", "configurations"],
  text="all states, limits and tables of any length",
  why="There is no test of the shock command at all.",
  files=["src/disc_solver/solve/shock.py"],
  mechanism=[("get_shock_modified_initial_conditions, "
              "find_shock_test_values, ShockFinder, compute_shock",
              "solve/shock.py")],
  observe=["modified initial conditions; chosen rows; files written"],
  note="The integration behind the shock is C19. The solver and the plot are "
  "arbitrary; up to three places per flow.")

P(id="C22",
  title="Validation and statistics describe the solution they are given",
  statement="The residuals shown for a solution are those of the equations "
  "of the flow (continuity, solenoid, the three momentum equations and the "
  "azimuthal induction equation, which vanish exactly when the recorded values "
  "and derivatives satisfy them), and the currents and electric fields (at "
  "rest and moving with the flow) are those of the recorded values; without "
  "records, derivatives are the second-order differences of the solution on "
  "its uneven grid. The statistics give, for each equation, the largest size "
  "of its residual of either sign; the largest Mach numbers and the fastest "
  "vertical flow with where they occur; the critical points under their "
  "names; the last angle; whether v_θ never falls up to the asked angle and "
  "ends below the cutoff. The table has one header and one row, under the "
  "right names, for each solution (and the final one) of every readable file, "
  "in order; what cannot be read or measured is left out without losing the "
  "rest or what the table held before.",
  over=["inputs", "configurations"],
  text="all tables of values and derivatives of every length on every rising "
  "grid, all parameters, and all limits",
  why="The tests only run the commands on one file; a wrong sign in a residual "
  "or a wrong row gives a plausible number.",
  files=["src/disc_solver/analyse/validate_plot.py",
         "src/disc_solver/analyse/stats.py",
         "src/disc_solver/analyse/j_e_plot.py",
         "src/disc_solver/solve/j_e_funcs.py"],
  mechanism=[("validate_*, get_values, get_E_values", "validate_plot.py"),
             ("J_func, E_func", "j_e_plot.py"),
             ("get_max_mach_numbers, is_v_θ_monotonic, singluar_stats, "
              "compute_*, write_stats, get_all_solutions", "stats.py")],
  observe=["values returned for a solution; rows of the CSV file"],
  note="Against the equations as stated in contracts/common.py, the same as "
  "for the right-hand side (C01). Not claimed: the normalisation of Σ and of "
  "the outflow rate, and B_φ/B_p, which the code calls B_p/B_t.")
