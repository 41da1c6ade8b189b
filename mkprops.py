#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mkprops.py)."""
import json, os
P = []


def add(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


add("C01", "Sweep results do not depend on how the sweeps are scheduled",
    "For the same voxel structure, problem and numerical options, the solution returned for every sweep (terminal quantities, losses, energies, fields, residuum, convergence records and status flags) is the same, up to floating-point rounding, whether the sweeps run serially or on any number of parallel worker processes. "
    "It does not depend on the order in which the workers start and finish the sweeps, on how sweeps are batched, on whether a worker process is new or was used before, on arrays reaching the workers read-only, nor on the order in which the sweeps are declared. "
    "The solution contains exactly the declared sweeps.",
    ["schedules", "configurations", "inputs"],
    "All problems, dependency trees, numbers of workers (serial, 1..n, one per core), task start/completion orders, batch sizes, worker reuse/replacement, shared-memory thresholds.",
    "The tests solve only with the serial loop (n_jobs=0) and look at a few integral values; no test runs a parallel pool, let alone a chosen interleaving.",
    ["pypeec/lib_solver/sweep_joblib.py", "pypeec/run/solver.py", "pypeec/lib_matrix/matrix_factorization.py", "pypeec/lib_matrix/fourier_transform.py", "pypeec/lib_matrix/multiply_fft.py"],
    [("parallel loop over independent sweeps", "sweep_joblib._get_parallel_loop"), ("options re-applied in every worker", "solver._run_solver_options / _run_solver_sweep"), ("closures shipped to workers", "solver.run fct_compute")],
    ["data_sweep of run_solver_data"],
    [("LIBRARY / IMPORTLIB / options", "process-global numerical options", "lib_matrix/*.set_options")])

add("C02", "Sweeps run exactly once, after and from the sweep they start from",
    "Every declared sweep is computed exactly once per solver call, and a sweep that names another sweep as its initial value starts only after that sweep has finished and starts from exactly that sweep's own final solution vector (sweeps that name none start from zero). "
    "Dependencies may be declared in any order, may branch freely and may form chains of any length. "
    "A self-dependency, a cyclic dependency or a dependency on an undeclared sweep is rejected with an exception before any sweep is computed. "
    "With n_jobs=0 all sweeps are computed in the calling process; otherwise independent sweeps are computed by worker processes, never more than n_jobs of them at the same time, each limited to n_threads threads.",
    ["schedules", "inputs", "configurations"],
    "All dependency graphs (forests, deep chains, cycles, dangling references), declaration orders, worker counts and completion orders.",
    "The tests use at most a two-sweep dependency on the serial path; order, exactly-once and the identity of the warm start are not observed.",
    ["pypeec/lib_solver/sweep_joblib.py", "pypeec/run/solver.py", "pypeec/lib_solver/equation_solver.py"],
    [("dependency tree and its check", "sweep_joblib.get_run_sweep"), ("tree walk handing over initial values", "sweep_joblib._get_tree_compute"), ("initial value used by the iterative solver", "equation_solver.get_solver")],
    ["initial value and final vector at the linear-solver seam", "data_sweep.conv.power_init"])

add("C03", "A failing sweep or worker never yields a partial or wrong solution",
    "If any sweep fails for any reason (an exception or memory exhaustion inside a task, a factorization failure, a worker process that is killed, a task or result that cannot be transferred), the solver call raises an exception: it never returns and never writes a solution in which a sweep is missing, repeated, stale or incomplete. "
    "A failing task in one sweep never changes the results of other sweeps. "
    "Once the faults stop, repeating the same call in the same process returns the complete, correct solution.",
    ["fault_sequences", "schedules", "crash_points"],
    "All placements of task exceptions, allocation failures, worker deaths and transfer failures, combined with all schedules.",
    "No test injects any failure into the solve or into the worker pool.",
    ["pypeec/lib_solver/sweep_joblib.py", "pypeec/run/solver.py", "pypeec/main.py", "pypeec/lib_matrix/matrix_factorization.py"],
    [("exceptions propagate through the loop", "sweep_joblib._get_parallel_loop"), ("log and re-raise", "main.run_solver_data"), ("results written only after the solve", "main.run_solver_file")],
    ["return value / exception of run_solver_data and run_solver_file", "output file"])

add("C04", "Results do not depend on previous calls, failures or the clock",
    "The result of a mesher or solver call (and of the public Fourier, matrix and voxel utilities) depends only on its arguments: it is the same whatever sequence of calls was made before in the same process, with whatever options, geometries and frequencies, and whether these calls succeeded, failed or were interrupted at any point. "
    "It does not depend on the wall clock, including backward or forward clock jumps during the call, apart from the date and duration fields (the reported elapsed time is positive and at most the duration of the call if the clock does not jump). "
    "Two calls with equal arguments give equal results, except where the random conflict resolution of the mesher is requested. "
    "No call changes the process state that is shared with the other code (working directory, environment variables, standard streams, floating-point error handling, signal handlers), however it ends.",
    ["histories", "fault_sequences", "configurations"],
    "All sequences of calls with different problems and options in one process, interruptions (exceptions, Ctrl-C) at arbitrary points, clock values and jumps.",
    "Tests run each example once per process state and never interrupt a call, so leaked module state is not exercised on purpose.",
    ["pypeec/run/solver.py", "pypeec/run/mesher.py", "pypeec/lib_matrix/fourier_transform.py", "pypeec/lib_matrix/multiply_fft.py", "pypeec/lib_matrix/matrix_factorization.py", "pypeec/utils/fourier.py", "pypeec/utils/matrix.py", "pypeec/utils/voxel.py"],
    [("options re-applied at the start of every call", "solver._run_solver_options"), ("no cached geometry between calls", "solver._run_solver_init")],
    ["results of run_mesher_data / run_solver_data"],
    [("module-global options", "numerical library selection", "lib_matrix/*.py")])

add("C05", "Arguments are never modified and results share no state with them",
    "No entry point (mesher, viewer, solver, plotter, and the public utilities) modifies any of its arguments, on success, on error, and on interruption at any point, so that the same objects can be used for further calls with unchanged meaning. "
    "Modifying a returned voxel structure or solution never changes the arguments or the result of an earlier or later call.",
    ["inputs", "histories", "fault_sequences"],
    "All inputs, all call sequences that share objects between calls, all points of failure.",
    "Tests compare a few output numbers and never look at their inputs after the call or reuse mutated outputs.",
    ["pypeec/run/mesher.py", "pypeec/run/solver.py", "pypeec/run/viewer.py", "pypeec/run/plotter.py", "pypeec/utils/fourier.py", "pypeec/utils/matrix.py", "pypeec/utils/voxel.py"],
    [("deep copies at the entry", "mesher.run / solver.run"), ("read-only use of the results by the plot stages", "viewer.run / plotter.run")],
    ["deep comparison of the arguments before and after"])

add("C06", "Convergence flags tell the truth whatever the linear solver does",
    "For every sweep the reported residuum is the residuum of the returned fields for the full coupled equation system, and the solver status is true exactly when the enabled criteria hold: the residuum norm is below max(rel_tol*|excitation|, abs_tol) unless the residuum is ignored, and the iterative solver reported success (or the power criterion stopped it) unless its status is ignored. "
    "The condition status is true exactly when the check is disabled or both condition estimates are below their limits, a sweep has converged exactly when both statuses are true, and the global status is true exactly when every sweep has converged. "
    "This holds whatever the linear solver, preconditioner factorization or condition estimator does: stalling, stopping early, returning NaN or a poor vector, or misreporting its own success.",
    ["fault_sequences", "inputs", "configurations"],
    "All problems, tolerance options, coupling methods and iterative solvers, and all behaviours of the numerical libraries.",
    "Tests only solve well-behaved problems that converge; the false branches of the status logic are not reached.",
    ["pypeec/lib_solver/equation_solver.py", "pypeec/lib_matrix/matrix_iterative.py", "pypeec/lib_matrix/matrix_condition.py", "pypeec/run/solver.py"],
    [("final residuum and status", "equation_solver._get_status"), ("condition check", "equation_solver.get_condition"), ("aggregation", "solver._get_data")],
    ["data_sweep.{solver_ok,condition_ok,has_converged,solver_status,condition_status,res}", "status"])

add("C07", "Solver effort is bounded and convergence records are exact",
    "The solver never exceeds the configured inner/outer (direct) or maximum (segregated) iteration counts, performs at least the configured minimum number of segregated iterations, and always terminates. "
    "The power criterion ends the solve at exactly the first iteration (no earlier than its configured minimum and comparison length allow) at which the terminal power differs from all of the compared previous iterations by no more than max(rel_tol*|power|, abs_tol), and never when disabled, and the returned solution is then the vector of that iteration; otherwise the segregated loop ends at the first iteration (not before the minimum) at which both inner solves succeed and the residuum is below its tolerance. "
    "The convergence record holds the terminal power of the initial vector, of every iteration in order, and of the returned solution, and the reported iteration and evaluation counts equal what was actually done.",
    ["fault_sequences", "configurations", "inputs"],
    "All iteration histories the linear solver can produce (including stalls, oscillation, NaN), all stopping options, both coupling methods.",
    "Tests check no iteration counts and no convergence records; edge cases of the stopping windows depend on iteration histories that the example problems do not produce.",
    ["pypeec/lib_solver/equation_solver.py", "pypeec/lib_matrix/matrix_iterative.py", "pypeec/lib_solver/extract_convergence.py"],
    [("iteration callback and power criterion", "equation_solver._IterCounter"), ("segregated loop", "equation_solver._get_solver_segregated"), ("operator counters", "equation_solver._OpCounter")],
    ["data_sweep.conv, data_sweep.solver_status", "calls at the linear-solver seam"])

add("C08", "Converged sweeps solve the PEEC equations of the given problem",
    "For every sweep that converges to a tight tolerance, terminal voltages, currents and powers, voxel potentials, current, flux and loss densities, divergences, losses, energies and point-cloud magnetic fields agree with an independent dense PEEC solution of the same voxel structure, materials (isotropic or anisotropic, lumped or distributed, complex, electric/magnetic/electromagnetic), sources (current/voltage, internal admittance/impedance, lumped/distributed) and frequency (including DC). "
    "This holds for every coupling method, iterative solver, FFT or direct multiplication, FFT library and splitting option, initial value and execution schedule. "
    "When the iterative solver, its preconditioner or a factorization misbehaves while the residuum check is enabled, the call raises, or the sweep is reported as not converged, or it still agrees.",
    ["inputs", "configurations", "schedules", "fault_sequences"],
    "All voxel structures, domain and source assignments, material and source values, frequencies, numerical options, warm-start chains, and schedules.",
    "Tests compare integral values of a handful of examples with stored numbers at loose tolerance; local fields, unusual domain orders, anisotropic/distributed combinations and option combinations are not compared with anything.",
    ["pypeec/lib_solver/equation_system.py", "pypeec/lib_solver/system_matrix.py", "pypeec/lib_solver/system_tensor.py", "pypeec/lib_solver/problem_geometry.py", "pypeec/lib_solver/problem_value.py", "pypeec/lib_solver/extract_solution.py", "pypeec/lib_solver/voxel_geometry.py", "pypeec/lib_matrix/multiply_fft.py", "pypeec/lib_matrix/multiply_direct.py", "pypeec/lib_matrix/green_function.py"],
    [("equation system", "equation_system"), ("dense operators", "system_matrix / system_tensor / multiply_fft"), ("field extraction", "extract_solution")],
    ["data_init, data_sweep of run_solver_data"])

add("C09", "Power, current and loss balances hold in every returned solution",
    "In every returned solution the total losses equal the sum of the electric and magnetic losses and the sum over the materials, the total energy the sum of both energies, and the total complex power the sum over the sources of the voxel-by-voxel terminal powers. "
    "In every sweep converged to a tight tolerance, current is conserved in every voxel (the divergence of the current density is zero except at source voxels, where it matches the terminal currents), the real terminal power equals the total losses, every lumped source satisfies the relation of its internal impedance or admittance, and the reactive terminal power equals twice the angular frequency times the total energy plus the reactive power of the complex resistivities. "
    "The balances hold for every schedule, warm start, solver path and material/source configuration.",
    ["inputs", "configurations", "schedules"],
    "All problems, source and material layouts (including sources spanning several materials in any order), schedules and solver paths.",
    "Tests compare a few integral numbers with stored values and do not check any balance.",
    ["pypeec/lib_solver/extract_solution.py", "pypeec/lib_solver/problem_geometry.py", "pypeec/lib_solver/extract_convergence.py", "pypeec/lib_solver/equation_system.py"],
    [("losses, energies, terminal power", "extract_solution"), ("index pairing", "problem_geometry.get_source_pos / get_material_pos")],
    ["data_sweep.{integral,material,source,var}"])

add("C10", "Crashes never leave a file that passes for a finished result",
    "A mesher or solver file call touches its output file only after the complete result has been computed: if loading, meshing or solving fails, is interrupted or crashes, an existing output file keeps its exact previous content and no new file appears. "
    "If the process dies while the output is being written (at any byte, with any buffering), the next stage either loads exactly the complete new result (or the untouched previous one) or fails with an exception, and never works on partial or mixed data. "
    "Input files are never modified, and rerunning the call after the crash produces the complete result.",
    ["crash_points", "fault_sequences"],
    "All crash points in the file workflow (before, during and after every read and write), file formats (JSON, gzip, pickle), buffer sizes, prior content of the output file.",
    "No test interrupts a file call; tests only run complete workflows.",
    ["pypeec/main.py", "pypeec/run/mesher.py", "pypeec/run/solver.py", "pypeec/lib_check/check_data_options.py"],
    [("compute before writing", "main.run_mesher_file / run_solver_file"), ("loading before computing", "main.run_*_file")],
    ["content of the scratch directory after the crash", "result of the next stage"])

add("C11", "Failures are always reported: exceptions by the API, exit code by CLI",
    "A command-line call returns the exit code 0 if and only if the complete requested work was done (the output file holds the complete result, all selected plots were made or saved, or the archive was fully extracted), and a non-zero code otherwise, without raising. "
    "The corresponding API call raises the original exception whenever any step fails (invalid or unreadable input, disk full, I/O or short-write error on the output, read errors, numerical failures, plot failures) and never returns normally in that case. "
    "The command line passes every option and file through, so that it has the same effect as the API call with the same arguments.",
    ["fault_sequences", "inputs", "configurations"],
    "All commands, aliases and options (with a usable standard error stream), all inputs (valid or not), and all I/O, allocation, numerical and plotting faults at every point.",
    "Tests only run successful command lines and API calls without injected faults.",
    ["pypeec/script.py", "pypeec/main.py", "pypeec/run/viewer.py", "pypeec/run/plotter.py"],
    [("exit code mapping", "script.run_arguments"), ("log and re-raise", "main.run_*")],
    ["return code of run_arguments", "exceptions of main.run_*", "scratch directory"])

add("C12", "The file workflow is equivalent to the data workflow",
    "Running mesher, solver, viewer and plotter through files gives the same voxel structure, the same solution and the same plots as passing the data in memory, for every supported file format of every stage (JSON, YAML for configurations; JSON, gzip, pickle for data) and in any mixture. "
    "A stage may run in another process than the previous one and stages may be repeated or interleaved with other workflows that use other files in any order. "
    "What the file call stores is exactly the data that the data call returns, up to the date and duration fields.",
    ["histories", "configurations", "inputs"],
    "All workflows, format mixtures, process boundaries, interleavings of several workflows and repetitions.",
    "Tests use pickle files and data calls on the examples only and never compare one with the other.",
    ["pypeec/main.py", "pypeec/lib_check/check_data_format.py", "pypeec/lib_check/check_data_options.py", "pypeec/run/solver.py", "pypeec/run/plotter.py", "pypeec/run/viewer.py"],
    [("file entry points wrapping the data entry points", "main.run_*_file"), ("strict type checks also for loaded data", "check_data_format")],
    ["stored and returned data of all stages"])

add("C13", "A plot call makes exactly the selected plots, and saves each one",
    "A viewer or plotter call creates exactly one window or figure per selected plot (per selected sweep and plot for the plotter), in the selected order, with the title, the window settings, the layout and the data of that plot and of that sweep, and none for unselected ones; an unknown sweep or plot name is rejected before anything is created. "
    "In save mode exactly one non-empty image file per plot is created in the requested folder, under the name <name>_<plot>.png or <name>_<sweep>_<plot>.png (as long as these names are distinct), nothing else is written, and every window and figure is closed; in debug mode nothing is written and all are closed; in Qt and notebook mode all are shown and remain open until the user leaves. The save and debug modes need neither a display nor a notebook. "
    "If making, saving or showing any plot fails, the call raises.",
    ["configurations", "histories", "fault_sequences"],
    "All plot modes, selections, orders, layouts and plot kinds, sequences of plot calls in one process, and failures of the plotting back ends at any step.",
    "Tests run the debug mode for the examples and do not look at what is created, shown, saved or closed.",
    ["pypeec/lib_plot/manage_plotgui.py", "pypeec/run/plotter.py", "pypeec/run/viewer.py", "pypeec/lib_plot/manage_pyvista.py", "pypeec/lib_plot/manage_matplotlib.py", "pypeec/lib_plot/parse_plotter.py", "pypeec/lib_plot/parse_viewer.py", "pypeec/lib_plot/parse_voxel.py"],
    [("plot session", "manage_plotgui.PlotGui"), ("selection", "plotter.run / viewer.run")],
    ["calls at the simulated PyVista/Matplotlib/Qt back ends", "scratch directory"])

add("C14", "The Qt session ends cleanly on exit, error or interrupt",
    "In Qt mode all windows are shown before the event loop is entered, the event loop is entered exactly once per call, and the call blocks until it ends; a non-zero exit code of the event loop raises an exception and a zero exit code returns normally. "
    "An interrupt signal delivered at any moment while the windows are open closes every window and figure and terminates the program with exit code 130. "
    "Repeated plot calls in one process reuse a single Qt application, and a call without any selected plot neither opens windows nor blocks.",
    ["schedules", "histories", "fault_sequences"],
    "All moments of signal delivery, event-loop outcomes, window-close orders and sequences of calls.",
    "Tests never enter the Qt mode or deliver a signal.",
    ["pypeec/lib_plot/manage_plotgui.py", "pypeec/run/plotter.py", "pypeec/run/viewer.py"],
    [("signal handler and event loop", "PlotGui._show_figure_qt"), ("application singleton", "manage_plotgui._QApplication")],
    ["calls at the simulated Qt back end", "exit code"])

add("C15", "Meshing gives an exact, disjoint, intact voxel structure",
    "For every voxel-index, layered-image, vector-shape and surface-mesh geometry, the returned structure is exactly the specified one after the requested reduction, resampling and conflict rules: the physical volume covered by every domain (position, size and membership of each voxel) is that of the specification (image pixels of the colors of the domain, voxel centers inside the assembled shapes, voxels with a corner inside the surface), and the point cloud keeps exactly the points, in order, that are farther than one voxel size, along at least one axis, from the center of every non-empty voxel of the original grid (or the call is rejected if all points are required). "
    "No voxel belongs to two domains: a rule removes shared voxels from the resolved domain only, the random resolution gives each shared voxel to one of its claiming domains whatever the random draw while leaving unshared voxels alone, and unresolved conflicts are rejected. "
    "The connected components, the required or forbidden connections and adjacencies of domains, and the summary counts are exactly those of the returned structure, and violations of them are rejected. "
    "The reference surface is the surface of the original meshes (all their triangles, scaled and shifted) or of the original vector shapes (extruded between the boundaries of their layers), and there is none for voxel indices and images.",
    ["inputs", "schedules", "configurations"],
    "All geometries of the four mesher types, layer stacks, conflict rules, integrity rules, point clouds, resampling factors, and all draws of the random generator.",
    "Tests mesh the examples and check voxel counts; the random draw is whatever the generator gives and connection checks are not exercised on rejected structures.",
    ["pypeec/lib_mesher/voxel_conflict.py", "pypeec/lib_mesher/voxel_integrity.py", "pypeec/lib_mesher/voxel_resampling.py", "pypeec/lib_mesher/voxel_point.py", "pypeec/lib_mesher/voxel_summary.py", "pypeec/lib_mesher/mesher_png.py", "pypeec/lib_mesher/mesher_voxel.py", "pypeec/run/mesher.py"],
    [("random assignment", "voxel_conflict._get_random"), ("rule-based resolution", "voxel_conflict._get_solve_overlap"), ("connectivity", "voxel_integrity"), ("reduction and resampling", "voxel_resampling")],
    ["data_geom of run_mesher_data"])

add("C16", "Damaged geometry files are rejected, never silently misread",
    "An image file used by the mesher is either read exactly, in which case the voxel structure is the one of the intact images, or the mesher call raises an exception: a file that is missing, unreadable, truncated, damaged (flipped bits, lost blocks), not an image, or of another size than specified is never meshed as something else, and neither is a file whose reads fail or return short at any point. "
    "A surface-mesh file that is missing, unreadable, empty, truncated, or no longer describes a closed surface is rejected with an exception as well. "
    "A failed call does not affect later calls, and a repetition with intact files gives the exact structure of the current content of the files.",
    ["fault_sequences", "crash_points", "inputs"],
    "All read faults, truncation points, short-read patterns and file replacements for all images and surface meshes of a geometry.",
    "Tests only use intact example files.",
    ["pypeec/lib_mesher/mesher_png.py", "pypeec/lib_mesher/mesher_stl.py", "pypeec/run/mesher.py"],
    [("image loading", "mesher_png._get_load_image"), ("mesh loading", "mesher_stl._get_load_stl")],
    ["data_geom / exception of run_mesher_data"])

add("C17", "GERBER conversion reports tool failures and cleans up",
    "Converting GERBER files to images processes every requested layer, in order, by giving the external tools a project with exactly the files and colours of that layer, its board edge and its background, and the requested border and resolution, and it produces the image <folder>/<layer>.png and leaves no temporary project file behind. "
    "If an external tool fails on any layer (non-zero exit code, killed by a signal, not available, or interrupted), or the project file of a layer cannot be created completely, the conversion raises an exception instead of returning, runs no further tool on that layer or later layers, and leaves no temporary project file behind either. Folder and layer names with spaces or shell characters are handled like any other. "
    "A failed conversion does not affect a later one, which gives the complete result. The working directory and the environment of the process are left unchanged.",
    ["fault_sequences", "histories", "inputs"],
    "All layer stacks, tool failures at every step (exit code, signal, missing binary), and repeated conversions.",
    "The tools are not available to the tests and no test touches this module.",
    ["pypeec/utils/gerber.py"],
    [("tool invocation and clean-up", "gerber._get_convert_layer / _get_png_file")],
    ["simulated subprocess calls", "scratch directory"])

add("C18", "The extracted impedance matrix is the one of the component",
    "For a component with galvanically separated windings, the terminal voltages and currents extracted from a solution are those of the given sweeps, terminals and orders (voltage and current of the source terminal relative to the sink terminal), and the impedance matrix computed from enough independent sweeps of one frequency is the symmetric impedance matrix of the component, whatever sweeps were used, in which order they were given or solved (also in parallel, warm started, or passed through a file), and whatever current patterns, amplitudes or phases they had. "
    "Given symmetries add exactly the permuted excitations. The resistances, inductances, quality factors and coupling factors are those of this matrix (undefined at DC where they divide by the frequency). "
    "Too few or dependent sweeps, sweeps of different frequencies, unknown sweeps or terminals and inconsistent sizes are rejected with an exception, and the solution is never modified.",
    ["inputs", "schedules", "histories", "configurations"],
    "All components, excitations, sets and orders of sweeps, schedules of the sweep tree, terminal orders and orientations, and symmetries.",
    "The examples extract the matrix of two fixed transformers with one fixed set of sweeps and never compare the result.",
    ["pypeec/utils/matrix.py", "pypeec/run/solver.py", "pypeec/lib_solver/sweep_joblib.py", "pypeec/lib_solver/extract_solution.py"],
    [("terminal extraction", "matrix.get_extract"), ("symmetry expansion", "matrix.get_symmetry"), ("equation system and circuit", "matrix.get_matrix")],
    ["terminal and circuit data of pypeec.utils.matrix", "sources of the solution"])

add("C19", "Invalid definitions are rejected without any effect",
    "A geometry, problem, tolerance, viewer or plotter definition with a defect always makes the call fail with an exception (non-zero exit code for the command line), wherever the defect is, however the call is made (data, files, command line, serial or parallel sweeps), and whatever was called before, and no file is created or modified (a previous output is untouched). "
    "The defects are the violations of the documented format (a missing field, a wrong type including integers in place of floating numbers, a null, an unknown option, an empty list where at least one item is needed, a list of another size where a size is given, a value below its minimum, a layout with the wrong framework) and the inconsistencies: unknown domains in the materials, sources, conflict rules or integrity rules; "
    "voxel indices that are duplicated, out of range, or shared by domains without resolution; missing or unreadable images and meshes, images of another size, layer names used twice; points inside of the structure if they are forbidden; sources outside of the conductors, connected structures with a conductor but without any source, no conductor, voxels with several materials of the same kind or several sources; missing or wrong-sized material or source values of any sweep; unknown or cyclic initial sweeps; unknown plot or sweep names or display modes. "
    "A violation of the format is rejected before any work (no task, numerical computation, window, or other file access). Valid definitions are accepted, also with NumPy arrays and numbers, and give the same result after any number of rejected ones.",
    ["inputs", "histories", "configurations", "schedules"],
    "All single defects at any place of any definition, with all the ways to make the call, and all histories of valid and rejected calls.",
    "The tests only use the intact definitions of the examples.",
    ["pypeec/lib_check/check_data_format.py", "pypeec/lib_check/check_data_options.py", "pypeec/lib_solver/problem_geometry.py", "pypeec/lib_solver/problem_value.py", "pypeec/lib_solver/sweep_joblib.py", "pypeec/lib_mesher/mesher_voxel.py", "pypeec/lib_mesher/mesher_png.py", "pypeec/lib_mesher/voxel_conflict.py", "pypeec/lib_mesher/voxel_integrity.py"],
    [("format", "check_data_format"), ("options and names", "check_data_options"), ("consistency of the problem", "problem_geometry._check_indices / _check_source_graph"), ("sizes of the values", "problem_value"), ("consistency of the geometry", "mesher_* / voxel_*"), ("sweep order", "sweep_joblib")],
    ["exception / exit code", "files", "tasks, library calls, windows"])

add("C20", "Time-domain responses are the ones of the component",
    "The periodic response of a component computed with the helpers is exact: utils.fourier.get_fft gives the peak values of the harmonics of the sampled real signal (the mean value at DC, also at half of the sampling frequency), truncated or padded with zeros; "
    "the sweeps solved at these harmonics, with any scheduling, warm starts, failures followed by a repeated call, and transfer through files and processes, give the coefficients of the terminal voltages and currents; get_ifft gives the samples of the series for any number of samples "
    "(without the harmonics above half of the sampling frequency), which are the superposed responses of the PEEC equations, and whose mean power is the total of the losses; get_time and get_freq are the times of the samples and the frequencies of the harmonics. "
    "The voxels given by tensor indices and converted with utils.voxel are the ones that are solved; the conversion is exactly invertible, and an index out of the structure always raises an exception. The arguments are not modified.",
    ["inputs", "histories", "configurations", "schedules"],
    "All sampled signals, numbers of samples and harmonics, components, schedules and transfers.",
    "No test uses these modules.",
    ["pypeec/utils/fourier.py", "pypeec/utils/voxel.py", "pypeec/run/solver.py", "pypeec/lib_solver/sweep_joblib.py"],
    [("coefficients", "fourier.get_fft"), ("waveforms", "fourier.get_ifft"), ("indices", "voxel.get_idx_linear / get_idx_tensor"), ("harmonics", "sweep_joblib.get_run_sweep")],
    ["coefficients", "waveforms", "indices", "terminal values of the solution"])

add("C21", "The configured libraries and options are the ones that compute",
    "In every solver call, in the calling process and in every worker process, whatever calls with other options were made before and however they ended: with the FFT multiplication all the multi-dimensional transforms are computed by the configured FFT library and no other (none at all with the direct multiplication), with the configured number of threads (0 for one thread, negative numbers counted down from the number of cores), FFTW cache time and byte alignment; "
    "all the preconditioners are factorized by the configured library with its options (PARDISO and MKL threads, PyAMG solver type, tolerance and Krylov acceleration), where the estimate of the condition, made only if it is enabled and with the configured accuracy and iterations, uses its own decomposition; "
    "and the full system, the electric subsystem and the magnetic subsystem are each solved by their own configured iterative solver with their own relative and absolute tolerances and iteration numbers. "
    "A configured library that is needed but not available makes the call fail (no other library takes its place), and a library that is not configured is not needed.",
    ["configurations", "histories", "fault_sequences", "schedules"],
    "All combinations and sequences of numerical options in one process and in reused workers, failures and interruptions of the previous calls, missing libraries.",
    "The tests use SciPy and SuperLU with one set of options per process; all libraries give the same result, so that a wrong or stale choice is invisible in the results.",
    ["pypeec/run/solver.py", "pypeec/lib_matrix/fourier_transform.py", "pypeec/lib_matrix/multiply_fft.py", "pypeec/lib_matrix/matrix_factorization.py", "pypeec/lib_matrix/matrix_iterative.py", "pypeec/lib_matrix/matrix_condition.py", "pypeec/lib_solver/equation_solver.py"],
    [("options of the FFT libraries", "fourier_transform.set_options"), ("options of the factorization libraries", "matrix_factorization.set_options"), ("configuration of every process", "solver._run_solver_options"), ("iterative solver", "matrix_iterative.get_solve"), ("condition estimate", "matrix_condition.get_condition_matrix")],
    ["calls of the libraries", "arguments of the calls", "exceptions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
