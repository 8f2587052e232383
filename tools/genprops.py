import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook="none: driven through the public program interface"):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["HDF5 output file","exit status"]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

add("C01","MoC solution does not depend on thread count or interleaving",
 "For any problem solved with the Method of Characteristics sweeper, every number in the output file (eigenvalue history, residual history, pin and region fluxes, pin powers, surface currents) is the same, to accumulated rounding, for every number of threads and for every way the operating system interleaves them. No lost, doubled, stale or half-finished contribution of any ray, angle, plane or group can reach the result.",
 ["schedules","configurations","inputs"],
 "all team sizes, all interleavings of the threads at memory-access granularity, all supported sweeper options (Gauss-Seidel/Jacobi boundary update, inner iterations, CMFD on/off, 2-D and stacked planes, sub-planes, quadratures, boundary conditions)",
 "The MoC tests run one small problem with 2 real threads under whatever schedule the machine happens to produce and look at a few loose numbers; a race that needs a preemption inside a reduction or between a reset and its first use practically never fires there.",
 ["src/sweepers/moc/moc_sweeper_kernel.inc.hpp","src/sweepers/moc/moc_current_worker.hpp","src/sweepers/moc/moc_sweeper.cpp","src/core/boundary_condition.cpp"],
 [("thread-private flux accumulation with a critical-section reduction between barriers","sweep1g in moc_sweeper_kernel.inc.hpp"),("boundary flux updated by a single thread between barriers","sweep1g, gauss_seidel_boundary_ branches"),("current tallies reset by one thread and scored in a critical section","set_angle/post_ray/post_sweep in moc_current_worker.hpp")],
 ["HDF5 output: convergence/*, flux/*, fsr_flux/*, pin_powers, current/*"],
 [("flux_1g_","shared scalar flux of the group being swept","moc_sweeper.hpp"),("boundary_/boundary_out_","incoming/outgoing angular flux per plane","moc_sweeper.hpp"),("coarse_data_","surface currents for CMFD","coarse_data.hpp")])
add("C02","Sn solution does not depend on thread count or interleaving",
 "For any problem solved with the discrete-ordinates sweeper using the Jacobi boundary update (chosen by the user, or forced because several threads are in use), every number in the output file is the same, to accumulated rounding, for every number of threads and every interleaving. This covers 2-D and 3-D sweeps, every spatial differencing scheme on offer, and the surface currents handed to the acceleration.",
 ["schedules","configurations","inputs"],
 "all team sizes, all interleavings, 2-D/3-D, diamond-difference, step-characteristics and corrected schemes, CMFD on/off, all boundary types",
 "No test runs the Sn sweeper at all; interleavings are not controlled anywhere in the suite.",
 ["src/sweepers/sn/sn_sweeper_variant.hpp","src/sweepers/sn/sn_current_worker.hpp","src/sweepers/sn/sn_sweeper.cpp","src/core/boundary_condition.cpp"],
 [("angles shared among threads, per-thread flux reduced in a critical section","sweep_1g, sweep_1g_2d"),("atomic updates of surface currents","sn_current_worker.hpp"),("Gauss-Seidel update disabled when several threads are in use; Jacobi update by a single thread","SnSweeper constructor, sweep_1g")],
 ["HDF5 output: convergence/*, flux/*, pin_powers*, current/*"],
 [("bc_in_/bc_out_","boundary angular flux","sn_sweeper.hpp")])
add("C03","Coupled 2D3D solution and its corrections do not depend on interleaving",
 "For any problem solved with the 2D/3D sweeper (planar MoC coupled to 3-D Sn) or with the stand-alone 2D3D MoC sweeper, the flux, eigenvalue, transverse leakage, Sn/MoC residuals and the correction factors written to the output file are the same, to accumulated rounding, for every number of threads and every interleaving.",
 ["schedules","configurations","inputs"],
 "all team sizes, all interleavings, V/sawtooth cycles, relaxation, projection options, sub-planes, axial treatments",
 "The suite has no 2D3D test.",
 ["src/sweepers/cmdo/correction_worker.hpp","src/sweepers/cmdo/correction_worker.cpp","src/sweepers/cmdo/plane_sweeper_2d3d.cpp","src/sweepers/cmdo/moc_sweeper_2d3d.cpp","src/sweepers/cmdo/sn_sweeper_cdd.hpp"],
 [("per-angle surface and volume sums scored in a critical section, reset and reduced between barriers","correction_worker.hpp"),("MoC and Sn sweeps alternated with exchange of pin flux and corrections","PlaneSweeper_2D3D::sweep")],
 ["HDF5 output: all groups, incl. alpha_x, alpha_y, beta, transverse_leakage, SnResid"])
add("C04","Monte Carlo histories are reproducible for any threads and schedule",
 "For a given input and seed, a Monte Carlo eigenvalue run follows the same particle histories cycle after cycle whatever the number of threads and however they interleave: the analog eigenvalue and source-entropy histories are bit-for-bit identical, and all other tallied results agree to summation rounding.",
 ["schedules","configurations","inputs"],
 "all team sizes and interleavings, numbers of cycles and particles, seeds, geometries, boundary conditions",
 "The Monte Carlo test pushes a handful of particles and checks a tally; it never compares two schedules or two thread counts.",
 ["src/sweepers/mc/particle_pusher.cpp","src/sweepers/mc/fission_bank.hpp","src/sweepers/mc/fission_bank.cpp","src/solvers/monte_carlo_eigenvalue_solver.cpp","src/util/rng_lcg.hpp"],
 [("one random stream per particle, positioned by particle id, in thread-private generator state","ParticlePusher::simulate"),("fission sites pushed under a critical section, then stably sorted by parent and renumbered","FissionBank::push_back, MonteCarloEigenvalueSolver::step")],
 ["HDF5 output: k_history_analog, h_history, k_*history*, flux/*"])
add("C05","Every Monte Carlo track is tallied exactly once",
 "In a Monte Carlo run every track and collision of every source particle contributes exactly once to each tally, under any thread count and interleaving: per pin and group the coarse flux equals the volume-weighted sum of the fine flux tallied independently, each cycle's track-length and collision estimates equal those of an uninterrupted sequential run to rounding, and the reported eigenvalue means and deviations are those of the recorded active cycles. Nothing scored in discarded cycles or in another cycle leaks in.",
 ["schedules","configurations","inputs"],
 "all team sizes, interleavings, geometries, numbers of cycles (active and inactive)",
 "A lost atomic update changes a tally by one track in thousands; the suite has no exact comparison.",
 ["src/sweepers/mc/tally_scalar.hpp","src/sweepers/mc/tally_spatial.hpp","src/sweepers/mc/particle_pusher.cpp","src/solvers/monte_carlo_eigenvalue_solver.cpp"],
 [("atomic score and weight accumulation","TallyScalar::score, TallySpatial::score"),("one realization committed per cycle; reset after inactive cycles","commit_tallies, reset_tallies")],
 ["HDF5 output: flux/*, fsr_flux/*, fsr_flux_col/*, k_mean_history*, k_stdev_history*"])
add("C06","Converged transport solutions conserve neutrons in every cell and group",
 "When an eigenvalue calculation reports convergence, then in every pin cell and energy group net leakage through the cell faces (from the reported currents) plus removal equals in-scatter plus fission production divided by the reported eigenvalue, within the convergence tolerance, and no current crosses a reflective outer face. This holds for MoC and Sn, whatever the thread count and interleaving.",
 ["schedules","configurations","inputs"],
 "all interleavings and team sizes; random materials, meshes, boundary conditions, sweeper options",
 "The suite only prints balances or checks infinite-medium eigenvalues; it never closes the balance cell by cell on a heterogeneous problem, nor under a hostile schedule.",
 ["src/sweepers/moc/moc_current_worker.hpp","src/sweepers/sn/sn_current_worker.hpp","src/sweepers/moc/moc_sweeper_kernel.inc.hpp","src/core/source.cpp","src/core/transport_sweeper.cpp"],
 [("currents and fluxes accumulated in the same sweep from the same angular fluxes","moc::Current, sn::Current"),("power iteration updating eigenvalue from total fission","EigenSolver::step")],
 ["HDF5 output: current/*, flux/*, fsr_flux/*, convergence/k; screen message of convergence"])
add("C07","Iteration history and convergence claims are truthful and bounded",
 "An iterative solve performs at most the requested maximum number of iterations, stops at the first iteration that meets the criteria (after the requested minimum), and reports convergence if and only if the last recorded residuals are below the requested tolerances; otherwise it says the maximum was reached. The recorded history has exactly one entry per iteration performed, agrees with what the screen and log showed, each recorded eigenvalue residual is the change it claims to be, and a non-finite solution ends in failure rather than in a result.",
 ["histories","schedules","configurations","inputs"],
 "all inputs with any tolerances and iteration limits, with and without acceleration, fixed-source and eigenvalue, all schedules and clock behaviours",
 "The suite never reads back an iteration history.",
 ["src/solvers/eigen_solver.cpp","src/solvers/fixed_source_solver.cpp"],
 [("convergence test and history record per iteration","EigenSolver::solve, FixedSourceSolver::solve")],
 ["screen","log file","HDF5 output: convergence/*","exit status"])
add("C08","A run that reports success has delivered its complete output",
 "If the program exits with status 0, or announces that its output was written, then the result file exists, opens, and contains everything the same run would have written on a healthy disk with the same values; the same goes for requested auxiliary files. Whatever write, space, open, truncate or close error the disk produces and at whatever moment, the run otherwise ends with a non-zero status (never a hang), and transient conditions (interrupted or short transfers) do not change the result.",
 ["fault_sequences","configurations"],
 "every kind of output fault (no space, I/O error, quota, read-only, failing open/close/truncate, short and interrupted writes), at every I/O operation, for every solver type",
 "Tests write to a healthy disk only.",
 ["src/driver.cpp","src/util/h5file.cpp","src/util/h5file.hpp","src/auxiliary/geometry_output.cpp","src/sweepers/moc/moc_sweeper.cpp"],
 [("library write errors converted to exceptions that end the run with a failure status","H5Node::write, run()")],
 ["exit status","screen","content of the simulated disk after exit"])
add("C09","Faulty input reads never become a wrong answer or a hang",
 "If reading the input file, the cross-section library, an external source, or correction data fails or is cut short by an I/O error at any moment, the run either ends promptly with a failure status or produces exactly the answer of an undisturbed run; it never computes with partial data and never loops forever. A read that delivers less than asked for is invisible.",
 ["fault_sequences","inputs"],
 "every read operation on every input file, every read fault kind (I/O error, interrupted, short, failing open/stat/seek)",
 "Tests read healthy files only.",
 ["src/input_proc.cpp","src/util/file_scrubber.cpp","src/core/material_lib.cpp","src/core/source.cpp","src/sweepers/cmdo/correction_data.cpp","src/core/xs_mesh_homogenized.cpp","src/util/h5file.cpp"],
 [("parse status checked; malformed or missing data raise exceptions","InputProcessor, MaterialLib, H5Node::read")],
 ["exit status","HDF5 output"])
add("C10","Running out of memory never yields a success with a wrong result",
 "If any single memory allocation of a run fails, at any moment, the run either ends with a failure status or abnormal termination, or still delivers exactly the output of an undisturbed run; it never reports success with missing or different results and never hangs.",
 ["fault_sequences","schedules"],
 "every allocation made during a run, sequential or inside a parallel region",
 "No test injects allocation failures.",
 ["src/driver.cpp","src/util/h5file.cpp"],
 [("allocation failures propagate as exceptions that are not swallowed","catch sites in h5file.*, driver.cpp")],
 ["exit status","HDF5 output"])
add("C11","An interrupt leaves a usable result of the completed iterations",
 "If the user interrupts a run (SIGINT) at any moment while it is solving, the process ends promptly with a failure status and leaves a readable result file whose iteration history is exactly the leading part, completed so far, of what the undisturbed run would have recorded. An interrupt before there is anything to save ends the run with a failure status and leaves an existing result file of the case untouched; an interrupt while final results are being written never leaves a broken file behind a success status.",
 ["crash_points","schedules","configurations"],
 "interrupt delivered at every simulated event from program start to exit, all solver types, all team sizes and interleavings",
 "No test delivers a signal.",
 ["src/driver.cpp","src/solvers/eigen_solver.cpp","src/solvers/monte_carlo_eigenvalue_solver.cpp"],
 [("SIGINT handler generates output and exits with a failure","int_handler in driver.cpp")],
 ["exit status","content of the simulated disk","screen"])
add("C12","Iteration dumps: exactly those requested, complete, and crash-durable",
 "When per-iteration dumps are requested, the run writes one file for each requested iteration that is actually performed and no others; each holds exactly the history up to and including that iteration and the fluxes of that iteration. Once the run has moved on to the next iteration the dump survives any later crash of the process, and a failed dump write is not reported as a successful run.",
 ["crash_points","fault_sequences","histories","inputs"],
 "every list of requested iterations (any order, repeats, out of range), process crash at every I/O operation, write faults",
 "No test requests dumps.",
 ["src/solvers/eigen_solver.cpp","src/util/h5file.cpp"],
 [("dump written and closed inside the iteration loop","EigenSolver::solve")],
 ["dump files on the simulated disk","HDF5 output"])
add("C13","Log and screen carry the same report, and log trouble never hurts the run",
 "Progress is written to the screen and to the log file alike: after a normal run every iteration or cycle line shown on screen is in the log, in order and exactly once, and the other way round. A log file that cannot be opened or written does not change the computed results, does not silence the screen, and does not go unreported.",
 ["fault_sequences","schedules"],
 "open/write/close faults on the log file at every operation, screen write faults, all solver types",
 "The stream test uses two healthy in-memory streams.",
 ["src/util/tee_stream.hpp","src/util/files.cpp","src/driver.cpp"],
 [("one stream buffer feeding two","basic_teebuf"),("log opened after the case name is known","StartLogFile")],
 ["screen","log file","HDF5 output"])
add("C14","Results do not depend on clocks; reported times are consistent",
 "Computed results, iteration counts and termination are unaffected by anything the clock does (standing still, running fast, jumping forwards or backwards). Under a forward-running clock the reported times are consistent: iteration times never decrease and stay within the total, the total does not exceed the time that passed, and no part of the timer report exceeds the whole it belongs to.",
 ["fault_sequences","configurations"],
 "all clock behaviours, all solver types, all team sizes",
 "Tests run under the real clock and never look at times.",
 ["src/util/timers.cpp","src/util/timers.hpp","src/solvers/eigen_solver.cpp","src/driver.cpp"],
 [("wall-clock stopwatch tree","Timer::tic/toc/time")],
 ["HDF5 output: convergence/iteration_time","timer report in the log and on screen"])
add("C15","The requested number of threads is honoured and never deadlocks",
 "A run uses exactly the number of threads requested in the input file, else the environment's default, for its parallel work; a request below one is refused with a failure status and a request beyond the hardware is warned about. Whatever the number (even far more threads than rays, angles or particles) and however threads are delayed or stalled relative to each other, the run finishes.",
 ["schedules","configurations","inputs"],
 "all requested and default thread counts, processor counts, stalled-thread schedules, all solver types",
 "Tests always run with two threads.",
 ["src/core/parallel_environment.cpp","src/input_proc.cpp","src/driver.cpp","src/sweepers/moc/moc_sweeper_kernel.inc.hpp"],
 [("thread count set before the solver is built","ParallelEnvironment, InputProcessor::process")],
 ["team sizes of the parallel regions","screen","exit status"])
add("C16","Leftovers of earlier runs never leak into a later run's files",
 "Running a case in a directory that holds files of earlier runs of any case (complete, torn by a crash at any point, from an interrupted run, or garbage) succeeds like a run in a clean directory, and every file it writes is exactly the one of that clean run: same results, same log, nothing merged or appended or kept from a file's former content. Files the run does not write, such as those of other cases, are left alone.",
 ["histories","crash_points"],
 "all sequences of runs, crashes, interrupts and faults preceding a run",
 "Tests start from a clean directory and run once.",
 ["src/driver.cpp","src/util/h5file.cpp","src/util/files.cpp","src/solvers/eigen_solver.cpp"],
 [("output and log files truncated on open","H5Access::WRITE, StartLogFile")],
 ["content of the simulated disk"])
add("C17","Rays tile the geometry: traced volumes match the true region volumes",
 "For every geometry, quadrature and ray spacing, the traced segments with volume correction reproduce each flat-source region's volume, and rays entering at a boundary connect to rays leaving it.",
 ["inputs","configurations"],"all geometries, quadratures, spacings","Tests check a few fixed geometries.",
 ["src/sweepers/moc/ray.cpp","src/sweepers/moc/ray_data.cpp"],[("modular ray tracing with volume correction","RayData")])
add("C18","Angular quadratures integrate the sphere",
 "Every quadrature offered has positive weights that sum to the sphere and unit direction vectors, and its reflections map onto its own directions.",
 ["inputs","configurations"],"all quadrature types and orders","Tests check single orders.",
 ["src/core/angular_quadrature.cpp","src/core/product_quadrature.hpp","src/core/level_symmetric.hpp"],[("tabulated and generated sets","AngularQuadrature")])
add("C19","Homogenised cross sections preserve reaction rates",
 "Pin-homogenised cross sections multiplied by the pin flux and volume reproduce the sum of the regional reaction rates for every reaction and group.",
 ["inputs","configurations"],"all pins, fluxes, groups","Tests check one configuration.",
 ["src/core/xs_mesh_homogenized.cpp"],[("flux-volume weighting","XSMeshHomogenized::homogenize_region_flux")])
add("C20","Every point and ray lands in exactly one region",
 "For every point and direction inside the geometry the region found contains the point, adjacent regions are found consistently along a track, and boundary points are resolved by direction.",
 ["inputs"],"all geometries, points, directions","Tests check chosen points.",
 ["src/core/core_mesh.cpp","src/core/pin_mesh_cyl.cpp","src/core/pin_mesh_rect.cpp","src/core/plane.cpp"],[("lower_bound searches and direction tie-breaks","get_location_info, find_reg")])
add("C21","Malformed input is rejected, amendments change only what they name",
 "Input outside the documented grammar or with inconsistent references is refused with an explanation, and a command-line amendment changes the named attribute and nothing else.",
 ["inputs"],"all XML documents and amendment lists","Tests parse a few valid documents.",
 ["src/input_proc.cpp","src/util/validate_input.cpp","src/core/core.cpp","src/core/lattice.cpp"],[("attribute whitelists and consistency checks","validate_input, Parse*")])
add("C22","The random generator's jump-ahead equals stepping",
 "Jumping ahead by n from any state gives the state reached by n single steps, for every n and seed, and samples stay in range.",
 ["inputs"],"all states and n","Tests check some n.",
 ["src/util/rng_lcg.hpp"],[("logarithmic jump-ahead","RNG_LCG::jump_ahead")])
add("C23","Acceleration does not change the answer it accelerates to",
 "With coarse-mesh acceleration on or off, and whatever the number of threads and their interleaving, a problem that converges both ways converges to the same eigenvalue and pin flux within the convergence tolerance.",
 ["schedules","inputs","configurations"],"all problems on which both converge, all team sizes and interleavings","One loose comparison in the suite at most.",
 ["src/core/cmfd.cpp","src/solvers/eigen_solver.cpp"],[("D-hat non-linear correction","CMFD::setup_solve")])
add("C24","A fixed-source solve answers for exactly the source it was given",
 "A converged fixed-source calculation without fission contains exactly the neutrons of the source in the source file: in a problem closed by reflective faces the removal rate of every group equals in-scatter plus the given source of that group, and in an open one the flux for a sum of sources is the sum of the fluxes, region by region and group by group. No region, group, earlier memory content, thread count or interleaving adds, loses or moves a source neutron.",
 ["schedules","inputs","configurations"],
 "all sources (any regions, groups, strengths), MoC and Sn, team sizes and interleavings, initial memory contents",
 "The suite has no fixed-source run with an external source.",
 ["src/core/source.cpp","src/core/source_isotropic.cpp","src/core/source_factory.hpp","src/solvers/fixed_source_solver.cpp","src/sweepers/moc/moc_sweeper.cpp"],
 [("external source read once and added per group before in-scatter","Source::add_external, Source::initialize_group"),("group-wise inner iterations","FixedSourceSolver::step")],
 ["HDF5 output: flux/*, fsr_flux/*","exit status"])
add("C25","Nothing but the input decides the result",
 "The same input run on one thread gives the same result files bit for bit, and on several threads to rounding, whatever freshly obtained memory held before, wherever memory happens to be placed, however many processors the machine has and whichever unrelated environment variables are set. Nothing left uninitialised, read beyond its end, or ordered by address reaches a result.",
 ["configurations","fault_sequences","schedules","inputs"],
 "all problems and solver types, contents of fresh memory, placements of memory blocks, processor counts, environments; the schedule being equal",
 "Tests run in one kind of process, whose fresh memory is mostly zero and whose layout hardly varies.",
 ["src/core/transport_sweeper.cpp","src/core/coarse_data.cpp","src/core/source.cpp","src/core/cmfd.cpp","src/sweepers/moc/moc_sweeper.cpp","src/sweepers/sn/sn_sweeper.cpp","src/sweepers/mc/particle_pusher.cpp"],
 [("arrays allocated without initial values and set before use","TransportSweeper, CoarseData, CMFD, CorrectionData constructors and initialize()")],
 ["HDF5 output (all datasets)","exit status"])
add("C26","The way an answer is iterated to does not change the answer",
 "A problem converged tightly has the same eigenvalue, pin fluxes and region fluxes, within the convergence tolerance, however it was iterated: with any number of inner iterations, with boundary values updated at once or after the sweep, with or without acceleration, with any least number of iterations, and with any number of threads and interleaving.",
 ["schedules","inputs","configurations"],
 "all MoC and Sn eigenvalue problems that converge, all iteration settings, team sizes and interleavings",
 "The suite fixes one way of iterating per problem.",
 ["src/sweepers/moc/moc_sweeper.cpp","src/sweepers/sn/sn_sweeper.cpp","src/sweepers/sn/sn_sweeper_variant.hpp","src/core/boundary_condition.cpp","src/solvers/eigen_solver.cpp","src/solvers/fixed_source_solver.cpp"],
 [("boundary values of one sweep feed the next","BoundaryCondition::update"),("inner iterations with self-scattering updated","MoCSweeper::sweep, SnSweeper::sweep")],
 ["HDF5 output: convergence/k, flux/*, fsr_flux/*"])
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
