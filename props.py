#!/usr/bin/env python3
"""Source of properties.jsonl; gen_manifest.py writes the ones that are checked or listed as not applicable."""
I = "include/qlpeps/"
V = I + "algorithm/vmc_update/"
O = I + "optimizer/"
def P(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}; a.update(kw)
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
PROPS = [
P("P01", "A Monte-Carlo evaluation reports exactly the averages of the samples drawn",
  "For the bosonic spin models, one Monte-Carlo evaluation of energy and gradient on any number of ranks uses ceil(N/ranks) samples per rank, each taken after the configured number of sweeps that continue the rank's walker, with the exact amplitude, local energy and log-derivative of the configuration it visited, all of the state passed by the master. "
  "The returned energy (identical on every rank), its error (master), the gradient, its norm, the mean log-derivative, the acceptance rates and the per-sample buffers equal the documented averages over exactly those samples. "
  "This holds for every message order, reduction order and timing of the ranks, for consecutive evaluations of different states, and when the argument aliases the state held by the engine.",
  ["schedules", "inputs", "histories"], "every rank count, sample count not divisible by the ranks, sweep count, random stream, interleaving, model coupling and sequence of states",
  "The existing tests that pass here never run this code (they cover a handful of headers); an MPI unit test sees one layout and one schedule and cannot compare against a brute-force reference for every sample.",
  [V + "mc_energy_grad_evaluator.h", V + "monte_carlo_engine.h", I + "two_dim_tn/tensor_network_2d/", I + "algorithm/vmc_update/model_solvers/"],
  [("sampling and averaging", V + "mc_energy_grad_evaluator.h Evaluate/EvaluateEnergyOnly"), ("state broadcast", V + "monte_carlo_engine.h UpdateState"), ("local energies and derivatives", V + "model_solvers/")]),
P("P02", "Exact summation equals brute force on every rank layout",
  "For the bosonic spin models, exact-summation energy, gradient and observable evaluation over a list of configurations equals the |amplitude|^2-weighted brute-force sums. "
  "The result does not depend on the number of ranks (including more ranks than configurations), on their interleaving or on which rank evaluates which configuration.",
  ["schedules", "inputs", "configurations"], "every rank count, configuration list, model coupling, boundary condition and interleaving",
  "Unit tests check a few energies of one model on one or two ranks; observables, gradients and odd layouts are not covered by a test that runs here.",
  [V + "exact_summation_energy_evaluator.h", V + "exact_summation_measurer.h", V + "model_solvers/"],
  [("distribution over ranks and reduction", V + "exact_summation_energy_evaluator.h"), ("observables", V + "exact_summation_measurer.h")]),
P("P08", "A state saved on disk loads exactly or not at all, also after a crash",
  "Whatever is left in the directory of a split-index state, a TPS or a PEPS when a job is killed at any point while saving (into a new directory or over an older state), or when a file is later lost or cut short, a later load either refuses or yields, bit for bit, a state whose save was started there, never a mixture. "
  "A save that completed loads back bit for bit, including shape, physical dimension and boundary condition.",
  ["crash_points", "fault_sequences", "inputs"], "every file operation of a save as crash point, short reads and writes, every file lost or truncated, repeated saves over older states of the same or another shape",
  "Tests save and load once on a healthy disk; no test kills the writer or damages a file.",
  [I + "two_dim_tn/tps/split_index_tps_impl.h", I + "two_dim_tn/tps/tps_impl.h", I + "two_dim_tn/framework/ten_matrix.h"],
  [("directory format, metadata written last", I + "two_dim_tn/tps/split_index_tps_impl.h Dump/Load")]),
P("P11", "States and configurations travel between ranks bit for bit",
  "Broadcasting, sending and receiving wave functions and configurations delivers exactly the sender's value (shape, boundary condition, every tensor element) whatever the receiving object held before, and finishes on every rank. "
  "It holds for blocking and buffered sends, any arrival order, any root and any sub-communicator.",
  ["schedules", "inputs"], "every rank count, root, send mode, delivery order and prior content of the receiver",
  "Tests broadcast one state on two ranks under the real MPI library, which buffers small messages; rendezvous deadlocks and stale receivers do not show.",
  [I + "two_dim_tn/tps/split_index_tps.h", I + "vmc_basic/configuration.h"],
  [("state transfer", I + "two_dim_tn/tps/split_index_tps.h MPI_Bcast/MPI_Send/MPI_Recv"), ("configuration transfer", I + "vmc_basic/configuration.h")]),
P("P12", "Cross-rank statistics equal the statistics of the pooled data",
  "Means, standard errors, binned statistics and gathered lists computed over ranks equal the same statistics of the pooled data computed sequentially, also when ranks hold different amounts of data, equal values or values that differ only in the last bits. "
  "A standard error is never NaN for finite data, and the result does not depend on rank count layout, message order or interleaving.",
  ["schedules", "inputs"], "every rank count, split of the data over ranks, value pattern and interleaving",
  "Unit tests feed a few well-spread numbers on one rank; cancellation and uneven distribution over ranks do not occur in them.",
  [I + "vmc_basic/monte_carlo_tools/statistics.h", I + "vmc_basic/statistics/bin_statistics.h"],
  [("gather and error formulas", I + "vmc_basic/monte_carlo_tools/statistics.h")]),
P("P15", "A measurement job reports exactly the averages of what its ranks sampled",
  "For the bosonic spin models, a Monte-Carlo measurement on any number of ranks takes ceil(N/ranks) samples per rank, each after the configured sweeps, evaluates every observable of each sample exactly, and reports for every observable the mean over ranks of the rank means with the error from their spread. "
  "The result files (statistics, per-sample amplitude and particle-number files, metadata, final configurations) repeat exactly these numbers. "
  "Neither interleaving, nor the order in which a solver hands over its observables, nor files left by an earlier job changes the result.",
  ["schedules", "inputs", "histories"], "every rank count, sample count, random stream, solver, output layout and interleaving, and repeated jobs into the same directory",
  "No test that runs here executes a measurement; an MPI test sees one layout and cannot compare every sample with brute force.",
  [V + "monte_carlo_peps_measurer.h", V + "monte_carlo_peps_measurer_impl.h", V + "model_solvers/", I + "api/vmc_api.h"],
  [("sampling and gathering", V + "monte_carlo_peps_measurer_impl.h Measure_/GatherStatistic_"), ("result files", V + "monte_carlo_peps_measurer_impl.h DumpData")]),
P("P09", "A save or job that reports success on a failing disk has written everything",
  "When opening, writing, flushing or closing a file or creating a directory fails at any point (error, full disk, short write), saving a state, a configuration, a measurement or an optimisation job either reports the failure (exception, abort, false) or has left every result file complete and correct. "
  "It never returns normally with a result missing, truncated or wrong, and directory creation raced by several ranks succeeds on all of them.",
  ["fault_sequences", "schedules"], "every file operation failing in every way, alone and in combination, in every save entry point and on every rank",
  "Tests run on a healthy disk; no test makes an open, write, close or mkdir fail.",
  [I + "two_dim_tn/tps/split_index_tps_impl.h", I + "two_dim_tn/tps/tps_impl.h", I + "vmc_basic/configuration.h", V + "monte_carlo_peps_measurer_impl.h", V + "vmc_peps_optimizer_impl.h", I + "optimizer/optimizer_impl.h", I + "utility/filesystem_utils.h"],
  [("state files", I + "two_dim_tn/tps/split_index_tps_impl.h Dump"), ("measurement files", V + "monte_carlo_peps_measurer_impl.h DumpData"), ("checkpoints", I + "optimizer/optimizer_impl.h checkpoint writing")]),
P("P10", "Configurations dumped by a job resume it exactly, or the load is refused",
  "The configurations that a job dumps for its ranks load back exactly on the same rank numbers, directly and (the file of rank 0) through the simulation parameters, and mark the walker as warmed up. "
  "A file that is missing, truncated by a crash at any point of the dump, of another lattice size, longer than the lattice or holding garbage is refused (false, or an exception when loading through the parameters) and leaves the caller's configuration unchanged.",
  ["crash_points", "inputs", "histories"], "every rank count, lattice size, crash point during the dump, file damage and sequence of dump and load",
  "Tests round-trip one configuration on a healthy disk and never interrupt the writer or damage the file.",
  [I + "vmc_basic/configuration.h", V + "monte_carlo_peps_params.h"],
  [("dump and load", I + "vmc_basic/configuration.h"), ("resume", V + "monte_carlo_peps_params.h MonteCarloParams")]),
P("P06", "Sampling spikes are handled by the documented policy, within bounded work",
  "When the energy error, gradient norm, natural-gradient norm or energy of an iteration spikes relative to the moving averages of the accepted iterations, the optimiser resamples, rolls back to the previous accepted state or accepts with a warning exactly as documented (thresholds, retry budget, priority), on all ranks together. "
  "Rejected evaluations leave no trace in averages, trajectories or update history (a rollback restores the wave function, not the accumulators of Adam or momentum), every event is logged once, and every iteration is accepted after a bounded number of evaluations whatever the evaluator returns.",
  ["histories", "fault_sequences", "schedules"], "every sequence of normal and spiking evaluations, every algorithm, every policy setting, any rank count and repeated optimisations with one optimiser object",
  "The repository's recovery tests script one spike; persistent spikes, exhausted retries, chained rollbacks and combinations of signals are histories no test samples.",
  [O + "optimizer_impl.h", O + "spike_detection.h"],
  [("detection and decision", O + "optimizer_impl.h DetectS1S2_/DetectS3_/DetectS4_/DecideAction_"), ("moving averages", O + "spike_detection.h EMATracker")]),
P("P07", "An optimisation reports the trajectory, best and final state that occurred",
  "Trajectories, lowest energy and lowest state, final energy and state, convergence flag, callbacks, JSONL log, trajectory files and checkpoints agree with the sequence of accepted iterations, under every stopping reason (iteration limit, energy or gradient tolerance, plateau, user callback) and after recovered spikes. "
  "The lowest state is the very state whose energy is the reported minimum, the last accepted energy is never missing, a checkpoint of step k holds the state after step k and is complete on disk before any rank returns, and all ranks of a job end with the same states.",
  ["histories", "schedules", "inputs"], "every energy history including ties, spikes and early stops, every algorithm, checkpoint interval, rank count and interleaving",
  "Tests look at the final energy of a converging run; bookkeeping errors that need ties, early stops or a rollback stay invisible.",
  [O + "optimizer_impl.h", V + "vmc_peps_optimizer_impl.h"],
  [("accept path", O + "optimizer_impl.h IterativeOptimize"), ("job results", V + "vmc_peps_optimizer_impl.h Execute/DumpData")]),
P("P17", "Every optimiser follows its documented update rule step by step",
  "For any sequence of gradients, SGD with and without momentum, Nesterov and weight decay, AdaGrad, Adam and L-BFGS produce exactly the sequence of states of their documented formulas, whether the settings were made directly, with the builder in any order or with the factory (a strong-Wolfe step of L-BFGS lies on its direction, satisfies both conditions within the allowed evaluations, or falls back or fails as configured), with gradient clipping, learning-rate schedules and the initial and periodic step selectors applied as documented. "
  "Results depend neither on the number of ranks nor on an earlier optimisation done with the same object, a copied schedule continues like the original, invalid parameters are refused on all ranks, and step selectors fail on all ranks together when a trial energy is not finite or an error bar is missing.",
  ["histories", "inputs", "schedules"], "every gradient history, hyper-parameter, schedule, selector setting and rank count, and repeated runs of one object",
  "Tests check that a few optimisers lower the energy; a wrong bias correction, a stale accumulator or a mis-scheduled rate still lowers it.",
  [O + "optimizer_impl.h", O + "optimizer_params.h", O + "lr_schedulers.h", I + "two_dim_tn/tps/split_index_tps_impl.h"],
  [("update rules", O + "optimizer_impl.h SGDUpdate/AdaGradUpdate/AdamUpdate/ComputeLBFGSSearchDirection_"), ("schedules", O + "lr_schedulers.h"), ("step selectors", O + "optimizer_impl.h IterativeOptimize")]),
P("P13", "Distributed conjugate gradients end on all ranks and report what they solved",
  "Solving A x = b with A given as a sum of per-rank operators ends on every rank for every matrix, right-hand side, start and setting, leaves no message behind, and the master's result is truthful: converged means the residual of the returned solution meets the tolerance, otherwise the reason is right and the best iterate, never worse than the start, is returned with its own residual. "
  "A well-conditioned self-adjoint positive system of any scale, real or complex, converges to the solution within the iteration bound of conjugate gradients, whatever the order in which the ranks answer; the serial solver obeys the same contract.",
  ["inputs", "schedules", "histories"], "every definite, indefinite, singular or non-finite matrix and its split over ranks, every tolerance and iteration limit, every arrival order, consecutive solves on one communicator",
  "Tests solve a few well-scaled systems; early exits, large scales, complex round-off and answer orders that a slave deadlock or a wrong claim needs are not sampled.",
  [I + "utility/conjugate_gradient_solver.h"],
  [("master and slave loops", I + "utility/conjugate_gradient_solver.h ConjugateGradientSolverMaster/Slave"), ("distributed product", I + "utility/conjugate_gradient_solver.h MatrixMultiplyVectorMaster/Slave")]),
P("P14", "Natural-gradient updates depend on the sample set, not on its layout",
  "The SR and MinSR updates computed from samples spread over any number of ranks equal those of the whole sample set: the distributed S matrix, the sample-overlap matrix, the pseudo-inverse with hard and soft cutoffs (replicated solver, and the distributed ScaLAPACK solver where it is compiled in), the direction, its norm and the updated state. "
  "They do not depend on message order, on components missing from sparse samples or on repeated samples, and a solve that cannot be done (indefinite matrix, non-finite sample, missing ScaLAPACK) fails on all ranks together.",
  ["inputs", "schedules"], "every sample set, every rank count dividing it, every interleaving of the ring exchange and the conjugate-gradient products",
  "Tests run one rank count; layout-dependent centring, ring-exchange offsets or an unbalanced failure need several layouts of the same data.",
  [O + "optimizer_impl.h", O + "stochastic_reconfiguration_smatrix.h", O + "minsr_tmatrix.h", O + "minsr_eigensolve.h"],
  [("SR", O + "optimizer_impl.h CalculateNaturalGradient"), ("MinSR", O + "optimizer_impl.h CalculateMinSRDirection_"), ("S and T matrices", O + "stochastic_reconfiguration_smatrix.h, " + O + "minsr_tmatrix.h")]),
P("P03", "Monte-Carlo walkers stay coherent, in their sector, and sample |psi|^2",
  "After any number of sweeps of any bosonic updater (nearest-neighbour exchange and full-space on open and periodic lattices, Hubbard U(1)xU(1), three-site exchange), the cached amplitude and the projected network are those of the walker's configuration, the conserved counts are unchanged, and no configuration of zero weight is entered. "
  "|psi|^2 is stationary under a sweep, also for states with nodes, degenerate or vanishing amplitudes; for positive states a chain visits the sector according to |psi|^2; walkers on different ranks follow independent random streams.",
  ["inputs", "schedules", "histories"], "every state, lattice of at least 2x2, starting configuration, random stream and number of sweeps",
  "Tests see a few energies from one random stream; a biased acceptance or a stale cache moves them within error bars, and balance has to hold for every set of weights including ties.",
  [I + "vmc_basic/configuration_update_strategies/", I + "vmc_basic/monte_carlo_tools/suwa_todo_update.h", I + "vmc_basic/wave_function_component.h", I + "two_dim_tn/tensor_network_2d/"],
  [("updaters", I + "vmc_basic/configuration_update_strategies/square_nn_updater.h, square_3site_updater.h, square_hubbard_u1u1_updater.h"), ("balance condition", I + "vmc_basic/monte_carlo_tools/suwa_todo_update.h"), ("caches", I + "vmc_basic/wave_function_component.h UpdateLocal/AcceptTrial")]),
P("P16", "Walkers start valid, warm up when required and share one normalised state",
  "When the Monte-Carlo engine starts on any number of ranks, a rank with a usable start configuration keeps it. A rank whose start amplitude is zero, not finite or outside the configured limits takes the configuration of the lowest valid rank and is warmed up again even if it was marked warmed; with rescue disabled or no valid rank the job aborts on all ranks. "
  "Warm-up does exactly the configured sweeps on the ranks that need them and none elsewhere, and never twice. After start-up and after warm-up all ranks hold the same positive multiple of the given state, scaled so that the largest walker amplitude is 1, with cached amplitudes that match; a state, contractor and truncation parameters that do not fit are refused on every rank. Random start configurations have exactly the requested occupation and are drawn independently on every rank; an occupation that does not match the number of sites is refused.",
  ["schedules", "inputs", "configurations"], "every rank count, mixture of valid and invalid start configurations, warm-up flag per rank, amplitude limits, scale of the state and arrival order",
  "A mixture of valid and invalid ranks needs several MPI processes and a state with nodes; no test that runs here starts the engine.",
  [I + "algorithm/vmc_update/monte_carlo_engine.h", I + "algorithm/vmc_update/psi_consistency.h", I + "vmc_basic/wave_function_component.h"],
  [("rescue", I + "algorithm/vmc_update/monte_carlo_engine.h EnsureConfigurationValidity"), ("warm-up", I + "algorithm/vmc_update/monte_carlo_engine.h WarmUp"), ("normalisation", I + "algorithm/vmc_update/monte_carlo_engine.h NormalizeStateOrder1"), ("refusals", I + "algorithm/vmc_update/monte_carlo_engine.h SelectTruncateParams_, ValidateBoundaryCondition_"), ("random starts", I + "vmc_basic/configuration.h Random")]),
P("P05", "A signalled measurement stops on all ranks together with consistent results",
  "When any rank of a measurement job receives SIGINT or SIGTERM at any moment after the measurer was constructed, the job ends normally on all ranks: every rank has taken the same number of samples, the signalled rank at most completes the sample it is working on, and results, error bars, acceptance rate, sample files, metadata and configuration dumps describe exactly the samples taken (none, if stopped before the first). "
  "Without a signal all samples are taken; after MPISignalGuard::Reset on all ranks the next job runs in full.",
  ["schedules", "crash_points", "histories"], "every rank count, signalled rank, number of signals, moment of delivery and interleaving",
  "The moment of delivery relative to the collective stop check decides whether ranks disagree about stopping; a test cannot place it.",
  [I + "base/mpi_signal_guard.h", I + "algorithm/vmc_update/monte_carlo_peps_measurer_impl.h"],
  [("stop request", I + "base/mpi_signal_guard.h EmergencyStopRequested, Register, Reset"), ("sampling loop", I + "algorithm/vmc_update/monte_carlo_peps_measurer_impl.h Measure_"), ("results", I + "algorithm/vmc_update/monte_carlo_peps_measurer_impl.h DumpData, DumpMetadata_")]),
P("P04", "An optimisation job ends on all ranks with results that agree with its samples",
  "A variational optimisation job with any algorithm (SGD, momentum, Nesterov, Adam, AdaGrad, SR, MinSR, L-BFGS), with or without step selectors, on any number of ranks and started in memory or from disk, ends on all ranks. All ranks return the same final and lowest state; every iteration makes one gradient evaluation of one common state, and the reported energy and error are those of its samples; the lowest energy and state are those of the trajectory; plain gradient steps move the state along the sampled gradient; the final state is normalised to the walkers; and the files repeat the returned results. "
  "With fixed random streams and fixed reduction order the result does not depend on the interleaving of the ranks (bit for bit, up to round-off for SR).",
  ["schedules", "inputs", "histories"], "every algorithm, rank count, sample count, model coupling, random stream and interleaving",
  "No test that runs here executes an optimisation job; an MPI test would see one interleaving and could not tell a race from Monte-Carlo noise.",
  [I + "algorithm/vmc_update/vmc_peps_optimizer_impl.h", I + "algorithm/vmc_update/mc_energy_grad_evaluator.h", I + "optimizer/optimizer_impl.h", I + "api/vmc_api.h"],
  [("job driver", I + "algorithm/vmc_update/vmc_peps_optimizer_impl.h Execute, DumpData"), ("sampling", I + "algorithm/vmc_update/mc_energy_grad_evaluator.h Evaluate"), ("iteration and selectors", I + "optimizer/optimizer_impl.h IterativeOptimize"), ("entry point", I + "api/vmc_api.h VmcOptimize")]),
P("P18", "Amplitude-consistency diagnostics cover every sample, warnings within budget",
  "For every sample of an evaluation or measurement, on every rank, the mean amplitude and relative error are those of the amplitudes the solver reported for that very sample, after aligning the sign to the largest one. psi.csv holds the master's values, sample after sample. A warning is printed for each sample above the threshold until max_warnings of them were printed on that rank by that executor, "
  "with the leading amplitudes of that sample's list where the list is kept, only on the master when master_only is set, never when disabled; the end of the budget is announced once, and a later executor or the other ranks have a budget of their own.",
  ["inputs", "histories", "schedules"], "every list of amplitudes (signs, phases, zeros, any length), threshold, budget, rank count and sequence of executors",
  "The budget is shared state over samples, evaluations, jobs and ranks; tests look at one summary of one list.",
  [I + "algorithm/vmc_update/psi_consistency.h", I + "algorithm/vmc_update/model_measurement_solver.h", I + "algorithm/vmc_update/model_energy_solver.h"],
  [("summary", I + "algorithm/vmc_update/psi_consistency.h ComputePsiConsistencySummaryAligned"), ("measurement", I + "algorithm/vmc_update/monte_carlo_peps_measurer_impl.h MeasureSample_"), ("evaluation", I + "algorithm/vmc_update/mc_energy_grad_evaluator.h Evaluate")]),
P("P19", "The replica test compares ring neighbours sweep by sweep from one start",
  "A replica test on any number of ranks, with any number of samples, before or after a measurement, starts every walker from the master's configuration. After each sample's sweeps every rank applies the overlap function exactly once to its own configuration and the one its predecessor in the ring reached after the same sweeps. The overlap file of each rank lists these values in order, and the dumped configurations are the final ones. "
  "It ends on all ranks for every message timing, and the walkers can go on measuring from there.",
  ["inputs", "schedules", "histories"], "every rank count, sample count (also below ten), sweep count, message timing and order of tests and measurements",
  "The pairing of sweeps across ranks depends on message matching; the test suite never runs it on several ranks.",
  [I + "algorithm/vmc_update/monte_carlo_peps_measurer_impl.h", I + "vmc_basic/configuration.h"],
  [("replica test", I + "algorithm/vmc_update/monte_carlo_peps_measurer_impl.h ReplicaTest"), ("exchange", I + "vmc_basic/configuration.h MPI_Sendrecv")]),
P("P20", "Simple update applies exactly the model's gates and survives job chains",
  "A simple-update sweep of any supported model (nearest-neighbour with uniform or site-dependent bond and on-site terms, next-nearest-neighbour, triangle terms; real or complex; open lattices) applies exp(-tau h) of every term of the Hamiltonian once, on the right sites in the right orientation: with a sufficient bond dimension the new state is the old one evolved by exp(-tau H), up to normalisation and the Trotter error, and never exceeds the configured bond dimension. Energy estimates of product states are their energies. "
  "A run cut into jobs that save and reload, also when a job is killed while saving, equals the unbroken run; the stopping rule stops exactly after the configured number of converged sweeps and never early; per-sweep metrics, observer calls and the summary describe the sweeps done; and converting the result to a TPS or SplitIndexTPS and sending it to the ranks keeps the state.",
  ["inputs", "histories", "crash_points"], "every model with exchange-symmetric three-site terms, lattice of at least 2x2, state, time step, bond dimension, stopping rule, cut into jobs and kill point while saving",
  "No test that runs here executes a sweep; each term has to land on its own sites for every lattice shape, and the hand-over between jobs depends on what was on disk when the job died.",
  [I + "algorithm/simple_update/", I + "two_dim_tn/peps/"],
  [("gates and sweeps", I + "algorithm/simple_update/square_lattice_nn_simple_update.h, square_lattice_nnn_simple_update.h, triangle_nn_on_sqr_peps_simple_update.h"), ("stopping rule and metrics", I + "algorithm/simple_update/simple_update_impl.h Execute"), ("projections", I + "two_dim_tn/peps/square_lattice_peps_projection_impl.h"), ("saving and loading", I + "two_dim_tn/peps/square_lattice_peps_basic_impl.h Dump, Load")]),
P("P21", "Loop update applies each plaquette gate once and survives job chains",
  "A loop-update projection of one plaquette (open or periodic lattice, real or complex) applies its ring of gate tensors to the four sites in order: with ample bond dimension the new state is the projected one, its reported normalisation factor restores the norm, and the reported overlap is that of the gate in the surrounding bond weights. Truncated projections respect the largest bond dimension and do not end far from the projected state. A sweep applies every plaquette's gate exactly once and sums the energy estimate of the configured gate type. "
  "The stopping rule, per-sweep metrics, observer calls and summary describe the sweeps done, also for a second run of one executor; a run cut into jobs that save and reload, also when killed while saving, equals the unbroken run; gate matrices, lattices, plaquettes and stopping rules that do not fit are refused before anything is changed.",
  ["inputs", "histories", "crash_points"], "every full-rank ring gate close to the identity, lattice of at least 2x2, state, bond dimension, stopping rule, cut into jobs and kill point while saving",
  "The convergence tests are switched off by default and none runs here; orientation of legs and weights has to be right at every boundary and corner.",
  [I + "algorithm/loop_update/", I + "two_dim_tn/peps/square_lattice_peps_projection4_impl.h", I + "two_dim_tn/peps/arnoldi_solver.h"],
  [("plaquette projection", I + "two_dim_tn/peps/square_lattice_peps_projection4_impl.h LocalSquareLoopProject"), ("gauge and truncation", I + "two_dim_tn/peps/square_lattice_peps_projection4_impl.h WeightedTraceGaugeFixing, FullEnvironmentTruncate"), ("sweeps and stopping rule", I + "algorithm/loop_update/loop_update_impl.h Execute, LoopUpdateSweep_"), ("saving", I + "algorithm/loop_update/loop_update.h DumpResult")]),
P("P22", "Contraction caches never go stale, whatever history led to them",
  "After any history of network updates, committed or dropped trials, window shifts, re-initialisations, copies and refused calls, every amplitude, replacement amplitude (one site, pair, triple, diagonal, knight's move, whole rows seen by a walker) and hole tensor that a contractor returns is that of the current network, where truncation is off. "
  "Trials and evaluations change nothing until they are committed; a commit makes the cache that of the network with the replacements; after EraseEnvsAfterUpdate the environments that are kept are still right and can be grown further; copies are independent; calls made too early and trials of another lattice are refused and leave the contractor as it was.",
  ["inputs", "histories"], "every open lattice, torus of a supported side, set of bond dimensions, order of operations and interleaving of several contractors",
  "Stale entries of a cache show up only for particular orders of updates and queries, on particular sites; the existing tests of the contractors need the tensor library and compare single freshly built environments.",
  [I + "two_dim_tn/tensor_network_2d/"],
  [("torus contractor", I + "two_dim_tn/tensor_network_2d/trg/trg_contractor_impl.h Trace, BeginTrialWithReplacement, CommitTrial, PunchAllHoles"), ("boundary MPS and boundary tensors", I + "two_dim_tn/tensor_network_2d/bmps/impl/bmps_contractor_grow.h"), ("replacement amplitudes and invalidation", I + "two_dim_tn/tensor_network_2d/bmps/impl/bmps_contractor_trace.h EraseEnvsAfterUpdate"), ("walkers", I + "two_dim_tn/tensor_network_2d/bmps/impl/bmps_walker.h")]),
P("P91", "Fermionic sign conventions are consistent across all contractions",
  "Amplitudes, local energies and derivatives of fermionic models carry the signs of the documented operator ordering.",
  ["inputs"], "every fermionic model and configuration", "Tests compare a few lattice sizes with exact diagonalisation, and need the tensor library, which is absent here.",
  [V + "model_solvers/"], [("fermionic models", V + "model_solvers/")]),
]
