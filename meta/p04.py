from add import P
P("C04", "A run on several ranks is the run on one rank",
  "Walkers are split over the ranks without loss or overlap, each rank knowing its own and the others' share. Given the same random fields, a run of the AFQMC driver on any number of ranks gives on every rank the same energies, energy components, energy shift and norms as the run of the whole ensemble on one rank, and the same walker weights, with and without bosons and in both spin formulations. Every rank's random stream is determined by the run's seed and differs from the other ranks'.",
  ["inputs", "schedules", "configurations"], "all walker and rank counts with at least one walker per rank, all seeds, all measurement, control and orthonormalisation intervals, restricted/unrestricted, electronic and electron-boson",
  "There is no MPI in the test environment; the only multi-rank test prints numbers and asserts nothing about energies.",
  ["openms/qmc/generic_walkers.py", "openms/qmc/propagators.py", "openms/qmc/qmc.py", "openms/__mpi__.py"],
  [("partition of walkers", "openms/qmc/generic_walkers.py"), ("allreduce in local_energy / property_stack / weight_control / update_GF", "openms/qmc/propagators.py")],
  [("walker_counter, displs, nwalkers", "the partition", "openms/qmc/generic_walkers.py"), ("eshift, energies", "ensemble averages", "openms/qmc/qmc.py")],
  ["AFQMC.kernel returns on every rank"],
  "TLA+ specification of the distributed run (RankRun) model-checked with TLC over all interleavings; the real driver run on simulated ranks and its results judged by TLC against the specification",
  "Model: up to 4 walkers on 3 ranks (6 on 4 in thorough). Code: partitions up to 7 (13) ranks, 40 (400) whole runs on 2-3 ranks compared with one rank, seeds. Ranks are simulated by an in-process communicator.")
P("C05", "The AFQMC driver keeps its schedule and books",
  "A run takes total_time/dt steps. Walkers are orthonormalised before the first step and every renorm_freq steps; every step is propagated with the current energy shift; weights are controlled every pop_control_freq steps with the method the user chose; every property_calc_freq steps, after weight control, one energy is measured and reported once, at the time of its step, as weighted energy over weight; and the energy shift then becomes the weighted mean of the hybrid energies over exactly the steps since the previous measurement. Both entry points (the method and the stand-alone kernel) do this.",
  ["schedules", "histories", "configurations"], "all combinations of the three intervals and of the run length (divisible or not), all control methods, all histories of weights and energies",
  "The tests run with one set of intervals and look at a final mean energy with a loose tolerance.",
  ["openms/qmc/qmc.py", "openms/qmc/generic_walkers.py"],
  [("QMCbase.kernel and module-level kernel", "openms/qmc/qmc.py"), ("property_stack", "openms/qmc/qmc.py")],
  [("property_buffer, eshift", "window accumulator and shift", "openms/qmc/qmc.py"), ("time_list, energy_list", "the reported series", "openms/qmc/qmc.py")],
  ["calls into the propagator", "kernel returns"],
  "TLA+ specification of the driver (Driver) model-checked with TLC; recorded histories of the real driver around a scripted propagator judged step by step by TLC",
  "Model: all interval combinations in 1..3, 4 steps (7 in thorough). Code: 150 (1500) runs with random intervals, lengths, methods and scripts through both entry points.")
