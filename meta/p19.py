from add import P
P("C19", "Dynamics keeps earlier output, integrates as prescribed and describes its molecules faithfully",
  "Whatever the history of runs in an output directory - fresh starts, appended restarts, refused requests, with or without logs, in one process or several, one trajectory or many - a fresh run begins with an empty md directory (and log directory, if asked for) and every file an earlier run wrote is still there, set aside; an appended run keeps the files in place and needs an existing md directory; an unknown restart option is refused and changes nothing; the returned paths are those of the run. The velocity update is half a kick with the force and mass of each atom of the chosen state, the position update a drift, for every molecule of the list, and both leave masses and forces alone; the kinetic energy and temperature are those of all molecules; rk4 is the classical fourth-order Runge-Kutta increment and does not change its argument. A molecule starts with the coordinates, velocities (given, or at rest), isotope masses and number of states asked for; reset_bo clears exactly what is to be recomputed; FINAL.xyz holds the positions and velocities.",
  ["history", "inputs"], "all histories of runs and inputs",
  "No test covers the dynamics module; directory handling depends on what earlier runs left, which no single run shows.",
  ["openms/qmd/bomd.py", "openms/qmd/propagator.py", "openms/lib/misc.py"],
  [("BaseMD.initialize, next_position, next_velocity_many_molecule, temperature_many_molecule, write_final_xyz", "openms/qmd/bomd.py"),
   ("rk4", "openms/qmd/propagator.py"), ("Molecule, typewriter", "openms/lib/misc.py")],
  [], ["directory contents after every run", "positions, velocities, returned energies"],
  "TLA+ state machine of output directories over histories of runs and of the integrators (Md, MdInt: TLC checks that no file is ever lost, that refused requests change nothing, that the Verlet step is reversible and Runge-Kutta exact to fourth order); every enumerated history and longer random ones, split over processes, are executed in scratch directories, and integrator runs with integer data; TLC replays and judges every recorded step",
  "Model: 104k states (more in thorough). Code: 290 (2.9k) directory histories, 80 (800) dynamics runs, 150 (1.5k) Runge-Kutta steps, 67 molecules and outputs.")
