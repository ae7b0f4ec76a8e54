from add import P
P("C20", "Watching a run does not change it, and messages reach whom they are meant for",
  "For every verbosity a calculation (QED-HF, SC- and VT-QED-HF, AFQMC, full CI, Cholesky decomposition, statistics) returns the same results, and an object with verbosity zero writes nothing to its log. A message is written to the log of the object it concerns exactly when the object's verbosity admits its level (log and error from 1, warn 2, note 3, info 4, debug 5, debug1 to debug4 6 to 9), once, in order, with its arguments filled in and warnings and errors labelled; logging a message of any kind completes at any verbosity; errors reach the error stream at every verbosity, warnings too unless the log is the console. On parallel ranks other than the first the package loads, calculations run, and nothing is written to logs or printed. The Logger class shows, on its console or appended to its file, the messages its level admits and refuses unknown levels with a ValueError. The deprecated and wall_time wrappers hand arguments, results and exceptions through. In a serial program the built-in communicator is rank 0 of 1 and every collective (on plain buffers, [buffer, counts, displacements, type], or numbers) gives back, independently, what was contributed; a message sent to oneself is the one received.",
  ["history", "inputs", "schedule"], "all histories of messages, verbosities, ranks and contributions",
  "Tests run at one verbosity on one rank and never log an error; whether watching changes a result, or another rank can start, needs comparing runs and ranks.",
  ["openms/lib/logger.py", "openms/__mpi__.py", "openms/lib/misc.py"],
  [("log, error, warn, info, note, debug1-4, stdout, Logger", "openms/lib/logger.py"), ("FakeComm, configure_print_for_mpi, MPIWrapper", "openms/__mpi__.py"),
   ("deprecated, wall_time", "openms/lib/misc.py")],
  [], ["streams written", "results at every verbosity", "returned buffers"],
  "TLA+ model of a calculation that logs as it goes, run twice at different verbosities (self-composition: same results, more verbosity only adds lines), of ranks and streams, and of the collectives on n ranks with n = 1 as instance (Report); every history the model enumerates, longer random ones, other ranks in their own processes, collectives, wrappers and whole calculations at each verbosity are run on the code and judged by TLC",
  "Model: 5.3k states quick, 58k thorough. Code: about 4.2k recorded events (40k thorough), 11 calculations at 7 (11) verbosities, 2 other ranks.")
