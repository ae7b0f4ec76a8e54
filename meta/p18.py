from add import P
P("C18", "Error estimates of a run are statistically sound for every series",
  "For every series of energies - correlated, anticorrelated, constant, with spikes, of any length from two - the analysis tools give an answer and it is the right one: get_mean_std is mean and deviation of the real part of the last N-th; the autocorrelation is that of the deviations at every lag, one at lag zero and (for a constant series) zero elsewhere; the integrated time is summed to the first lag reaching c times it; only points beyond the threshold (standard deviations or interquartile ranges) are removed, in order, never all of them; analysis_autocorr averages blocks as long as the autocorrelation time (at least one sample), as many as fit, and its error is that of independent blocks. The series passed in is not changed.",
  ["inputs"], "all series",
  "Tests call get_mean_std on runs; the error analysis is exercised by one run of an MPI test.",
  ["openms/qmc/tools.py"],
  [("get_mean_std, autocorr_func, auto_window, get_autocorr_time, remove_outliers, analysis_autocorr", "openms/qmc/tools.py")],
  [], ["returned statistics"],
  "TLA+ specification of exact integer statistics (Stat: TLC checks on every short series that the autocorrelation is bounded, cancels over all lags, is invariant under shift, scaling and reversal, and that a window, a block of valid length and remaining points always exist); the enumerated and random longer series are analysed by the real functions and TLC judges the results exactly",
  "Model: 364 (3.3k) series. Code: 320 (1900) series of up to 32 points x 6 functions.")
