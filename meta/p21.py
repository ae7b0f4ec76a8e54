from add import P
P("C21", "Shared building blocks satisfy their definitions",
  "Oscillator trial states in position and momentum space: the gradient is that of the logarithm, the laplacian that of the function, the value the shifted gaussian, the local energy the energy above the zero point (zero at zero shift), for any mass, frequency and shift; shifts are copied. A Fock-space trial has the amplitudes of the (possibly complex) coherent state of every mode with its normalisation, or without amplitudes exp(-N). The zero-field splitting tensor is traceless with the given D and E (or the tensor given), a spin keeps its parameters, has 2s+1 states, and turns a g factor given as number, vector or tensor into the g tensor; tensors count as a number exactly when isotropic. A pivoted Cholesky factor multiplies out to the matrix, has the rank of the matrix with respect to the threshold, gives orthonormal functions, and the zero matrix is refused; the guess a mean field makes from the core Hamiltonian is a determinant of all electrons. A transformed matrix is U^dagger A U. One-body propagation multiplies every walker, the exponential is the Taylor series of its own operator, the sign between two determinants is that of the permutation. Lorentzian and Gaussian line shapes are their formulas, a negative width gives -1. Floating arrays of the numpy backend have the precision selected last, integers, complex numbers and values are kept, a backend that is not available is refused and nothing changes.",
  ["inputs", "history"], "all integer parameters, matrices, determinants and histories of backend selections",
  "No test calls most of these; identities between value, gradient and laplacian, or a factor and its matrix, must hold for every input.",
  ["openms/qmc/trial_boson.py", "openms/qmc/trial.py", "openms/qmc/propagators.py", "openms/spindy/spin.py", "openms/lib/mathlib.py", "openms/lib/misc.py", "openms/lib/backend.py", "openms/mqed/scqedhf.py"],
  [("TrialQ, TrialP, TrivialFock, coherent_state_coeff", "openms/qmc/trial_boson.py"), ("permutation_sign", "openms/qmc/trial.py"),
   ("propagate_onebody, propagate_exp_op", "openms/qmc/propagators.py"), ("zfs_tensor, check_gfactor, Spin", "openms/spindy/spin.py"),
   ("full_cholesky_decomposition, full_cholesky_orth, unitary_transform", "openms/lib/mathlib.py"), ("gaussian1d, Lorentz1d", "openms/lib/misc.py"),
   ("set_backend, NumpyBackend", "openms/lib/backend.py"), ("init_guess_by_1e, get_cholesky", "openms/mqed/scqedhf.py")],
  [], ["returned values", "attributes of the objects", "precision of arrays"],
  "TLA+ specification of every block in exact integer arithmetic (Block: discrete-derivative identities, ladder relation of coherent states, rank by minors against pivoted elimination, inversions against moves, group law of transformations, the backend as a state machine), model-checked over all small inputs; the enumerated cases and random larger ones are run on the code and every answer is judged by TLC",
  "Model: 31k states quick, deeper bounds thorough. Code: about 1.9k recorded events (15k thorough).")
