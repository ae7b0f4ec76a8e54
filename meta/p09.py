from add import P
P("C09", "Cavity modes: set-up, boson states, displacement and coupling matrices",
  "For every well-formed set of cavity modes (one frequency as float, or a list or array of any number of them; any polarisation vectors, couplings, truncations, coherent amplitudes, origin shifts) the mode data mean the same thing: one mode per frequency, polarisation vectors normalised, coupling = gfac or by default the vector's length, bilinear coupling g sqrt(omega/2), self-energy coupling g^2/2, residual coupling 1-f; malformed sets are refused with a ValueError. Each mode depends on its own data only: its Hamiltonian is omega(n cosh 2r + sinh^2 r) + za(b+b^+), after an update it is in its normalised ground state, and boson energy, its squeezing derivative, occupations, boson density matrices and <b+b^+> are the expectation values in that state. Displacement matrix elements are those of displaced Fock states, the two forms agree, and derivatives are their derivatives. Dipole, quadrupole, coupling, self-energy and bilinear matrices are those of the charge-centred (shifted) origin, and symmetric packing is a bijection.",
  ["inputs", "configurations"], "any number of modes with different data, all input forms, all displacements and density matrices",
  "The tests use one mode (or identical ones), one polarisation along z, and compare total energies only.",
  ["openms/lib/boson.py"],
  [("Boson.__init__", "openms/lib/boson.py"), ("update_boson_coeff, get_bosonic_Ham", "openms/lib/boson.py"), ("displacement_matrix, displacement_exp_val, displacement_deriv*", "openms/lib/boson.py"), ("get_dipole_ao, get_quadrupole_ao, get_gmatao, get_q_dot_lambda, get_geb_ao", "openms/lib/boson.py"), ("packed_index, pack_symmetric, unpack_symmetric", "openms/lib/boson.py")],
  [("Photon", "omega, vec, gfac, couplings*, nboson_states, boson_coeff, e_boson, gmat", "openms/lib/boson.py")],
  ["constructor outcome and attributes", "returned matrices"],
  "TLA+ specification of modes (Boson: ladder recursion of displaced Fock states against the closed form and its derivative, packed triangle, checked by TLC); the same operators judge every recorded set-up, update, displacement and matrix of the real code",
  "Model: rows 0-4 (0-5) at 13 (21) displacements. Code: 120 (900) set-ups, 30 (200) state updates, 24 (160) displacements of up to 5 states, 16 (80) molecules/origins/polarisations.")
