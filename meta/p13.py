from add import P
P("C13", "Lattice models: matrices, integrals, mean field and blocks of the Hubbard and Hubbard-Holstein chains and of aggregates",
  "For every chain length, boundary condition, repulsion, phonon frequency and coupling (site and bond), filling (fully polarised included) and set of orbitals, the quantities of Hubbard1D and HHModel are those of one Hamiltonian: hopping between neighbours only, the closing bond only for a periodic chain; repulsion on site between opposite spins; Fock matrix with the other spin's density; energy = expectation value with every interaction counted once, lowered by the phonon displacement of the density; spin-orbital and per-spin Fock, coupling and integral blocks (9 antisymmetrised, 16 mixed-spin) hold exactly their occupied/virtual entries, antisymmetrised integrals vanish between equal spins; couplings and their mean fields vanish or not with the shift. Orbitals found by the model solve its mean field. Unknown boundary conditions are refused. The disordered aggregate's states solve its chain, in order of energy, dipole strengths add up to the number of sites, and spectra use the requested states.",
  ["inputs", "configurations"], "all chain lengths, parameters, fillings, orbitals",
  "There are no tests of the models at all.",
  ["openms/models/hubbard.py", "openms/models/hh_model.py", "openms/models/aggregates.py"],
  [("Hubbard1D", "openms/models/hubbard.py"), ("HHModel, get_mo", "openms/models/hh_model.py"), ("DMA, linear_spec, tdes", "openms/models/aggregates.py")],
  [("HHModel", "ca, cb, pa, pb, gmat, xi, const", "openms/models/hh_model.py")],
  ["returned matrices, blocks, energies, spectra"],
  "TLA+ specification of the chains (Lat: TLC checks on enumerated chains and integer orbitals the bonds, antisymmetry, that the reference energy rebuilt from Fock matrix and integrals is the mean-field energy, and that the phonon shift is the minimum); the same operators compute every entry the real objects return for integer orbitals, and judge relations recorded for orbitals the code finds",
  "Model: 273 (8.5k) systems. Code: 24 (160) Hubbard and 24 (160) Holstein chains of 2-4 sites, 8 (40) self-consistent chains of up to 6 sites, 8 (40) aggregates.")
