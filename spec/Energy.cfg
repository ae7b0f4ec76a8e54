SPECIFICATION Spec
CONSTANTS Dmax = 2  Cs = FALSE  Dse = TRUE  MaxLen = 3
INVARIANTS FockIsGradient CoherentIsBest ModeOrder DarkMode
