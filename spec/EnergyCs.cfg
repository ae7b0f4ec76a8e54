SPECIFICATION Spec
CONSTANTS Dmax = 2  Cs = TRUE  Dse = FALSE  MaxLen = 3
INVARIANTS FockIsGradient CoherentIsBest ModeOrder DarkMode
