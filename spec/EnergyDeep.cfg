SPECIFICATION Spec
CONSTANTS Dmax = 4  Cs = FALSE  Dse = TRUE  MaxLen = 6
INVARIANTS FockIsGradient CoherentIsBest ModeOrder DarkMode
