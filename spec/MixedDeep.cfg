SPECIFICATION Spec
CONSTANTS NAO = 4 NO = 2 Ents = {0, 1} Mixes = {3}
INVARIANTS Wick1 Wick2 ColMix Basis
