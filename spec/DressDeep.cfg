SPECIFICATION Spec
CONSTANT Grid = {0, 1000, 2500, 6000, 10000}
INVARIANTS Untransformed Full Renorm Common
