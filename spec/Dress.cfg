SPECIFICATION Spec
CONSTANT Grid = {0, 2500, 10000}
INVARIANTS Untransformed Full Renorm Common
