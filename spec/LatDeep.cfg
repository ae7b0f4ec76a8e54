SPECIFICATION Spec
CONSTANTS
  Ls = {2, 3}
  Us = {2}
  CVals = {1, 3}
INVARIANT Bonds
INVARIANT Anti
INVARIANT Reference
INVARIANT PhononMin
