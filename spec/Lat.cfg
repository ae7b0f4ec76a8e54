SPECIFICATION Spec
CONSTANTS
  Ls = {2}
  Us = {3}
  CVals = {0, 2}
INVARIANT Bonds
INVARIANT Anti
INVARIANT Reference
INVARIANT PhononMin
