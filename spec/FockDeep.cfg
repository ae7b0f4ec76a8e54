SPECIFICATION Spec
CONSTANT NORB = 4
CONSTANT TOPS <- TopsDeep
INVARIANTS Inside Adjoint Commutator Layout Ladder
PROPERTY Conserved
