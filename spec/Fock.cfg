SPECIFICATION Spec
CONSTANT NORB = 3
CONSTANT TOPS <- Tops
INVARIANTS Inside Adjoint Commutator Layout Ladder
PROPERTY Conserved
