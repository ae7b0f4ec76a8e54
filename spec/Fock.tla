--------------------------------- MODULE Fock ---------------------------------
(* The operator algebra on configurations: walks through the Fock space by       *)
(* excitations and ladder operators; every state checks the canonical relations  *)
(* on its configuration.                                                         *)
EXTENDS FockOps
CONSTANTS NORB, TOPS
VARIABLE c
Tops == {<<1>>, <<2, 1>>, <<0, 2>>}
TopsDeep == {<<3>>, <<2, 1>>, <<0, 2, 1>>}
Orb == 0..(NORB - 1)
Init == \E na \in 0..NORB, nb \in 0..NORB, t \in TOPS :
          c = [a |-> 0..(na - 1), b |-> 0..(nb - 1), n |-> [k \in 1..Len(t) |-> 0], top |-> t]
Ea(p, q) == Can(c.a, p, q) /\ c' = [c EXCEPT !.a = Moved(c.a, p, q)]
Eb(p, q) == Can(c.b, p, q) /\ c' = [c EXCEPT !.b = Moved(c.b, p, q)]
Up(k)    == c.n[k] < c.top[k] /\ c' = [c EXCEPT !.n[k] = @ + 1]
Down(k)  == c.n[k] > 0 /\ c' = [c EXCEPT !.n[k] = @ - 1]
Next == \/ \E p, q \in Orb : Ea(p, q) \/ Eb(p, q)
        \/ \E k \in 1..Len(c.n) : Up(k) \/ Down(k)
Spec == Init /\ [][Next]_c
(* particle numbers are conserved, the boson truncation respected                 *)
Conserved == [][/\ Cardinality(c'.a) = Cardinality(c.a) /\ Cardinality(c'.b) = Cardinality(c.b) /\ c'.top = c.top]_c
Inside == \A k \in 1..Len(c.n) : c.n[k] \in 0..c.top[k]
(* E_pq applied to an occupation: <<>> or <<occupation, sign>>                     *)
Act(x, p, q) == IF x = <<>> \/ ~Can(x[1], p, q) THEN <<>> ELSE <<Moved(x[1], p, q), x[2] * Sign(x[1], p, q)>>
Coef(x, o) == IF x # <<>> /\ x[1] = o THEN x[2] ELSE 0
Adjoint == \A p, q \in Orb : Can(c.a, p, q) => /\ Can(Moved(c.a, p, q), q, p) /\ Moved(Moved(c.a, p, q), q, p) = c.a
                                               /\ Sign(Moved(c.a, p, q), q, p) = Sign(c.a, p, q)
(* [E_pq, E_rs] = delta_qr E_ps - delta_ps E_rq                                     *)
Commutator == \A p, q, r, s \in Orb : \A o \in SUBSET Orb :
     Cardinality(o) = Cardinality(c.a) =>
     Coef(Act(Act(<<c.a, 1>>, r, s), p, q), o) - Coef(Act(Act(<<c.a, 1>>, p, q), r, s), o)
       = (IF q = r THEN Coef(Act(<<c.a, 1>>, p, s), o) ELSE 0) - (IF p = s THEN Coef(Act(<<c.a, 1>>, r, q), o) ELSE 0)
(* layout is a bijection                                                            *)
sp == Space(NORB, Cardinality(c.a), Cardinality(c.b), c.top)
Layout == LET cc == [a |-> c.a, b |-> c.b, n |-> c.n] IN Pos(sp, cc) \in 1..Dim(sp) /\ At(sp, Pos(sp, cc)) = cc
(* b b^+ - b^+ b = 1 below the truncation: amplitudes sqrt(n+1)^2 - sqrt(n)^2         *)
Ladder == \A k \in 1..Len(c.n) : Abs(FMul(FSqrt((c.n[k] + 1) * S), FSqrt((c.n[k] + 1) * S)) - FMul(FSqrt(c.n[k] * S), FSqrt(c.n[k] * S)) - S) <= 8
===============================================================================
