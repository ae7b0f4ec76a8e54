------------------------------ MODULE SessionOps ------------------------------
(* A session: a program that uses several parts of the library one after the    *)
(* other on the same inputs, with more than one simulation object alive.        *)
(*                                                                              *)
(* The world outside a call is the caller's inputs, the process-wide random     *)
(* stream and the library's own settings.  A call may disturb the random stream *)
(* (after which seeded calculations restart theirs); it leaves the inputs and   *)
(* the settings alone, and what it returns is a function of what it was given.  *)
EXTENDS Arith, TLC
Ok(a, b, tol) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : a[i] # NOTINT /\ b[i] # NOTINT /\ Abs(a[i] - b[i]) <= tol
(* clauses an event breaks: `first` maps a kind of call to what it returns when *)
(* nothing else was done in the process                                         *)
Broken(first, ev) ==
  (IF ev.status # "ok" THEN {"a calculation fails after another one was made in the same process: " \o ev.key} ELSE {}) \cup
  (IF ev.inputs # ev.inputs0 THEN {"a call changed the caller's inputs: " \o ev.key \o " " \o ev.changed} ELSE {}) \cup
  (IF ev.status = "ok" /\ Len(ev.result) > 0 /\ ~Ok(ev.result, first[ev.key], ev.tol)
   THEN {"the same call returns something else after other calls: " \o ev.key} ELSE {})
===============================================================================
