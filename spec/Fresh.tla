------------------------------- MODULE Fresh -------------------------------
(* Values that must never come again: a draw is acceptable if its values      *)
(* differ from each other and from everything drawn before.                   *)
EXTENDS Naturals, Sequences, FiniteSets
Vals(q) == {q[i] : i \in 1..Len(q)}
Distinct(q) == Cardinality(Vals(q)) = Len(q)
New(q, seen) == Distinct(q) /\ Vals(q) \cap seen = {}
=============================================================================
