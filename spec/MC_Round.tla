------------------------------ MODULE MC_Round ------------------------------
(* All histories of Round up to a length, written out with the verdicts of    *)
(* their rounds to be replayed into the implementation.                       *)
EXTENDS Round, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, Queries
Qs == {{0}, {3}, {1, 2}, {0, 3}, 0..3}
VARIABLE h
Sorted(Q) == SetToSortSeq(Q, LAMBDA a, b : a < b)
Step(a, b) == [a |-> a, b |-> b, q |-> <<>>, m |-> "", v |-> ""]
Do(step, act) == act /\ h' = Append(h, step)
Init == RInit /\ h = <<>>
Next ==
  /\ Len(h) < MaxLen
  /\ \/ \E v \in Versions \ {org} : Do(Step("new", v), NewOriginal(v))
     \/ \E c \in {0, 1} : Do(Step("seal", c), Seal(c = 1))
     \/ \E b \in Blocks \ bad : Do(Step("alter", b), Alter(b))
     \/ Do(Step("repair", 0), Repair)
     \/ \E Q \in Queries, p \in 0..2 :
          sea.n > 0 /\ com > 0 /\ Do([a |-> "round", b |-> p, q |-> Sorted(Q), m |-> Member(Q), v |-> Verifies(Q)], UNCHANGED rvars)
Spec == Init /\ [][Next]_<<rvars, h>>
(* who kept what was committed passes every round; altering a challenged      *)
(* block fails both ways; sealing anew without committing never goes unseen   *)
Kept == bad = {} /\ com = sea.n /\ sea.n > 0 /\ sea.of = org
Honest == Kept => \A Q \in SUBSET Blocks \ {{}} : Member(Q) = "yes" /\ Verifies(Q) = "yes"
Caught == \A Q \in SUBSET Blocks \ {{}} : (Q \cap bad # {}) => Member(Q) = "no" /\ Verifies(Q) = "no"
Stale == (sea.n > 0 /\ com # sea.n) => \A Q \in SUBSET Blocks \ {{}} : Member(Q) = "no"
(* challenging everything leaves nothing to hide                              *)
Total == sea.n > 0 => (Member(Blocks) = "yes" /\ Verifies(Blocks) = "yes" <=> Kept)
Worth(q) == q[Len(q)].a = "round" /\ q[1].a = "seal" /\ q[1].b = 1 /\ \A i \in 1..Len(q)-1 : ~(q[i].a = q[i+1].a /\ q[i].a \in {"new", "seal"})
Keep == Len(h) = MaxLen /\ Worth(h) => TLCSet(1, TLCGet(1) \cup {h})
ASSUME TLCSet(1, {})
Written == IF "SCENARIOS" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.SCENARIOS, SetToSeq(TLCGet(1))) ELSE TRUE
=============================================================================
