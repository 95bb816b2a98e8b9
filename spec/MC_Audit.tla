------------------------------ MODULE MC_Audit ------------------------------
(* All histories of Audit up to a length; they are also written out, with the *)
(* verdicts the audits must give, to be replayed into the implementation.     *)
EXTENDS Audit, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxLen, Blocks
VARIABLE h
Do(step, act) == act /\ h' = Append(h, step)
Init == AInit /\ h = <<>> 
Next ==
  /\ Len(h) < MaxLen
  /\ \/ \E v \in Versions \ {org[1]} : Do([a |-> "new", b |-> v, want |-> ""], NewOriginal(v))
     \/ \E b \in Blocks : Do([a |-> "origin", b |-> b, want |-> ""], AlterOriginal(b))
     \/ \E u \in {0, 1} : Do([a |-> "seal", b |-> u, want |-> ""], Seal(u = 1))
     \/ \E b \in Blocks : Do([a |-> "sealed", b |-> b, want |-> ""], AlterSealed(b))
     \/ Do([a |-> "heal", b |-> 0, want |-> ""], HealSealed)
     \/ \E b \in Blocks : Do([a |-> "restored", b |-> b, want |-> ""], AlterRestored(b))
     \/ Do([a |-> "params", b |-> 0, want |-> ""], Has(sea) /\ OtherParams)
     \/ \E p \in {0, 3} : Has(sea) /\ Do([a |-> "audit", b |-> p, want |-> AuditSays], UNCHANGED avars)
     \/ Has(res) /\ Do([a |-> "merkle", b |-> 2, want |-> MerkleSays], UNCHANGED avars)
Spec == Init /\ [][Next]_<<avars, h>>
(* an audit is never passed by a file whose audited part was altered, and is  *)
(* passed by one that was not, whatever happened to the rest                  *)
Untouched == Has(sea) /\ ~sea.plain /\ sea.bad >= Audited /\ sea.pub = pub /\ sea.of = org
Honest == /\ Untouched => AuditSays = "yes"
          /\ (Has(sea) /\ (sea.bad < Audited \/ sea.plain)) => AuditSays = "no"
          /\ (Has(res) /\ res.bad = NB /\ res.of = org) => MerkleSays = "yes"
(* healing undoes altering                                                     *)
Healed == \A i \in 1..Len(h) : (i > 1 /\ h[i].a = "heal" /\ h[i-1].a = "sealed") =>
            \A j \in 1..Len(h) : (j > i /\ \A k \in i+1..j : h[k].a = "audit") =>
              \A k \in 1..i-2 : (h[k].a = "audit" /\ k = i - 2) => h[j].want = h[k].want
(* complete histories that end in an audit, sealed at some point               *)
Worth(q) == q[Len(q)].want # "" /\ \A i \in 1..Len(q)-1 : ~(q[i].a = q[i+1].a /\ q[i].a \in {"new", "audit", "merkle", "params", "seal"})
Keep == Len(h) = MaxLen /\ Worth(h) => TLCSet(1, TLCGet(1) \cup {h})
ASSUME TLCSet(1, {})
Written == IF "SCENARIOS" \in DOMAIN IOEnv THEN ndJsonSerialize(IOEnv.SCENARIOS, SetToSeq(TLCGet(1))) ELSE TRUE
=============================================================================
