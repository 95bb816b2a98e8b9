------------------------------- MODULE Audit -------------------------------
(* The life of a stored file, abstractly: an original (in versions), a sealed *)
(* file, a restored file, and the saved public parameters, each of which may  *)
(* be altered and put back at any time, and two audits: of the first blocks   *)
(* of the sealed file, and by Merkle proof of the restored file.              *)
(*   org   <<version, altered block or NB>>   (NB: not altered)               *)
(*   sea   [is, of, pub, plain, bad]: the original (version, altered    *)
(*         block) it was made from, with which parameters, whether it was     *)
(*         unsealed in place, which block is altered (NB: none)               *)
(*   res   likewise                                                          *)
(*   pub   number of the saved parameters                                     *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS NB,          \* blocks; the first Audited of them are audited
          Audited,
          Versions
VARIABLES org, sea, res, pub
avars == <<org, sea, res, pub>>
Nothing == [is |-> FALSE, of |-> <<0, NB>>, pub |-> 0, plain |-> FALSE, bad |-> NB]
Has(x) == x.is
AInit == org = <<1, NB>> /\ sea = Nothing /\ res = Nothing /\ pub = 0

NewOriginal(v) == org' = <<v, NB>> /\ UNCHANGED <<sea, res, pub>>
AlterOriginal(b) == org[2] = NB /\ b < NB /\ org' = <<org[1], b>> /\ UNCHANGED <<sea, res, pub>>
Seal(unseal) == /\ sea' = [is |-> TRUE, of |-> org, pub |-> pub + 1, plain |-> unseal, bad |-> NB]
                /\ res' = IF unseal THEN [Nothing EXCEPT !.is = TRUE, !.of = org] ELSE res
                /\ pub' = pub + 1 /\ UNCHANGED org
AlterSealed(b) == Has(sea) /\ sea.bad = NB /\ b < NB /\ sea' = [sea EXCEPT !.bad = b] /\ UNCHANGED <<org, res, pub>>
HealSealed == Has(sea) /\ sea.bad # NB /\ sea' = [sea EXCEPT !.bad = NB] /\ UNCHANGED <<org, res, pub>>
AlterRestored(b) == Has(res) /\ res.bad = NB /\ b < NB /\ res' = [res EXCEPT !.bad = b] /\ UNCHANGED <<org, sea, pub>>
OtherParams == pub' = pub + 1 /\ UNCHANGED <<org, sea, res>>

(* What the audit of the first blocks must say; "any": not determined at this *)
(* level (an altered later block, a dependency that may or may not be used).  *)
SameOriginal(a, b) == a[1] = b[1] /\ (a[2] = b[2] \/ (a[2] >= Audited /\ b[2] >= Audited))
AuditSays ==
  IF ~Has(sea) THEN "no"
  ELSE IF sea.plain THEN "no"                      \* unsealing what is not sealed gives something else
  ELSE IF sea.pub # pub THEN "no"                  \* unsealed with another vector
  ELSE IF sea.bad < Audited THEN "no"
  ELSE IF SameOriginal(sea.of, org) THEN "yes" ELSE "no"
(* ... and the Merkle proof of the restored file against the original: all of *)
(* the file counts, whichever leaves are drawn                                *)
MerkleSays == IF ~Has(res) THEN "no" ELSE IF res.bad = NB /\ res.of = org THEN "yes" ELSE "no"
=============================================================================
