----------------------------- MODULE SpaceProto -----------------------------
(* The interactive space proof.  A statement is [key, m, ys, h]: session key, *)
(* session value, the challenge values answered (in order) and the keyed hash *)
(* of the answers.  A proof is made for a statement from answers xs given at  *)
(* challenge positions pos; it has three elements, and what is presented for  *)
(* verification names, per element, the proof it comes from.                  *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Holds(_, _)        \* statement, answers -> is the statement true with these answers

Proof(stmt, pos, xs) == [stmt |-> stmt, pos |-> pos, xs |-> xs]
Distinct(pos) == \A i, j \in 1..Len(pos) : i # j => pos[i] # pos[j]
(* parts: for each proof element (and the verification key), the number of the *)
(* proof it is from (0: not from a proof at all)                              *)
Whole(parts, id) == \A i \in 1..Len(parts) : parts[i] = id
Ask(stmt, pos, parts) == [stmt |-> stmt, pos |-> pos, parts |-> parts]

(* A proof of a true statement, presented as made, must be accepted.          *)
MustAccept(q, proofs) ==
  \E id \in DOMAIN proofs : /\ Whole(q.parts, id) /\ Holds(proofs[id].stmt, proofs[id].xs)
                            /\ q.stmt = proofs[id].stmt /\ q.pos = proofs[id].pos /\ Distinct(q.pos)
(* Acceptance is allowed only if every position counts once and the presented *)
(* statement is true for the answers the (unmixed) proof was made from.       *)
MayAccept(q, proofs) ==
  /\ Distinct(q.pos)
  /\ \E id \in DOMAIN proofs : Whole(q.parts, id) /\ Holds(q.stmt, proofs[id].xs)
Verdict(q, proofs, accepted) ==
  /\ MustAccept(q, proofs) => accepted
  /\ accepted => MayAccept(q, proofs)
=============================================================================
