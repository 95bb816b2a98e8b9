------------------------------- MODULE T_C21 -------------------------------
(* Recorded lives of stored files: the histories of Audit.tla replayed into   *)
(* the implementation.  The verdict of every audit must be the one Audit.tla  *)
(* gives for the history (want) and the one that follows from the bytes on    *)
(* disk by unsealing them in the specification.                               *)
(*   org, sea, res: the files (hex); pub: the parameters as they load         *)
EXTENDS SealBig
VARIABLES org, sea, res, pub
Data(u) == SubSeq(u, 1, 2 * (C.pl - 1))
DataOf(b) == CatB([k \in 1..Len(b) |-> Data(b[k])])
BL == 2 * (C.pl - 1) * C.nu       \* digits of a block of the original
PL == 2 * C.pl * C.nu
Block(f, at, len) == SubSeq(f, at * len + 1, (at + 1) * len)
Units(b) == [k \in 1..C.nu |-> SubSeq(b, (k - 1) * 2 * C.pl + 1, k * 2 * C.pl)]
Sealed(f, at) == Units(Block(f, at, PL))
Judged(f) == Len(f) >= PL * C.nb /\ \A at \in 0..C.nb-1 : LET b == Sealed(f, at) IN \A u \in 1..C.nu : BLt(BFromBytes(b[u]), C.key)
Passes(o, f, p) ==
  LET bs == TLCEval([at \in 1..C.nb |-> Sealed(f, at - 1)]) IN
  \A at \in 0..9 : DataOf(UnsealBlock(SubSeq(bs, 1, at), bs[at + 1], p.iv)) = Block(o, at, BL)
Same(a, b) == Len(a) >= BL * C.nb /\ Len(b) >= BL * C.nb /\ SubSeq(a, 1, BL * C.nb) = SubSeq(b, 1, BL * C.nb)
Wants(e) == e.want = "" \/ (e.want = "yes") = e.accept
Accept(e) ==
  CASE e.f = "begin" -> TRUE
    [] e.f \in {"origin", "params", "alter", "heal"} -> TRUE
    [] e.f = "seal" -> e.ok /\ e.pub.key = C.key /\ Len(e.sea) = PL * C.nb /\ (e.unseal => Len(e.res) = BL * C.nb /\ Same(e.res, org))
    [] e.f = "audit" -> Wants(e) /\ (Judged(sea) => (e.accept <=> Passes(org, sea, pub)))
    [] e.f = "merkle" -> Wants(e) /\ (e.accept <=> Same(res, org))
    [] e.f = "session" ->        \* a whole run: an original is drawn, sealed, audited
         /\ Len(e.org) = BL * C.nb
         /\ e.seal => Len(e.sea) = PL * C.nb
         /\ (e.seal /\ e.unseal) => Same(e.res, e.org)
         /\ (e.single => Judged(e.sea)) => (e.ok <=> /\ e.single => Passes(e.org, e.sea, e.pub)
                                                     /\ e.chal => Same(e.res, e.org))
         /\ e.seal => (e.ok <=> ~(e.single /\ e.unseal))
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ org = "" /\ sea = "" /\ res = "" /\ pub = [key |-> "", iv |-> ""]
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ org' = IF e.f \in {"origin", "session"} THEN e.org ELSE org
           /\ sea' = IF e.f \in {"seal", "heal", "session"} \/ (e.f = "alter" /\ e.file = "sealed") THEN e.sea ELSE sea
           /\ res' = IF e.f \in {"seal", "session"} \/ (e.f = "alter" /\ e.file = "restored") THEN e.res ELSE res
           /\ pub' = IF e.f \in {"seal", "params", "session"} THEN e.pub ELSE pub
Conforms == ok
=============================================================================
