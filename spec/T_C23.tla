------------------------------- MODULE T_C23 -------------------------------
(* Recorded challenge rounds: the histories of Round.tla replayed into the    *)
(* implementation, and longer ones with drawn positions.  The verdicts must   *)
(* be those of Round.tla for the history (m, v) and those that follow from    *)
(* the bytes of the sealed file.                                              *)
(*   org: the original; pub: the saved vector; com: the identifiers committed *)
(*   held: the identifiers the prover's tree is over                          *)
EXTENDS SealBig
VARIABLES org, pub, com, held
Data(u) == SubSeq(u, 1, 2 * (C.pl - 1))
DataOf(b) == CatB([k \in 1..Len(b) |-> Data(b[k])])
BL == 2 * (C.pl - 1) * C.nu       \* digits of a block of the original
PL == 2 * C.pl * C.nu
Block(f, at, len) == SubSeq(f, at * len + 1, (at + 1) * len)
Units(b) == [k \in 1..C.nu |-> SubSeq(b, (k - 1) * 2 * C.pl + 1, k * 2 * C.pl)]
Small(f) == \A at \in 0..C.nb-1 : LET b == Units(Block(f, at, PL)) IN \A u \in 1..C.nu : BLt(BFromBytes(b[u]), C.key)
Verifies(f, q) ==
  LET bs == TLCEval([at \in 1..C.nb |-> Units(Block(f, at - 1, PL))]) IN
  \A k \in 1..Len(q) : DataOf(UnsealBlock(SubSeq(bs, 1, q[k]), bs[q[k] + 1], pub)) = Block(org, q[k], BL)
Member(f, q) == /\ com # <<>> /\ com = held
                /\ \A k \in 1..Len(q) : Blake3(Block(f, q[k], PL)) = com[q[k] + 1]
Says(w, is) == w \in {"", "any"} \/ (w = "yes") = is
Accept(e) ==
  CASE e.f \in {"begin", "origin"} -> TRUE
    [] e.f = "seal" -> e.ok /\ Len(e.sea) = PL * C.nb /\ e.ids = [at \in 1..C.nb |-> Blake3(Block(e.sea, at - 1, PL))]
    [] e.f = "round" ->
         /\ e.ok /\ Len(e.sea) = PL * C.nb
         /\ e.hash = Blake3(e.nonce \o CatB([k \in 1..Len(e.q) |-> Block(e.sea, e.q[k], PL)]))
         /\ Says(e.m, e.member) /\ (e.member <=> Member(e.sea, e.q))
         /\ Says(e.v, e.verifies) /\ (Small(e.sea) => (e.verifies <=> Verifies(e.sea, e.q)))
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ org = "" /\ pub = "" /\ com = <<>> /\ held = <<>>
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ org' = IF e.f = "origin" THEN e.org ELSE org
           /\ pub' = IF e.f = "seal" THEN e.iv ELSE pub
           /\ held' = IF e.f = "seal" THEN e.ids ELSE held
           /\ com' = IF e.f = "seal" /\ e.commit THEN e.ids ELSE com
Conforms == ok
=============================================================================
