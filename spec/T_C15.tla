------------------------------- MODULE T_C15 -------------------------------
(* Recorded sealings, one event per block: the sealed block in the file and   *)
(* its identifier must be those of the specification.                         *)
EXTENDS SealBig
VARIABLE done
Accept(e) ==
  CASE e.f = "begin" -> TRUE
    [] e.f = "block" -> /\ e.sealed = SealBlock(done, e.plain, C.iv)
                        /\ e.id = IdentB(e.sealed)
    [] e.f = "end" -> e.ok /\ Len(done) = C.nb /\ e.ids = C.nb /\ e.extra = 0
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ done = <<>>
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ done' = IF e.f = "block" THEN Append(done, e.sealed) ELSE done
Conforms == ok
=============================================================================
