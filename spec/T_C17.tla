------------------------------- MODULE T_C17 -------------------------------
(* Recorded audits: blocks of a (possibly altered) sealed file are fetched,   *)
(* unsealed and compared with the original file; the verdict must be that of  *)
(* the specification.  orig: original blocks; file: the sealed file now.      *)
EXTENDS SealBig
VARIABLES orig, file, verdicts
Data(u) == SubSeq(u, 1, 2 * (C.pl - 1))
(* the data bytes of a block of units                                         *)
DataOf(b) == CatB([k \in 1..Len(b) |-> Data(b[k])])
Judged(b) == \A u \in 1..Len(b) : BLt(BFromBytes(b[u]), C.key)   \* other values do not occur in sealed files
Expected(at, iv) == DataOf(UnsealBlock(SubSeq(file, 1, at), file[at + 1], iv)) = orig[at + 1]
Accept(e) ==
  CASE e.f = "begin" -> TRUE
    [] e.f = "sealed" -> e.ok
    [] e.f = "tamper" -> TRUE
    [] e.f = "restore" -> TRUE
    [] e.f = "origin" -> TRUE          \* the verifier's copy of the original is another one
    [] e.f = "audit" ->                \* one or several blocks, accepted only if all of them match
         (\A k \in 1..Len(e.at) : Judged(file[e.at[k] + 1])) => (e.accept <=> \A k \in 1..Len(e.at) : Expected(e.at[k], e.iv))
    [] e.f = "check" -> e.accept <=> DataOf(e.units) = e.orig
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ orig = <<>> /\ file = <<>> /\ verdicts = [yes |-> 0, no |-> 0]
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ orig' = CASE e.f = "begin" -> e.orig
                        [] e.f = "origin" -> [orig EXCEPT ![e.block + 1] = e.v]
                        [] OTHER -> orig
           /\ file' = CASE e.f = "sealed" -> e.blocks
                        [] e.f \in {"tamper", "restore"} -> [file EXCEPT ![e.block + 1][e.unit + 1] = e.v]
                        [] OTHER -> file
           /\ verdicts' = IF e.f \in {"audit", "check"}
                          THEN [verdicts EXCEPT !.yes = @ + (IF e.accept THEN 1 ELSE 0), !.no = @ + (IF e.accept THEN 0 ELSE 1)]
                          ELSE verdicts
Conforms == ok
=============================================================================
