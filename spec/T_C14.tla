------------------------------- MODULE T_C14 -------------------------------
(* Recorded histories of sealing and unsealing one file.  Sealings stack: an  *)
(* unsealing with the configuration, key and vector of the latest sealing     *)
(* still in force restores exactly what the file held before it.              *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok, orig, file, stack        \* the last three by file
Top(p) == stack[p][Len(stack[p])]
Accept(e) ==
  CASE e.f = "create" -> TRUE
    [] e.f = "pad" -> e.ok
    [] e.f = "seal" -> e.ok /\ Len(e.r) = Len(file[e.p])
    [] e.f = "unseal" -> e.ok /\ Len(stack[e.p]) > 0 /\ e.with = Top(e.p).with /\ e.r = Top(e.p).before
    [] e.f = "compress" -> e.ok /\ stack[e.p] = <<>> /\ e.r = orig[e.p]
    [] e.f = "whole" -> e.ok /\ e.r = e.d        \* pad, seal, unseal and compress in one call
Init == /\ s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE
        /\ orig = [p \in 1..2 |-> ""] /\ file = [p \in 1..2 |-> ""] /\ stack = [p \in 1..2 |-> <<>>]
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ orig' = IF e.f = "create" THEN [orig EXCEPT ![e.p] = e.d] ELSE orig
           /\ file' = IF e.f \in {"pad", "seal", "unseal"} THEN [file EXCEPT ![e.p] = e.r] ELSE file
           /\ stack' = CASE e.f = "seal" -> [stack EXCEPT ![e.p] = Append(@, [with |-> e.with, before |-> file[e.p]])]
                         [] e.f = "unseal" /\ Len(stack[e.p]) > 0 -> [stack EXCEPT ![e.p] = SubSeq(@, 1, Len(@) - 1)]
                         [] e.f = "create" -> [stack EXCEPT ![e.p] = <<>>]
                         [] OTHER -> stack
Conforms == ok
=============================================================================
