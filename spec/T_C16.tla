------------------------------- MODULE T_C16 -------------------------------
(* Recorded ways of fetching and unsealing blocks of a sealed file.           *)
(* orig: the padded blocks before sealing; mark: digest of the sealed file.   *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok, orig, mark
Accept(e) ==
  CASE e.f = "begin" -> TRUE
    [] e.f = "sealed" -> e.ok
    [] e.f = "range" -> e.ok /\ e.at = [k \in 1..(e.to - e.from) |-> e.from + k - 1]
    [] e.f = "got" -> e.ok /\ e.units = [k \in 1..Len(e.at) |-> orig[e.at[k] + 1]]
    [] e.f = "file" -> e.mark = mark
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ orig = <<>> /\ mark = ""
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ orig' = IF e.f = "begin" THEN e.blocks ELSE orig
           /\ mark' = IF e.f = "sealed" THEN e.mark ELSE mark
Conforms == ok
=============================================================================
