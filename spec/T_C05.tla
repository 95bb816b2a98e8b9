------------------------------- MODULE T_C05 -------------------------------
(* Every logged evaluation of the delay functions and hashes, recomputed.     *)
EXTENDS BigNum, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok

Accept(e) ==
  LET p == e.p
      A(a, b) == BAddMod(a, b, p)
      M(a, b) == BMulMod(a, b, p)
      F == INSTANCE MiMC WITH Add <- A, Mul <- M
  IN /\ e.ok
     /\ CASE e.f = "df3" -> e.r = F!DF(3, e.a, e.b, e.c)
          [] e.f = "df5" -> e.r = F!DF(5, e.a, e.b, e.c)
          [] e.f = "h5" -> e.r = F!Hash(5, e.a, e.b, e.c, Len(e.c))
          [] e.f = "h7" -> e.r = F!Hash(7, e.a, e.b, e.c, Len(e.c))
          [] e.f = "m5" -> e.r = F!Multi(5, e.xs, e.b, e.c, Len(e.c))
          [] e.f = "m7" -> e.r = F!Multi(7, e.xs, e.b, e.c, Len(e.c))

Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ ok' = Accept(Sessions[s].ev[l + 1])
Conforms == ok
=============================================================================
