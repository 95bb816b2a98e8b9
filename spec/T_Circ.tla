------------------------------- MODULE T_Circ -------------------------------
(* Recorded assignments of the real constraint systems.  "honest": the system *)
(* generated for given inputs is satisfied, has the common shape and the      *)
(* specified public values.  "assign": an assignment that satisfies (or not)  *)
(* the system; if it does, the relation must hold for the committed values.   *)
EXTENDS BigNum, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok

YBits == 256
Rel(e, sec, pub) ==
  LET p == e.p
      A(a, b) == BAddMod(a, b, p)
      M(a, b) == BMulMod(a, b, p)
      C == INSTANCE Circuits WITH Add <- A, Mul <- M, Zero <- "0", One <- "1"
      Low(y, v) == \E k \in 0..e.alias : LET w == BAdd(y, BMul(BN(k), p)) IN
                      BLt(w, BPow2(YBits)) /\ BMod(BMod(w, BPow2(e.n)), p) = v
  IN CASE e.kind = "df3" -> C!DFRel(3, sec, pub, e.c)
       [] e.kind = "df5" -> C!DFRel(5, sec, pub, e.c)
       [] e.kind = "h5" -> C!HashRel(5, sec, pub, e.c)
       [] e.kind = "h7" -> C!HashRel(7, sec, pub, e.c)
       [] e.kind = "equal" -> C!EqualRel(sec, pub, e.d)
       [] e.kind = "pow" -> C!PowRel(sec, pub)
       [] e.kind = "space" -> C!SpaceRel(sec, pub, e.c, e.h, Low)

Accept(e) ==
  CASE e.f = "honest" -> e.ok /\ e.sat /\ e.same /\ Rel(e, e.sec, e.pub)
    [] e.f = "assign" -> e.sat => \E i \in 1..Len(e.choices) : Rel(e, e.choices[i], e.pub)

Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ ok' = Accept(Sessions[s].ev[l + 1])
Conforms == ok
=============================================================================
