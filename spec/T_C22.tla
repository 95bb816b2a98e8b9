------------------------------- MODULE T_C22 -------------------------------
(* Recorded draws of session parameters, setups and proofs; everything drawn  *)
(* so far in the session is remembered.                                       *)
EXTENDS Fresh, BigNum, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok, seen
Balanced(vals, b) == LET k == Cardinality({t \in 1..Len(vals) : BBit(vals[t], b) = 1})
                     IN 4 * k > Len(vals) /\ 4 * k < 3 * Len(vals)
(* no value follows from two others, or from one other and a constant: all    *)
(* differences, quotients, sums and products of two values are new, too       *)
R == BFromBytes("01000000fffffffffe5bfeff02a4bd5305d8a10908d83933487d9d2953a7ed73")
Relations(v) ==
  LET k == Len(v)
      inv == TLCEval([b \in 1..k |-> BPowMod(v[b], BSub(R, BN(2)), R)])
  IN TLCEval(UNION {{BSubMod(v[p[1]], v[p[2]], R), BMulMod(v[p[1]], inv[p[2]], R)} : p \in {x \in (1..k) \X (1..k) : x[1] # x[2]}}
             \cup UNION {{BAddMod(v[p[1]], v[p[2]], R), BMulMod(v[p[1]], v[p[2]], R)} : p \in {x \in (1..k) \X (1..k) : x[1] < x[2]}})
Values(e) == IF e.f \in {"spread", "distinct"} THEN <<>> ELSE e.vals
Accept(e) ==
  CASE e.f = "params" -> e.ok /\ e.ndf = e.rdf /\ e.nh = e.rh /\ New(e.vals, seen)
                        /\ LET x == Relations(e.vals) IN
                           /\ Cardinality(x) = 3 * Len(e.vals) * (Len(e.vals) - 1)
                           /\ x \cap (seen \cup Vals(e.vals)) = {}
    [] e.f = "distinct" -> Distinct(e.vals)     \* over many draws, so they are not picked from few
    [] e.f = "setup" -> e.ok /\ New(e.vals, seen)
    [] e.f = "proof" -> e.ok /\ New(e.vals, seen)
    [] e.f = "spread" ->      \* one parameter over many draws: every bit varies, no value repeats
         Distinct(e.vals) /\ \A b \in 0..e.bits-1 : Balanced(e.vals, b)
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ seen = {}
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ seen' = seen \cup Vals(Values(e)) \cup (IF e.f = "params" THEN Relations(e.vals) ELSE {})
Conforms == ok
=============================================================================
