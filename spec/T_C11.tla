------------------------------- MODULE T_C11 -------------------------------
EXTENDS Challenges, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok
Flat(draw, bits) == [i \in 1..Len(draw) * bits |-> BBit(draw[(i - 1) \div bits + 1], (i - 1) % bits)]
Accept(e) ==
  CASE e.f = "space" -> e.ok /\ SpaceDraw(e.out, e.n, e.bits)
    [] e.f = "storage" -> e.ok /\ StorageDraw(e.out, e.n, e.lo, e.hi)
    [] e.f = "spacebits" -> /\ \A t \in 1..Len(e.draws) : SpaceDraw(e.draws[t], e.n, e.bits)
                            /\ IndependentBits([t \in 1..Len(e.draws) |-> Flat(e.draws[t], e.bits)])
    [] e.f = "spaceall" -> {e.draws[t][i] : t \in 1..Len(e.draws), i \in 1..e.n} = {BN(v) : v \in 0..2 ^ e.bits - 1}
    [] e.f = "spacefresh" -> Fresh(e.draws)
    [] e.f = "subsets" -> /\ \A t \in 1..Len(e.draws) : StorageDraw(e.draws[t], e.n, e.lo, e.hi)
                          /\ AllSubsets(e.draws, e.n, e.lo, e.hi)
    [] e.f = "wide" ->
         /\ \A t \in 1..Len(e.draws) :
              LET d == e.draws[t] IN
              /\ Len(d) = e.n
              /\ \A i \in 1..e.n : ~BLt(d[i], e.lo) /\ BLt(d[i], e.hi)
              /\ \A i \in 1..e.n-1 : BLt(d[i], d[i + 1])
         \* sorted draws of several: the topmost bits lean, the low ones do not
         /\ LET w == IF e.n = 1 THEN e.bits ELSE IF e.bits > 8 THEN e.bits - 4 ELSE 0 IN
            w > 0 => IndependentBits([t \in 1..Len(e.draws) |-> [i \in 1..w |-> BBit(e.draws[t][1], i - 1)]])
    [] e.f = "cover" -> /\ \A t \in 1..Len(e.draws) : StorageDraw(e.draws[t], e.n, e.lo, e.hi)
                        /\ Covered(e.draws, e.n, e.lo, e.hi)
    [] e.f = "spacerel" -> Unrelated(e.draws, e.n, e.bits)
    [] e.f = "pairs" -> AllPairs(e.draws, e.lo, e.hi)
    [] e.f = "fresh" -> Fresh(e.draws)
    [] e.f = "quarters" -> Quarters(e.draws, e.lo, e.hi)
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ ok' = Accept(Sessions[s].ev[l + 1])
Conforms == ok
=============================================================================
