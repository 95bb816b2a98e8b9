-------------------------------- MODULE R1CS --------------------------------
(* Exhaustive exploration of ALL satisfying assignments of a rank-1           *)
(* constraint system generated by the real circuit over a small prime field.  *)
(* One step per constraint: the variables that occur for the first time take  *)
(* every value that satisfies it; variables are forgotten after their last    *)
(* constraint unless the relation needs them.  When every constraint has been *)
(* taken, the relation between committed and public values must hold.         *)
(* The system comes as JSON: p, steps (rows a, b, c of [coefficient, variable]*)
(* pairs, variable 0 being the constant 1; new; live), start, pub, sec, bits. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Circ == JsonDeserialize(IOEnv.CIRCUIT)
P == Circ.p
Steps == Circ.steps
SetOf(q) == {q[i] : i \in 1..Len(q)}
NewOf == [k \in 1..Len(Steps) |-> SetOf(Steps[k].new)]
LiveOf == [k \in 1..Len(Steps) |-> SetOf(Steps[k].live)]
(* bits: sequence over responses of sequences of [variable, index]            *)
Groups == Len(Circ.bits)
BitOf == [g \in 1..Groups |-> [v \in {Circ.bits[g][i][1] : i \in 1..Len(Circ.bits[g])} |->
            (CHOOSE i \in 1..Len(Circ.bits[g]) : Circ.bits[g][i][1] = v)]]
RECURSIVE PowMod(_, _, _)
PowMod(b, k, m) == IF k = 0 THEN 1 % m ELSE (b * PowMod(b, k - 1, m)) % m
BitMod == Circ.bitmod
Weight == [g \in 1..Groups |-> [i \in 1..Len(Circ.bits[g]) |-> PowMod(2, Circ.bits[g][i][2], BitMod)]]

VARIABLES k, val, mon
vars == <<k, val, mon>>
Val(v, x) == IF x = 0 THEN 1 ELSE v[x]
LC(row, v) == FoldLeft(LAMBDA a, t : (a + t[1] * Val(v, t[2])) % P, 0, row)
Sat(st, v) == (LC(st.a, v) * LC(st.b, v)) % P = LC(st.c, v)

(* What the specification remembers of the bits: weighted sums over the first *)
(* d and over all of them, whether all were 0 or 1, whether all were 0.       *)
Fresh == [g \in 1..Groups |-> [lo |-> 0, all |-> 0, bool |-> TRUE, zero |-> TRUE]]
See(m, v, newvars) ==
  [g \in 1..Groups |->
     LET mine == newvars \cap DOMAIN BitOf[g] IN
     IF mine = {} THEN m[g] ELSE
     LET Sum(only(_)) == FoldLeft(LAMBDA a, x : IF only(x) THEN (a + v[x] * Weight[g][BitOf[g][x]]) % BitMod ELSE a,
                                  0, SetToSeq(mine))
         Low(x) == Circ.bits[g][BitOf[g][x]][2] < Circ.d
         Each(x) == TRUE
     IN [lo |-> (m[g].lo + Sum(Low)) % BitMod, all |-> (m[g].all + Sum(Each)) % BitMod,
         bool |-> m[g].bool /\ \A x \in mine : v[x] \in {0, 1},
         zero |-> m[g].zero /\ \A x \in mine : v[x] = 0]]

StartVars == {Circ.start[i][1] : i \in 1..Len(Circ.start)}
StartVals(x) == SetOf(Circ.start[CHOOSE i \in 1..Len(Circ.start) : Circ.start[i][1] = x][2])
Init == /\ k = 0
        /\ val \in {f \in [StartVars -> 0..P-1] : \A x \in StartVars : f[x] \in StartVals(x)}
        /\ mon = See(Fresh, val, StartVars)
Next == /\ k < Len(Steps)
        /\ LET st == Steps[k + 1] IN
           \E nv \in [NewOf[k + 1] -> 0..P-1] :
             LET v == nv @@ val IN
             /\ Sat(st, v)
             /\ k' = k + 1
             /\ val' = [x \in LiveOf[k + 1] |-> v[x]]
             /\ mon' = See(mon, v, NewOf[k + 1])

A(a, b) == (a + b) % P
M(a, b) == (a * b) % P
C == INSTANCE Circuits WITH Add <- A, Mul <- M, Zero <- 0, One <- 1
Pub == [i \in 1..Len(Circ.pub) |-> val[Circ.pub[i]]]
Sec == [i \in 1..Len(Circ.sec) |-> val[Circ.sec[i]]]

(* the challenge range covers the whole expansion: plain equality             *)
SameVal(y, v) == y = v
Relation ==
  CASE Circ.kind = "df3" -> C!DFRel(3, Sec, Pub, Circ.c)
    [] Circ.kind = "df5" -> C!DFRel(5, Sec, Pub, Circ.c)
    [] Circ.kind = "h5" -> C!HashRel(5, Sec, Pub, Circ.c)
    [] Circ.kind = "h7" -> C!HashRel(7, Sec, Pub, Circ.c)
    [] Circ.kind = "equal" -> Len(Pub) = 2 /\ mon[1].bool /\ Pub[1] = mon[1].lo /\ Pub[2] = mon[1].all
    [] Circ.kind = "pow" -> /\ Len(Pub) = 1 /\ mon[1].bool
                            /\ Pub[1] = IF Sec[1] = 0 THEN (IF mon[1].zero THEN 1 ELSE 0)
                                        ELSE PowMod(Sec[1], mon[1].all, P)
    [] Circ.kind = "space_all" ->      \* no bit is cut off: existential over the preimages
         \E xs \in [1..Circ.r -> 0..P-1] : C!SpaceRel(xs, Pub, Circ.c, Circ.h, SameVal)
    [] Circ.kind = "space_bits" ->     \* with the committed preimages and bits
         /\ Len(Pub) = Circ.r + 3
         /\ \A i \in 1..Circ.r : /\ mon[i].bool
                                 /\ Pub[2 + i] = mon[i].lo
                                 /\ mon[i].all = C!M!DF(5, A(Pub[1], Sec[i]), Pub[2], Circ.c)
         /\ Pub[Circ.r + 3] = C!M!Multi(5, Sec, Pub[1], Circ.h, Len(Circ.h))
Sound == k = Len(Steps) => Relation
=============================================================================
