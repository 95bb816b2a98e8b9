------------------------------ MODULE T_Proto -------------------------------
(* Recorded runs of the space proof: proofs made by response_2 and verdicts   *)
(* of verify, judged by SpaceProto with the true relation of Circuits.        *)
EXTENDS BigNum, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok, proofs
Cfg == [i \in 1..Len(Sessions) |-> Sessions[i].ev[1]]   \* p, n, limit

Stmt(e) == [key |-> e.key, m |-> e.m, ys |-> [i \in 1..Len(e.idx) |-> IF e.idx[i] < Len(e.chal) THEN e.chal[e.idx[i] + 1] ELSE "none"], h |-> e.h]
(* answers are given with the constants of the setup the proof was made for   *)
True(st, at) ==       \* at: <<session, event>> of the answers
  LET g == Cfg[at[1]]
      w == Sessions[at[1]].ev[at[2]]
      p == g.p
      A(a, b) == BAddMod(a, b, p)
      M(a, b) == BMulMod(a, b, p)
      C == INSTANCE Circuits WITH Add <- A, Mul <- M, Zero <- "0", One <- "1"
      Low(y, v) == BMod(y, BPow2(g.n)) = v
  IN /\ Len(w.xs) = g.limit /\ Len(st.ys) = g.limit
     /\ C!SpaceRel(w.xs, <<st.key, st.m>> \o st.ys \o <<st.h>>, g.c[w.setup], g.hc[w.setup], Low)
P == INSTANCE SpaceProto WITH Holds <- True
Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ proofs = <<>>
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           CASE e.f = "cfg" -> UNCHANGED <<ok, proofs>>
             (* a whole honest session, up to four attempts at enough answerable challenges *)
             [] e.f = "session" -> ok' = e.ok /\ UNCHANGED proofs
             [] e.f = "prove" -> 
                  /\ proofs' = Append(proofs, P!Proof(Stmt(e), e.idx, <<s, l + 1>>))
                  /\ ok' = (True(Stmt(e), <<s, l + 1>>) => e.ok)
             [] e.f = "verify" -> /\ UNCHANGED proofs
                  /\ ok' = P!Verdict(P!Ask(Stmt(e), e.idx, e.parts), proofs, e.accepted)
Conforms == ok
=============================================================================
