------------------------------ MODULE T_Space ------------------------------
(* Recorded histories of one space file, replayed on the specification: the   *)
(* state is the file, and every logged call must be the corresponding step.   *)
EXTENDS PoSpace, Json, IOUtils, TLC
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, ok, disk      \* disk: bytes of the file, as hex

P == "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"
A(a, b) == BAddMod(a, b, P)
M(a, b) == BMulMod(a, b, P)
F == INSTANCE MiMC WITH Add <- A, Mul <- M

Zeros(k) == FoldLeft(LAMBDA acc, i : acc \o "00", "", [i \in 1..k |-> i])
Bits(h) == BytesToBits(HexToSeq(h))
DFTable(e) == TLCEval( [x \in 0..Slots(e.n) - 1 |-> LowBits(F!DF(5, A(BN(x), e.key), e.m, e.c), e.n)])

(* environment: some other program put these bytes at the path *)
Prepare(e) == HexToSeq(e.file) = Prepared(e.n)
Mark(e) == /\ Len(e.file) = Len(disk)
           /\ Bits(e.file) = Marked(Bits(disk), e.n, DFTable(e))
Responds(e, ents) ==
  LET ans == TLCEval(Answers(ents, e.n, e.limit))
      xs == TLCEval([k \in 1..Len(ans.xs) |-> BN(ans.xs[k])])
  IN /\ e.idx = ans.idx
     /\ e.xs = xs
     /\ e.hash = F!Multi(5, xs, e.key, e.c, Len(e.c))
(* after preparing and marking: every answer is a preimage of its challenge   *)
(* and no challenge that has one goes unanswered (up to the limit)            *)
Truthful(e) ==
  LET df == DFTable([n |-> e.n, key |-> e.key, m |-> e.m, c |-> e.dc]) IN
  /\ \A k \in 1..Len(e.xs) : \E x \in 0..Slots(e.n) - 1 : e.xs[k] = BN(x) /\ df[x] = e.chal[e.idx[k] + 1]
  /\ Len(e.idx) < e.limit =>
       \A i \in 1..Len(e.chal) : (\E x \in 0..Slots(e.n) - 1 : df[x] = e.chal[i]) => \E k \in 1..Len(e.idx) : e.idx[k] = i - 1
Respond(e) == /\ e.file = disk                               \* not modified
              /\ e.want = "silent" => e.idx = <<>>
              /\ e.want = "true" => Truthful(e)
              /\ Responds(e, TLCEval([i \in 1..Len(e.chal) |-> HexBits(disk, (e.n + 1) * e.chal[i], e.n + 1)]))
(* Large spaces: the driver logs size and the entries it looked at.           *)
PrepareBig(e) == e.len = SpaceBytes(e.n) /\ e.nonzero = 0
MarkBig(e) == /\ e.len = e.len0
              /\ \A k \in 1..Len(e.slots) :
                   LET q == e.slots[k] IN
                   /\ \A i \in 1..Len(q.pre) : q.pre[i] < Slots(e.n)
                   /\ q.after = IF q.pre = <<>> THEN q.before
                                ELSE Entry(CHOOSE x \in {q.pre[i] : i \in 1..Len(q.pre)} :
                                             \A i \in 1..Len(q.pre) : q.pre[i] <= x, e.n)
RespondBig(e) == e.same /\ Responds(e, e.slots)

Accept(e) == IF e.f = "env" THEN TRUE
             ELSE e.ok /\ CASE e.f = "prepare" -> Prepare(e)
                            [] e.f = "mark" -> Mark(e)
                            [] e.f = "respond" -> Respond(e)
                            [] e.f = "prepare_big" -> PrepareBig(e)
                            [] e.f = "mark_big" -> MarkBig(e)
                            [] e.f = "respond_big" -> RespondBig(e)

Init == s \in 1..Len(Sessions) /\ l = 0 /\ ok = TRUE /\ disk = ""
Next == /\ ok /\ l < Len(Sessions[s].ev)
        /\ l' = l + 1 /\ s' = s
        /\ LET e == Sessions[s].ev[l + 1] IN
           /\ ok' = Accept(e)
           /\ disk' = IF e.f \in {"env", "prepare", "mark"} THEN e.file ELSE disk
Conforms == ok
=============================================================================
