------------------------------ MODULE PoSpace ------------------------------
(* The declared space: 2^n slots of n+1 bits, packed without gaps, bit by bit,*)
(* into a file of whole bytes.  Slot y holds the n bits of a value x followed *)
(* by a flag bit that says "x is a preimage of y".                            *)
EXTENDS Naturals, Integers, Sequences, Codec

Slots(n) == 2 ^ n
SpaceBytes(n) == ((n + 1) * Slots(n) + 7) \div 8
Prepared(n) == [k \in 1..SpaceBytes(n) |-> 0]

IntBits(x, n) == [j \in 1..n |-> (x \div 2 ^ (j - 1)) % 2]
BitsInt(b) == IF b = <<>> THEN 0
              ELSE FoldRight(LAMBDA v, acc : 2 * acc + v, b, 0)
Entry(x, n) == Append(IntBits(x, n), 1)
Slot(bits, n, y) == SubSeq(bits, (n + 1) * y + 1, (n + 1) * (y + 1))

(* Writing x into slot y changes nothing else.                                *)
MarkSlot(bits, n, y, x) ==
  [k \in 1..Len(bits) |-> IF (k - 1) \div (n + 1) = y
                          THEN Entry(x, n)[((k - 1) % (n + 1)) + 1] ELSE bits[k]]

(* The whole marking pass: df[x] is the slot of x; the largest x remains.     *)
LastPre(n, df) ==
  FoldLeft(LAMBDA f, x : [f EXCEPT ![df[x] + 1] = x], [y \in 1..Slots(n) |-> -1],
           [i \in 1..Slots(n) |-> i - 1])
Marked(bits, n, df) ==
  LET last == LastPre(n, df) IN
  [k \in 1..Len(bits) |->
     LET y == (k - 1) \div (n + 1)
         j == (k - 1) % (n + 1)
     IN IF y >= Slots(n) THEN bits[k]
        ELSE IF last[y + 1] < 0 THEN bits[k]
        ELSE IF j = n THEN 1 ELSE (last[y + 1] \div 2 ^ j) % 2]

(* Answering: the flagged challenges in order, at most `limit` of them.       *)
(* ents[i] is the content of the slot of challenge i.                         *)
Answers(ents, n, limit) ==
  LET hits == SelectSeq([i \in 1..Len(ents) |-> i], LAMBDA i : ents[i][n + 1] = 1)
      kept == SubSeq(hits, 1, IF Len(hits) < limit THEN Len(hits) ELSE limit)
  IN [idx |-> [k \in 1..Len(kept) |-> kept[k] - 1],
      xs |-> [k \in 1..Len(kept) |-> BitsInt(SubSeq(ents[kept[k]], 1, n))]]
=============================================================================
