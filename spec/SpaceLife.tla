----------------------------- MODULE SpaceLife -----------------------------
(* The life of one declared space, abstractly.  disk: what the path holds:    *)
(* the size it was made for, whether it began as zeros, and the markings since*)
(* (each <<n, key>>), oldest first.                                           *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Sizes, Keys
VARIABLE disk
Absent == [size |-> 0, zero |-> FALSE, marks |-> <<>>]
Bytes(n) == ((n + 1) * 2 ^ n + 7) \div 8
LInit == disk = Absent
Prepare(n) == disk' = [size |-> Bytes(n), zero |-> TRUE, marks |-> <<>>]
Dirt(bytes) == disk' = [size |-> bytes, zero |-> FALSE, marks |-> <<>>]
Remove == disk # Absent /\ disk' = Absent
CanUse(n) == disk.size >= Bytes(n)
Mark(n, k) == CanUse(n) /\ disk' = [disk EXCEPT !.marks = Append(@, <<n, k>>)]
(* answers to challenges for size n and key k are true, and every answerable  *)
(* challenge is answered, whenever the space was prepared and then marked     *)
(* only for that size and key                                                 *)
Truthful(n, k) == disk.zero /\ disk.size = Bytes(n) /\ disk.marks # <<>> /\ \A i \in 1..Len(disk.marks) : disk.marks[i] = <<n, k>>
(* nothing is answered on a prepared but unmarked space                       *)
Silent(n) == disk.zero /\ disk.size = Bytes(n) /\ disk.marks = <<>>
=============================================================================
