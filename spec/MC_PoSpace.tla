----------------------------- MODULE MC_PoSpace -----------------------------
(* The space prover as a state machine at the grain of the implementation:    *)
(* preparing truncates and then appends zero bytes; marking handles x = 0,1,..*)
(* and, per x, loads a byte, sets bits, stores the byte when it is full or    *)
(* the entry ends, and loads the next one.  The prover may crash at any point *)
(* and start over.  The delay function is arbitrary: the slot of each x is    *)
(* chosen when x is reached (and remembered).                                 *)
EXTENDS PoSpace, TLC, FiniteSets
CONSTANTS N,            \* n
          Targets,      \* slots the delay function may hit
          Dirty,        \* initial contents of the file
          MaxCrash      \* crashes explored

VARIABLES file,   \* the bytes on disk
          pc, x, df, byte, j, i, buf,
          base,   \* bits of the file when marking began
          fresh,  \* marking began right after a completed preparation
          crashes
vars == <<file, pc, x, df, byte, j, i, buf, base, fresh, crashes>>

Zero8 == [k \in 1..8 |-> 0]
Init == /\ file \in Dirty
        /\ pc = "idle" /\ x = 0 /\ df = <<>> /\ byte = 0 /\ j = 0 /\ i = 0 /\ buf = Zero8
        /\ base = <<>> /\ fresh = FALSE /\ crashes = 0

PrepareBegin == /\ pc = "idle" /\ pc' = "prep" /\ file' = <<>> /\ fresh' = FALSE
                /\ UNCHANGED <<x, df, byte, j, i, buf, base, crashes>>
PrepareWrite == /\ pc = "prep"
                /\ IF Len(file) < SpaceBytes(N)
                   THEN file' = Append(file, 0) /\ UNCHANGED <<pc, fresh>>
                   ELSE pc' = "idle" /\ fresh' = TRUE /\ UNCHANGED file
                /\ UNCHANGED <<x, df, byte, j, i, buf, base, crashes>>

MarkBegin == /\ pc = "idle" /\ Len(file) >= SpaceBytes(N)
             /\ pc' = "next" /\ x' = 0 /\ df' = <<>> /\ base' = BytesToBits(file)
             /\ UNCHANGED <<file, byte, j, i, buf, fresh, crashes>>
(* open the slot of x: load the byte where it starts *)
MarkOpen == /\ pc = "next" /\ x < Slots(N)
            /\ \E y \in Targets :
                 /\ df' = Append(df, y)
                 /\ byte' = ((N + 1) * y) \div 8 /\ j' = ((N + 1) * y) % 8 /\ i' = 0
                 /\ buf' = BytesToBits(<<file[((N + 1) * y) \div 8 + 1]>>)
            /\ pc' = "bit"
            /\ UNCHANGED <<file, x, base, fresh, crashes>>
(* set the next bit; a full byte is stored and the next one loaded (at the end *)
(* of the file there is nothing to load)                                       *)
MarkBit ==
  /\ pc = "bit" /\ i <= N
  /\ LET nb == [buf EXCEPT ![j + 1] = Entry(x, N)[i + 1]] IN
     IF j = 7
     THEN /\ file' = [file EXCEPT ![byte + 1] = BitsToBytes(nb)[1]]
          /\ byte' = byte + 1 /\ j' = 0
          /\ buf' = IF byte + 1 < Len(file) THEN BytesToBits(<<file[byte + 2]>>) ELSE nb
     ELSE /\ buf' = nb /\ j' = j + 1 /\ UNCHANGED <<file, byte>>
  /\ i' = i + 1
  /\ UNCHANGED <<pc, x, df, base, fresh, crashes>>
MarkClose ==
  /\ pc = "bit" /\ i = N + 1
  /\ file' = IF j # 0 THEN [file EXCEPT ![byte + 1] = BitsToBytes(buf)[1]] ELSE file
  /\ x' = x + 1 /\ pc' = "next"
  /\ UNCHANGED <<df, byte, j, i, buf, base, fresh, crashes>>
MarkEnd == /\ pc = "next" /\ x = Slots(N) /\ pc' = "done"
           /\ UNCHANGED <<file, x, df, byte, j, i, buf, base, fresh, crashes>>
(* the process stops anywhere and is started again *)
Crash == /\ pc \in {"prep", "next", "bit"} /\ crashes < MaxCrash
         /\ pc' = "idle" /\ crashes' = crashes + 1 /\ fresh' = FALSE
         /\ x' = 0 /\ df' = <<>> /\ byte' = 0 /\ j' = 0 /\ i' = 0 /\ buf' = Zero8 /\ base' = <<>>
         /\ UNCHANGED file

Next == PrepareBegin \/ PrepareWrite \/ MarkBegin \/ MarkOpen \/ MarkBit \/ MarkClose \/ MarkEnd \/ Crash
Spec == Init /\ [][Next]_vars

TypeOK == /\ \A k \in 1..Len(file) : file[k] \in 0..255
          /\ pc \in {"idle", "prep", "next", "bit", "done"}
(* C02: a completed preparation leaves exactly the declared size, all zero    *)
PreparedOK == (fresh /\ pc = "idle") => file = Prepared(N)
(* C03: between entries the file is the base with the entries so far          *)
MarkOK == pc \in {"next", "done"} =>
            BytesToBits(file) =
              FoldLeft(LAMBDA b, k : MarkSlot(b, N, df[k], k - 1), base, [k \in 1..Len(df) |-> k])
MarkedOK == pc = "done" => BytesToBits(file) = Marked(base, N, [k \in 0..Slots(N) - 1 |-> df[k + 1]])
(* C04 on a freshly prepared and marked space *)
AllChal == [k \in 1..Slots(N) |-> k - 1]
TruthOK == (pc = "done" /\ fresh) =>
   LET ans == Answers([k \in 1..Slots(N) |-> Slot(BytesToBits(file), N, k - 1)], N, Slots(N)) IN
   /\ \A k \in 1..Len(ans.idx) : df[ans.xs[k] + 1] = AllChal[ans.idx[k] + 1]
   /\ \A y \in 0..Slots(N) - 1 : (\E k \in 1..Len(df) : df[k] = y) =>
        \E k \in 1..Len(ans.idx) : AllChal[ans.idx[k] + 1] = y
Dirty2 == {<<>>, <<255, 255>>, <<165, 90, 60>>, <<0, 0>>}
Dirty3 == {<<255, 255, 255, 255>>, <<>>}
=============================================================================
