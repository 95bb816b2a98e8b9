-------------------------------- MODULE Seal --------------------------------
(* Sealing: blocks of units, encoded in place one unit after the other.       *)
(* Positions count from 0, sequences from 1.                                  *)
(*   done     the sealed blocks before the current one                        *)
(*   blk      the current block, its units partly encoded                     *)
EXTENDS Naturals, Sequences
CONSTANTS Enc(_, _),        \* unit, dependency data -> encoded unit
          Dec(_, _),        \* its inverse in the first argument
          Ident(_),         \* identifier of a sealed block
          Longs(_, _),      \* block index, <<identifier of the block before>> or <<>> -> indices of earlier blocks
          Shorts(_, _, _),  \* number of units, unit index, <<unit before>> or <<>> -> indices of other units
          Cat(_)            \* sequence of values -> dependency data
PrevId(done) == IF Len(done) = 0 THEN <<>> ELSE <<Ident(done[Len(done)])>>
First(iv, prev) == IF Len(prev) = 0 THEN iv ELSE prev[1]
LongBlocks(done, prev) == LET L == Longs(Len(done), prev) IN [k \in 1..Len(L) |-> done[L[k] + 1]]
(* what unit i of the current block depends on: unit i of the long-range      *)
(* blocks, the short-range units as they are now, and - for the first unit -  *)
(* the initialisation vector or the identifier of the block before (head)     *)
Deps(longs, head, blk, i) ==
  LET S == Shorts(Len(blk), i, IF i = 0 THEN <<>> ELSE <<blk[i]>>) IN
  Cat([k \in 1..Len(longs) |-> longs[k][i + 1]] \o [k \in 1..Len(S) |-> blk[S[k] + 1]]
      \o (IF i = 0 THEN <<head>> ELSE <<>>))
SealUnit(longs, head, blk, i) == [blk EXCEPT ![i + 1] = Enc(blk[i + 1], Deps(longs, head, blk, i))]
UnsealUnit(longs, head, blk, i) == [blk EXCEPT ![i + 1] = Dec(blk[i + 1], Deps(longs, head, blk, i))]
=============================================================================
