------------------------------ MODULE AnyPieces -------------------------------
(***************************************************************************)
(* How work is cut into pieces, at every length and with any answers: the     *)
(* halves of a merge (par_merge, split_for_merge of src/par/merge_sort.rs),   *)
(* the chunks of the parallel sort and their shares of the buffer, the parts  *)
(* between the indices of a bulk selection (partition_at_indices).            *)
(*                                                                         *)
(* A state is a piece: left run a0..a1, right run b0..b1, destination d0..d1  *)
(* for a merge; the part a0..a1 and the indices wanted in it, the least b0,    *)
(* the greatest b1, the number of them d1 - d0, whose places in the result     *)
(* begin at d0, for a selection.  A step goes to one of the two pieces that    *)
(* come of it, the other one is kept beside it (other): they do not overlap,   *)
(* nothing is left over, and both are smaller.                                *)
(***************************************************************************)
EXTENDS Integers
CHUNK == 2000
SEQ == 5000
VARIABLES
  \* @type: Str;
  what,
  \* @type: Int;
  n,
  \* @type: Int;
  a0,
  \* @type: Int;
  a1,
  \* @type: Int;
  b0,
  \* @type: Int;
  b1,
  \* @type: Int;
  d0,
  \* @type: Int;
  d1,
  \* @type: Int;
  size,
  \* @type: { a0: Int, a1: Int, b0: Int, b1: Int, d0: Int, d1: Int };
  other
Nothing == [a0 |-> 0, a1 |-> 0, b0 |-> 0, b1 |-> 0, d0 |-> 0, d1 |-> 0]
Apart(p0, p1, q0, q1) == p1 <= q0 \/ q1 <= p0
Merge == what = "merge" =>
  /\ 0 <= a0 /\ a0 <= a1 /\ a1 <= b0 /\ b0 <= b1 /\ b1 <= n
  /\ 0 <= d0 /\ d1 <= n
  /\ d1 - d0 = (a1 - a0) + (b1 - b0)
Select == what = "select" =>
  /\ 0 <= a0 /\ a0 <= a1 /\ a1 <= n
  /\ 0 <= d0 /\ d0 <= d1
  \* that many different indices between the least and the greatest
  /\ d0 < d1 => a0 <= b0 /\ b0 <= b1 /\ b1 < a1 /\ d1 - d0 <= b1 - b0 + 1
\* chunk number size of as many as it takes: a0..a1 of the array and of the buffer alike
Chunks == what = "chunks" => n >= 1 /\ 0 <= a0 /\ a0 < a1 /\ a1 <= n /\ a1 - a0 <= CHUNK
Ind == Merge /\ Select /\ Chunks
Safe ==
  /\ what = "merge" => /\ Apart(a0, a1, other.a0, other.a1) /\ Apart(b0, b1, other.b0, other.b1)
                       /\ Apart(a0, a1, other.b0, other.b1) /\ Apart(b0, b1, other.a0, other.a1)
                       /\ Apart(d0, d1, other.d0, other.d1)
                       /\ d1 - d0 < size
  /\ what = "select" => /\ Apart(a0, a1, other.a0, other.a1) /\ Apart(d0, d1, other.d0, other.d1)
                        /\ a1 - a0 < size
  /\ what = "chunks" => Apart(a0, a1, other.a0, other.a1)
First ==
  \/ what = "merge" /\ a0 = 0 /\ 0 <= a1 /\ a1 = b0 /\ b0 <= b1 /\ b1 = n /\ d0 = 0 /\ d1 = n
  \/ what = "select" /\ a0 = 0 /\ a1 = n /\ d0 = 0 /\ 1 <= d1 /\ 0 <= b0 /\ b0 <= b1 /\ b1 < n /\ d1 <= b1 - b0 + 1
  \/ what = "chunks" /\ a0 = 0 /\ a1 = (IF n < CHUNK THEN n ELSE CHUNK) /\ n >= 1
Inv == Ind /\ Safe
Start ==
  /\ what \in {"merge", "select", "chunks"} /\ n \in Int
  /\ a0 \in Int /\ a1 \in Int /\ b0 \in Int /\ b1 \in Int /\ d0 \in Int /\ d1 \in Int /\ size \in Int
  /\ other = Nothing
  /\ n >= 0 /\ size = n + 1
  /\ (First \/ Ind)
\* the middle of the longer run, anywhere in the other
MergeStep == \E p \in Int : \E q \in Int :
  /\ (a1 - a0) > 0 /\ (b1 - b0) > 0 /\ d1 - d0 >= SEQ
  /\ IF a1 - a0 >= b1 - b0 THEN p = (a1 - a0) \div 2 /\ 0 <= q /\ q <= b1 - b0
     ELSE q = (b1 - b0) \div 2 /\ 0 <= p /\ p <= a1 - a0
  /\ LET x == [a0 |-> a0, a1 |-> a0 + p, b0 |-> b0, b1 |-> b0 + q, d0 |-> d0, d1 |-> d0 + p + q]
         y == [a0 |-> a0 + p, a1 |-> a1, b0 |-> b0 + q, b1 |-> b1, d0 |-> d0 + p + q, d1 |-> d1] IN
     \/ /\ a0' = x.a0 /\ a1' = x.a1 /\ b0' = x.b0 /\ b1' = x.b1 /\ d0' = x.d0 /\ d1' = x.d1 /\ other' = y
     \/ /\ a0' = y.a0 /\ a1' = y.a1 /\ b0' = y.b0 /\ b1' = y.b1 /\ d0' = y.d0 /\ d1' = y.d1 /\ other' = x
  /\ size' = d1 - d0
\* the index in the middle of the list; lo and hi are its neighbours in the list
SelectStep == \E at \in Int : \E pivot \in Int : \E lo \in Int : \E hi \in Int :
  /\ d0 < d1 /\ at = (d1 - d0) \div 2
  /\ at = 0 => pivot = b0
  /\ at = d1 - d0 - 1 => pivot = b1
  /\ b0 + at <= pivot /\ pivot <= b1 - (d1 - d0 - 1 - at)
  /\ at > 0 => lo < pivot /\ b0 + at - 1 <= lo /\ (at = 1 => lo = b0)
  /\ at < d1 - d0 - 1 => hi > pivot /\ hi <= b1 - (d1 - d0 - 2 - at) /\ (at = d1 - d0 - 2 => hi = b1)
  /\ LET x == [a0 |-> a0, a1 |-> pivot, b0 |-> b0, b1 |-> lo, d0 |-> d0, d1 |-> d0 + at]
         y == [a0 |-> pivot + 1, a1 |-> a1, b0 |-> hi, b1 |-> b1, d0 |-> d0 + at + 1, d1 |-> d1] IN
     \/ /\ a0' = x.a0 /\ a1' = x.a1 /\ b0' = x.b0 /\ b1' = x.b1 /\ d0' = x.d0 /\ d1' = x.d1 /\ other' = y
     \/ /\ a0' = y.a0 /\ a1' = y.a1 /\ b0' = y.b0 /\ b1' = y.b1 /\ d0' = y.d0 /\ d1' = y.d1 /\ other' = x
  /\ size' = a1 - a0
ChunkStep ==
  /\ a1 < n
  /\ a0' = a1 /\ a1' = (IF a1 + CHUNK < n THEN a1 + CHUNK ELSE n)
  /\ other' = [Nothing EXCEPT !.a0 = a0, !.a1 = a1]
  /\ UNCHANGED <<b0, b1, d0, d1, size>>
Next ==
  /\ UNCHANGED <<what, n>>
  /\ \/ what = "merge" /\ MergeStep
     \/ what = "select" /\ SelectStep
     \/ what = "chunks" /\ ChunkStep
===============================================================================
