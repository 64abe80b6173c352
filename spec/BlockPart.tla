------------------------------ MODULE BlockPart ------------------------------
(***************************************************************************)
(* Partitioning in blocks (partition_in_blocks of src/partition.rs and of   *)
(* src/par/partition.rs): offsets of misplaced elements are collected in a  *)
(* block at each end, exchanged in a cyclic permutation, and what is left   *)
(* in one block is shifted to its inner end.                                *)
(*                                                                         *)
(* Elements are 1..N, low[e]: "less than the pivot".  A tracing step asks   *)
(* once per element; a Liar answers anything.  The block size is 128 in the *)
(* code and Block here, everything else is the same.                        *)
(*                                                                         *)
(* Checked: every access lies inside; the two blocks never overlap; the     *)
(* content stays a permutation at every step; each element is asked about   *)
(* exactly once; at the end the low elements are in front and the count is  *)
(* theirs.                                                                  *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS Block, MaxN, Liar
ASSUME Block >= 1 /\ Liar \in BOOLEAN

VARIABLES v, low, start, pc, l, r, bl, br, ol, or, asked, count
vars == <<v, low, start, pc, l, r, bl, br, ol, or, asked, count>>
Len0 == Len(v)
Width == r - l
IsDone == Width <= 2 * Block

Init == \E n \in 1..MaxN : \E f \in [1..n -> BOOLEAN] :
  /\ v = [i \in 1..n |-> i] /\ low = f /\ start = f
  /\ pc = "size" /\ l = 0 /\ r = n /\ bl = Block /\ br = Block
  /\ ol = <<>> /\ or = <<>> /\ asked = 0 /\ count = -1

\* is_done: align the blocks with the gap
Size ==
  /\ pc = "size"
  /\ IF ~IsDone THEN UNCHANGED <<bl, br>>
     ELSE LET rem == IF ol # <<>> \/ or # <<>> THEN Width - Block ELSE Width IN
          IF ol # <<>> THEN br' = rem /\ UNCHANGED bl
          ELSE IF or # <<>> THEN bl' = rem /\ UNCHANGED br
          ELSE bl' = rem \div 2 /\ br' = rem - rem \div 2
  /\ pc' = IF ol = <<>> THEN "traceL" ELSE IF or = <<>> THEN "traceR" ELSE "swap"
  /\ UNCHANGED <<v, low, start, l, r, ol, or, asked, count>>

Truth(i) == low[v[i + 1]]            \* 0-based position
Answers(n, Ix(_)) == IF Liar THEN [1..n -> BOOLEAN] ELSE { [i \in 1..n |-> Truth(Ix(i))] }
Collect(n, a, want) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : a[i + 1] = want)
TraceL ==
  /\ pc = "traceL"
  /\ \E a \in Answers(bl, LAMBDA i : l + i - 1) :
       /\ ol' = Collect(bl, a, FALSE)
       /\ asked' = asked + bl
       /\ low' = IF Liar THEN [e \in 1..Len0 |-> IF \E i \in 1..bl : v[l + i] = e
                                                   THEN a[CHOOSE i \in 1..bl : v[l + i] = e] ELSE low[e]] ELSE low
  /\ pc' = IF or = <<>> THEN "traceR" ELSE "swap"
  /\ UNCHANGED <<v, start, l, r, bl, br, or, count>>
TraceR ==
  /\ pc = "traceR"
  /\ \E a \in Answers(br, LAMBDA i : r - i) :
       /\ or' = Collect(br, a, TRUE)
       /\ asked' = asked + br
       /\ low' = IF Liar THEN [e \in 1..Len0 |-> IF \E i \in 1..br : v[r - i + 1] = e
                                                   THEN a[CHOOSE i \in 1..br : v[r - i + 1] = e] ELSE low[e]] ELSE low
  /\ pc' = "swap"
  /\ UNCHANGED <<v, start, l, r, bl, br, ol, count>>

\* The cyclic permutation of the first c pairs: tmp = L1, L1 <- R1, R1 <- L2, L2 <- R2, ..., Rc <- tmp
LeftPos(j) == l + ol[j] + 1
RightPos(j) == r - or[j]
Cyclic(c) == [ p \in 1..Len0 |->
  IF \E j \in 1..c : p = LeftPos(j) THEN v[RightPos(CHOOSE j \in 1..c : p = LeftPos(j))]
  ELSE IF \E j \in 1..c : p = RightPos(j)
  THEN LET j == CHOOSE k \in 1..c : p = RightPos(k) IN v[LeftPos(IF j = c THEN 1 ELSE j + 1)]
  ELSE v[p] ]
Exchange ==
  /\ pc = "swap"
  /\ LET c == IF Len(ol) <= Len(or) THEN Len(ol) ELSE Len(or)
         ol2 == SubSeq(ol, c + 1, Len(ol))
         or2 == SubSeq(or, c + 1, Len(or))
         done == IsDone IN
     /\ v' = Cyclic(c)
     /\ ol' = ol2 /\ or' = or2
     /\ l' = IF ol2 = <<>> THEN l + bl ELSE l
     /\ r' = IF or2 = <<>> THEN r - br ELSE r
     /\ pc' = IF done THEN "rest" ELSE "size"
  /\ UNCHANGED <<low, start, bl, br, asked, count>>

SwapPos(i, j) == [ v EXCEPT ![i] = v[j], ![j] = v[i] ]
Rest ==
  /\ pc = "rest"
  /\ IF ol # <<>>
     THEN /\ v' = SwapPos(l + ol[Len(ol)] + 1, r)
          /\ ol' = SubSeq(ol, 1, Len(ol) - 1) /\ r' = r - 1
          /\ UNCHANGED <<or, l>>
          /\ IF Len(ol) = 1 THEN pc' = "end" /\ count' = r - 1 ELSE UNCHANGED <<pc, count>>
     ELSE IF or # <<>>
     THEN /\ v' = SwapPos(l + 1, r - or[Len(or)])
          /\ or' = SubSeq(or, 1, Len(or) - 1) /\ l' = l + 1
          /\ UNCHANGED <<ol, r>>
          /\ IF Len(or) = 1 THEN pc' = "end" /\ count' = l + 1 ELSE UNCHANGED <<pc, count>>
     ELSE pc' = "end" /\ count' = l /\ UNCHANGED <<v, ol, or, l, r>>
  /\ UNCHANGED <<low, start, bl, br, asked>>
Done == pc = "end" /\ UNCHANGED vars
Next == Size \/ TraceL \/ TraceR \/ Exchange \/ Rest \/ Done

(* ----------------------------- invariants ----------------------------- *)
Permuted == IsPerm(v, Len0)
Inside == /\ 0 <= l /\ l <= r /\ r <= Len0
          /\ bl \in 0..Block /\ br \in 0..Block
          /\ pc \in {"traceL", "traceR", "swap"} => bl + br <= Width
          /\ (pc = "swap" /\ IsDone) => bl + br = Width
          /\ pc = "swap" => /\ \A j \in 1..Len(ol) : ol[j] \in 0..(bl-1)
                            /\ \A j \in 1..Len(or) : or[j] \in 0..(br-1)
          /\ pc = "rest" => ol = <<>> \/ or = <<>>
          /\ StrictlyIncreasing(ol) /\ StrictlyIncreasing(or)
\* what lies outside l..r is in its place already (by the answer given for it)
Settled == /\ \A i \in 1..l : low[v[i]]
           /\ \A i \in (r+1)..Len0 : ~low[v[i]]
Result1 == pc = "end" => /\ asked = Len0
                         /\ count = Cardinality({ e \in 1..Len0 : low[e] })
                         /\ \A i \in 1..Len0 : low[v[i]] <=> i <= count
\* run lengths, low negative
RECURSIVE Runs(_, _)
Runs(f, i) == IF i > Len(f) THEN <<>>
  ELSE LET e == CHOOSE k \in i..Len(f) : (\A j \in i..k : f[j] = f[i]) /\ (k = Len(f) \/ f[k+1] # f[i]) IN
       <<IF f[i] THEN 0 - (e - i + 1) ELSE e - i + 1>> \o Runs(f, e + 1)
Emit == (pc = "end" /\ ~Liar /\ Len0 >= 4) => PrintT(<<"SCEN", "blocks", Runs([i \in 1..Len0 |-> start[i]], 1)>>)
==============================================================================
