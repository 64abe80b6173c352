------------------------------- MODULE BulkTree -------------------------------
(***************************************************************************)
(* Bulk selection (partition_at_indices, sequential and parallel): the      *)
(* middle rank is selected, which splits the segment and the list of ranks, *)
(* and both halves go on -- one after the other (Par = FALSE) or at the     *)
(* same time in any interleaving (Par = TRUE), each writing its own slots   *)
(* of the collection.                                                       *)
(*                                                                         *)
(* Selecting within a segment is its contract here: any rearrangement of    *)
(* the segment that is partitioned at the rank.  It may also panic and      *)
(* leave any rearrangement of the segment.                                  *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS MaxN, Ranks, Par, Panics

VARIABLES q,      \* ranks in memory
          idx,    \* ranks wanted
          slots,  \* per wanted rank the position its reference points to, -1: not written
          order,  \* the ranks in the order they were handed over
          tasks, cost, raised, first
vars == <<q, idx, slots, order, tasks, cost, raised, first>>
N0 == Len(q)
M0 == Len(idx)
Perms(n) == { p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j] }
PermTable == [ n \in 0..MaxN |-> Perms(n) ]
Sorted1(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Init == \E n \in 1..MaxN : \E f \in [1..n -> Ranks] : \E S \in SUBSET (0..(n-1)) :
  /\ q = f /\ first = f /\ idx = Sorted1(S)
  /\ slots = [ j \in 1..Cardinality(S) |-> -1 ] /\ order = <<>>
  /\ tasks = (<<>> :> [pc |-> "go", lo |-> 0, hi |-> n, il |-> 1, ih |-> Cardinality(S) + 1, out |-> ""])
  /\ cost = 0 /\ raised = 0

Kid(t, i) == Append(t, i)
Task(lo, hi, il, ih) == [pc |-> "go", lo |-> lo, hi |-> hi, il |-> il, ih |-> ih, out |-> ""]
Seg(x) == SubSeq(q, x.lo + 1, x.hi)
With(x, s) == [ i \in 1..N0 |-> IF i > x.lo /\ i <= x.hi THEN s[i - x.lo] ELSE q[i] ]
AtOf(x) == x.il + (x.ih - x.il) \div 2
PivotOf(x) == idx[AtOf(x)]
Ended(t) == t \in DOMAIN tasks /\ tasks[t].pc = "done"
Without(S) == [ u \in DOMAIN tasks \ S |-> tasks[u] ]

Empty(t) == LET x == tasks[t] IN
  /\ x.pc = "go" /\ x.il = x.ih
  /\ tasks' = [tasks EXCEPT ![t].pc = "done", ![t].out = "ok"]
  /\ UNCHANGED <<q, slots, order, cost, raised>>
Select(t) == LET x == tasks[t] IN
  /\ x.pc = "go" /\ x.il < x.ih
  /\ LET at == AtOf(x)  pv == PivotOf(x)  n == x.hi - x.lo IN
     /\ pv >= x.lo /\ pv < x.hi          \* else partition_at_index would refuse
     /\ \E p \in PermTable[n] : LET s == After(Seg(x), p) IN
          /\ PartitionedAt(s, pv - x.lo)
          /\ q' = With(x, s)
     /\ cost' = cost + n
     /\ IF Par THEN /\ slots[at] = -1 /\ slots' = [slots EXCEPT ![at] = pv]
                    /\ tasks' = (t :> [x EXCEPT !.pc = "both"])
                                @@ (Kid(t, 1) :> Task(x.lo, pv, x.il, at)) @@ (Kid(t, 2) :> Task(pv + 1, x.hi, at + 1, x.ih)) @@ tasks
        ELSE /\ UNCHANGED slots
             /\ tasks' = (t :> [x EXCEPT !.pc = "left"]) @@ (Kid(t, 1) :> Task(x.lo, pv, x.il, at)) @@ tasks
  /\ UNCHANGED <<order, raised>>
Raise(t) == LET x == tasks[t] IN
  /\ x.pc = "go" /\ x.il < x.ih /\ raised < Panics
  /\ \E p \in PermTable[x.hi - x.lo] : q' = With(x, After(Seg(x), p))
  /\ tasks' = [tasks EXCEPT ![t].pc = "done", ![t].out = "panic"]
  /\ raised' = raised + 1 /\ UNCHANGED <<slots, order, cost>>
Left(t) == LET x == tasks[t] IN
  /\ x.pc = "left" /\ Ended(Kid(t, 1))
  /\ IF tasks[Kid(t, 1)].out = "panic"
     THEN /\ tasks' = (t :> [x EXCEPT !.pc = "done", !.out = "panic"]) @@ Without({Kid(t, 1)})
          /\ UNCHANGED <<slots, order>>
     ELSE LET at == AtOf(x)  pv == PivotOf(x) IN
          /\ slots[at] = -1 /\ slots' = [slots EXCEPT ![at] = pv]
          /\ order' = Append(order, pv)
          /\ tasks' = (t :> Task(pv + 1, x.hi, at + 1, x.ih)) @@ Without({Kid(t, 1)})
  /\ UNCHANGED <<q, cost, raised>>
Both(t) == LET x == tasks[t] IN
  /\ x.pc = "both" /\ Ended(Kid(t, 1)) /\ Ended(Kid(t, 2))
  /\ tasks' = (t :> [x EXCEPT !.pc = "done",
                       !.out = IF tasks[Kid(t, 1)].out = "panic" \/ tasks[Kid(t, 2)].out = "panic" THEN "panic" ELSE "ok"])
              @@ Without({Kid(t, 1), Kid(t, 2)})
  /\ UNCHANGED <<q, slots, order, cost, raised>>
AllDone == tasks[<<>>].pc = "done"
Next == \/ /\ \E t \in DOMAIN tasks : Empty(t) \/ Select(t) \/ Raise(t) \/ Left(t) \/ Both(t)
           /\ UNCHANGED <<idx, first>>
        \/ AllDone /\ UNCHANGED vars

Count(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
Kept == \A x \in Ranks : Count(q, x) = Count(first, x)
Disjoint == \A t, u \in DOMAIN tasks : (t # u /\ tasks[t].pc = "go" /\ tasks[u].pc = "go") =>
  /\ tasks[t].hi <= tasks[u].lo \/ tasks[u].hi <= tasks[t].lo
  /\ tasks[t].ih <= tasks[u].il \/ tasks[u].ih <= tasks[t].il
InSegment == \A t \in DOMAIN tasks : tasks[t].pc = "go" =>
  \A j \in tasks[t].il..(tasks[t].ih - 1) : idx[j] >= tasks[t].lo /\ idx[j] < tasks[t].hi
Result1 == AllDone =>
  IF raised = 0
  THEN /\ tasks[<<>>].out = "ok"
       /\ PartitionedAtAll(q, idx) /\ PartitionedAtEach(q, idx)
       /\ slots = idx
       /\ ~Par => order = idx
       /\ \A j \in 1..M0 : q[idx[j] + 1] = SortSeq(first, LAMBDA a, b : a < b)[idx[j] + 1]
  ELSE tasks[<<>>].out = "panic"
CostOk == cost <= N0 * (CeilLog2(M0 + 1) + 1)
Emit == (AllDone /\ raised = 0 /\ M0 >= 2 /\ q = first /\ \A i \in 1..N0 : first[i] = first[1]) =>
  PrintT(<<"SCEN", "bulk", [ j \in 1..M0 |-> idx[j] - (IF j = 1 THEN -1 ELSE idx[j-1]) ]>>)
==============================================================================
