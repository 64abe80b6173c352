------------------------------ MODULE RunStack -------------------------------
(***************************************************************************)
(* The run stack of the stable sorts (merge_sort of src/merge_sort.rs;     *)
(* par/merge_sort.rs keeps the same stack mirrored, from the end of a      *)
(* chunk).  Elements are abstracted away: a run is [start, len].           *)
(*                                                                         *)
(* Checked: the runs tile what has been scanned; only neighbours are       *)
(* merged; a merge never needs more than half of the elements as buffer;   *)
(* one run is left in the end; the depth of the stack and the merge work   *)
(* stay within bounds; growing the stack keeps its content.                *)
(* Every complete behaviour is printed as a scenario for the code.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Slice1Ops

CONSTANTS Total,     \* elements, in units of the minimal run
          StartCap,  \* initial capacity of the stack
          Lens       \* <<>>: every sequence of run lengths; otherwise only this one

VARIABLES runs, pos, pushed, cap, work, buf, deepest
vars == <<runs, pos, pushed, cap, work, buf, deepest>>

\* which two neighbours to merge, 0 if none: the index of the left one
CollapseAt(rs, stop) ==
  LET n == Len(rs)
      L(k) == rs[n - k].len IN
  IF n >= 2 /\ ( \/ rs[n].start + rs[n].len = stop
                 \/ L(1) <= L(0)
                 \/ n >= 3 /\ L(2) <= L(1) + L(0)
                 \/ n >= 4 /\ L(3) <= L(2) + L(1) )
  THEN IF n >= 3 /\ L(2) < L(0) THEN n - 2 ELSE n - 1
  ELSE 0

Init == runs = <<>> /\ pos = 0 /\ pushed = <<>> /\ cap = StartCap /\ work = 0 /\ buf = 0 /\ deepest = 0
NextLens == IF Lens = <<>> THEN 1..(Total - pos)
           ELSE IF pos < Total THEN {Lens[Len(pushed) + 1]} ELSE {}
Push(n) ==
  /\ pos < Total /\ CollapseAt(runs, Total) = 0
  /\ cap' = IF Len(runs) = cap THEN 2 * cap ELSE cap
  /\ runs' = Append(runs, [start |-> pos, len |-> n])
  /\ pos' = pos + n
  /\ pushed' = Append(pushed, n)
  /\ deepest' = IF Len(runs') > deepest THEN Len(runs') ELSE deepest
  /\ UNCHANGED <<work, buf>>
Less(a, b) == IF a <= b THEN a ELSE b
Merge ==
  LET r == CollapseAt(runs, Total) IN
  /\ r > 0
  /\ LET a == runs[r]  b == runs[r+1] IN
     /\ runs' = SubSeq(runs, 1, r - 1) \o <<[start |-> a.start, len |-> a.len + b.len]>> \o SubSeq(runs, r + 2, Len(runs))
     /\ work' = work + a.len + b.len
     /\ buf' = IF Less(a.len, b.len) > buf THEN Less(a.len, b.len) ELSE buf
  /\ UNCHANGED <<pos, pushed, cap, deepest>>
Done ==
  /\ pos = Total /\ CollapseAt(runs, Total) = 0
  /\ UNCHANGED vars
Next == (\E n \in NextLens : Push(n)) \/ Merge \/ Done
Spec == Init /\ [][Next]_vars

Ended == pos = Total /\ CollapseAt(runs, Total) = 0
Tiles == /\ \A i \in 1..Len(runs) : runs[i].len > 0
         /\ Len(runs) > 0 => runs[1].start = 0 /\ runs[Len(runs)].start + runs[Len(runs)].len = pos
         /\ \A i \in 1..(Len(runs)-1) : runs[i].start + runs[i].len = runs[i+1].start
OneRun == Ended => Len(runs) = 1 /\ runs[1] = [start |-> 0, len |-> Total]
BufferOk == buf <= Total \div 2
CapOk == Len(runs) <= cap
\* between pushes, lengths shrink like the Fibonacci numbers
Shrinks == (CollapseAt(runs, Total) = 0) =>
             \A i \in 1..(Len(runs)-1) : /\ runs[i].len > runs[i+1].len
                                         /\ i < Len(runs) - 1 => runs[i].len > runs[i+1].len + runs[i+2].len
RECURSIVE Fib(_)
Fib(k) == IF k <= 2 THEN k ELSE Fib(k-1) + Fib(k-2)
DepthOk == (CollapseAt(runs, Total) = 0) => Len(runs) = 0 \/ Fib(Len(runs)) <= Total
WorkOk == 2 * work <= 3 * Total * (Log2(Total) + 2)
Emit == (Ended /\ Len(pushed) >= 3) =>
          PrintT(<<"SCEN", IF Lens = <<>> THEN "runs" ELSE "deep", pushed>>)

\* the shortest run lengths that keep k runs on the stack (the code's minimal run has ten elements), one more pushed
RECURSIVE DeepFrom(_, _)
DeepFrom(k, m) == IF k = 1 THEN <<m>>
                  ELSE IF k = 2 THEN <<m + 1, m>>
                  ELSE LET t == DeepFrom(k - 1, m) IN <<t[1] + t[2] + 1>> \o t
DeepLens(k) == DeepFrom(k, 10) \o <<10>>
None == <<>>
SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Deep16 == DeepLens(16)
Deep16Total == SumOf(Deep16)
Deep5 == DeepLens(5)
Deep5Total == SumOf(Deep5)
Grows == (Ended /\ Lens # <<>>) => deepest = Len(Lens) /\ cap = 2 * StartCap
==============================================================================
