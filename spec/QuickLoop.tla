------------------------------ MODULE QuickLoop ------------------------------
(***************************************************************************)
(* The control of the unstable sorts (quick_sort and par_quick_sort) and of *)
(* selection (partition_at_index_loop): which segments are worked on, with  *)
(* which predecessor, when an imbalance is charged, when it falls back,     *)
(* what is recursed into.  The pivot is chosen by an adversary: any element *)
(* of the segment.  What a partition does to the order within its sides is  *)
(* immaterial (BlockPart has that), so a segment is its elements in order;  *)
(* where they are is given by lo.                                           *)
(*                                                                         *)
(* Mode "sort": segments on a stack, the shorter side first.                *)
(* Mode "par": both sides at the same time as soon as one is longer than    *)
(* MaxSeq, in any interleaving.                                             *)
(* Mode "sel": only the side with the wanted rank.                          *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS MinN, MaxN, Ranks, Ins, MaxSeq, Mode, SelLimit, Frac, Keep

VARIABLES rk,      \* the elements in order (fixed)
          turns,   \* where the pivots came to lie, if kept: 0 first, 1 last, 2 amid, 3 equal to the one before
          tasks,   \* set of stacks of segments: one per thread of control
          out,     \* position -> element there once it is settled, else None
          work, heap, want, bad
vars == <<rk, turns, tasks, out, work, heap, want, bad>>
None == -1
N0 == Len(rk)
FloorLog2(n) == IF n = 0 THEN -1 ELSE Log2(n)
Bits(n) == FloorLog2(n) + 1
Incr(n) == { [i \in 1..n |-> i] }
NonDec(n) == { f \in [1..n -> Ranks] : \A i \in 1..(n-1) : f[i] <= f[i+1] }
\* a segment: where it starts, its elements in order, the predecessor's rank and position, the budget, the two flags,
\* and in how many imbalanced partitions it has been involved
Seg(lo, s, pred, pp, limit) == [lo |-> lo, s |-> s, pred |-> pred, pp |-> pp, limit |-> limit, bal |-> TRUE, part |-> TRUE]
StartLimit(n) == IF Mode = "sel" THEN SelLimit ELSE Bits(n)
Init == \E n \in MinN..MaxN : \E f \in NonDec(n) : \E w \in (IF Mode = "sel" THEN 0..(n-1) ELSE {None}) :
  /\ rk = f /\ turns = <<>> /\ tasks = {<<Seg(0, f, None, None, StartLimit(n))>>}
  /\ out = [ i \in 1..n |-> None ] /\ work = 0 /\ heap = 0 /\ want = w /\ bad = 0

Top(t) == t[Len(t)]
Rest(t) == SubSeq(t, 1, Len(t) - 1)
Place(o, lo, s) == [ i \in 1..N0 |-> IF i > lo /\ i <= lo + Len(s) THEN s[i - lo] ELSE o[i] ]
Without(t, ts) == (tasks \ {t}) \cup ts
Left(t) == IF t = <<>> THEN {} ELSE {t}
\* a segment is settled in order
Settle(t) == LET x == Top(t) IN
  /\ out' = Place(out, x.lo, x.s)
  /\ tasks' = Without(t, Left(Rest(t)))
Note(k) == turns' = IF Keep THEN Append(turns, k) ELSE turns
\* one turn of the loop with pivot x.s[i]; guess: what partial insertion was allowed to say
Turn(t) == LET x == Top(t)  n == Len(x.s) IN
  IF n <= Ins THEN Settle(t) /\ UNCHANGED <<work, heap, bad, turns>>
  ELSE IF x.limit = 0 THEN Settle(t) /\ heap' = heap + n /\ UNCHANGED <<work, bad, turns>>
  ELSE LET limit == IF x.bal THEN x.limit ELSE x.limit - 1 IN
       \* partial insertion may find the segment sorted
       \/ /\ Mode # "sel" /\ x.bal /\ x.part
          /\ ~Keep /\ Settle(t) /\ work' = work + n /\ UNCHANGED <<heap, bad, turns>>
       \/ \E p \in { x.s[i] : i \in 1..n } :
          LET lt == SelectSeq(x.s, LAMBDA a : a < p)
              eq == SelectSeq(x.s, LAMBDA a : a = p)
              ge == SelectSeq(x.s, LAMBDA a : a >= p)
              gt == SelectSeq(x.s, LAMBDA a : a > p)
              mid == Len(lt) IN
          IF x.pred # None /\ ~(x.pred < p)
          THEN \* partition_equal takes everything not greater than the pivot aside
               LET l == Len(lt) + Len(eq) IN
               /\ out' = Place(out, x.lo, SubSeq(x.s, 1, l))
               /\ work' = work + n /\ UNCHANGED <<heap, bad>> /\ Note(3)
               /\ tasks' = IF Mode = "sel" /\ l > want - x.lo THEN Without(t, Left(Rest(t)))
                           ELSE Without(t, {Append(Rest(t), [x EXCEPT !.lo = @ + l, !.s = gt, !.limit = limit,
                                                                      !.pred = IF Mode = "sel" THEN None ELSE @,
                                                                      !.pp = IF Mode = "sel" THEN None ELSE @])})
          ELSE \E wasp \in (IF Mode = "sel" \/ Keep THEN {TRUE} ELSE BOOLEAN) :
               LET balanced == (IF mid < n - mid THEN mid ELSE n - mid) >= n \div Frac
                   right == SubSeq(ge, 2, Len(ge))
                   pos == x.lo + mid
                   l == [x EXCEPT !.s = lt, !.limit = limit, !.bal = balanced, !.part = wasp]
                   r == [x EXCEPT !.lo = pos + 1, !.s = right, !.limit = limit, !.bal = balanced, !.part = wasp,
                                  !.pred = p, !.pp = pos]
                   \* called anew: the flags start over
                   anew(y, lim) == [y EXCEPT !.limit = lim, !.bal = TRUE, !.part = TRUE]
                   charged == IF balanced THEN limit ELSE IF limit = 0 THEN 0 ELSE limit - 1 IN
               /\ out' = Place(out, pos, <<p>>)
               /\ work' = work + n /\ UNCHANGED heap
               /\ Note(IF balanced THEN 2 ELSE IF mid < n - mid THEN 0 ELSE 1)
               /\ bad' = IF balanced THEN bad ELSE bad + n
               /\ tasks' = IF Mode = "sel"
                           THEN IF pos = want THEN Without(t, Left(Rest(t)))
                                ELSE IF pos < want THEN Without(t, {Append(Rest(t), r)})
                                ELSE Without(t, {Append(Rest(t), l)})
                           ELSE IF Mode = "par" /\ (Len(lt) > MaxSeq \/ Len(right) > MaxSeq)
                           THEN Without(t, Left(Rest(t)) \cup {<<anew(l, charged)>>, <<anew(r, charged)>>})
                           ELSE IF Len(lt) < Len(right)
                           THEN Without(t, {Rest(t) \o <<r, anew(l, limit)>>})
                           ELSE Without(t, {Rest(t) \o <<l, anew(r, limit)>>})
Done == tasks = {}
Next == /\ UNCHANGED <<rk, want>>
        /\ \/ \E t \in tasks : Turn(t)
           \/ Done /\ UNCHANGED vars

Max2(a, b) == IF a < b THEN b ELSE a
Segs == UNION { { t[i] : i \in 1..Len(t) } : t \in tasks }
\* segments and settled places tile the array, each with the elements that belong there
Tiles == /\ \A x, y \in Segs : x # y => x.lo + Len(x.s) <= y.lo \/ y.lo + Len(y.s) <= x.lo
         /\ \A x \in Segs : \A i \in 1..Len(x.s) : x.s[i] = rk[x.lo + i] /\ out[x.lo + i] = None
         /\ Mode # "sel" => \A i \in 1..N0 : out[i] = None => \E x \in Segs : i > x.lo /\ i <= x.lo + Len(x.s)
\* what is taken for granted about the predecessor: nothing in the segment is less, and it has its final place before it
PredOk == \A x \in Segs : x.pred # None =>
            /\ \A i \in 1..Len(x.s) : x.s[i] >= x.pred
            /\ x.pp < x.lo /\ out[x.pp + 1] = x.pred
\* threads share no predecessor (it is shown to callbacks), nor is one inside of a segment
PredOwned == Mode = "par" => \A t, u \in tasks : t # u =>
               \A i \in 1..Len(t) : \A j \in 1..Len(u) : t[i].pp # None => t[i].pp # u[j].pp
Right == \A i \in 1..N0 : out[i] # None => out[i] = rk[i]
WantIn == Mode = "sel" => \A x \in Segs : want >= x.lo /\ want < x.lo + Len(x.s)
AllDone == Done => IF Mode = "sel" THEN out[want + 1] = rk[want + 1] ELSE out = rk
DepthOk == Mode = "sort" => \A t \in tasks : Len(t) <= FloorLog2(N0) + 1
LimitOk == \A x \in Segs : x.limit >= 0
Distinct(s) == Cardinality({ s[i] : i \in 1..Len(s) })
\* few distinct values: each costs two passes, whatever the pivots
FewOk == Mode # "sel" => work <= (2 * Distinct(rk) + 1) * N0
\* imbalanced partitions are charged: at most one pass over everything per unit of the limit (and one not charged yet)
BadOk == Mode # "sel" => bad <= (Bits(N0) + 1) * N0
\* every other pass at most leaves a part: passes over everything there can be
RECURSIVE Levels(_)
Levels(n) == IF n <= Ins \/ n <= 1 THEN 0 ELSE 1 + Levels(n - Max2(1, n \div Frac))
WorkOk == Mode # "sel" => work <= (Bits(N0) + 2 + Levels(N0)) * N0
SelOk == Mode = "sel" => work <= (Frac + SelLimit + 1) * N0 /\ heap <= N0
Emit == (Done /\ Len(turns) >= 2) => PrintT(<<"SCEN", "turns", turns>>)
==============================================================================
