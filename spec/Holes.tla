-------------------------------- MODULE Holes ---------------------------------
(***************************************************************************)
(* The four loops that keep an element outside the array while they ask:    *)
(* insertion at either end (insert_tail, insert_head) and merging with a    *)
(* buffer from either side (merge of src/merge_sort.rs and of               *)
(* src/par/merge_sort.rs).  One step per comparison with what it causes; a  *)
(* guard puts the outside elements back on the way out.                     *)
(*                                                                         *)
(* Checked: at every comparison, what the guard would leave behind is a     *)
(* permutation -- so a panic there loses and duplicates nothing; accesses   *)
(* stay inside; comparisons at most Len-1 (a merge) resp. Len-1 (an         *)
(* insertion); with truthful answers the end is the stable sort.            *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS MaxN, Ranks, Liar

VARIABLES mode, v, rk, mid, tmp, hole, i, buf, start, end, out, pc, asked
vars == <<mode, v, rk, mid, tmp, hole, i, buf, start, end, out, pc, asked>>
L0 == Len(rk)
Incr(f, a, b) == \A k \in a..(b-1) : f[k] <= f[k+1]
\* identities are positions in the input; the input is two sorted pieces: 1..mid and mid+1..n
Init == \E n \in 2..MaxN : \E f \in [1..n -> Ranks] : \E m \in {"tail", "head", "fwd", "bwd"} : \E k \in 1..(n-1) :
  /\ m = "tail" => k = n - 1
  /\ m = "head" => k = 1
  /\ m = "fwd" => k <= n - k
  /\ m = "bwd" => k > n - k
  /\ Liar \/ (Incr(f, 1, k) /\ Incr(f, k + 1, n))
  /\ mode = m /\ rk = f /\ mid = k /\ v = Identity(n) /\ pc = "cmp" /\ asked = 0 /\ tmp = 0 /\ hole = 0
  /\ IF m = "fwd" THEN /\ buf = [ x \in 1..k |-> x ] /\ start = 1 /\ end = k /\ out = 1 /\ i = k + 1
     ELSE IF m = "bwd" THEN /\ buf = [ x \in 1..(n-k) |-> k + x ] /\ start = k /\ end = n - k /\ out = n /\ i = 0
     ELSE /\ buf = <<>> /\ start = 0 /\ end = 0 /\ out = 0 /\ i = 0
Ans(a, b) == IF Liar THEN BOOLEAN ELSE { rk[a] < rk[b] }
Inside(k) == k \in 1..L0
\* insertion: first comparison takes the element out, the others move the hole
Ins(first, step) ==
  IF tmp = 0
  THEN LET e == IF step = -1 THEN L0 ELSE 1   nb == e + step IN
       \E less \in (IF step = -1 THEN Ans(v[e], v[nb]) ELSE Ans(v[nb], v[e])) :
         IF ~less THEN pc' = "end" /\ UNCHANGED <<v, tmp, hole, i>>
         ELSE /\ tmp' = v[e] /\ hole' = nb /\ v' = [v EXCEPT ![e] = v[nb]] /\ i' = nb + step
              /\ pc' = IF Inside(nb + step) THEN "cmp" ELSE "end"
  ELSE \E less \in (IF step = -1 THEN Ans(tmp, v[i]) ELSE Ans(v[i], tmp)) :
         IF ~less THEN pc' = "end" /\ UNCHANGED <<v, tmp, hole, i>>
         ELSE /\ v' = [v EXCEPT ![hole] = v[i]] /\ hole' = i /\ i' = i + step
              /\ pc' = (IF Inside(i + step) THEN "cmp" ELSE "end") /\ UNCHANGED tmp
StepIns == /\ pc = "cmp" /\ mode \in {"tail", "head"} /\ Ins(tmp = 0, IF mode = "tail" THEN -1 ELSE 1)
           /\ asked' = asked + 1
           /\ UNCHANGED <<mode, rk, mid, buf, start, end, out>>
\* forward merge: buf[start..end] against v[i..]; out is the hole's destination
StepFwd == /\ pc = "cmp" /\ mode = "fwd"
           /\ \E less \in Ans(v[i], buf[start]) :
                /\ v' = [v EXCEPT ![out] = IF less THEN v[i] ELSE buf[start]]
                /\ out' = out + 1
                /\ i' = IF less THEN i + 1 ELSE i
                /\ start' = IF less THEN start ELSE start + 1
                /\ pc' = IF start' <= end /\ i' <= L0 THEN "cmp" ELSE "end"
           /\ asked' = asked + 1 /\ UNCHANGED <<mode, rk, mid, tmp, hole, buf, end>>
\* backward merge: start is the number of elements left on the left side, which is the hole's destination
StepBwd == /\ pc = "cmp" /\ mode = "bwd"
           /\ \E less \in Ans(buf[end], v[start]) :
                /\ v' = [v EXCEPT ![out] = IF less THEN v[start] ELSE buf[end]]
                /\ out' = out - 1
                /\ start' = IF less THEN start - 1 ELSE start
                /\ end' = IF less THEN end ELSE end - 1
                /\ pc' = IF start' > 0 /\ end' > 0 THEN "cmp" ELSE "end"
           /\ asked' = asked + 1 /\ UNCHANGED <<mode, rk, mid, tmp, hole, buf, i>>
Next == StepIns \/ StepFwd \/ StepBwd \/ (pc = "end" /\ UNCHANGED vars)

\* what the guard leaves
Dropped ==
  CASE mode \in {"tail", "head"} -> IF tmp = 0 THEN v ELSE [v EXCEPT ![hole] = tmp]
    [] mode = "fwd" -> [ k \in 1..L0 |-> IF k >= out /\ k < out + end - start + 1 THEN buf[start + k - out] ELSE v[k] ]
    [] mode = "bwd" -> [ k \in 1..L0 |-> IF k > start /\ k <= start + end THEN buf[k - start] ELSE v[k] ]
NothingLost == IsPerm(Dropped, L0)
Bounds == pc = "cmp" => CASE mode \in {"tail", "head"} -> tmp = 0 \/ (Inside(i) /\ Inside(hole))
                          [] mode = "fwd" -> Inside(i) /\ start \in 1..end /\ Inside(out) /\ out <= i
                          [] mode = "bwd" -> Inside(start) /\ end \in 1..Len(buf) /\ Inside(out) /\ out >= start
BufferOk == Len(buf) <= L0 \div 2
AskedOk == asked <= L0 - 1
SortedEnd == (pc = "end" /\ ~Liar) => SortedStable(rk, Dropped)
==============================================================================
