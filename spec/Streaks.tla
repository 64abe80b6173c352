------------------------------- MODULE Streaks --------------------------------
(***************************************************************************)
(* How the stable sorts cut their input into runs.  Back = FALSE: forwards  *)
(* (find_streak and provide_sorted_batch of src/merge_sort.rs).             *)
(* Back = TRUE: from the end (merge_sort of src/par/merge_sort.rs), which   *)
(* leaves a wholly descending or non-descending chunk as it is.  One step   *)
(* per run; the insertions that prolong a short run are those of module     *)
(* Holes, the merging is module RunStack's.                                 *)
(*                                                                         *)
(* Checked: the runs tile what has been looked at; each is in the stable    *)
(* order of its elements (a strictly descending streak is reversed, equal   *)
(* neighbours end it); none but the last is shorter than MinRun; a chunk is *)
(* said to be sorted or descending exactly when it is; comparisons are      *)
(* linear where no insertion is needed.  Under a Liar: tiling, nothing lost.*)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS MaxN, Ranks, MinRun, Back, Liar
VARIABLES rk, v, runs, at, asked, said
vars == <<rk, v, runs, at, asked, said>>
L0 == Len(rk)
Init == \E n \in 1..MaxN : \E f \in [1..n -> Ranks] :
  /\ rk = f /\ v = Identity(n) /\ runs = <<>> /\ asked = 0 /\ said = "none"
  /\ at = IF Back THEN n ELSE 0
R(k) == rk[v[k]]
Min2(a, b) == IF a < b THEN a ELSE b
\* the longest streak from..to in the direction given (places)
Down(from, to) == \A k \in from..(to - 1) : R(k + 1) < R(k)
Up(from, to) == \A k \in from..(to - 1) : ~(R(k + 1) < R(k))
Flip(f, from, to) == [ k \in 1..L0 |-> IF k >= from /\ k <= to THEN f[from + to - k] ELSE f[k] ]
\* the stable order of places from..to, as insertions leave it
Before(f, a, b) == rk[f[a]] < rk[f[b]] \/ (rk[f[a]] = rk[f[b]] /\ a < b)
Insert(f, from, to) == [ k \in 1..L0 |-> IF k < from \/ k > to THEN f[k] ELSE
   f[CHOOSE p \in from..to : Cardinality({ q \in from..to : Before(f, q, p) }) = k - from] ]
Inserted(f, from, to) == IF Liar THEN { [ k \in 1..L0 |-> IF k < from \/ k > to THEN f[k] ELSE f[from + p[k - from + 1] - 1] ] :
                                        p \in { q \in [1..(to - from + 1) -> 1..(to - from + 1)] : IsPerm(q, to - from + 1) } }
                         ELSE { Insert(f, from, to) }
Stretch(a, b, down) == IF Liar THEN TRUE ELSE IF down THEN Down(a, b) ELSE Up(a, b)
Ended(a, b, down) == IF Liar THEN TRUE
                     ELSE IF Back THEN IF a = 1 THEN TRUE ELSE IF down THEN ~Down(a - 1, b) ELSE ~Up(a - 1, b)
                     ELSE IF b = L0 THEN TRUE ELSE IF down THEN ~Down(a, b + 1) ELSE ~Up(a, b + 1)
Fwd == \E b \in (at + 1)..L0 : \E down \in BOOLEAN :
  LET a == at + 1 IN
  /\ b = a => (a = L0 /\ ~down)
  /\ Stretch(a, b, down) /\ Ended(a, b, down) /\ (down => b > a)
  /\ LET w == IF down THEN Flip(v, a, b) ELSE v
         c == IF b - a + 1 < MinRun /\ b < L0 THEN Min2(a + MinRun - 1, L0) ELSE b IN
     /\ v' \in (IF c > b THEN Inserted(w, a, c) ELSE {w})
     /\ runs' = Append(runs, <<a, c>>) /\ at' = c
     /\ asked' = asked + (IF b = L0 THEN b - a ELSE b - a + 1)
     /\ UNCHANGED <<rk, said>>
Bwd == \E a \in 1..at : \E down \in BOOLEAN :
  LET b == at IN
  /\ a = b => (b = 1 /\ ~down)
  /\ Stretch(a, b, down) /\ Ended(a, b, down) /\ (down => b > a)
  /\ asked' = asked + (IF a = 1 THEN b - a ELSE b - a + 1)
  /\ IF a = 1 /\ b = L0 /\ L0 > 1
     THEN /\ said' = (IF down THEN "descending" ELSE "sorted") /\ at' = 0 /\ UNCHANGED <<rk, v, runs>>
     ELSE LET w == IF down THEN Flip(v, a, b) ELSE v
              c == IF b - a + 1 < MinRun /\ a > 1 THEN (IF b - MinRun + 1 < 1 THEN 1 ELSE b - MinRun + 1) ELSE a IN
          /\ v' \in (IF c < a THEN Inserted(w, c, b) ELSE {w})
          /\ runs' = <<<<c, b>>>> \o runs /\ at' = c - 1 /\ UNCHANGED <<rk, said>>
Done == at = IF Back THEN 0 ELSE L0
Next == IF Done THEN UNCHANGED vars ELSE IF Back THEN Bwd ELSE Fwd

Permuted == IsPerm(v, L0)
Tiles == /\ \A j \in 1..(Len(runs) - 1) : runs[j + 1][1] = runs[j][2] + 1
         /\ said = "none" => IF Back THEN IF runs = <<>> THEN at = L0 ELSE runs[1][1] = at + 1 /\ runs[Len(runs)][2] = L0
                             ELSE IF runs = <<>> THEN at = 0 ELSE runs[1][1] = 1 /\ runs[Len(runs)][2] = at
         /\ \A j \in 1..Len(runs) : runs[j][1] <= runs[j][2]
LongEnough == \A j \in 1..Len(runs) : runs[j][2] - runs[j][1] + 1 >= MinRun
                 \/ (IF Back THEN runs[j][1] = 1 ELSE runs[j][2] = L0)
\* a run is in stable order: of its elements, which are those of its place in the input
RunsOk == Liar \/ \A j \in 1..Len(runs) : \A k \in runs[j][1]..(runs[j][2] - 1) :
             R(k) < R(k + 1) \/ (R(k) = R(k + 1) /\ v[k] < v[k + 1])
Local == \A j \in 1..Len(runs) : { v[k] : k \in runs[j][1]..runs[j][2] } = runs[j][1]..runs[j][2]
SaidOk == Liar \/ ((Back /\ Done /\ L0 > 1) =>
            /\ (said = "sorted") <=> \A k \in 1..(L0 - 1) : rk[k] <= rk[k + 1]
            /\ (said = "descending") <=> \A k \in 1..(L0 - 1) : rk[k] > rk[k + 1]
            /\ said # "none" => v = Identity(L0))
AskedOk == asked <= L0 + Len(runs)
Sign(a, b) == IF a < b THEN 1 ELSE IF a = b THEN 0 ELSE -1
Emit == (Done /\ L0 >= 3) => PrintT(<<"SCEN", "signs", [ k \in 1..(L0 - 1) |-> Sign(rk[k], rk[k + 1]) ]>>)
==============================================================================
