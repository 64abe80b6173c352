------------------------------ MODULE PivotGuess ------------------------------
(***************************************************************************)
(* How the unstable sorts and selection find a pivot (choose_pivot) and     *)
(* guess that a segment is sorted already (partial_insertion_sort), and how *)
(* the fallback of selection finds one (ninther).                           *)
(*                                                                         *)
(* "pivot":   nine elements are looked at, three in each of three places;   *)
(*            indices are sorted, elements are not moved.                   *)
(* "partial": few elements out of place are shifted.  A shift is the        *)
(*            insertion of module Holes: the element ends up somewhere,      *)
(*            with truthful answers in its place.                           *)
(* "ninther": the median of three medians of three is moved to place e.     *)
(*                                                                         *)
(* Checked: nothing is lost; what is chosen is an element of the segment    *)
(* and has enough elements on either side; a sorted segment is recognised   *)
(* with one pass, a strictly descending one is reversed; a segment that is  *)
(* said to be sorted is.  Under a Liar all but the latter three.            *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS What, MaxN, Ranks, MaxSteps, Liar
VARIABLES v, rk, idx, pc, i, steps, asked, ans
vars == <<v, rk, idx, pc, i, steps, asked, ans>>
L0 == Len(rk)
NonDec(s) == \A k \in 1..(Len(s)-1) : s[k] <= s[k+1]
Falling(s) == \A k \in 1..(Len(s)-1) : s[k] > s[k+1]
Now == After(rk, v)
Init == \E n \in (IF What = "partial" THEN 1..MaxN ELSE {9}) : \E f \in [1..n -> Ranks] :
  /\ rk = f /\ v = Identity(n) /\ idx = Identity(n) /\ pc = 1 /\ i = 1 /\ steps = 0 /\ asked = 0 /\ ans = "none"
Ans(a, b) == IF Liar THEN BOOLEAN ELSE { rk[v[a]] < rk[v[b]] }

(* -------- choose_pivot: slots 1-3, 4-6, 7-9 are the three places; the median of each is in its second slot -------- *)
Prog == << <<1,2>>, <<2,3>>, <<1,2>>, <<4,5>>, <<5,6>>, <<4,5>>, <<7,8>>, <<8,9>>, <<7,8>>, <<2,5>>, <<5,8>>, <<2,5>> >>
Choose ==
  /\ What = "pivot" /\ ans = "none"
  /\ IF pc > 12
     THEN \* steps counts the exchanges of indices
          IF steps < 12
          THEN ans' = (IF steps = 0 THEN "sorted?" ELSE "no") /\ UNCHANGED <<v, rk, idx, pc, i, steps, asked>>
          ELSE /\ v' = [ k \in 1..9 |-> v[10 - k] ] /\ ans' = "sorted?"
               /\ idx' = [idx EXCEPT ![5] = 10 - idx[5]]
               /\ UNCHANGED <<rk, pc, i, steps, asked>>
     ELSE LET x == Prog[pc][1]  y == Prog[pc][2] IN
          /\ \E less \in Ans(idx[y], idx[x]) :
               IF less THEN idx' = [idx EXCEPT ![x] = idx[y], ![y] = idx[x]] /\ steps' = steps + 1
               ELSE UNCHANGED <<idx, steps>>
          /\ pc' = pc + 1 /\ asked' = asked + 1 /\ UNCHANGED <<v, rk, i, ans>>

(* -------- partial_insertion_sort: i elements before the place looked at are in order -------- *)
Is(k) == rk[v[k]]
Moved(f, from, to) ==  \* the element at `from` is taken out and put at `to`
  LET x == f[from] IN
  [ k \in 1..L0 |-> IF k = to THEN x
                    ELSE IF from < to /\ k >= from /\ k < to THEN f[k + 1]
                    ELSE IF to < from /\ k > to /\ k <= from THEN f[k - 1] ELSE f[k] ]
Swapped(f, a, b) == [f EXCEPT ![a] = f[b], ![b] = f[a]]
Scan ==
  /\ What = "partial" /\ ans = "none" /\ pc = 1
  /\ IF steps = MaxSteps THEN ans' = "no" /\ UNCHANGED <<v, rk, idx, pc, i, steps, asked>>
     ELSE IF i < L0
     THEN \E less \in Ans(i + 1, i) :
            /\ asked' = asked + 1 /\ UNCHANGED <<rk, idx, steps, ans>>
            /\ IF less THEN v' = Swapped(v, i, i + 1) /\ pc' = 2 /\ UNCHANGED i
               ELSE i' = i + 1 /\ UNCHANGED <<v, pc>>
     ELSE ans' = "yes" /\ UNCHANGED <<v, rk, idx, pc, i, steps, asked>>
\* of the pair just exchanged the smaller one goes left; the code then inserts the first element of what precedes the
\* greater one into the rest of that, which is where it belongs already
Shift ==
  /\ What = "partial" /\ pc = 2
  /\ IF i < 2 THEN UNCHANGED <<v, asked>>
     ELSE \E l \in 1..i : \E g \in 1..i :
            LET w == Moved(v, i, l)  x == Moved(w, 1, g)
                W(k) == rk[w[k]] IN
            /\ Liar \/ /\ \A k \in 1..(l-1) : W(k) <= W(l)
                       /\ l < i => W(l) < W(l + 1)
                       /\ g = 1
            /\ v' = x
            /\ asked' = asked + (IF l = 1 THEN i - 1 ELSE i - l + 1) + (IF g = i THEN i - 1 ELSE g)
  /\ pc' = 1 /\ steps' = steps + 1 /\ UNCHANGED <<rk, idx, i, ans>>

(* -------- ninther: a..i are places 1..9, e is place 5 -------- *)
Med(a, b, c) ==   \* median_idx
  { m \in {a, b, c} : \E q1 \in Ans(c, a) :
      LET x == IF q1 THEN c ELSE a  z == IF q1 THEN a ELSE c IN
      \E q2 \in Ans(z, b) : IF q2 THEN m = z ELSE \E q3 \in Ans(b, x) : m = (IF q3 THEN x ELSE b) }
Ninther ==
  /\ What = "ninther" /\ ans = "none" /\ ans' = "no" /\ UNCHANGED <<rk, idx, pc, i, steps>>
  /\ \E b0 \in Med(1, 2, 3) : \E h0 \in Med(7, 8, 9) : \E q1 \in Ans(h0, b0) : \E q2 \in Ans(6, 4) :
     LET b == IF q1 THEN h0 ELSE b0  h == IF q1 THEN b0 ELSE h0
         d == IF q2 THEN 6 ELSE 4    f == IF q2 THEN 4 ELSE 6 IN
     \E q3 \in Ans(5, d) : \E q4 \in (IF q3 THEN {FALSE} ELSE Ans(f, 5)) :
     LET m == IF q3 THEN d ELSE f IN      \* the median of d, e, f unless that is e
     \E q5 \in (IF q3 \/ q4 THEN Ans(m, b) ELSE Ans(5, b)) :
     \E q6 \in (IF q5 THEN {FALSE} ELSE IF q3 \/ q4 THEN Ans(h, m) ELSE Ans(h, 5)) :
       /\ v' = IF q3 \/ q4 THEN Swapped(v, IF q5 THEN b ELSE IF q6 THEN h ELSE m, 5)
               ELSE IF q5 THEN Swapped(v, 5, b) ELSE IF q6 THEN Swapped(v, 5, h) ELSE v
       /\ asked' = 6 + 2 + 2 + 2
Done == /\ ans # "none" /\ UNCHANGED vars
Next == Choose \/ Scan \/ Shift \/ Ninther \/ Done

Permuted == IsPerm(v, L0)
Bounds == /\ What = "pivot" => IsPerm(idx, 9) \/ ans # "none"
          /\ idx[IF What = "pivot" THEN 5 ELSE 1] \in 1..L0 /\ i \in 1..L0
          /\ What = "partial" /\ pc = 2 => i < L0
AskedOk == /\ What = "pivot" => asked <= 12
           /\ What = "partial" => asked <= L0 * (2 * MaxSteps + 1)
\* who is chosen has three others on either side, each at least resp. at most as great
Fair(p) == /\ Cardinality({ k \in 1..9 : Is(k) <= Is(p) }) >= 4
           /\ Cardinality({ k \in 1..9 : Is(k) >= Is(p) }) >= 4
Median == (~Liar /\ ans # "none") => /\ What = "pivot" => Fair(idx[5])
                                     /\ What = "ninther" => Fair(5)
Guess == (~Liar /\ ans # "none") =>
  /\ What = "pivot" /\ NonDec(rk) => ans = "sorted?" /\ v = Identity(9)
  /\ What = "pivot" /\ Falling(rk) => ans = "sorted?" /\ NonDec(Now)
  /\ What = "partial" /\ ans = "yes" => NonDec(Now)
  /\ What = "partial" /\ NonDec(rk) /\ MaxSteps > 0 => ans = "yes" /\ v = Identity(L0) /\ asked = L0 - 1
\* nearly sorted inputs, for replay
Emit == (What = "partial" /\ ~Liar /\ ans # "none" /\ steps >= 1) => PrintT(<<"SCEN", "near", rk>>)
\* before each place looked at everything is in order
FrontOk == (~Liar /\ What = "partial" /\ pc = 1) => \A k \in 1..(i - 1) : k < i => Is(k) <= Is(k + 1)
==============================================================================
