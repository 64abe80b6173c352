------------------------------ MODULE EqualPart -------------------------------
(***************************************************************************)
(* partition_equal of src/partition.rs (and its parallel twin), one step    *)
(* per comparison: the pivot is held aside, elements that are not greater   *)
(* go in front.  ans[k] is what the comparison with the element of identity *)
(* k says: 1 if the pivot is less.  Under a Liar each time anew.            *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS MaxN, Liar
VARIABLES n, gt, v, l, r, pc, asked, res
vars == <<n, gt, v, l, r, pc, asked, res>>
Init == \E k \in 0..MaxN : \E f \in [1..k -> {0, 1}] :
  /\ Liar => f = [ j \in 1..k |-> 0 ]
  /\ n = k /\ gt = f /\ v = Identity(k) /\ l = 0 /\ r = k /\ asked = 0
  /\ pc = (IF k = 0 THEN "end" ELSE "left") /\ res = (IF k = 0 THEN 0 ELSE -1)
Ans(k) == IF Liar THEN BOOLEAN ELSE { gt[v[k + 1]] = 1 }
Left == /\ pc = "left" /\ UNCHANGED <<n, gt, v, res>>
        /\ IF l >= r THEN r' = r - 1 /\ pc' = "right" /\ UNCHANGED <<l, asked>>
           ELSE /\ asked' = asked + 1
                /\ \E g \in Ans(l) : IF g THEN pc' = "right" /\ r' = r - 1 /\ UNCHANGED l
                                     ELSE l' = l + 1 /\ UNCHANGED <<pc, r>>
Right == /\ pc = "right" /\ UNCHANGED <<n, gt>>
         /\ IF l >= r THEN pc' = "end" /\ res' = l + 1 /\ UNCHANGED <<v, l, r, asked>>
            ELSE /\ asked' = asked + 1 /\ UNCHANGED res
                 /\ \E g \in Ans(r) :
                      IF g THEN r' = r - 1 /\ UNCHANGED <<v, l, pc>>
                      ELSE /\ v' = [v EXCEPT ![l + 1] = v[r + 1], ![r + 1] = v[l + 1]]
                           /\ l' = l + 1 /\ pc' = "left" /\ UNCHANGED r
Next == Left \/ Right \/ (pc = "end" /\ UNCHANGED vars)
Permuted == IsPerm(v, n)
Bounds == /\ l \in 0..n
          /\ r >= 0
          /\ pc = "left" /\ l < r => l \in 0..(n - 1)
          /\ pc = "right" /\ l < r => r \in 0..(n - 1)
Result1 == (pc = "end" /\ n > 0 /\ ~Liar) =>
  /\ res = 1 + Cardinality({ k \in 1..n : gt[k] = 0 })
  /\ \A k \in 1..n : gt[v[k]] = (IF k < res THEN 0 ELSE 1)
Progress == pc = "end" => res <= n + 1 /\ (n > 0 => res >= 1)
AskedOk == asked <= n
Emit == (pc = "end" /\ n >= 2 /\ ~Liar) => PrintT(<<"SCEN", "equal", gt>>)
==============================================================================
