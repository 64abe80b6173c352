------------------------------- MODULE BinSearch ------------------------------
(***************************************************************************)
(* Binary search (binary_search_by of src/lib.rs; partition_point is the    *)
(* same search that never hears "equal").  An array partitioned by the      *)
(* target is a number of elements below it and a number of elements equal   *)
(* to it.  A Liar answers anything at every question.                       *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS MaxN, Liar
VARIABLES n, below, equal, point, left, right, asked, res
vars == <<n, below, equal, point, left, right, asked, res>>
Running == "running"
Init == \E k \in 0..MaxN : \E b \in 0..k : \E e \in 0..(k-b) : \E p \in BOOLEAN :
  /\ (Liar => b = 0 /\ e = 0) /\ (p => e = 0)
  /\ n = k /\ below = b /\ equal = e /\ point = p /\ left = 0 /\ right = k /\ asked = 0
  /\ res = [pc |-> Running]
MidOf == left + (right - left) \div 2
Truth(i) == IF i < below THEN -1 ELSE IF i < below + equal THEN 0 ELSE 1
Ans(i) == IF ~Liar THEN { Truth(i) } ELSE IF point THEN {-1, 1} ELSE {-1, 0, 1}
Step == /\ res.pc = Running
        /\ IF left >= right THEN res' = [pc |-> "err", ix |-> left] /\ UNCHANGED <<left, right, asked>>
           ELSE \E a \in Ans(MidOf) :
                  /\ asked' = asked + 1
                  /\ left' = IF a = -1 THEN MidOf + 1 ELSE left
                  /\ right' = IF a = 1 THEN MidOf ELSE right
                  /\ res' = IF a = 0 THEN [pc |-> "ok", ix |-> MidOf] ELSE res
        /\ UNCHANGED <<n, below, equal, point>>
Next == Step \/ (res.pc # Running /\ UNCHANGED vars)
Inside == 0 <= left /\ left <= right /\ right <= n /\ (res.pc = Running /\ left < right => MidOf \in 0..(n-1))
Result1 == /\ res.pc = "ok" => res.ix \in 0..(n-1)
           /\ res.pc = "err" => res.ix \in 0..n
           /\ (res.pc = "ok" /\ ~Liar) => Truth(res.ix) = 0
           /\ (res.pc = "err" /\ ~Liar) => equal = 0 /\ res.ix = below
\* what every answer so far entails
Known == ~Liar => left <= below + equal /\ right >= below
AskedOk == asked <= CeilLog2(n + 1)
==============================================================================
