------------------------------- MODULE HeapSort -------------------------------
(***************************************************************************)
(* Heap sort (src/heap_sort.rs, src/par/heap_sort.rs), the fallback of the  *)
(* unstable sorts.  One step per comparison pair.  Under a Liar everything  *)
(* stays inside, terminates and loses nothing.                              *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS MaxN, Ranks, Liar
VARIABLES v, rk, node, top, i, phase, asked
vars == <<v, rk, node, top, i, phase, asked>>
L0 == Len(rk)
Init == \E n \in 1..MaxN : \E f \in [1..n -> Ranks] :
  /\ rk = f /\ v = Identity(n) /\ asked = 0 /\ phase = "build"
  /\ i = n \div 2 /\ node = -1 /\ top = n     \* node -1: nothing is being sifted
Ans(a, b) == IF Liar THEN BOOLEAN ELSE { rk[a] < rk[b] }
At0(k) == v[k + 1]
Swap0(a, b) == [v EXCEPT ![a+1] = v[b+1], ![b+1] = v[a+1]]
Sift ==
  /\ node >= 0
  /\ LET c == 2 * node + 1 IN
     IF c >= top THEN node' = -1 /\ UNCHANGED <<v, asked>>
     ELSE \E b \in (IF c + 1 < top THEN Ans(At0(c), At0(c + 1)) ELSE {FALSE}) :
          LET g == IF b THEN c + 1 ELSE c IN
          \E up \in Ans(At0(node), At0(g)) :
            /\ asked' = asked + (IF c + 1 < top THEN 2 ELSE 1)
            /\ IF up THEN v' = Swap0(node, g) /\ node' = g ELSE node' = -1 /\ UNCHANGED v
  /\ UNCHANGED <<rk, top, i, phase>>
Build == /\ node = -1 /\ phase = "build"
         /\ IF i = 0 THEN phase' = "pop" /\ i' = L0 - 1 /\ UNCHANGED <<node, top>>
            ELSE i' = i - 1 /\ node' = i - 1 /\ UNCHANGED <<phase, top>>
         /\ UNCHANGED <<v, rk, asked>>
Pop == /\ node = -1 /\ phase = "pop"
       /\ IF i < 1 THEN phase' = "end" /\ UNCHANGED <<v, i, node, top>>
          ELSE v' = Swap0(0, i) /\ top' = i /\ node' = 0 /\ i' = i - 1 /\ UNCHANGED phase
       /\ UNCHANGED <<rk, asked>>
Next == Sift \/ Build \/ Pop \/ (phase = "end" /\ UNCHANGED vars)
Permuted == IsPerm(v, L0)
Bounds == node >= 0 => node < L0
IsHeap == (phase = "pop" /\ node = -1 /\ ~Liar) =>
            \A k \in 1..(IF i < L0 - 1 THEN i ELSE L0 - 1) : rk[At0((k - 1) \div 2)] >= rk[At0(k)]
SortedEnd == (phase = "end" /\ ~Liar) => Sorted(After(rk, v))
AskedOk == asked <= 2 * L0 * (Log2(L0) + 1)
==============================================================================
