-------------------------------- MODULE Cycles --------------------------------
(***************************************************************************)
(* Applying the sorting permutation of (par_)sort_by_cached_key in place:   *)
(* ix[i] is the old position of the element that belongs to position i.     *)
(* One swap per step; chasing of positions already served included.         *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS MaxN
VARIABLES v, ix, perm, i, swaps, chases
vars == <<v, ix, perm, i, swaps, chases>>
N0 == Len(perm)
Init == \E n \in 0..MaxN : \E p \in { p \in [1..n -> 0..(n-1)] : \A a, b \in 1..n : a # b => p[a] # p[b] } :
  /\ perm = p /\ ix = p /\ v = [ k \in 1..n |-> k - 1 ] /\ i = 0 /\ swaps = 0 /\ chases = 0
RECURSIVE Chase(_, _)
Chase(x, c) == IF x < i THEN Chase(ix[x + 1], c + 1) ELSE <<x, c>>
Step == /\ i < N0
        /\ LET r == Chase(ix[i + 1], 0)  x == r[1] IN
           /\ x \in 0..(N0-1)
           /\ ix' = [ix EXCEPT ![i + 1] = x]
           /\ v' = [v EXCEPT ![i + 1] = v[x + 1], ![x + 1] = v[i + 1]]
           /\ swaps' = swaps + 1 /\ chases' = chases + r[2]
        /\ i' = i + 1 /\ UNCHANGED perm
Next == Step \/ (i = N0 /\ UNCHANGED vars)
Permuted == IsPerm([ k \in 1..N0 |-> v[k] + 1 ], N0)
Prefix == \A k \in 1..i : v[k] = perm[k]
Bounded == swaps <= N0 /\ 2 * chases <= N0 * N0
\* every cycle of the permutation, by length
RECURSIVE Orbit(_, _)
Orbit(x, S) == IF x \in S THEN S ELSE Orbit(perm[x + 1], S \cup {x})
CycleLens == LET O == { Orbit(x, {}) : x \in 0..(N0-1) } IN
             SetToSortSeq({ <<Cardinality(o), CHOOSE y \in o : \A z \in o : y <= z>> : o \in O },
                          LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
Emit == (i = N0 /\ N0 >= 3) => PrintT(<<"SCEN", "cycles", [ k \in 1..Len(CycleLens) |-> CycleLens[k][1] ]>>)
==============================================================================
