------------------------------- MODULE AnyMerge -------------------------------
(***************************************************************************)
(* The merge loops of src/merge_sort.rs and src/par/merge_sort.rs, and the   *)
(* merging of halves in the latter, at every length and with any answers:    *)
(* Holes with the content reduced to where things are.  start..end are the   *)
(* buffered elements left, dest is where the guard would put them.           *)
(* Apalache shows the invariant inductive.                                   *)
(***************************************************************************)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  mid,
  \* @type: Bool;
  back,
  \* @type: Int;
  start,
  \* @type: Int;
  end,
  \* @type: Int;
  dest,
  \* @type: Int;
  other,
  \* @type: Int;
  asked
\* forwards: other is the next element of the right run and dest the next place to fill; backwards: dest is the number of
\* elements left in the left run and other the place filled last
First ==
  /\ back = (mid > n - mid) /\ start = 0 /\ asked = 0
  /\ IF back THEN end = n - mid /\ dest = mid /\ other = n
     ELSE end = mid /\ dest = 0 /\ other = mid
Room == IF n \div 2 >= 1 THEN n \div 2 ELSE 1
Ind ==
  /\ 0 <= start /\ start <= end
  /\ end <= (IF back THEN n - mid ELSE mid)
  /\ (back => start = 0)
  /\ back = (mid > n - mid)
  /\ 0 <= dest /\ dest <= other /\ other <= n
  \* the gap is as long as what is buffered: written back at any time, everything is there once
  /\ other - dest = end - start
  /\ (back => dest <= mid /\ asked = n - other)
  /\ (~back => other >= mid /\ asked = dest /\ end = mid)
Asking == start < end /\ (IF back THEN dest > 0 ELSE other < n)
Safe ==
  /\ end <= Room                                     \* the buffer holds the shorter run
  /\ dest + (end - start) <= n
  /\ asked <= n
  /\ Asking => asked < n
  /\ (Asking /\ ~back) => other < n /\ start < mid /\ dest < other
  /\ (Asking /\ back) => dest >= 1 /\ other > dest
Inv == Ind /\ Safe
Start ==
  /\ n \in Int /\ mid \in Int /\ start \in Int /\ end \in Int /\ dest \in Int /\ other \in Int /\ asked \in Int
  /\ back \in BOOLEAN
  /\ n >= 2 /\ mid >= 1 /\ mid < n
  /\ (First \/ Ind)
Next ==
  /\ Asking /\ asked' = asked + 1 /\ UNCHANGED <<n, mid, back>>
  /\ \E less \in BOOLEAN :
       IF ~back THEN /\ dest' = dest + 1 /\ UNCHANGED end
                     /\ other' = IF less THEN other + 1 ELSE other
                     /\ start' = IF less THEN start ELSE start + 1
       ELSE /\ other' = other - 1 /\ UNCHANGED start
            /\ dest' = IF less THEN dest - 1 ELSE dest
            /\ end' = IF less THEN end ELSE end - 1
===============================================================================
