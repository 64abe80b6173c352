------------------------------- MODULE AnyEnds --------------------------------
(***************************************************************************)
(* The loops with two ends at every length and with any answers, one          *)
(* question per step: reading and writing (partition_dedup), setting equal     *)
(* elements aside (partition_equal), passing over what lies right already      *)
(* (the beginning of partition) -- DedupPtr and EqualPart without content --   *)
(* and the places a heap is sifted through (heap_sort).  Numbers are usize in  *)
(* the code: none may go below 0.  Apalache shows the invariant inductive.     *)
(***************************************************************************)
EXTENDS Integers
VARIABLES
  \* @type: Str;
  what,
  \* @type: Int;
  n,
  \* @type: Int;
  l,
  \* @type: Int;
  r,
  \* @type: Int;
  asked,
  \* @type: Str;
  pc
First ==
  \/ what = "dedup" /\ n >= 2 /\ l = 1 /\ r = 1 /\ asked = 0 /\ pc = "left"
  \/ what \in {"equal", "ends"} /\ n >= 1 /\ l = 0 /\ r = n /\ asked = 0 /\ pc = "left"
  \/ what = "heap" /\ n >= 1 /\ 0 <= l /\ l < n /\ r = n /\ asked = 0 /\ pc = "left"
\* l elements are kept, r is read next
Dedup == what = "dedup" =>
  /\ 1 <= l /\ l <= r /\ r <= n /\ asked = r - 1
  /\ pc = "left" => r < n
  /\ pc = "end" => r = n
\* before l and from r on all is settled; looking from the right, from r on it is asked about and at l
Equal == what = "equal" =>
  /\ 0 <= l /\ l <= n /\ r >= 0
  /\ pc = "left" => l <= r /\ 1 <= r /\ r <= n /\ asked = l + (n - r)
  /\ pc = "right" => /\ r < n
                     /\ l <= r => asked = l + (n - r)
                     /\ l > r => l = r + 1 /\ asked = n
  /\ pc = "end" => asked = n
\* before l and from r on; the rest is left to the blocks, its outermost two elements have been asked about if it is there
Ends == what = "ends" =>
  /\ 0 <= l /\ l <= r /\ r <= n
  /\ pc = "left" => r = n /\ asked = l
  /\ pc = "right" => asked = l + (n - r) + (IF l < n THEN 1 ELSE 0) /\ (l = n => r = n)
  /\ pc = "end" => asked <= n + 1 /\ (l < r => asked = l + (n - r) + 2)
\* l is the place sifted to, one level down at each step
Heap == what = "heap" => 0 <= l /\ l < n 
Ind == Dedup /\ Equal /\ Ends /\ Heap
Child == 2 * l + 1
Safe ==
  /\ what = "dedup" => (pc = "left" => l - 1 < r /\ r < n)
  /\ what = "equal" => /\ (pc = "left" /\ l < r => l < n)
                       /\ (pc = "right" /\ l < r => r < n /\ asked < n)
  /\ what = "ends" => (pc = "right" /\ l < r => r >= 1)
  /\ what = "heap" => (Child < n => Child > l /\ (Child + 1 < n => Child + 1 > l))
Inv == Ind /\ Safe
Start ==
  /\ what \in {"dedup", "equal", "ends", "heap"} /\ pc \in {"left", "right", "end"}
  /\ n \in Int /\ l \in Int /\ r \in Int /\ asked \in Int
  /\ n >= 1
  /\ (First \/ Ind)
DedupStep == \E same \in BOOLEAN :
  /\ pc = "left"
  /\ l' = (IF same THEN l ELSE l + 1) /\ r' = r + 1 /\ asked' = asked + 1
  /\ pc' = IF r + 1 < n THEN "left" ELSE "end"
EqualStep == \E greater \in BOOLEAN :
  \/ /\ pc = "left" /\ l >= r /\ r' = r - 1 /\ pc' = "right" /\ UNCHANGED <<l, asked>>
  \/ /\ pc = "left" /\ l < r /\ asked' = asked + 1
     /\ IF greater THEN r' = r - 1 /\ pc' = "right" /\ UNCHANGED l ELSE l' = l + 1 /\ UNCHANGED <<r, pc>>
  \/ /\ pc = "right" /\ l >= r /\ pc' = "end" /\ UNCHANGED <<l, r, asked>>
  \/ /\ pc = "right" /\ l < r /\ asked' = asked + 1
     /\ IF greater THEN r' = r - 1 /\ UNCHANGED <<l, pc>> ELSE l' = l + 1 /\ pc' = "left" /\ UNCHANGED r
EndsStep == \E less \in BOOLEAN :
  \/ /\ pc = "left" /\ l >= r /\ pc' = "end" /\ UNCHANGED <<l, r, asked>>
  \/ /\ pc = "left" /\ l < r /\ asked' = asked + 1 /\ UNCHANGED r
     /\ IF less THEN l' = l + 1 /\ UNCHANGED pc ELSE pc' = "right" /\ UNCHANGED l
  \/ /\ pc = "right" /\ l >= r /\ pc' = "end" /\ UNCHANGED <<l, r, asked>>
  \/ /\ pc = "right" /\ l < r /\ asked' = asked + 1 /\ UNCHANGED l
     /\ IF less THEN pc' = "end" /\ UNCHANGED r ELSE r' = r - 1 /\ UNCHANGED pc
HeapStep == /\ Child < n /\ UNCHANGED <<pc, asked>>
            /\ \E c \in {Child, Child + 1} : c < n /\ l' = c
            /\ r' = r
Next ==
  /\ UNCHANGED <<what, n>>
  /\ \/ what = "dedup" /\ DedupStep
     \/ what = "equal" /\ EqualStep
     \/ what = "ends" /\ EndsStep
     \/ what = "heap" /\ HeapStep
===============================================================================
