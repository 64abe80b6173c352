------------------------------ MODULE AnySample -------------------------------
(***************************************************************************)
(* Where src/partition.rs and src/par/partition.rs look without asking how    *)
(* long the array is, at every length: the elements a pivot is chosen from,   *)
(* the exchanges that break patterns, the mirror image of a pivot, the nine   *)
(* elements of each ninther.  One state per length and choice (and per        *)
(* ninther); Apalache has no limit on the lengths.                            *)
(***************************************************************************)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  seed,
  \* @type: Int;
  power,
  \* @type: Int;
  k,
  \* @type: Int;
  a,
  \* @type: Int;
  b,
  \* @type: Int;
  i
Inside(x) == 0 <= x /\ x < n
Q == n \div 4
\* choose_pivot: three elements around each of three, one of which comes out; n - 1 - that if the array is turned round
Pivot == n >= 8 =>
  /\ \A j \in {0, 1, 2} : \A o \in (IF n >= 50 THEN {-1, 0, 1} ELSE {0}) :
       /\ Inside(Q * (j + 1) + o)
       /\ Inside(n - 1 - (Q * (j + 1) + o))
  \* nine different ones
  /\ n >= 50 => Q + 1 < 2 * Q - 1
ShortPivot == (1 <= n /\ n < 8) => Inside(Q * 2)
\* break_patterns: power is the next power of two, seed any number below it
Other == IF seed >= n THEN seed - n ELSE seed
Patterns == n >= 8 => /\ Inside(Other)
                      /\ \A o \in {0, 1, 2} : Inside(Q * 2 - 1 + o)
Frac == IF n <= 1024 THEN n \div 12 ELSE IF n <= 131072 THEN n \div 64 ELSE n \div 1024
Lo == n \div 2 - Frac \div 2
Hi == Frac + Lo
Gap == (n - 9 * Frac) \div 4
First == k = 0 /\ a = Lo - 4 * Frac - Gap /\ b = Hi + Gap /\ i = Lo
\* ninther number k
Ind == /\ 0 <= k /\ k <= Frac
       /\ a = Lo - 4 * Frac - Gap + 3 * k /\ b = Hi + Gap + 3 * k /\ i = Lo + k
Nines == (k < Frac /\ n > 11) =>
  /\ i < Hi
  /\ Inside(a) /\ Inside(a + 1) /\ Inside(a + 2)
  /\ Inside(b) /\ Inside(b + 1) /\ Inside(b + 2)
  /\ Inside(i - Frac) /\ Inside(i) /\ Inside(i + Frac)
  \* nine different elements, but that the last column of short arrays may touch the middle one
  /\ a + 2 < i - Frac
  /\ i # b /\ i # b + 1 /\ i # b + 2
Medians == n > 11 => Frac >= 1 /\ Inside(Lo) /\ Lo + Frac <= n /\ Frac \div 2 < Frac /\ Inside(Lo + Frac \div 2)
Inv == Ind /\ Pivot /\ ShortPivot /\ Patterns /\ Nines /\ Medians
Start ==
  /\ n \in Int /\ seed \in Int /\ power \in Int /\ k \in Int /\ a \in Int /\ b \in Int /\ i \in Int
  /\ n >= 1 /\ power < 2 * n /\ power >= n /\ 0 <= seed /\ seed < power
  /\ (First \/ Ind)
Next == /\ k < Frac /\ k' = k + 1 /\ a' = a + 3 /\ b' = b + 3 /\ i' = i + 1 /\ UNCHANGED <<n, seed, power>>
===============================================================================
