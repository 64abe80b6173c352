------------------------------ MODULE SelectCost ------------------------------
(***************************************************************************)
(* The linear-time fallback of selection (median_of_medians with            *)
(* median_of_ninthers), with the code's own numbers: where the nines are    *)
(* taken from, and what the worst case costs, length by length.             *)
(*                                                                         *)
(* The state is the table of worst cases for lengths up to n; a step adds    *)
(* the next one.       What module PivotGuess shows of a ninther (three     *)
(* others on either side) bounds how uneven a split can be.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxN, Short, Medium, SmallDiv, MediumDiv, Factor, Plus
VARIABLES n, worst, frac
vars == <<n, worst, frac>>
Frac(k) == IF k <= Short THEN k \div SmallDiv ELSE IF k <= Medium THEN k \div MediumDiv ELSE k \div 1024
Max2(a, b) == IF a < b THEN b ELSE a
W(k) == IF k <= 1 THEN 0 ELSE worst[k]
\* the stretches after the middle overlap if there is not room enough: a place may then be in two ninthers (or twice in
\* one), once as the last of a middle column
GapOf(k) == (k - 9 * Frac(k)) \div 4
Overlap(k) == GapOf(k) < Frac(k)
\* at least so many elements are not greater resp. not less than the median of the ninthers (itself included): four of
\* each ninther, of which one may be shared
Share(k) == IF Overlap(k) THEN 3 ELSE 4
LowSide(k) == Share(k) * (Frac(k) \div 2 + 1)
HighSide(k) == Share(k) * (Frac(k) - Frac(k) \div 2)
Cost(k) ==
  IF k <= 1 THEN 0
  ELSE IF k <= 11 THEN (k * (k - 1)) \div 2
  ELSE LET f == Frac(k)
           rest == Max2(W(k - LowSide(k)), W(k - HighSide(k))) IN
       \* twelve comparisons per ninther, their median, a partition and another one of equal elements
       Max2(k - 1, 12 * f + W(f) + 2 * (k - 1) + rest)
Init == n = 1 /\ worst = <<0>> /\ frac = 0
Next == \/ n < MaxN /\ n' = n + 1 /\ worst' = Append(worst, Max2(worst[n], Cost(n + 1))) /\ frac' = Frac(n + 1)
        \/ n = MaxN /\ UNCHANGED vars
Lo == n \div 2 - frac \div 2
Hi == Lo + frac
Gap == GapOf(n)
A0 == Lo - 4 * frac - Gap
B0 == Hi + Gap
Within == n > 11 =>
  /\ frac >= 1                             \* there is a ninther, and its median is looked for among fewer elements
  /\ frac < n
  /\ n >= 9 * frac
  \* the five stretches lie one behind the other
  /\ A0 >= 0
  /\ A0 + 3 * frac <= Lo - frac
  /\ ~Overlap(n) => Hi + frac <= B0
  /\ Hi <= B0
  /\ Hi + frac <= n
  /\ B0 + 3 * frac <= n
Shrinks == n > 11 => LowSide(n) >= 3 /\ HighSide(n) >= 3 /\ LowSide(n) < n /\ HighSide(n) < n
Linear == worst[n] <= Factor * n + Plus
==============================================================================
