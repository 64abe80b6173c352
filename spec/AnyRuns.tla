------------------------------- MODULE AnyRuns --------------------------------
(***************************************************************************)
(* The run stack of the stable sorts (collapse in src/merge_sort.rs and      *)
(* src/par/merge_sort.rs) at every height and for every run length: RunStack *)
(* without limits.  The seven runs next to the top are looked at, a deeper   *)
(* one comes up after each merge; h is the height.                           *)
(*                                                                         *)
(* Grown(i): run i is longer than the two above it together.  Checking the   *)
(* top four runs suffices for all of them (checking three famously does      *)
(* not): when no merge is due every run on the stack is grown, so there are  *)
(* only logarithmically many.  Apalache shows the invariant inductive.       *)
(***************************************************************************)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  a,
  \* @type: Int;
  b,
  \* @type: Int;
  c,
  \* @type: Int;
  d,
  \* @type: Int;
  e,
  \* @type: Int;
  f,
  \* @type: Int;
  g,
  \* @type: Int;
  h,
  \* @type: Str;
  pc
\* a is the top
Ge(k, p) == h >= k => p
Positive == a >= 1 /\ b >= 1 /\ c >= 1 /\ d >= 1 /\ e >= 1 /\ f >= 1 /\ g >= 1
\* below the top three the stack is in order at any time
Deep == /\ Ge(5, e > d + c)
        /\ Ge(6, f > e + d)
        /\ Ge(7, g > f + e)
Top == /\ Ge(2, b > a) /\ Ge(3, c > b + a) /\ Ge(3, c > b) /\ Ge(4, d > c + b)
Due == h >= 2 /\ (b <= a \/ (h >= 3 /\ c <= b + a) \/ (h >= 4 /\ d <= c + b))
First == h = 1
Ind == /\ h >= 1 /\ Positive
       /\ (pc = "push" => Deep /\ Top)
       \* the run just pushed may be of any length
       /\ (pc = "fold" => Ge(5, e > d + c) /\ Ge(6, f > e + d) /\ Ge(7, g > f + e))
\* no merge is due: all in order
Safe == (pc = "fold" /\ ~Due) => Top /\ Deep
\* the run below the pair merged is there
Inv == Ind /\ Safe
Start ==
  /\ a \in Int /\ b \in Int /\ c \in Int /\ d \in Int /\ e \in Int /\ f \in Int /\ g \in Int /\ h \in Int
  /\ pc \in {"push", "fold"}
  /\ h >= 1 /\ Positive
  /\ ((First /\ pc = "fold") \/ Ind)
Push == /\ pc = "push" /\ pc' = "fold"
        /\ a' \in Int /\ a' >= 1
        /\ b' = a /\ c' = b /\ d' = c /\ e' = d /\ f' = e /\ g' = f
        /\ h' = h + 1
\* the eighth run comes into sight, in order with those above it
Eighth(x) == x >= 1 /\ (h >= 8 => x > g + f)
Fold ==
  /\ pc = "fold" /\ Due /\ h' = h - 1 /\ UNCHANGED pc
  /\ g' \in Int /\ Eighth(g')
  /\ IF h >= 3 /\ c < a
     THEN a' = a /\ b' = b + c /\ c' = d /\ d' = e /\ e' = f /\ f' = g
     ELSE a' = a + b /\ b' = c /\ c' = d /\ d' = e /\ e' = f /\ f' = g
Rest == /\ pc = "fold" /\ ~Due /\ pc' = "push" /\ UNCHANGED <<a, b, c, d, e, f, g, h>>
Next == Push \/ Fold \/ Rest
===============================================================================
