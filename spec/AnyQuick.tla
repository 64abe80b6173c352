------------------------------- MODULE AnyQuick -------------------------------
(***************************************************************************)
(* Quick sort (recurse of src/quick_sort.rs and src/par/quick_sort.rs) at     *)
(* every length, whatever the partitions return: how deep it gets.  A state   *)
(* is one of the parts being sorted; a step goes to a part that comes of it,  *)
(* in the same call, in a call of its own or, above MAX_SEQUENTIAL in the     *)
(* parallel one, in a task of its own.                                        *)
(*                                                                         *)
(* half is the length halved with each call: a part is not longer, so there   *)
(* are not more calls within each other than it takes to halve the length     *)
(* away.  eighth is the length with (about) an eighth taken off with each     *)
(* balanced task; the others use up the limit.  So the tasks within each      *)
(* other are logarithmically many as well, although both sides become tasks.  *)
(* Apalache shows the invariant inductive.                                    *)
(***************************************************************************)
EXTENDS Integers
MAXINS == 20
MAXSEQ == 2000
VARIABLES
  \* @type: Bool;
  par,
  \* @type: Int;
  n,
  \* @type: Int;
  len,
  \* @type: Int;
  limit,
  \* @type: Int;
  start,
  \* @type: Int;
  uneven,
  \* @type: Int;
  half,
  \* @type: Int;
  eighth,
  \* @type: Bool;
  seq,
  \* @type: Bool;
  balanced,
  \* @type: Int;
  prev
First == len = n /\ limit = start /\ uneven = 0 /\ half = n /\ eighth = n /\ seq = ~par /\ balanced = TRUE /\ prev = n + 1
Ind ==
  /\ 0 <= len /\ len <= n /\ len < prev
  /\ 0 <= limit /\ limit <= start
  \* each uneven partition is accounted for
  /\ 0 <= uneven /\ uneven + limit <= start
  /\ len <= eighth
  /\ (seq => len <= half)
  /\ (par /\ seq => len <= MAXSEQ)
Safe == /\ (seq => half >= len) /\ uneven <= start
        /\ eighth <= n + 8
Inv == Ind /\ Safe
Start ==
  /\ par \in BOOLEAN /\ seq \in BOOLEAN /\ balanced \in BOOLEAN
  /\ n \in Int /\ len \in Int /\ limit \in Int /\ start \in Int /\ uneven \in Int /\ half \in Int /\ eighth \in Int /\ prev \in Int
  /\ n >= 0 /\ start >= 0
  /\ (First \/ (Ind /\ Safe))
Min(x, y) == IF x <= y THEN x ELSE y
Max(x, y) == IF x >= y THEN x ELSE y
Even(mid) == Min(mid, len - mid) >= len \div 8
Less(k) == Max(k - 1, 0)
Round == \E mid \in Int :
  LET lim == IF balanced THEN limit ELSE limit - 1
      rest == len - mid - 1 IN
  /\ len > MAXINS /\ limit > 0
  /\ 0 <= mid /\ mid < len
  /\ IF seq \/ Max(mid, rest) <= MAXSEQ
     THEN /\ seq' = TRUE /\ eighth' = eighth
          /\ uneven' = uneven
          /\ \/ \* the shorter side, in a call of its own
                /\ len' = Min(mid, rest) /\ half' = (IF seq THEN half ELSE len) \div 2 /\ balanced' = TRUE /\ limit' = lim
             \/ \* the longer one, in this one
                /\ len' = Max(mid, rest) /\ half' = (IF seq THEN half ELSE len) /\ balanced' = Even(mid) /\ limit' = lim
     ELSE /\ seq' = FALSE /\ len' \in {mid, rest} /\ half' = half /\ balanced' = TRUE
          /\ limit' = IF Even(mid) THEN lim ELSE Less(lim)
          /\ uneven' = IF Even(mid) THEN uneven ELSE uneven + 1
          /\ eighth' = IF Even(mid) THEN (7 * eighth) \div 8 + 1 ELSE eighth
\* elements equal to the one before set aside, one at least
Equal == \E mid \in Int :
  /\ len > MAXINS /\ limit > 0
  /\ 1 <= mid /\ mid <= len /\ len' = len - mid
  /\ limit' = (IF balanced THEN limit ELSE limit - 1)
  /\ UNCHANGED <<seq, eighth, uneven, half, balanced>>
Next == (Round \/ Equal) /\ UNCHANGED <<par, n, start>> /\ prev' = len
===============================================================================
