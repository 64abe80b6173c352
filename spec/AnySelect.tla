------------------------------ MODULE AnySelect -------------------------------
(***************************************************************************)
(* Selection (partition_at_index_loop, median_of_medians of                  *)
(* src/partition.rs and src/par/partition.rs) at every length and with any    *)
(* answers: the part worked on and the index in it, whatever the partitions   *)
(* return.  The index stays inside, the part becomes shorter each round, the  *)
(* element wanted stays in it.  Apalache shows the invariant inductive.       *)
(***************************************************************************)
EXTENDS Integers
MAXINS == 11
VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  want,
  \* @type: Int;
  lo,
  \* @type: Int;
  len,
  \* @type: Int;
  index,
  \* @type: Int;
  prev,
  \* @type: Bool;
  slow,
  \* @type: Int;
  limit,
  \* @type: Str;
  pc
First == lo = 0 /\ len = n /\ index = want /\ ~slow /\ limit = 16 /\ pc = "loop" /\ prev = n + 1
Ind ==
  /\ 0 <= lo /\ lo + len <= n /\ len >= 0
  /\ 0 <= limit /\ limit <= 16
  /\ pc = "loop" => /\ 0 <= index /\ index < len
                    /\ lo + index = want
                    /\ len < prev
  /\ pc = "end" => 0 <= want /\ want < n
Frac == IF len <= 1024 THEN len \div 12 ELSE IF len <= 131072 THEN len \div 64 ELSE len \div 1024
Safe == /\ (pc = "loop" => len >= 1)
        \* the fallback looks for the median of some ninthers, fewer than there are elements, and for an index among them
        /\ (pc = "loop" /\ len > MAXINS) => Frac >= 1 /\ Frac < len /\ Frac \div 2 < Frac
Inv == Ind /\ Safe
Start ==
  /\ n \in Int /\ want \in Int /\ lo \in Int /\ len \in Int /\ index \in Int /\ prev \in Int /\ limit \in Int
  /\ slow \in BOOLEAN /\ pc \in {"loop", "end"}
  /\ n >= 1 /\ 0 <= want /\ want < n
  /\ (First \/ Ind)
Stop == pc' = "end" /\ UNCHANGED <<lo, len, index, limit, slow>>
Keep(l, k, i) == lo' = l /\ len' = k /\ index' = i /\ pc' = "loop"
\* partition returns any position of the part
Part == \E mid \in Int :
  /\ 0 <= mid /\ mid < len
  /\ IF mid = index THEN Stop
     ELSE /\ UNCHANGED slow
          /\ limit' \in {limit, limit - 1} /\ limit' >= 0
          /\ IF mid < index THEN Keep(lo + mid + 1, len - mid - 1, index - mid - 1)
             ELSE Keep(lo, mid, index)
\* equal elements set aside: one to all of them
Equal == \E mid \in Int :
  /\ 1 <= mid /\ mid <= len
  /\ IF mid > index THEN Stop
     ELSE Keep(lo + mid, len - mid, index - mid) /\ limit' \in {limit, limit - 1} /\ limit' >= 0 /\ UNCHANGED slow
Ninthers == \E p \in Int : \E mid \in Int :
  /\ 0 <= p /\ p < len
  /\ (p # 0 => mid = p + 1) /\ (p = 0 => 1 <= mid /\ mid <= len)
  /\ IF p = index \/ (p < index /\ mid > index) THEN Stop
     ELSE /\ slow' = TRUE /\ UNCHANGED limit
          /\ IF p > index THEN Keep(lo, p, index) ELSE Keep(lo + mid, len - mid, index - mid)
Next ==
  /\ UNCHANGED <<n, want>> /\ pc = "loop" /\ prev' = len
  /\ IF len <= MAXINS THEN Stop
     ELSE IF slow \/ limit = 0      \* the fallback, once begun, is not left
     THEN (IF index = 0 \/ index = len - 1 THEN Stop ELSE Ninthers)
     ELSE Part \/ Equal
===============================================================================
