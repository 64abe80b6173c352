------------------------------ MODULE AnySearch -------------------------------
(***************************************************************************)
(* Binary search (binary_search_by, partition_point of src/lib.rs) at every  *)
(* length: BinSearch with numbers that have no upper limit.  The invariant   *)
(* is inductive: Start is the beginning of a search or any state that        *)
(* satisfies it, and Apalache shows that a step keeps it.                    *)
(***************************************************************************)
EXTENDS Integers
VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  below,
  \* @type: Int;
  equal,
  \* @type: Bool;
  liar,
  \* @type: Int;
  left,
  \* @type: Int;
  right,
  \* @type: Int;
  cap,
  \* @type: Str;
  pc,
  \* @type: Int;
  at
MidOf == left + (right - left) \div 2
Truth(i) == IF i < below THEN -1 ELSE IF i < below + equal THEN 0 ELSE 1
First == left = 0 /\ right = n /\ cap = n /\ pc = "ask" /\ at = -1
\* cap: the length, halved at each question; it is at least 1 at a question, so there are no more of them than the number
\* of times the length can be halved
Ind ==
  /\ 0 <= left /\ left <= right /\ right <= n
  /\ cap >= 0 /\ cap <= n
  /\ (pc = "ask" => right - left <= cap)
  /\ (~liar => left <= below /\ right >= below + equal)
  /\ pc = "ok" => /\ 0 <= at /\ at < n
                  /\ (~liar => Truth(at) = 0)
  /\ pc = "err" => /\ 0 <= at /\ at <= n
                   /\ (~liar => equal = 0 /\ at = below)
Safe == (pc = "ask" /\ left < right) => 0 <= MidOf /\ MidOf < n /\ cap >= 1
Inv == Ind /\ Safe
Start ==
  /\ n \in Int /\ below \in Int /\ equal \in Int /\ left \in Int /\ right \in Int /\ cap \in Int /\ at \in Int
  /\ liar \in BOOLEAN /\ pc \in {"ask", "ok", "err"}
  /\ n >= 0 /\ below >= 0 /\ equal >= 0 /\ below + equal <= n
  /\ (First \/ Ind)
\* answers at a question: below the target, equal, above
Next ==
  /\ UNCHANGED <<n, below, equal, liar>>
  /\ pc = "ask"
  /\ IF left >= right THEN pc' = "err" /\ at' = left /\ UNCHANGED <<left, right, cap>>
     ELSE /\ cap' = cap \div 2
          /\ \E a \in {-1, 0, 1} :
               /\ (~liar => a = Truth(MidOf))
               /\ left' = IF a = -1 THEN MidOf + 1 ELSE left
               /\ right' = IF a = 1 THEN MidOf ELSE right
               /\ pc' = IF a = 0 THEN "ok" ELSE "ask"
               /\ at' = IF a = 0 THEN MidOf ELSE at
===============================================================================
