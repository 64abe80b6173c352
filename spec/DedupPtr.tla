------------------------------- MODULE DedupPtr -------------------------------
(***************************************************************************)
(* Deduplication (partition_dedup of src/partition_dedup.rs): a read and a  *)
(* write pointer; the element read is compared with the last one kept and   *)
(* swapped to the end of those kept.  The relation is arbitrary: any answer *)
(* at any question (also one that is not symmetric or not transitive).      *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS MaxN
VARIABLES v, read, write, answers, pc
vars == <<v, read, write, answers, pc>>
N0 == Len(v)
Init == \E n \in 0..MaxN :
  /\ v = Identity(n) /\ answers = <<>>
  /\ read = 1 /\ write = 1
  /\ pc = IF n <= 1 THEN "end" ELSE "ask"
Step == /\ pc = "ask"
        /\ \E same \in BOOLEAN :
             /\ answers' = Append(answers, [a |-> v[read + 1], b |-> v[write], r |-> same])
             /\ IF same THEN UNCHANGED <<v, write>>
                ELSE /\ v' = IF read # write THEN [v EXCEPT ![read+1] = v[write+1], ![write+1] = v[read+1]] ELSE v
                     /\ write' = write + 1
        /\ read' = read + 1
        /\ pc' = IF read + 1 < N0 THEN "ask" ELSE "end"
Next == Step \/ (pc = "end" /\ UNCHANGED vars)
KeptLen == IF N0 <= 1 THEN N0 ELSE write
Permuted == IsPerm(v, N0)
Bounds == write <= read /\ (pc = "ask" => read < N0)
\* shown: the later element of the input first, the last kept one second
Shown == \A j \in 1..Len(answers) : answers[j].a = j + 1 /\ answers[j].b <= j
SameFn(i, k) == answers[i - 1].r
Result1 == pc = "end" =>
  /\ SubSeq(v, 1, KeptLen) = KeptOf(LAMBDA i, j : answers[i - 1].r, N0)
  /\ IsKept(LAMBDA i, j : IF i - 1 \in 1..Len(answers) /\ answers[i - 1].b = j THEN answers[i - 1].r ELSE FALSE, N0,
            SubSeq(v, 1, KeptLen))
  /\ Len(answers) = (IF N0 = 0 THEN 0 ELSE N0 - 1)
Emit == (pc = "end" /\ N0 >= 3) =>
  PrintT(<<"SCEN", "dedup", [ j \in 1..Len(answers) |-> IF answers[j].r THEN 1 ELSE 0 ]>>)
==============================================================================
