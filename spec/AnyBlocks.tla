------------------------------ MODULE AnyBlocks -------------------------------
(***************************************************************************)
(* partition_in_blocks of src/partition.rs and src/par/partition.rs at every *)
(* length, with the code's block size and any answers: BlockPart with the    *)
(* offsets reduced to how many there are.  pl and pr are the offsets not yet *)
(* worked off in the block at either end.  Apalache shows the invariant      *)
(* inductive.                                                               *)
(***************************************************************************)
EXTENDS Integers
BLOCK == 128
VARIABLES
  \* @type: Int;
  n,
  \* @type: Int;
  l,
  \* @type: Int;
  r,
  \* @type: Int;
  bl,
  \* @type: Int;
  br,
  \* @type: Int;
  pl,
  \* @type: Int;
  pr,
  \* @type: Int;
  asked,
  \* @type: Bool;
  last,
  \* @type: Str;
  pc
First == /\ l = 0 /\ r = n /\ bl = BLOCK /\ br = BLOCK /\ pl = 0 /\ pr = 0 /\ asked = 0 /\ last = FALSE /\ pc = "size"
Min(a, b) == IF a <= b THEN a ELSE b
Ind ==
  /\ n >= 1 /\ 0 <= l /\ l <= r /\ r <= n
  /\ 0 <= bl /\ bl <= BLOCK /\ 0 <= br /\ br <= BLOCK
  /\ 0 <= pl /\ pl <= bl /\ 0 <= pr /\ pr <= br
  \* between rounds: one side at least is worked off, and a block that is not was a full one
  /\ pc = "size" => /\ pl = 0 \/ pr = 0
                    /\ ~last /\ bl = BLOCK /\ br = BLOCK
                    /\ pl > 0 \/ pr > 0 => r - l >= BLOCK
                    /\ asked = l + (n - r) + (IF pl > 0 \/ pr > 0 THEN BLOCK ELSE 0)
  /\ pc = "trace" => /\ pl = 0 \/ pr = 0
                     /\ bl + br <= r - l
                     /\ (last => bl + br = r - l)
                     /\ (~last => bl = BLOCK /\ br = BLOCK)
                     /\ (pl > 0 => bl = BLOCK) /\ (pr > 0 => br = BLOCK)
                     /\ asked = l + (n - r) + (IF pl > 0 \/ pr > 0 THEN BLOCK ELSE 0)
  /\ pc = "rest" => /\ pl = 0 \/ pr = 0
                    /\ asked = n /\ last
                    /\ (pl > 0 => r - l >= pl /\ r - l <= bl)
                    /\ (pr > 0 => r - l >= pr /\ r - l <= br)
\* each element is asked about once; the blocks lie inside and do not overlap; what is left fits
Safe == /\ pc = "trace" => l + bl <= r - br
        /\ pc = "end" => asked = n
Inv == Ind /\ Safe
Start ==
  /\ n \in Int /\ l \in Int /\ r \in Int /\ bl \in Int /\ br \in Int /\ pl \in Int /\ pr \in Int /\ asked \in Int
  /\ last \in BOOLEAN /\ pc \in {"size", "trace", "rest"}
  /\ n >= 1
  /\ (First \/ Ind)
Size ==
  /\ pc = "size" /\ pc' = "trace"
  /\ last' = (r - l <= 2 * BLOCK)
  /\ IF r - l > 2 * BLOCK THEN UNCHANGED <<bl, br>>
     ELSE LET rem == IF pl > 0 \/ pr > 0 THEN (r - l) - BLOCK ELSE r - l IN
          IF pl > 0 THEN br' = rem /\ UNCHANGED bl
          ELSE IF pr > 0 THEN bl' = rem /\ UNCHANGED br
          ELSE bl' = rem \div 2 /\ br' = rem - rem \div 2
  /\ UNCHANGED <<n, l, r, pl, pr, asked>>
\* tracing what is not traced yet, the exchange, and the next block
Trace ==
  /\ pc = "trace"
  /\ \E a \in Int : \E b \in Int :
       /\ 0 <= a /\ a <= bl /\ 0 <= b /\ b <= br
       /\ (pl > 0 => a = pl) /\ (pr > 0 => b = pr)
       /\ LET c == Min(a, b) IN
          /\ pl' = a - c /\ pr' = b - c
          /\ l' = IF a = c THEN l + bl ELSE l
          /\ r' = IF b = c THEN r - br ELSE r
  /\ asked' = asked + (IF pl = 0 THEN bl ELSE 0) + (IF pr = 0 THEN br ELSE 0)
  /\ pc' = IF last THEN "rest" ELSE "size"
  /\ UNCHANGED <<n, bl, br, last>>
\* one element of the block left over is exchanged with the innermost one of the gap
Rest ==
  /\ pc = "rest" /\ (pl > 0 \/ pr > 0)
  /\ IF pl > 0 THEN pl' = pl - 1 /\ r' = r - 1 /\ UNCHANGED <<l, pr>>
     ELSE pr' = pr - 1 /\ l' = l + 1 /\ UNCHANGED <<r, pl>>
  /\ UNCHANGED <<n, bl, br, asked, last, pc>>
Next == Size \/ Trace \/ Rest
===============================================================================
