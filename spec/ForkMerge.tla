------------------------------ MODULE ForkMerge ------------------------------
(***************************************************************************)
(* The parallel merge sort (src/par/merge_sort.rs): chunks are sorted,      *)
(* neighbouring chunks that continue each other are joined, then the        *)
(* regions are merged by a tree of tasks going back and forth between the   *)
(* array v and the buffer buf; large merges are split in two more tasks.    *)
(*                                                                         *)
(* Every comparison of every task is one step, so all interleavings of the  *)
(* tasks are explored.  With Liar, comparisons answer anything; up to       *)
(* MaxPanics of them panic instead.                                         *)
(*                                                                         *)
(* Checked: tasks in progress never touch the same slot; no slot of the     *)
(* buffer is read before it is written; once all tasks have ended, v holds  *)
(* every element exactly once -- whatever was answered and wherever a panic *)
(* struck; without liars and panics it is the stable sort of the input.     *)
(* MaxSeq stands for 5000, Chunk for 2000.                                  *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS Sizes, Ranks, Chunk, MaxSeq, Liar, MaxPanics

VARIABLES mem,    \* [v, buf]: sequences of identities, 0: never written
          rk,     \* rank of each identity
          res,    \* per chunk: 0 sorted, 1 non-descending, 2 strictly descending (and not yet reversed)
          regs,   \* joined regions: sequence of <<from, to>>, 0-based, half open
          tasks,  \* task (a path) -> its state
          raised, pc
vars == <<mem, rk, res, regs, tasks, raised, pc>>
N0 == Len(rk)

(* ------------------------- chunks, sequentially ------------------------ *)
NChunks(n) == (n + Chunk - 1) \div Chunk
From(j) == (j - 1) * Chunk
To(j, n) == IF j * Chunk < n THEN j * Chunk ELSE n
Less(a, b) == rk[a] < rk[b]
ChunkRes(f, a, b) ==   \* of f[a+1..b]: as merge_sort classifies it, scanning from the end
  IF b - a >= 2 /\ \A i \in (a+1)..(b-1) : f[i+1] < f[i] THEN 2
  ELSE IF \A i \in (a+1)..(b-1) : f[i] <= f[i+1] THEN 1 ELSE 0
StableIds(f, a, b) == SortSeq([ i \in 1..(b-a) |-> a + i ], LAMBDA x, y : f[x] < f[y] \/ (f[x] = f[y] /\ x < y))
Init == \E n \in Sizes : \E f \in [1..n -> Ranks] :
  LET k == NChunks(n)
      c == [ j \in 1..k |-> ChunkRes(f, From(j), To(j, n)) ]
      ids == [ j \in 1..k |-> IF c[j] = 0 THEN StableIds(f, From(j), To(j, n))
                              ELSE [ i \in 1..(To(j, n) - From(j)) |-> From(j) + i ] ] IN
  /\ rk = f /\ res = c
  /\ mem = [ v |-> FlattenSeq(ids), buf |-> [ i \in 1..n |-> 0 ] ]
  /\ regs = <<>> /\ tasks = <<>> /\ raised = 0 /\ pc = "join"

\* one round of the joining loop: chunks from j on that continue each other
RECURSIVE Joined(_)
Joined(j) ==
  IF j < Len(res) /\ res[j] # 0 /\ res[j + 1] = res[j]
     /\ (res[j] = 2) = Less(mem.v[From(j + 1) + 1], mem.v[From(j + 1)])
  THEN Joined(j + 1) ELSE j
Reversed(s, a, b) == [ i \in 1..Len(s) |-> IF i > a /\ i <= b THEN s[a + b + 1 - i] ELSE s[i] ]
NextChunk == IF regs = <<>> THEN 1 ELSE NChunks(regs[Len(regs)][2]) + 1
Join ==
  /\ pc = "join"
  /\ LET j == NextChunk IN
     IF j > Len(res)
     THEN /\ pc' = "merge"
          /\ tasks' = (<<>> :> [k |-> "rec", pc |-> "start", lo |-> 1, hi |-> Len(regs), into |-> FALSE, out |-> ""])
          /\ UNCHANGED <<mem, regs>>
     ELSE LET e == Joined(j) IN
          /\ regs' = Append(regs, <<From(j), To(e, N0)>>)
          /\ mem' = IF res[j] = 2 THEN [mem EXCEPT !.v = Reversed(@, From(j), To(e, N0))] ELSE mem
          /\ UNCHANGED <<tasks, pc>>
  /\ UNCHANGED <<rk, res, raised>>

(* ------------------------------- tasks --------------------------------- *)
Kid(t, i) == Append(t, i)
Put(p, x) == (p :> x) @@ tasks
Src(x) == IF x.k = "rec" THEN (IF x.into THEN "v" ELSE "buf") ELSE x.src
Other(s) == IF s = "v" THEN "buf" ELSE "v"
\* dest[d..] := src[a..b), 0-based
Copy(m, s, a, b, d) == LET o == Other(s) IN
  [ m EXCEPT ![o] = [ i \in 1..N0 |-> IF i > d /\ i <= d + b - a THEN m[s][i - d + a] ELSE @[i] ] ]
Ended(t) == t \in DOMAIN tasks /\ tasks[t].pc = "done"
Bad(t) == tasks[t].out = "panic"
Drop2(t, upd) == upd @@ [ u \in DOMAIN tasks \ {Kid(t, 1), Kid(t, 2)} |-> tasks[u] ]
Start(t) == regs[tasks[t].lo][1]
Stop(t) == regs[tasks[t].hi][2]
Mid(t) == regs[tasks[t].lo + (tasks[t].hi - tasks[t].lo + 1) \div 2][1]

RecStart(t) == LET x == tasks[t] IN
  /\ x.k = "rec" /\ x.pc = "start"
  /\ IF x.lo = x.hi
     THEN /\ mem' = IF x.into THEN Copy(mem, "v", Start(t), Stop(t), Start(t)) ELSE mem
          /\ tasks' = Put(t, [x EXCEPT !.pc = "done", !.out = "ok"])
     ELSE LET m == x.lo + (x.hi - x.lo + 1) \div 2
              c(a, b) == [k |-> "rec", pc |-> "start", lo |-> a, hi |-> b, into |-> ~x.into, out |-> ""] IN
          /\ tasks' = (t :> [x EXCEPT !.pc = "wait"]) @@ (Kid(t, 1) :> c(x.lo, m - 1)) @@ (Kid(t, 2) :> c(m, x.hi)) @@ tasks
          /\ UNCHANGED mem
  /\ UNCHANGED raised
Merging(src, la, lb, ra, rb, d) ==
  [k |-> "mrg", pc |-> "start", src |-> src, la |-> la, lb |-> lb, ra |-> ra, rb |-> rb, d |-> d,
   a |-> 0, b |-> 0, out |-> ""]
RecJoin(t) == LET x == tasks[t] IN
  /\ x.k = "rec" /\ x.pc = "wait" /\ Ended(Kid(t, 1)) /\ Ended(Kid(t, 2))
  /\ IF Bad(Kid(t, 1)) \/ Bad(Kid(t, 2))
     THEN \* the guard copies everything
          /\ mem' = Copy(mem, Src(x), Start(t), Stop(t), Start(t))
          /\ tasks' = Drop2(t, t :> [x EXCEPT !.pc = "done", !.out = "panic"])
     ELSE /\ tasks' = Drop2(t, t :> Merging(Src(x), Start(t), Mid(t), Mid(t), Stop(t), Start(t)))
          /\ UNCHANGED mem
  /\ UNCHANGED raised

\* the state guard of a merge: what is left of both sides goes to the destination
Guard(m, x) == Copy(Copy(m, x.src, x.la, x.lb, x.d), x.src, x.ra, x.rb, x.d + x.lb - x.la)
Finish(t, x, how) ==
  /\ mem' = Guard(mem, x)
  /\ tasks' = Put(t, [x EXCEPT !.pc = "done", !.out = how])
MrgStart(t) == LET x == tasks[t] IN
  /\ x.k = "mrg" /\ x.pc = "start"
  /\ LET ll == x.lb - x.la  rl == x.rb - x.ra IN
     IF ll = 0 \/ rl = 0 \/ ll + rl < MaxSeq
     THEN tasks' = Put(t, [x EXCEPT !.pc = "seq"])
     ELSE tasks' = Put(t, [x EXCEPT !.pc = "split", !.a = 0, !.b = IF ll >= rl THEN rl ELSE ll])
  /\ UNCHANGED <<mem, raised>>
AnswerSet(x, y) == IF Liar THEN BOOLEAN ELSE { Less(x, y) }
At1(x, i) == mem[x.src][i + 1]
MrgStep(t) == LET x == tasks[t] IN
  /\ x.k = "mrg" /\ x.pc = "seq"
  /\ IF x.la = x.lb \/ x.ra = x.rb THEN Finish(t, x, "ok")
     ELSE \E less \in AnswerSet(At1(x, x.ra), At1(x, x.la)) :
          IF less
          THEN mem' = Copy(mem, x.src, x.ra, x.ra + 1, x.d) /\ tasks' = Put(t, [x EXCEPT !.ra = @ + 1, !.d = @ + 1])
          ELSE mem' = Copy(mem, x.src, x.la, x.la + 1, x.d) /\ tasks' = Put(t, [x EXCEPT !.la = @ + 1, !.d = @ + 1])
  /\ UNCHANGED raised
MrgSplit(t) == LET x == tasks[t]  ll == x.lb - x.la  rl == x.rb - x.ra IN
  /\ x.k = "mrg" /\ x.pc = "split"
  /\ IF x.a < x.b
     THEN LET m == x.a + (x.b - x.a) \div 2 IN
          /\ IF ll >= rl
             THEN \E less \in AnswerSet(At1(x, x.ra + m), At1(x, x.la + ll \div 2)) :
                    tasks' = Put(t, IF less THEN [x EXCEPT !.a = m + 1] ELSE [x EXCEPT !.b = m])
             ELSE \E less \in AnswerSet(At1(x, x.ra + rl \div 2), At1(x, x.la + m)) :
                    tasks' = Put(t, IF less THEN [x EXCEPT !.b = m] ELSE [x EXCEPT !.a = m + 1])
          /\ UNCHANGED mem
     ELSE LET lm == IF ll >= rl THEN ll \div 2 ELSE x.a
              rm == IF ll >= rl THEN x.a ELSE rl \div 2 IN
          /\ tasks' = (t :> [x EXCEPT !.pc = "wait"])
                      @@ (Kid(t, 1) :> Merging(x.src, x.la, x.la + lm, x.ra, x.ra + rm, x.d))
                      @@ (Kid(t, 2) :> Merging(x.src, x.la + lm, x.lb, x.ra + rm, x.rb, x.d + lm + rm)) @@ tasks
          /\ UNCHANGED mem
  /\ UNCHANGED raised
MrgJoin(t) == LET x == tasks[t] IN
  /\ x.k = "mrg" /\ x.pc = "wait" /\ Ended(Kid(t, 1)) /\ Ended(Kid(t, 2))
  /\ tasks' = Drop2(t, t :> [x EXCEPT !.pc = "done", !.out = IF Bad(Kid(t, 1)) \/ Bad(Kid(t, 2)) THEN "panic" ELSE "ok"])
  /\ UNCHANGED <<mem, raised>>
\* the comparison a task is about to make panics
MrgPanic(t) == LET x == tasks[t] IN
  /\ x.k = "mrg" /\ raised < MaxPanics
  /\ \/ x.pc = "seq" /\ x.la < x.lb /\ x.ra < x.rb
     \/ x.pc = "split" /\ x.a < x.b
  /\ Finish(t, x, "panic") /\ raised' = raised + 1
AllDone == pc = "merge" /\ tasks[<<>>].pc = "done"
Done == AllDone /\ UNCHANGED vars
Task == /\ pc = "merge"
        /\ \E t \in DOMAIN tasks : RecStart(t) \/ RecJoin(t) \/ MrgStart(t) \/ MrgStep(t) \/ MrgSplit(t) \/ MrgJoin(t) \/ MrgPanic(t)
        /\ UNCHANGED <<rk, res, regs, pc>>
Next == Join \/ Task \/ Done

(* ------------------------------ invariants ----------------------------- *)
AllHere == pc # "merge" => IsPerm(mem.v, N0)
Complete == AllDone => /\ IsPerm(mem.v, N0)
                       /\ tasks[<<>>].out = (IF raised > 0 THEN "panic" ELSE "ok")
                       /\ (~Liar /\ raised = 0) => SortedStable(rk, mem.v)
RegionsOk == pc = "merge" =>
  /\ regs[1][1] = 0 /\ regs[Len(regs)][2] = N0
  /\ \A j \in 1..(Len(regs)-1) : regs[j][2] = regs[j+1][1]
  /\ tasks[<<>>].pc = "start" => \A j \in 1..Len(regs) : \A i \in (regs[j][1]+1)..(regs[j][2]-1) :
       rk[mem.v[i]] < rk[mem.v[i+1]] \/ (rk[mem.v[i]] = rk[mem.v[i+1]] /\ mem.v[i] < mem.v[i+1])
Span(a, b) == { i \in 0..(N0-1) : a <= i /\ i < b }
\* slots a task in progress works on itself (tasks waiting for others work on none)
Slots(x) ==
  IF x.k = "rec" /\ x.pc = "start" THEN { <<s, i>> : s \in {"v", "buf"}, i \in Span(regs[x.lo][1], regs[x.hi][2]) }
  ELSE IF x.k = "mrg" /\ x.pc \in {"start", "seq", "split"}
  THEN { <<x.src, i>> : i \in Span(x.la, x.lb) \cup Span(x.ra, x.rb) }
       \cup { <<Other(x.src), i>> : i \in Span(x.d, x.d + x.lb - x.la + x.rb - x.ra) }
  ELSE {}
Disjoint == pc = "merge" => \A t, u \in DOMAIN tasks : t # u => Slots(tasks[t]) \cap Slots(tasks[u]) = {}
Written == pc = "merge" => \A t \in DOMAIN tasks : LET x == tasks[t] IN
  (x.k = "mrg" /\ x.pc \in {"start", "seq", "split"}) =>
     \A i \in Span(x.la, x.lb) \cup Span(x.ra, x.rb) : mem[x.src][i + 1] # 0
\* only the joining of chunks
JoinOnly == pc = "join"
\* scenario: per chunk its kind, plus 10 times how its first element relates to the last one of the chunk before
\* (1: less, 2: equal, 3: greater), in the input
Kind(j) == res[j]
Bound(j) == IF j = 1 THEN 0
            ELSE LET a == rk[From(j)]  b == rk[From(j) + 1] IN IF b < a THEN 1 ELSE IF b = a THEN 2 ELSE 3
Emit == (pc = "merge" /\ tasks[<<>>].pc = "start" /\ raised = 0) =>
  PrintT(<<"SCEN", "chunks", [ j \in 1..Len(res) |-> Kind(j) + 10 * Bound(j) ]>>)
==============================================================================
