------------------------------- MODULE Slice1 --------------------------------
(***************************************************************************)
(* State machine of a one-dimensional array under the ndarray-slice API.   *)
(*                                                                         *)
(* One action per observable step: creating the backing memory, taking a   *)
(* view of it (a slice, a lane, or a view returned by an earlier call),    *)
(* beginning a call, a user callback beginning / ending / raising on some   *)
(* thread, the call returning or unwinding, inspecting memory, mutation    *)
(* through a returned reference, dropping the array.                       *)
(*                                                                         *)
(* There is no action for an operation that crashes, hangs, or fails to    *)
(* build: a trace containing such an event is never a behaviour.           *)
(*                                                                         *)
(* The contract of Return and Unwind is a conjunction of named clauses;    *)
(* Clauses selects the ones in force (a check of one property enables the  *)
(* clauses its statement needs).                                           *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC

CONSTANT Clauses
AllClauses == { "PANIC", "PERM", "ORDER", "RESULT", "FRAME", "SHOWN", "DROPS", "PAYLOAD", "EXCL",
                "COST", "STACK", "LINEAR", "CALLS", "KEYONCE", "ARGS", "HEAP", "RELEASED", "MEMO" }
ASSUME Clauses \subseteq AllClauses

VARIABLES mem,    \* identity at each memory position
          rank,   \* rank of each identity
          view,   \* the view operated on
          call,   \* pending call, or [op |-> "none"]
          live,   \* callbacks in progress: set of [t, ids]
          obs,    \* what the pending call has shown so far
          memo,   \* outcome of every signature seen (function from a set of strings)
          frames  \* calls suspended inside one of their callbacks, innermost last
vars == <<mem, rank, view, call, live, obs, memo, frames>>

NoCall == [op |-> "none"]
NoObs  == [cb |-> 0, cmp |-> 0, kcmp |-> 0, keyed |-> <<>>, raised |-> 0, asks |-> <<>>, bad |-> {}]
Idle   == call.op = "none"

SortOps     == { "sort", "cached", "unst", "psort", "pcached", "punst" }
StableOps   == { "sort", "cached", "psort", "pcached" }
SelectOps   == { "sel", "many", "pmany" }
BulkOps     == { "many", "pmany" }
ReadOps     == { "issorted", "contains", "bs", "pp" }
ParOps      == { "psort", "pcached", "punst", "pmany" }
Ops         == SortOps \cup SelectOps \cup ReadOps \cup { "dedup", "rev" }
InPlaceOps  == { "unst", "sel", "many", "dedup", "rev" } \cup ReadOps

N == view.n
Pre == Content(mem, view)
\* ranks of the viewed elements at the time of the call
PreRanks == RanksOf(rank, Pre)

InvalidArgs(c) ==
  CASE c.op = "sel"        -> c.k >= N
    [] c.op \in BulkOps    -> \/ \E j \in 1..Len(c.idx) : c.idx[j] >= N
                              \/ ~StrictlyIncreasing(c.idx)
    [] OTHER               -> FALSE

(* ------------------------------ clauses ------------------------------- *)
(* o: the outcome reported: how ("ret", "own" panic of the operation, "inj" injected panic), witness p, result   *)
(* res, counters cnt, memory of the other owner.                                                                 *)

Panic(o) ==
  LET c == call IN
  CASE o.how = "ret" -> ~InvalidArgs(c) /\ o.cnt.raised = 0
    [] o.how = "own" -> o.cnt.raised = 0 /\ (InvalidArgs(c) \/ ~c.cons)
    [] o.how = "inj" -> o.cnt.raised > 0
    [] OTHER -> FALSE

Perm(o) == /\ IsPerm(o.p, N)
           /\ call.op \in ReadOps => IsIdentity(o.p)

Order(o) ==
  LET c == call  r == PreRanks  q == After(r, o.p) IN
  (o.how = "ret" /\ IsPerm(o.p, N) /\ ~InvalidArgs(c) /\ (c.cons \/ c.op \in {"rev", "dedup"})) =>
    CASE c.op \in StableOps          -> SortedStable(r, o.p)
      [] c.op \in SortOps            -> Sorted(q)
      [] c.op = "sel"                -> PartitionedAt(q, c.k)
      [] c.op \in BulkOps            -> PartitionedAtAll(q, c.idx)
      [] c.op = "rev"                -> c.sz = 0 \/ \A i \in 1..N : o.p[i] = N + 1 - i
      [] OTHER                       -> TRUE

\* kept elements computed from the equality answers in the order they were asked
AskFits(asks, pre, i, last) == i - 1 <= Len(asks) /\ asks[i-1].a = pre[i] /\ asks[i-1].b = pre[last]
AsksFit(asks, pre, n, kept) ==
  \A i \in 2..n : AskFits(asks, pre, i, kept[CHOOSE j \in 1..Len(kept) :
                                               kept[j] < i /\ (j = Len(kept) \/ kept[j+1] >= i)])
Kept(o) == LET c == call  r == PreRanks IN
  IF c.eqk = "rank" THEN KeptOf(LAMBDA i, j : r[i] = r[j] /\ r[i] # NAN, N)
  ELSE LET kept == KeptOf(LAMBDA i, j : i - 1 <= Len(o.asks) /\ o.asks[i-1].r = 1, N) IN
       IF AsksFit(o.asks, Pre, N, kept) THEN kept ELSE <<-1>>

AskedWith(asks, a, b, r) == \E j \in 1..Len(asks) : asks[j].a = a /\ asks[j].b = b /\ asks[j].r = r
Result(o) ==
  LET c == call  r == PreRanks  z == o.res IN
  CASE c.op \in BulkOps ->
         /\ z.prior
         /\ (o.how = "ret" /\ ~InvalidArgs(c)) =>
              /\ Len(z.got) = Len(c.idx)
              /\ \A j \in 1..Len(c.idx) :
                   /\ z.got[j][2] = (IF c.sz = 0 THEN 0 ELSE At(view, c.idx[j]))
                   /\ c.op = "many" => z.got[j][1] = c.idx[j]
    [] o.how # "ret" -> TRUE
    [] InvalidArgs(c) /\ c.op \notin BulkOps -> TRUE
    [] c.op = "sel" -> IF c.sz = 0 THEN z.l.n = c.k /\ z.r.n = N - 1 - c.k
                       ELSE /\ z.l = Sub(view, 0, c.k)
                            /\ z.m = At(view, c.k)
                            /\ z.r = Sub(view, c.k + 1, N)
    [] c.op = "dedup" ->
         IF c.sz = 0 THEN z.a.n + z.b.n = N
         ELSE LET k == z.a.n IN
              /\ z.a = Sub(view, 0, k)
              /\ z.b = Sub(view, k, N)
              /\ (IsPerm(o.p, N) /\ c.cbs) => SubSeq(o.p, 1, k) = Kept(o)
    [] c.op = "issorted" ->
         IF c.eqk = "rank" THEN c.cons => z = OrderTest(r)
         \* any relation: what was answered about neighbours decides
         ELSE c.cbs => IF z THEN \A i \in 1..(N-1) : AskedWith(o.asks, Pre[i], Pre[i+1], 1)
                       ELSE \E i \in 1..(N-1) : AskedWith(o.asks, Pre[i], Pre[i+1], 0)
    [] c.op = "contains" -> c.cons => z = Member(r, c.tgt)
    [] c.op = "bs" -> /\ z.ix <= N /\ (z.found => z.ix < N)
                      /\ (c.cons /\ PartitionedBy(r, c.tgt)) => SearchOk(r, c.tgt, z.found, z.ix)
                      /\ (c.cons /\ z.found) => r[z.ix + 1] = c.tgt
    [] c.op = "pp" -> /\ z <= N
                      /\ (c.cons /\ IsPrefixBelow(r, c.tgt)) => z = NumBelow(r, c.tgt)
    [] OTHER -> TRUE

Frame(o) == o.other # <<>> => o.other = mem
Drops(o) == o.cnt.opdrops = 0 /\ o.cnt.dropbad = 0
Payload(o) == o.cnt.stale = 0 /\ o.cnt.lost = 0
Shown(o) == o.cnt.foreign = 0 /\ "SHOWN" \notin obs.bad
Excl(o) == o.cnt.excl = 0 /\ "EXCL" \notin obs.bad
KeyOnce(o) == (call.op \in {"cached", "pcached"} => o.cnt.kmax <= 1 /\ "KEYONCE" \notin obs.bad)

(* Comparison bounds. Constants are a generous multiple (at least two) of the worst the algorithms need.          *)
Cmps(o) == o.cnt.cmp + o.cnt.kcmp
SortBound(op, n) == (IF op \in {"sort", "psort"} THEN 2 ELSE 4) * n * (Log2(n) + 1) + 400
\* Median of medians looks at n \div 12 elements up to 1024, n \div 64 up to 131072 and n \div 1024
\* beyond that: the constant of the linear bound steps up with the last of them (SelectCost.tla).
SelectFactor(n) == IF n <= 131072 THEN 100 ELSE 800
SelectBound(n) == SelectFactor(n) * n + 2000
BulkBound(n, m) == SelectFactor(n) * n * (CeilLog2(m + 1) + 1) + 2000
Cost(o) ==
  LET c == call IN
  c.cons =>
  CASE c.op \in SortOps -> Cmps(o) <= SortBound(c.op, N)
    [] c.op = "sel"     -> Cmps(o) <= SelectBound(N)
    [] c.op \in BulkOps -> Cmps(o) <= BulkBound(N, Len(c.idx))
    [] OTHER            -> TRUE
\* bytes of stack between the shallowest and the deepest callback on the calling thread
StackBound(n) == 16384 + 2048 * (Log2(n) + 1)
Stack(o) == o.cnt.stack >= 0 => o.cnt.stack <= StackBound(N)

\* shapes that must be cheap
Descents(r) == Cardinality({ i \in 1..(Len(r)-1) : r[i+1] < r[i] })
StrictlyDescending(r) == \A i \in 1..(Len(r)-1) : r[i+1] < r[i]
Distinct(r) == Cardinality({ r[i] : i \in 1..Len(r) })
Linear(o) ==
  LET c == call  r == PreRanks IN
  (c.cons /\ o.how = "ret" /\ c.op \in SortOps \ {"pcached"}) =>
    LET d == Descents(r) IN
    /\ (d = 0 \/ StrictlyDescending(r)) => Cmps(o) <= 2 * N + 300
    /\ (d <= 1 /\ c.op = "sort") => Cmps(o) <= 3 * N + 300
    /\ (d <= 1 /\ c.op = "psort") => Cmps(o) <= 5 * N + 10000
    /\ (c.op \in {"unst", "punst"} /\ Distinct(r) <= 8) => Cmps(o) <= (2 * Distinct(r) + 4) * N + 400
Calls(o) ==
  LET c == call  n == o.cnt.cmp  k == o.cnt.key IN
  CASE c.op = "bs" -> IF c.form = "key" THEN k <= CeilLog2(N + 1) + 1 ELSE n <= CeilLog2(N + 1) + 1
    [] c.op = "pp" -> n <= CeilLog2(N + 1) + 1
    [] c.op = "dedup" -> /\ n <= (IF N = 0 THEN 0 ELSE N - 1)
                         /\ k <= (IF N = 0 THEN 0 ELSE 2 * (N - 1))
    [] c.op = "issorted" /\ c.eqk # "rank" -> /\ n <= (IF N = 0 THEN 0 ELSE N - 1)
                                             /\ \A j \in 1..(Len(o.asks) - 1) : o.asks[j].r = 1
    [] c.op = "issorted" /\ c.cons -> LET r == PreRanks
            d == IF \E i \in 1..(N-1) : ~LeqPartial(r[i], r[i+1])
                 THEN CHOOSE i \in 1..(N-1) : ~LeqPartial(r[i], r[i+1])
                                           /\ \A j \in 1..(i-1) : LeqPartial(r[j], r[j+1])
                 ELSE IF N < 2 THEN 0 ELSE N - 1 IN
         /\ n <= d /\ k <= 2 * d
    [] c.op = "contains" /\ c.cons -> LET r == PreRanks
            f == IF Member(r, c.tgt) THEN CHOOSE i \in 1..N : r[i] = c.tgt /\ \A j \in 1..(i-1) : r[j] # c.tgt
                 ELSE N IN
         n <= f
    [] OTHER -> TRUE

(* Storage. h.count, h.peak: allocations and peak bytes during the call (all threads); h.bigpeak counts only       *)
(* allocations of at least 4096 bytes and 8 elements, which leaves out task records of the thread pool; h.max is    *)
(* the largest single allocation.                                                                                 *)
\* run records of the merge sorts, and queues of the thread pool
Larger(a, b) == IF a > b THEN a ELSE b
RunBytes == 4096
PoolBytes == 32768
HeapOk(o) ==
  LET c == call  h == o.heap IN
  (h.on /\ o.how = "ret") =>
  CASE c.op \in InPlaceOps \ {"many"} -> h.count = 0
    [] c.op = "many"  -> c.spare >= Len(c.idx) => h.count = 0
    [] c.op = "sort"  -> IF N <= 10 \/ c.sz = 0 THEN h.count = 0 ELSE /\ h.peak <= (N \div 2) * c.sz + RunBytes
                                                                       /\ h.max <= Larger((N \div 2) * c.sz, RunBytes)
    [] c.op \in {"punst", "pmany"} -> h.bigpeak <= PoolBytes
    [] c.op = "psort" -> h.bigpeak <= N * c.sz + PoolBytes /\ h.max <= Larger(N * c.sz, PoolBytes)
    [] OTHER -> TRUE
\* nothing stays behind: neither memory nor a key the callback returned (cnt.keys: made minus dropped)
Released(o) == /\ o.cnt.keys = 0
               /\ o.heap.on => o.heap.live = 0 /\ o.heap.bad = 0

\* callbacks of the deduplication: later element first, element kept before it second
Args(o) == LET c == call IN
  (c.op = "dedup" /\ c.cbs /\ c.sz > 0 /\ o.how = "ret") =>
     \A j \in 1..Len(o.asks) : j <= N - 1 /\ o.asks[j].a = Pre[j+1]

Outcome(o) == [how |-> o.how, p |-> o.p, res |-> o.logical]
Memo(o) == call.sig # "" /\ call.sig \in DOMAIN memo => memo[call.sig] = Outcome(o)

Holds(cl, o) ==
  CASE cl = "PANIC"    -> Panic(o)
    [] cl = "PERM"     -> Perm(o)
    [] cl = "ORDER"    -> Order(o)
    [] cl = "RESULT"   -> Result(o)
    [] cl = "FRAME"    -> Frame(o)
    [] cl = "SHOWN"    -> Shown(o)
    [] cl = "DROPS"    -> Drops(o)
    [] cl = "PAYLOAD"  -> Payload(o)
    [] cl = "EXCL"     -> Excl(o)
    [] cl = "COST"     -> Cost(o)
    [] cl = "STACK"    -> Stack(o)
    [] cl = "LINEAR"   -> Linear(o)
    [] cl = "CALLS"    -> Calls(o)
    [] cl = "KEYONCE"  -> KeyOnce(o)
    [] cl = "ARGS"     -> Args(o)
    [] cl = "HEAP"     -> HeapOk(o)
    [] cl = "RELEASED" -> Released(o)
    [] cl = "MEMO"     -> Memo(o)
Broken(o) == { cl \in Clauses : ~Holds(cl, o) }

(* ------------------------------ actions ------------------------------- *)
New(m, rk) ==
  /\ Idle
  /\ mem' = m /\ rank' = rk
  /\ view' = [off |-> 0, st |-> 1, n |-> Len(m)]
  /\ live' = {} /\ obs' = NoObs
  /\ UNCHANGED <<call, memo, frames>>
Forget == Idle /\ memo' = <<>> /\ UNCHANGED <<mem, rank, view, call, live, obs, frames>>
View(v) ==
  /\ Idle /\ ViewOk(v, Len(mem)) 
  /\ view' = v
  /\ UNCHANGED <<mem, rank, call, live, obs, memo, frames>>
Call(c) ==
  /\ Idle /\ c.op \in Ops
  /\ call' = c /\ live' = {} /\ obs' = NoObs
  /\ UNCHANGED <<mem, rank, view, memo, frames>>

\* --- callbacks.  c = [t, k, a, b, ...]: thread, kind, identities shown
Viewed(id) == id >= 0 /\ \E i \in 0..(N-1) : mem[At(view, i) + 1] = id
ShownIds(c) == IF c.k \in {"cmp", "eq"} THEN {c.a, c.b} \ {-2} ELSE IF c.k = "kcmp" THEN {} ELSE {c.a}
\* A pure description of one callback step on <<live, obs>>; pos is the set of viewed identities.
CbBegin(s, c, viewed) ==
  LET ids == ShownIds(c)
      clash == \E l \in s.live : l.t # c.t /\ l.ids \cap ids # {}
      again == c.k = "key" /\ \E j \in 1..Len(s.obs.keyed) : s.obs.keyed[j] = c.a
      bad == (IF ids \subseteq viewed THEN {} ELSE {"SHOWN"})
             \cup (IF clash THEN {"EXCL"} ELSE {})
             \cup (IF again THEN {"KEYONCE"} ELSE {})
      o == s.obs IN
  [ live |-> { l \in s.live : l.t # c.t } \cup { [t |-> c.t, ids |-> ids] },
    obs  |-> [ o EXCEPT !.cb = @ + 1,
                        !.cmp = IF c.k \in {"cmp", "eq", "pred"} THEN @ + 1 ELSE @,
                        !.kcmp = IF c.k = "kcmp" THEN @ + 1 ELSE @,
                        !.keyed = IF c.k = "key" /\ call.op \in {"cached", "pcached"} THEN Append(@, c.a) ELSE @,
                        !.bad = @ \cup bad ] ]
CbEnd(s, c) ==
  [ live |-> { l \in s.live : l.t # c.t },
    obs  |-> IF c.k = "eq" THEN [ s.obs EXCEPT !.asks = Append(@, [a |-> c.a, b |-> c.b, r |-> c.r]) ] ELSE s.obs ]
CbRaise(s, c) ==
  [ live |-> { l \in s.live : l.t # c.t }, obs |-> [ s.obs EXCEPT !.raised = @ + 1 ] ]
CbStep(s, c, viewed) ==
  IF c.s = "b" THEN CbBegin(s, c, viewed) ELSE IF c.s = "e" THEN CbEnd(s, c) ELSE CbRaise(s, c)
\* (mem is a permutation of the identities, TypeOK)
ViewedIds == IF N = Len(mem) THEN 0..(N-1) ELSE { mem[At(view, i) + 1] : i \in 0..(N-1) }
Callback(c) ==
  /\ ~Idle
  /\ LET s == CbStep([live |-> live, obs |-> obs], c, ViewedIds) IN
       /\ (Clauses \cap s.obs.bad = {})
       /\ live' = s.live /\ obs' = s.obs
  /\ UNCHANGED <<mem, rank, view, call, memo, frames>>

Remember(o) == memo' = IF call.sig = "" \/ call.sig \in DOMAIN memo THEN memo
                       ELSE (call.sig :> Outcome(o)) @@ memo
\* The operation hands control back: normally ("ret"), by its own panic ("own"), or by letting a panic of a
\* callback through ("inj").  All clauses in force hold.
Back(o) ==
  /\ ~Idle /\ live = {}
  /\ Broken(o) = {}
  /\ mem' = IF IsPerm(o.p, N) /\ N > 1 /\ ~IsIdentity(o.p) THEN Rearranged(mem, view, o.p) ELSE mem
  /\ Remember(o)
  /\ call' = NoCall /\ obs' = NoObs /\ live' = {}
  /\ UNCHANGED <<rank, view, frames>>
Return(o) == o.how = "ret" /\ Back(o)
Unwind(o) == o.how # "ret" /\ Back(o)
\* The memory, read back, is what the model says (only the positions outside the view can disagree).
Peek(m) ==
  /\ Idle
  /\ ("FRAME" \in Clauses \/ "PERM" \in Clauses) => m = mem
  /\ UNCHANGED vars
\* The user swaps two elements through returned views or references.
Swap(i, j) ==
  /\ Idle /\ i \in Positions(view) /\ j \in Positions(view)
  /\ mem' = [mem EXCEPT ![i+1] = mem[j+1], ![j+1] = mem[i+1]]
  /\ UNCHANGED <<rank, view, call, live, obs, memo, frames>>

(* Arrays too long to be stored (elements of no size, or one element shown over and over): lengths and indices    *)
(* are written as four digits to the base 2^20, the lowest first.  w.ans is how every element compares with what  *)
(* is looked for (bs, pp), w.calls how often the callback was asked.                                              *)
WideRefused(w) == \/ w.op = "sel" /\ ~WideLess(w.k, w.n)
                  \/ w.op \in BulkOps /\ \E j \in 1..Len(w.idx) : ~WideLess(w.idx[j], w.n)
WideResult(w) ==
  IF w.op = "bs" THEN /\ w.yes = (w.ans = "eq" /\ w.n # WideZero)
                      /\ IF w.yes THEN WideLess(w.res[1], w.n)
                         ELSE w.res[1] = (IF w.ans = "lt" THEN w.n ELSE WideZero)
  ELSE IF w.op = "pp" THEN w.res[1] = (IF w.ans = "lt" THEN w.n ELSE WideZero)
  ELSE IF w.op = "issorted" THEN w.yes = WideLess(w.n, <<2, 0, 0, 0>>)
  ELSE IF w.op = "contains" THEN w.yes
  ELSE IF w.op = "sel" THEN /\ w.res[1] = w.k
                            /\ WidePlus(WidePlus(w.k, w.res[2]), <<1, 0, 0, 0>>) = w.n
  ELSE IF w.op = "many" THEN w.res = w.idx
  ELSE IF w.op = "pmany" THEN w.res[1] = <<Len(w.idx), 0, 0, 0>>
  ELSE TRUE
WideCalls(w) ==
  IF w.op \in {"bs", "pp"} THEN w.calls <= WideBits(w.n) + 1
  ELSE IF w.op = "issorted" THEN w.calls <= 1
  ELSE TRUE
WideHolds(cl, w) ==
  IF cl = "PANIC" THEN w.how = (IF WideRefused(w) THEN "own" ELSE "ret")
  ELSE IF cl = "RESULT" THEN (IF w.how = "ret" THEN WideResult(w) ELSE TRUE)
  ELSE IF cl = "CALLS" THEN WideCalls(w)
  ELSE TRUE
Wide(w) ==
  /\ Idle
  /\ {cl \in Clauses : ~WideHolds(cl, w)} = {}
  /\ UNCHANGED vars

\* A callback of the pending call uses the library itself, on memory of its own; afterwards the pending call
\* goes on where it was.  (What was learned about signatures stays.)
Suspend ==
  /\ ~Idle
  /\ frames' = Append(frames, [mem |-> mem, rank |-> rank, view |-> view, call |-> call, live |-> live, obs |-> obs])
  /\ mem' = <<>> /\ rank' = <<>> /\ view' = [off |-> 0, st |-> 1, n |-> 0]
  /\ call' = NoCall /\ live' = {} /\ obs' = NoObs
  /\ UNCHANGED memo
Resume ==
  /\ Idle /\ frames # <<>>
  /\ LET f == frames[Len(frames)] IN
       /\ mem' = f.mem /\ rank' = f.rank /\ view' = f.view /\ call' = f.call /\ live' = f.live /\ obs' = f.obs
  /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
  /\ UNCHANGED memo

Init == /\ frames = <<>> /\ mem = <<>> /\ rank = <<>> /\ view = [off |-> 0, st |-> 1, n |-> 0]
        /\ call = NoCall /\ live = {} /\ obs = NoObs /\ memo = <<>>

(* ------------------------------ invariants ---------------------------- *)
\* what every behaviour satisfies, whatever the clauses
TypeOK == /\ IsPerm([ i \in 1..Len(mem) |-> mem[i] + 1 ], Len(mem))   \* no element lost or duplicated, ever
          /\ Len(rank) = Len(mem)
          /\ ViewOk(view, Len(mem))
          /\ (call.op = "none" => live = {})
          /\ \A j \in 1..Len(frames) : frames[j].call.op # "none"
NoSharing == \A l1, l2 \in live : l1 # l2 => l1.ids \cap l2.ids = {}
==============================================================================
