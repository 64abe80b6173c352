------------------------------ MODULE Slice1Hist ------------------------------
(***************************************************************************)
(* Histories over the contract: calls on an array and on the views they     *)
(* return, writes through returned views, caught panics, calls made from    *)
(* within callbacks.  Every call may end in any way the contract of Slice1  *)
(* permits; the laws of composition follow from the contracts alone.        *)
(***************************************************************************)
EXTENDS Slice1
CONSTANTS MaxN, Ranks, MaxCalls, MaxNest, Fixed
VARIABLES parts,  \* views returned by the last call that returned some: <<whole, left, right>>
          hist,   \* calls so far: <<operation, where>>
          known,  \* what must hold of the whole array: [sorted, at] (at: ranks k settled at their position)
          pins    \* where the selections of a chain of remainders have put their elements
hvars == <<mem, rank, view, call, live, obs, memo, frames, parts, hist, known, pins>>

Perms(n) == { f \in [1..n -> 1..n] : { f[i] : i \in 1..n } = 1..n }
Zero == [cmp |-> 0, kcmp |-> 0, key |-> 0, kmax |-> 0, raised |-> 0, foreign |-> 0, stale |-> 0, lost |-> 0,
         excl |-> 0, opdrops |-> 0, dropbad |-> 0, keys |-> 0, stack |-> 0]
NoHeap == [on |-> FALSE]
C0 == [op |-> "rev", form |-> "nat", k |-> 0, idx |-> <<>>, tgt |-> 0, cons |-> TRUE, eqk |-> "rank", sz |-> 8,
       spare |-> 0, sig |-> "", cbs |-> FALSE]
O0 == [how |-> "ret", p |-> <<>>, res |-> 0, logical |-> <<>>, other |-> <<>>, cnt |-> Zero, heap |-> NoHeap,
       asks |-> <<>>]
Whole == [off |-> 0, st |-> 1, n |-> Len(mem)]
NoParts == <<>>
Nothing == [sorted |-> FALSE]

HInit ==
  \E n \in 0..MaxN : \E r \in [1..n -> Ranks] :
    /\ mem = [ i \in 1..n |-> i - 1 ] /\ rank = r
    /\ view = [off |-> 0, st |-> 1, n |-> n]
    /\ call = NoCall /\ live = {} /\ obs = NoObs /\ memo = <<>> /\ frames = <<>>
    /\ parts = NoParts /\ hist = <<>> /\ known = Nothing /\ pins = {}

Calls1 == { [C0 EXCEPT !.op = o] : o \in {"sort", "unst", "rev", "dedup", "issorted"} }
          \cup { [C0 EXCEPT !.op = "sel", !.k = k] : k \in 0..N }
          \cup { [C0 EXCEPT !.op = "many", !.idx = SetToSortSeq(s, <)] : s \in SUBSET (0..(N-1)) }
          \cup { [C0 EXCEPT !.op = "bs", !.tgt = t] : t \in Ranks }
\* where a call is made: the array, or the left or right view returned before
Where == {"all"} \cup (IF parts = NoParts \/ frames # <<>> THEN {} ELSE {"left", "right"})
ViewAt(w) == IF w = "all" THEN Whole ELSE IF w = "left" THEN parts[1] ELSE parts[2]
Budget == Len(hist) < MaxCalls
Begin(w) ==
  /\ Idle /\ Budget /\ (frames = <<>> \/ Len(mem) > 0)
  /\ LET v == ViewAt(w) IN
       /\ view' = v
       /\ \E c \in Calls1 : call' = c
  /\ hist' = Append(hist, <<call'.op, w>>)
  /\ live' = {} /\ obs' = NoObs
  /\ UNCHANGED <<mem, rank, memo, frames, parts, known, pins>>
BeginAny == \E w \in Where : Begin(w)

\* results the contract may accept
Results(p) ==
  CASE call.op = "sel" -> { [l |-> Sub(view, 0, call.k), m |-> At(view, call.k), r |-> Sub(view, call.k + 1, N)] }
    [] call.op = "many" -> { [prior |-> TRUE, got |-> [ j \in 1..Len(call.idx) |-> <<call.idx[j], At(view, call.idx[j])>>]] }
    [] call.op = "dedup" -> { [a |-> Sub(view, 0, k), b |-> Sub(view, k, N)] : k \in 0..N }
    [] call.op = "issorted" -> BOOLEAN
    [] call.op = "bs" -> [found : BOOLEAN, ix : 0..N]
    [] OTHER -> { 0 }
Outcomes ==
  LET ps == IF Fixed THEN { Identity(N) } ELSE Perms(N) IN
  IF InvalidArgs(call) THEN { [O0 EXCEPT !.how = "own", !.p = p,
                                         !.res = IF call.op = "many" THEN [prior |-> TRUE, got |-> <<>>] ELSE 0] : p \in ps }
  ELSE UNION { { [O0 EXCEPT !.p = p, !.res = z] : z \in Results(p) } : p \in ps }
       \cup { [O0 EXCEPT !.p = p, !.how = "inj", !.cnt.raised = 1,
                         !.res = IF call.op = "many" THEN [prior |-> TRUE, got |-> <<>>] ELSE 0] : p \in ps }
SameView == view = Whole
Settled(o) ==
  IF o.how # "ret" THEN Nothing
  ELSE [sorted |-> SameView /\ (call.op \in {"sort", "unst"} \/ (call.op \in {"bs", "issorted"} /\ known.sorted))]
\* a chain of selections, each within the remainder (left or right) of the one before, pins its elements
Pins(o) ==
  IF o.how # "ret" \/ call.op # "sel" THEN IF call.op \in ReadOps THEN pins ELSE {}
  ELSE IF ~SameView /\ pins = {} THEN {}
  ELSE (IF SameView THEN {} ELSE pins) \cup { [at |-> At(view, call.k), r |-> After(PreRanks, o.p)[call.k + 1]] }
End ==
  /\ ~Idle /\ (frames = <<>> \/ Len(mem) > 0)
  /\ \E o \in Outcomes :
       /\ Back(o)
       /\ parts' = IF frames # <<>> THEN parts
                   ELSE IF o.how = "ret" /\ call.op = "sel" THEN <<o.res.l, o.res.r>>
                   ELSE IF o.how = "ret" /\ call.op = "dedup" THEN <<o.res.a, o.res.b>>
                   ELSE parts
       /\ known' = IF frames # <<>> THEN known ELSE Settled(o)
       /\ pins' = IF frames # <<>> THEN pins ELSE Pins(o)
  /\ UNCHANGED hist
Nest ==
  /\ ~Idle /\ Len(frames) < MaxNest /\ Budget /\ call.op # "rev"
  /\ Suspend
  /\ UNCHANGED <<parts, hist, known, pins>>
\* the callback makes an array of its own
NestNew ==
  /\ frames # <<>> /\ Idle /\ mem = <<>>
  /\ \E n \in 1..2 : \E r \in [1..n -> Ranks] : New([ i \in 1..n |-> i - 1 ], r)
  /\ UNCHANGED <<parts, hist, known, pins>>
NestEnd ==
  /\ Resume
  /\ UNCHANGED <<parts, hist, known, pins>>
HNext == BeginAny \/ End \/ Nest \/ NestNew \/ NestEnd \/ (Idle /\ frames = <<>> /\ ~Budget /\ UNCHANGED hvars)

(* -------------------------------- laws --------------------------------- *)
Outer == frames = <<>>
HTypeOK == TypeOK /\ NoSharing
\* sorted stays known until the array is touched, and is true
SortedLaw == (Outer /\ Idle /\ known.sorted) => Sorted(RanksOf(rank, mem))
\* selections chained through remainders settle their elements for good: they are the order statistics
PinLaw == (Outer /\ Idle) => \A x \in pins : /\ rank[mem[x.at + 1] + 1] = x.r
                                             /\ x.r = SortSeq(RanksOf(rank, mem), <)[x.at + 1]
PinAllLaw == (Outer /\ Idle /\ Cardinality({ x.at : x \in pins }) = Len(mem)) => Sorted(RanksOf(rank, mem))
\* the views a call returned share nothing
PartsLaw == parts # NoParts => /\ Positions(parts[1]) \cap Positions(parts[2]) = {}
                               /\ Positions(parts[1]) \cup Positions(parts[2]) \subseteq 0..(Len(mem)-1) \/ ~Outer
\* nothing outside the view moves; a suspended call finds its state as it left it
FrameStep == (call.op # "none" /\ call'.op = "none" /\ frames' = frames) =>
  \A q \in 0..(Len(mem)-1) : q \notin Positions(view) => mem'[q+1] = mem[q+1]
FrameLaw == [][FrameStep]_hvars
ResumeStep == (Len(frames') < Len(frames)) => LET f == frames[Len(frames)] IN
  mem' = f.mem /\ call' = f.call /\ view' = f.view /\ live' = f.live
ResumeLaw == [][ResumeStep]_hvars
Code(o) == CASE o = "sort" -> 0 [] o = "unst" -> 1 [] o = "sel" -> 2 [] o = "many" -> 3 [] o = "dedup" -> 4
             [] o = "rev" -> 5 [] o = "bs" -> 6 [] OTHER -> 7
Emit == (Idle /\ Outer /\ Len(hist) = MaxCalls) =>
  PrintT(<<"SCEN", "hist", [ j \in 1..Len(hist) |->
     Code(hist[j][1]) + 10 * (IF hist[j][2] = "all" THEN 0 ELSE IF hist[j][2] = "left" THEN 1 ELSE 2)]>>)
==============================================================================
