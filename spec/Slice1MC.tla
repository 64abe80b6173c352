------------------------------ MODULE Slice1MC --------------------------------
(***************************************************************************)
(* Small-scope laws of the contract itself: every array of up to MaxN       *)
(* elements with the given ranks, every witness permutation, every list of  *)
(* ranks, every view.  They show that the contract says what it is meant to *)
(* say (order statistics, a unique stable result, nothing outside the view) *)
(* and that it can be met for every input.                                  *)
(***************************************************************************)
EXTENDS Slice1Ops, TLC
CONSTANTS MaxN, Ranks, MaxMem
VARIABLES kind, r, p, w, full
vars == <<kind, r, p, w, full>>

Perms(n) == { f \in [1..n -> 1..n] : { f[i] : i \in 1..n } = 1..n }
Lists(n) == { SetToSortSeq(s, <) : s \in SUBSET (0..(n-1)) }
Views(nb) == { v \in [off : 0..(nb-1), st : (0-3)..3, n : 0..nb] : ViewOk(v, nb) /\ (v.n < 2 => v.st = 1) }
\* the input first, the witness in a step of its own
Init ==
  \/ kind = "order" /\ (\E n \in 0..MaxN : r \in [1..n -> Ranks]) /\ p = <<>> /\ w = 0 /\ full = FALSE
  \/ kind = "view"  /\ (\E n \in {MaxMem} : w \in Views(n)) /\ w.n <= MaxN /\ r = <<>> /\ p = <<>> /\ full = FALSE
  \/ kind = "keep"  /\ (\E n \in 0..4 : r = Identity(n)) /\ p = <<>> /\ w = <<>> /\ full = FALSE
  \/ kind = "find"  /\ (\E n \in 0..MaxN : r \in [1..n -> Ranks \cup {NAN}]) /\ p = <<>> /\ w = 0 /\ full = FALSE
Next ==
  \/ kind = "order" /\ ~full /\ full' = TRUE /\ p' \in Perms(Len(r)) /\ UNCHANGED <<kind, r, w>>
  \/ kind = "view"  /\ ~full /\ full' = TRUE /\ p' \in Perms(w.n) /\ UNCHANGED <<kind, r, w>>
  \/ kind = "keep"  /\ ~full /\ full' = TRUE /\ w' \in [ { x \in (1..Len(r)) \X (1..Len(r)) : x[2] < x[1] } -> BOOLEAN ]
                    /\ UNCHANGED <<kind, r, p>>
  \/ kind = "find"  /\ ~full /\ full' = TRUE /\ w' \in Ranks /\ UNCHANGED <<kind, r, p>>
  \/ full /\ UNCHANGED vars

Q == After(r, p)
SortedRanks == SortSeq(r, <)
Stable == { f \in Perms(Len(r)) : SortedStable(r, f) }
OrderLaws == (kind = "order" /\ full) =>
  /\ \A idx \in Lists(Len(r)) : PartitionedAtAll(Q, idx) = PartitionedAtEach(Q, idx)
  /\ Sorted(Q) = (\A k \in 0..(Len(r)-1) : PartitionedAt(Q, k))
  /\ SortedStable(r, p) => Sorted(Q)
  /\ Sorted(Q) = (Q = SortedRanks)
  \* a selection shows the order statistic, and only the smaller and larger ones on its sides
  /\ \A k \in 0..(Len(r)-1) : PartitionedAt(Q, k) => Q[k+1] = SortedRanks[k+1]
  /\ \A idx \in Lists(Len(r)) : PartitionedAtAll(Q, idx) =>
       \A j \in 1..Len(idx) : Q[idx[j]+1] = SortedRanks[idx[j]+1]
  \* sorting what is already sorted, stably, moves nothing
  /\ (Sorted(r) /\ SortedStable(r, p)) => IsIdentity(p)
\* exactly one stable result for every input: the result is a function of the input
MetLaws == (kind = "order" /\ ~full) => Cardinality(Stable) = 1
\* views
Nb == MaxMem
Mem == [ i \in 1..Nb |-> i - 1 ]
ViewLaws == (kind = "view" /\ full) =>
  LET m == Rearranged(Mem, w, p) IN
  /\ Cardinality(Positions(w)) = w.n
  /\ \A q \in 0..(Nb-1) : q \notin Positions(w) => m[q+1] = Mem[q+1]
  /\ Content(m, w) = [ i \in 1..w.n |-> Content(Mem, w)[p[i]] ]
  /\ { m[i] : i \in 1..Nb } = { Mem[i] : i \in 1..Nb }
  /\ \A i \in 0..(w.n-1) : IndexOf(w, At(w, i)) = i
  /\ \A a \in 0..w.n : \A b \in a..w.n :
       /\ Content(m, Sub(w, a, b)) = SubSeq(Content(m, w), a+1, b)
       /\ Positions(Sub(w, 0, a)) \cap Positions(Sub(w, a, w.n)) = {}
       /\ Positions(Sub(w, 0, a)) \cup Positions(Sub(w, a, w.n)) = Positions(w)
\* deduplication: the recursive and the declarative reading of any relation agree, and only one answer is right
KeepLaws == (kind = "keep" /\ full) =>
  LET n == Len(r)
      k == KeptOf(LAMBDA i, j : w[<<i, j>>], n) IN
  \A s \in SUBSET (1..n) : LET q == SetToSortSeq(s, <) IN
     IsKept(LAMBDA i, j : w[<<i, j>>], n, q) = (q = k)
\* searches
FindLaws == (kind = "find" /\ full) =>
  LET n == Len(r) IN
  /\ (NAN \notin { r[i] : i \in 1..n } /\ PartitionedBy(r, w)) =>
       /\ IsPrefixBelow(r, w)
       /\ \A found \in BOOLEAN : \A ix \in 0..n : SearchOk(r, w, found, ix) =>
            /\ found = Member(r, w)
            /\ ~found => \A i \in 1..n : (i <= ix) = (r[i] < w)
       /\ \E found \in BOOLEAN : \E ix \in 0..n : SearchOk(r, w, found, ix)
  /\ IsPrefixBelow(r, w) => \A i \in 1..n : (i <= NumBelow(r, w)) = (r[i] < w)
  /\ OrderTest(r) => Sorted(r) /\ (n > 1 => \A i \in 1..n : r[i] # NAN)
  /\ (Sorted(r) /\ \A i \in 1..n : r[i] # NAN) => OrderTest(r)
==============================================================================
