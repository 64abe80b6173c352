------------------------------ MODULE Slice1Ops ------------------------------
(***************************************************************************)
(* The meaning of the operations of ndarray-slice on one call.             *)
(*                                                                         *)
(* Memory is a sequence of element identities (1-based), identities are    *)
(* 0..Len(mem)-1, a view [off, st, n] shows memory position off + st*i as  *)
(* its i-th element (positions and i are 0-based, st may be negative).     *)
(* An order is a sequence rank[id+1] of naturals; NAN is incomparable.     *)
(*                                                                         *)
(* What a call did to the view is a witness p: the i-th element afterwards *)
(* is the p[i]-th element before (1-based).                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NAN == 2147483647

(* ------------------------------- views -------------------------------- *)
At(v, i) == v.off + v.st * i
Positions(v) == { At(v, i) : i \in 0..(v.n - 1) }
ViewOk(v, nb) == v.n >= 0 /\ (v.n > 0 => At(v, 0) \in 0..(nb-1) /\ At(v, v.n - 1) \in 0..(nb-1))
                 /\ (v.n > 1 => v.st # 0)
Content(mem, v) == [ i \in 1..v.n |-> mem[At(v, i-1) + 1] ]
\* The sub-view of elements a..b-1.  Empty and single views have no distinguishable stride.
Norm(d) == IF d.n = 0 THEN [off |-> 0, st |-> 1, n |-> 0]
           ELSE IF d.n = 1 THEN [off |-> d.off, st |-> 1, n |-> 1] ELSE d
Sub(v, a, b) == Norm([off |-> At(v, a), st |-> v.st, n |-> b - a])
\* logical index of a memory position in a view, -1 if it is not viewed
IndexOf(v, pos) ==
  IF v.n = 0 THEN -1
  ELSE IF v.st > 0
  THEN IF pos >= v.off /\ (pos - v.off) % v.st = 0 /\ (pos - v.off) \div v.st < v.n THEN (pos - v.off) \div v.st ELSE -1
  ELSE IF v.st < 0
  THEN IF pos <= v.off /\ (v.off - pos) % (0 - v.st) = 0 /\ (v.off - pos) \div (0 - v.st) < v.n
       THEN (v.off - pos) \div (0 - v.st) ELSE -1
  ELSE IF pos = v.off THEN 0 ELSE -1
\* memory after the viewed elements have been rearranged by p
Rearranged(mem, v, p) ==
  [ q \in 1..Len(mem) |-> LET i == IndexOf(v, q-1) IN IF i < 0 THEN mem[q] ELSE mem[At(v, p[i+1] - 1) + 1] ]

(* --------------------------- wide naturals ---------------------------- *)
\* four digits to the base 2^20, the lowest first
WideZero == <<0, 0, 0, 0>>
WideLess(a, b) == \E d \in 1..4 : a[d] < b[d] /\ \A e \in (d+1)..4 : a[e] = b[e]
WidePlus(a, b) ==
  LET s == [ d \in 1..4 |-> a[d] + b[d] ]
      carry[d \in 0..4] == IF d = 0 THEN 0 ELSE (s[d] + carry[d-1]) \div 1048576 IN
  [ d \in 1..4 |-> (s[d] + carry[d-1]) % 1048576 ]
RECURSIVE BitsOf(_)
BitsOf(x) == IF x = 0 THEN 0 ELSE 1 + BitsOf(x \div 2)
WideBits(a) == IF a = WideZero THEN 0
               ELSE LET d == CHOOSE d \in 1..4 : a[d] # 0 /\ \A e \in (d+1)..4 : a[e] = 0 IN 20 * (d - 1) + BitsOf(a[d])

(* ---------------------------- permutations ---------------------------- *)
IsPerm(p, n) == Len(p) = n /\ { p[i] : i \in 1..n } = 1..n
Identity(n) == [ i \in 1..n |-> i ]
IsIdentity(p) == \A i \in 1..Len(p) : p[i] = i

(* -------------------------------- order ------------------------------- *)
\* ranks of the viewed elements before and after
RanksOf(rank, ids) == [ i \in 1..Len(ids) |-> rank[ids[i] + 1] ]
After(r, p) == [ i \in 1..Len(p) |-> r[p[i]] ]

Sorted(r) == \A i \in 1..(Len(r)-1) : r[i] <= r[i+1]
SortedStable(r, p) == LET q == After(r, p) IN
  \A i \in 1..(Len(q)-1) : q[i] < q[i+1] \/ (q[i] = q[i+1] /\ p[i] < p[i+1])
\* everything in 1..k is <= the (k+1)-st, everything after is >=   (k 0-based)
PartitionedAt(q, k) == /\ \A i \in 1..k : q[i] <= q[k+1]
                       /\ \A i \in (k+2)..Len(q) : q[k+1] <= q[i]
\* the same for all listed ranks, segment by segment (Slice1MC checks the equivalence)
PartitionedAtAll(q, idx) ==
  LET m == Len(idx)
      Lo(j) == IF j = 1 THEN 0 ELSE idx[j-1] + 1
      Hi(j) == IF j = m + 1 THEN Len(q) + 1 ELSE idx[j] + 1
  IN m > 0 => \A j \in 1..(m+1) :
        /\ j > 1 /\ j <= m => q[Lo(j)] <= q[Hi(j)]
        /\ \A i \in (Lo(j)+1)..(Hi(j)-1) : (j > 1 => q[Lo(j)] <= q[i]) /\ (j <= m => q[i] <= q[Hi(j)])
PartitionedAtEach(q, idx) == \A j \in 1..Len(idx) : PartitionedAt(q, idx[j])

StrictlyIncreasing(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]

(* ------------------------------ searches ------------------------------ *)
\* -1, 0, 1: element against target
Against(r, t) == IF r < t THEN -1 ELSE IF r = t THEN 0 ELSE 1
PartitionedBy(r, t) == \A i \in 1..(Len(r)-1) : Against(r[i], t) <= Against(r[i+1], t)
NumBelow(r, t) == Cardinality({ i \in 1..Len(r) : r[i] < t })
IsPrefixBelow(r, t) == \A i \in 1..(Len(r)-1) : r[i+1] < t => r[i] < t
SearchOk(r, t, found, ix) ==
  IF \E i \in 1..Len(r) : r[i] = t
  THEN found /\ ix \in 0..(Len(r)-1) /\ r[ix+1] = t
  ELSE ~found /\ ix = NumBelow(r, t)
LeqPartial(a, b) == a # NAN /\ b # NAN /\ a <= b
OrderTest(r) == \A i \in 1..(Len(r)-1) : LeqPartial(r[i], r[i+1])
Member(r, t) == t # NAN /\ \E i \in 1..Len(r) : r[i] = t

(* ---------------------------- deduplication --------------------------- *)
\* w is the witness that ids were kept/rejected: kept is the increasing sequence of input indices (1-based) kept.
\* Same(y, x): does the later element y repeat the kept element x (input indices)?
KeptOf(Same(_, _), n) ==
  IF n = 0 THEN <<>>
  ELSE FoldLeft(LAMBDA kept, i : IF Same(i, kept[Len(kept)]) THEN kept ELSE Append(kept, i),
                <<1>>, [ i \in 1..(n-1) |-> i + 1 ])
\* Declarative form: kept is increasing, starts with 1, and each element is kept iff it does not repeat the
\* last kept element before it.
IsKept(Same(_, _), n, kept) ==
  /\ StrictlyIncreasing(kept)
  /\ (n = 0) = (kept = <<>>)
  /\ n > 0 => kept[1] = 1 /\ kept[Len(kept)] <= n
  /\ \A j \in 1..Len(kept) :
       LET hi == IF j = Len(kept) THEN n ELSE kept[j+1] - 1 IN
       /\ \A i \in (kept[j]+1)..hi : Same(i, kept[j])
       /\ j < Len(kept) => ~Same(kept[j+1], kept[j])

(* ------------------------------- cost --------------------------------- *)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)     \* floor
CeilLog2(n) == IF n <= 1 THEN 0 ELSE Log2(n - 1) + 1
==============================================================================
