import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

TESTS="The unit tests are quickcheck runs over arrays of fewer than 100 random elements plus a few fixed examples"
p("C01","Stable sorts return the unique stable ordering of the input",
 "After a sequential stable sort (natural order, comparator or key function), the array holds the elements in non-decreasing order and elements that compare equal keep their relative input order. This holds for every array length, every input order and multiplicity of equal elements, and every element size.",
 ["inputs"],"all lengths (0, the insertion-sort range, the natural-run range, thousands), all value distributions, run structures and tie patterns, all element types",
 TESTS+", which see only a few shapes of the natural-run stack, never a run stack deeper than a handful and hardly any long runs next to short ones; a wrong tie-break or a mis-merged run needs a particular run-length sequence.",
 ["src/stable_sort.rs","src/merge_sort.rs","src/insertion_sort.rs","src/lib.rs"],
 [("natural-run detection and reversal of strictly descending runs","src/merge_sort.rs:find_streak"),("run-stack invariants","src/merge_sort.rs:collapse"),("merge that prefers the left run on ties","src/merge_sort.rs:merge"),("insertion sort of short arrays and short runs","src/insertion_sort.rs")],
 ["sort","sort_by","sort_by_key"],[("runs","stack of sorted adjacent runs covering the scanned prefix","src/merge_sort.rs:merge_sort")])
p("C02","Unstable sorts return a sorted permutation of the input",
 "After a sequential unstable sort (natural order, comparator or key function), the array holds exactly the input elements in non-decreasing order. This holds for every length, every value distribution and every comparator that is a strict weak ordering, including those that force the worst-case fallback paths.",
 ["inputs"],"all lengths and value distributions, all strict weak orderings including adversarially chosen ones that drive the algorithm into its fallbacks",
 TESTS+"; block partitioning (more than 256 elements), pattern breaking and the heap-sort fallback need large or adversarial inputs the tests never build.",
 ["src/quick_sort.rs","src/partition.rs","src/heap_sort.rs","src/insertion_sort.rs","src/lib.rs"],
 [("pattern-defeating quicksort control","src/quick_sort.rs:recurse"),("branchless block partition","src/partition.rs:partition_in_blocks"),("equal-to-predecessor partition","src/partition.rs:partition_equal"),("heap-sort fallback","src/heap_sort.rs"),("pivot choice and pattern breaking","src/partition.rs:choose_pivot,break_patterns")],
 ["sort_unstable","sort_unstable_by","sort_unstable_by_key"])
p("C03","Parallel stable sort equals the stable ordering under every schedule",
 "After a parallel stable sort (natural order, comparator or key function), the array holds the unique stable non-decreasing ordering of its input elements. The outcome is the same whatever the number of worker threads and however their work is interleaved.",
 ["inputs","schedules","configurations"],"all lengths and run/tie structures including those aligned with internal chunk boundaries, all thread-pool sizes and task interleavings",
 "The tests sort small arrays and one random large array on the default pool and compare values only; ties, descending chunks that touch, and interleavings of the fork-join merges are not explored.",
 ["src/par/merge_sort.rs","src/lib.rs"],
 [("chunked sort and concatenation of intact ascending/descending chunks","src/par/merge_sort.rs:par_merge_sort"),("split of a merge at matching positions","src/par/merge_sort.rs:split_for_merge"),("alternating buffer recursion","src/par/merge_sort.rs:recurse"),("parallel merge","src/par/merge_sort.rs:par_merge")],
 ["par_sort","par_sort_by","par_sort_by_key"],[("chunks","adjacent sorted intervals and whether they were left intact","src/par/merge_sort.rs:par_merge_sort")])
p("C04","Parallel unstable sort returns a sorted permutation under every schedule",
 "After a parallel unstable sort (natural order, comparator or key function), the array holds exactly the input elements in non-decreasing order, whatever the number of worker threads and however their work is interleaved. This includes inputs that force the worst-case fallback paths.",
 ["inputs","schedules","configurations"],"all lengths, value distributions and adversarial orderings, all pool sizes and interleavings",
 "The tests use arrays below the size at which work is split across threads, apart from one random large array on one pool.",
 ["src/par/quick_sort.rs","src/par/partition.rs","src/par/heap_sort.rs","src/par/insertion_sort.rs","src/lib.rs"],
 [("parallel quicksort recursion","src/par/quick_sort.rs:recurse"),("block partition","src/par/partition.rs:partition_in_blocks"),("heap-sort fallback","src/par/heap_sort.rs")],
 ["par_sort_unstable","par_sort_unstable_by","par_sort_unstable_by_key"])
p("C05","Selecting one order statistic places, partitions and returns it correctly",
 "Selecting the element of rank i in an array returns views of exactly the elements before position i, the element at position i, and the elements after it; everything before compares less than or equal to it, everything after greater than or equal, and it is the element a full sort would put there. The array stays a permutation of its input, and the call panics exactly when i is not less than the length (zero-sized elements included).",
 ["inputs"],"all lengths, all ranks, all value distributions and orderings including those that force the guaranteed-linear fallback",
 TESTS+"; the fallback (median of medians) needs sixteen imbalanced rounds, which random inputs never produce.",
 ["src/partition.rs","src/insertion_sort.rs","src/lib.rs"],
 [("selection loop with predecessor shortcut","src/partition.rs:partition_at_index_loop"),("linear-time fallback","src/partition.rs:median_of_medians,median_of_ninthers,ninther,median_idx"),("first/last rank by linear scan and range panic","src/partition.rs:partition_at_index")],
 ["select_nth_unstable","select_nth_unstable_by","select_nth_unstable_by_key"])
p("C06","Selecting many ranks at once places and returns every requested element",
 "Selecting a strictly increasing list of ranks puts, at every listed position, the element a full sort would put there, with smaller-or-equal elements before and greater-or-equal ones after, and appends to the given collection one (rank, reference) pair per listed rank, in increasing rank order, each reference denoting the element now at that position. The call panics when a rank is out of range or the list is not strictly increasing, does nothing for an empty list, and never disturbs what the collection already held.",
 ["inputs","histories"],"all lengths, all rank lists (empty, one, adjacent, first/last, all, invalid), all value distributions, all prior contents of the collection",
 TESTS+" and short random rank lists; the offset arithmetic of nested sublists and the interplay with fallback selection are sampled thinly and invalid lists hardly at all.",
 ["src/partition.rs","src/lib.rs"],
 [("bisection over the rank list with a moving offset","src/partition.rs:partition_at_indices"),("recursion stack growth","src/lib.rs:maybe_grow")],
 ["select_many_nth_unstable","select_many_nth_unstable_by","select_many_nth_unstable_by_key"])
p("C07","Parallel bulk selection places and returns every requested element",
 "Parallel selection of a strictly increasing list of ranks puts, at every listed position, the element a full sort would put there with the array partitioned around it, and appends to the given vector one reference per listed rank in increasing rank order after whatever the vector already held. It panics when a rank is out of range or the list is not strictly increasing, and the outcome does not depend on pool size or interleaving.",
 ["inputs","schedules","histories","configurations"],"all lengths, rank lists, value distributions, prior vector contents and capacities, pool sizes and interleavings",
 "The tests use short random lists, an empty vector and the default pool; references written into uninitialised capacity by several threads are checked on few shapes.",
 ["src/par/partition.rs","src/lib.rs"],
 [("fork-join bisection over ranks writing into spare capacity","src/par/partition.rs:par_partition_at_indices"),("length publication","src/lib.rs:par_select_many_nth_unstable*")],
 ["par_select_many_nth_unstable","par_select_many_nth_unstable_by","par_select_many_nth_unstable_by_key"])
p("C08","A panicking callback never loses, duplicates or drops an element",
 "If a user callback (comparator, key function, equality, predicate) panics at any invocation, the panic reaches the caller, every element of the array is still held exactly once, and none has been dropped, so the array can be dropped, inspected or sorted again. Operations that return normally likewise neither drop, duplicate nor lose an element.",
 ["crash_points","inputs","schedules"],"every operation taking callbacks, a panic at every callback index (alone or repeatedly, on one or several threads), all inputs and lengths",
 "The tests never make a callback panic on these paths except in a handful of fixed cases; each merge, insertion, partition, heap and parallel-merge step has its own window in which elements live in a temporary.",
 ["src/insertion_sort.rs","src/merge_sort.rs","src/partition.rs","src/heap_sort.rs","src/partition_dedup.rs","src/par/merge_sort.rs","src/par/partition.rs","src/par/insertion_sort.rs","src/lib.rs"],
 [("drop guards that refill holes","src/insertion_sort.rs:InsertionHole; src/merge_sort.rs:MergeHole; src/par/merge_sort.rs:State,CopyOnDrop"),("pivot guard","src/partition.rs:partition"),("cyclic permutation guard","src/partition.rs:partition_in_blocks"),("swap-only compaction","src/partition_dedup.rs")],
 ["every operation that takes a callback","Drop of elements"])
p("C09","An inconsistent ordering cannot corrupt memory or hang an operation",
 "When the comparator or key function does not describe a consistent order (random, cyclic, never or always less, changing over time), every operation still terminates, either returning or panicking, and the array afterwards is a permutation of its input; nothing outside it is read as an element or written. Searches return an answer within the array's index range.",
 ["inputs","histories","schedules"],"every operation, every sequence of answers the comparator can give",
 "The tests sort with one random comparator on small arrays; scans without bounds checks and cursors that rely on a sentinel need particular lies at particular moments.",
 ["src/partition.rs","src/quick_sort.rs","src/merge_sort.rs","src/heap_sort.rs","src/par"],
 [("bounded cursors in partitioning","src/partition.rs:partition,partition_equal,partition_in_blocks"),("bounded merges","src/merge_sort.rs:merge"),("bounded iteration limits","src/quick_sort.rs:recurse")],
 ["all ordering operations with an arbitrary comparator"])
p("C10","Operations act on exactly the viewed elements, for every memory layout",
 "Applied to a non-contiguous, strided, reversed or sub-view (a row or column of a matrix, a slice with negative step, a lane), an operation gives the same logical result as on a contiguous array and leaves every element of the backing memory outside the view bit-for-bit untouched. Arrays that share storage copy-on-write never see each other's reordering.",
 ["inputs","configurations"],"all offsets, strides (positive, negative, zero where read-only), owners (owned, borrowed, shared, copy-on-write) and operations",
 "The tests run on contiguous owned arrays, except for the documentation example; pointer arithmetic that is right for stride 1 can be wrong elsewhere.",
 ["src/lib.rs","src/merge_sort.rs","src/partition.rs","src/insertion_sort.rs","src/par/merge_sort.rs"],
 [("indexing through views rather than raw pointers","src/*.rs: ArrayViewMut1 index/uget"),("lifetime-extending view for returned references","src/partition.rs:partition_at_index")],
 ["every operation on views with non-unit stride"])
p("C11","Binary searches return a correct position or insertion point",
 "On an array partitioned with respect to the target, a binary search (value, comparator, key) returns an index of a matching element if there is one, and otherwise the index at which inserting keeps the order; the partition point is the number of leading elements satisfying the predicate. Every returned index is within bounds and the search inspects only elements of the array.",
 ["inputs","configurations"],"all sorted arrays, targets, duplicate patterns, lengths and strides",
 "The tests check a few fixed arrays taken from the documentation.",
 ["src/lib.rs"],[("bisection invariant","src/lib.rs:binary_search_by")],
 ["binary_search","binary_search_by","binary_search_by_key","partition_point"])
p("C12","Deduplication splits off exactly the consecutive repeats",
 "Partitioning consecutive repeats returns two adjacent views covering the whole array: the first holds, in input order, every element not equal (per the given equality, comparator or key) to the element kept before it, and the second holds all the others in any order. The callback receives the later element first and the kept element second, and mutations it makes to either are retained.",
 ["inputs"],"all lengths and equality patterns, including equalities that are not symmetric or transitive, all strides",
 "The only test checks that adjacent kept elements differ and repeats occur in the kept part, on small random arrays; it does not check order, completeness or callback arguments.",
 ["src/partition_dedup.rs","src/lib.rs"],[("two-cursor compaction by swaps","src/partition_dedup.rs:partition_dedup")],
 ["partition_dedup","partition_dedup_by","partition_dedup_by_key"])
p("C13","Order tests, membership and reversal answer exactly",
 "The order test returns true exactly when every adjacent pair satisfies the (possibly partial) order, false for incomparable neighbours, and true for arrays of fewer than two elements; membership returns true exactly when some element equals the value. Reversal puts element i at position n-1-i for every length.",
 ["inputs","configurations"],"all lengths, all values including incomparable ones, all strides (including zero)",
 "The tests use a few fixed arrays; incomparable values, odd and even lengths under strides and violations in the last pair are not covered.",
 ["src/lib.rs","src/partition.rs"],[("pairwise scan","src/partition.rs:is_sorted"),("swap loop","src/partition.rs:reverse")],
 ["is_sorted","is_sorted_by","is_sorted_by_key","contains","reverse"])
p("C14","Cached-key sorts are stable by key and compute each key at most once",
 "Sorting by a cached key, sequentially or in parallel, yields the stable non-decreasing ordering by key while calling the key function at most once per element, for every length and key size. This includes lengths on both sides of every internal index-width boundary.",
 ["inputs","schedules","configurations"],"all lengths (around 255 and 65535 in particular), key types of every size, tie patterns, pool sizes",
 "The tests use arrays of fewer than 100 elements, so only the narrowest index width is ever reached and key calls are not counted.",
 ["src/lib.rs"],[("index-width choice and in-place cycle following","src/lib.rs:sort_by_cached_key"),("order-insensitive parallel key collection","src/lib.rs:par_sort_by_cached_key")],
 ["sort_by_cached_key","par_sort_by_cached_key"])
p("C15","Worst-case comparison counts: n log n sorting, linear selection",
 "Every sort uses at most a constant times n log n comparisons and every single selection at most a constant times n, on every input including adaptively adversarial ones; selecting m ranks at once uses at most a constant times n log m. Recursion depth stays logarithmic, so no input overflows the stack.",
 ["inputs"],"all lengths and all (adaptive) consistent orders",
 "The tests never count comparisons and never run an adversary, so losing the fallback or the balance bookkeeping keeps all of them green.",
 ["src/quick_sort.rs","src/partition.rs","src/heap_sort.rs","src/merge_sort.rs","src/par"],
 [("limit on imbalanced partitions then heap sort","src/quick_sort.rs:recurse"),("limit on imbalanced rounds then median of medians","src/partition.rs:partition_at_index_loop"),("run-stack invariants","src/merge_sort.rs:collapse"),("recursion into the shorter side only","src/quick_sort.rs:recurse")],
 ["comparator invocations per call"])
p("C16","Presorted input and single-pass operations cost linear or logarithmic calls",
 "Sorting input that is already sorted or strictly reversed (with any sort but the parallel cached-key one) costs a number of comparisons linear in the length, and so does stably sorting a concatenation of two sorted runs and unstably sorting few distinct values. Binary search calls its callback at most logarithmically often, deduplication, order tests and membership scan at most once across the array and stop at the first decisive element.",
 ["inputs"],"all lengths for each input pattern; all arrays for the scanning and searching operations",
 "The tests never count callback invocations.",
 ["src/merge_sort.rs","src/quick_sort.rs","src/partition.rs","src/par/merge_sort.rs","src/lib.rs","src/partition_dedup.rs"],
 [("run detection","src/merge_sort.rs:find_streak"),("partial insertion sort on likely sorted input, equal partition","src/quick_sort.rs:recurse; src/insertion_sort.rs:partial_insertion_sort"),("bisection","src/lib.rs:binary_search_by")],
 ["callback invocations per call"])
p("C17","Parallel operations never expose one element to two threads at once",
 "Throughout any parallel operation on elements that may only move between threads, no element is handed to callbacks on two threads at the same time, and every callback sees only elements of the array. This holds for every pool size and interleaving.",
 ["schedules","inputs","configurations"],"all pool sizes, interleavings, lengths and inputs",
 "The tests use plain integers, for which a concurrent read is invisible; an overlapping split shows only as a data race.",
 ["src/par/merge_sort.rs","src/par/quick_sort.rs","src/par/partition.rs"],
 [("disjoint sub-views handed to both sides of every fork","src/par/merge_sort.rs:recurse,par_merge; src/par/quick_sort.rs:recurse; src/par/partition.rs:par_partition_at_indices")],
 ["callback entry/exit with thread identity"])
p("C18","Results are reproducible: same input, same output, whatever the layout or pool",
 "Repeating an operation on the same values gives the same result element for element, independent of memory layout, element representation, earlier calls and thread-pool size; comparator, key and natural-order forms that induce the same order agree. This holds for the unstable operations too, since their internal randomisation uses a fixed seed.",
 ["inputs","histories","configurations","schedules"],"all operations, inputs, layouts, pools and preceding histories",
 "No test runs the same operation twice and compares positions of equal elements.",
 ["src/partition.rs","src/quick_sort.rs","src/par","src/lib.rs"],
 [("fixed-seed pseudo-random pattern breaking","src/partition.rs:break_patterns")],
 ["final element identities of repeated calls"])
p("C19","Changes callbacks make to elements through shared or mutable access survive",
 "If a callback changes an element it is shown (through interior mutability in a comparator or key function, or through the mutable references of the deduplication callback), the change is still present in that element after the operation returns or unwinds. No callback ever observes an outdated copy of an element.",
 ["inputs","crash_points","histories"],"every operation with callbacks, every invocation, normal return and unwinding",
 "The tests use plain immutable values, for which a stale temporary copy written back over the original is invisible.",
 ["src/insertion_sort.rs","src/merge_sort.rs","src/partition.rs","src/heap_sort.rs","src/partition_dedup.rs","src/par"],
 [("holes that write the compared temporary back","src/insertion_sort.rs:InsertionHole; src/partition.rs:partition"),("compare through the copy that is kept","src/merge_sort.rs:merge")],
 ["per-element touch counters after the call"])
p("C20","In-place operations allocate nothing; temporary memory is bounded and released",
 "Unstable sorting, selection, searching, order tests, reversal and deduplication of an array allocate no element storage; the sequential stable sort uses temporary storage for at most half the elements, and none for very short arrays, and the parallel one for at most all elements. All temporary memory is released when the call returns or unwinds.",
 ["inputs","crash_points"],"all operations, lengths and inputs, normal return and a panic at any callback",
 "No test observes allocations.",
 ["src/stable_sort.rs","src/merge_sort.rs","src/par/merge_sort.rs","src/lib.rs"],
 [("half-length scratch buffer with guard","src/merge_sort.rs:BufGuard,RunVec"),("no buffer for short arrays","src/merge_sort.rs:merge_sort")],
 ["global allocator calls during an operation"])
p("C21","Operations compose: any history of calls and returned views stays consistent",
 "In any sequence of operations on an array and on the views they return (sort a returned half, select within a remainder, deduplicate then search, continue after a caught panic), each call meets its own contract on the contents the previous one left, and writes through returned views or references reach exactly the positions they denote. In particular searching after sorting finds exactly the present values, and selecting again and again within the remainders returned sorts the array.",
 ["histories","inputs","configurations"],"all finite sequences of operations, on all sub-views reachable through returned views",
 "Every test makes a single call on a fresh array.",
 ["src/lib.rs","src/partition.rs","src/partition_dedup.rs"],
 [("returned disjoint views tied to the borrow of the array","src/partition.rs:partition_at_index; src/partition_dedup.rs")],
 ["state of the array between calls"])
p("C22","Every feature configuration gives the same results",
 "Every operation available in a feature configuration (none, allocation only, standard library, stack growth, parallelism) compiles and behaves identically in all configurations that offer it: same results, same panics, same guarantees.",
 ["configurations","inputs"],"all feature sets the crate offers, all operations and inputs",
 "The tests run in one feature configuration at a time and nothing compares them.",
 ["Cargo.toml","src/lib.rs","src/stable_sort.rs"],
 [("feature gates","src/lib.rs"),("allocator choice without std","src/stable_sort.rs"),("stack growth wrapper","src/lib.rs:maybe_grow")],
 ["results per configuration"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
