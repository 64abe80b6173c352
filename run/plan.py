"""Per property: clauses of Slice1.tla in force, models checked, how cases are made."""
CLAUSES = {k: v.split(",") for k, v in {
    **{c: "PANIC,PERM,ORDER" for c in ("C01", "C02", "C03", "C04")},
    **{c: "PANIC,PERM,ORDER,RESULT" for c in ("C05", "C06", "C07")},
    "C08": "PANIC,PERM,DROPS,FRAME",
    "C09": "PANIC,PERM,FRAME,SHOWN,RESULT",
    "C10": "PANIC,PERM,ORDER,RESULT,FRAME,SHOWN,MEMO",
    "C11": "PANIC,PERM,RESULT,SHOWN",
    "C12": "PANIC,PERM,ORDER,RESULT,ARGS,PAYLOAD",
    "C13": "PANIC,PERM,ORDER,RESULT",
    "C14": "PANIC,PERM,ORDER,KEYONCE",
    "C15": "PANIC,COST,STACK",
    "C16": "PANIC,LINEAR,CALLS",
    "C17": "PANIC,SHOWN,EXCL",
    "C18": "PANIC,MEMO",
    "C19": "PANIC,PAYLOAD",
    "C20": "PANIC,HEAP,RELEASED",
    "C21": "PANIC,PERM,ORDER,RESULT,FRAME,SHOWN,DROPS",
    "C22": "PANIC,PERM,ORDER,RESULT,MEMO",
}.items()}


def cfg(consts, invs, extra=""):
    return "INIT Init\nNEXT Next\nCONSTANTS\n" + "".join(" %s\n" % c for c in consts) + \
           "INVARIANTS " + invs + "\n" + extra + "\n"


def m(module, what, consts, invs, deep=None, extra="", **kw):
    d = {"module": module, "what": what, "cfg": cfg(consts, invs, extra)}
    if deep:
        d["deep"] = cfg(deep, invs, extra)
    d.update(kw)
    return d


RUNS_INV = "Tiles OneRun BufferOk CapOk Shrinks DepthOk WorkOk Grows"
RUNS = m("RunStack", "run stack of the stable sorts: every sequence of run lengths of 11 units",
         ["Total = 11", "StartCap = 2", "Lens <- None"], RUNS_INV + " Emit",
         deep=["Total = 15", "StartCap = 2", "Lens <- None"])
DEEP = m("RunStack", "run stack at its starting capacity: the shortest run lengths that fill it and one more",
         ["Total <- Deep16Total", "StartCap = 16", "Lens <- Deep16"], RUNS_INV + " Emit", workers=1)
BLOCK_INV = "Permuted Inside Settled Result1"
BLOCKS = m("BlockPart", "block partitioning: every arrangement of low and high elements",
           ["Block = 2", "MaxN = 10", "Liar = FALSE"], BLOCK_INV + " Emit", deep=["Block = 3", "MaxN = 15", "Liar = FALSE"])
BLOCKS_LIAR = m("BlockPart", "block partitioning under arbitrary answers",
                ["Block = 2", "MaxN = 7", "Liar = TRUE"], BLOCK_INV, deep=["Block = 2", "MaxN = 9", "Liar = TRUE"])
FORK_INV = "AllHere Complete RegionsOk Disjoint Written"


def fork(sizes, ranks, chunk, seq, liar, panics):
    return ["Sizes = {%s}" % sizes, "Ranks = {%s}" % ranks, "Chunk = %d" % chunk, "MaxSeq = %d" % seq,
            "Liar = %s" % liar, "MaxPanics = %d" % panics]


FORK = m("ForkMerge", "parallel merge sort: all interleavings of its tasks", fork("4,6", "0,1", 2, 3, "FALSE", 0), FORK_INV,
         deep=fork("4,6,7", "0,1,2", 2, 3, "FALSE", 0))
FORK_LIAR = m("ForkMerge", "parallel merge sort: all interleavings, arbitrary answers, up to two panics",
              fork("4,5", "0,1", 2, 3, "TRUE", 2), FORK_INV, deep=fork("5,6", "0,1", 2, 3, "TRUE", 2))
FORK_PANIC = m("ForkMerge", "parallel merge sort: all interleavings, a panic in any comparison",
               fork("5,6", "0,1", 2, 3, "FALSE", 1), FORK_INV, deep=fork("5,6,7", "0,1", 2, 3, "FALSE", 2))
JOIN = m("ForkMerge", "joining of chunks that continue each other: every array", fork("3,5,7", "0,1,2,3", 2, 3, "FALSE", 0),
         FORK_INV + " Emit", extra="CONSTRAINT JoinOnly")
JOIN3 = m("ForkMerge", "joining of chunks, sorted ones among them: every array", fork("7,8", "0,1,2", 3, 3, "FALSE", 0),
          FORK_INV + " Emit", extra="CONSTRAINT JoinOnly")
BULK_INV = "Kept Disjoint InSegment Result1 CostOk"


def bulk(n, ranks, par, panics):
    return ["MaxN = %d" % n, "Ranks = {%s}" % ranks, "Par = %s" % par, "Panics = %d" % panics]


BULK_SEQ = m("BulkTree", "bulk selection, sequential: every array, every list of ranks", bulk(4, "0,1,2", "FALSE", 0), BULK_INV,
             deep=bulk(5, "0,1,2", "FALSE", 0))
BULK_PAR = m("BulkTree", "bulk selection, parallel: all interleavings", bulk(4, "0,1,2", "TRUE", 0), BULK_INV,
             deep=bulk(5, "0,1", "TRUE", 0))
BULK_LISTS = m("BulkTree", "bulk selection: every list of ranks of up to 6 equal elements", bulk(6, "0", "TRUE", 0), BULK_INV + " Emit")
BULK_PANIC_SEQ = m("BulkTree", "bulk selection, sequential, a panic in any selection", bulk(3, "0,1", "FALSE", 1), BULK_INV)
BULK_PANIC_PAR = m("BulkTree", "bulk selection, parallel, panics in up to two selections", bulk(3, "0,1", "TRUE", 2), BULK_INV,
                   deep=bulk(4, "0,1", "TRUE", 2))
CYCLES = m("Cycles", "applying the cached-key permutation: every permutation of up to 6",
           ["MaxN = 6"], "Permuted Prefix Bounded Emit", deep=["MaxN = 8"])
HOLE_INV = "NothingLost Bounds BufferOk AskedOk SortedEnd"
HOLES = m("Holes", "insertions and merges with a guard: every input", ["MaxN = 7", "Ranks = {0,1,2}", "Liar = FALSE"], HOLE_INV,
          deep=["MaxN = 9", "Ranks = {0,1,2,3}", "Liar = FALSE"])
HOLES_LIAR = m("Holes", "insertions and merges with a guard: every sequence of answers, abandoned anywhere",
               ["MaxN = 8", "Ranks = {0}", "Liar = TRUE"], HOLE_INV, deep=["MaxN = 14", "Ranks = {0}", "Liar = TRUE"])
HEAP_INV = "Permuted Bounds IsHeap AskedOk SortedEnd"
HEAP = m("HeapSort", "heap sort: every input", ["MaxN = 6", "Ranks = {0,1,2}", "Liar = FALSE"], HEAP_INV,
         deep=["MaxN = 8", "Ranks = {0,1,2,3}", "Liar = FALSE"])
HEAP_LIAR = m("HeapSort", "heap sort: every sequence of answers", ["MaxN = 6", "Ranks = {0}", "Liar = TRUE"], HEAP_INV,
              deep=["MaxN = 7", "Ranks = {0}", "Liar = TRUE"])
LAWS = m("Slice1MC", "laws of the contract: every array, witness, list of ranks, view and relation of a small scope",
         ["MaxN = 4", "Ranks = {0,1,2}", "MaxMem = 6"], "OrderLaws MetLaws ViewLaws KeepLaws FindLaws",
         deep=["MaxN = 5", "Ranks = {0,1,2}", "MaxMem = 7"])
SEARCH_INV = "Inside Result1 Known AskedOk"
SEARCH = m("BinSearch", "binary search: every length, target and run of equal elements",
           ["MaxN = 40", "Liar = FALSE"], SEARCH_INV, deep=["MaxN = 90", "Liar = FALSE"])
SEARCH_LIAR = m("BinSearch", "binary search: every sequence of answers", ["MaxN = 70", "Liar = TRUE"], SEARCH_INV,
                deep=["MaxN = 300", "Liar = TRUE"])
DEDUP = m("DedupPtr", "deduplication: every sequence of answers", ["MaxN = 9"], "Permuted Bounds Shown Result1 Emit", deep=["MaxN = 12"])
QUICK_INV = "Tiles PredOk PredOwned Right WantIn AllDone DepthOk LimitOk FewOk BadOk WorkOk SelOk"


def quick(mode, lo, hi, ranks, ins, keep="FALSE"):
    return ["MinN = %d" % lo, "MaxN = %d" % hi, ranks if "<-" in ranks else "Ranks = {%s}" % ranks, "Ins = %d" % ins,
            "MaxSeq = 3", 'Mode = "%s"' % mode, "SelLimit = 2", "Frac = 4", "Keep = " + keep]


INCR = "Ranks = {0}\n NonDec <- Incr"
QUICK_SORT = m("QuickLoop", "control of quick sort: every array, every choice of pivots", quick("sort", 1, 8, "0,1,2,3", 2), QUICK_INV,
               deep=quick("sort", 1, 11, "0,1,2,3", 2))
QUICK_LIMIT = m("QuickLoop", "control of quick sort: distinct elements, every choice of pivots until the limit is used up",
                quick("sort", 11, 11, INCR, 2), QUICK_INV, deep=quick("sort", 15, 15, INCR, 2))
QUICK_PAR = m("QuickLoop", "control of the parallel quick sort: every array and choice of pivots, all interleavings",
              quick("par", 1, 7, "0,1,2", 1), QUICK_INV, deep=quick("par", 1, 9, "0,1,2,3", 1))
QUICK_SEL = m("QuickLoop", "control of selection: every array, rank and choice of pivots", quick("sel", 1, 8, "0,1,2,3", 2), QUICK_INV,
              deep=quick("sel", 1, 11, "0,1,2,3", 2))
TURNS = m("QuickLoop", "where pivots come to lie: every sequence for nine distinct elements", quick("sort", 9, 9, INCR, 2, "TRUE"),
          QUICK_INV + " Emit", deep=quick("sort", 12, 12, INCR, 2, "TRUE"))


def guess(what, n, ranks, steps, liar):
    return ['What = "%s"' % what, "MaxN = %d" % n, "Ranks = {%s}" % ranks, "MaxSteps = %d" % steps, "Liar = " + liar]


GUESS_INV = "Permuted Bounds AskedOk Median Guess FrontOk"
PIVOT = m("PivotGuess", "choosing a pivot: every order of the nine elements looked at", guess("pivot", 9, "0,1,2", 0, "FALSE"), GUESS_INV)
PIVOT_LIAR = m("PivotGuess", "choosing a pivot: every sequence of answers", guess("pivot", 9, "0", 0, "TRUE"), GUESS_INV)
PARTIAL = m("PivotGuess", "partial insertion: every input", guess("partial", 6, "0,1,2", 2, "FALSE"), GUESS_INV + " Emit",
            deep=guess("partial", 8, "0,1,2,3", 3, "FALSE"))
PARTIAL_LIAR = m("PivotGuess", "partial insertion: every sequence of answers", guess("partial", 5, "0", 2, "TRUE"), GUESS_INV,
                 deep=guess("partial", 6, "0", 2, "TRUE"))
NINTHER = m("PivotGuess", "ninther: every order of nine elements", guess("ninther", 9, "0,1,2", 0, "FALSE"), GUESS_INV)
NINTHER_LIAR = m("PivotGuess", "ninther: every sequence of answers", guess("ninther", 9, "0", 0, "TRUE"), GUESS_INV)


STREAK_INV = "Permuted Tiles LongEnough RunsOk Local SaidOk AskedOk"


def streaks(n, ranks, run, back, liar):
    return ["MaxN = %d" % n, "Ranks = {%s}" % ranks, "MinRun = %d" % run, "Back = " + back, "Liar = " + liar]


STREAKS = m("Streaks", "cutting the input into runs: every input", streaks(6, "0,1,2,3", 3, "FALSE", "FALSE"), STREAK_INV + " Emit",
            deep=streaks(8, "0,1,2,3", 3, "FALSE", "FALSE"))
STREAKS_BACK = m("Streaks", "cutting a chunk into runs from its end: every chunk", streaks(6, "0,1,2,3", 3, "TRUE", "FALSE"),
                 STREAK_INV + " Emit", deep=streaks(8, "0,1,2,3", 3, "TRUE", "FALSE"))
STREAKS_LIAR = m("Streaks", "cutting the input into runs: every sequence of answers", streaks(8, "0", 3, "FALSE", "TRUE"), STREAK_INV,
                 deep=streaks(10, "0", 4, "FALSE", "TRUE"))
STREAKS_BACK_LIAR = m("Streaks", "cutting a chunk into runs: every sequence of answers", streaks(8, "0", 3, "TRUE", "TRUE"), STREAK_INV,
                      deep=streaks(10, "0", 4, "TRUE", "TRUE"))
EQUAL_INV = "Permuted Bounds Result1 Progress AskedOk"
EQUAL = m("EqualPart", "setting equal elements aside: every arrangement", ["MaxN = 9", "Liar = FALSE"], EQUAL_INV + " Emit",
          deep=["MaxN = 13", "Liar = FALSE"])
EQUAL_LIAR = m("EqualPart", "setting equal elements aside: every sequence of answers", ["MaxN = 9", "Liar = TRUE"], EQUAL_INV,
               deep=["MaxN = 13", "Liar = TRUE"])


def selcost(n, factor):
    return ["MaxN = %d" % n, "Short = 1024", "Medium = 131072", "SmallDiv = 12", "MediumDiv = 64", "Factor = %d" % factor, "Plus = 0"]


SELCOST = m("SelectCost", "the linear-time fallback of selection: indices within bounds and worst case for every length",
            selcost(3000, 70), "Within Shrinks Linear", deep=selcost(20000, 80))
HIST_CL = 'Clauses = {"PANIC","PERM","ORDER","RESULT"}'
HIST_LAWS = "HTypeOK SortedLaw PinLaw PinAllLaw PartsLaw"


def hist(n, ranks, calls, nest, fixed):
    return [HIST_CL, "MaxN = %d" % n, "Ranks = {%s}" % ranks, "MaxCalls = %d" % calls, "MaxNest = %d" % nest,
            "Fixed = %s" % fixed]


def h(what, consts, invs, props="", deep=None):
    x = m("Slice1Hist", what, consts, invs, deep, extra="PROPERTIES " + props if props else "")
    for k in ("cfg", "deep"):
        if k in x:
            x[k] = x[k].replace("INIT Init\nNEXT Next", "INIT HInit\nNEXT HNext")
    return x


HIST = h("histories over the contract: every outcome it permits, panics and nested calls included",
         hist(3, "0,1", 2, 1, "FALSE"), HIST_LAWS, "FrameLaw ResumeLaw", deep=hist(3, "0,1", 3, 1, "FALSE"))
PROGS = h("histories of three calls, to be replayed", hist(2, "0", 3, 0, "TRUE"), "HTypeOK Emit",
          deep=hist(2, "0", 4, 0, "TRUE"))


def every(module, what):
    return {"module": module, "what": what + " (inductive invariant, Apalache)", "tool": "apalache"}


ANY_RUNS = every("AnyRuns", "run stack: every height and every run length")
ANY_MERGE = every("AnyMerge", "merge loops: every length, any answers")
ANY_BLOCKS = every("AnyBlocks", "block partitioning: every length, the block size of the code, any answers")
ANY_SEARCH = every("AnySearch", "binary search: every length, any answers")
ANY_SELECT = every("AnySelect", "selection: every length, any outcome of the partitions")
ANY_SAMPLE = every("AnySample", "where pivots are taken from and patterns are broken: every length")
ANY_ENDS = every("AnyEnds", "loops with two ends: every length, any answers")
ANY_QUICK = every("AnyQuick", "quick sort: every length, any outcome of the partitions: how deep it gets")
ANY_PIECES = every("AnyPieces", "how work is cut into pieces: every length")
MODELS = {
    "C01": [RUNS, DEEP, HOLES, LAWS, STREAKS, ANY_RUNS, ANY_MERGE],
    "C02": [BLOCKS, HEAP, QUICK_SORT, PIVOT, PARTIAL, TURNS, EQUAL, ANY_BLOCKS, ANY_SAMPLE],
    "C03": [RUNS, JOIN, JOIN3, FORK, STREAKS_BACK, ANY_PIECES, ANY_RUNS],
    "C04": [BLOCKS, HEAP, QUICK_PAR, TURNS, EQUAL, PARTIAL, ANY_BLOCKS, ANY_SAMPLE],
    "C05": [BLOCKS, LAWS, QUICK_SEL, NINTHER, TURNS, EQUAL, ANY_SELECT, ANY_SAMPLE],
    "C06": [BULK_SEQ, BULK_LISTS, BLOCKS, LAWS, ANY_PIECES, ANY_SELECT],
    "C07": [BULK_PAR, BULK_LISTS, BLOCKS, ANY_PIECES, ANY_SELECT],
    "C08": [HOLES_LIAR, FORK_PANIC, RUNS, DEEP, BULK_PANIC_SEQ, BULK_PANIC_PAR, JOIN, STREAKS_LIAR, STREAKS_BACK_LIAR, EQUAL_LIAR, ANY_MERGE, ANY_PIECES],
    "C09": [BLOCKS_LIAR, HOLES_LIAR, HEAP_LIAR, FORK_LIAR, SEARCH_LIAR, DEDUP, PIVOT_LIAR, PARTIAL_LIAR, NINTHER_LIAR, STREAKS_LIAR, STREAKS_BACK_LIAR, EQUAL_LIAR, ANY_BLOCKS, ANY_MERGE, ANY_SEARCH, ANY_SELECT, ANY_ENDS],
    "C14": [CYCLES],
    "C15": [HEAP, BULK_LISTS, RUNS, QUICK_LIMIT, QUICK_PAR, QUICK_SEL, NINTHER, SELCOST, TURNS, ANY_RUNS, ANY_SELECT, ANY_QUICK],
    "C16": [RUNS, JOIN, JOIN3, SEARCH, DEDUP, QUICK_SORT, PIVOT, PARTIAL, STREAKS, STREAKS_BACK, EQUAL, ANY_SEARCH, ANY_BLOCKS, ANY_ENDS],
    "C17": [FORK, FORK_LIAR, BULK_PAR, JOIN, QUICK_PAR, ANY_PIECES],
    "C18": [FORK, BULK_PAR, EQUAL],
    "C19": [HOLES, RUNS, DEEP],
    "C20": [RUNS, DEEP, ANY_MERGE],
    "C10": [LAWS],
    "C11": [LAWS, SEARCH, SEARCH_LIAR, ANY_SEARCH],
    "C12": [LAWS, DEDUP, ANY_ENDS],
    "C13": [LAWS],
    "C21": [HIST, PROGS, LAWS],
    "C22": [LAWS],
}
RULE = {}
ASSUMPTIONS = [
    "elements carry an identity; what the code does depends on elements only through moves and callbacks",
    "the harness monitor is a filter only: every verdict is TLC's on a recorded trace",
    "thread interleavings are those the scheduler produced, perturbed by delays in the callbacks",
]
