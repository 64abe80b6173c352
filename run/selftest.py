"""Is the binding of the specification to recorded executions alive?

Real executions are recorded and must be accepted; each is then falsified in one respect, as a broken implementation
would show it, and must be rejected because of the clause named (which also must not be rejected when that clause is
not in force, unless another one covers it)."""
import json, os, threading

SORT = "op=sort form=by ranks=3,1,2,1,5,4,4,0 view=0,1,8 nb=8 detail=1"
VIEW = "op=unst form=by ranks=3,1,2,1,5,4,4,0,7,7 view=1,2,4 nb=10 detail=1 owner=view"
SEL = "op=sel form=by k=3 ranks=3,1,2,1,5,4,4,0 view=0,1,8 nb=8 detail=1"
MANY = "op=many form=by idx=1,4,6 ranks=3,1,2,1,5,4,4,0 view=0,1,8 nb=8 spare=3"
BS = "op=bs form=by tgt=4 ranks=0,1,2,4,4,6,8 view=0,1,7 nb=7 detail=1"
PP = "op=pp form=by tgt=4 ranks=0,1,2,4,4,6,8 view=0,1,7 nb=7 detail=1"
DEDUP = "op=dedup form=by ranks=1,1,2,2,2,3,1,1 view=0,1,8 nb=8 detail=1"
ISS = "op=issorted form=by ranks=1,1,2,2,2,3,1,1 view=0,1,8 nb=8 detail=1"
ISREL = "op=issorted form=by eq=2 ranks=1,1,2,2,2,3,1,1 view=0,1,8 nb=8 detail=1"
CACHEDWIDE = "op=cached form=key kw=128 ty=byte ranks=3,1,2,1,5,4,4,0 view=7,-1,8 nb=8 detail=1"
CON = "op=contains form=nat tgt=2 ranks=1,1,2,2,2,3,1,1 view=0,1,8 nb=8"
REV = "op=rev form=nat ranks=1,1,2,2,2,3,1 view=0,1,7 nb=7"
CACHED = "op=cached form=key ranks=3,1,2,1,5,4,4,0 view=0,1,8 nb=8 detail=1"
PAN = "op=sort form=by ty=drop ledger=1 ranks=3,1,2,1,5,4,4,0 view=0,1,8 nb=8 detail=1 pan=5,1"
ALLOC = "op=sort form=by track=1 ranks=" + ",".join(str(i * 7 % 64) for i in range(64)) + " view=0,1,64 nb=64"
UALLOC = ALLOC.replace("op=sort", "op=unst")
BIG = "op=sel form=by k=30 ranks=" + ",".join(str(i * 7 % 64) for i in range(64)) + " view=0,1,64 nb=64"
BADSEL = "op=sel form=by k=8 ranks=3,1,2,1,5,4,4,0 view=0,1,8 nb=8"
PAR = "op=psort form=by pool=2 ranks=3,1,2,1,5,4,4,0 view=0,1,8 nb=8 detail=1"
ALLCASES = [SORT, VIEW, SEL, MANY, BS, PP, DEDUP, ISS, CON, REV, CACHED, PAN, ALLOC, UALLOC, BIG, BADSEL, PAR, ISREL, CACHEDWIDE]


def ev(t, name):
    return [e for e in t if e["e"] == name][-1]


def back(t):
    return [e for e in t if e["e"] in ("ret", "unw")][-1]


def swap_p(i, j):
    def f(t):
        p = back(t)["p"]
        p[i], p[j] = p[j], p[i]
        m, v = ev(t, "peek")["mem"], ev(t, "view")
        a, b = v["off"] + v["st"] * i, v["off"] + v["st"] * j
        m[a], m[b] = m[b], m[a]
    return f


def put(*path_value):
    *path, value = path_value

    def f(t):
        d = back(t)
        for k in path[:-1]:
            d = d[k]
        d[path[-1]] = value
    return f


def lose(t):
    p = back(t)["p"]
    p[1] = p[0]
    m = ev(t, "peek")["mem"]
    m[1] = m[0]


def peek_out(t):
    m = ev(t, "peek")["mem"]
    m[0], m[2] = m[2], m[0]


def swallow(t):
    b = back(t)
    b["e"], b["how"] = "ret", "ret"


def spurious(t):
    b = back(t)
    b["e"], b["how"], b["cnt"]["raised"] = "unw", "own", 0


def overlap(t):
    """Two threads shown the same element at once."""
    l = ev(t, "cbs")["l"]
    b = list(l[0])
    b[1] = 2
    e = list(l[1])
    e[1] = 2
    l[1:1] = [b]
    l[3:3] = [e]


def stranger(t):
    ev(t, "cbs")["l"][0][3] = 7


def outside(t):
    l = ev(t, "cbs")["l"]
    l[0][3] = l[1][3] = 0


def keytwice(t):
    l = ev(t, "cbs")["l"]
    k = [x for x in l if x[2] == "key"][:2]
    l[0:0] = [list(x) for x in k]


def twisted(t):
    """The deduplication callback with its arguments exchanged."""
    for x in ev(t, "cbs")["l"]:
        x[3], x[4] = x[4], x[3]


def ev_tail(e):
    def f(t):
        i = t.index(back(t))
        t[i:] = [e]
    return f


def unfinished(t):
    """A callback still in progress when the operation returns."""
    l = ev(t, "cbs")["l"]
    l.append(["b", 3, "cmp", 1, 2, 0])


def other(t):
    back(t)["other"] = list(range(len(ev(t, "new")["mem"])))
    back(t)["other"][0] = 1


# name, case, falsification, property whose clauses are in force, clause expected (None: no clause, no action fits)
TESTS = [
    ("unsorted", SORT, swap_p(0, 5), "C01", "ORDER"),
    ("unstable", SORT, swap_p(1, 2), "C01", "ORDER"),
    ("unstable is fine for C02 on an unstable sort", VIEW, None, "C02", "ok"),
    ("unsorted view", VIEW, swap_p(0, 3), "C02", "ORDER"),
    ("element lost", SORT, lose, "C01", "PERM"),
    ("element lost, C08", PAN, lose, "C08", "PERM"),
    ("rank misplaced", SEL, swap_p(0, 7), "C05", "ORDER"),
    ("returned view too short", SEL, put("res", "l", "n", 2), "C05", "RESULT"),
    ("returned element elsewhere", SEL, put("res", "m", 2), "C05", "RESULT"),
    ("out of range accepted", BADSEL, swallow, "C05", "PANIC"),
    ("spurious panic", SEL, spurious, "C05", "PANIC"),
    ("bulk: missing entry", MANY, put("res", "got", [[1, 1], [4, 4]]), "C06", "RESULT"),
    ("bulk: wrong reference", MANY, put("res", "got", [[1, 1], [4, 5], [6, 6]]), "C06", "RESULT"),
    ("bulk: wrong order", MANY, put("res", "got", [[4, 4], [1, 1], [6, 6]]), "C06", "RESULT"),
    ("bulk: prior contents", MANY, put("res", "prior", False), "C06", "RESULT"),
    ("bulk: not partitioned", MANY, swap_p(0, 5), "C06", "ORDER"),
    ("panic swallowed", PAN, swallow, "C08", "PANIC"),
    ("element dropped", PAN, put("cnt", "opdrops", 1), "C08", "DROPS"),
    ("element dropped later twice", PAN, put("cnt", "dropbad", 1), "C08", "DROPS"),
    ("written outside the view", VIEW, peek_out, "C10", None),
    ("copy-on-write owner changed", SORT, other, "C10", "FRAME"),
    ("shown a foreign element", VIEW, put("cnt", "foreign", 1), "C10", "SHOWN"),
    ("shown an element outside the view", VIEW, outside, "C10", None),
    ("search misses", BS, put("res", {"found": False, "ix": 3}), "C11", "RESULT"),
    ("search wrong index", BS, put("res", {"found": True, "ix": 2}), "C11", "RESULT"),
    ("search out of range", BS, put("res", {"found": True, "ix": 7}), "C11", "RESULT"),
    ("partition point", PP, put("res", 4), "C11", "RESULT"),
    ("search writes", BS, swap_p(0, 1), "C11", "PERM"),
    ("kept one too many", DEDUP, put("res", {"a": {"off": 0, "st": 1, "n": 5}, "b": {"off": 5, "st": 1, "n": 3}}), "C12", "RESULT"),
    ("kept out of order", DEDUP, swap_p(0, 1), "C12", "RESULT"),
    ("arguments exchanged", DEDUP, twisted, "C12", "ARGS"),
    ("mutation lost", DEDUP, put("cnt", "stale", 1), "C12", "PAYLOAD"),
    ("order test", ISS, put("res", True), "C13", "RESULT"),
    ("membership", CON, put("res", False), "C13", "RESULT"),
    ("reversal", REV, swap_p(2, 4), "C13", "ORDER"),
    ("key computed twice, counted", CACHED, put("cnt", "kmax", 2), "C14", "KEYONCE"),
    ("key computed twice, seen", CACHED, keytwice, "C14", None),
    ("cached not stable", CACHED, swap_p(1, 2), "C14", "ORDER"),
    ("too many comparisons, select", BIG, put("cnt", "cmp", 100 * 64 + 2001), "C15", "COST"),
    ("too many comparisons, sort", SORT, put("cnt", "cmp", 4 * 8 * 4 + 401), "C15", "COST"),
    ("too deep", SORT, put("cnt", "stack", 60000), "C15", "STACK"),
    ("sorted input, many comparisons", "op=unst form=by ranks=" + ",".join(map(str, range(99))) + " view=0,1,99 nb=99",
     put("cnt", "cmp", 800), "C16", "LINEAR"),
    ("search asks too often", BS, put("cnt", "cmp", 5), "C16", "CALLS"),
    ("order test asks too often", ISS, put("cnt", "cmp", 7), "C16", "CALLS"),
    ("shared by two threads, counted", PAR, put("cnt", "excl", 1), "C17", "EXCL"),
    ("shared by two threads, seen", PAR, overlap, "C17", None),
    ("callback outlives the call", PAR, unfinished, "C17", None),
    ("stale copy", SORT, put("cnt", "stale", 1), "C19", "PAYLOAD"),
    ("mutation lost in place", SORT, put("cnt", "lost", 1), "C19", "PAYLOAD"),
    ("unstable sort allocates", UALLOC, put("heap", "count", 1), "C20", "HEAP"),
    ("stable sort allocates too much", ALLOC, put("heap", "peak", 64 * 8 + 4096), "C20", "HEAP"),
    ("leak", ALLOC, put("heap", "live", 8), "C20", "RELEASED"),
    ("a key is left behind", CACHED, put("cnt", "keys", 1), "C20", "RELEASED"),
    ("a key is dropped twice", CACHEDWIDE, put("cnt", "keys", -1), "C20", "RELEASED"),
    ("order test by a relation", ISREL, put("res", True), "C13", "RESULT"),
    ("order test by a relation asks too often", ISREL, put("cnt", "cmp", 8), "C16", "CALLS"),
    ("wide keys not stable", CACHEDWIDE, swap_p(1, 2), "C14", "ORDER"),
    ("crash", SORT, ev_tail({"e": "crash", "what": "killed by SIGSEGV"}), "C09", None),
    ("hang", SORT, ev_tail({"e": "hang", "what": "hang"}), "C09", None),
    ("configuration does not build", SORT, lambda t: t.insert(0, {"e": "build", "configuration": "none"}), "C22", None),
]


def main(judge, tlc, work, binary, run):
    bad = []
    lock = threading.Lock()
    sem = threading.Semaphore(8)

    def record(case, sig=""):
        f = os.path.join(work, "case-%d.txt" % abs(hash(case)))
        with open(f, "w") as g:
            g.write(case)
        rc, out = run([binary, "case", "--file", f], 60)
        assert rc == 0, out
        return [json.loads(l) for l in out.splitlines()]

    recorded = {c: record(c) for c in {t[1] for t in TESTS} | set(ALLCASES)}

    def write(name, t):
        p = os.path.join(work, "self-%s.ndjson" % "".join(x if x.isalnum() else "_" for x in name))
        with open(p, "w") as f:
            for e in t:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        return p

    def one(name, t, prop, clause):
        with sem:
            try:
                v = judge(write(name, t), prop, work)
            except Exception as e:
                with lock:
                    bad.append((name, prop, clause, str(e)[-600:]))
                return
            ok = v.ok if clause == "ok" else not v.ok and (clause is None or clause in v.broken)
            if not ok:
                with lock:
                    bad.append((name, prop, clause, v.ok, v.line, v.event, v.broken))

    jobs = []
    for name, case, f, prop, clause in TESTS:
        t = json.loads(json.dumps(recorded[case]))
        if f:
            f(t)
        jobs.append((name, t, prop, clause))
    # every unfalsified execution, under every property
    whole = [e for c in ALLCASES for e in recorded[c]]
    for i in range(1, 23):
        jobs.append(("accepted C%02d" % i, whole, "C%02d" % i, "ok"))
    # two outcomes for one signature
    a, b = json.loads(json.dumps(recorded[SORT])), json.loads(json.dumps(recorded[SORT]))
    for t in (a, b):
        ev(t, "call")["sig"] = "g"
    jobs.append(("same signature, same outcome", a + b, "C18", "ok"))
    b = json.loads(json.dumps(b))
    swap_p(1, 2)(b)
    jobs.append(("same signature, other outcome", a + b, "C18", "MEMO"))
    ts = [threading.Thread(target=one, args=j) for j in jobs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for x in bad:
        print("self-test failed:", x)
    print("self-test: %d traces judged, %d wrong" % (len(jobs), len(bad)))
    return bad
