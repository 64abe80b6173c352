#!/usr/bin/env python3
"""Check one property: model checking of the TLA+ specification, conformance of the code in /repo with it.

usage: check.py C01 [--tier quick|thorough] [--secs S]
       check.py --replay FILE --prop C01       judge a recorded trace again, and run its calls again
       check.py --setup                        build everything once, check the specification and its self-test
exit 0: held on everything explored; 1: VIOLATION; 2: no answer (tool error)
"""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)
ALL = ["PANIC", "PERM", "ORDER", "RESULT", "FRAME", "SHOWN", "DROPS", "PAYLOAD", "EXCL", "COST", "STACK", "LINEAR",
       "CALLS", "KEYONCE", "ARGS", "HEAP", "RELEASED", "MEMO"]
sys.path.insert(0, os.path.join(VERIF, "run"))
from plan import CLAUSES, MODELS, RULE, ASSUMPTIONS  # noqa: E402


class ToolError(Exception):
    pass


T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ----------------------------------------------------------------------------- processes
LIVE = set()


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def spawn(cmd, **kw):
    p = subprocess.Popen(cmd, preexec_fn=limits, stdin=subprocess.DEVNULL, **kw)
    LIVE.add(p)
    return p


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    LIVE.discard(p)


def run(cmd, timeout, cwd=None, env=None):
    p = spawn(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        out, _ = p.communicate(timeout=timeout)
        LIVE.discard(p)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        kill(p)
        return None, ""


# ----------------------------------------------------------------------------- builds
BUILDS = {
    # name: (cargo arguments, target directory, profile directory)
    "rel": (["--release"], "target-rel", "release"),
    "dbg": (["--features", "f_stacker"], "target-dbg", "debug"),
    "none": (["--no-default-features"], "target-cfg/none", "debug"),
    "alloc": (["--no-default-features", "--features", "f_alloc"], "target-cfg/alloc", "debug"),
    "std": (["--no-default-features", "--features", "f_std"], "target-cfg/std", "debug"),
    "stacker": (["--no-default-features", "--features", "f_stacker"], "target-cfg/stacker", "debug"),
    "none-rel": (["--no-default-features", "--release"], "target-cfg/none-rel", "release"),
    "alloc-rel": (["--no-default-features", "--features", "f_alloc", "--release"], "target-cfg/alloc-rel", "release"),
    "std-rel": (["--no-default-features", "--features", "f_std", "--release"], "target-cfg/std-rel", "release"),
    "stacker-rel": (["--features", "f_stacker", "--release"], "target-cfg/stacker-rel", "release"),
}


def build(name):
    """Path of the binary, or (None, compiler output)."""
    args, tdir, prof = BUILDS[name]
    cmd = ["cargo", "build", "--offline", "-q", "--target-dir", os.path.join(HARN, tdir)] + args
    env = dict(os.environ, CARGO_TERM_COLOR="never", RUSTFLAGS="-Awarnings")
    rc, out = run(cmd, 800, cwd=HARN, env=env)
    if rc is None:
        raise ToolError("cargo build did not finish")
    if rc != 0:
        return None, out
    return os.path.join(HARN, tdir, prof, "slicev"), out


# ----------------------------------------------------------------------------- TLC
def tlc(module, cfg, work, timeout, workers=1, env=None, extra=()):
    meta = os.path.join(work, "tlc-" + hashlib.md5((module + cfg + str(time.time_ns())).encode()).hexdigest()[:10])
    os.makedirs(meta, exist_ok=True)
    cfgf = os.path.join(meta, "m.cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss64m", "-Xmx3g",
           "-XX:TieredStopAtLevel=%d" % (1 if timeout <= 60 else 4), "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfgf, *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    rc, out = run(cmd, timeout, cwd=SPEC, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


TRACE_CFG = """SPECIFICATION TSpec
CONSTANT Clauses = {%s}
POSTCONDITION Accepted
INVARIANTS Explain TypeOK NoSharing
CHECK_DEADLOCK FALSE
"""


class Verdict:
    def __init__(self, ok, line=0, event="", broken="", states=0, out=""):
        self.ok, self.line, self.event, self.broken, self.states, self.out = ok, line, event, broken, states, out


def judge(path, prop, work, timeout=300):
    cl = ", ".join('"%s"' % c for c in CLAUSES[prop])
    rc, out = tlc("Slice1Trace", TRACE_CFG % cl, work, timeout, env={"TRACE": path})
    if rc is None:
        raise ToolError("TLC did not finish on " + path)
    m = re.search(r'<<"REJECTED", (\d+), "(\w+)">>', out)
    st = re.search(r"(\d+) states generated, (\d+) distinct", out)
    states = int(st.group(2)) if st else 0
    if m:
        b = re.findall(r'<<"BROKEN", (\d+), (\{[^}]*\})>>', out)
        b = [x[1] for x in b if x[0] == m.group(1)]
        return Verdict(False, int(m.group(1)), m.group(2), b[-1] if b else "", states, out)
    if rc == 0 and "No error has been found" in out:
        return Verdict(True, states=states)
    raise ToolError("TLC on %s: rc %s\n%s" % (path, rc, out[-3000:]))


def apalache(module, work, timeout):
    """An inductive invariant: Start (the beginning, or any state satisfying the invariant), one step."""
    d = tempfile.mkdtemp(prefix="apalache-", dir=work)
    cmd = ["apalache-mc", "check", "--init=Start", "--next=Next", "--inv=Inv", "--length=1", "--no-deadlock",
           "--out-dir=" + d, "--run-dir=" + d, os.path.join(SPEC, module + ".tla")]
    rc, out = run(cmd, timeout, cwd=d, env=dict(os.environ, JVM_ARGS="-Xmx1g -Djava.io.tmpdir=" + d))
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


# ----------------------------------------------------------------------------- models
def models(prop, tier, work, res):
    """Check the models of a property; scenarios they print are collected."""
    todo = [m for m in MODELS.get(prop, []) if tier == "thorough" or m.get("tier", "quick") == "quick"]
    lock = threading.Lock()
    sem = threading.Semaphore(4)

    def one(m):
        with sem:
            t = time.time()
            if m.get("tool") == "apalache":
                rc, out = apalache(m["module"], work, 240 if tier == "quick" else 1200)
                with lock:
                    if rc != 0 or "The outcome is: NoError" not in out:
                        res["failed"].append((m["module"], rc, out[-3000:]))
                    else:
                        res["models"].append({"module": m["module"], "states": 0, "generated": 0, "what": m["what"],
                                              "tool": "apalache", "scenarios": 0, "secs": round(time.time() - t, 1)})
                return
            cfg = m["cfg"] if tier == "quick" or "deep" not in m else m["deep"]
            to = 240 if tier == "quick" else 3000
            rc, out = tlc(m["module"], cfg, work, to, workers=m.get("workers", 2))
            st = re.findall(r"(\d+) states generated, (\d+) distinct", out)
            scen = re.findall(r'<<\s*"SCEN",\s*"(\w+)",\s*<<([-0-9,\s]*)>>\s*>>', out)
            with lock:
                if rc != 0 or "No error has been found" not in out:
                    res["failed"].append((m["module"], rc, out[-3000:]))
                    return
                res["states"] += int(st[-1][1]) if st else 0
                res["transitions"] += int(st[-1][0]) if st else 0
                res["models"].append({"module": m["module"], "states": int(st[-1][1]) if st else 0,
                                      "generated": int(st[-1][0]) if st else 0, "what": m["what"],
                                      "scenarios": len(set(scen)), "secs": round(time.time() - t, 1)})
                res["scen"] |= {"%s %s" % (k, re.sub(r"\s", "", v)) for k, v in scen}

    ts = [threading.Thread(target=one, args=(m,)) for m in todo]
    for t in ts:
        t.start()
    return ts


# ----------------------------------------------------------------------------- campaign
class Worker:
    pass


def read(path, d=""):
    try:
        with open(path) as f:
            return f.read()
    except OSError:
        return d


def campaign(prop, tier, seed, binary, out, secs, scen, workers, of, first, samples, hang_s):
    """Run workers; returns summaries and the abnormal ends."""
    os.makedirs(out, exist_ok=True)
    ws = []
    for k in range(workers):
        w = Worker()
        w.k = first + k
        w.out = out
        w.binary = binary
        w.cmd = [binary, "run", "--prop", prop, "--seed", str(seed), "--worker", str(w.k), "--of", str(of), "--secs",
                 str(secs), "--tier", tier, "--out", out, "--scen", scen, "--samples", str(samples)]
        w.log = open(os.path.join(out, "log-%d" % w.k), "wb")
        w.p = spawn(w.cmd, stdout=w.log, stderr=subprocess.STDOUT, cwd=out)
        w.beat, w.seen, w.end = "", time.time(), None
        ws.append(w)
    return ws


def watch(ws, hang_s):
    while True:
        busy = False
        for w in ws:
            if w.end:
                continue
            rc = w.p.poll()
            if rc is not None:
                LIVE.discard(w.p)
                w.end = "ok" if rc == 0 else "crash:%d" % rc
                continue
            busy = True
            b = read(os.path.join(w.out, "hb-%d" % w.k))
            if b != w.beat:
                w.beat, w.seen = b, time.time()
            elif time.time() - w.seen > hang_s:
                kill(w.p)
                w.end = "hang"
        if not busy:
            return
        time.sleep(0.2)


def locate(w, hang_s):
    """The call during which a worker died or stalled: (case text, what) or None if it does not happen again."""
    item = int(read(os.path.join(w.out, "hb-%d" % w.k), "0") or 0)
    only = -1 if item == 2 ** 64 - 1 else item
    what = w.end
    one = os.path.join(w.out, "one-%d.txt" % w.k)
    last = None
    for _ in range(4):
        if os.path.exists(one):
            os.unlink(one)
        rc, _out = run(w.cmd + ["--only", str(only)], hang_s)
        text = read(one)
        if rc is None:
            return text, "hang"
        if rc != 0:
            return text, "crash:%d" % rc
        last = text or last
    if what.startswith("crash"):
        # It did happen: the last call of that item stands for it.
        return last, what + " (in some executions)"
    return None


def sig_name(s):
    m = re.match(r"crash:-(\d+)", s)
    if m:
        try:
            return "killed by " + signal.Signals(int(m.group(1))).name
        except ValueError:
            pass
    return s


# ----------------------------------------------------------------------------- reporting
class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []
        self.known = []
        self.notes = []
        self.traces = 0
        self.trace_states = 0

    def violation(self, text, why):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s.ndjson" % (self.prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(text)
        for k in known_findings():
            if k[0] == self.prop and k[1] in text:
                self.known.append(k[2])
                return
        self.violations.append((path, why))


def known_findings():
    out = []
    for l in read(os.path.join(VERIF, "KNOWN_FINDINGS.txt")).splitlines():
        m = re.match(r"finding: property=(\w+) match=<<(.*?)>> (.*)", l)
        if m:
            out.append(m.groups())
    return out


def segment(path, line):
    """The part of a file of executions that ends with the given line (1-based)."""
    ls = read(path).splitlines(True)
    ls = ls[:line]
    k = len(ls) - 1
    group = any('"sig":"g"' in x or '"sig":"config"' in x for x in ls[-8:])
    stop = ('{"e":"forget"',) if group else ('{"e":"new"',)
    while k > 0 and not ls[k].startswith(stop):
        k -= 1
    return "".join(ls[k:])


def judge_all(rep, items, work):
    """items: (path, flagged?, name). Judge with TLC, several at a time."""
    res = []
    lock = threading.Lock()
    sem = threading.Semaphore(NCPU)

    def one(path, flagged, name):
        with sem:
            if os.path.getsize(path) == 0:
                return
            try:
                v = judge(path, rep.prop, work)
                with lock:
                    res.append((path, flagged, name, v))
            except ToolError as e:
                with lock:
                    res.append((path, flagged, name, e))

    ts = [threading.Thread(target=one, args=i) for i in items]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    err = None
    for path, flagged, name, v in sorted(res, key=lambda x: x[0]):
        if isinstance(v, ToolError):
            err = v
            continue
        n = sum(1 for l in open(path) if l.startswith('{"e":"call"'))
        rep.traces += n
        rep.trace_states += v.states
        if not v.ok:
            text = read(path) if flagged else segment(path, v.line)
            rep.violation(text, "line %d (%s) is not a step of the specification; broken: %s" %
                          (v.line, v.event, v.broken or "no action"))
        elif flagged:
            rep.notes.append("flagged by the harness (%s) but a behaviour of the specification: %s" % (name, path))
            log("note:", rep.notes[-1])
    if err and not rep.violations:
        raise err


# ----------------------------------------------------------------------------- feature configurations
def configurations(rep, bins, work, seed, n):
    """Same corpus in every configuration, same outcomes."""
    procs = []
    for name, b in bins.items():
        parts = 4
        for k in range(parts):
            o = os.path.join(work, "corpus-%s-%d" % (name, k))
            p = spawn([b, "corpus", "--seed", str(seed), "--from", str(k * n // parts), "--to",
                       str((k + 1) * n // parts), "--out", o, "--hb", o + ".hb"],
                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work)
            procs.append((name, b, o, p))
    end = time.time() + 600
    table, compared = {}, 0
    for name, b, o, p in procs:
        try:
            p.wait(timeout=max(1, end - time.time()))
            bad = None if p.returncode == 0 else "crash:%d" % p.returncode
        except subprocess.TimeoutExpired:
            kill(p)
            bad = "hang"
        LIVE.discard(p)
        if bad:
            item = read(o + ".hb", "0") or "0"
            _, text = run([b, "text", "--seed", str(seed), "--item", item], 60)
            head(rep, b, text, bad + " in configuration " + name, work)
            continue
        for l in read(o).splitlines():
            i, op, dig, broken = l.split()
            table.setdefault(int(i), {})[name] = (dig, int(broken))
    flagged = []
    for i in sorted(table):
        row = table[i]
        names = sorted(row)
        compared += len(names) - 1
        sus = [x for x in names if row[x][1] != 0]
        other = [x for x in names if row[x][0] != row[names[0]][0]]
        if (sus or other) and len(flagged) < 4:
            text = ""
            for x in [names[0]] + (other or sus)[:1]:
                _, t = run([bins[x], "dump", "--seed", str(seed), "--item", str(i)], 60)
                text += t
            path = os.path.join(work, "config-%d.ndjson" % i)
            with open(path, "w") as f:
                f.write(text)
            flagged.append((path, True, "configurations %s/%s" % (names[0], (other or sus)[0])))
    return flagged, len(table), compared


def head(rep, binary, text, what, work):
    """An execution that did not come back, as a trace."""
    f = os.path.join(work, "head.txt")
    with open(f, "w") as g:
        g.write(text or "op=rev form=nat")
    rc, t = run([binary, "head", "--file", f], 60)
    ev = "hang" if "hang" in what else "crash"
    t = (t if rc == 0 else "") + json.dumps({"e": ev, "what": sig_name(what), "case": text}) + "\n"
    p = os.path.join(work, "abnormal-%d.ndjson" % time.time_ns())
    with open(p, "w") as g:
        g.write(t)
    v = judge(p, rep.prop, work)
    if not v.ok:
        rep.violation(t, "the operation did not come back: " + sig_name(what))


# ----------------------------------------------------------------------------- main
def check(prop, tier, seed, secs):
    work = os.path.join(VERIF, "work", "%s-%s" % (prop, tier))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep = Report(prop, tier, seed)
    res = {"states": 0, "transitions": 0, "models": [], "scen": set(), "failed": []}
    names = ["rel", "dbg"] + ([n for n in BUILDS if n not in ("rel", "dbg")] if prop == "C22" else [])
    built = {}
    ts = models(prop, tier, work, res)
    bt = []

    def b(n):
        try:
            built[n] = build(n)
        except ToolError as e:
            built[n] = (False, str(e))

    for n in names:
        t = threading.Thread(target=b, args=(n,))
        t.start()
        bt.append(t)
    for t in bt:
        t.join()
    for t in ts:
        t.join()
    log("built:", ", ".join(n for n in names if built[n][0]), "| models:",
        ", ".join("%s %s" % (m["module"], m["states"] or "every length") for m in res["models"]))
    for m, rc, out in res["failed"]:
        raise ToolError("model %s: rc %s\n%s" % (m, rc, out))
    bad = [n for n in names if built[n][0] is None]
    if any(built[n][0] is False for n in names):
        raise ToolError(str(built))
    if bad:
        if prop != "C22" or "rel" in bad and not any(built[n][0] for n in names):
            raise ToolError("does not build: %s\n%s" % (bad, built[bad[0]][1][-3000:]))
        for n in bad:
            t = json.dumps({"e": "build", "configuration": n, "what": built[n][1][-1500:]}) + "\n"
            p = os.path.join(work, "build-%s.ndjson" % n)
            with open(p, "w") as f:
                f.write(t)
            if not judge(p, prop, work).ok:
                rep.violation(t, "configuration %s does not build" % n)

    scen = os.path.join(work, "scenarios.txt")
    with open(scen, "w") as f:
        f.write("".join(s + "\n" for s in sorted(res["scen"])))
    hang_s = 80 if tier == "quick" else 200
    samples = 40_000 if tier == "quick" else 400_000
    ws = []
    half = NCPU // 2
    if built["rel"][0]:
        ws += campaign(prop, tier, seed, built["rel"][0], os.path.join(work, "rel"), secs, scen, half, NCPU, 0, samples, hang_s)
    if built["dbg"][0]:
        ws += campaign(prop, tier, seed, built["dbg"][0], os.path.join(work, "dbg"), secs, scen, NCPU - half, NCPU, half, samples, hang_s)
    watch(ws, hang_s)
    items = []
    tot = {"evals": 0, "distinct": 0, "callbacks": 0, "samples": 0, "entailed": 0, "refuted": 0}
    kinds, worst = {}, {}
    abnormal = 0
    for w in ws:
        if w.end != "ok":
            log("worker %d ended: %s" % (w.k, w.end))
            if abnormal < 2:
                abnormal += 1
                if w.end == "crash:3":
                    raise ToolError("harness: " + read(os.path.join(w.out, "log-%d" % w.k))[-2000:])
                r = locate(w, hang_s)
                if r is None:
                    rep.notes.append("worker stalled once, not again: " + w.end)
                else:
                    abnormal = 2
                    head(rep, w.binary, r[0], r[1], work)
            continue
        for l in read(os.path.join(w.out, "log-%d" % w.k)).splitlines():
            if l.startswith("slow:"):
                log("worker %d: %s" % (w.k, l[:200]))
        s = json.loads(read(os.path.join(w.out, "sum-%d.json" % w.k)))
        for k in tot:
            tot[k] += s[k]
        for k, v in s["kinds"].items():
            kinds[k] = kinds.get(k, 0) + v
        for k, v in s["worst"].items():
            worst[k] = max(worst.get(k, 0), v)
        for f in s["flagged"]:
            path, name = f.split(" ", 1)
            log("flagged:", name, path)
            items.append((path, True, name))
        items.append((os.path.join(w.out, "sample-%d.ndjson" % w.k), False, "sample"))
    cfg_cases = compared = 0
    if prop == "C22":
        bins = {n: built[n][0] for n in names if built[n][0]}
        fl, cfg_cases, compared = configurations(rep, bins, work, seed, 6000 if tier == "quick" else 40000)
        items += fl
    log("executed %d calls (%d callbacks); judging %d trace files" % (tot["evals"], tot["callbacks"], len(items)))
    # at most a few flagged traces need the verdict
    fl = [i for i in items if i[1]]
    fl = sorted(fl, key=lambda i: os.path.getsize(i[0]))[:6]
    judge_all(rep, fl + [i for i in items if not i[1]], work)
    sample = []
    for i in items:
        if not i[1]:
            for l in read(i[0]).splitlines():
                if l.startswith('{"e":"call"'):
                    sample.append(json.loads(l))
                    break
        if len(sample) >= 3:
            break
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": res["states"] + rep.trace_states,
            "transitions": res["transitions"] + rep.trace_states,
            "traces_validated_against_impl": rep.traces,
            "samples": sample or [{"none": True}],
            "evaluations": tot["evals"],
            "distinct_nontrivial": tot["distinct"],
            "rule": RULE.get(prop, "") + " Non-trivial: more than one element and at least one callback or result.",
            "callbacks_observed": tot["callbacks"],
            "models": res["models"], "scenarios_from_models": len(res["scen"]),
            "outcomes_entailed_by_answers": tot["entailed"], "orders_refuted_and_rerun": tot["refuted"],
            "calls_by_kind": kinds, "worst_measured": worst,
            "configurations_compared": compared, "configuration_cases": cfg_cases,
            "notes": rep.notes,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1),
        "violations": len(rep.violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(rep.known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for path, why in rep.violations[:3]:
        print("VIOLATION property=%s replay=%s  (%s)" % (prop, path, why))
    log("done: %d violations, %d traces validated" % (len(rep.violations), rep.traces))
    shutil.rmtree(work, ignore_errors=True)
    return 1 if rep.violations else 0


def replay(path, prop):
    work = os.path.join(VERIF, "work", "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    v = judge(os.path.abspath(path), prop, work)
    print("recorded trace:", "accepted" if v.ok else "rejected at line %d (%s) %s" % (v.line, v.event, v.broken))
    b, out = build("rel")
    for l in read(path).splitlines():
        e = json.loads(l)
        c = e.get("case")
        if c:
            f = os.path.join(work, "case.txt")
            with open(f, "w") as g:
                g.write(c)
            rc, t = run([b, "case", "--file", f], 120)
            if rc != 0:
                print("again:", "did not finish" if rc is None else "exit %s" % rc)
                continue
            p = os.path.join(work, "again.ndjson")
            with open(p, "w") as g:
                g.write(t)
            x = judge(p, prop, work)
            print("again:", c[:160], "->", "accepted" if x.ok else "rejected %s" % x.broken)
    shutil.rmtree(work, ignore_errors=True)
    return 0 if v.ok else 1


def setup():
    work = os.path.join(VERIF, "work", "setup")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for n in ("rel", "dbg"):
        b, out = build(n)
        if not b:
            print(out)
            return 2
    import selftest
    bad = selftest.main(judge, tlc, work, os.path.join(HARN, "target-rel", "release", "slicev"), run)
    shutil.rmtree(work, ignore_errors=True)
    return 2 if bad else 0


def main():
    a = sys.argv[1:]
    opt = {}
    pos = []
    i = 0
    while i < len(a):
        if a[i] == "--setup":
            opt["setup"] = True
            i += 1
        elif a[i].startswith("--"):
            opt[a[i][2:]] = a[i + 1]
            i += 2
        else:
            pos.append(a[i])
            i += 1
    try:
        if "setup" in opt:
            return setup()
        if "replay" in opt:
            return replay(opt["replay"], opt["prop"])
        tier = opt.get("tier", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        secs = int(opt.get("secs", 30 if tier == "quick" else 600))
        return check(pos[0], tier, seed, secs)
    except ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        return 2
    finally:
        for p in list(LIVE):
            kill(p)


if __name__ == "__main__":
    sys.exit(main())
