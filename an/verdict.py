"""Runs the abstract interpreter over entry points, in parallel and incrementally, and turns failed obligations into
verdicts against the reviewed baseline (an/baseline.json).

A job is (entry, mode, tier, variant): mode "release" (overflow wraps) or "debug" (overflow panics), tier "full" (every
value of the parameter types) or "bounded" (integer parameters up to 2^24 in magnitude), variant "" or the name of a
specification in specs.py (precondition to assume, postcondition to prove).

Results are kept in .cache/runs under a hash of everything they depend on (engine, type table, bodies of all functions
reachable from the entry), so an unchanged entry is not analysed twice.
"""
import hashlib, json, os, re, sys, time, traceback, signal
from multiprocessing import get_context
import load, entries, lin
from graph import uses, target

HERE = os.path.dirname(os.path.abspath(__file__))
RUNS = os.path.join(load.CACHE, "runs")
BASE = os.path.join(HERE, "baseline.json")
ENGINE = ("lin.py", "lp.cpp", "ir.py", "vals.py", "interp.py", "models.py", "models_std.py", "invariants.py", "entries.py", "specs.py", "graph.py", "loops.py", "verdict.py")
KNOWN = os.path.join(HERE, "reviewed_fns.json")  # functions of the reviewed tree
BOUND = 1 << 24
prog = None
SPECS = {}


def engine_hash():
    h = hashlib.sha256()
    for f in ENGINE:
        h.update(open(os.path.join(HERE, f), "rb").read().split(b"# " + b"-" * 64 + b" sites")[0])
    return h.hexdigest()


# ---------------------------------------------------------------- dependency hashes
class Deps:
    def __init__(self, prog):
        self.prog = prog
        self.fh = {}
        self.out = {}
        self.base = hashlib.sha256((engine_hash() + prog.adts_text).encode()).hexdigest()
        self.byclo = {}
        for p in prog.order:
            q = re.sub(r"::\{closure#\d+\}.*|::\{promoted.*", "", p)
            if q != p:
                self.byclo.setdefault(q, []).append(p)

    def hash1(self, p):
        if p not in self.fh:
            d = self.prog.fns[p].d
            self.fh[p] = hashlib.sha256(d.get("%text", repr(d)).encode()).hexdigest()
        return self.fh[p]

    def outs(self, p):
        if p in self.out:
            return self.out[p]
        r = set()
        fn = self.prog.fns[p]
        for bi, how, d, x in uses(fn):
            for q in {d["p"], target(d)}:
                if q in self.prog.fns:
                    r.add(q)
            if "trait" in d:
                for f in self.prog.impls.get((d["trait"], d["p"].split("::")[-1]), ()):
                    r.add(f.p)
        r.update(self.byclo.get(p, ()))
        self.out[p] = r
        return r

    def reach(self, p):
        seen = {p}
        st = [p]
        while st:
            for q in self.outs(st.pop()):
                if q not in seen:
                    seen.add(q)
                    st.append(q)
        return seen

    def key(self, p, extra):
        h = hashlib.sha256((self.base + repr(extra)).encode())
        for q in sorted(self.reach(p)):
            h.update((q + self.hash1(q)).encode())
        return h.hexdigest()[:40]


# ---------------------------------------------------------------- running
def work(job):
    (p, mode, tier, var), secs, k = job
    import interp
    if k:
        interp.K = k
        import vals
    spec = SPECS.get((p, var)) if var else None
    res = dict(p=p, mode=mode, tier=tier, var=var, obl=[], post=[], unm=[], rets=0, dt=0.0, steps=0, missing=[])
    t0 = time.time()
    try:
        kw = {}
        if spec and spec.get("setup"):
            kw["setup"] = spec["setup"]
        if spec and spec.get("hooks"):
            kw["hooks"] = spec["hooks"]
        ip, st, avs, rs, status, dt = entries.run_entry(prog, p, mode, secs=secs, budget=4000000, bound=BOUND if tier == "bounded" else None, **kw)
        res["status"] = status
        if status == "ok":
            def onalarm(*_):
                raise entries.Timeout()
            signal.signal(signal.SIGALRM, onalarm)
            signal.alarm(max(5, secs))
            try:
                import invariants
                for s, v in rs:
                    invariants.check_exit(ip, s, p, avs)
                import specs
                if spec:
                    res["post"] = spec["post"](ip, st, avs, rs)
                else:
                    res["post"] = specs.default_post(ip, st, avs, rs, p)
            except entries.Timeout:
                res["status"] = "timeout"
            finally:
                signal.alarm(0)
        res["rets"] = len(rs)
        res["obl"] = [[o.kind, o.fn, o.callee, o.line, o.goal[:400], bool(o.ok), list(o.ctx)] for o in ip.obl]
        res["unm"] = sorted(ip.unmodelled)
        res["steps"] = ip.steps
        res["missing"] = sorted(getattr(ip, "missing", ()))
        res["lp"] = lin.stats["lp"]
        res["fns"] = len(ip.analysed)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res["status"] = f"crash {type(e).__name__}: {e} @ " + " < ".join(f"{t.name}:{t.lineno}" for t in reversed(tb[-3:]))
    res["dt"] = round(time.time() - t0, 2)
    return job, res


def run_jobs(jobs, times=None, secs=60, deadline=None, fresh=False, verbose=False, k=None, procs=8):
    """jobs: list of (p, mode, tier, var); returns {job: result}; jobs that could not be finished have status 'timeout'"""
    global prog
    if prog is None:
        prog = load.program("default")
    import specs
    SPECS.update(specs.build(prog))
    os.makedirs(RUNS, exist_ok=True)
    deps = Deps(prog)
    out, todo = {}, []
    for j in jobs:
        p = j[0]
        if p not in prog.fns:
            continue
        f = os.path.join(RUNS, deps.key(p, (j[1:], k)) + ".json")
        if not fresh and os.path.exists(f):
            try:
                out[j] = json.load(open(f))
                out[j]["cached"] = True
                continue
            except ValueError:
                pass
        todo.append((j, f))
    times = times or {}
    todo.sort(key=lambda a: -times.get(a[0], 5))
    fn = dict(todo)
    t0 = time.time()
    if todo:
        from concurrent.futures import ThreadPoolExecutor
        lin.warm() if hasattr(lin, "warm") else None
        ctx = get_context("fork")
        pool = ctx.Pool(min(procs, len(todo)), maxtasksperchild=1)
        try:
            it = pool.imap_unordered(work, [(j, secs, k) for j, _ in todo])
            for _ in todo:
                try:
                    left = None if deadline is None else max(0.1, deadline - time.time())
                    (j, _, _), r = it.next(left)
                except Exception:
                    break
                out[j] = r
                if r["status"] != "timeout":
                    tmp = fn[j] + f".{os.getpid()}"
                    json.dump(r, open(tmp, "w"))
                    os.rename(tmp, fn[j])
                if verbose:
                    print(r["status"], j, r["dt"], sum(not o[5] for o in r["obl"]), flush=True)
        finally:
            pool.terminate()
            pool.join()
    for j, _ in todo:
        if j not in out:
            out[j] = dict(p=j[0], mode=j[1], tier=j[2], var=j[3], obl=[], post=[], unm=[], rets=0, dt=0, steps=0, status="timeout", missing=[])
    return out


# ---------------------------------------------------------------- sites
_GEN = re.compile(r"::\{closure#\d+\}|::\{impl#\d+\}|#\d+")


def norm(fn):
    return _GEN.sub("", fn)


def sites(r, kinds):
    """failed obligations by site: {(kind, fn, callee): {lines}} and a representative record"""
    res, rec = {}, {}
    for o in r["obl"]:
        if o[5] or o[0] not in kinds:
            continue
        key = (o[0], norm(o[1]), o[2])
        res.setdefault(key, set()).add((o[1], o[3]))
        rec.setdefault(key, []).append(o)
    return res, rec


def jobkey(j):
    return "|".join(x or "" for x in j)


def baseline():
    return json.load(open(BASE)) if os.path.exists(BASE) else {}


def base_entry(r):
    bad = {}
    for o in r["obl"]:
        if not o[5]:
            k = (o[0], norm(o[1]), o[2])
            bad.setdefault(k, [set(), o[4][:160]])[0].add((o[1], o[3]))
    return dict(status=r["status"].split()[0], dt=r["dt"], n=len(r["obl"]), unm=r["unm"], rets=r["rets"],
                bad=sorted([list(k) + [len(v[0]), v[1]] for k, v in bad.items()]),
                kinds=sorted({o[0] for o in r["obl"]}),
                post=[[x[0], bool(x[1])] for x in r["post"]])


def excluded(bent, kinds):
    return {(b[0], b[1], b[2]): b[3] for b in bent["bad"] if b[0] in kinds}


def entry_list(prog):
    """public functions, and the private ones that modular analyses treat as opaque"""
    import specs
    eps = entries.entry_points(prog)
    own = {"imageproc::" + n for v in specs.MODULAR.values() for n in v}
    return eps + sorted(n for n in own if n in prog.fns and n not in set(eps) and n.replace("imageproc::", "", 1) not in specs.REQUIRES)


def best(p, kinds, base, mode="release"):
    """the job that decides most: fewest undecided sites, then speed, then the widest parameter range with everything inlined"""
    js = []
    for rank, (t, v) in enumerate((("full", ""), ("full", "modular"), ("bounded", ""))):
        b = base.get(jobkey((p, mode, t, v)))
        if b and b["status"] == "ok":
            js.append(((len(excluded(b, kinds)), b["dt"] > 25, rank), (p, mode, t, v)))
    if js:
        return min(js)[1]
    return (p, mode, "full", "") if any(jobkey((p, mode, t, v)) in base for t in ("full", "bounded") for v in ("", "modular")) else None


# trait methods of the crate that produce pixels or samples only: nothing that is decided here depends on their results
PIXELCALLS = {"imageproc::definitions::" + x for x in ("HasBlack::black", "HasWhite::white", "Clamp::clamp")}


def judge(ctx, jobs, kinds, floors=None, msg=None, secs=60, limit=800, retry=True, filt=None, posts=False):
    """Runs the jobs and decides every obligation of the given kinds. Jobs must be in the baseline with status ok."""
    base = baseline()
    known = set(json.load(open(KNOWN)))
    t0 = time.time()
    deadline = t0 + limit
    times = {tuple(j): base[jobkey(j)]["dt"] for j in jobs if jobkey(j) in base}
    js = [j for j in jobs if base.get(jobkey(j), {}).get("status") == "ok"]
    skipped = [j for j in jobs if j not in js]
    out = run_jobs(js, times, secs=secs, deadline=deadline)
    gone = known - {norm(f) for f in prog.fns}
    fails = []
    undecided = []
    decided = 0
    fns = set()
    excl = {}
    ncached = 0
    for j in js:
        r = out.get(j)
        if r is None:
            undecided.append([jobkey(j), "entry not found in the current tree"])
            continue
        ncached += bool(r.get("cached"))
        b = base[jobkey(j)]
        if r["status"] != "ok":
            undecided.append([jobkey(j), r["status"][:200]])
            continue
        new = sorted(set(r["unm"]) - set(b["unm"]) - PIXELCALLS)
        ex = excluded(b, kinds)
        res, rec = sites(r, kinds)
        bad = []
        okposts = []
        if posts:
            fb = {}
            for x in b["post"]:
                fb[x[0]] = fb.get(x[0], True) and x[1]
            for label, good, detail in r["post"]:
                if good:
                    okposts.append(label)
                elif fb.get(label, True):
                    bad.append(["post", j[0], label, 0, detail, False, []])
            for label in sorted({x[0] for x in r["post"] if not fb.get(x[0], True)}):
                excl.setdefault(("post", j[0], label), set()).add(j[0])
        for key, lines in res.items():
            recs = rec[key]
            lim = ex.get(key)
            if lim is not None:
                if len(lines) <= lim:
                    excl.setdefault(key, set()).add(j[0])
                    continue
            else:
                # the site may have moved into a new helper called from the excluded function
                def moved(o):
                    cx = {norm(x) for x in o[6]}
                    return any(k[0] == o[0] and (k[1] in gone or k[1] in cx and norm(o[1]) not in known) for k in ex)
                recs = [o for o in recs if not moved(o)]
                if not recs:
                    excl.setdefault(key, set()).add(j[0])
                    continue
            if filt:
                recs = [o for o in recs if filt(j, o)]
            bad += recs
        if bad and (new or r["missing"]):
            undecided.append([jobkey(j), f"{len(bad)} obligations fail, but the analysis has no model for {', '.join(new + r['missing'])[:200]}"])
            continue
        ok = [o for o in r["obl"] if o[0] in kinds and o[5]]
        decided += 1
        fns.update(o[1] for o in ok)
        for o in ok + okposts:
            ctx.decide(True, "", "")
        if okposts and len(ctx.samples) < 12:
            ctx.samples.append({"entry": j[0], "specification": j[3] or okposts[0], "proved": okposts[0], "on_returns": r["rets"]})
        if len(ctx.samples) < 12 and ok:
            ctx.samples.append({"entry": j[0], "function": ok[0][1], "line": ok[0][3], "kind": ok[0][0], "proved": ok[0][4][:200]})
        if bad:
            fails.append((j, bad))
    if fails and retry:
        # failed obligations are retried with more disjuncts before they are believed
        left = deadline + 60 - time.time()
        if left > 30:
            out2 = run_jobs([j for j, _ in fails], times, secs=max(secs, 100), deadline=deadline + 60, k=24)
            f2 = []
            for j, bad in fails:
                r = out2.get(j)
                if r and r["status"] == "ok":
                    okl = {(o[0], norm(o[1]), o[2]) for o in r["obl"] if not o[5]} | {("post", norm(j[0]), x[0]) for x in r["post"] if not x[1]}
                    bad = [o for o in bad if (o[0], norm(o[1]), o[2]) in okl]
                if bad:
                    f2.append((j, bad))
            fails = f2
    for j, bad in fails:
        seen = set()
        for o in bad:
            key = f"{o[0]}:{norm(o[1])}:{o[2]}"
            if key in seen:
                continue
            seen.add(key)
            if o[0] == "post":
                ctx.decide(False, f"{j[0]}:{j[3] or o[2]}", f"{j[0]}: {j[3] + ': ' if j[3] else ''}{o[2]}: cannot be shown to hold on every path: {o[4][:300]}",
                           {"entry": j[0], "specification": j[3] or o[2], "unproved": o[2], "detail": o[4]})
                continue
            ctx.decide(False, key, f"{o[1]} line {o[3]}: {o[2]}: cannot be shown to hold on every call of {j[0]} ({j[1]}, {j[2]} parameter range): {o[4][:300]}",
                       {"entry": j[0], "function": o[1], "line": o[3], "callee": o[2], "kind": o[0], "unproved": o[4], "call_path": o[6]})
    for a, b in undecided:
        ctx.excluded.append({"what": a, "why": b})
    for j in skipped:
        ctx.excluded.append({"what": jobkey(j), "why": base.get(jobkey(j), {}).get("status", "not reviewed") + " on the reviewed tree"})
    for (k, f, c), es in sorted(excl.items()):
        ctx.excluded.append({"what": f"{k} {f} {c}", "why": "not decided on the reviewed tree", "entries": len(es)})
    ctx.cov.setdefault("entries", {}).update({"analysed": decided, "not_decided": len(undecided), "skipped": len(skipped), "from_incremental_cache": ncached})
    ctx.cov["functions_with_discharged_obligations"] = len(fns)
    ctx.floor("entry points decided or undecided with a reason", decided + len(undecided), floors or 1)
    return out


if __name__ == "__main__":
    a = sys.argv[1:]
    mode = "debug" if "-d" in a else "release"
