import sys, os, json, traceback
from multiprocessing import Pool
import load, entries, lin
prog = None
BOUND = None
def work(a):
    p, mode, secs = a
    try:
        ip, st, avs, res, status, dt = entries.run_entry(prog, p, mode, secs=secs, bound=BOUND)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return dict(p=p, status=f"CRASH {type(e).__name__}: {e} @ {tb[-1].name}:{tb[-1].lineno} < {tb[-2].name}:{tb[-2].lineno}", obl=[], unm={}, dt=0, rets=[], tr=0, steps=0)
    return dict(p=p, status=status, obl=[(o.kind, o.fn, o.callee, o.line, o.goal, o.ok, o.ctx, o.why) for o in ip.obl], unm=dict(ip.unmodelled), dt=dt, rets=[repr(v)[:300] for s, v in res], tr=ip.truncs, steps=ip.steps, lp=lin.stats["lp"])
if __name__ == "__main__":
    mode = "release"
    secs = 30
    a = sys.argv[1:]
    if "-d" in a:
        mode = "debug"; a.remove("-d")
    if "-b" in a:
        BOUND = 1 << 24; a.remove("-b")
    if "-t" in a:
        i = a.index("-t"); secs = int(a[i + 1]); del a[i:i + 2]
    prog = load.program("default")
    eps = entries.entry_points(prog)
    if a:
        eps = [p for p in eps if any(x in p for x in a)]
    out = []
    with Pool(8, maxtasksperchild=8) as pool:
        for r in pool.imap_unordered(work, [(p, mode, secs) for p in eps]):
            out.append(r)
    json.dump(out, open(f"/tmp/all-{mode}.json", "w"))
    from collections import Counter
    c = Counter()
    unm = Counter()
    for r in sorted(out, key=lambda r: r["p"]):
        bad = {(o[0], o[1], o[2], o[3], o[4]) for o in r["obl"] if not o[5]}
        st = r["status"].split()[0]
        c[st] += 1
        for k, v in r["unm"].items():
            unm[k] += 1
        if st != "ok" or bad or r["unm"]:
            print(f"{r['status']} {r['p']} {r['dt']:.1f}s obl={len(r['obl'])} bad={len(bad)} unm={len(r['unm'])} rets={len(r['rets'])}")
    print(c)
    for k, v in unm.most_common():
        print("UNM", v, k)
