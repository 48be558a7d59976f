"""Runs the abstract interpreter on every entry point."""
import sys, time, signal, os, json
import lin, vals, ir, load
from interp import Interp, Budget


class Timeout(Exception):
    pass


def entry_points(prog):
    r = []
    for p in prog.order:
        fn = prog.fns[p]
        if not fn.blocks or fn.kind not in ("Fn", "AssocFn"):
            continue
        if fn.unsafe:
            continue
        it = fn.d.get("impl_trait")
        if fn.pub or (it and not it.startswith("imageproc::")):
            r.append(p)
    return r


def run_entry(prog, p, mode="release", budget=400000, secs=60, setup=None, hooks=None, args=None, bound=None):
    fn = prog.fns[p]
    ip = Interp(prog, mode, budget)
    ip.entry = p
    ip.bound = bound
    if hooks:
        ip.hooks.update(hooks)
    st = vals.State()
    avs = []
    for i in range(fn.argc):
        rt = prog.rt(fn.locals[i + 1][0], None)
        nm = fn.locals[i + 1][1] if len(fn.locals[i + 1]) > 1 and fn.locals[i + 1][1] else f"a{i}"
        avs.append(ip.mk(st, rt, f"arg:{nm}"))
    if setup:
        setup(ip, st, avs)

    def onalarm(*_):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(secs)
    t0 = time.time()
    status, res = "ok", []
    try:
        res = ip.run_fn(fn, avs, st, "~", {}, 0)
    except Budget as e:
        status = f"budget {e}"
    except Timeout:
        status = "timeout"
    except RecursionError:
        status = "recursion"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ip, st, avs, res, status, time.time() - t0


if __name__ == "__main__":
    import traceback
    prog = load.program("default")
    mode = "release"
    args = sys.argv[1:]
    if args and args[0] == "-d":
        mode = "debug"
        args = args[1:]
    eps = entry_points(prog)
    bound = None
    if args and args[0] == "-b":
        bound = 1 << 24
        args = args[1:]
    if args:
        eps = [p for p in prog.order if any(p.endswith(a) or a == p for a in args)] 
    for p in eps:
        try:
            ip, st, avs, res, status, dt = run_entry(prog, p, mode, bound=bound)
        except Exception as e:
            print("CRASH", p, type(e).__name__, e)
            traceback.print_exc(limit=-6)
            continue
        bad = [o for o in ip.obl if not o.ok]
        print(f"{status:8s} {p} {dt:.1f}s steps={ip.steps} obl={len(ip.obl)} bad={len(bad)} rets={len(res)} unm={dict(ip.unmodelled)} tr={ip.truncs}")
        seen = set()
        for o in bad:
            k = repr(o)
            if k not in seen:
                seen.add(k)
                print("    ", o)
        if len(eps) == 1 or os.environ.get("RETS"):
            for s, v in res[:6]:
                print("   ->", v)
