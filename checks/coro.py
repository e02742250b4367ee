"""Coroutines on the event loop: L01-L06 (Coro.tla): TLC explores all small programs; random programs run on the real loop, TLC accepts or rejects the recorded traces."""
import json
W = {  # what a body consists of: weights of statements
    "L01": dict(sleep=9, call=1, spawn=2, **{"for": 2}, any=2, **{"yield": 1}),
    "L02": dict(sleep=2, spawn=3, io=3, wake=2, spin=1.5, tick=1.5, call=1, many=.3, **{"yield": 4, "for": 1}),
    "L03": dict(sleep=4, any=5, call=2, throw=1.5, spawn=.7, io=1.5, wake=.7, all=1, drop=.3, **{"yield": 3, "for": .5}),
    "L04": dict(sleep=4, all=5, call=2, throw=1.5, spawn=.7, io=1.5, wake=.7, any=1, drop=.3, **{"yield": 3, "for": .5}),
    "L05": dict(sleep=1, call=6, throw=2, drop=2, spawn=2, any=.7, all=.7, many=.5, io=.7, **{"yield": 2}),
    "L06": dict(sleep=3, serial=7, call=1, throw=1.2, spawn=1.5, io=.7, wake=.5, **{"yield": 3}),
}
class Gen:
    def __init__(self, rng, pid, size):
        self.r, self.pid, self.w, self.t, self.left, self.sig = rng, pid, W[pid], [], size, 0
        self.early = rng.random() < .5
    def node(self, par, ps, kind=None, depth=0, serial=True, io=True):
        r = self.r; self.left -= 1
        n = dict(raw=False, par=par, ps=ps, kind=r.randrange(2) if kind is None else kind, body=[]); self.t.append(n); me = len(self.t)
        for i in range(1, r.choice([0, 1, 1, 2, 2, 3]) + 1 if par else r.choice([1, 2, 3, 4]) + 1):
            n["body"].append(self.stmt(me, i, depth, serial, io))
            if n["body"][-1]["k"] == "throw": break
        return me
    def raw(self, par, ps, kind, io):
        k = {2: "sleep", 3: "yield", 4: "io"}[kind]
        self.t.append(dict(raw=True, par=par, ps=ps, kind=kind, body=[self.leaf(k)])); return len(self.t)
    def leaf(self, k):
        r = self.r; n = 0
        if k == "sleep": n = r.randrange(0, 10)
        if k == "for": n = r.randrange(0, 4)
        if k in ("io", "spin", "tick"): self.sig += 1; n = self.sig
        if k == "wake": self.sig += 0; n = r.randint(1, max(1, self.sig + 1)); self.sig = max(self.sig, n)
        if k == "throw": n = r.randrange(100, 120)
        if k == "many": n = r.choice([1, 10, 100, 5000, 200000])
        return dict(k=k, n=n, cs=[], c=False)
    def stmt(self, me, i, depth, serial, io):
        r = self.r; w = dict(self.w)
        if self.left <= 0 or depth > 5:
            for k in ("call", "any", "all", "spawn", "drop", "serial"): w.pop(k, None)
        if not serial: w.pop("serial", None)
        if depth == 0: w["throw"] = w.get("throw", 0) / 4
        k = r.choices(list(w), list(w.values()))[0]
        if k in ("sleep", "for", "yield", "io", "spin", "tick", "wake", "throw", "many"): return self.leaf(k)
        s = dict(k=k, n=r.randrange(3), cs=[], c=r.random() < .7)
        d = depth + 1
        if k in ("call", "drop", "spawn"): s["cs"] = [self.node(me, i, 0 if k == "drop" else None, d if k != "spawn" else 1, serial or k == "spawn", io)]
        if k == "drop" or k == "spawn": s["c"] = False
        if k == "serial": s["cs"] = [self.node(me, i, 1, d, False, io)]
        if k in ("any", "all"):
            cnt = r.choice([2, 2, 2, 3, 3, 3, 4, 4, 6]) if k == "any" else r.choice([1, 2, 2, 2, 3, 3, 3, 4, 6])
            for _ in range(cnt):
                kind = r.choices([0, 1, 2] + ([3, 4] if cnt == 2 else []), [4, 2, 1] + ([1, .7 if io else 0] if cnt == 2 else []))[0]
                if cnt in (1, 4, 6): kind = 0
                s["cs"].append(self.node(me, i, kind, d, serial and k == "all", io) if kind < 2 else self.raw(me, i, kind, io))
        return s
def program(rng, pid, size, io=True):
    g = Gen(rng, pid, size)
    sync = rng.random() < .2
    roots = [g.node(0, 0, io=io)]
    while not sync and (g.left > 0 and rng.random() < .6 or len(roots) < (3 if pid == "L06" else 1)): roots.append(g.node(0, 0, io=io))
    if g.sig:      # whatever is still waited for is signalled at last
        def waker(par, ps):
            g.t.append(dict(raw=False, par=par, ps=ps, kind=1, body=[dict(k="sleep", n=rng.choice([3, 6, 10]), cs=[], c=False)] + [dict(k="wake", n=n, cs=[], c=False) for n in range(1, g.sig + 1)])); return len(g.t)
        if sync:
            b = g.t[0]["body"]
            # statements of the root refer to their children by position: put the waker first
            for x in g.t:
                if x["par"] == 1: x["ps"] += 1
            b.insert(0, dict(k="spawn", n=0, cs=[waker(1, 1)], c=False))
        else: roots.insert(rng.randrange(len(roots) + 1), waker(0, 0))
    return dict(sync=sync, roots=roots, t=g.t)
def bad_result(r):
    if r is None or r.get("skipped"): return None
    if "log" not in r: return f"harness result {str(r)[:200]}"
    if r["early"]: return "a sleep ended before its deadline"
    if r["pending"]: return "the loop returned while I/O was pending"
    if r["live"]: return f"{r['live']} values left alive"
    if r["fds"] > 1: return f"descriptors leaked: {r['fds']}"
    return None
def validate(ctx, progs, results):
    """indices of the traces TLC rejects (with the position reached)"""
    idx = [i for i, r in enumerate(results) if r and "log" in r]
    if not idx: return {}
    out = {}
    for k in range(0, len(idx), 400):
        part = idx[k:k + 400]
        tr = json.dumps([dict(prog=progs[i], log=results[i]["log"]) for i in part])
        g = ctx.tlc("Coro", dict(Mode='"trace"', Programs="{}"), init="TraceInit", invariants=["Far", "Accept"], post="Report", workers=1, files=[("traces.json", tr)], timeout=800)["gen"]
        for b in g: out[part[b["bad"] - 1]] = b["at"]
    return out
def trun(ctx, pid, progs, unit, label):
    res = ctx.replay(ctx.exe, [dict(prog=p, unit=unit) for p in progs], jobs=6, timeout_case=12)
    bad = {i: w for i, r in enumerate(res) for w in [bad_result(r)] if w}
    rej = validate(ctx, progs, res)
    for i, at in rej.items(): bad.setdefault(i, f"trace rejected at event {at}: {json.dumps(res[i]['log'][at - 1]) if at <= len(res[i]['log']) else 'end'}"[:220])
    if bad:
        again = sorted(bad)[:10]
        r2 = ctx.replay(ctx.exe, [dict(prog=progs[i], unit=unit) for i in again], jobs=2, timeout_case=12)
        rej2 = validate(ctx, [progs[i] for i in again], r2)
        for n, i in enumerate(again):
            w = bad_result(r2[n])
            if not w and n in rej2: w = f"trace rejected at event {rej2[n]}: {json.dumps(r2[n]['log'][rej2[n] - 1]) if rej2[n] <= len(r2[n]['log']) else 'end'}"[:220]
            if w: ctx.mismatch(f"{pid}:{label}:{w.split(':')[0]}", w, dict(prog=progs[i], unit=unit, log=(r2[n] or {}).get("log")))
    ctx.traces += len(progs); ctx.sample(progs[len(progs) // 2])
    return res
def check(pid, models):
    def f(ctx):
        ctx.exe = ctx.build("coro.cpp")
        for m in models if ctx.quick else models + ["Deep"]:
            ctx.tlc("Coro", dict(Mode='"model"', Programs=f"<- {m}"), spec_formula="MSpec", invariants=["Inv"], properties=["Ends1", "TimerOrder", "YieldOrder"], workers=8, timeout=850)
        for size, n in ((4, 250), (9, 250), (16, 120)):
            trun(ctx, pid, [program(ctx.rng, pid, size) for _ in range(ctx.pick(n, n * 12))], 1 if size < 10 else 2, f"size {size}")
    return f
l01 = check("L01", ["Small"]); l02 = check("L02", ["Small"]); l03 = check("L03", ["Small"]); l04 = check("L04", ["Small"]); l05 = check("L05", ["Small"]); l06 = check("L06", ["Small"])
