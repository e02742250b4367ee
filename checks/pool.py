"""Thread pool and futures: T01-T03 (Pool.tla, PoolImpl.tla, FutureAwait.tla): TLC explores the algorithm; generated programs run on the
real pool under a controlled scheduler (virtual time), TLC accepts or rejects every recorded trace."""
import json
def program(r, pid):
    dyn = r.random() < {"T01": .35, "T02": .25, "T03": .75}[pid]
    lo = r.choice([1, 1, 2, 3]); hi = lo + r.choice([0, 1, 2, 5]) if dyn else r.choice([1, 1, 1, 2, 2, 3, 5])
    if not dyn: lo = hi
    want = []
    if dyn and r.random() < .7: want = [r.randint(lo, hi) for _ in range(r.randint(1, 8))]
    t, subs = [], []
    def task(p, o, depth):
        b = []; t.append(dict(p=p, o=o, body=b)); me = len(t)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = r.random()
            if k < .4: b.append(["step"])
            elif k < .65: b.append(["sleep", r.choice([1, 3, 50, 100, 150, 1000])])
            elif depth < 2 and len(t) < 12: j = task(0, r.choice("vxeu"), depth + 1); b.append(["add", j])
        return me
    meet = lo >= 2 and r.random() < .5         # task 1 goes on only when task 2 has begun
    if meet: task(0, r.choice("vxeu"), 2); task(0, r.choice("vxeu"), 2); t[0]["body"].append(["meet", 2])
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        s = []; subs.append(s); mine = []
        if meet and len(subs) == 1: s.append(["add", 1]); s.append(["add", 2]); mine.append(2)
        for _ in range(r.randint(1, 4 if pid != "T01" else 6)):
            k = r.random()
            if k < .5 or not mine: i = task(0, r.choice("vvxxeu"), 0); s.append(["add", i]); mine.append(i)
            elif k < .6: s.append([r.choice(["step", "sleep"]), r.choice([1, 20, 120, 400])])
            else:
                i = r.choice(mine); q = r.random()
                if q < .25: s.append(["wait", i])
                elif q < .5: s.append(["get", i]); mine.remove(i)
                elif q < .58: s.append(["drop", i]); mine.remove(i)
                else:
                    o = r.choice("vxewutf"); j = task(i, o, 1); s.append(["then", i, j]); mine.remove(i)
                    if o != "f": mine.append(j)
        if pid == "T03" and r.random() < .5: continue
        for i in mine:
            if r.random() < .7: s.append(["get", i])
    early = r.random() < {"T01": .1, "T02": .1, "T03": .5}[pid]
    if meet:
        early = False
        if r.random() < .5: subs[0].append(["get", 1])
    return dict(dyn=dyn, min=lo, max=hi, want=want, settle=not early, pause=r.choice([0, 0, 1, 100, 350]), t=t, subs=subs)
def bad_result(r):
    if r is None or r.get("skipped"): return None
    if "stuck" in r: return f"stuck: {r['stuck']} after {len(r['log'])} events"
    if "log" not in r: return f"harness result {str(r)[:200]}"
    if r["live"]: return f"{r['live']} values left alive"
    return None
def order(n, log):
    at = {k: {e["i"]: x for x, e in reversed(list(enumerate(log))) if e["e"] == k} for k in ("call", "acc", "beg")}
    d = [at["beg"].get(i, 10**6) for i in range(1, n + 1)]
    for i in sorted(at["acc"], key=lambda i: -at["acc"][i]):     # a task enqueued before others may have to be taken for them
        d[i - 1] = min([d[i - 1]] + [d[j - 1] for j in at["call"] if at["call"][j] > at["acc"][i]])
    return d
def validate(ctx, cases, results):
    out, seen = {}, {}
    for i, r in enumerate(results):
        if r and "log" in r and "stuck" not in r: seen.setdefault(json.dumps([cases[i]["prog"], r["log"]]), []).append(i)
    groups = list(seen.values())
    for k in range(0, len(groups), 500):
        part = groups[k:k + 500]
        tr = json.dumps([dict(prog=cases[g[0]]["prog"], log=results[g[0]]["log"], bp=order(len(cases[g[0]]["prog"]["t"]), results[g[0]]["log"])) for g in part])
        bad = ctx.tlc("Pool", dict(Mode='"trace"', Progs="{}"), init="TInit", next="TNext", invariants=["Far", "Accepted"], post="Report", workers=1, files=[("traces.json", tr)], timeout=800)["gen"]
        if bad:      # every order of what is not seen, before a trace counts as rejected
            part = [part[b["bad"] - 1] for b in bad][:12]; tr = json.dumps([dict(prog=cases[g[0]]["prog"], log=results[g[0]]["log"], bp=[]) for g in part])
            bad = ctx.tlc("Pool", dict(Mode='"search"', Progs="{}"), init="TInit", next="TNext", invariants=["Far", "Accepted"], post="Report", workers=1, files=[("traces.json", tr)], timeout=600)["gen"]
        for b in bad: out[part[b["bad"] - 1][0]] = b["at"]
    ctx.notes["distinct_traces"] = ctx.notes.get("distinct_traces", 0) + len(groups)
    return out
def run(ctx, pid, cases, label):
    res = ctx.replay(ctx.exe, cases, jobs=8, timeout_case=25)
    bad = {i: w for i, r in enumerate(res) for w in [bad_result(r)] if w}
    for i, at in validate(ctx, cases, res).items():
        l = res[i]["log"]; bad.setdefault(i, f"trace rejected at event {at}: {json.dumps(l[at - 1]) if at <= len(l) else 'end'}")
    for i, w in sorted(bad.items())[:20]: ctx.mismatch(f"{pid}:{label}:{w.split(':')[0]}", w[:250], dict(case=cases[i], result=res[i]))
    ctx.traces += len(cases); ctx.sample(cases[len(cases) // 2])
def awaits(r):
    i, co = 0, []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        a = []; co.append(a)
        for _ in range(r.choice([1, 2, 3, 5])):
            i += 1; lim = r.choice([0, 0, 0, 1, 2, 4]) if r.random() < .6 else 0
            a.append(dict(i=i, o=r.choice("vvxe"), limit=lim, us=r.choice([0, 0, 20, 300, 1500, 3000] if lim else [0, 0, 0, 20, 100, 800]), late=r.choice([0, 0, 0, 50, 400]), pre=r.choice([0, 0, 100, 700])))
    return dict(n=r.choice([1, 2, 2, 4]), delay=[r.choice([0, 0, 1, 3]) for _ in co], prog=dict(co=co, io=r.random() < .4))
def future(ctx, pid):
    """coroutines awaiting pool tasks: FutureAwait.tla explored, real runs checked against it"""
    ctx.tlc("FutureAwait", dict(Mode='"model"', Progs="<- Small", Late="TRUE"), spec_formula="MSpec", invariants=["Inv"], properties=["Ends"], workers=8)
    cases = [awaits(ctx.rng) for _ in range(ctx.pick(800, 12000))]; res = ctx.replay(ctx.build("await.cpp"), cases, jobs=8, timeout_case=25)
    for i, r in enumerate(res):
        if r and not r.get("skipped") and ("log" not in r or r["live"]): ctx.mismatch(f"{pid}:await:{'hang' if r.get('hang') else 'crash' if 'crash' in r else 'live'}", str({k: v for k, v in r.items() if k != 'log'})[:200], dict(case=cases[i], result=r))
    ok = [i for i, r in enumerate(res) if r and "log" in r]
    for k in range(0, len(ok), 1000):
        part = ok[k:k + 1000]; tr = json.dumps([dict(prog=cases[i]["prog"], log=res[i]["log"]) for i in part])
        for b in ctx.tlc("FutureAwait", dict(Mode='"trace"', Progs="{}", Late="TRUE"), init="TInit", next="TNext", invariants=["Far", "Accepted"], post="Report", workers=1, files=[("traces.json", tr)], timeout=600)["gen"]:
            i = part[b["bad"] - 1]; l = res[i]["log"]; e = l[b["at"] - 1] if b["at"] <= len(l) else "end"
            ctx.mismatch(f"{pid}:await:rejected {e['e'] if e != 'end' else e}", f"trace rejected at event {b['at']}: {json.dumps(e)}", dict(case=cases[i], result=res[i]))
    ctx.traces += len(cases); ctx.sample(cases[7])
def impl(ctx, **k):
    d = dict(Subs=2, PerSub=1, Min=1, Max=1, Dyn="FALSE", Locked="TRUE", Early="FALSE", Ticks=0, Meet="FALSE", Lazy="FALSE"); d.update(k)
    return ctx.tlc("PoolImpl", d, spec_formula="Spec", invariants=["Inv"], properties=["Once", "Runs", "Ends", "Refines"], workers=8, files=[], timeout=850, expect_ok=k.get("Locked") != "FALSE")
def check(pid):
    def f(ctx):
        ctx.exe = ctx.build("pool.cpp")
        ctx.tlc("Pool", dict(Mode='"model"', Progs="<- Small"), spec_formula="MSpec", invariants=["Inv"], properties=["OneByOne"], workers=8)
        if pid == "T03":
            impl(ctx, Min=2, Max=2, Early="TRUE"); impl(ctx, Subs=1, PerSub=1, Dyn="TRUE", Max=2, Ticks=2, Early="TRUE")
            if not ctx.quick: impl(ctx, Subs=2, PerSub=1, Dyn="TRUE", Max=2, Ticks=2, Early="TRUE"); impl(ctx, Subs=1, PerSub=2, Dyn="TRUE", Max=3, Ticks=3, Early="TRUE")
        else:
            impl(ctx, Subs=1, PerSub=3); impl(ctx, Min=2, Max=2, Meet="TRUE"); impl(ctx, Subs=1, PerSub=1, Dyn="TRUE", Max=2, Ticks=1)
            if not ctx.quick: impl(ctx, Subs=2, PerSub=2, Min=2, Max=2); impl(ctx, Dyn="TRUE", Max=2, Ticks=2)
        if pid == "T02": future(ctx, pid)
        n = ctx.pick(220, 2500); cases = []
        for _ in range(n):
            p = program(ctx.rng, pid)
            for _ in range(5): cases.append(dict(seed=ctx.rng.randrange(1, 1 << 40), stay=ctx.rng.choice([0, 20, 50, 80, 95]), drift=ctx.rng.choice([0, 0, 2, 10]), prog=p))
        if pid == "T03":    # pools destroyed while their workers are about to wait, or are being reduced
            for _ in range(ctx.pick(60, 600)):
                p = program(ctx.rng, pid); p.update(settle=False, pause=0 if not p["dyn"] else ctx.rng.choice([0, 100, 200])); p["subs"] = p["subs"][:1]; p["subs"][0] = [o for o in p["subs"][0] if o[0] == "add"][:ctx.rng.choice([0, 1, 1, 2])]
                for x in p["t"]: x["body"] = [o for o in x["body"] if o[0] != "meet"]
                if p["dyn"]: p["want"] = [p["max"], p["min"]] * 4
                for _ in range(6): cases.append(dict(seed=ctx.rng.randrange(1, 1 << 40), stay=ctx.rng.choice([0, 20, 50, 80, 95]), drift=ctx.rng.choice([0, 2, 10]), prog=p))
        run(ctx, pid, cases, "pool")
    return f
t01, t02, t03 = check("T01"), check("T02"), check("T03")
