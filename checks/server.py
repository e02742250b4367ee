"""S01: starting, serving, stopping (ServerStop.tla): TLC explores it, generates driver programs and accepts or rejects the recorded runs."""
def c(**k): return {**dict(Traced="FALSE", Workers=2, Conns=2, MaxOps=6, Keep="FALSE"), **k}
def judge(ctx, runs):
    rows = ["[workers |-> %d, evs |-> <<%s>>]" % (w, ", ".join('[o |-> "%s", c |-> %d, k |-> "%s", r |-> "%s"]' % (e["o"], e["c"], e["k"], e["r"]) for e in evs)) for w, evs in runs]
    data = "---- MODULE ServerStopData ----\nEXTENDS Sequences\nTraces == <<\n" + ",\n".join(rows) + "\n>>\n====\n"
    return {int(x) - 1 for x in ctx.tlc("ServerStop", c(Traced="TRUE", Conns=3, MaxOps=0), spec_formula="Spec", invariants=["AllOver", "Counted", "Open", "Accepted"], workers=8, files=[("ServerStopData.tla", data)], timeout=900)["gen"]}
def slow(ops):
    t, kind = 0, {}
    for o in ops:
        if o["o"] == "stop": break
        if o["o"] == "req": kind[o["c"]] = o["k"]
        if o["o"] == "read" and kind.get(o["c"]) in ("slow", "stream"): t += 150
    return t
def cases_of(ctx, gen):
    r, out = ctx.rng, []
    for g in gen:
        ops = [dict(o) for o in g["ops"]]
        if slow(ops) > 450: continue
        w = r.choice([1, 2, 2, 3])
        for o in ops:
            if r.random() < .3: o["us"] = r.choice([0, 20, 100, 300, 1000, 3000, r.randint(0, 5000)])
        out.append(dict(workers=w, ops=ops))
    # stops at any moment of the start, and of the stop itself
    def op(o, k="", c=0, **x): return dict(o=o, c=c, k=k, **x)
    for n in range(ctx.pick(120, 1200)):
        k = r.choice(["sync", "async", "destroy"]); w = r.choice([1, 2, 4, 8])
        ops = [op("start")]
        if r.random() < .3: ops.append(op("ready"))
        if r.random() < .4: ops.append(op("conn", c=1, us=r.randint(0, 400)))
        ops += [op("stop", k, us=r.choice([0, 0, r.randint(0, 300), r.randint(0, 3000)])), op("join"), op("again")]
        out.append(dict(workers=w, ops=ops))
    # descriptors run out and come back: everybody who waits is served
    for n in range(ctx.pick(40, 300)):
        w = r.choice([1, 2, 3]); ops = [op("start"), op("ready")]
        if r.random() < .5: ops += [op("conn", c=1), op("req", "fast", c=1), op("read", c=1)]
        ops += [op("starve")] + [op("conn", c=k, us=r.choice([0, 500, 3000])) for k in (2, 3)] + [op("req", r.choice(["fast", "slow"]), c=k) for k in (2, 3)]
        if r.random() < .3: ops += [op("stop", r.choice(["sync", "async", "destroy"]), us=r.randint(0, 60000))]
        ops += [op("feed", us=r.randint(0, 90000)), op("read", c=2), op("read", c=3), op("stop", "sync"), op("join"), op("again")]
        out.append(dict(workers=w, ops=ops))
    r.shuffle(out)
    return out
def s01(ctx):
    exe = ctx.build("server.cpp")
    ctx.tlc("ServerStop", c(MaxOps=ctx.pick(6, 8)), spec_formula="Spec", invariants=["AllOver", "Counted", "Open"], properties=["StopTerminates", "NoneCut"], workers=8, timeout=800)
    g = ctx.tlc("ServerStop", c(Conns=3, MaxOps=16, Keep="TRUE"), spec_formula="Spec", invariants=["AllOver", "Counted", "Open", "Emit"], workers=8, simulate=ctx.pick(4000, 30000), depth=120)["gen"]
    g = [x for x in {repr(x): x for x in g}.values() if sum(o["o"] == "conn" for o in x["ops"]) >= 1]
    g.sort(key=lambda x: repr(x)); ctx.rng.shuffle(g)
    cases = cases_of(ctx, g[:ctx.pick(400, 6000)])
    bad = attempt(ctx, exe, cases, 8)
    for _ in range(2):
        if not bad: break
        keys = sorted(bad)[:16]; bad = {keys[j]: w for j, w in attempt(ctx, exe, [cases[k] for k in keys], 2).items()}
    for j, why in bad.items(): ctx.mismatch(f"server:{j}", why[:700], cases[j])
    for x in cases[:3]: ctx.sample(str(x)[:300])
    ctx.notes.update(cases=len(cases))
def attempt(ctx, exe, cases, jobs):
    res = ctx.replay(exe, cases, jobs=jobs, timeout_case=45, chunk=max(1, min(20, len(cases) // jobs + 1)))
    bad, runs, at = {}, [], []
    for j, o in enumerate(res):
        if not o or "evs" not in o:
            if not (o and o.get("skipped")): bad[j] = f"no result: {str(o)[:300]}"
            continue
        runs.append((cases[j]["workers"], o["evs"])); at.append(j); ctx.traces += 1
    ok = judge(ctx, runs) if runs else set()
    for n, j in enumerate(at):
        if n not in ok: bad.setdefault(j, f"workers={cases[j]['workers']}: " + " ".join(f"{e['o']}/{e['c']}/{e['k']}={e['r']}" for e in runs[n][1]))
    return bad
