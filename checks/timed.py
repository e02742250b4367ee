"""S02: limited reads and writes (Timed.tla): TLC explores it, generates programs with peer time lines and accepts or rejects the recorded runs."""
def c(**k): return {**dict(Traced="FALSE", MaxOps=2, MaxActs=2, MaxT=5, Lims="{0, 1, 2}", Keep="FALSE"), **k}
INV = ["Conserved", "InTime"]
TICK = 40
def judge(ctx, runs):
    rows = []
    for r in runs:
        ev = ", ".join('[e |-> "%s", k |-> "%s", r |-> "%s", lim |-> %d, n |-> %d, t |-> %d]' % (e["e"], e["k"], e["k"], e["lim"], e["n"], e["t"]) for e in r["evs"])
        rows.append("[late |-> %d, got |-> <<%s>>, evs |-> <<%s>>]" % (r["late"], ", ".join(map(str, r["got"])), ev))
    data = "---- MODULE TimedData ----\nEXTENDS Integers, Sequences\nTraces == <<\n" + ",\n".join(rows) + "\n>>\n====\n"
    g = ctx.tlc("Timed", c(Traced="TRUE", MaxOps=0, MaxActs=0, MaxT=0, Lims="{}"), spec_formula="Spec", invariants=["Conserved", "Accepted"], workers=8, files=[("TimedData.tla", data)], timeout=900)["gen"]
    return {int(x) - 1 for x in g}
def build_cases(ctx, gen):
    r, cases, i = ctx.rng, [], 0
    while i < len(gen):
        per = r.choice([1, 8, 24, 24])
        big = {1: 40, 2: 80, 3: 120}
        if r.random() < .12: big[r.randint(2, 3)] = r.choice([1000, 1100])
        streams = []
        for g in gen[i:i + per]:
            ops = [dict(k=o["k"], lim=big.get(o["lim"], 0), n=o["n"] if o["k"] == "send" else r.choice([o["n"], 1, 3, 64]), at=o["at"] * TICK) for o in g["ops"]]
            peer = [dict(a=p["a"], n=p["n"], at=int((p["at"] * TICK + r.choice([0, 0, TICK / 2, TICK / 2, r.uniform(0, TICK), -.2, .2, 1])) * 1000)) for p in g["peer"]]
            for p in peer: p["at"] = max(0, p["at"])
            peer.sort(key=lambda p: (p["a"] == "close", p["at"]))
            t = 0
            for p in peer: t = p["at"] = max(p["at"], t)
            streams.append(dict(ops=ops, peer=peer))
        i += per
        k = r.random()
        crowd = dict(idle=0, timed=0)
        if k < .12: crowd = dict(idle=r.choice([0, 1, 600, 1023, 1024, 1100]), timed=r.choice([0, 255, 511, 512, 600]))
        cases.append(dict(streams=streams, quiet=14 * TICK + (1300 if max(big.values()) >= 1000 else 0), timedLim=r.choice([40, 80, 120]), crowdFirst=r.random() < .5, **crowd))
    return cases
def s02(ctx):
    exe = ctx.build("timed.cpp")
    ctx.tlc("Timed", c(MaxOps=ctx.pick(2, 3), MaxActs=3, MaxT=ctx.pick(5, 6)), spec_formula="Spec", invariants=INV, properties=["Prompt", "LimitedEnds"], workers=8)
    g = ctx.tlc("Timed", c(MaxOps=4, MaxActs=4, MaxT=9, Lims="{0, 1, 2, 3}", Keep="TRUE"), spec_formula="Spec", invariants=INV + ["Emit"], workers=8, simulate=ctx.pick(1500, 12000), depth=80)["gen"]
    g = list({repr(x): x for x in g if len(x["ops"]) >= 2 and x["peer"]}.values()); ctx.rng.shuffle(g)
    cases = build_cases(ctx, g[:ctx.pick(3000, 20000)])
    bad = attempt(ctx, exe, cases, 6)
    for n in range(2):
        if not bad: break
        keys = sorted(bad)[:16]; again = [cases[j] for j in keys]
        bad = {keys[j]: w for j, w in attempt(ctx, exe, again, 2).items()}
    for j, why in bad.items(): ctx.mismatch("timed:" + ("crowd" if cases[j]["idle"] or cases[j]["timed"] else "streams") + f":{j}", why[:700], cases[j])
    for x in cases[:3]: ctx.sample(str(x["streams"][0])[:300])
    ctx.notes.update(cases=len(cases))
def attempt(ctx, exe, cases, jobs):
    res = ctx.replay(exe, cases, jobs=jobs, timeout_case=40, chunk=max(1, min(40, len(cases) // jobs + 1)))
    bad, runs, at = {}, [], []
    for j, o in enumerate(res):
        if not o or "traces" not in o:
            if not (o and o.get("skipped")): bad[j] = f"no result: {str(o)[:300]}"
            continue
        for x in o["traces"]:
            if x["bad"]: bad[j] = f"{x['name']}: {x['bad']}"
            runs.append(x); at.append((j, x)); ctx.traces += 1
    ok = judge(ctx, runs) if runs else set()
    for n, (j, x) in enumerate(at):
        if n not in ok: bad.setdefault(j, f"{x['name']} late={x['late']} got={x['got']}: " + " ".join(f"{e['t']}:{e['e']}/{e['k']}/{e['lim']}/{e['n']}" for e in x["evs"]))
    return bad
