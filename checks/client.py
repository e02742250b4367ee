"""C01: the HTTP client (HttpClient.tla): TLC explores it, generates programs with server scripts and accepts or rejects the recorded runs."""
import re
OPS = '{"call", "callc", "callB", "connect", "connectB", "close", "down", "up", "auto", "noauto"}'
INV = ["OwnAnswer", "AtMostTwice", "NothingStale"]
def tla(x): return "<<" + ", ".join('"%s"' % v for v in x) + ">>"
def judge(ctx, runs):
    """Indices of the runs (dict ops, evs, outs) that are behaviours of the specification."""
    ok = set(); n = 0
    for b in range(0, len(runs), 6000):
        rows = ["[ops |-> %s, outs |-> %s, evs |-> <<%s>>]" % (tla(r["ops"]), tla(re.sub(r"[^ -~]|[\"\\\\]", "?", str(o))[:40] for o in r["outs"]),
                ", ".join('[k |-> "%s", i |-> %d, a |-> "%s", h |-> %d]' % (e["k"], e["i"], e["a"], e["h"]) for e in r["evs"])) for r in runs[b:b + 6000]]
        data = "---- MODULE HttpClientData ----\nEXTENDS Integers, Sequences\nTraces == <<\n" + ",\n".join(rows) + "\n>>\n====\n"
        g = ctx.tlc("HttpClient", dict(Traced="TRUE", MaxOps=0, Keep="FALSE", Ops="{}"), spec_formula="Spec", invariants=INV + ["Accepted"], workers=8, files=[("HttpClientData.tla", data)], timeout=900)["gen"]
        ok |= {b + int(x) - 1 for x in g}
    return ok
def c01(ctx):
    exe = ctx.build("client.cpp")
    ctx.tlc("HttpClient", dict(Traced="FALSE", MaxOps=ctx.pick(5, 8), Keep="FALSE", Ops=OPS), spec_formula="Spec", invariants=INV, properties=["Again", "Ends"], workers=8)
    gen = lambda **k: ctx.tlc("HttpClient", dict(Traced="FALSE", Keep="TRUE", **{"Ops": OPS, **k.pop("c")}), spec_formula="Spec", invariants=INV + ["Emit"], workers=8, **k)["gen"]
    pairs = gen(c=dict(MaxOps=2)); ctx.rng.shuffle(pairs)
    trip = gen(c=dict(MaxOps=3, Ops='{"call", "noauto"}'), simulate=ctx.pick(3000, 20000), depth=60)
    long_ = gen(c=dict(MaxOps=ctx.pick(6, 9)), simulate=ctx.pick(3000, 30000), depth=120)
    long_ += gen(c=dict(MaxOps=ctx.pick(6, 9), Ops='{"call", "callc", "callB"}'), simulate=ctx.pick(600, 3000), depth=120)
    uniq = lambda l: list({repr(x): x for x in l}.values())
    progs = uniq(ctx.pick(pairs[:900], pairs) + ctx.rng.sample(trip, min(len(trip), ctx.pick(300, 4000))) + ctx.rng.sample(long_, min(len(long_), ctx.pick(900, 12000))))
    progs = [p for p in progs if any(o.startswith("call") for o in p["ops"])]
    r = ctx.rng
    for p in progs:
        p["how"] = []
        for o in p["ops"]:
            m = r.choice(["GET", "GET", "POST", "POST", "PUT", "HEAD", "DELETE", "UP"]) if o.startswith("call") else "-"
            p["how"].append([m, r.choice([1, 17, 3000, 131072, 300000]) if m in ("POST", "PUT") else r.choice([0, 1, 131072, 300001]) if m == "UP" else 0])
    cases = []; i = 0
    while i < len(progs):
        k = r.random()
        if k < .45: cases.append(dict(mode="own", progs=progs[i:i + 1])); i += 1
        elif k < .65: cases.append(dict(mode="burst", progs=progs[i:i + 1])); i += 1
        else: n = r.randint(1, 4); cases.append(dict(mode="shared", progs=progs[i:i + n])); i += n
    for n, c in enumerate(cases): c["seed"] = r.randrange(1000)
    bad, runs = attempt(ctx, exe, cases, 8)
    if bad:
        again = [dict(cases[j], long=True) for j in sorted(bad)[:24]]
        bad2, _ = attempt(ctx, exe, again, 4)
        for j, why in bad2.items():
            c = again[j]
            ctx.mismatch(f"client:{c['mode']}:{c['progs'][0]['ops']}:{[e['a'] or e['k'] for e in c['progs'][0]['evs']]}", why[:600], c)
    for c in cases[:4]: ctx.sample(str(dict(mode=c["mode"], ops=c["progs"][0]["ops"], server=[e["a"] or e["k"] for e in c["progs"][0]["evs"]])))
    ctx.notes.update(programs=len(progs), cases=len(cases), retried=len(bad))
def attempt(ctx, exe, cases, jobs):
    res = ctx.replay(exe, cases, jobs=jobs, timeout_case=60 if cases and cases[0].get("long") else 20, chunk=max(1, min(60, len(cases) // jobs + 1)))
    bad, runs, at = {}, [], []
    for j, (c, o) in enumerate(zip(cases, res)):
        if not o or "r" not in o:
            if not (o and o.get("skipped")): bad[j] = f"no result: {str(o)[:300]}"
            continue
        if o["fds"] > 0: bad[j] = f"{o['fds']} descriptors left open"
        for p, x in zip(c["progs"], o["r"]):
            runs.append(dict(ops=p["ops"], **x)); at.append((j, p, x)); ctx.traces += 1
    ok = judge(ctx, runs) if runs else set()
    for n, (j, p, x) in enumerate(at):
        if n not in ok: bad.setdefault(j, f"no behaviour of the specification: {list(zip(p['ops'], p['how'], x['outs']))} with {[(e['k'], e['i'], e['a']) for e in x['evs']]}")
    return bad, runs
