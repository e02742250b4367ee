"""X01, X02: connections over TLS (Tls.tla) against independent peers; HTTP sessions (HttpSession.tla) through a TLS relay; the client over TLS (TlsClient.tla)."""
from . import session
INV = ["AsExpected", "Received", "Delivered", "NotMore"]
EDGE = [1, 2, 16, 1023, 1024, 1025, 4096, 16383, 16384, 16385, 20000, 32768, 65536, 100000, 131071, 131072, 131073, 133119, 133120, 133121, 140000, 200000, 262144, 300001]
def c(**k): return {**dict(NC=2, MaxSteps=4, Cap=2, Sizes="{0, 1, 3}", Keep="FALSE"), **k}
def size(r, k):
    """a size for the abstract number of records k"""
    if k == 0: return 0
    if k == 1: return r.choice([x for x in EDGE if x <= 16385] + [r.randint(1, 16000)])
    if k == 2: return r.choice(EDGE[8:15] + [r.randint(16000, 130000)])
    return r.choice(EDGE + [r.randint(130000, 700000)])
def cuts(r):
    k = r.random()
    if k < .35: return []
    return [r.choice([1, 2, 5, 6, 17, 100, 1000, 1024, 5000, 16384, 16406, 20000, 60000]) for _ in range(r.randint(1, 4))]
def to_case(r, g):
    conns = [dict(server=r.random() < .6, tls12=r.random() < .3) for _ in range(g["n"])]
    steps = []
    for i, x in enumerate(g["log"]):
        s = dict(c=x["c"] - 1, k=x["k"], how=x["how"], seed=r.randint(1, 10**6), cuts=cuts(r), mode=r.choice(["any", "full", "lim"]))
        n = size(r, x["n"]); s["n"] = n; s["m"] = size(r, x["m"]) if x["m"] or x["k"] != "ew" else 0
        if s["cuts"] and n > 3000: s["cuts"] = [max(y, n // 400) for y in s["cuts"]]
        s["buf"] = r.choice([1, 7, 100, 1024, 4096, 16384, 16384, 131072]) if n < 3000 else r.choice([1024, 4096, 16384, 131072])
        if r.random() < .3: s["rec"] = r.choice([1, 100, 1000, 16384]) if n < 3000 else r.choice([1000, 5000, 16384])
        if r.random() < .15: s["ku"] = True
        s["part"] = r.randint(0, 3)
        if x["k"] == "hs" and x["how"] == "cut" and not conns[x["c"] - 1]["server"]: s["part"] = 0
        steps.append(s)
    # data right behind the last handshake bytes (only a client peer, TLS 1.3 or 1.2, finishes by sending)
    for i, s in enumerate(steps):
        if s["k"] == "hs" and s["how"] == "ok" and conns[s["c"]]["server"] and not conns[s["c"]]["tls12"]:
            nx = next((t for t in steps[i + 1:] if t["c"] == s["c"]), None)
            if nx and nx["k"] == "pw" and r.random() < .5: s["glue"] = True
    return dict(conns=conns, steps=steps)
def judge(g, o):
    if not o or o.get("skipped"): return None
    if "res" not in o: return f"no result: {str(o)[:300]}"
    if o["bad"]: return "; ".join(f"step {b['step']}: {b['what']}" for b in o["bad"])[:400]
    if o.get("stuck"): return "the loop never ends"
    for i in range(g["n"]):
        want = [x["x"] for x in g["log"] if x["c"] == i + 1]
        got = [y for y in o["res"][i]]
        if got != want + ["closed"]: return f"connection {i}: {got}, expected {want}"
    if o.get("fdleak"): return f"descriptors leaked: {o['fdleak']}"
    return None
def play(ctx, exe, label, gs):
    items = [(to_case(ctx.rng, g), g) for g in gs]
    res = ctx.replay(exe, [x for x, _ in items], jobs=8, timeout_case=40)
    bad = [i for i, o in enumerate(res) if judge(items[i][1], o)]
    for i, o in zip(bad[:12], ctx.replay(exe, [items[i][0] for i in bad[:12]], jobs=2, timeout_case=40)):
        w = judge(items[i][1], o)
        if w: ctx.mismatch(f"{label}:{w}", w, items[i][0])
    ctx.traces += len(items)
    if items: ctx.sample(str([(x["c"], x["k"], x["how"], x["n"], x["m"]) for x in items[0][1]["log"]]))
def gen(ctx, num, **k):
    g = ctx.tlc("Tls", c(Keep="TRUE", **k), spec_formula="Spec", invariants=INV + ["EmitAll"], workers=1, simulate=num, depth=260)["gen"]
    return list({repr(x): x for x in g}.values())
def data_heavy(g): return sum(x["k"] in ("pw", "ew", "bw") for x in g["log"])
def x01(ctx):
    exe = ctx.build("tls.cpp")
    ctx.tlc("Tls", c(NC=1, MaxSteps=ctx.pick(4, 5), Sizes="{0, 1, 3}"), spec_formula="Spec", invariants=INV, properties=["Ends", "Apart"], workers=8)
    g = [x for x in gen(ctx, ctx.pick(900, 8000), NC=1, MaxSteps=5, Sizes="{0, 1, 2, 3, 4}") + gen(ctx, ctx.pick(500, 5000), NC=3, MaxSteps=10, Sizes="{0, 1, 2, 3}") if data_heavy(x) >= 2]
    play(ctx, exe, "tls", g[:ctx.pick(700, 8000)])
    ctx.exe = ctx.build("session.cpp", out="session_tls", flags=["-DVF_TLS"])
    items = []
    for kw, num in ((dict(NConn=1, Faults="FALSE", MaxSend=8), ctx.pick(250, 3000)), (dict(NConn=3, MaxSend=4, MaxSteps=30), ctx.pick(150, 2000))):
        for x in session.gen(ctx, num, **kw):
            cs, e = session.to_case(ctx.rng, x, session.routes(ctx)); items.append((cs, e, session.judge, "session"))
    session.run(ctx, "X01", items)
    ctx.notes.update(streams=len(g), sessions=len(items))
def x02(ctx):
    exe = ctx.build("tls.cpp")
    ctx.tlc("Tls", c(NC=2, MaxSteps=ctx.pick(4, 5), Sizes="{0, 1}"), spec_formula="Spec", invariants=INV, properties=["Ends", "Apart"], workers=8)
    g = [x for x in gen(ctx, ctx.pick(1200, 9000), NC=3, MaxSteps=9, Sizes="{0, 1}") if data_heavy(x) < 7]
    play(ctx, exe, "tls", g[:ctx.pick(900, 9000)])
    client(ctx, exe)
def client(ctx, exe):
    g = ctx.tlc("TlsClient", dict(MaxConns=ctx.pick(2, 3), MaxCalls=4, Keep="TRUE"), spec_formula="Spec", invariants=["OneFailure", "Served", "Emit"], workers=4)["gen"]
    by = {}
    for x in g: by.setdefault(repr(x["script"]), []).append(x)
    keys = sorted(by); ctx.rng.shuffle(keys); keys = keys[:ctx.pick(260, 4000)]
    cases = [dict(script=by[k][0]["script"], calls=[dict(n=ctx.rng.choice([0, 1, 10, 3000, 16384, 70000, 200000]), m=ctx.rng.choice([0, 0, 1, 500, 16385, 140000]), ms=ctx.rng.choice([0, 0, 3])) for _ in range(4)]) for k in keys]
    def verdict(k, o):
        if not o or o.get("skipped"): return None
        if "calls" not in o: return f"no result: {str(o)[:200]}"
        for alt in by[k]:
            if all(w == "any" and (v == "ok" or v.startswith("err")) or v == w for v, w in zip(o["calls"], alt["calls"])): break
        else: return f"calls gave {o['calls']}, expected {by[k][0]['calls']}"
        return f"descriptors leaked: {o['fdleak']}" if o.get("fdleak") else None
    res = ctx.replay(exe, cases, jobs=8, timeout_case=40)
    bad = [i for i, o in enumerate(res) if verdict(keys[i], o)]
    for i, o in zip(bad[:12], ctx.replay(exe, [cases[i] for i in bad[:12]], jobs=2, timeout_case=40)):
        w = verdict(keys[i], o)
        if w: ctx.mismatch(f"tlsclient:{w}", f"{keys[i]}: {w}"[:600], cases[i])
    ctx.traces += len(cases); ctx.notes.update(client_scripts=len(cases))
