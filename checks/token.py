"""K04: tokens. TokenCodec.tla (canonical text codec), Token.tla (issue / alter / open histories)."""
def k04(ctx):
    ctx.tlc("TokenCodec", dict(BB=4, CB=3, MaxBytes=4, Strict="TRUE"), invariants=["RoundTrip", "OneText"], workers=8)
    if not ctx.quick: ctx.tlc("TokenCodec", dict(BB=4, CB=3, MaxBytes=5, Strict="TRUE"), invariants=["RoundTrip", "OneText"], workers=8, timeout=1800, heap="16g")
    r = ctx.tlc("TokenCodec", dict(BB=4, CB=3, MaxBytes=3, Strict="FALSE"), invariants=["OneText"], workers=8, expect_ok=False, count=False)
    if r["ok"]: ctx.mismatch("model", "TokenCodec.tla does not notice a lenient decoder", {})
    ctx.tlc("Token", dict(NK=2, NV=2, L=ctx.pick(5, 6), MaxTok=3, Vacuous="TRUE"), invariants=["Opened"], workers=8)
    exe = ctx.build("token.cpp")
    g = ctx.tlc("Token", dict(NK=3, NV=40, L=40, MaxTok=12, Vacuous="FALSE"), invariants=["Opened", "Emit"],
                simulate=ctx.pick(250, 6000), depth=50, workers=1)
    hs = g["gen"]
    cases = [dict(kind="history", h=[dict({k: v for k, v in s.items() if k != "exp"}, exp0=max(0, s["exp"])) for s in h]) for h in hs]
    for h, c, r in zip(hs, cases, ctx.replay(exe, cases)):
        ctx.traces += 1
        if r is None or "obs" not in r: ctx.mismatch("history", f"harness outcome {r}", c); continue
        for s, o in zip(h, r["obs"]):
            if s["exp"] != o:
                kind = "seal" if s["op"] == "seal" else f"{s['mut']}{'' if h[s['t'] - 1]['op'] and True else ''}"
                ctx.mismatch(f"{s['op']}:{kind}", f"{s['op']} {s['mut']} x={s['x']} y={s['y']}: expected {s['exp']}, observed {o} (-1 rejected, -2 other value, -3 bad or repeated text, -4 rejected but target changed)", c); break
    sw = [dict(kind="sweep", v=v) for v in ctx.pick([1, 2, 3, 4], list(range(1, 40)))]
    tried = 0
    for c, r in zip(sw, ctx.replay(exe, sw, timeout_case=200)):
        ctx.traces += 1
        if r is None or "tried" not in r: ctx.mismatch("sweep", f"harness outcome {r}", c); continue
        tried += r["tried"]
        if r["accepted"]: ctx.mismatch("sweep", f"{r['accepted']} of {r['tried']} altered texts accepted, e.g. {r['first']!r} for {r['token']!r}", c)
        if not r["still"]: ctx.mismatch("sweep:after", "the unaltered token no longer opens", c)
    cd = [dict(kind="codec", seed=i) for i in range(ctx.pick(5, 100))]
    for c, r in zip(cd, ctx.replay(exe, cd)):
        ctx.traces += 1
        if r is None or not r.get("ok"): ctx.mismatch("codec", f"bytes do not round-trip: {r}", c)
        elif r["badkey"]: ctx.mismatch("badkey", "a key of wrong length is accepted", c)
    ctx.sample([{k: s[k] for k in ("op", "k", "v", "t", "mut", "exp")} for s in hs[0][:8]]); ctx.notes.update(one_byte_changes=tried)
