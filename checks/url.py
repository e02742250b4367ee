"""C04: URL decomposition (Url.tla)."""
def c04(ctx):
    exe = ctx.build("url.cpp")
    items = []
    for mode, ln in ((ctx.pick("few", "parts"), 0), ("texts", ctx.pick(6, 7))):
        g = ctx.tlc("Url", dict(Mode=f'"{mode}"', MaxLen=ln), spec_formula="Spec", invariants=["Inverts", "Recomposes", "Emit"], workers=8, timeout=1500, heap="8g")["gen"]
        if mode == "parts": g = ctx.rng.sample(g, min(len(g), 200000))
        items += g
    J = "".join
    cases = [dict(us=[J(x["u"]) for x in items[i:i + 400]]) for i in range(0, len(items), 400)]
    res = ctx.replay(exe, cases, timeout_case=20)
    n = 0
    for c, r in zip(cases, res):
        if not r or "r" not in r: ctx.mismatch("url:crash", str(r)[:200], c); n += len(c["us"]); continue
        for u, o in zip(c["us"], r["r"]):
            x = items[n]; n += 1; ctx.traces += 1
            if x.get("path"): want = dict(pa=u, h="!")
            else:
                far = x["port"] > 65535
                want = dict(pa=J(x["pa"]), h=J(x["h"]), sc=x["sc"], rm=x["sc"] + "|" + u[len(x["sc"]) + 3:], hn=J(x["h"]), port="!" if far else str(x["port"]),
                            user=(J(x["user"][0]) + "\n" + J(x["user"][1])) if x["user"] else "-", **{"or": J(x["or"]).replace("ws", "http", 1) if x["sc"] in ("ws", "wss") else "!"})
            for k, v in want.items():
                if o[k] != v: ctx.mismatch(f"url:{k}:{u}", f"{u!r}: {k} is {o[k]!r}, must be {v!r}"); break
    for x in items[::max(1, len(items) // 6)]: ctx.sample(J(x["u"]))
    ctx.notes.update(urls=len(items))
