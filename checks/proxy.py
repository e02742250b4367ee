"""C03: the SOCKS5 dialogue (Socks5.tla) against a scripted proxy."""
def c03(ctx):
    exe = ctx.build("socks5.cpp")
    items = []
    for s in ("replies", "targets"):
        items += ctx.tlc("Socks5", dict(Set=f'"{s}"'), spec_formula="Spec", invariants=["SentInOrder", "OutcomeIsFixed", "TunnelIsClean", "Emit"], properties=["Monotone", "Ends"], workers=8, timeout=600)["gen"]
    cases = []
    for i, x in enumerate(items):
        long_ = len(x["sent"]) > 1 and max(map(len, x["sent"])) > 200
        for cut in ctx.pick([0, 1 + i % 4], [0, 1, 2, 3, 5, 11]): cases.append(dict(x, mode=0, cut=cut, dp=x["p"] == 80 and i % 2 == 0))
        if not x["g"] and (ctx.pick(i % 3 == 0, True)): cases.append(dict(x, mode=1, cut=[0, 1, 5][i % 3], dp=x["p"] == 80 and i % 2 == 0))
    cases = [c for c in cases if not (c["mode"] == 1 and c["p"] == 0)]
    res = ctx.replay(exe, cases, jobs=8, timeout_case=15)
    for c, o in zip(cases, res):
        ctx.traces += 1
        k = f"m={c['mode']} cut={c['cut']} u={'/'.join(str(len(t)) for t in c['u'])} host={len(c['h'])}:{c['p']} method={c['m']} auth={c['a']} reply={str(c['r'])[:60]}"
        if not o or "sent" not in o: ctx.mismatch("socks5:crash", str(o)[:200], c); continue
        bad = None
        if o["sent"] != c["sent"]: bad = f"sent {o['sent']} where {c['sent']} is due"
        elif o["open"] != c["open"]: bad = ("opened a refused tunnel" if o["open"] else f"failed: {o['err']}")
        elif c["open"] and c["mode"] == 0 and o["rest"] != "".join(map(chr, c["g"])): bad = f"the tunnel begins with {o['rest']!r}, the target sent {c['g']}"
        elif c["open"] and c["mode"] == 0 and o["extra"] != "ping": bad = f"sent {o['extra']!r} through the tunnel"
        elif c["open"] and c["mode"] == 1 and (o["rest"] != "hello" or not o["req"].startswith("GET /q ")): bad = f"request {o['req']!r} answered {o['rest']!r}"
        elif not c["open"] and (o["extra"] or o["req"]): bad = f"sent {o['extra'] or o['req']!r} after a refusal"
        elif not c["open"] and not o["err"]: bad = "no error reported"
        if bad: ctx.mismatch(f"socks5:{k}", f"{k}: {bad}"[:500])
    for x in items[::max(1, len(items) // 6)]: ctx.sample(str(dict(method=x["m"], reply=x["r"][:12], open=x["open"])))
    ctx.notes.update(dialogues=len(items), runs=len(cases))
