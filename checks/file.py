"""F01: the file API (File.tla): every generated history is replayed on real files."""
PROPS = ["ErrNothing", "AppendKeeps", "ReadsBack", "NoWriteNoChange"]
def c(h=1, f=1, n=4, keep="FALSE"): return dict(Handles="{%s}" % ",".join(map(str, range(1, h + 1))), Files="{%s}" % ",".join(map(str, range(1, f + 1))), MaxOps=n, MaxW=2, Keep=keep)
def f01(ctx):
    exe = ctx.build("file.cpp")
    ctx.tlc("File", c(2, 1, ctx.pick(5, 6)), spec_formula="Spec", invariants=["Unique"], properties=PROPS, workers=8)
    g = ctx.tlc("File", c(1, 1, ctx.pick(3, 4), "TRUE"), spec_formula="Spec", invariants=["Emit"], workers=8)["gen"]
    ctx.rng.shuffle(g); g = g[:ctx.pick(15000, 120000)]
    g += ctx.tlc("File", c(3, 2, 16, "TRUE"), spec_formula="Spec", invariants=["Unique", "Emit"], workers=8, simulate=ctx.pick(2500, 20000), depth=30)["gen"][:ctx.pick(9000, 80000)]
    cases = []
    for x in g:
        left = [i + 1 for i, m in enumerate(x["left"]) if m != "closed"]
        cases.append(dict(unit=ctx.rng.choice([1, 1, 2, 7, 512, 4096] + ([65536, 65537, 131072, 131073] if ctx.rng.random() < .25 else [])), sync=ctx.rng.random() < .4, init=x["init"], ops=x["ops"], fs=x["fs"], open=len(left), left=left))
    res = ctx.replay(exe, [{k: v for k, v in y.items() if k != "fs"} for y in cases], jobs=8, timeout_case=20, chunk=400)
    for y, o in zip(cases, res):
        ops = [f"{e['op']}{e['h']}:{e['m'] or e['k']}" for e in y["ops"]]
        if not o or "r" not in o:
            if not (o and o.get("skipped")): ctx.mismatch(f"file:crash:{ops}", str(o)[:300], y)
            continue
        ctx.traces += 1
        for i, (e, got) in enumerate(zip(y["ops"], o["r"])):
            want = e["d"] if e["op"] in ("read", "readAll", "get") and e["r"] == "ok" else []
            if got.get("bad") or got["r"] != e["r"] or (e["r"] == "ok" and got["d"] != want) or (e["op"] == "size" and e["r"] == "ok" and got["k"] != e["k"] * y["unit"]):
                ctx.mismatch(f"file:{e['op']}:{ops[:i + 1]}", f"unit {y['unit']} sync {y['sync']}: got {str(got)[:200]}, expected {e['r']} {want}", y); break
        else:
            if o["fs"] != y["fs"]: ctx.mismatch(f"file:content:{ops}", f"unit {y['unit']}: files {str(o['fs'])[:200]}, expected {y['fs']}", y)
            elif o["fds"]: ctx.mismatch(f"file:fds:{ops}", f"{o['fds']} descriptors leaked", y)
    for y in cases[:3]: ctx.sample(str([(e["op"], e["h"], e["m"], e["k"], e["r"]) for e in y["ops"]]))
    ctx.notes.update(cases=len(cases))
