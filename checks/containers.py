"""Container properties K01.. : sequential objects; TLC-generated histories replayed on the real classes."""
INV1 = ["CountExact", "AliveIffReferred", "NeverBeforeCreation"]

def compare(ctx, cases, results, exp_of, label):
    """Step-wise comparison of observed projections with the specification's."""
    for c, r in zip(cases, results):
        ctx.traces += 1
        exp = exp_of(c)
        ops = lambda n: ";".join(f"{s['op']}({','.join(str(s[k]) for k in s if k not in ('op', 'exp'))})" for s in c["h"][:n])
        if r is None or "obs" not in r:
            yield c, len(c["h"]), f"{label}:{ops(99)}", f"harness outcome {r}"; continue
        for i, (e, o) in enumerate(zip(exp, r["obs"])):
            if e != o:
                yield c, i, f"{label}:{ops(i + 1)}", f"after step {i + 1} expected {e}, observed {o}"; break
        else:
            if len(exp) != len(r["obs"]): yield c, 0, f"{label}:{ops(99)}", "short result"
            elif r.get("leak"): yield c, 0, f"{label}:{ops(99)}", f"{r['leak']} objects never destroyed"

def k01(ctx):
    c = dict(NP=4, NO=ctx.pick(4, 6), L=0, Record="FALSE")
    ctx.tlc("SharedPtr", c, invariants=INV1, workers=8)
    exe = ctx.build("containers.cpp")
    cases = []
    # every history of length L over two pointers, random longer ones over four
    g = ctx.tlc("SharedPtr", dict(NP=2, NO=3, L=ctx.pick(4, 5), Record="TRUE"), invariants=INV1 + ["Emit"], workers=8)
    cases += [dict(kind="sharedptr", np=2, no=3, h=h) for h in g["gen"]]
    n_exh = len(cases)
    g = ctx.tlc("SharedPtr", dict(NP=4, NO=12, L=30, Record="TRUE"), invariants=INV1 + ["Emit"],
                simulate=ctx.pick(300, 5000), depth=40, workers=1)
    cases += [dict(kind="sharedptr", np=4, no=12, h=h) for h in g["gen"]]
    res = ctx.replay(exe, [dict(c, h=[{k: s[k] for k in ("op", "p", "q")} for s in c["h"]]) for c in cases])
    for c, i, key, what in compare(ctx, cases, res, lambda c: [s["exp"] for s in c["h"]], "sharedptr"):
        ctx.mismatch(key, what, c)
    ctx.sample(cases[0]); ctx.sample([{k: s[k] for k in ("op", "p", "q")} for s in cases[-1]["h"]])
    ctx.notes.update(exhaustive_histories=n_exh, random_histories=len(cases) - n_exh)

K02F = ("variant", "dup", "trivial", "uninit", "try", "tryvoid")
INV2 = ["ExactStorage", "OneOwner", "ValuesExist"]
def k02(ctx):
    """Variant.tla: storage discipline checked by TLC; every short history and random long ones replayed on counted objects."""
    exe = ctx.build("containers.cpp")
    cases = []
    for fl in K02F:
        q = f'"{fl}"'
        ctx.tlc("Variant", dict(Flavour=q, NP=ctx.pick(3, 4), MaxV=4, L=0, Record="FALSE", CommitFirst="FALSE"), invariants=INV2, workers=8)
        big = fl in ("variant", "trivial")
        g = ctx.tlc("Variant", dict(Flavour=q, NP=2, MaxV=3, L=ctx.pick(3, 4) if big else ctx.pick(4, 5), Record="TRUE", CommitFirst="FALSE"),
                    invariants=INV2 + ["Emit"], workers=8)
        h = g["gen"]
        g = ctx.tlc("Variant", dict(Flavour=q, NP=3, MaxV=15, L=25, Record="TRUE", CommitFirst="FALSE"),
                    invariants=INV2 + ["Emit"], simulate=ctx.pick(150, 3000), depth=30, workers=1)
        cases += [dict(kind="values", fl=fl, np=2, h=x) for x in h] + [dict(kind="values", fl=fl, np=3, h=x) for x in g["gen"]]
    # recording the index before the value exists breaks the discipline (the model can tell)
    r = ctx.tlc("Variant", dict(Flavour='"variant"', NP=2, MaxV=3, L=0, Record="FALSE", CommitFirst="TRUE"), invariants=["ExactStorage"], workers=4, expect_ok=False, count=False)
    if r["ok"]: ctx.mismatch("model", "Variant.tla accepts recording an index before construction", {})
    res = ctx.replay(exe, [dict(c, h=[{k: v for k, v in s.items() if k != "exp"} for s in c["h"]]) for c in cases])
    for c, i, key, what in compare(ctx, cases, res, lambda c: [s["exp"] for s in c["h"]], "values"):
        ctx.mismatch(c["fl"] + ":" + key, what, c)
    ctx.sample(cases[0]["h"][:3])
    ctx.notes.update(histories=len(cases))

SIZES = [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 200]
MORE_SIZES = [6, 12, 15, 24, 31, 32, 48, 63, 100, 127, 128, 129]
KEYTYPES = ["i32", "neg", "mix", "high", "edge", "u8", "e8", "e16", "str", "pre", "bin", "run"]
def k03(ctx):
    """PerfectHash.tla: the construction under arbitrary hash functions; HashMapGen.tla: histories any map must answer, replayed for every key type and size."""
    for n, m in [(1, 1), (1, 2), (2, 2), (2, 4), (3, 4)] + ctx.pick([], [(3, 5), (4, 4)]):
        small = n < 3 or (n, m) == (3, 4)
        ctx.tlc("PerfectHash", dict(N=n, M=m, BucketMax=4, Checked="TRUE"), spec_formula="Spec", invariants=["Answers", "InBounds", "NeverStuck"],
                properties=["Builds"] if small else [], workers=8, timeout=3600, heap="16g")
    r = ctx.tlc("PerfectHash", dict(N=3, M=4, BucketMax=4, Checked="FALSE"), spec_formula="Spec", invariants=["InBounds"], workers=8, expect_ok=False, count=False)
    if r["ok"]: ctx.mismatch("model", "PerfectHash.tla does not see an unchecked index", {})
    sizes = SIZES + ctx.pick([], MORE_SIZES)
    exe = ctx.build("hashmap.cpp", flags=["-DVF_SIZES=" + ",".join(map(str, sizes))], opt="-O0")
    cases = []
    g = ctx.tlc("HashMapGen", dict(Sizes="{1, 2, 3}", Pool=ctx.pick(5, 7), L=0, Small="TRUE"), invariants=["MapLike", "Emit"], workers=8)
    for x in g["gen"]:
        for t in KEYTYPES: cases.append(dict(x, type=t))
    for pool in (251, 1009):
        g = ctx.tlc("HashMapGen", dict(Sizes="{" + ",".join(map(str, sizes)) + "}", Pool=pool, L=ctx.pick(60, 120), Small="FALSE"), invariants=["Emit"],
                    simulate=ctx.pick(250, 2000), depth=130, workers=1)
        for x in g["gen"]:
            ts = [t for t in KEYTYPES if pool < 256 or t not in ("u8", "e8")]
            for t in ctx.rng.sample(ts, ctx.pick(4, 10)): cases.append(dict(x, type=t))
    ctx.tlc("HashMapGen", dict(Sizes="{1, 2, 3, 5}", Pool=7, L=12, Small="FALSE"), invariants=["MapLike"], simulate=300, depth=20, workers=4)
    res = ctx.replay(exe, [dict(type=c["type"], keys=c["keys"], h=[{k: s[k] for k in ("op", "k", "v")} for s in c["h"]]) for c in cases])
    for c, r in zip(cases, res):
        ctx.traces += 1
        key = f"{c['type']}:n={len(c['keys'])}:keys={c['keys'][:3]}"
        if r is None or "obs" not in r: ctx.mismatch(key, f"harness outcome {r}", c); continue
        for i, (s, o) in enumerate(zip(c["h"], r["obs"])):
            if s["exp"] != o: ctx.mismatch(f"{key}:{s['op']}({s['k']})", f"expected {s['exp']}, observed {o}", c); break
        else:
            if not r["iter"]: ctx.mismatch(key + ":iterate", "iteration does not give the keys in order", c)
    ctx.sample(dict(cases[0], h=cases[0]["h"][:4])); ctx.notes.update(histories=len(cases), sizes=sizes, key_types=KEYTYPES)
