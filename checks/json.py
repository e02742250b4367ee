"""J01 / J02: JSON. TypedJson.tla (reader), JsonGen.tla (writer freedoms, damage), JsonTexts.tla (all texts over an alphabet), JsonTrace.tla (judges written texts)."""
import struct
TYPES = ["int", "u8", "i8", "i64", "u64", "bool", "str", "dbl", "flt", "enum", "lint", "lstr", "llint", "oint", "ostr", "lobool", "msi", "mslb", "tis", "ttb", "arr", "ab", "nest", "tree", "chain", "chr"]
MAPS = {"msi": (), "mslb": ()}
def setof(xs): return "{" + ", ".join(str(x) for x in xs) + "}"
def q(xs): return "{" + ", ".join(f'"{x}"' for x in xs) + "}"

def canon(t, v):
    """Comparable form: maps as sorted pairs, floating point as its hexadecimal image."""
    def pairs(m): return sorted([k, x] for k, x in m)
    if t == "dbl": return v if isinstance(v, str) else float.hex(float(bytes(v).decode()))
    if t == "flt": return v if isinstance(v, str) else float.hex(struct.unpack("f", struct.pack("f", float(bytes(v).decode())))[0])
    if t in ("msi", "mslb"): return pairs(v)
    if t == "nest": return [v[0], v[1], pairs(v[2]), v[3], v[4]]
    return v
def chex(t, v): # C's %a and Python's float.hex differ in form: compare as numbers with the sign of zero
    if t in ("dbl", "flt"): f = float.fromhex(v); return (f, struct.pack("d", f))
    return v
def text(s): return bytes(s).decode("latin-1").encode("unicode_escape").decode()[:160]

def read_cases(ctx, exe, cases, tag):
    res = ctx.replay(exe, [dict(op="read", t=c["t"], s=c["s"]) for c in cases])
    n = dict(value=0, reject=0, free=0)
    for c, r in zip(cases, res):
        ctx.traces += 1; n[c["d"]] += 1
        key = f"{tag}:{c['t']}:{text(c['s'])}"
        if r is None or "r" not in r: ctx.mismatch(key, f"reading {text(c['s'])!r} as {c['t']}: {str(r)[:200]}", c); continue
        for i, o in enumerate(r["r"]):
            if c["d"] == "reject" and "e" not in o: ctx.mismatch(key, f"{text(c['s'])!r} is not a JSON text for {c['t']} but is accepted", c); break
            if c["d"] == "value":
                if "e" in o: ctx.mismatch(key, f"{text(c['s'])!r} is a JSON text for {c['t']} but is refused", c); break
                if chex(c["t"], canon(c["t"], o["v"])) != chex(c["t"], canon(c["t"], c["v"])):
                    ctx.mismatch(key, f"{text(c['s'])!r} read as {c['t']} gives {str(o['v'])[:200]}, denotes {str(c['v'])[:200]}", c); break
    return n

ALPH = { # type -> (alphabet, quick length, thorough length)
    "lint": ("[],1- ", 8, 11), "int": ("-0129 .e", 4, 6), "bool": ("truefals01 ", 6, 6), "oint": ("nul1 -", 6, 8), "str": ('"\\u0Dn\xff', 6, 8),
    "tis": ('[],"1 ', 8, 11), "ttb": ('[],"1nul', 9, 13), "arr": ("[],1 ", 8, 11), "lobool": ("[],nulltruefas ", 8, 10), "msi": ('{}",:1a', 7, 9), "ab": ('{}"ab:,1', 7, 9),
    "tree": ('{}[]"vk:,1', 7, 9), "enum": ('"red ', 6, 7), "lstr": ('[],"a\\', 7, 9), "chain": ('{}"vk:nul', 7, 9), "u8": ("-0256 ", 5, 6)}
def j02(ctx):
    exe = ctx.build("json.cpp", opt="-O0")
    tot = dict(value=0, reject=0, free=0)
    def add(n):
        for k in n: tot[k] += n[k]
    for t, (a, lq, lt) in ALPH.items():
        g = ctx.tlc("JsonTexts", dict(Type=f'"{t}"', Alphabet=setof(sorted(set(a.encode("latin-1")))), MaxLen=ctx.pick(lq, lt)), invariants=["PrefixFree", "Emit"], workers=8, timeout=1500, heap="12g")
        add(read_cases(ctx, exe, [dict(x, t=t) for x in g["gen"]], "text"))
    for mode, n in (("clean", ctx.pick(60, 1500)), ("damaged", ctx.pick(250, 6000))):
        lo = (ctx.seed * 1000) % 15000
        for blk in range(0, n, 500):
            g = ctx.tlc("JsonGen", dict(Types=q(TYPES), Seeds=setof(range(lo + blk, lo + min(n, blk + 500))), Mode=f'"{mode}"'), invariants=["Inverts", "Prefixes", "Emit"], workers=8, timeout=1500)
            add(read_cases(ctx, exe, g["gen"], mode))
            for x in g["gen"][:3]: ctx.sample(dict(t=x["t"], text=text(x["s"]), d=x["d"]))
    ctx.notes.update(texts=tot)

def tla(v):
    if isinstance(v, bool): return "TRUE" if v else "FALSE"
    if isinstance(v, list): return "<<" + ", ".join(tla(x) for x in v) + ">>"
    return str(v)
def tla_value(t, v):
    def m(ps): return "{" + ", ".join(tla(p) for p in ps) + "}"
    if t in ("msi", "mslb"): return m(v)
    if t == "nest": return "<<" + ", ".join([tla(v[0]), tla(v[1]), m(v[2]), tla(v[3]), tla(v[4])]) + ">>"
    return tla(v)
def j01(ctx):
    exe = ctx.build("json.cpp", opt="-O0")
    n = ctx.pick(120, 3000); lo = (ctx.seed * 700) % 12000; cases = []
    for blk in range(0, n, 500):
        g = ctx.tlc("JsonGen", dict(Types=q(TYPES), Seeds=setof(range(lo + blk, lo + min(n, blk + 500))), Mode='"clean"'), invariants=["Inverts", "Prefixes", "Emit"], workers=8, timeout=1500)
        cases += g["gen"]
    res = ctx.replay(exe, [dict(op="write", t=c["t"], v=c["v"]) for c in cases])
    rows, keep = [], []
    for c, r in zip(cases, res):
        ctx.traces += 1
        key = f"{c['t']}:{text(c['s'])}"
        if r is None or "r" not in r: ctx.mismatch(key, f"writing {str(c['v'])[:200]} of {c['t']}: {str(r)[:200]}", c); continue
        want = chex(c["t"], canon(c["t"], c["v"]))
        for o in r["r"]:
            if chex(c["t"], canon(c["t"], o["in"])) != want: ctx.mismatch(key, "harness cannot represent the value", c); break
            if not o["same"]: ctx.mismatch(key, "writing the same value twice gives different texts", c); break
            if "e" in o: ctx.mismatch(key, f"{c['t']} value {str(c['v'])[:200]} written as {text(o['text'])!r} cannot be read back: {o['e']}", c); break
            if chex(c["t"], canon(c["t"], o["v"])) != want: ctx.mismatch(key, f"{c['t']} value {str(c['v'])[:200]} written as {text(o['text'])!r} is read back as {str(o['v'])[:200]}", c); break
            num = c["t"] in ("dbl", "flt")
            rows.append(f'[t |-> "{c["t"]}", s |-> {tla(o["text"])}, num |-> {tla(num)}, v |-> {"0" if num else tla_value(c["t"], c["v"])}]'); keep.append((key, c, o))
    for b in range(0, len(rows), 4000):
        data = "---- MODULE JsonTraceData ----\nEXTENDS Sequences\nCases == <<\n" + ",\n".join(rows[b:b + 4000]) + "\n>>\n====\n"
        g = ctx.tlc("JsonTrace", {}, invariants=["Accepts"], files=[("JsonTraceData.tla", data)], workers=1, timeout=1500)
        for i in g["gen"]:
            key, c, o = keep[b + int(i) - 1]
            ctx.mismatch(key, f"text written for {c['t']} value {str(c['v'])[:200]} is not JSON for it: {text(o['text'])!r}", c)
    for k in keep[:400:120]: ctx.sample(dict(t=k[1]["t"], text=text(k[2]["text"])))
    ctx.notes.update(values=len(cases), texts_judged=len(rows))
