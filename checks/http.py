"""HTTP message parsing: H01, H02, H05, H08 (spec/HttpParse.tla)."""
import json
INV = ["HeadPrompt", "HeadExact", "BodyPrefix", "BodyPrompt", "BodyExact", "NeverErr", "CutIsError", "Confluent"]
BYTES = {ord("`"): "\x00", ord("~"): "\xff"}   # spec characters standing for bytes TLA+ strings cannot hold
def tr(x):
    if isinstance(x, str): return x.translate(BYTES)
    if isinstance(x, list): return [tr(y) for y in x]
    if isinstance(x, dict): return {k: tr(v) for k, v in x.items()}
    return x

def messages(ctx, fam):
    """Model-checks the family over all segmentations, then lets TLC emit its messages."""
    ctx.tlc("HttpParse", dict(Family=f'"{fam}"', Record="FALSE"), invariants=INV, workers=8)
    g = ctx.tlc("HttpParse", dict(Family=f'"{fam}"', Record="TRUE"), invariants=["Emit"])
    out = [tr(m) for m in g["gen"]]
    if len(out) < 10: raise RuntimeError("no messages generated")
    return sorted(out, key=lambda m: m["wire"])

def cuts_for(ctx, n, lo=0, pairs=12):
    """Segmentations: one read, every single cut, byte by byte, random multi-cuts."""
    out = [[]] + [[i] for i in range(max(1, lo), n)] + [list(range(1, n))]
    for _ in range(pairs):
        k = ctx.rng.randint(2, min(6, max(2, n - 1)))
        out.append(sorted(ctx.rng.sample(range(1, n), min(k, n - 1))) if n > 2 else [])
    return out

def fnv(b):
    h = 1469598103934665603
    for x in b: h = ((h ^ x) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return str(h)

class Runner:
    def __init__(self, ctx, label):
        self.ctx, self.label = ctx, label
        self.cases, self.expect, self.keys = [], [], []
        self.exe = ctx.build("http.cpp")
    def add(self, case, expect, key):
        self.cases.append(case); self.expect.append(expect); self.keys.append(key)
    def run(self, jobs=6):
        ctx = self.ctx
        if len(ctx.violations) >= 8:     # enough evidence; do not spend the time limit on timeouts
            self.cases, self.expect, self.keys = [], [], []; return
        res = ctx.replay(self.exe, self.cases, jobs=jobs, timeout_case=15)
        bad = [i for i in range(len(res)) if not self.ok(i, res[i])]
        if bad:   # confirm before reporting
            again = ctx.replay(self.exe, [self.cases[i] for i in bad[:10]], jobs=5, timeout_case=15)
            bad2 = [(i, r) for i, r in zip(bad[:10], again) if not self.ok(i, r)]
            for i, r in bad2:
                ctx.mismatch(f"{self.label}:{self.keys[i]}", f"expected {short(self.expect[i])}, observed {short(r)}", self.cases[i])
        ctx.traces += len(self.cases)
        if self.cases: ctx.sample(self.cases[len(self.cases) // 2])
        self.cases, self.expect, self.keys = [], [], []
    def ok(self, i, r):
        if not r: return False
        if r.get("skipped"): return True
        if "out" not in r or r.get("fdleak"): return False
        e = self.expect[i]
        if len(e) != len(r["out"]): return False
        for x, y in zip(e, r["out"]):
            if y.get("timeout"): return False
            if any(y.get(k) != v for k, v in x.items()): return False
        return True

def short(x):
    s = json.dumps(x); return s if len(s) < 400 else s[:400] + "..."

def head_exp(m): return {"ok": True, "line": m["msg"]["line"], "headers": {k: v for k, v in m["headers"]}}
FAIL = {"ok": False}

def head_check(ctx, kind):
    ms = messages(ctx, kind + "-head")
    R = Runner(ctx, kind)
    for m in ms:
        w = m["wire"]; n = len(w)
        # promptness: the stream stays open and nothing follows the head
        for c in cuts_for(ctx, n, pairs=ctx.pick(6, 60)):
            R.add(dict(kind=kind, s=w, cuts=c, plan=["head"]), [head_exp(m)], f"{w!r}:cuts={c}")
        # the head is cut off
        for k in ([0, 1, n - 1] + [ctx.rng.randrange(n) for _ in range(ctx.pick(4, 40))]):
            R.add(dict(kind=kind, s=w[:k], cuts=[], eof=True, plan=["head"]), [FAIL], f"{w[:k]!r}:eof")
    R.run()
    # header blocks longer than the receive buffer, made of short lines
    for hn in (40, 900, ctx.pick(1500, 6000)):
        hs = {f"n{i:04d}": "v" * (i % 23) for i in range(hn)}
        line = ["GET", "/x", "HTTP/1.1"] if kind == "req" else ["HTTP/1.1", "200", "OK"]
        w = " ".join(line) + "\r\n" + "".join(f"{k}: {v}\r\n" for k, v in hs.items()) + "\r\n"
        for ev in ([1] if hn == 40 else []) + [7, 1000, 4096, 16383, 16384, 16385, len(w)]:
            R.add(dict(kind=kind, s=w, every=ev, cuts=[], plan=["head"]), [{"ok": True, "line": line, "headers": hs}], f"{hn} headers:every={ev}")
    R.run()
    return ms

def h01(ctx): head_check(ctx, "req")

def expand(m, scale):
    """The same message with every body byte repeated `scale` times: (head, runs, body runs)."""
    t = m["msg"]; parts = t["parts"]
    size = {"lower": lambda n: f"{n:x}", "upper": lambda n: f"{n:X}", "zeros": lambda n: f"00{n:x}"}[t["sty"]]
    hs = "".join(h["n"] + h["s"] + h["v"] + h["w"] + "\r\n" for h in t["hs"])
    head = " ".join(t["line"]) + "\r\n" + hs
    L = sum(len(p) for p in parts) * scale
    runs = []; body = []
    for p in parts:
        pr = [[ch, scale] for ch in p]
        body += pr
        if t["cod"] == "ch": runs += [[size(len(p) * scale) + t["ext"] + "\r\n", 1]] + pr + [["\r\n", 1]]
        else: runs += pr
    if t["cod"] == "cl": head += f"Content-Length: {L}\r\n"
    if t["cod"] == "ch":
        head += "Transfer-Encoding: chunked\r\n"
        runs += [[("000" if t["sty"] == "zeros" else "0") + t["ext"] + "\r\n" + "".join(x + "\r\n" for x in t["tr"]) + "\r\n", 1]]
    return head + "\r\n", runs, body
def flat(runs): return "".join(a * n for a, n in runs)

def body_check(ctx, kind, op="body", small=True):
    ms = messages(ctx, kind + "-body")
    R = Runner(ctx, kind if op == "body" else kind + "-" + op)
    extra = {} if op == "body" else {"path": "@PATH"}
    def case(i, **kw):
        c = dict(kind=kind, plan=["head", op], **kw)
        if op == "save": c.update(path=f"{ctx.work}/save_{i % 97}_{i % 7}_{i}.bin"[-200:], fds=(i % 5 == 0))
        return c
    n_case = 0
    for m in ms:
        w, hl = m["wire"], m["headlen"]
        h0, runs, _ = expand(m, 1)
        assert (h0 + flat(runs)).encode("latin1") == w.encode("latin1"), (h0, flat(runs), w)
        good = [head_exp(m), {"ok": True, "body": m["body"]}]
        cs = cuts_for(ctx, len(w), lo=hl - 3, pairs=ctx.pick(6, 100))
        if not ctx.quick:
            cs += [[i, j] for i in range(hl - 1, len(w)) for j in range(i + 1, len(w))]
        if op == "save" and ctx.quick: cs = cs[::2]
        for c in cs:
            n_case += 1
            kw = {"pre": "X" * (n_case % 50)} if op == "save" else {}
            R.add(case(n_case, s=w, cuts=c, **kw), good, f"{w!r}:cuts={c}")
        if m["msg"]["cod"] != "none" and len(w) > hl:
            for k in range(hl, len(w)):
                n_case += 1
                R.add(case(n_case, s=w[:k], cuts=[hl] if k % 2 and k > hl else [], eof=True), [head_exp(m), FAIL], f"{w[:k]!r}:eof")
    R.run()
    # bodies around and beyond the receive buffer (16384) - the same templates scaled up
    scales = ctx.pick([5461, 8192, 16385], [819, 1023, 1024, 5461, 8191, 8192, 16383, 16384, 16385, 40000])
    big = [m for m in ms if m["msg"]["parts"] and len(m["body"]) in (1, 2, 3, 4) and not m["msg"]["tr"]]
    if ctx.quick: big = big[::3]
    for m in big:
        for sc in scales:
            head, runs, body = expand(m, sc)
            total = len(head) + sum(len(a) * n for a, n in runs)
            hdrs = dict(head_exp(m)["headers"])
            if m["msg"]["cod"] == "cl": hdrs["content-length"] = str(sum(n for _, n in body))
            b = flat(body).encode("latin1")
            exp = [{"ok": True, "headers": hdrs}, {"ok": True, "body": {"len": len(b), "fnv": fnv(b)}}]
            for ev in ctx.pick([997, 16384, total], [997, 4096, 8191, 16383, 16384, 16385, 65536, total]):
                n_case += 1
                R.add(case(n_case, bigstream=[[head, 1]] + runs, every=ev, cuts=[], big=True), exp, f"{head!r} parts={[len(p) * sc for p in m['msg']['parts']]}:every={ev}")
    R.run()
    return ms

def h02(ctx): body_check(ctx, "req")
def h05(ctx):
    head_check(ctx, "res")
    ms = body_check(ctx, "res")
    sequences(ctx, "res", ms)
def h08(ctx): body_check(ctx, "req", op="save")

def sequences(ctx, kind, ms):
    """Several messages on one connection, each parsed after clear()."""
    R = Runner(ctx, kind + "-seq")
    for i in range(ctx.pick(400, 6000)):
        k = ctx.rng.randint(2, 4)
        sel = [ctx.rng.choice(ms) for _ in range(k)]
        s = "".join(m["wire"] for m in sel)
        bounds = []
        p = 0
        for m in sel: p += len(m["wire"]); bounds.append(p)
        cuts = sorted(set(bounds[:-1]) | set(ctx.rng.sample(range(1, len(s)), ctx.rng.randint(0, 8))))
        exp, plan = [], []
        for m in sel:
            plan += ["head", "body", "clear"]; exp += [head_exp(m), {"ok": True, "body": m["body"]}, {"ok": True}]
        R.add(dict(kind=kind, s=s, cuts=cuts, plan=plan), exp, f"{s!r}:cuts={cuts}")
    R.run()
