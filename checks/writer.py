"""What the library writes: H06 (HttpWriter.tla), H07 (Range.tla), H09 (Sse.tla)."""
import zlib
from checks.session import parse_responses, rcuts
from checks.util import run
BUF = 131072
# ---------------------------------------------------------------- H06
NAMES = [["X-A", "x-a", "X-a"], ["Content-Type", "content-type", "CONTENT-TYPE"], ["X_Under-9", "x_under-9", "X_UNDER-9"], ["Server", "server", "SERVER"], ["Connection", "connection", "CONNECTION"]]
VALUES = ["v", "a: b, c=\"d\"", "\xc3\xa9 x\ty;q=0.1", "x" * 3000, "0", "close"]
TOK = {"nl": "\r\n", "z": "0", "a": "a", "line": "HTTP/1.1 200 OK\r\nContent-Length: 0", "sz": "5"}
def content(rng, toks, scale):
    """concrete text of an abstract body"""
    s = "".join(TOK[t["t"]] for t in toks)
    if not s: return s
    k = rng.random()
    if k < .25: s = s * rng.randint(1, 40)
    elif k < .35 and scale: n = rng.choice([1, 15, 16, 17, 255, 256, 4095, 4096, 16384, 65535, 65536, BUF - 1, BUF, BUF + 1, 2 * BUF, 2 * BUF + 7]); s = (s * (n // len(s) + 1))[:n]
    elif k < .5: s = "".join(chr(rng.randrange(256)) for _ in range(rng.randint(1, 60))) + s
    return s
def res_case(rng, g):
    nm = rng.sample(NAMES, 3); vals = rng.sample(VALUES, 3)
    st = {1: (200, "OK"), 2: rng.choice([(404, "Not Found"), (500, None), (201, "Made it"), (206, None), (302, "See: there")])}
    prog = []; exp = []; cur = dict(hs={}, body="", line=None, head=False); reason = None
    for e in g["prog"]:
        o = e["o"]
        if o == "line":
            s, r = st[e["s"]]; p = dict(o="line", s=s)
            if r: p["r"] = r
            prog.append(p); cur["line"] = (s, r)
        elif o == "hdr":
            k = e["k"] - 1; v = vals[e["v"] - 1]
            if nm[k][0] == "Connection" and v not in ("close", "v"): v = "close"
            prog.append(dict(o="hdr", k=rng.choice(nm[k]), v=v)); cur["hs"][nm[k][0].lower()] = v
        elif o == "body": cur["body"] = content(rng, e["b"], True); prog.append(dict(o="body", b=cur["body"]))
        elif o == "head": cur["head"] = True; prog.append(dict(o="head"))
        elif o == "send": prog.append(dict(o="send")); exp.append(dict(cur, hs=dict(cur["hs"]), kind="cl"))
        elif o == "file":
            f = content(rng, e["f"], True); prog.append(dict(o="file", f=dict(s=f, ext=rng.choice([".html", ".bin", ""])))); exp.append(dict(cur, hs=dict(cur["hs"]), body=f, line=(200, None), kind="ch"))
            exp[-1]["hs"].pop("content-type", None)
        elif o == "clear": prog.append(dict(o="clear")); cur = dict(hs={}, body="", line=None, head=False)
    return dict(mode="res", prog=prog), exp
def parse_one(raw, p, req, head=False):
    e = raw.find("\r\n\r\n", p)
    if e < 0: return None, "truncated head", p
    lines = raw[p:e].split("\r\n"); hs = {}
    for l in lines[1:]:
        k, sep, v = l.partition(":")
        if not sep or not k or k != k.strip(): return None, f"bad header line {l[:80]!r}", p
        if k.lower() in hs: return None, f"duplicate header {k}", p
        hs[k.lower()] = v.strip(" \t")
    p = e + 4; body = ""; kind = "none"
    if "content-length" in hs and "transfer-encoding" in hs: return None, "both framings", p
    if "content-length" in hs:
        kind = "cl"
        if not hs["content-length"].isdigit(): return None, "bad content-length", p
        n = int(hs["content-length"])
        if not head:
            if p + n > len(raw): return None, "truncated body", p
            body = raw[p:p + n]; p += n
    elif hs.get("transfer-encoding", "").lower() == "chunked":
        kind = "ch"
        while not head:
            e = raw.find("\r\n", p)
            if e < 0: return None, "truncated chunk", p
            try: n = int(raw[p:e], 16)
            except ValueError: return None, f"bad chunk size {raw[p:e][:40]!r}", p
            p = e + 2
            if n == 0:
                if raw[p:p + 2] != "\r\n": return None, "bad last chunk", p
                p += 2; break
            if raw[p + n:p + n + 2] != "\r\n": return None, "bad chunk end", p
            body += raw[p:p + n]; p += n + 2
    elif not req: return None, "no framing", p
    return dict(line=lines[0], hs=hs, body=body, kind=kind), None, p
EXTRA = {"connection", "server", "content-length", "transfer-encoding", "content-type", "date"}
def check_msgs(raw, exp, req):
    p = 0
    for i, x in enumerate(exp):
        m, err, p = parse_one(raw, p, req, x.get("head", False))
        if err: return f"message {i}: {err}"
        if req:
            if m["line"] != f"{x['line'][0]} {x['line'][1]} HTTP/1.1": return f"message {i}: request line {m['line'][:80]!r}"
        else:
            a = m["line"].split(" ", 2)
            if a[0] != "HTTP/1.1" or a[1] != str(x["line"][0]) or (x["line"][1] and (a[2] if len(a) > 2 else "") != x["line"][1]): return f"message {i}: status line {m['line'][:80]!r}, expected {x['line']}"
        for k, v in x["hs"].items():
            if m["hs"].get(k) != v.strip(" \t"): return f"message {i}: header {k}={str(m['hs'].get(k))[:60]!r}, set to {v[:60]!r}"
        for k in m["hs"]:
            if k not in x["hs"] and k not in (EXTRA if not req else {"content-length", "transfer-encoding"}): return f"message {i}: header {k} was never set"
        if not x.get("head") and m["body"] != x["body"]: return f"message {i}: body of {len(m['body'])} bytes differs from the {len(x['body'])} set"
        if x.get("head") and x["kind"] == "cl" and m["hs"].get("content-length") not in (None, str(len(x["body"]))): return f"message {i}: content-length {m['hs'].get('content-length')} for HEAD"
    if p != len(raw): return f"{len(raw) - p} bytes outside any message"
    return None
def judge_msgs(req):
    def judge(r, exp):
        if not r or r.get("skipped"): return None
        if "raw" not in r: return f"harness result {str(r)[:200]}"
        if r["err"]: return f"operation failed: {r['err'][:2]}"
        if r.get("fdleak"): return f"descriptors leaked: {r['fdleak']}"
        return check_msgs(r["raw"], exp, req)
    return judge
def req_case(rng, g):
    nm = rng.sample([n for n in NAMES], 3); vals = rng.sample(VALUES, 3)
    st = {i: (rng.choice(["GET", "POST", "PUT", "DELETE", "PATCH", "OPTIONS"]), rng.choice(["/", "/a/b?c=d&e=%20", "/" + "p" * 300, "*"])) for i in (1, 2)}
    prog = []; exp = []; cur = dict(hs={}, body="", line=None)
    for e in g["prog"]:
        o = e["o"]
        if o == "line": cur["line"] = st[e["s"]]; prog.append(dict(o="line", m=cur["line"][0], p=cur["line"][1]))
        elif o == "hdr":
            k = e["k"] - 1; v = vals[e["v"] - 1]; low = nm[k][0].lower()
            how = rng.choice(["set", "sethm"]) if e["how"] == "set" else rng.choice(["try", "tryvec", "trymap", "tryhm"])
            prog.append(dict(o="hdr", k=rng.choice(nm[k]), v=v, how=how))
            if e["how"] == "set" or low not in cur["hs"]: cur["hs"][low] = v
        elif o == "body": cur["body"] = content(rng, e["b"], True); prog.append(dict(o="body", b=cur["body"]))
        elif o == "send": prog.append(dict(o="send")); exp.append(dict(cur, hs=dict(cur["hs"])))
        elif o == "file": f = content(rng, e["f"], True); prog.append(dict(o="file", f=dict(s=f))); exp.append(dict(cur, hs=dict(cur["hs"]), body=f))
        elif o == "clear": prog.append(dict(o="clear")); cur = dict(hs={}, body="", line=None)
    return dict(mode="req", prog=prog), exp
def h06(ctx):
    ctx.exe = ctx.build("writer.cpp")
    for side, mk in (("res", res_case), ("req", req_case)):
        ctx.tlc("HttpWriter", dict(Side=f'"{side}"', MaxMsgs=2, MaxOps=ctx.pick(5, 6), Ks="{1,2}", Vs="{1,2}", Record="FALSE"), invariants=["RoundTrip"], workers=8, timeout=800)
        g = ctx.tlc("HttpWriter", dict(Side=f'"{side}"', MaxMsgs=4, MaxOps=18, Ks="{1,2,3}", Vs="{1,2,3}", Record="TRUE"), invariants=["RoundTrip", "Emit"], simulate=ctx.pick(2500, 25000), depth=60, workers=1)["gen"]
        g = ctx.rng.sample(g, min(len(g), ctx.pick(900, 12000)))
        run(ctx, "H06", [(*mk(ctx.rng, x), judge_msgs(side == "req"), side) for x in g], args=[ctx.work])
        # each transfer size around the read buffer
        items = []
        for n in [0, 1, 2, 9, 10, 15, 16, 17, 255, 256, 257, 4095, 4096, 65536, BUF - 1, BUF, BUF + 1, 2 * BUF - 1, 2 * BUF, 2 * BUF + 1, 3 * BUF]:
            f = data(n)
            if side == "res": items.append((dict(mode="res", prog=[dict(o="file", f=dict(n=n))] + [dict(o="clear"), dict(o="line", s=200), dict(o="send")]), [dict(line=(200, None), hs={}, body=f), dict(line=(200, None), hs={}, body="")], judge_msgs(False), "file"))
            else: items.append((dict(mode="req", prog=[dict(o="line", m="POST", p="/"), dict(o="file", f=dict(n=n))]), [dict(line=("POST", "/"), hs={}, body=f)], judge_msgs(True), "file"))
        run(ctx, "H06", items, args=[ctx.work])

_cache = {}
def data(n):
    if n not in _cache: _cache[n] = bytes((i * 7 + (i >> 8) * 13 + (i >> 16) * 101) & 255 for i in range(n)).decode("latin-1")
    return _cache[n]
# ---------------------------------------------------------------- H07
def range_text(rng, req):
    def one(s):
        if s["f"] == -1: return f"-{s['l']}"
        return f"{s['f']}-" + ("" if s["l"] == -1 else str(s["l"]))
    return "bytes=" + ",".join((" " if i and rng.random() < .4 else "") + one(s) for i, s in enumerate(req))
def parts_of(body, boundary):
    """strict multipart/byteranges parser: [(headers, content)] or str (error); content lengths from the part's own headers"""
    out = []; p = 0
    while True:
        if body.startswith(f"--{boundary}--", p):
            rest = body[p + len(boundary) + 4:]
            return out if rest in ("", "\r\n") else f"{len(rest)} bytes behind the closing boundary"
        if not body.startswith(f"--{boundary}\r\n", p): return f"no boundary at {p}: {body[p:p+30]!r}"
        p += len(boundary) + 4; e = body.find("\r\n\r\n", p)
        if e < 0: return "truncated part head"
        hs = {k.lower(): v.strip() for k, _, v in (l.partition(":") for l in body[p:e].split("\r\n"))}
        p = e + 4
        q = body.find(f"\r\n--{boundary}", p)
        if q < 0: return "unterminated part"
        out.append((hs, body[p:q])); p = q + 2
def judge_range(r, x):
    if not r or r.get("skipped"): return None
    if "err" not in r: return f"harness result {str(r)[:200]}"
    if r["err"]: return f"operation failed: {r['err'][:2]}"
    if r.get("fdleak"): return f"descriptors leaked: {r['fdleak']}"
    head = r["head"] if "head" in r else r["raw"][:r["raw"].find("\r\n\r\n") + 4]
    n = x["n"]; f = x.get("data") if x.get("data") is not None else data(n)
    m, err, _ = parse_one(head, 0, False, True)
    if err: return err
    st = m["line"].split(" ")[1]; hs = m["hs"]; blen = r["blen"] if "head" in r else len(r["raw"]) - len(head)
    crc = lambda s: zlib.crc32(s.encode("latin-1"))
    if x["m"] == "HEAD":
        if blen: return f"{blen} body bytes for HEAD"
        if st != "200" or hs.get("content-length") != str(n): return f"HEAD: {st} content-length {hs.get('content-length')} for {n} bytes"
        if x["ct"] is not None and hs.get("content-type") != x["ct"]: return f"HEAD: content-type {hs.get('content-type')}, GET says {x['ct']}"
        return None
    whole = lambda: None if st == "200" and hs.get("content-length") == str(n) and blen == n and r["crc"] == crc(f) else f"status {st}, content-length {hs.get('content-length')}, {blen} bytes for the whole file of {n}"
    if x.get("malformed"):
        return None if st == "416" and hs.get("content-length", "0") == "0" and blen == 0 else whole() and f"malformed range: status {st}, {blen} bytes"
    if not x["req"]: return whole()
    if x["refused"]:
        return None if st == "416" and blen == 0 and hs.get("content-length", "0") == "0" and "transfer-encoding" not in hs else f"unsatisfiable: status {st}, {blen} body bytes"
    if st != "206": return f"status {st}, expected 206"
    if hs.get("content-length") != str(blen): return f"content-length {hs.get('content-length')}, body of {blen} bytes"
    plan = x["plan"]
    if "raw" not in r or "multipart" not in hs.get("content-type", ""):
        if len(plan) != 1: return f"{len(plan)} ranges answered by one part"
        b, e = plan[0]["b"], plan[0]["e"]
        if hs.get("content-range") != f"bytes {b}-{e}/{n}": return f"content-range {hs.get('content-range')}, expected {b}-{e}/{n}"
        c = r["crc"] if "crc" in r else crc(r["raw"][len(head):])
        return None if blen == e - b + 1 and c == crc(f[b:e + 1]) else f"{blen} bytes differ from {b}-{e} of {n}"
    bd = hs["content-type"].partition("boundary=")[2].strip('"')
    ps = parts_of(r["raw"][len(head):], bd)
    if isinstance(ps, str): return "multipart: " + ps
    if len(ps) != len(plan): return f"{len(ps)} parts, expected {len(plan)}"
    for i, ((h, c), q) in enumerate(zip(ps, plan)):
        b, e = q["b"], q["e"]
        if h.get("content-range") != f"bytes {b}-{e}/{n}": return f"part {i}: content-range {h.get('content-range')}, expected {b}-{e}/{n}"
        if c != f[b:e + 1]: return f"part {i}: {len(c)} bytes differ from {b}-{e} of {n}"
        if h.get("content-length", str(e - b + 1)) != str(e - b + 1): return f"part {i}: content-length {h['content-length']}"
    return None
def h07(ctx):
    ctx.exe = ctx.build("writer.cpp")
    ctx.tlc("Range", dict(Sizes="{0,1,2,5}", Pos="{0,1,2,4,5,6}", Buf=2, MaxSpecs=2, Record="FALSE"), invariants=["Refused", "Bytes", "Headers"], properties=["Ends"], spec_formula="Spec", workers=8)
    if not ctx.quick: ctx.tlc("Range", dict(Sizes="{0,1,3,4,6}", Pos="{0,1,2,3,4,5,6,7}", Buf=3, MaxSpecs=2, Record="FALSE"), invariants=["Refused", "Bytes", "Headers"], properties=["Ends"], spec_formula="Spec", workers=8, timeout=800)
    real = lambda b: sorted({0, 1, 2, 9, 10, b - 2, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 99999999})
    sets = [([0, 1, 2, 3], [0, 1, 2, 3, 4]), ([BUF - 1, BUF, BUF + 1, 2 * BUF, 2 * BUF + 1], [0, 1, BUF - 1, BUF, BUF + 1, 2 * BUF - 1, 2 * BUF, 2 * BUF + 1, 99999999]), ([10, 11, 100, 1000], [0, 1, 9, 10, 11, 99, 100, 101, 999, 1000])]
    S = lambda l: "{" + ",".join(map(str, l)) + "}"
    items = []
    for sizes, pos in sets:
        g = ctx.tlc("Range", dict(Sizes=S(sizes), Pos=S(pos), Buf=2, MaxSpecs=1, Record="TRUE"), invariants=["Emit"], next="GenNext", workers=1)["gen"]
        if ctx.quick and len(g) > 420: g = [x for x in g if not x["req"]] + ctx.rng.sample(g, 420)
        items += [single(ctx.rng, x) for x in g]
        g = ctx.tlc("Range", dict(Sizes=S(sizes), Pos=S(pos), Buf=2, MaxSpecs=1, Record="TRUE"), init="RInit", next="RNext", invariants=["Emit"], simulate=ctx.pick(150, 2000), depth=4, workers=1)["gen"]
        items += [single(ctx.rng, x, multi=True) for x in g if sum(p["e"] - p["b"] for p in x["plan"]) < 700000]
    bad = ["bytes", "bytes=", "bytes", "", "byte", "bytes=-", "bytes=a-b", "bytes=1", "bytes=--1", "items=0-1", "bytes=0-1-2", "bytes=,", "bytes=0x1-2", "bytes=5-2", "bytes=-0", "bytes=+1-2", "bytes= ", "bytes=99999999999999999999999-", "b"]
    for n in (0, 10, BUF + 1):
        for b in bad:
            if b == "bytes=-0" or b.startswith("bytes=9"): items.append((dict(mode="res", sum=True, prog=[dict(o="range", m="GET", range=b, f=dict(n=n))]), dict(m="GET", n=n, req=[1], plan=[], refused=True), judge_range, "malformed"))
            else: items.append((dict(mode="res", sum=True, prog=[dict(o="range", m="GET", range=b, f=dict(n=n))]), dict(m="GET", n=n, req=[1], malformed=True), judge_range, "malformed"))
    items += [(dict(mode="res", sum=True, prog=[dict(o="range", m="GET", range="bytes=0-99999999999999999999999", f=dict(n=10))]), dict(m="GET", n=10, req=[1], plan=[dict(b=0, e=9)], refused=False), judge_range, "huge")]
    # a file nobody may open for writing (the running harness itself)
    exe = open(ctx.exe, "rb").read().decode("latin-1")
    for m, rg, plan in (("GET", None, []), ("GET", "bytes=100-199", [dict(b=100, e=199)]), ("HEAD", None, [])):
        op = dict(o="range", m=m, path=ctx.exe)
        if rg: op["range"] = rg
        items.append((dict(mode="res", sum=True, prog=[op]), dict(m=m, n=len(exe), data=exe, req=[1] if rg else [], plan=plan, refused=False, ct=None), judge_range, "busy file"))
    for ext, n in ((".html", 10), (".png", 0), ("", 3)):
        items.append((dict(mode="res", sum=True, prog=[dict(o="range", m="HEAD", f=dict(n=n, ext=ext or ".bin"))]), dict(m="HEAD", n=n, ct={".html": "text/html", ".png": "image/png"}.get(ext)), judge_range, "HEAD"))
    run(ctx, "H07", items, args=[ctx.work])
def single(rng, g, multi=False):
    m = "HEAD" if rng.random() < .08 and not multi else "GET"
    op = dict(o="range", m=m, f=dict(n=g["n"]))
    if g["req"]: op["range"] = range_text(rng, g["req"])
    return dict(mode="res", sum=not multi, prog=[op]), dict(g, m=m, ct=None), judge_range, "multi" if multi else "single"
# ---------------------------------------------------------------- H09
def cval(rng, v):
    m = {"x": rng.choice(["x", "word", "{\"k\": 1}", "\xe4\xbd\xa0", "data", "\t", "\x00"]), "s": " ", "c": ":", "n": "\n", "b": rng.choice(["y" * 300, "z" * rng.choice([16370, 16383, 16384, 16385, 40000])])}
    return "".join(m[c] for c in v)
def sse_decode(s):
    """independent event-stream decoder (fields data, event, id, retry; several event lines are joined as the library does)"""
    out = []; cur = {}
    for l in s.split("\n")[:-1]:
        if l == "":
            if cur: out.append({k: "\n".join(v) if k in ("data", "event") else v for k, v in cur.items()})
            cur = {}; continue
        k, sep, v = l.partition(":")
        if v.startswith(" "): v = v[1:]
        if not sep and False: continue
        if k in ("data", "event"): cur.setdefault(k, []).append(v)
        elif k == "id": cur["id"] = v
        elif k == "retry": cur["retry"] = int(v)
    return out, cur, not s or s.endswith("\n\n")
def norm(e): return dict(data=e.get("data", ""), event=e.get("event", ""), **({"id": e["id"]} if "id" in e else {}), **({"retry": e["retry"]} if "retry" in e else {}))
def sse_case(rng, g):
    evs = []; want = []
    for x in g["evs"]:
        if x["ping"]: evs.append(dict(ping=True)); continue
        e = x["e"]; c = dict(data=cval(rng, e["data"]), event=cval(rng, e["event"]))
        if e["id"][0]: c["id"] = cval(rng, e["id"][1])
        if e["retry"] >= 0: c["retry"] = e["retry"] if e["retry"] == 0 else rng.choice([7, 1500, 2**40])
        evs.append(dict(e=c)); want.append(norm(c))
    return dict(mode="ssepush", evs=evs), want
def judge_push(r, want):
    if not r or r.get("skipped"): return None
    if "raw" not in r: return f"harness result {str(r)[:200]}"
    if r["err"]: return f"{r['err'][:2]}"
    if not r["eof"]: return "the stream does not end with its handler"
    if r.get("fdleak"): return f"descriptors leaked: {r['fdleak']}"
    h, _, body = r["raw"].partition("\r\n\r\n")
    if not h.startswith("HTTP/1.1 200") or "text/event-stream" not in h.lower(): return f"head {h[:100]!r}"
    ev, rest, clean = sse_decode(body)
    if rest or not clean: return "stream ends inside an event"
    ev = [norm(e) for e in ev]
    return None if ev == want else f"pushed events decode to {str([e for e in ev if e not in want][:1])[:150]}, expected {str([e for e in want if e not in ev][:1])[:150]} ({len(ev)} of {len(want)})"
def judge_parse(r, want):
    if not r or r.get("skipped"): return None
    if "out" not in r: return f"harness result {str(r)[:200]}"
    if r.get("timeout"): return f"stream did not end ({len(r['out'])} of {len(want)} events)"
    if r.get("fdleak"): return f"descriptors leaked: {r['fdleak']}"
    if len(r["err"]) != 1: return f"end of stream: {r['err']}"
    got = [norm(e) for e in r["out"]]
    return None if got == want else f"received {str([e for e in got if e not in want][:1])[:150]}, expected {str([e for e in want if e not in got][:1])[:150]} ({len(got)} of {len(want)})"
def parse_case(rng, head, body, want):
    s = head + body; n = len(s); k = rng.random()
    c = dict(mode="sseparse", s=s, cuts=[])
    if k < .25 and n < 1500: c["every"] = 1
    elif k < .4: c["cuts"] = [len(head)]
    elif k < .5: c["every"] = rng.choice([2, 3, 7, 100, 1000])
    else: c["cuts"] = rcuts(rng, n)
    if rng.random() < .1: c["waitms"] = 5
    if n > 3000 and c.get("every", 1000) < 100: c["every"] = 1000
    return c, want, judge_parse, "parse"
def h09(ctx):
    ctx.exe = ctx.build("writer.cpp")
    ctx.tlc("Sse", dict(MaxEvents=1, Vals="<- V1", Whole="TRUE", Record="FALSE"), spec_formula="Spec", invariants=["InOrder", "Prompt"], properties=["EndsTogether"], workers=8)
    ctx.tlc("Sse", dict(MaxEvents=2, Vals="<- V2", Whole="FALSE", Record="FALSE"), spec_formula="Spec", invariants=["InOrder", "Prompt"], properties=["EndsTogether"], workers=8, timeout=800)
    g = ctx.tlc("Sse", dict(MaxEvents=8, Vals="<- V3", Whole="TRUE", Record="TRUE"), next="GNext", invariants=["Emit"], simulate=ctx.pick(600, 6000), depth=30, workers=1)["gen"]
    cases = [sse_case(ctx.rng, x) for x in g]
    items = [(c, w, judge_push, "push") for c, w in cases]
    res = run(ctx, "H09", items, args=[ctx.work])
    items = []
    for (c, w), r in zip(cases, res):
        if not r or "raw" not in r or judge_push(r, w): continue
        h, _, body = r["raw"].partition("\r\n\r\n"); h += "\r\n\r\n"
        items.append(parse_case(ctx.rng, h, body, w))
        # the same events as another server would write them
        alt = "".join(":" + ctx.rng.choice(["", " keep-alive", "data: no"]) + "\n" + ("\n" if ctx.rng.random() < .5 else "") if ctx.rng.random() < .2 else "" for _ in "x")
        for e in w:
            ls = [[("event", l) for l in e["event"].split("\n")] if e["event"] else [], [("data", l) for l in e["data"].split("\n")] if e["data"] else [], [("id", e["id"])] if "id" in e else [], [("retry", str(e["retry"]))] if "retry" in e else [], [("other", "x")] if ctx.rng.random() < .2 else []]
            ctx.rng.shuffle(ls)
            for k, v in sum(ls, []): alt += k + (": " if v.startswith(" ") or ctx.rng.random() < .5 else ":") + v + "\n"
            alt += "\n" * ctx.rng.choice([1, 1, 1, 2])
            if ctx.rng.random() < .2: alt += ": c\n\n"
        items.append(parse_case(ctx.rng, "HTTP/1.1 200 OK\r\nContent-Type: text/event-stream; charset=utf-8\r\n\r\n", alt, w))
    run(ctx, "H09", items, args=[ctx.work])
