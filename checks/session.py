"""Server connections and routing: H03, H04, H10 (HttpSession.tla), R01, R02 (Router.tla), R03 (Interceptors.tla)."""
import json, os
INV = ["InOrder", "OwnBody", "HeadAlone", "Clean", "CloseForReason"]

def parse_responses(raw, heads=()):
    """Strict split of a byte stream (latin-1 str) into responses; returns (list, error or None).
    heads: indices of the answers to HEAD requests (no body); "any": an answer may lack its body."""
    out = []; p = 0
    while p < len(raw):
        e = raw.find("\r\n\r\n", p)
        if e < 0: return out, "truncated head"
        lines = raw[p:e].split("\r\n"); st = lines[0].split(" ", 2)
        if len(st) < 2 or st[0] != "HTTP/1.1" or not (len(st[1]) == 3 and st[1].isdigit()): return out, f"bad status line {lines[0]!r}"
        hs = {}
        for l in lines[1:]:
            k, sep, v = l.partition(":")
            if not sep or not k or k != k.strip(): return out, f"bad header line {l!r}"
            if k.lower() in hs: return out, f"duplicate header {k}"
            hs[k.lower()] = v.strip()
        p = e + 4
        if (p == len(raw) or raw.startswith("HTTP/1.1 ", p)) if heads == "any" else len(out) in heads:
            if "content-length" not in hs and "transfer-encoding" not in hs: return out, "no framing"
            body = ""
        elif hs.get("content-type") == "text/event-stream" and "content-length" not in hs and hs.get("connection") == "close": body = raw[p:]; p = len(raw)
        elif "content-length" in hs:
            if not hs["content-length"].isdigit(): return out, "bad content-length"
            n = int(hs["content-length"])
            if p + n > len(raw): return out, "truncated body"
            body = raw[p:p + n]; p += n
        elif hs.get("transfer-encoding", "").lower() == "chunked":
            body = ""
            while True:
                e = raw.find("\r\n", p)
                if e < 0: return out, "truncated chunk"
                try: n = int(raw[p:e], 16)
                except ValueError: return out, f"bad chunk size {raw[p:e]!r}"
                p = e + 2
                if n == 0:
                    if raw[p:p + 2] != "\r\n": return out, "bad last chunk"
                    p += 2; break
                if raw[p + n:p + n + 2] != "\r\n": return out, "bad chunk end"
                body += raw[p:p + n]; p += n + 2
        else: return out, "no framing"
        out.append(dict(status=int(st[1]), reason=st[2] if len(st) > 2 else "", headers=hs, body=body))
    return out, None

ROUTES = [dict(ms=["GET", "POST", "HEAD"], p=f"/{a}", id=a, act=a, ic=[]) for a in ("read", "ignore", "x", "readx", "close", "readclose", "throw", "throw2", "late", "sse")]
ROUTES += [dict(ms=["GET", "POST"], p="/par/{x}/{y}", id="par", act="par", ic=[]), dict(ms=["GET"], p="/wild/**", id="wild", act="wild", ic=[])]
FILE = "".join(chr(33 + (i * i * 7 + i // 90) % 90) for i in range(3000)) + "\r\n\r\nHTTP/1.1 200 OK\r\n"
FROUTES = ("file", "range", "norange", "chunk")
def routes(ctx):
    f = ctx.work + "/served.txt"
    if not os.path.exists(f): open(f, "w", newline="").write(FILE)
    return ROUTES + [dict(ms=["GET", "POST", "HEAD"], p=f"/{a}", id=a, act=a, ic=[], f=f) for a in FROUTES] + [dict(ms=["GET", "POST"], p="/cut", id="cut", act="cut", ic=[], f=ctx.work)]
BAD = ["xx\r\n\r\n", "GET /read\r\n\r\n", "GET /read HTTP/1.1\r\nno colon\r\n\r\n", "POST /read HTTP/1.1\r\nContent-Length: abc\r\n\r\n",
       "POST /read HTTP/1.1\r\nContent-Length: -5\r\n\r\nhello", "POST /read HTTP/1.1\r\nContent-Length: 99999999999999999999999\r\n\r\n",
       "POST /read HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nhello\r\n0\r\n\r\n", "POST /read HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhelloXX0\r\n\r\n",
       "\x00\x01\x02\r\n\r\n", "A" * 40000, "\xff\xfe GET\r\n\r\n", "GET\r\n\r\n", "POST /read HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n\r\n\r\n"]

def render(rng, c, id, s):
    """(head, body, body value, headers, target)"""
    q = f"?c={c}&id={id}" + ("&flag" if rng.random() < .3 else "")
    target = "/" + s["act"] + (f"/p{c}/v{id}" if s["act"] == "par" else f"/w{c}/v{id}" if s["act"] == "wild" else "") + q
    hs = [("X-Id", f"{c}.{id}"), (f"x-only-{id}", f"v{id}:{rng.randint(0, 9)}")]
    if rng.random() < .3: hs.append(("Accept", "*/*"))
    if s["close"]: hs.append(("Connection", rng.choice(["close", "Close", "CLOSE", "cLoSe"])))
    elif rng.random() < .3: hs.append(("Connection", rng.choice(["keep-alive", "Keep-Alive"])))
    rg = None
    if s["act"] == "range":
        a = rng.randint(0, len(FILE) - 1); b = rng.randint(a, len(FILE) + 20); rg = (a, min(b, len(FILE) - 1)); hs.append(("Range", f"bytes={a}-{b}"))
    elif s["act"] == "norange": hs.append(("Range", f"bytes={len(FILE) + rng.randint(0, 9)}-"))
    val = ""
    if s["cod"] != "none":
        n = rng.choice([2, 5, 20, 20, 20, 300, 17000 if rng.random() < .3 else 7])
        val = (f"<{c}.{id}>" + "".join(rng.choice("ab\r\n0GET /") for _ in range(n)))[:max(2, n)]
    if s["cod"] == "cl": hs.append(("Content-Length", str(len(val)))); body = val
    elif s["cod"] == "ch":
        hs.append(("Transfer-Encoding", "chunked")); k = rng.randint(1, len(val) - 1)
        body = "".join(f"{len(x):x}\r\n{x}\r\n" for x in (val[:k], val[k:])) + "0\r\n\r\n"
    else: body = ""
    rng.shuffle(hs)
    head = f"{s['m']} {target} HTTP/1.1\r\n" + "".join(f"{k}: {v}\r\n" for k, v in hs) + "\r\n"
    return dict(head=head, body=body, val=val, hs={k.lower(): v for k, v in hs}, target=target, rg=rg, pp=[f"p{c}", f"v{id}"] if s["act"] == "par" else [], w=f"/w{c}/v{id}" if s["act"] == "wild" else None)

def rcuts(rng, n):
    if n < 2 or rng.random() < .35: return []
    return sorted(rng.sample(range(1, n), min(rng.choice([1, 1, 2, 3, 6]), n - 1)))

def to_case(rng, g, routes, to=None):
    """One generated behaviour -> (case for the harness, expectation)."""
    nc = len(g["sent"]); msgs = {}; steps = []; cutpos = {}; nresp = [0] * nc
    for e in g["hist"]:
        c = e["c"] - 1; o = e["o"]
        if o in ("send", "rest"):
            key = (c, e["id"])
            if key not in msgs: msgs[key] = render(rng, c, e["id"], e["s"])
            m = msgs[key]; full = m["head"] + m["body"]
            if o == "rest": data = full[cutpos[key]:]
            elif e["part"] == "all": data = full
            else:
                k = rng.randint(1, len(m["head"]) - 1) if e["part"] == "head" else len(m["head"]) + rng.randint(0, len(m["body"]) - 1)
                cutpos[key] = k; data = full[:k]
            cuts = rcuts(rng, len(data))
            steps.append(dict(o="send", c=c, s=data, cuts=cuts, w=bool(cuts) and rng.random() < .6))
        elif o == "bad":
            data = BAD[(e["k"] - 1) % len(BAD)]
            steps.append(dict(o="send", c=c, s=data, cuts=rcuts(rng, min(len(data), 50)), w=False))
        elif o == "shut": steps.append(dict(o="shut", c=c))
        elif o == "rst": steps.append(dict(o="rst", c=c))
        elif o == "resp":
            nresp[c] += 1
            steps.append(dict(o="await", c=c, n=nresp[c], hd=[k for k, r in enumerate(g["out"][c]) if r["m"] == "HEAD"]))
    for c in range(nc):
        if g["cl"][c] == "gone": continue
        if g["ph"][c] == "closed": steps.append(dict(o="closed", c=c))
        elif to is None: steps.append(dict(o="open", c=c, ms=2))
    if to:  # idle and half-sent connections end by themselves
        for c in range(nc):
            if g["cl"][c] != "gone" and g["ph"][c] != "closed": steps.append(dict(o="closed", c=c))
    case = dict(routes=routes, conns=nc, steps=steps)
    if to: case["to"] = to
    exp = []
    for c in range(nc):
        rs = []
        for r in g["out"][c]:
            s = g["sent"][c][r["id"] - 1]["s"]; m = msgs[(c, r["id"])]
            if s["m"] == "HEAD" and s["act"] in FROUTES: rs.append(dict(status=200, head=True, hd={"content-length": str(len(FILE))} if s["act"] == "file" else {"transfer-encoding": "chunked"}))
            elif s["act"] in ("file", "chunk"): rs.append(dict(status=200, body=FILE))
            elif s["act"] == "range": rs.append(dict(status=206, body=FILE[m["rg"][0]:m["rg"][1] + 1], hd={"content-range": f"bytes {m['rg'][0]}-{m['rg'][1]}/{len(FILE)}"}))
            elif s["act"] == "norange": rs.append(dict(status=416, body=""))
            elif s["m"] == "HEAD": rs.append(dict(status=404 if s["act"] == "missing" else 201 if s["act"] == "x" else 200, xset="x" if s["act"] == "x" else None, head=True))
            elif s["act"] == "missing": rs.append(dict(status=404))
            else:
                x = dict(status=201 if s["act"] in ("x", "readx") else 200, xset=s["act"] if s["act"] in ("x", "readx") else None,
                         obs=dict(id=s["act"], m=s["m"], path=m["target"], pure=m["target"].split("?")[0], ver="HTTP/1.1", h=dict(m["hs"]),
                                  q={k: v for k, _, v in (p.partition("=") for p in m["target"].split("?")[1].split("&"))}, pp=m["pp"], w=m["w"]))
                if s["act"] == "sse": x["sse"] = True
                if s["act"] in ("read", "readx", "readclose"): x["obs"]["b"] = m["val"]
                rs.append(x)
        exp.append(dict(rs=rs, gone=g["cl"][c] == "gone", closed=g["ph"][c] == "closed", bad=g["half"][c] == "bad", cut=g["cut"][c]))
    return case, exp

def judge(r, exp, to=None):
    """None if the observed result r is what the specification allows."""
    if not r or r.get("skipped"): return None
    if "c" not in r: return f"harness result {str(r)[:200]}"
    if r.get("fdleak"): return f"descriptors leaked: {r['fdleak']}"
    for i, (o, e) in enumerate(zip(r["c"], exp)):
        rs, err = parse_responses(o["got"], [k for k, x in enumerate(e["rs"]) if x.get("head")])
        if e.get("cut") and not e["gone"] and (err != "truncated chunk" or not o["eof"]): return f"connection {i}: an answer whose transfer failed does not end with a closed connection ({err})"
        if err and not ((e["gone"] or e.get("cut")) and err.startswith("truncated")): return f"connection {i}: ill-formed output: {err}"
        if e["bad"] and len(rs) == len(e["rs"]) + 1 and rs[-1]["status"] >= 400: rs = rs[:-1]
        if len(rs) > len(e["rs"]) or (not e["gone"] and len(rs) < len(e["rs"])): return f"connection {i}: {len(rs)} responses, expected {len(e['rs'])}"
        for k, (x, y) in enumerate(zip(rs, e["rs"])):
            if x["status"] != y["status"]: return f"connection {i} response {k}: status {x['status']}, expected {y['status']}"
            if x["headers"].get("x-set") != y.get("xset"): return f"connection {i} response {k}: header X-Set={x['headers'].get('x-set')}, expected {y.get('xset')}"
            for h, v in y.get("hd", {}).items():
                if x["headers"].get(h) != v: return f"connection {i} response {k}: header {h}={x['headers'].get(h)}, expected {v}"
            if "body" in y and x["body"] != y["body"]: return f"connection {i} response {k}: body of {len(x['body'])} bytes, expected {len(y['body'])}"
            if "obs" in y:
                if y.get("sse"):
                    if not (x["body"].startswith("data: ") and x["body"].endswith("\n\n")): return f"connection {i} response {k}: event stream {x['body'][:80]!r}"
                    x["body"] = x["body"][6:-2]
                try: obs = json.loads(x["body"])
                except Exception: return f"connection {i} response {k}: body {x['body'][:80]!r}"
                if obs != y["obs"]:
                    d = {f: (obs.get(f), y["obs"].get(f)) for f in set(obs) | set(y["obs"]) if obs.get(f) != y["obs"].get(f)}
                    return f"connection {i} response {k}: handler observed {str(d)[:300]} (observed, sent)"
        if not e["gone"]:
            if (e["closed"] or to) and not o["eof"]: return f"connection {i} still open"
            if not e["closed"] and not to and o["eof"]: return f"connection {i} closed without reason"
    if r.get("late"): return f"late: {r['log']}"
    return None

def run(ctx, label, items, jobs=6, timeout_case=40):
    exe = ctx.exe
    res = ctx.replay(exe, [c for c, _, _, _ in items], jobs=jobs, timeout_case=timeout_case)
    bad = [i for i, r in enumerate(res) if items[i][2](r, items[i][1])]
    if bad:
        again = ctx.replay(exe, [items[i][0] for i in bad[:12]], jobs=2, timeout_case=timeout_case)
        for i, r in zip(bad[:12], again):
            w = items[i][2](r, items[i][1])
            if w: ctx.mismatch(f"{label}:{items[i][3]}:{w}", w, items[i][0])
    ctx.traces += len(items)
    if items: ctx.sample(items[len(items) // 2][0])

def gen(ctx, num, **kw):
    k = dict(NConn=2, MaxSend=6, MaxSteps=24, Record="TRUE", Faults="TRUE"); k.update(kw)
    return ctx.tlc("HttpSession", k, invariants=INV + ["Emit"], simulate=num, depth=220, workers=1)["gen"]

def h03(ctx):
    ctx.exe = ctx.build("session.cpp")
    ctx.tlc("HttpSession", dict(NConn=1, MaxSend=3, MaxSteps=0, Record="FALSE", Faults="FALSE"), spec_formula="FairSpec", invariants=INV,
            properties=["NoMoreAfterClose", "EventuallyAnswered"], workers=8)
    if not ctx.quick:
        ctx.tlc("HttpSession", dict(NConn=2, MaxSend=2, MaxSteps=0, Record="FALSE", Faults="FALSE"), invariants=INV, workers=8, timeout=800)
    items = []
    for kw, num in ((dict(NConn=1, Faults="FALSE", MaxSend=8), ctx.pick(500, 6000)), (dict(NConn=2, Faults="FALSE"), ctx.pick(300, 4000))):
        for g in gen(ctx, num, **kw):
            for _ in range(2):
                c, e = to_case(ctx.rng, g, routes(ctx)); items.append((c, e, judge, "session"))
    run(ctx, "H03", items)

def h04(ctx):
    ctx.exe = ctx.build("session.cpp")
    ctx.tlc("HttpSession", dict(NConn=1, MaxSend=2, MaxSteps=0, Record="FALSE", Faults="TRUE"), spec_formula="FairSpec", invariants=INV,
            properties=["NoMoreAfterClose", "EventuallyAnswered", "EventuallyClosed"], workers=8)
    if not ctx.quick:
        ctx.tlc("HttpSession", dict(NConn=2, MaxSend=2, MaxSteps=0, Record="FALSE", Faults="TRUE"), invariants=INV, workers=8, timeout=800)
    items = []
    for kw, num in ((dict(NConn=1, MaxSend=4), ctx.pick(500, 6000)), (dict(NConn=3, MaxSend=4, MaxSteps=30), ctx.pick(300, 4000))):
        for g in gen(ctx, num, **kw):
            c, e = to_case(ctx.rng, g, routes(ctx)); items.append((c, e, judge, "session"))
    run(ctx, "H04", items)
    short = [g for g in gen(ctx, ctx.pick(150, 600), NConn=3, MaxSend=2, MaxSteps=10) if len(g["hist"]) <= 12][:ctx.pick(60, 300)]
    items = []
    for g in short:
        c, e = to_case(ctx.rng, g, routes(ctx), to="150ms"); items.append((c, e, lambda r, e: judge(r, e, to=True), "idle"))
    run(ctx, "H04", items)

# ---------------------------------------------------------------- H10
TOKS = ["GET /read HTTP/1.1\r\n", "POST /read HTTP/1.1\r\n", "POST /ignore HTTP/1.1\r\n", "HEAD / HTTP/1.1\r\n", "\r\n", "\r\n\r\n", "\r", "\n", " ", ":", ": ",
        "Content-Length: 5\r\n", "Content-Length: -1\r\n", "Content-Length: 18446744073709551616\r\n", "Content-Length:\r\n", "Content-Length: 7fffffffffffffff\r\n",
        "Content-Length: 9223372036854775807\r\n", "Transfer-Encoding: chunked\r\n", "Transfer-Encoding: CHUNKED\r\n", "hello", "5\r\nhello\r\n", "0\r\n\r\n", "ffffffffffffffff\r\n", "-1\r\n", "8000000000000000\r\n", "5;x=y\r\nhello\r\n", "0\r\nTr: 1\r\n\r\n", "GET /ignore HTTP/1.1\r\n", "POST /readx HTTP/1.1\r\n",
        "\x00", "\xff\xfe", "GET", "/", "?a=b&&=c&=", "Connection: close\r\n", "Host: x\r\n", " folded\r\n", "X\r\n", "GET  HTTP/1.1\r\n\r\n", "GET /%zz?%=% HTTP/1.1\r\n\r\n",
        "GET " + "/x" * 9000 + " HTTP/1.1\r\n\r\n", "A" * 20000, "X: " + "y" * 16380 + "\r\n", "GET /throw HTTP/1.1\r\n\r\n", "POST /readclose HTTP/1.1\r\n", "GET /p/ HTTP/1.1\r\n\r\n", "GET /../../** HTTP/1.1\r\n\r\n", "G" * 16384, "HTTP/1.1 200 OK\r\n\r\n"]

def gconst(**kw):
    ix = lambda f: "{" + ",".join(str(i + 1) for i, t in enumerate(TOKS) if f(t)) + "}"
    d = dict(NTok=len(TOKS), Starts=ix(lambda t: t.endswith("HTTP/1.1\r\n")), Hdrs=ix(lambda t: ": " in t and t.endswith("\r\n") or t in ("X\r\n", "Content-Length:\r\n")),
             Blank=TOKS.index("\r\n") + 1, Bodies=ix(lambda t: t in ("hello", "5\r\nhello\r\n", "0\r\n\r\n", "ffffffffffffffff\r\n", "-1\r\n", "8000000000000000\r\n", "\r\n", "5;x=y\r\nhello\r\n", "0\r\nTr: 1\r\n\r\n")))
    d.update(kw); return d
def h10(ctx):
    ctx.exe = ctx.build("session.cpp")
    ctx.tlc("HttpGarbage", gconst(NTok=2, MaxLen=3, MaxProbe=2, Mode='"check"'), spec_formula="Spec", invariants=["Bounded"], properties=["Ends", "ProbeAnswered"], workers=4)
    allg = ctx.tlc("HttpGarbage", gconst(MaxLen=2, MaxProbe=0, Mode='"all"'), invariants=["Emit"])["gen"]
    allg = [g for g in allg if g["end"] == "half" or ctx.rng.random() < .1]
    if ctx.quick: allg = ctx.rng.sample(allg, 700)
    rnd = ctx.tlc("HttpGarbage", gconst(MaxLen=24, MaxProbe=0, Mode='"gen"'), invariants=["Emit"], simulate=ctx.pick(1500, 12000), depth=40)["gen"]
    items = []
    for g in allg + rnd:
        data = "".join(TOKS[t - 1] for t in g["toks"])
        steps = []; pr = [0]
        def probe():
            pr[0] += 1; steps.append(dict(o="send", c=1, s=f"POST /readx?n={pr[0]} HTTP/1.1\r\nX-Id: {pr[0]}\r\nContent-Length: 3\r\n\r\nabc", cuts=[], w=False)); steps.append(dict(o="await", c=1, n=pr[0]))
        probe()
        cuts = rcuts(ctx.rng, min(len(data), 60))
        steps.append(dict(o="send", c=0, s=data, cuts=cuts, w=bool(cuts) and ctx.rng.random() < .5))
        probe()
        if g["end"] == "half": steps += [dict(o="shut", c=0), dict(o="closed", c=0)]
        else: steps += [dict(o="rst", c=0)]
        probe()
        items.append((dict(routes=ROUTES + [dict(ms=["GET"], p="/p/{a}/**", id="p", act="ignore", ic=[]), dict(ms=["GET"], p="/q/{a}", id="q", act="ignore", ic=[])], conns=2, steps=steps), dict(end=g["end"], head="HEAD" in data), judge10, "garbage"))
    run(ctx, "H10", items, timeout_case=25)

def judge10(r, e):
    if not r or r.get("skipped"): return None
    if "c" not in r: return f"harness result {str(r)[:200]}"
    if r.get("fdleak"): return f"descriptors leaked: {r['fdleak']}"
    a, p = r["c"]
    rs, err = parse_responses(p["got"])
    if err or len(rs) != 3 or any(x["status"] != 201 for x in rs) or p["eof"]: return f"probe connection disturbed: {err or [x['status'] for x in rs]} eof={p['eof']}"
    for x in rs:
        if json.loads(x["body"]).get("b") != "abc": return "probe body"
    rs, err = parse_responses(a["got"], "any" if e["head"] else ())
    if err and e["end"] != "reset": return f"attacked connection: ill-formed output: {err}"
    if e["end"] == "half" and not a["eof"]: return "attacked connection still open after the peer finished"
    return None

# ---------------------------------------------------------------- R01, R02: routing
def route_case(routes, asks, rng, close=False):
    """One connection, all requests in order; asks: (method, target, query-less pure path)."""
    rs = [dict(ms=[r["m"]], p=r["p"], id=r["id"], act="ignore", ic=[]) for r in routes]
    data = "".join(f"{m} {t} HTTP/1.1\r\nX-Id: {i}\r\n\r\n" for i, (m, t) in enumerate(asks))
    return dict(routes=rs, conns=1, steps=[dict(o="send", c=0, s=data, cuts=[], w=False), dict(o="await", c=0, n=len(asks)), dict(o="shut", c=0), dict(o="closed", c=0)])

def judge_route(r, exp):
    if not r or r.get("skipped"): return None
    if "c" not in r: return f"harness result {str(r)[:200]}"
    rs, err = parse_responses(r["c"][0]["got"])
    if err: return f"ill-formed output: {err}"
    if len(rs) != len(exp): return f"{len(rs)} responses to {len(exp)} requests"
    for i, (x, e) in enumerate(zip(rs, exp)):
        got = "" if x["status"] == 404 else json.loads(x["body"])["id"]
        if got != e["id"]: return f"{e['m']} {e['raw']!r} went to {got or 'not-found'}, expected {e['id'] or 'not-found'}"
        if "pp" in e and e["id"]:
            o = json.loads(x["body"])
            if o["pp"] != e["pp"]: return f"{e['m']} {e['raw']!r} ({e['id']}): path parameters {o['pp']}, expected {e['pp']}"
            w = e["w"][0] if e["w"] else None
            if o["w"] != w: return f"{e['m']} {e['raw']!r} ({e['id']}): wildcard {o['w']!r}, expected {w!r}"
            q = {k: v for k, v in e["q"]}
            if o["q"] != q: return f"{e['m']} {e['raw']!r} ({e['id']}): query parameters {o['q']}, expected {q}"
            if o["path"] != e["raw"] or o["pure"] != e["pure"]: return f"target {o['path']!r} / {o['pure']!r}, expected {e['raw']!r} / {e['pure']!r}"
    return None

def rconst(mode, **kw):
    d = dict(Mode=f'"{mode}"', NRoutes=2, NAsks=0, Depth=2, PLen=3); d.update(kw); return d

def r01(ctx):
    ctx.exe = ctx.build("session.cpp")
    g = ctx.tlc("Router", rconst("all"), invariants=["Agree", "NoOrder", "EmitAll"], workers=1)["gen"]
    if not ctx.quick:
        ctx.tlc("Router", rconst("all", NRoutes=3), invariants=["Agree", "NoOrder"], workers=8, timeout=850)
    items = []
    for x in g:
        asks = list(x["asks"]); ctx.rng.shuffle(asks)
        exp = [dict(m="GET", raw=a[0], id=a[1]) for a in asks]
        items.append((route_case(x["routes"], [("GET", a[0]) for a in asks], ctx.rng), exp, judge_route, "table"))
    run(ctx, "R01", items)
    run(ctx, "R01", rgen(ctx, ctx.pick(700, 12000), pv=False))

def rgen(ctx, num, pv, **kw):
    k = dict(NRoutes=6, NAsks=16, Depth=3, PLen=4); k.update(kw)
    items = []
    for x in ctx.tlc("Router", rconst("gen", **k), invariants=["Emit"], simulate=num, depth=60, workers=1)["gen"]:
        exp = [a if pv else dict(m=a["m"], raw=a["raw"], id=a["id"]) for a in x["asks"]]
        items.append((route_case(x["routes"], [(a["m"], a["raw"]) for a in x["asks"]], ctx.rng), exp, judge_route, "random"))
    return items

def typed(ctx):
    """Typed path parameters: every emitted text and type, many per request."""
    import ctypes
    g = ctx.tlc("PathParams", {}, invariants=["Exact", "Widening", "Edges", "Emit"], workers=1)["gen"]
    ctx.rng.shuffle(g)
    real = [x for x in g if x["ty"] in ("flt", "dbl")]; g = [x for x in g if x["ty"] not in ("flt", "dbl")] + real[:ctx.pick(600, len(real))]
    ctx.rng.shuffle(g); items = []
    def value(x):
        if x["r"] == "!" or x["ty"] not in ("flt", "dbl"): return x["r"]
        v = float(x["s"]); return v if x["ty"] == "dbl" else ctypes.c_float(v).value
    for i in range(0, len(g), 56):
        part = g[i:i + 56]; rs = []; asks = []; exp = []
        for j in range(0, len(part), 7):
            xs = part[j:j + 7]; n = f"/t{j}"
            rs.append(dict(ms=["GET"], p=n + "".join("/{p%d}" % k for k in range(len(xs))), id=n, act="ignore", ic=[], ty=[x["ty"] for x in xs]))
            asks.append(("GET", n + "".join("/" + x["s"] for x in xs))); exp.append((asks[-1][1], [x["ty"] for x in xs], [value(x) for x in xs]))
        c = route_case([], asks, ctx.rng); c["routes"] = rs; items.append((c, exp, judge_typed, "typed"))
    return items

def judge_typed(r, exp):
    if not r or r.get("skipped"): return None
    if "c" not in r: return f"harness result {str(r)[:200]}"
    rs, err = parse_responses(r["c"][0]["got"])
    if err or len(rs) != len(exp): return f"ill-formed output: {err} {len(rs)} responses"
    for x, (t, tys, want) in zip(rs, exp):
        if x["status"] != 200: return f"{t!r}: status {x['status']}"
        for s, ty, g, w in zip(t.split("/")[2:], tys, json.loads(x["body"])["ty"], want):
            if isinstance(w, float): ok = isinstance(g, str) and g != "!" and float.fromhex(g) == w
            else: ok = g == w
            if not ok: return f"path parameter {s!r} as {ty} gives {g}, expected {w}"
    return None

def r02(ctx):
    ctx.exe = ctx.build("session.cpp")
    ctx.tlc("Router", rconst("all"), invariants=["Agree", "NoOrder"], workers=4)
    run(ctx, "R02", rgen(ctx, ctx.pick(500, 8000), pv=True))
    run(ctx, "R02", rgen(ctx, ctx.pick(300, 6000), pv=True, NRoutes=3, NAsks=30, Depth=4, PLen=6))
    run(ctx, "R02", rgen(ctx, ctx.pick(150, 3000), pv=True, NRoutes=4, NAsks=20, Depth=6, PLen=7))
    run(ctx, "R02", typed(ctx))

# ---------------------------------------------------------------- R03: interceptors
FLAVOURS = {"": "", "/{a}": "/v", "/**": "/v/w", "/{a}/**": "/v/w/x"}    # every kind of pattern has its own wrapper
def ic_case(g, rng, fl=None):
    prog = g["prog"]; routes = []; fv = {r: rng.choice(list(FLAVOURS)) if fl is None else fl for r in prog}
    for r in sorted(prog):
        ic = [dict(k=p["k"], n=f"{r}.{i}", b=p["b"], a=p["a"]) for i, p in enumerate(prog[r], 1)]
        routes.append(dict(ms=["GET"], p="/" + r + fv[r], id=r, act="ignore", ic=ic) | (dict(err=True) if r == "nf" else {}))
    steps = []; exp = []
    for i, (r, log) in enumerate(g["hist"], 1):
        # one connection per request: a refused request may go unanswered
        target = "/" + r + FLAVOURS[fv[r]] if r != "nf" else rng.choice(["/none", "/", "/r0/x", "/r3"])
        steps += [dict(o="send", c=i - 1, s=f"GET {target} HTTP/1.1\r\nX-Id: {i}\r\nConnection: close\r\n\r\n", cuts=[], w=False), dict(o="closed", c=i - 1)]
        exp += [{"b": f"{r}.{k}b{i}", "a": f"{r}.{k}a{i}", "e": f"E{r}:{i}"}[t] for t, k in log]
    return dict(routes=routes, conns=len(g["hist"]), steps=steps), exp

def judge_ic(r, exp):
    if not r or r.get("skipped"): return None
    if "c" not in r: return f"harness result {str(r)[:200]}"
    if r["ev"] != exp: return f"steps run {r['ev']}, expected {exp}"
    return None

def r03(ctx):
    ctx.exe = ctx.build("session.cpp")
    g = ctx.tlc("Interceptors", dict(Mode='"all"', NReq=1), invariants=["Ordered", "Complete", "Emit"], workers=1)["gen"]
    g += ctx.tlc("Interceptors", dict(Mode='"all"', NReq=2), invariants=["Ordered", "Complete", "Emit"], workers=1)["gen"]
    g += ctx.tlc("Interceptors", dict(Mode='"gen"', NReq=6), invariants=["Ordered", "Complete", "Emit"], simulate=ctx.pick(800, 8000), depth=100, workers=1)["gen"]
    items = []
    for x in g:
        for f in (FLAVOURS if len(x["prog"]) == 1 else [None]):
            c, e = ic_case(x, ctx.rng, f); items.append((c, e, judge_ic, "ic"))
    run(ctx, "R03", items)
