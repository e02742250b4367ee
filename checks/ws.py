"""WebSocket: W01, W03 (WebSocket.tla, WsHandshake.tla), W02 (WsFrame.tla)."""
import base64, hashlib
from checks.session import parse_responses, rcuts
INV = ["Exact", "Types", "PongOnce", "CloseOnce"]
CODE = {"C": 0, "T": 1, "B": 2, "X": 8, "P": 9, "Q": 10}
def hdr(op, fin, masked, n):
    b = [(128 if fin else 0) | op]; m = 128 if masked else 0
    if n < 126: b.append(m | n)
    elif n < 65536: b += [m | 126, n >> 8, n & 255]
    else: b += [m | 127] + [(n >> (8 * i)) & 255 for i in range(7, -1, -1)]
    return "".join(map(chr, b))
def mask(s, k): return "".join(chr(ord(c) ^ k[i % 4]) for i, c in enumerate(s)) if len(s) < 3000 else bytes(a ^ b for a, b in zip(s.encode("latin-1"), (bytes(k) * (len(s) // 4 + 1))[:len(s)])).decode("latin-1")
def parse_frames(raw, masked):
    """Strict decoder: (frames [(op, payload)], error)."""
    out = []; p = 0
    while p < len(raw):
        if p + 2 > len(raw): return out, "truncated frame"
        a, b = ord(raw[p]), ord(raw[p + 1]); n = b & 127; p += 2
        if a & 0x70 or not a & 128: return out, f"frame byte {a:#x}"
        if bool(b & 128) != masked: return out, "mask bit"
        if n == 126: n = int.from_bytes(raw[p:p + 2].encode("latin-1"), "big"); p += 2; bad = n < 126
        elif n == 127: n = int.from_bytes(raw[p:p + 8].encode("latin-1"), "big"); p += 8; bad = n < 65536
        else: bad = False
        if bad: return out, "length not in shortest form"
        op = a & 15
        if op not in (1, 2, 8, 9, 10) or (op >= 8 and n > 125): return out, f"opcode {op} length {n}"
        k = [0] * 4
        if masked: k = [ord(c) for c in raw[p:p + 4]]; p += 4
        if p + n > len(raw): return out, "truncated frame"
        out.append((op, mask(raw[p:p + n], k))); p += n
    return out, None

def render(rng, f, role, i):
    """(bytes, payload) of one peer frame"""
    ctl = f["op"] in "PQX"
    n = rng.choice([0, 1, 7, 125]) if ctl else rng.choice([0, 1, 5, 125, 126, 127, 300, 65535 if rng.random() < .2 else 2, 65536 if rng.random() < .2 else 3, 70000 if rng.random() < .1 else 4])
    if f["op"] == "X": n = rng.choice([0, 2, 9])
    s = (f"[{i}]" + "".join(rng.choice("ab\x00\xff\x81\x89") for _ in range(min(n, 300))) + "z" * n)[:n] if f["op"] != "X" else ("\x03\xe8" + "bye-bye")[:n]
    if f["bad"] == "big": s = "x" * 126
    op = 3 if f["bad"] == "opcode" and f["op"] == "T" else 11 if f["bad"] == "opcode" else CODE[f["op"]]
    m = (role == "server") ^ (f["bad"] == "mask"); k = [rng.randint(0, 255) for _ in range(4)]
    h = hdr(op, f["fin"], m, len(s))
    return h + ("".join(map(chr, k)) + mask(s, k) if m else s), s

def to_case(rng, g, role, pre=True):
    fr = [render(rng, f, role, i) for i, f in enumerate(g["sent"], 1)]
    steps = []; pings = 0
    def put(data, w):
        cuts = rcuts(rng, len(data)) if len(data) > 1 and rng.random() < .4 else []
        steps.append(dict(o="send", s=data, cuts=cuts, w=w))
    unit = lambda i, a, b: (fr[i - 1][0][:1], fr[i - 1][0][1:2], fr[i - 1][0][2:])[a:b]
    merged = rng.random() < .3      # everything in as few writes as possible
    for e in g["hist"]:
        if e["o"] == "frame":
            d = "".join(unit(e["i"], 0, e["k"]))
            if d: put(d, not merged and rng.random() < .6)
        elif e["o"] == "more":
            d = "".join(unit(e["i"], e["u"] - 1, e["u"]))
            if d: put(d, not merged)
        elif e["o"] == "ping": pings += 1; steps.append(dict(o="waitping", n=pings))
        elif e["o"] == "down": steps.append(dict(o="shut"))
    prebuf = ""
    if pre and not pings and rng.random() < .5:  # part of the stream is already in the leftover buffer
        k = rng.randint(1, 40)
        while steps and steps[0]["o"] == "send" and k > 0:
            st = steps[0]
            if len(st["s"]) <= k: prebuf += st["s"]; k -= len(st["s"]); steps.pop(0)
            else: prebuf += st["s"][:k]; st["s"] = st["s"][k:]; st["cuts"] = []; break
    prog = []; exp = []; ns = 0
    for i, o in enumerate(g["prog"], 1):
        if o == "send":
            kind = rng.choice(["send", "sendb"]); s = f"m{i}-" + "x" * rng.choice([0, 3, 121, 122, 123, 65530, 65533])
            prog.append(dict(o=kind, s=s, k=i))
        else: prog.append(dict(o=o))
    for r in g["res"]:
        exp.append(["msg", r[1], "".join(fr[i - 1][1] for i in r[2])] if r[0] == "msg" else [{"sent": "sent", "closed": "closed"}.get(r[0], "exc")])
    out = []
    for f in g["outp"]:
        if f["op"] == "Q": out.append((10, fr[f["k"] - 1][1]))
        elif f["op"] == "X": out.append((8, None))
        elif f["op"] == "P": out.append((9, None))
        else: p = prog[f["k"] - 1]; out.append((1 if p["o"] == "send" else 2, p["s"]))
    return dict(mode="direct", role=role, pre=prebuf, prog=prog, steps=steps), dict(res=exp, out=out, role=role)

def judge(r, e):
    if not r or r.get("skipped"): return None
    if "res" not in r: return f"harness result {str(r)[:200]}"
    if r.get("stuck") or r.get("late"): return f"operation does not end (results so far {str(r['res'])[:200]})"
    if r.get("fdleak"): return f"descriptors leaked: {r['fdleak']}"
    if r["res"] != e["res"]: return f"results {short(r['res'])}, expected {short(e['res'])}"
    fr, err = parse_frames(r["out"], e["role"] == "client")
    if err: return f"ill-formed output: {err}"
    np = sum(1 for o, _ in e["out"] if o == 9)
    if sum(1 for o, p in fr if o == 9) < np: return "missing keep-alive ping"
    a = [x for x in fr if x[0] != 9]; b = [x for x in e["out"] if x[0] != 9]
    if len(a) != len(b) or any(x[0] != y[0] or (y[1] is not None and x[1] != y[1]) for x, y in zip(a, b)): return f"frames written {short(a)}, expected {short(b)}"
    return None
def short(x):
    s = str([[(y if not isinstance(y, str) or len(y) < 24 else y[:20] + f"..({len(y)})") for y in f] for f in x])
    return s[:300]

def run(ctx, label, items, jobs=6):
    res = ctx.replay(ctx.exe, [i[0] for i in items], jobs=jobs, timeout_case=30)
    bad = [i for i, r in enumerate(res) if items[i][2](r, items[i][1])]
    if bad:
        again = ctx.replay(ctx.exe, [items[i][0] for i in bad[:10]], jobs=2, timeout_case=30)
        for i, r in zip(bad[:10], again):
            w = items[i][2](r, items[i][1])
            if w: ctx.mismatch(f"{label}:{items[i][3]}:{w}", w, items[i][0])
    ctx.traces += len(items)
    if items: ctx.sample(items[len(items) // 2][0])

def model(ctx):
    ctx.tlc("WebSocket", dict(MaxFrames=3, MaxOps=ctx.pick(2, 3), Record="FALSE"), spec_formula="FairSpec", invariants=INV, properties=["NothingAfterClose", "Ends"], workers=8, timeout=800)
def gen(ctx, num, **kw):
    k = dict(MaxFrames=14, MaxOps=10, Record="TRUE"); k.update(kw)
    return ctx.tlc("WebSocket", k, invariants=INV + ["Emit"], simulate=num, depth=200, workers=1)["gen"]

def w01(ctx):
    ctx.exe = ctx.build("ws.cpp"); model(ctx)
    items = []
    for g in gen(ctx, ctx.pick(1500, 12000)):
        for role in ("server", "client"):
            c, e = to_case(ctx.rng, g, role); items.append((c, e, judge, role))
    run(ctx, "W01", items)

def w02(ctx):
    ctx.exe = ctx.build("ws.cpp")
    extra = sorted({ctx.rng.randint(131, 200000) for _ in range(ctx.pick(20, 300))} | {1 << 20})
    g = ctx.tlc("WsFrame", dict(Extra="{" + ",".join(map(str, extra)) + "}"), invariants=["RoundTrip", "Shortest", "Bytes", "Emit"], workers=1)["gen"]
    table = {(x["op"], x["m"], x["n"]): "".join(map(chr, x["h"])) for x in g}
    items = []
    keys = sorted(table); ctx.rng.shuffle(keys)
    for role, m in (("server", False), ("client", True)):
        ks = [k for k in keys if k[1] == m and k[0] in "TB"]; ps = [k for k in keys if k[1] == m and k[0] == "P"]
        for i in range(0, len(ks), 12):
            prog = []; want = []
            for (op, _, n) in ks[i:i + 12] + ctx.rng.sample(ps, 4):
                s = "".join(chr(ctx.rng.randrange(256)) for _ in range(n)) if n < 2000 else ctx.rng.randbytes(n).decode("latin-1")
                o = {"T": "send", "B": "sendb", "P": "ping"}[op]
                prog.append(dict(o=o, s=s)); want.append((table[(op, m, n)], s))
                if role == "server" and o != "ping":  # the same message as a prepared frame, sent more than once
                    k = ctx.rng.choice([1, 1, 2]); prog.append(dict(o="view", s=s, b=op == "B", k=k)); want += [want[-1]] * k
            items.append((dict(mode="direct", role=role, pre="", prog=prog, steps=[]), want, judge2, role))
    # a frame masked the wrong way is refused wherever it comes
    for g in gen(ctx, ctx.pick(300, 3000), MaxFrames=6):
        if any(f["bad"] == "mask" for f in g["sent"]):
            for role in ("server", "client"):
                c, e = to_case(ctx.rng, g, role); items.append((c, e, judge, "wrong mask " + role))
    run(ctx, "W02", items)

def judge2(r, want):
    if not r or r.get("skipped"): return None
    if "res" not in r: return f"harness result {str(r)[:200]}"
    if any(x != ["sent"] for x in r["res"]): return f"results {r['res']}"
    out = r["out"]; p = 0; masks = []
    for i, (h, s) in enumerate(want):
        if out[p:p + len(h)] != h: return f"frame {i} (payload {len(s)}): header {[ord(c) for c in out[p:p + len(h)]]}, expected {[ord(c) for c in h]}"
        p += len(h)
        if ord(h[1]) & 128: k = [ord(c) for c in out[p:p + 4]]; masks.append(tuple(k)); p += 4
        else: k = [0] * 4
        if mask(out[p:p + len(s)], k) != s: return f"frame {i}: payload of {len(s)} bytes differs"
        p += len(s)
    if p != len(out): return f"{len(out) - p} bytes behind the last frame"
    if len(masks) > 3 and len(set(masks)) < 3: return "masks repeat"
    return None

def w03(ctx):
    ctx.exe = ctx.build("ws.cpp"); model(ctx)
    hs = ctx.tlc("WsHandshake", dict(Early="{0,1,2}", Lates="{0,1}"), spec_formula="Spec", invariants=["UpIffValid", "Order"], properties=["NothingLost"], workers=8)
    g = ctx.tlc("WsHandshake", dict(Early="{0,1,2}", Lates="{0,1}"), invariants=["Emit"], workers=1)["gen"]
    items = [hs_case(ctx.rng, x) for x in g]
    if not ctx.quick: items += [hs_case(ctx.rng, x) for x in g for _ in range(5)]
    run(ctx, "W03", items)
    items = []
    for x in gen(ctx, ctx.pick(1200, 10000), MaxFrames=5, MaxOps=4):
        if x["st"] == "open": continue
        for role in ("server", "client"):
            c, e = to_case(ctx.rng, x, role); items.append((c, e, judge, "close " + role))
    run(ctx, "W03", items)

def hs_case(rng, x):
    side = x["side"]; m = x["msg"]; role = "server" if side == "accept" else "client"
    ns = {True: str.lower, False: lambda s: s}[rng.random() < .3]
    frames = [render(rng, dict(op=rng.choice("TB"), fin=True, bad=""), role, i) + (None,) for i in range(1, x["early"] + x["late"] + 1)]
    ops = []
    for i in range(len(frames)): ops.append("recv")
    msgs = []
    for d, s, _ in frames: msgs.append(["msg", "T" if ord(d[0]) & 15 == 1 else "B", s])
    prog = [dict(o=o) for o in ops] + [dict(o="send", s="done")]
    early = "".join(f[0] for f in frames[:x["early"]]); late = "".join(f[0] for f in frames[x["early"]:])
    hl = []
    if m.get("upgrade") != "-": hl.append((ns("Upgrade"), m["upgrade"]))
    if m.get("connection") != "-": hl.append((ns("Connection"), m["connection"]))
    if side == "accept":
        if m["origin"] != "-": hl.append((ns("Origin"), m["origin"]))
        if m["key"] != "-": hl.append((ns("Sec-WebSocket-Key"), m["key"]))
        hl.append(("Sec-WebSocket-Version", "13")); hl.append(("Host", "h")); rng.shuffle(hl)
        head = "GET /ws HTTP/1.1\r\n" + "".join(f"{k}: {v}\r\n" for k, v in hl) + "\r\n"
        data = head + early
        steps = [dict(o="send", s=data, cuts=rcuts(rng, len(data)), w=rng.random() < .5), dict(o="head")]
        if x["up"] and late: steps.append(dict(o="send", s=late, cuts=rcuts(rng, len(late)) if len(late) > 1 else [], w=True))
        c = dict(mode="accept", prog=prog, steps=steps, end="throw")
    else:
        if m["accept"] != "-": hl.append((ns("Sec-WebSocket-Accept"), "{ACCEPT}" if m["accept"] == "right" else "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="))
        if m["status"] != "101": hl.append(("Content-Length", "0"))
        rng.shuffle(hl)
        head = f"HTTP/1.1 {m['status']} X\r\n" + "".join(f"{k}: {v}\r\n" for k, v in hl) + "\r\n"
        steps = [dict(o="head"), dict(o="send", s=head + early, cuts=rcuts(rng, len(head)), w=rng.random() < .5)]
        if x["up"] and late: steps.append(dict(o="send", s=late, cuts=[], w=True))
        c = dict(mode="connect", prog=prog, steps=steps, url=rng.choice(["ws://a.test/chat", "ws://a.test:8080/chat?x=1"]), headers=[["X-Mine", "1"]])
    return c, dict(x=x, msgs=msgs, key=m.get("key"), role=role), judge_hs, side

def judge_hs(r, e):
    if not r or r.get("skipped"): return None
    if "res" not in r: return f"harness result {str(r)[:200]}"
    if r.get("stuck") or r.get("late"): return "handshake or operation does not end"
    if r.get("fdleak"): return f"descriptors leaked: {r['fdleak']}"
    x = e["x"]
    if r["hs"] != ("up" if x["up"] else "refused"): return f"handshake {r['hs']}, expected {'up' if x['up'] else 'refused'} for {x['msg']}"
    if x["side"] == "accept":
        if not x["up"]:
            if not r["head"] and not r["eof"]: return "refused upgrade neither answered nor closed"
            if r["head"].startswith("HTTP/1.1 101"): return f"101 for {x['msg']}"
            return None
        rs, err = parse_responses(r["head"].replace("\r\n\r\n", "\r\nContent-Length: 0\r\n\r\n") if "ontent-" not in r["head"] else r["head"])
        if err: return f"upgrade response: {err}: {r['head']!r}"
        h = rs[0]["headers"]; want = base64.b64encode(hashlib.sha1((e["key"] + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11").encode()).digest()).decode()
        if rs[0]["status"] != 101 or h.get("sec-websocket-accept") != want or h.get("upgrade", "").lower() != "websocket" or "upgrade" not in h.get("connection", "").lower(): return f"upgrade response {r['head']!r}"
    else:
        if not x["up"]: return None
        q = r["head"]
        if not q.startswith("GET /chat") or "\r\nsec-websocket-version: 13\r\n" not in q.lower() or "\r\nx-mine: 1\r\n" not in q.lower(): return f"upgrade request {q!r}"
    exp = e["msgs"] + [["sent"]]
    if r["res"] != exp: return f"results {short(r['res'])}, expected {short(exp)}"
    fr, err = parse_frames(r["out"], e["role"] == "client")
    if err: return f"ill-formed output {err}: {r['out'][:80]!r}"
    if fr != [(1, "done")]: return f"frames written {short(fr)}"
    return None
