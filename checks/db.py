"""D01 / D02 / D03: the database module. Db.tla decides statements and histories and their meaning; the statements are rendered as C++ and the histories replayed."""
import concurrent.futures as cf, os
CT = {"l": "std::int64_t", "i": "std::int32_t", "oi": "std::optional<std::int32_t>", "os": "std::optional<std::string>", "s": "std::string", "d": "double", "c": "int"}
TY = {"A": dict(id="l", n="i", m="oi", s="s", d="d", u="i", k="i", t="s"), "B": dict(id="l", aid="l", v="os", w="i", q="oi")}
BASE = {"oi": "i", "os": "s"}

class Render:
    """One statement as C++; parameters become p0, p1, ... in order."""
    def __init__(self, s, i): self.s, self.i, self.types = s, i, []
    def text(self, v): return '"' + "".join(f"\\{b:03o}" if b in (34, 92, 63) else chr(b) for b in v[1:]) + '"_fs'
    def lit(self, ty, v):
        if ty == "s": return self.text(v)
        if ty == "d": return repr(v[0] / 4096)
        return f"{CT[ty]}{{{v[0]}}}"
    def param(self, ty):
        n = len(self.types); self.types.append(ty)
        return f'db::param<{CT[ty]}>' + (f'.bind<"p{n}">()' if self.named else "")
    def col(self, c): return f"Col(&{c['tb']}::{c['c']})"
    def ex(self, e):
        op = e["op"]
        if op == "col": return self.col(e)
        if op == "lit": return self.lit(e["ty"], e["v"])
        if op == "par": return self.param(e["ty"])
        if op in ("cmp", "ar", "and", "or"):
            l, r = self.ex(e["l"]), self.ex(e["r"])
            return f"({l} {dict([('and', '&&'), ('or', '||')]).get(op, e['f'])} {r})"
        if op == "not": return f"(!{self.col(e['c'])})"
        if op == "null": return f"{self.col(e['c'])}.{'isNotNull' if e['neg'] else 'isNull'}()"
        if op == "like": return f"{self.col(e['c'])}.{'notLike' if e['neg'] else 'like'}<{self.text(e['v'])}>()"
        return f"{self.col(e['c'])}.{'notIn' if e['neg'] else 'in'}<{', '.join(self.ex(x) for x in e['vs'])}>()"
    def clause(self, name, e, named=False):
        if e["op"] == "none": return ""
        self.named, first = named, len(self.types)
        x = self.ex(e); new = range(first, len(self.types))
        if named and new: args = [f'db::bind<"p{n}">.link({self.arg(n)})' for n in reversed(new)]
        else: args = [self.arg(n) for n in new]
        return f".{name}<({x})>({', '.join(args)})"
    def arg(self, n): return f"p{n}" if (n + self.i) % 3 == 0 else f"{CT[self.types[n]]}(p{n})" if (n + self.i) % 3 == 1 else f"std::as_const(p{n})"
    def item(self, c): return f"db::{c['f']}<Col(&{c['tb']}::{c['c']})>" if c["k"] == "agg" else f"Col(&{c['tb']}::{c['c']})"
    def limit(self, l):
        if not l["k"]: return ""
        self.named = False; t, a = [], []
        for b in ([l["a"]] if l["k"] == 1 else [l["a"], l["b"]]):
            if b: t.append(str(b[0]))
            else: t.append(self.param("c")); a.append(self.arg(len(self.types) - 1))
        return f".limit<{', '.join(t)}>({', '.join(a)})"
    def ret(self): return f".returning<{', '.join('&' + self.s['tb'] + '::' + c for c in self.s['ret'])}>()" if self.s["ret"] else ""
    def code(self):
        s, out = self.s, []; tb = s["tb"]; q = f"db.sqlTemplate<{self.i}>()"
        if s["kind"] == "sel":
            q += f".select<{', '.join(self.item(c) for c in s['cols'])}>().from<{tb}>()"
            if s["join"]: q += f".{s['join']}<B>()" + self.clause("on", s["on"])
            q += self.clause("where", s["where"], s["named"])
            if s["group"]["op"] == "col": q += f".groupBy<&{tb}::{s['group']['c']}>()"
            else: q += self.clause("groupBy", s["group"], s["named"])
            q += self.clause("having", s["having"], s["named"])
            if s["order"]: q += f".orderBy<{', '.join(f'Col(&{o[0]}::{o[1]}).' + ('asc()' if o[2] else 'desc()') for o in s['order'])}>()"
            q += self.limit(s["limit"])
        elif s["kind"] == "ins":
            sets = s["sets"]
            if s["form"] in ("obj", "full"):
                out.append(f"{tb} o{{}};")
                for k, c in enumerate(sets): out.append(f"static_cast<{CT[TY[tb][c]]}&>(o.{c}) = in<{CT[TY[tb][c]]}>(vals[{k}]);")
                q += ".insert(o)" if s["form"] == "obj" else f".insert<{tb}, true>(o)"
            else: q += f".insert<{', '.join('&' + tb + '::' + c for c in sets)}>({', '.join(f'in<{CT[TY[tb][c]]}>(vals[{k}])' for k, c in enumerate(sets))})"
            q += self.ret()
        elif s["kind"] == "upd":
            for k, c in enumerate(s["sets"]): out.append(f"auto v{k} = in<{CT[TY[tb][c]]}>(vals[{k}]);")
            q += f".update<{', '.join('&' + tb + '::' + c for c in s['sets'])}>({', '.join(f'v{k}' for k in range(len(s['sets'])))})" + self.clause("where", s["where"]) + self.ret()
        else: q += f".deleteForm<{tb}>()" + self.clause("where", s["where"]) + self.ret()
        ex = ("execNoThrow" if s["nt"] else "exec") + ("GetChanges" if s["chg"] else "")
        void = s["kind"] != "sel" and not s["ret"] and not s["chg"]
        if s["nt"]: out += [f"auto r = {q}.{ex}();", "if (!r) return bad(r.what());"] + ([] if void else ["auto&& x = r.get();"])
        elif void: out.append(f"{q}.{ex}();")
        else: out.append(f"auto x = {q}.{ex}();")
        j = "good()"
        if s["kind"] == "sel": j += '.set("rows", rows(x))'
        elif s["kind"] == "ins" and s["ret"]: j += '.set("rows", J::arr().push(row(x)))'
        elif s["ret"] and s["chg"]: j += '.set("rows", rows(x.columnRes)).set("n", (long long)x.changes)'
        elif s["ret"]: j += '.set("rows", rows(x))'
        elif s["chg"]: j += '.set("n", (long long)x)'
        out.append(f"return {j};")
        ps = [f"auto p{n} = in<{CT[t]}>(ps[{n}]);" for n, t in enumerate(self.types)]
        return f"static J st{self.i}(Db& db, J const& ps, J const& vals) {{\n    " + "\n    ".join(ps + out) + "\n}\n"

def build(ctx, stmts, tag):
    src = os.path.join(ctx.work, f"stmts_{tag}.cpp")
    with open(src, "w") as f:
        f.write('#include "db.hpp"\n')
        for i, s in enumerate(stmts, 1): f.write(Render(s, i).code())
        f.write("Statement const statements[] = {" + ", ".join(f"st{i}" for i in range(1, len(stmts) + 1)) + "};\nint main() { return serveDb(); }\n")
    return ctx.build(src, out=f"stmts_{tag}", opt="-O0", liburing=False)

def same(want, got):
    """want: list of [rank, values]; rows of one rank in any order; [-99999] is any value."""
    if not isinstance(got, list) or len(want) != len(got): return False
    want = sorted(want, key=lambda r: r[0]); i = 0
    while i < len(want):
        j = i
        while j < len(want) and want[j][0] == want[i][0]: j += 1
        left = list(got[i:j])
        for _, w in sorted(want[i:j], key=lambda r: sum(x == [-99999] for x in r[1])):
            k = next((k for k, g in enumerate(left) if len(g) == len(w) and all(x == [-99999] or x == y for x, y in zip(w, g))), None)
            if k is None: return False
            left.pop(k)
        i = j
    return True

def describe(stmts, e):
    if e["op"] != "run": return e["op"]
    code = Render(stmts[e["st"] - 1], e["st"]).code()
    return next(l.strip() for l in code.splitlines() if "sqlTemplate" in l) + f" with {e['ps']} {e['vals']}"

def judge(ctx, stmts, case, res, tag):
    cols = {t: list(TY[t]) for t in TY}
    for k, e in enumerate(case["log"]):
        ctx.traces += 1
        if not isinstance(res, list): ctx.mismatch(f"{tag}:process", f"the process died: {str(res)[:200]}", dict(log=case["log"])); return
        o, s = res[k], stmts[e["st"] - 1] if e["op"] == "run" else None
        where = f"step {k + 1}: {describe(stmts, e)}"
        key = f"{tag}:st{e['st']}" if s else f"{tag}:{e['op']}"
        bad = None
        if o.get("held"): bad = "the database stays locked"
        elif e["op"] != "run": bad = None if o["ok"] else f"fails: {o.get('what')}"
        elif o.get("odd"): bad = "throws something that is no exception"
        elif o["ok"] != e["ok"]: bad = f"fails: {o.get('what')}" if e["ok"] else "succeeds where it must fail"
        elif e["ok"] and s["kind"] == "sel" or (e["ok"] and s["ret"]):
            if not same(e["rows"], o.get("rows")): bad = f"gives {str(o.get('rows'))[:300]}, the statement means {str(e['rows'])[:300]}"
        if not bad and s and e["ok"] and s["chg"] and o.get("n") != e["n"]: bad = f"reports {o.get('n')} changed rows, {e['n']} are"
        if not bad and s and case["up"][k]:
            want = [[0, [r[c] for c in cols[s["tb"]]]] for r in e["tab"]]
            if not same(want, o["tab"]): bad = f"leaves the table {str(o['tab'])[:300]}, it should be {str(e['tab'])[:300]}"
        if bad: ctx.mismatch(key, f"{where} {bad}", dict(statement=Render(s, e["st"]).code() if s else e["op"], history=[describe(stmts, x) for x in case["log"][:k + 1]])); return

def shard(ctx, no, mode, nst, hist, steps, workers):
    g = ctx.tlc("Db", dict(StSeed=no, NSt=nst, HistSeeds="{" + ", ".join(str(no * 40 + i) for i in range(hist)) + "}", Steps=steps, Mode=f'"{mode}"'), spec_formula="Spec",
                invariants=["LegalTables", "Emit"], properties=["FailsCleanly", "Grows"], workers=workers, timeout=1500)
    stmts = next(c["st"] for c in g["gen"] if c["st"])
    exe = build(ctx, stmts, f"{mode}{no}")
    cases = g["gen"]
    for c in cases:
        up, c["up"] = False, []
        for e in c["log"]:
            up = (up or e["op"] == "create") and e["op"] != "drop"; c["up"].append(up)
            if e["op"] == "run": e["tb"] = stmts[e["st"] - 1]["tb"]
    res = ctx.replay(exe, [dict(log=[{k: v for k, v in e.items() if k in ("op", "lock", "st", "tb", "ps", "vals")} for e in c["log"]]) for c in cases], jobs=workers, timeout_case=60, cwd=ctx.work)
    return stmts, cases, res, no

def histories(ctx, mode, shards, nst, hist, steps):
    first = (ctx.seed * 100) % 15000; kinds = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for stmts, cases, res, no in ex.map(lambda k: shard(ctx, first + k, mode, nst, hist, steps, 1), range(shards)):
            for s in stmts: kinds[s["kind"]] = kinds.get(s["kind"], 0) + 1
            ctx.sample(dict(statement=Render(stmts[-1], nst).code()))
            for c, r in zip(cases, res): judge(ctx, stmts, c, r, f"s{no}")
    ctx.notes.update(statements=kinds, histories=shards * hist, steps=steps)

def d01(ctx): histories(ctx, "query", ctx.pick(10, 80), 26, ctx.pick(12, 40), 90)
def d02(ctx): histories(ctx, "cache", ctx.pick(12, 60), 11, ctx.pick(60, 300), 60)

def d03(ctx):
    exe = ctx.build("dbv.cpp", opt="-O0", liburing=False)
    n, lo = ctx.pick(600, 12000), (ctx.seed * 1000) % 15000
    for blk in range(0, n, 600):
        g = ctx.tlc("DbValues", dict(Seeds="{" + ", ".join(str(lo + blk + i) for i in range(min(600, n - blk))) + "}", Steps=ctx.pick(24, 40)), spec_formula="Spec", invariants=["Required", "Ids", "Emit"], workers=8, timeout=1500)
        res = ctx.replay(exe, [dict(log=[{k: v for k, v in e.items() if k in ("op", "row", "ret", "id", "c", "v")} for e in c["log"]]) for c in g["gen"]], jobs=8, timeout_case=60, cwd=ctx.work)
        for c, r in zip(g["gen"], res):
            if not isinstance(r, list): ctx.mismatch("process", f"the process died: {str(r)[:200]}", c); continue
            for k, (e, o) in enumerate(zip(c["log"], r)):
                ctx.traces += 1; bad = None; op = e["op"]
                def differ(want, got):
                    if got is None or len(want) != len(got): return f"gives {len(got or [])} rows, {len(want)} are stored"
                    for w, x in zip(want, got):
                        for col, v in w.items():
                            if str(x.get(col)) != str(v): return f"column {col} reads {x.get(col)!r}, stored is {v!r}"
                if "error" in o: bad = f"fails: {o['error']}"
                elif op in ("insert", "update") and e["ret"]: bad = differ([dict(e["row"], id=e["id"])], o.get("rows"))
                elif op == "read": bad = differ([dict(x["v"], id=x["id"]) for x in e["rows"]], o.get("rows"))
                elif op == "find" and sorted(e["ids"]) != sorted(o.get("ids", [])): bad = f"finds rows {o.get('ids')}, equal are {e['ids']}"
                if bad:
                    col = e.get("c", "")
                    ctx.mismatch(f"{op}:{bad.split(' reads')[0] if ' reads' in bad else col}", f"step {k + 1} {op} {e.get('c', '')} {e.get('v', '')} {bad}", dict(log=c["log"][:k + 1])); break
    ctx.sample(g["gen"][0]["log"][:3])
