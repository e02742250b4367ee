-------------------------------- MODULE Db --------------------------------
(* Two tables, statements of the typed builder and their relational meaning. *)
(* Statements are decided by seeds (StSeeds), histories by seeds (HistSeeds);*)
(* a history creates the tables, runs statements with parameters, closes and *)
(* reopens, and lets another connection lock the database file.              *)
(* A value is a sequence of integers: <<>> is NULL, <<n>> a number (doubles  *)
(* in 4096ths), <<0, bytes...>> a text.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS StSeed, NSt, HistSeeds, Steps, Mode   \* Mode: "query" | "cache"
VARIABLES hs, step, up, A, B, seqA, lock, log
vars == <<hs, step, up, A, B, seqA, lock, log>>
H(x, i) == ((x % 20011) * 7919 + i * 104729 + 12345) % 20011
Pick(sq, x) == sq[((x \div 7) % Len(sq)) + 1]
NULL == <<>>
FREE == <<-99999>>
N(n) == <<n>>
T(bytes) == <<0>> \o bytes
TypeA == [id |-> "l", n |-> "i", m |-> "oi", s |-> "s", d |-> "d", u |-> "i", k |-> "i", t |-> "s"]
TypeB == [id |-> "l", aid |-> "l", v |-> "os", w |-> "i", q |-> "oi"]
TypeOf(tb, c) == IF tb = "A" THEN TypeA[c] ELSE TypeB[c]
Base(ty) == CASE ty = "oi" -> "i" [] ty = "os" -> "s" [] OTHER -> ty
ColsA == <<"id", "n", "m", "s", "d", "u", "k", "t">>
ColsB == <<"id", "aid", "v", "w", "q">>
\* ------------------------------------------------------------ value pools
Ints == <<-2, -1, 0, 1, 2, 3, 5, 7>>
Ids == <<1, 2, 3, 4, 5, 6>>
S == 4096
Dbls == <<-6144, -1024, 0, 2048, 4096, 8192, 10240, 16384>>      \* -1.5 -0.25 0 0.5 1 2 2.5 4
Texts == <<T(<<>>), T(<<97>>), T(<<65>>), T(<<97, 98>>), T(<<98, 39, 99>>), T(<<120, 37>>), T(<<97, 66>>), T(<<34, 113, 34>>), T(<<98>>), T(<<65, 98, 99>>)>>
Pats == <<T(<<97, 37>>), T(<<37, 98, 37>>), T(<<95>>), T(<<120, 37>>), T(<<65, 95>>), T(<<>>), T(<<37, 39, 37>>), T(<<37>>), T(<<95, 66, 37>>)>>
Default == [k |-> N(7), t |-> T(<<108, 111, 39, 108, 34, 105>>)]
ValOf(ty, x) == CASE ty = "l" -> N(Pick(Ids, x)) [] ty = "i" -> N(Pick(Ints, x)) [] ty = "d" -> N(Pick(Dbls, x)) [] ty = "s" -> Pick(Texts, x)
    [] ty = "oi" -> (IF x % 3 = 0 THEN NULL ELSE N(Pick(Ints, x))) [] ty = "os" -> (IF x % 3 = 0 THEN NULL ELSE Pick(Texts, x)) [] ty = "c" -> N((x \div 7) % 5) [] OTHER -> NULL
\* ------------------------------------------------------------ expressions
None == [op |-> "none"]
Col(tb, c) == [op |-> "col", tb |-> tb, c |-> c, ty |-> TypeOf(tb, c)]
Lit(ty, v) == [op |-> "lit", ty |-> ty, v |-> v]
Par(ty) == [op |-> "par", ty |-> ty]
Bin(op, f, l, r, ty) == [op |-> op, f |-> f, l |-> l, r |-> r, ty |-> ty]
\* the columns in scope: a sequence of <<table, column>>
Pairs(tb, cs) == [i \in DOMAIN cs |-> <<tb, cs[i]>>]
Scope(tbs) == (IF "A" \in tbs THEN Pairs("A", <<"id", "n", "m", "s", "d", "k", "n", "m", "u", "t">>) ELSE <<>>) \o (IF "B" \in tbs THEN Pairs("B", <<"id", "aid", "v", "w", "q">>) ELSE <<>>)
OfType(sc, tys) == SelectSeq(sc, LAMBDA p : TypeOf(p[1], p[2]) \in tys)
AnyCol(sc, tys, x) == LET o == OfType(sc, tys) IN LET p == Pick(o, x) IN Col(p[1], p[2])
Num == {"l", "i", "oi", "d"}
Cmps == <<"==", "!=", "<", "<=", ">", ">=">>
LitFor(ty, x) == Lit(Base(ty), ValOf(Base(ty), x))
MulLits == <<2048, 8192, 16384, 4096>>   \* 0.5 2 4 1
RECURSIVE Calc(_, _, _)
Calc(sc, x, d) ==   \* a calculation: a column and constants
    LET c == AnyCol(sc, Num, H(x, 1))  ty == Base(c.ty)
        inner == IF d > 0 /\ x % 2 = 0 THEN Calc(sc, H(x, 2), d - 1) ELSE c
        ity == Base(inner.ty)
        mixed == inner.op = "ar" /\ ity # "d" /\ H(x, 6) % 3 # 0      \* whole numbers and floating constants
        rty == IF mixed THEN "d" ELSE ity
        f == IF rty = "d" THEN Pick(<<"+", "-", "*", "/">>, H(x, 3)) ELSE Pick(<<"+", "-", "*", "/", "%">>, H(x, 3))
        lit == IF rty = "d" /\ f \in {"*", "/"} THEN Lit("d", N(Pick(MulLits, H(x, 4)))) ELSE Lit(rty, ValOf(rty, H(x, 4)))
    IN IF H(x, 5) % 3 = 0 /\ ~(rty = "d" /\ f = "/") THEN Bin("ar", f, lit, inner, rty) ELSE Bin("ar", f, inner, lit, rty)
RECURSIVE Params(_)
Params(e) == CASE e.op = "par" -> <<e.ty>> [] e.op \in {"cmp", "ar", "and", "or"} -> Params(e.l) \o Params(e.r)
    [] e.op = "in" -> SelectSeq([i \in DOMAIN e.vs |-> IF e.vs[i].op = "par" THEN e.vs[i].ty ELSE ""], LAMBDA p : p # "") [] OTHER -> <<>>
NP(e) == Len(Params(e))
\* ---- meaning: three-valued
Bool(b) == IF b THEN <<1>> ELSE <<0>>
RECURSIVE Lt(_, _)
Lt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Lt(Tail(a), Tail(b))
Cmp(f, a, b) == IF a = NULL \/ b = NULL THEN NULL ELSE
    Bool(CASE f = "==" -> a = b [] f = "!=" -> a # b [] f = "<" -> Lt(a, b) [] f = "<=" -> ~Lt(b, a) [] f = ">" -> Lt(b, a) [] OTHER -> ~Lt(a, b))
Abs(n) == IF n < 0 THEN -n ELSE n
TDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
\* one factor is a power of two (a constant): exact
Times(x, y) == IF y >= S THEN x * (y \div S) ELSE TDiv(x, S \div y)
Scale(x, y) == IF y \in {S \div 2, S, 2 * S, 4 * S} THEN Times(x, y) ELSE Times(y, x)
AsDbl(v, e) == IF v = NULL \/ Base(e.ty) = "d" THEN v ELSE N(v[1] * S)
Arith(f, a, b, ty) == IF a = NULL \/ b = NULL THEN NULL ELSE LET x == a[1]  y == b[1] IN
    CASE f = "+" -> N(x + y) [] f = "-" -> N(x - y)
      [] f = "*" -> N(IF ty = "d" THEN Scale(x, y) ELSE x * y)
      [] f = "/" -> (IF y = 0 THEN NULL ELSE N(IF ty = "d" THEN (IF y >= S THEN TDiv(x, y \div S) ELSE x * (S \div y)) ELSE TDiv(x, y)))
      [] OTHER -> (IF y = 0 THEN NULL ELSE N(x - y * TDiv(x, y)))
Truth(v) == IF v = NULL THEN "null" ELSE IF v[1] # 0 THEN "t" ELSE "f"
And3(a, b) == IF Truth(a) = "f" \/ Truth(b) = "f" THEN <<0>> ELSE IF a = NULL \/ b = NULL THEN NULL ELSE <<1>>
Or3(a, b) == IF Truth(a) = "t" \/ Truth(b) = "t" THEN <<1>> ELSE IF a = NULL \/ b = NULL THEN NULL ELSE <<0>>
Not3(a) == IF a = NULL THEN NULL ELSE Bool(a[1] = 0)
Fold(b) == IF b \in 65..90 THEN b + 32 ELSE b
RECURSIVE Like(_, _)
Like(p, t) == IF p = <<>> THEN t = <<>> ELSE IF p[1] = 37 THEN Like(Tail(p), t) \/ (t # <<>> /\ Like(p, Tail(t)))
    ELSE t # <<>> /\ (p[1] = 95 \/ Fold(p[1]) = Fold(t[1])) /\ Like(Tail(p), Tail(t))
RECURSIVE Eval(_, _, _)
Eval(e, r, ps) ==
    CASE e.op = "col" -> r[e.tb][e.c] [] e.op = "lit" -> e.v [] e.op = "par" -> ps[1]
      [] e.op \in {"cmp", "ar", "and", "or"} ->
           LET k == NP(e.l)  a == Eval(e.l, r, SubSeq(ps, 1, k))  b == Eval(e.r, r, SubSeq(ps, k + 1, Len(ps))) IN
           CASE e.op = "cmp" -> Cmp(e.f, a, b) [] e.op = "ar" -> (IF e.ty = "d" THEN Arith(e.f, AsDbl(a, e.l), AsDbl(b, e.r), "d") ELSE Arith(e.f, a, b, e.ty)) [] e.op = "and" -> And3(a, b) [] OTHER -> Or3(a, b)
      [] e.op = "not" -> Not3(r[e.c.tb][e.c.c])
      [] e.op = "null" -> Bool((r[e.c.tb][e.c.c] = NULL) # e.neg)
      [] e.op = "like" -> LET v == r[e.c.tb][e.c.c] IN (IF v = NULL THEN NULL ELSE Bool(Like(Tail(e.v), Tail(v)) # e.neg))
      [] OTHER -> LET v == r[e.c.tb][e.c.c]
                      nth(i) == Cardinality({j \in 1..i : e.vs[j].op = "par"})
                      item(i) == IF e.vs[i].op = "par" THEN ps[nth(i)] ELSE e.vs[i].v IN
                  IF v = NULL THEN NULL ELSE Bool((\E i \in DOMAIN e.vs : item(i) = v) # e.neg)
Holds(e, r, ps) == e.op = "none" \/ Truth(Eval(e, r, ps)) = "t"
\* ---- conditions
\* the value a calculation has for some row, so that comparisons are met
Sample(k, x) == LET row(tys, j) == [c \in DOMAIN tys |-> ValOf(Base(tys[c]), H(x, j + Len(tys[c]) + (IF c \in {"n", "w"} THEN 1 ELSE 2)))]
                    v == Eval(k, [A |-> row(TypeA, 3), B |-> row(TypeB, 9)], <<>>) IN
                IF v = NULL THEN Lit(k.ty, ValOf(k.ty, x)) ELSE Lit(k.ty, v)
Atom(sc, x, pm) ==
    LET y == H(x, 9)  c == AnyCol(sc, Num \cup {"s", "os"}, H(x, 1))  hasNum == OfType(sc, Num) # <<>>  kind == (x \div 3) % 12 IN
    CASE kind \in {0, 1} -> (IF y % 3 = 0 THEN Bin("cmp", Pick(Cmps, H(x, 2)), LitFor(c.ty, y), c, "b") ELSE Bin("cmp", Pick(Cmps, H(x, 2)), c, LitFor(c.ty, y), "b"))
      [] kind \in {2, 3, 4} /\ pm -> LET p == Par(IF c.ty \in {"i", "oi"} /\ y % 5 = 0 THEN "oi" ELSE Base(c.ty)) IN
            (IF y % 3 = 0 THEN Bin("cmp", Pick(Cmps, H(x, 2)), p, c, "b") ELSE Bin("cmp", Pick(Cmps, H(x, 2)), c, p, "b"))
      [] kind \in {2, 5} -> LET o == AnyCol(sc, {ty \in Num \cup {"s", "os"} : Base(ty) = Base(c.ty)}, H(x, 4)) IN Bin("cmp", Pick(Cmps, H(x, 2)), c, o, "b")
      [] kind \in {3, 6} /\ hasNum -> LET k == Calc(sc, H(x, 5), 2)  f == Pick(<<"==", "!=">>, H(x, 2))  z == AnyCol(sc, {ty \in Num : Base(ty) = k.ty}, H(x, 6)) IN
            CASE y % 4 = 0 \/ OfType(sc, {ty \in Num : Base(ty) = k.ty}) = <<>> -> Bin("cmp", f, k, Sample(k, H(x, 7)), "b") [] y % 4 = 1 -> Bin("cmp", f, Sample(k, H(x, 7)), k, "b")
              [] y % 4 = 2 -> Bin("cmp", f, k, z, "b") [] OTHER -> Bin("cmp", f, z, k, "b")
      [] kind \in {4, 7} /\ OfType(sc, {"s"}) # <<>> -> [op |-> "like", neg |-> y % 3 = 0, c |-> AnyCol(sc, {"s"}, H(x, 3)), v |-> Pick(Pats, y)]
      [] kind = 8 -> [op |-> "in", neg |-> y % 2 = 0, c |-> c, vs |-> [i \in 1..(1 + (y % 3)) |-> IF pm /\ H(y, i) % 4 = 0 THEN Par(Base(c.ty)) ELSE LitFor(c.ty, H(y, i))]]
      [] kind = 9 /\ OfType(sc, {"oi", "os"}) # <<>> -> [op |-> "null", neg |-> y % 2 = 0, c |-> AnyCol(sc, {"oi", "os"}, H(x, 3))]
      [] kind = 10 /\ hasNum -> [op |-> "not", c |-> AnyCol(sc, Num, H(x, 3))]
      [] kind = 11 /\ hasNum -> Calc(sc, H(x, 5), 2)    \* a number as a condition
      [] OTHER -> Bin("cmp", Pick(Cmps, H(x, 2)), c, LitFor(c.ty, y), "b")
RECURSIVE Expr(_, _, _, _)
Expr(sc, x, d, pm) == IF d = 0 \/ x % 4 = 0 THEN Atom(sc, H(x, 11), pm)
    ELSE Bin(IF H(x, 12) % 3 = 0 THEN "and" ELSE "or", "", Expr(sc, H(x, 13), d - 1, pm), Expr(sc, H(x, 14), d - 1, pm), "b")
Cond(sc, x, pm) == Expr(sc, x, 1 + (x % 3), pm)
\* ------------------------------------------------------------ statements
Aggs == <<"sum", "min", "max", "count", "countAll", "countDistinct", "avg">>
AggFor(tb, x) == LET f == Pick(Aggs, x)
                     tys == CASE f = "avg" -> {"i", "oi"} [] f \in {"min", "max"} -> Num \cup {"s", "os"} [] OTHER -> Num
                     c == AnyCol(Scope({tb}), tys, H(x, 2)) IN [k |-> "agg", f |-> f, tb |-> tb, c |-> c.c]
Plain(tb, c) == [k |-> "col", f |-> "", tb |-> tb, c |-> c]
NoLimit == [k |-> 0, a |-> NULL, b |-> NULL]
Bound(x) == IF x % 2 = 0 THEN <<>> ELSE <<(x \div 3) % 5>>     \* <<>>: a parameter
LimitOf(x) == CASE x % 3 = 0 -> NoLimit [] x % 3 = 1 -> [k |-> 1, a |-> Bound(H(x, 1)), b |-> NULL] [] OTHER -> [k |-> 2, a |-> Bound(H(x, 1)), b |-> Bound(H(x, 2))]
LimPars(l) == (IF l.k >= 1 /\ l.a = <<>> THEN <<"c">> ELSE <<>>) \o (IF l.k = 2 /\ l.b = <<>> THEN <<"c">> ELSE <<>>)
Flavour(x) == x % 2 = 0
Sel(x) ==
    LET join == IF x % 3 = 0 THEN Pick(<<"join", "leftJoin", "rightJoin">>, H(x, 1)) ELSE ""
        tbs == IF join # "" THEN {"A", "B"} ELSE IF H(x, 2) % 3 = 0 THEN {"B"} ELSE {"A"}
        main == IF "A" \in tbs THEN "A" ELSE "B"
        shape == IF join # "" THEN 0 ELSE H(x, 3) % 4     \* 0,1 rows  2 aggregates  3 groups
        safe(tb) == CASE join = "leftJoin" /\ tb = "B" -> <<"v", "q">> [] join = "rightJoin" /\ tb = "A" -> <<"m">> [] tb = "A" -> ColsA [] OTHER -> ColsB
        gc == AnyCol(Scope({main}), {"i", "oi", "os", "s"}, H(x, 4))
        gexpr == H(x, 5) % 4 = 0
        rowcols == LET one(i) == LET tb == IF join # "" /\ H(x, 20 + i) % 2 = 0 THEN "B" ELSE main IN Plain(tb, Pick(safe(tb), H(x, 30 + i))) IN [i \in 1..(2 + (x % 3)) |-> one(i)]
        aggs == [i \in 1..(1 + (H(x, 6) % 3)) |-> AggFor(main, H(x, 40 + i))]
        group == IF shape = 3 THEN (IF gexpr THEN Calc(Scope({main}), H(x, 7), 1) ELSE gc) ELSE None
        cols == CASE shape \in {0, 1} -> rowcols [] shape = 2 -> aggs [] OTHER -> (IF gexpr THEN aggs ELSE <<Plain(main, gc.c)>> \o aggs)
        limit0 == LimitOf(H(x, 8))
        limit == IF shape = 3 /\ gexpr THEN NoLimit ELSE limit0
        key(tb) == <<tb, "id", H(x, 50) % 2 = 0>>
        some == [i \in 1..(H(x, 9) % 3) |-> LET tb == IF join # "" /\ H(x, 60 + i) % 2 = 0 THEN "B" ELSE main IN <<tb, Pick(IF tb = "A" THEN ColsA ELSE ColsB, H(x, 65 + i)), H(x, 70 + i) % 2 = 0>>]
        order == CASE shape \in {0, 1} -> (IF limit.k > 0 THEN some \o (IF join # "" THEN <<key("A"), key("B")>> ELSE <<key(main)>>) ELSE some)
                   [] shape = 3 /\ ~gexpr -> (IF limit.k > 0 \/ x % 2 = 0 THEN <<<<main, gc.c, H(x, 51) % 2 = 0>>>> ELSE <<>>) [] OTHER -> <<>>
    IN [kind |-> "sel", tb |-> main, join |-> join, cols |-> cols, shape |-> shape,
        on |-> IF join # "" THEN (IF x % 2 = 0 THEN Bin("and", "", Bin("cmp", "==", Col("A", "id"), Col("B", "aid"), "b"), Expr(Scope(tbs), H(x, 10), 1, TRUE), "b") ELSE Cond(Scope(tbs), H(x, 10), TRUE)) ELSE None,
        where |-> IF H(x, 15) % 4 = 0 THEN None ELSE Cond(Scope(tbs), H(x, 16), TRUE),
        group |-> group, having |-> IF shape = 3 /\ ~gexpr /\ H(x, 17) % 2 = 0 THEN Cond(<<<<main, gc.c>>>> , H(x, 18), TRUE) ELSE None,
        order |-> order, limit |-> limit, named |-> H(x, 19) % 3 = 0, nt |-> Flavour(H(x, 80)), chg |-> FALSE, ret |-> <<>>, sets |-> <<>>, form |-> ""]
Mut(kind, tb, x) == [kind |-> kind, tb |-> tb, join |-> "", cols |-> <<>>, shape |-> 0, on |-> None, where |-> None, group |-> None, having |-> None, order |-> <<>>,
    limit |-> NoLimit, named |-> FALSE, nt |-> Flavour(H(x, 80)), chg |-> FALSE, ret |-> <<>>, sets |-> <<>>, form |-> ""]
RetOf(tb, x) == IF x % 3 = 0 THEN <<>> ELSE [i \in 1..(1 + (x % 3)) |-> Pick(IF tb = "A" THEN ColsA ELSE ColsB, H(x, i))]
Ins(x) == CASE x % 5 \in {0, 1} -> [Mut("ins", "A", x) EXCEPT !.form = "obj", !.sets = <<"n", "m", "s", "d", "u", "k", "t">>, !.ret = RetOf("A", H(x, 1))]
            [] x % 5 = 2 -> [Mut("ins", "A", x) EXCEPT !.form = "ptrs", !.sets = Pick(<<<<"n", "s", "d", "u">>, <<"u", "d", "s", "n">>, <<"t", "n", "m", "u", "s", "d">>, <<"d", "u", "k", "n", "s", "m">>>>, H(x, 2)), !.ret = RetOf("A", H(x, 1))]
            [] OTHER -> [Mut("ins", "B", x) EXCEPT !.form = "full", !.sets = ColsB, !.ret = RetOf("B", H(x, 1))]
Upd(x) == LET tb == IF x % 3 = 0 THEN "B" ELSE "A"
              sets == IF tb = "A" THEN Pick(<<<<"n">>, <<"u">>, <<"m", "n">>, <<"s", "u">>, <<"d", "t", "k">>, <<"u", "m">>>>, H(x, 1)) ELSE Pick(<<<<"w">>, <<"q">>, <<"v", "q">>, <<"aid", "w">>>>, H(x, 1)) IN
    [Mut("upd", tb, x) EXCEPT !.sets = sets, !.where = IF H(x, 2) % 5 = 0 THEN None ELSE Cond(Scope({tb}), H(x, 3), TRUE), !.ret = RetOf(tb, H(x, 4)), !.chg = H(x, 5) % 2 = 0]
Del(x) == LET tb == IF x % 3 = 0 THEN "B" ELSE "A" IN
    [Mut("del", tb, x) EXCEPT !.where = Cond(Scope({tb}), H(x, 3), TRUE), !.ret = RetOf(tb, H(x, 4)), !.chg = H(x, 5) % 2 = 0]
St(i) == LET x == H(StSeed, i) IN
    CASE i = 1 -> Ins(5 * x) [] i = 2 -> Ins(5 * x + 3) [] i = 3 -> Ins(5 * x + 2) [] i = 4 -> Upd(x) [] i = 5 -> Del(x)
      [] i = 6 /\ Mode = "cache" -> Upd(H(x, 1)) [] i = 7 /\ Mode = "cache" -> Del(H(x, 1)) [] OTHER -> Sel(x)
Stmts == [i \in 1..NSt |-> St(i)]
ParsOf(s) == Params(s.on) \o Params(s.where) \o Params(s.group) \o Params(s.having) \o LimPars(s.limit)
\* ------------------------------------------------------------ running them
NoA == [c \in DOMAIN TypeA |-> NULL]
NoB == [c \in DOMAIN TypeB |-> NULL]
Both(a, b) == [A |-> a, B |-> b]
Source(s, ps) == \* the rows a query ranges over (a sequence; its order means nothing)
    LET onps == SubSeq(ps, 1, NP(s.on))
        pairs == [k \in 1..(Len(A) * Len(B)) |-> Both(A[((k - 1) \div Len(B)) + 1], B[((k - 1) % Len(B)) + 1])]
        inner == SelectSeq(pairs, LAMBDA r : Holds(s.on, r, onps))
        lonely == SelectSeq(A, LAMBDA a : ~\E i \in DOMAIN B : Holds(s.on, Both(a, B[i]), onps))
        alone == SelectSeq(B, LAMBDA b : ~\E i \in DOMAIN A : Holds(s.on, Both(A[i], b), onps)) IN
    CASE s.join = "" /\ s.tb = "A" -> [i \in DOMAIN A |-> Both(A[i], NoB)] [] s.join = "" -> [i \in DOMAIN B |-> Both(NoA, B[i])]
      [] s.join = "join" -> inner
      [] s.join = "leftJoin" -> inner \o [i \in DOMAIN lonely |-> Both(lonely[i], NoB)]
      [] OTHER -> inner \o [i \in DOMAIN alone |-> Both(NoA, alone[i])]
RECURSIVE Sum(_)
Sum(sq) == IF sq = <<>> THEN 0 ELSE sq[1][1] + Sum(Tail(sq))
Agg(g, rows) ==
    LET all == [i \in DOMAIN rows |-> rows[i][g.tb][g.c]]  vs == SelectSeq(all, LAMBDA v : v # NULL)  set == {vs[i] : i \in DOMAIN vs}
        ty == TypeOf(g.tb, g.c)  dbl == ty = "d"  cnt(n) == N(IF dbl THEN n * S ELSE n)
        none == IF ty \in {"oi", "os"} THEN NULL ELSE FREE IN
    CASE g.f = "count" -> cnt(Len(vs)) [] g.f = "countAll" -> cnt(Len(all)) [] g.f = "countDistinct" -> cnt(Cardinality(set))
      [] vs = <<>> -> none
      [] g.f = "sum" -> N(Sum(vs)) [] g.f = "avg" -> N(TDiv(Sum(vs), Len(vs)))
      [] g.f = "min" -> CHOOSE v \in set : \A w \in set : ~Lt(w, v)
      [] OTHER -> CHOOSE v \in set : \A w \in set : ~Lt(v, w)
Out(s, rows) == [i \in DOMAIN s.cols |-> IF s.cols[i].k = "agg" THEN Agg(s.cols[i], rows) ELSE rows[1][s.cols[i].tb][s.cols[i].c]]
RECURSIVE Before(_, _, _)
Before(order, a, b) == IF order = <<>> THEN FALSE ELSE LET o == order[1]  x == a[o[1]][o[2]]  y == b[o[1]][o[2]] IN
    IF x = y THEN Before(Tail(order), a, b) ELSE IF o[3] THEN Lt(x, y) ELSE Lt(y, x)     \* NULL, the empty sequence, is the least
Query(s, ps) == \* a sequence of <<rank, values>>: rows of one rank come in any order
    LET onN == NP(s.on)  whN == NP(s.where)  grN == NP(s.group)  haN == NP(s.having)
        wps == SubSeq(ps, onN + 1, onN + whN)  gps == SubSeq(ps, onN + whN + 1, onN + whN + grN)  hps == SubSeq(ps, onN + whN + grN + 1, onN + whN + grN + haN)
        lps == SubSeq(ps, onN + whN + grN + haN + 1, Len(ps))
        src == SelectSeq(Source(s, ps), LAMBDA r : Holds(s.where, r, wps))
        keys == {Eval(s.group, src[i], gps) : i \in DOMAIN src}
        RECURSIVE SeqOf(_)
        SeqOf(ks) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks : TRUE IN <<k>> \o SeqOf(ks \ {k})
        groups == CASE s.shape \in {0, 1} -> [i \in DOMAIN src |-> <<src[i]>>] [] s.shape = 2 -> <<src>>
                    [] OTHER -> LET ks == SeqOf(keys) IN [i \in DOMAIN ks |-> SelectSeq(src, LAMBDA r : Eval(s.group, r, gps) = ks[i])]
        kept == IF s.having.op = "none" THEN groups ELSE SelectSeq(groups, LAMBDA g : Holds(s.having, g[1], hps))
        rank(i) == IF s.order = <<>> THEN 0 ELSE Cardinality({j \in DOMAIN kept : Before(s.order, kept[j][1], kept[i][1])})
        bound(b, i) == IF b = <<>> THEN lps[i][1] ELSE b[1]
        offset == IF s.limit.k = 2 THEN bound(s.limit.a, 1) ELSE 0
        count == CASE s.limit.k = 0 -> Len(kept) [] s.limit.k = 1 -> bound(s.limit.a, 1) [] OTHER -> bound(s.limit.b, IF s.limit.a = <<>> THEN 2 ELSE 1)
        ranked == [i \in DOMAIN kept |-> <<IF Len(kept) = 1 THEN 0 ELSE rank(i), Out(s, kept[i])>>]
    IN SelectSeq(ranked, LAMBDA r : s.limit.k = 0 \/ (r[1] >= offset /\ r[1] < offset + count))
Table(tb) == IF tb = "A" THEN A ELSE B
RowOf(tb, r) == IF tb = "A" THEN Both(r, NoB) ELSE Both(NoA, r)
AsRow(tb, s, vals) == [c \in DOMAIN (IF tb = "A" THEN TypeA ELSE TypeB) |->
    IF \E i \in DOMAIN s.sets : s.sets[i] = c THEN vals[CHOOSE i \in DOMAIN s.sets : s.sets[i] = c] ELSE IF c \in DOMAIN Default THEN Default[c] ELSE NULL]
Legal(rows, tb) == \* keys are unique, required columns are there
    /\ \A i, j \in DOMAIN rows : i # j => rows[i].id # rows[j].id /\ (tb = "A" => rows[i].u # rows[j].u)
    /\ tb = "B" => \A i \in DOMAIN rows : rows[i].q # NULL
Shown(s, rows) == [i \in DOMAIN rows |-> <<0, [k \in DOMAIN s.ret |-> rows[i][s.ret[k]]]>>]
\* the outcome of a statement: error or rows, number of changed rows, new table
Failed(tb) == [ok |-> FALSE, rows |-> <<>>, n |-> 0, tab |-> Table(tb), seq |-> seqA]
Outcome(s, vals, ps) ==
    CASE ~up -> Failed(s.tb)
      [] lock = "exc" -> Failed(s.tb)
      [] lock = "imm" /\ s.kind # "sel" -> Failed(s.tb)
      [] s.kind = "sel" -> [ok |-> TRUE, rows |-> Query(s, ps), n |-> 0, tab |-> Table(s.tb), seq |-> seqA]
      [] s.kind = "ins" ->
            LET raw == AsRow(s.tb, s, vals)
                row == IF s.tb = "A" THEN [raw EXCEPT !.id = N(seqA + 1)] ELSE raw
                new == Append(Table(s.tb), row) IN
            IF Legal(new, s.tb) THEN [ok |-> TRUE, rows |-> IF s.ret = <<>> THEN <<>> ELSE Shown(s, <<row>>), n |-> 1, tab |-> new, seq |-> IF s.tb = "A" THEN seqA + 1 ELSE seqA] ELSE Failed(s.tb)
      [] s.kind = "upd" ->
            LET old == Table(s.tb)
                hit(r) == Holds(s.where, RowOf(s.tb, r), ps)
                val(c) == vals[CHOOSE i \in DOMAIN s.sets : s.sets[i] = c]
                ch(r) == [c \in DOMAIN r |-> IF \E i \in DOMAIN s.sets : s.sets[i] = c THEN val(c) ELSE r[c]]
                new == [i \in DOMAIN old |-> IF hit(old[i]) THEN ch(old[i]) ELSE old[i]]
                hits == SelectSeq(old, LAMBDA r : hit(r)) IN
            IF Legal(new, s.tb) THEN [ok |-> TRUE, rows |-> IF s.ret = <<>> THEN <<>> ELSE Shown(s, [i \in DOMAIN hits |-> ch(hits[i])]), n |-> Len(hits), tab |-> new, seq |-> seqA] ELSE Failed(s.tb)
      [] OTHER ->
            LET hits == SelectSeq(Table(s.tb), LAMBDA r : Holds(s.where, RowOf(s.tb, r), ps)) IN
            [ok |-> TRUE, rows |-> IF s.ret = <<>> THEN <<>> ELSE Shown(s, hits), n |-> Len(hits), tab |-> SelectSeq(Table(s.tb), LAMBDA r : ~Holds(s.where, RowOf(s.tb, r), ps)), seq |-> seqA]
\* ------------------------------------------------------------ histories
X == H(H(hs, step), 3)
Init == hs \in HistSeeds /\ step = 0 /\ up = FALSE /\ A = <<>> /\ B = <<>> /\ seqA = 0 /\ lock = "no" /\ log = <<>>
Note(e) == log' = Append(log, e) /\ step' = step + 1 /\ hs' = hs
Create == ~up /\ up' = TRUE /\ UNCHANGED <<A, B, seqA, lock>> /\ Note([op |-> "create", lock |-> "no"])
Again == up /\ lock = "no" /\ UNCHANGED <<up, A, B, seqA, lock>> /\ Note([op |-> "create", lock |-> "no"])
Drop == up /\ lock = "no" /\ up' = FALSE /\ A' = <<>> /\ B' = <<>> /\ seqA' = 0 /\ lock' = lock /\ Note([op |-> "drop", lock |-> "no"])
Reopen == lock = "no" /\ UNCHANGED <<up, A, B, seqA, lock>> /\ Note([op |-> "reopen", lock |-> "no"])
Lock == up /\ lock = "no" /\ lock' = Pick(<<"imm", "exc">>, X) /\ UNCHANGED <<up, A, B, seqA>> /\ Note([op |-> "lock", lock |-> lock'])
Unlock == lock # "no" /\ lock' = "no" /\ UNCHANGED <<up, A, B, seqA>> /\ Note([op |-> "unlock", lock |-> "no"])
Run(i) ==
    LET s == Stmts[i]  pt == ParsOf(s)
        ps == [k \in DOMAIN pt |-> ValOf(pt[k], H(X, 100 + k))]
        vals == [k \in DOMAIN s.sets |-> LET c == s.sets[k] IN IF c = "u" THEN N(H(X, 200) % (IF Mode = "cache" THEN 9 ELSE 60)) ELSE IF s.kind = "ins" /\ s.tb = "B" /\ c = "id" THEN N(H(X, 201) % (IF Mode = "cache" THEN 6 ELSE 40))
                    ELSE IF c = "q" /\ (Mode # "cache" \/ H(X, 202) % 4 # 0) THEN N(Pick(Ints, H(X, 203))) ELSE ValOf(TypeOf(s.tb, c), H(X, 210 + k))]
        o == Outcome(s, vals, ps) IN
    /\ A' = (IF s.tb = "A" THEN o.tab ELSE A) /\ B' = (IF s.tb = "B" THEN o.tab ELSE B) /\ seqA' = o.seq /\ UNCHANGED <<up, lock>>
    /\ Note([op |-> "run", st |-> i, ps |-> ps, vals |-> vals, ok |-> o.ok, rows |-> o.rows, n |-> o.n, tab |-> o.tab, lock |-> lock])
Full == Len(A) + Len(B) >= 14
Filling == Mode = "query" /\ (step < 14 \/ Len(A) + Len(B) < 4)
Choice == IF Filling THEN 1 + (X % 3)
          ELSE IF Mode = "query" THEN (IF X % 4 = 0 THEN (IF Full THEN 4 + (H(X, 1) % 2) ELSE 1 + (H(X, 1) % 5)) ELSE 6 + (H(X, 1) % (NSt - 5)))
          ELSE IF Full /\ X % 2 = 0 THEN 5 ELSE 1 + (H(X, 1) % NSt)
Next ==
    /\ step < Steps
    /\ LET z == H(X, 7) % 100 IN
       CASE Mode = "query" -> (IF ~up THEN Create ELSE Run(Choice))
         [] ~up -> (IF z < 20 THEN Create ELSE IF z < 27 THEN Reopen ELSE Run(Choice))
         [] lock # "no" -> (IF z < 30 THEN Unlock ELSE Run(Choice))
         [] z < 6 -> Lock [] z < 10 -> Reopen [] z < 13 -> Again [] z < 17 -> Drop [] OTHER -> Run(Choice)
Spec == Init /\ [][Next]_vars
LegalTables == Legal(A, "A") /\ Legal(B, "B")
FailsCleanly == [][\A e \in {log'[Len(log')]} : e.op = "run" => (~e.ok => A' = A /\ B' = B /\ seqA' = seqA)]_vars
Grows == [][seqA' >= seqA \/ ~up']_vars
Emit == step = Steps => PrintT("@@" \o ToJson([st |-> IF hs = CHOOSE h \in HistSeeds : \A g \in HistSeeds : h <= g THEN Stmts ELSE <<>>, log |-> log]))
=============================================================================
