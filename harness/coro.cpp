// Interpreter of Coro.tla programs on the real event loop: one case = one program, the result is the recorded trace.
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/awaiter/WhenAll.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
#include <HXLibs/coroutine/executor/SerialExecutor.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <csignal>
#include <memory>
#include <optional>
#include "vj.hpp"
#include "feeder.hpp"
using vj::J; using namespace HX; using namespace HX::coroutine;
using Clock = std::chrono::system_clock; using namespace std::chrono_literals;
struct Err { int x; };
struct Val { int v = 0; static inline int live = 0; explicit Val(int n) : v(n) { ++live; } Val(Val&& o) noexcept : v(o.v) { o.v = -1; ++live; } Val& operator=(Val&& o) noexcept { v = o.v; o.v = -1; return *this; } ~Val() { --live; } };
struct Stmt { std::string k; int n; std::vector<int> cs; bool c; };
struct Node { bool raw; int par, ps, kind; std::vector<Stmt> body; };
struct M;
static M* g;
struct M {
    std::vector<Node> t; J log = J::arr(); std::vector<int> gone; int unit = 2; Clock::time_point t0; bool early = false, late = false; int form = 0;
    EventLoop loop; SerialExecutor ser; std::vector<std::unique_ptr<vf::Pair>> sig; std::vector<char> woken; bool ended = false;
    void ev(char const* e, int tt, int i, std::vector<int> r) {
        std::sort(gone.begin(), gone.end()); J gj = J::arr(); for (int x : gone) gj.push(x); gone.clear();
        J rj = J::arr(); for (int x : r) rj.push(x);
        log.push(J::obj().set("e", e).set("t", tt).set("i", i).set("r", rj).set("g", gj));
    }
    Clock::time_point at(int n) const { return t0 + std::chrono::microseconds(n * (unit * 1000ll + 137)); }
    void due(Clock::time_point d) { auto n = Clock::now(); if (n < d) early = true; }
};
struct Arg { int t; explicit Arg(int n) : t(n) {} Arg(Arg&& o) noexcept : t(o.t) { o.t = 0; } ~Arg() { if (t) g->gone.push_back(2 * t + 1); } };
struct Local { int t; Local(int n) : t(n) {} Local(Local const&) = delete; ~Local() { g->gone.push_back(2 * t); } };
// -------------------------------------------------------------- operands of whenAny / whenAll
enum { kVal, kVoid, kSleep, kYield, kIo };
Task<Val> bodyV(int t, Arg a); Task<> bodyX(int t, Arg a);
template <int K> struct Op;
template <> struct Op<kVal> { Task<Val> t; Op(int n) : t(bodyV(n, Arg{n})) {} Task<Val>&& get() { return std::move(t); } };
template <> struct Op<kVoid> { Task<> t; Op(int n) : t(bodyX(n, Arg{n})) {} Task<>&& get() { return std::move(t); } };
template <> struct Op<kSleep> { TimerLoop::TimerAwaiter t; Op(int n) : t(g->loop.makeTimer().sleepUntil(g->at(g->t[n].body[0].n))) {} TimerLoop::TimerAwaiter&& get() { return std::move(t); } };
template <> struct Op<kYield> { TimerLoop::YieldAwaiter t; Op(int) : t(g->loop.makeTimer().yield()) {} TimerLoop::YieldAwaiter&& get() { return std::move(t); } };
template <> struct Op<kIo> { char b = 0; AioTask t; Op(int n) : t(g->loop.makeAioTask()) { std::ignore = std::move(t).prepRecv(g->sig[g->t[n].body[0].n]->r, std::span<char>{&b, 1}, 0); } AioTask&& get() { return std::move(t); } };
template <typename X> int valOf(X const& x, int t) { if constexpr (std::is_same_v<X, Val>) return x.v; else return g->t[t].raw ? 0 : t; }
using R = std::vector<int>;
template <typename V, std::size_t... I> R anyRes(V& v, std::vector<int> const& cs, std::index_sequence<I...>) {
    R r{2, (int)v.index() + 1, -9}; ((v.index() == I ? void(r[2] = valOf(v.template get<I>(), cs[I])) : void()), ...); return r;
}
template <typename T1> void allOne(R& r, container::Try<T1>& x, int t) {
    if (x) { r.push_back(0); r.push_back(valOf(x.get(), t)); return; }
    r.push_back(1); try { x.rethrow(); r.push_back(-8); } catch (Err& e) { r.push_back(e.x); } catch (...) { r.push_back(-7); }
}
template <typename Tp, std::size_t... I> R allRes(Tp& v, std::vector<int> const& cs, std::index_sequence<I...>) { R r{3}; (allOne(r, std::get<I>(v), cs[I]), ...); return r; }
template <int A, int B> Task<R> any2(std::vector<int> cs, int op) {
    if constexpr (A != kIo && B != kIo) if (op) { auto v = co_await (Op<A>(cs[0]).get() || Op<B>(cs[1]).get()); co_return anyRes(v, cs, std::make_index_sequence<2>{}); }
    auto v = co_await whenAny(Op<A>(cs[0]).get(), Op<B>(cs[1]).get()); co_return anyRes(v, cs, std::make_index_sequence<2>{});
}
template <int A, int B> Task<R> all2(std::vector<int> cs, int op) {
    if constexpr (A != kIo && B != kIo) if (op) { auto v = co_await (Op<A>(cs[0]).get() && Op<B>(cs[1]).get()); co_return allRes(v, cs, std::make_index_sequence<2>{}); }
    auto v = co_await whenAll(Op<A>(cs[0]).get(), Op<B>(cs[1]).get()); co_return allRes(v, cs, std::make_index_sequence<2>{});
}
template <int A, int B, int C> Task<R> any3(std::vector<int> cs, int op) {
    if (op == 2) { auto v = co_await (Op<A>(cs[0]).get() || (Op<B>(cs[1]).get() || Op<C>(cs[2]).get())); co_return anyRes(v, cs, std::make_index_sequence<3>{}); }
    if (op) { auto v = co_await (Op<A>(cs[0]).get() || Op<B>(cs[1]).get() || Op<C>(cs[2]).get()); co_return anyRes(v, cs, std::make_index_sequence<3>{}); }
    auto v = co_await whenAny(Op<A>(cs[0]).get(), Op<B>(cs[1]).get(), Op<C>(cs[2]).get()); co_return anyRes(v, cs, std::make_index_sequence<3>{});
}
template <int A, int B, int C> Task<R> all3(std::vector<int> cs, int op) {
    if (op == 2) { auto v = co_await (Op<A>(cs[0]).get() && (Op<B>(cs[1]).get() && Op<C>(cs[2]).get())); co_return allRes(v, cs, std::make_index_sequence<3>{}); }
    if (op) { auto v = co_await (Op<A>(cs[0]).get() && Op<B>(cs[1]).get() && Op<C>(cs[2]).get()); co_return allRes(v, cs, std::make_index_sequence<3>{}); }
    auto v = co_await whenAll(Op<A>(cs[0]).get(), Op<B>(cs[1]).get(), Op<C>(cs[2]).get()); co_return allRes(v, cs, std::make_index_sequence<3>{});
}
using F = Task<R> (*)(std::vector<int>, int);
template <int... I> F pick2(bool any, int k, std::integer_sequence<int, I...>) { F f = nullptr; ((k == I ? void(f = any ? &any2<I / 5, I % 5> : &all2<I / 5, I % 5>) : void()), ...); return f; }
template <int... I> F pick3(bool any, int k, std::integer_sequence<int, I...>) { F f = nullptr; ((k == I ? void(f = any ? &any3<I / 9, I / 3 % 3, I % 3> : &all3<I / 9, I / 3 % 3, I % 3>) : void()), ...); return f; }
Task<R> one(bool any, std::vector<int> cs) { // a single operation
    if (any) std::abort();
    auto v = co_await whenAll(bodyV(cs[0], Arg{cs[0]})); R r{3}; allOne(r, std::get<0>(v), cs[0]); co_return r;
}
Task<R> several(bool any, std::vector<int> cs, int op) {
    auto kd = [&](int i) { return g->t[cs[i]].kind; };
    if (cs.size() == 1) co_return co_await one(any, cs);
    if (cs.size() == 2) co_return co_await pick2(any, kd(0) * 5 + kd(1), std::make_integer_sequence<int, 25>{})(cs, op);
    if (cs.size() == 6) {
        auto q = std::make_index_sequence<6>{}; auto v = [&](int i) { return Op<kVal>(cs[i]); };
        if (any) { auto x = co_await whenAny(v(0).get(), v(1).get(), v(2).get(), v(3).get(), v(4).get(), v(5).get()); co_return anyRes(x, cs, q); }
        auto x = co_await whenAll(v(0).get(), v(1).get(), v(2).get(), v(3).get(), v(4).get(), v(5).get()); co_return allRes(x, cs, q);
    }
    if (cs.size() == 4) {
        auto q = std::make_index_sequence<4>{}; auto v = [&](int i) { return Op<kVal>(cs[i]); };
        if (any && op) { auto x = co_await ((v(0).get() || v(1).get()) || (v(2).get() || v(3).get())); co_return anyRes(x, cs, q); }
        if (any) { auto x = co_await whenAny(v(0).get(), v(1).get(), v(2).get(), v(3).get()); co_return anyRes(x, cs, q); }
        if (op) { auto x = co_await ((v(0).get() && v(1).get()) && (v(2).get() && v(3).get())); co_return allRes(x, cs, q); }
        auto x = co_await whenAll(v(0).get(), v(1).get(), v(2).get(), v(3).get()); co_return allRes(x, cs, q);
    }
    co_return co_await pick3(any, kd(0) * 9 + kd(1) * 3 + kd(2), std::make_integer_sequence<int, 27>{})(cs, op);
}
Task<int> trivial(int i) { co_return i; }
RootTask<> root(int t);
Task<> run(int t) {
    auto& n = g->t[t];
    for (int i = 1; i <= (int)n.body.size(); ++i) {
        auto& s = n.body[i - 1]; R r{0, 0};
        auto& k = s.k;
        try {
            if (k == "sleep") { auto d = g->at(s.n); co_await g->loop.makeTimer().sleepUntil(d); g->due(d); }
            else if (k == "for") { auto d = Clock::now() + std::chrono::microseconds(s.n * (g->unit * 1000ll + 137)); co_await g->loop.makeTimer().sleepFor(std::chrono::microseconds(s.n * (g->unit * 1000ll + 137))); g->due(d); }
            else if (k == "yield") co_await g->loop.makeTimer().yield();
            else if (k == "spin") { do co_await g->loop.makeTimer().yield(); while (!g->woken[s.n]); }
            else if (k == "tick") { do co_await g->loop.makeTimer().sleepFor(200us); while (!g->woken[s.n]); }
            else if (k == "io") { char b = 0; int x; if (s.n % 2) x = co_await g->loop.makeAioTask().prepRecv(g->sig[s.n]->r, std::span<char>{&b, 1}, 0); else x = co_await g->loop.makeAioTask().prepPollAdd(g->sig[s.n]->r, POLLIN) == POLLIN ? 1 : 0; if (x != 1) r = {4, x}; }
            else if (k == "wake") { g->woken[s.n] = 1; if (::send(g->sig[s.n]->w, "x", 1, MSG_NOSIGNAL) != 1) r = {5, 0}; }
            else if (k == "many") { int sum = 0; for (int j = 0; j < s.n; ++j) sum += co_await trivial(1); if (sum != s.n) r = {6, sum}; }
            else if (k == "drop") { auto x = bodyV(s.cs[0], Arg{s.cs[0]}); if (s.n % 2) { auto y = std::move(x); } }
            else if (k == "spawn") root(s.cs[0]).detach();
            else if (k == "throw") throw Err{s.n};
            else if (k == "call") {
                int c = s.cs[0];
                if (g->t[c].kind == kVal) { auto v = co_await bodyV(c, Arg{c}); r = {0, v.v}; }
                else { co_await bodyX(c, Arg{c}); r = {0, c}; }
            }
            else if (k == "serial") { int c = s.cs[0]; co_await g->ser.serial(bodyX(c, Arg{c})); r = {0, c}; }
            else r = co_await several(k == "any", s.cs, s.n);
        } catch (Err& e) { if (!s.c || k == "throw") throw; r = {1, e.x}; }
        g->ev("s", t, i, r);
    }
}
Task<Val> bodyV(int t, Arg a) { Local l{t}; g->ev("b", t, 0, {0}); co_await run(t); co_return Val{t}; }
Task<> bodyX(int t, Arg a) { Local l{t}; g->ev("b", t, 0, {0}); co_await run(t); }
Task<R> outcome(int t) {
    try { if (g->t[t].kind == kVal) { auto v = co_await bodyV(t, Arg{t}); co_return R{0, v.v}; } co_await bodyX(t, Arg{t}); co_return R{0, t}; }
    catch (Err& e) { co_return R{1, e.x}; }
}
RootTask<> root(int t) { auto r = co_await outcome(t); g->ev("q", t, 0, r); }
J doCase(J const& c) {
    auto m = std::make_unique<M>(); g = m.get(); J out = J::obj();
    m->t.emplace_back(); int nsig = 1;
    for (auto const& x : c["prog"]["t"]) {
        Node n{x["raw"].t(), (int)x["par"].i(), (int)x["ps"].i(), (int)x["kind"].i(), {}};
        for (auto const& s : x["body"]) { Stmt q{s["k"].s, (int)s["n"].i(), {}, s["c"].t()}; for (auto const& y : s["cs"]) q.cs.push_back((int)y.i()); if (q.k == "io" || q.k == "wake" || q.k == "spin" || q.k == "tick") nsig = std::max(nsig, q.n + 1); n.body.push_back(q); }
        m->t.push_back(n);
    }
    for (int i = 0; i < nsig; ++i) m->sig.push_back(std::make_unique<vf::Pair>());
    m->woken.assign(nsig, 0); m->unit = (int)c["unit"].i(2); int fds = vf::openFds();
    m->t0 = Clock::now() + 1ms; auto s0 = vf::now();
    auto const& roots = c["prog"]["roots"];
    if (c["prog"]["sync"].t()) {
        for (std::size_t i = 1; i < roots.size(); ++i) root((int)roots[i].i()).detach();
        R r;
        if (m->t[1].kind == kVal) { auto x = m->loop.trySync(bodyV(1, Arg{1})); if (x) r = {0, x.get().v}; else try { x.rethrow(); } catch (Err& e) { r = {1, e.x}; } }
        else { try { m->loop.sync(bodyX(1, Arg{1})); r = {0, 1}; } catch (Err& e) { r = {1, e.x}; } }
        g->ev("q", 1, 0, r);
    } else { for (auto const& x : roots) root((int)x.i()).detach(); m->loop.run(); }
    g->ev("z", 0, 0, {0});
    out.set("ms", (long long)((vf::now() - s0) * 1000)).set("early", m->early).set("pending", m->loop.getEventDrive().isRun()).set("log", m->log).set("fds", vf::openFds() - fds);
    m.reset(); g = nullptr; out.set("live", Val::live); Val::live = 0;
    return out;
}
int main() { ::signal(SIGPIPE, SIG_IGN); return vj::serve(doCase); }
