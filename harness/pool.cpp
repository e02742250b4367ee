// Thread pool and futures under a controlled scheduler: runs a program, records what is observable.
#include "sched.hpp"
#include "forked.hpp"
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <HXLibs/container/ThreadPool.hpp>
using namespace HX; using namespace HX::container; using vj::J; using namespace std::chrono_literals;
struct Err { int x; };
struct Val { int v = 0; explicit Val(int n) : v(n) { ++live; } Val(Val&& o) noexcept : v(o.v) { o.v = -1; ++live; } Val& operator=(Val&& o) noexcept { v = o.v; o.v = -1; return *this; } ~Val() { --live; } static inline int live = 0; };
struct Op { std::string k; int a, b; };
struct TaskDef { int p; std::string o; std::vector<Op> body; };
struct Fut { std::unique_ptr<FutureResult<Val>> v; std::unique_ptr<FutureResult<>> x; };
struct M { std::vector<char> begun; std::mutex bm; std::condition_variable bcv; std::vector<TaskDef> t; std::vector<Fut> fut; std::vector<int> key; ThreadPool* pool = nullptr; J log = J::arr(); int n = 0; };
static M* g;
static void ev(char const* e, int i, int w = 0, int r0 = 0, int r1 = 0) { J j = J::obj(); j.set("e", e).set("i", i).set("w", w).set("r", J::arr().push(r0).push(r1)); g->log.push(j); }
static void ops(std::vector<Op> const& b);
static int me() { return sched::me->id; }
// the body of task i: as value, nothing or exception
static void body(int i, int r0, int r1, bool argsOk = true) { ev(argsOk ? "beg" : "badargs", i, me(), r0, r1); { std::lock_guard _{g->bm}; g->begun[i] = 1; } g->bcv.notify_all(); ops(g->t[i].body); ev("end", i, me()); }
struct Keep { Val v; explicit Keep(int i) : v(i) {} };      // function objects are moved, never lost
static void add(int i) {
    auto& o = g->t[i].o; ev("call", i);
    if (o == "v") g->fut[i].v = std::make_unique<FutureResult<Val>>(g->pool->addTask([i, k = Keep{i}](Val a, int& b, std::string s) { body(i, 0, 0, k.v.v == i && a.v == i && b == i && s == std::to_string(i)); return Val{i}; }, Val{i}, g->key[i], std::to_string(i)));
    else if (o == "x") g->fut[i].x = std::make_unique<FutureResult<>>(g->pool->addTask([i, k = Keep{i}](Val&& a) { body(i, 0, 0, k.v.v == i && a.v == i); }, Val{i}));
    else if (o == "e") g->fut[i].v = std::make_unique<FutureResult<Val>>(g->pool->addTask([i]() -> Val { body(i, 0, 0); throw Err{i}; }));
    else g->fut[i].x = std::make_unique<FutureResult<>>(g->pool->addTask([i] { body(i, 0, 0); throw Err{i}; }));   // "u"
    ev("acc", i);
}
template <typename T> static std::pair<int, int> seen(Try<T>& t) {
    if (t) { if constexpr (std::is_void_v<T>) return {0, 0}; else return {0, t.get().v}; }
    try { t.rethrow(); } catch (Err& e) { return {1, e.x}; } catch (...) { return {1, -7}; } return {1, -8};
}
template <typename T> static void then(FutureResult<T>&& f, int j) {
    auto& o = g->t[j].o; ev("call", j); using A = Try<T>;
    auto in = [j](A& t) { auto [a, b] = seen(t); body(j, a, b); };
    if (o == "v") g->fut[j].v = std::make_unique<FutureResult<Val>>(std::move(f).thenTry([=](A t) { in(t); return Val{j}; }));
    else if (o == "x") g->fut[j].x = std::make_unique<FutureResult<>>(std::move(f).thenTry([=](A t) { in(t); }));
    else if (o == "e") g->fut[j].v = std::make_unique<FutureResult<Val>>(std::move(f).thenTry([=](A t) -> Val { in(t); throw Err{j}; }));
    else if (o == "w") g->fut[j].v = std::make_unique<FutureResult<Val>>(std::move(f).thenTry([=](A t) { in(t); return Try<Val>{Val{j}}; }));
    else if (o == "u") g->fut[j].v = std::make_unique<FutureResult<Val>>(std::move(f).thenTry([=](A t) { in(t); Try<Val> r; r.setException(std::make_exception_ptr(Err{j})); return r; }));
    else if (o == "t") { auto n = std::move(f).thenTry([=](A t) { in(t); return t; }); if constexpr (std::is_void_v<T>) g->fut[j].x = std::make_unique<FutureResult<>>(std::move(n)); else g->fut[j].v = std::make_unique<FutureResult<Val>>(std::move(n)); }
    else std::move(f).thenTry([=](A t) { in(t); return FutureResult<Val>{}; });      // "f"
    ev("acc", j);
}
static void ops(std::vector<Op> const& b) {
    for (auto const& o : b) {
        if (o.k == "add") add(o.a);
        else if (o.k == "meet") { std::unique_lock l{g->bm}; g->bcv.wait(l, [&] { return g->begun[o.a]; }); }     // goes on when task a has begun
        else if (o.k == "step") ::sched_yield();
        else if (o.k == "sleep") std::this_thread::sleep_for(std::chrono::milliseconds(o.a));
        else if (o.k == "then") { auto f = std::move(g->fut[o.a]); if (f.v) then<Val>(std::move(*f.v), o.b); else then<void>(std::move(*f.x), o.b); }
        else if (o.k == "get") { auto f = std::move(g->fut[o.a]); try { int v = 0; if (f.v) v = f.v->get().v; else f.x->get(); ev("got", o.a, 0, 0, v); } catch (Err& e) { ev("got", o.a, 0, 1, e.x); } }
        else if (o.k == "wait") { auto& f = g->fut[o.a]; try { if (f.v) f.v->wait(); else f.x->wait(); ev("wtd", o.a, 0, 0, 0); } catch (Err& e) { ev("wtd", o.a, 0, 1, e.x); } }
        else if (o.k == "drop") { auto f = std::move(g->fut[o.a]); }
    }
}
static std::vector<Op> readOps(J const& a) { std::vector<Op> r; for (auto const& x : a) r.push_back({x[0].s, x.size() > 1 ? (int)x[1].i() : 0, x.size() > 2 ? (int)x[2].i() : 0}); return r; }
static J doCase(J const& c) {
    M m; g = &m; auto const& p = c["prog"]; m.t.emplace_back();
    for (auto const& x : p["t"]) m.t.push_back({(int)x["p"].i(), x["o"].s, readOps(x["body"])});
    m.fut.resize(m.t.size()); m.begun.resize(m.t.size()); for (int i = 0; i < (int)m.t.size(); ++i) m.key.push_back(i);
    std::vector<std::vector<Op>> subs; for (auto const& x : p["subs"]) subs.push_back(readOps(x));
    std::vector<int> want; for (auto const& x : p["want"]) want.push_back((int)x.i());
    int lo = (int)p["min"].i(), hi = (int)p["max"].i(); J out = J::obj();
    {
        sched::Session ss((std::uint64_t)c["seed"].i(1), (int)c["stay"].i(50));
        auto done = [&](char const* w) { J o = J::obj(); o.set("stuck", w).set("log", m.log); vf::report(o); ::_exit(0); };
        sched::s->stuck = done; sched::s->drift = (int)c["drift"].i(0); sched::s->maxTime = 3600ll * 1000000000; sched::s->maxSteps = 400000;
        sched::s->threads = [&](int tag, bool born) { if (tag == 1 || tag == 21) ev("thr", m.n += born ? 1 : -1); };
        {
            std::optional<ThreadPool> pool; pool.emplace(); m.pool = &*pool; auto* self = sched::me;
            if (p["dyn"].t()) {
                pool->setMinThreadNum(lo).setMaxThreadNum(hi); self->ctag = 2; std::size_t k = 0;
                if (want.empty()) pool->run<ThreadPool::Model::AsyncCheck>(100ms);
                else pool->run<ThreadPool::Model::AsyncCheck>(100ms, [want, k, lo, hi](ThreadPoolData const& d) mutable -> int { int w = std::clamp(want[std::min(k, want.size() - 1)], lo, hi); ++k; return w - (int)d.nowThreadNum; });
            } else { pool->setFixedThreadNum((unsigned)hi); self->ctag = 1; pool->run<ThreadPool::Model::FixedSizeAndNoCheck>(); }
            self->ctag = 5; std::vector<std::thread> th; for (auto const& s : subs) th.emplace_back([&s] { ops(s); });
            self->ctag = 0;
            for (auto& t : th) t.join();
            if (p["settle"].t()) { std::this_thread::sleep_for(20s); ev("idle", 0); }
            else if (p["pause"].i()) std::this_thread::sleep_for(std::chrono::milliseconds(p["pause"].i()));
            ev("des", 0); pool.reset(); ev("gone", 0); m.pool = nullptr;
        }
        out.set("steps", (long long)sched::s->steps);
    }
    m.fut.clear(); out.set("log", m.log).set("live", Val::live);
    return out;
}
int main() { return vf::serveForked(doCase, 20); }
