// Coroutines of an event loop awaiting tasks of a real thread pool (FutureAwait.tla): one case = one program, the result is the trace.
#include <HXLibs/container/ThreadPool.hpp>
#include <HXLibs/coroutine/awaiter/WhenAny.hpp>
#include <HXLibs/coroutine/loop/EventLoop.hpp>
#include <HXLibs/coroutine/task/RootTask.hpp>
#include <memory>
#include <optional>
#include "feeder.hpp"
#include "forked.hpp"
using vj::J; using namespace HX; using namespace HX::container; using namespace HX::coroutine;
struct Err { int x; };
struct Val { int v = 0; explicit Val(int n) : v(n) { ++live; } Val(Val&& o) noexcept : v(o.v) { o.v = -1; ++live; } Val& operator=(Val&& o) noexcept { v = o.v; o.v = -1; return *this; } ~Val() { --live; } static inline std::atomic<int> live = 0; };
struct Aw { int i; char o; int limit, us, late, pre; };
struct M { std::mutex m; J log = J::arr(); std::thread::id loop; EventLoop* l; ThreadPool* pool; int left = 0; vf::Pair* io = nullptr; };
static M* g;
static void ev(char const* e, int i, int r0 = 0, int r1 = 0) { std::lock_guard _{g->m}; g->log.push(J::obj().set("e", e).set("i", i).set("w", std::this_thread::get_id() == g->loop ? 1 : 0).set("r", J::arr().push(r0).push(r1))); }
static void work(Aw const& a) { ev("beg", a.i); if (a.us) std::this_thread::sleep_for(std::chrono::microseconds(a.us)); ev("fin", a.i); }
static FutureResult<Val> fv(Aw a) { return g->pool->addTask([a, k = Val{a.i}]() -> Val { work(a); if (a.o == 'e') throw Err{a.i}; return Val{k.v}; }); }
static FutureResult<> fx(Aw a) { return g->pool->addTask([a] { work(a); }); }
static Task<int> one(Aw a) {
    if (a.o == 'x') { auto f = fx(a); if (a.late) std::this_thread::sleep_for(std::chrono::microseconds(a.late)); co_await std::move(f).via(*g->l); co_return 0; }
    auto f = fv(a); if (a.late) std::this_thread::sleep_for(std::chrono::microseconds(a.late));
    auto v = co_await std::move(f).via(*g->l); co_return v.v;
}
static RootTask<> co(std::vector<Aw> as, int delay) {
    if (delay) co_await g->l->makeTimer().sleepFor(std::chrono::milliseconds(delay));
    for (auto const& a : as) {
        if (a.pre) co_await g->l->makeTimer().sleepFor(std::chrono::microseconds(a.pre));
        ev("sub", a.i);
        try {
            int v; bool got = true;
            if (a.limit) { auto r = co_await whenAny(one(a), g->l->makeTimer().sleepFor(std::chrono::milliseconds(a.limit))); got = r.index() == 0; v = got ? r.template get<0>() : 0; }
            else v = co_await one(a);
            if (got) ev("res", a.i, 0, v); else ev("abd", a.i);
        } catch (Err& e) { ev("res", a.i, 1, e.x); }
    }
    if (!--g->left && g->io) std::ignore = ::write(g->io->w, "x", 1);
}
static RootTask<> other() { char b = 0; co_await g->l->makeAioTask().prepRecv(g->io->r, std::span<char>{&b, 1}, 0); }
static J doCase(J const& c) {
    M m; g = &m; m.loop = std::this_thread::get_id(); auto const& p = c["prog"];
    {
        ThreadPool pool; m.pool = &pool; pool.setFixedThreadNum((unsigned)c["n"].i()); pool.run<ThreadPool::Model::FixedSizeAndNoCheck>();
        {
            EventLoop loop; m.l = &loop; std::optional<vf::Pair> io; m.left = (int)p["co"].size();
            if (p["io"].t()) { io.emplace(); m.io = &*io; other().detach(); }
            int n = 0; for (auto const& x : p["co"]) { std::vector<Aw> as; for (auto const& a : x) as.push_back({(int)a["i"].i(), a["o"].s[0], (int)a["limit"].i(), (int)a["us"].i(), (int)a["late"].i(), (int)a["pre"].i()}); co(std::move(as), (int)c["delay"][n++].i()).detach(); }
            loop.run();
        }
        ev("loop", 0);
    }
    J out = J::obj(); out.set("log", m.log).set("live", (int)Val::live); return out;
}
int main() { return vf::serveForked(doCase, 5); }
