// Runs programs of limited and unlimited reads and writes on one event loop against a peer that follows a time line,
// and reports what happened when (milliseconds), one trace per stream.
#include <HXLibs/net/socket/IO.hpp>
#include <sys/resource.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <optional>
#include "feeder.hpp"
#include "forked.hpp"
using namespace HX; using namespace HX::coroutine; using namespace HX::utils::time_nttp_literals;
using vj::J; using vf::now;
namespace {
double T0;
struct Ev { double t; J j; };
struct Stream {
    int r = -1, w = -1; J ops, peer; std::vector<Ev> a, b; double lastEnd = 0;
    long written = 0, consumed = 0, drainedTo = -1; std::vector<long> got; std::string bad; bool shut = false;
};
void ev(std::vector<Ev>& v, char const* e, J k, J lim, J n) { double t = now() - T0; J j = J::obj(); j.set("e", e).set("k", std::move(k)).set("lim", std::move(lim)).set("n", std::move(n)); v.push_back({t, std::move(j)}); }
char pat(long p) { return (char)(p * 7 + 3); }
template <typename T> Task<int> rd(net::HttpIO& io, std::span<char> b, bool& timeout) {
    auto r = co_await io.recvLinkTimeout<T>(b);
    timeout = r.index() == 1;
    co_return timeout ? 0 : r.template get<0>();
}
Task<int> rdAny(net::HttpIO& io, std::span<char> b, long lim, bool& timeout) {
    switch (lim) {
    case 0: co_return co_await io.recv(b);
    case 40: co_return co_await rd<decltype(40_ms)>(io, b, timeout);
    case 80: co_return co_await rd<decltype(80_ms)>(io, b, timeout);
    case 120: co_return co_await rd<decltype(120_ms)>(io, b, timeout);
    case 1000: co_return co_await rd<decltype(1_s)>(io, b, timeout);
    case 1100: co_return co_await rd<decltype(1100_ms)>(io, b, timeout);
    default: std::abort();
    }
}
Task<> wrAny(net::HttpIO& io, std::span<char const> b, long lim) {
    switch (lim) {
    case 0: co_await io.fullySend(b); break;
    case 40: co_await io.sendLinkTimeout<decltype(40_ms)>(b); break;
    case 80: co_await io.sendLinkTimeout<decltype(80_ms)>(b); break;
    case 120: co_await io.sendLinkTimeout<decltype(120_ms)>(b); break;
    case 1000: co_await io.sendLinkTimeout<decltype(1_s)>(b); break;
    case 1100: co_await io.sendLinkTimeout<decltype(1100_ms)>(b); break;
    default: std::abort();
    }
}
Task<> run(EventLoop& loop, Stream& s) {
    net::HttpIO io{s.r, loop};
    int nsend = 0;
    for (auto const& o : s.ops) {
        double at = (double)o["at"].i() / 1000, t = now() - T0;
        if (at > t) co_await loop.makeTimer().sleepFor(std::chrono::microseconds((long)((at - t) * 1e6)));
        long lim = o["lim"].i(), n = o["n"].i(); std::string k = o["k"].str();
        if (k == "recv") {
            std::string b((std::size_t)n, '?'); bool timeout = false; int got = 0;
            ev(s.a, "start", k, lim, n);
            bool exc = false;
            try { got = co_await rdAny(io, b, lim, timeout); } catch (...) { exc = true; }
            ev(s.a, "end", exc ? "err" : timeout ? "timeout" : got > 0 ? "data" : got == 0 ? "eof" : "err", 0, got > 0 ? got : 0);
            for (int i = 0; i < got; ++i) if (b[(std::size_t)i] != pat(s.consumed + i)) s.bad = "wrong byte read";
            if (got > 0) s.consumed += got;
        } else {
            std::string b((std::size_t)n, (char)('A' + nsend++)); bool exc = false;
            ev(s.a, "start", k, lim, n);
            try { co_await wrAny(io, b, lim); } catch (...) { exc = true; }
            ev(s.a, "end", exc ? "exc" : "done", 0, 0);
        }
    }
    s.lastEnd = now() - T0; io.reset();
}
void drain(Stream& s, long max) {
    std::array<char, 65536> b;
    while (max > 0) {
        auto k = ::recv(s.w, b.data(), (std::size_t)std::min<long>(max, (long)b.size()), MSG_DONTWAIT);
        if (k <= 0) return;
        max -= k;
        for (long i = 0; i < k; ++i) {
            int id = b[(std::size_t)i] - 'A';
            if (id < 0 || id >= 26 || id < s.drainedTo) { s.bad = "the peer received a stray byte"; return; }
            s.drainedTo = id; if (s.got.size() <= (std::size_t)id) s.got.resize((std::size_t)id + 1); ++s.got[(std::size_t)id];
        }
    }
}
J one(J const& c) {
    rlimit rl{20000, 20000}; ::setrlimit(RLIMIT_NOFILE, &rl);
    std::vector<Stream> ss(c["streams"].size());
    for (std::size_t i = 0; i < ss.size(); ++i) { int sv[2]; if (::socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) std::abort(); ss[i].r = sv[0]; ss[i].w = sv[1]; ss[i].ops = c["streams"][i]["ops"]; ss[i].peer = c["streams"][i]["peer"]; }
    std::vector<Stream> idle((std::size_t)c["idle"].i()), timed((std::size_t)c["timed"].i());
    auto fill = [&](std::vector<Stream>& v, long lim) { for (auto& s : v) { int sv[2]; if (::socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) std::abort(); s.r = sv[0]; s.w = sv[1]; s.ops.push(J::obj().set("k", "recv").set("lim", lim).set("n", 4).set("at", 0)); } };
    fill(idle, 0); fill(timed, c["timedLim"].i());
    std::atomic<bool> stop = false; double jitter = 0;
    T0 = now();
    std::thread metro([&] { while (!stop) { double t = now(); std::this_thread::sleep_for(std::chrono::milliseconds(2)); jitter = std::max(jitter, now() - t - .002); } });
    struct A { double at; Stream* s; J const* j; };
    std::vector<A> line;
    for (auto& s : ss) for (auto const& p : s.peer) line.push_back({(double)p["at"].i() / 1e6, &s, &p});
    std::stable_sort(line.begin(), line.end(), [](A const& x, A const& y) { return x.at < y.at; });
    double quiet = (double)c["quiet"].i() / 1000;
    std::thread peer([&] {
        for (auto& a : line) {
            double d = a.at - (now() - T0); if (d > 0) std::this_thread::sleep_for(std::chrono::duration<double>(d));
            auto& s = *a.s; std::string k = (*a.j)["a"].str(); long n = (*a.j)["n"].i();
            ev(s.b, "begin", k, 0, k == "write" ? n : 0);
            if (k == "write") { std::string b; for (long i = 0; i < n; ++i) b += pat(s.written++); if (::send(s.w, b.data(), b.size(), MSG_DONTWAIT | MSG_NOSIGNAL) != n) s.bad = "harness: write"; }
            else if (k == "drain") drain(s, 600000);
            else { ::shutdown(s.w, SHUT_RDWR); s.shut = true; }
            ev(s.b, "endact", k, 0, 0);
        }
        double d = quiet - (now() - T0); if (d > 0) std::this_thread::sleep_for(std::chrono::duration<double>(d));
        for (auto& s : idle) { ev(s.b, "begin", "write", 0, 1); char x = pat(s.written++); (void)!::write(s.w, &x, 1); ev(s.b, "endact", "write", 0, 0); }
        for (auto& s : ss) if (!s.shut) { ev(s.b, "begin", "close", 0, 0); ::shutdown(s.w, SHUT_RDWR); ev(s.b, "endact", "close", 0, 0); }
    });
    double end = 0;
    {
        EventLoop loop; std::vector<Task<>> ts;
        if (c["crowdFirst"].t()) { for (auto& s : idle) ts.push_back(run(loop, s)); for (auto& s : timed) ts.push_back(run(loop, s)); }
        for (auto& s : ss) ts.push_back(run(loop, s));
        if (!c["crowdFirst"].t()) { for (auto& s : timed) ts.push_back(run(loop, s)); for (auto& s : idle) ts.push_back(run(loop, s)); }
        for (auto& t : ts) loop.start(t);
        loop.run(); end = now() - T0;
        for (auto& t : ts) if (!static_cast<std::coroutine_handle<>>(t).done()) ss[0].bad = "the loop returned with an unfinished coroutine";
    }
    peer.join(); stop = true; metro.join();
    double last = 0; for (auto* v : {&ss, &idle, &timed}) for (auto& s : *v) last = std::max(last, s.lastEnd);
    long late = 60 + (long)(jitter * 4000);
    J out = J::arr();
    auto emit = [&](Stream& s, std::string name) {
        drain(s, 100000000);
        std::string left; std::array<char, 4096> b; long k;
        while ((k = ::recv(s.r, b.data(), b.size(), MSG_DONTWAIT)) > 0) left.append(b.data(), (std::size_t)k);
        for (std::size_t i = 0; i < left.size(); ++i) if (left[i] != pat(s.consumed + (long)i)) s.bad = "wrong byte left";
        std::vector<Ev> m = s.a; m.insert(m.end(), s.b.begin(), s.b.end());
        std::stable_sort(m.begin(), m.end(), [](Ev const& x, Ev const& y) { return x.t < y.t; });
        double fin = std::max(s.lastEnd + (end - last), m.empty() ? 0. : 0.);
        J evs = J::arr();
        for (auto& e : m) { e.j.set("t", (long long)std::floor(e.t * 1000)); evs.push(e.j); }
        std::size_t ns = 0; for (auto const& o : s.ops) ns += o["k"].str() == "send";
        s.got.resize(std::max(ns, s.got.size())); J got = J::arr(); for (auto g : s.got) got.push(g);
        J f = J::obj(); f.set("e", "fin").set("k", "-").set("lim", 0).set("n", (long long)left.size()).set("t", (long long)std::floor(fin * 1000)); evs.push(f);
        J r = J::obj(); r.set("name", name).set("late", late).set("evs", evs).set("got", got).set("bad", s.bad); out.push(r);
    };
    for (std::size_t i = 0; i < ss.size(); ++i) emit(ss[i], "stream" + std::to_string(i));
    auto few = [&](std::vector<Stream>& v, char const* n) {
        if (v.empty()) return;
        std::vector<std::size_t> ix; auto el = [&](Stream& s) { return s.a.size() == 2 ? s.a[1].t - s.a[0].t : 1e9; };
        std::size_t lo = 0, hi = 0, odd = 0; std::string want = n[0] == 'i' ? "data" : "timeout";
        for (std::size_t i = 0; i < v.size(); ++i) { if (el(v[i]) < el(v[lo])) lo = i; if (el(v[i]) > el(v[hi])) hi = i; if (v[i].a.size() != 2 || v[i].a[1].j["k"].str() != want || !v[i].bad.empty()) odd = i; }
        ix = {lo, hi, odd, v.size() - 1}; std::sort(ix.begin(), ix.end()); ix.erase(std::unique(ix.begin(), ix.end()), ix.end());
        for (auto i : ix) emit(v[i], n + std::to_string(i));
    };
    few(idle, "idle"); few(timed, "timed");
    J r = J::obj(); r.set("traces", out).set("jitter", jitter);
    return r;
}
} // namespace
int main() { return vf::serveForked(one, 30); }
