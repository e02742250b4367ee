// Runs the real ConnectionHandler + Router on socket pairs; a driver plays client scripts on several connections.
#include "vj.hpp"
#include "feeder.hpp"
#ifdef VF_TLS // the same sessions through a TLS relay
#include "tlsrelay.hpp"
#endif
#include <HXLibs/net/router/Router.hpp>
#include <HXLibs/net/server/ConnectionHandler.hpp>
using vj::J;
using namespace HX;
using namespace HX::net;
using namespace HX::utils;
namespace {
#ifdef VF_TLS
using VIO = HttpsIO;
#else
using VIO = HttpIO;
#endif
using Req = HttpRequest<VIO>; using Res = HttpResponse<VIO>;
std::mutex g_m; J g_ev;
void ev(std::string s) { std::lock_guard l(g_m); g_ev.push(J(std::move(s))); }
std::string idOf(Req& req) { auto it = req.getHeaders().find("x-id"); return it == req.getHeaders().end() ? "?" : it->second; }
template <class M> J map(M const& m) { J o = J::obj(); for (auto& [k, v] : m) o.set(k, v); return o; }
template <class M> J hmap(M const& m) { J o = J::obj(); for (auto& [k, v] : m) o.set(vf::lower(k), v); return o; }
struct Tag {}; // thrown value that is not a std::exception
enum class Colour { Red = 0, Green = 5, Blue };
enum class E3 : unsigned { No = 0, Yes = 3 };
// interceptor kinds: 0 sync both, 1 async both, 2 sync before only, 3 async after only, 4 enum-returning both, 5 async before / sync after
template <int K> struct Ic {
    std::string n; bool b, a;
    bool before(Req& q, Res&) requires(K == 0 || K == 2) { ev(n + "b" + idOf(q)); return b; }
    coroutine::Task<bool> before(Req& q, Res&) requires(K == 1 || K == 5) { ev(n + "b" + idOf(q)); co_return b; }
    E3 before(Req& q, Res&) requires(K == 4) { ev(n + "b" + idOf(q)); return b ? E3::Yes : E3::No; }
    bool after(Req& q, Res&) requires(K == 0 || K == 5) { ev(n + "a" + idOf(q)); return a; }
    coroutine::Task<bool> after(Req& q, Res&) requires(K == 1 || K == 3) { ev(n + "a" + idOf(q)); co_return a; }
    E3 after(Req& q, Res&) requires(K == 4) { ev(n + "a" + idOf(q)); return a ? E3::Yes : E3::No; }
};
struct Ep {
    J r;
    coroutine::Task<> operator()(Req& req, Res& res) const { return go(r, req, res); }
    static coroutine::Task<> go(J const& r, Req& req, Res& res) {
        std::string act = r["act"].s, id = r["id"].s;
        ev("E" + id + ":" + idOf(req));
        J o = J::obj();
        o.set("id", id).set("m", req.getReqType()).set("path", req.getReqPath()).set("pure", req.getPureReqPath()).set("ver", req.getProtocolVersion());
        o.set("h", hmap(req.getHeaders())).set("q", map(req.getParseQueryParameters()));
        J pp = J::arr();
        for (std::size_t i = 0; i < 8; ++i) { try { pp.push(J(req.getPathParam(i).template to<std::string>())); } catch (std::exception const&) { break; } }
        o.set("pp", pp);
        try { o.set("w", std::string{req.getUniversalWildcardPath()}); } catch (std::exception const&) { o.set("w", J()); }
        if (r["ty"].k == J::Arr) { // typed conversions of parameter i
            J t = J::arr();
            for (std::size_t i = 0; i < r["ty"].size(); ++i) {
                std::string k = r["ty"][i].s;
                try {
                    if (k == "i32") t.push(J(std::to_string(req.getPathParam(i).template to<int32_t>())));
                    else if (k == "u64") t.push(J(std::to_string(req.getPathParam(i).template to<unsigned long long>())));
                    else if (k == "i64") t.push(J(std::to_string(req.getPathParam(i).template to<long long>())));
                    else if (k == "dbl") { char b[64]; std::snprintf(b, sizeof b, "%a", req.getPathParam(i).template to<double>()); t.push(J(b)); }
                    else if (k == "i16") t.push(J(std::to_string(req.getPathParam(i).template to<int16_t>())));
                    else if (k == "u16") t.push(J(std::to_string(req.getPathParam(i).template to<uint16_t>())));
                    else if (k == "u32") t.push(J(std::to_string(req.getPathParam(i).template to<uint32_t>())));
                    else if (k == "bool") t.push(J(std::to_string((int)req.getPathParam(i).template to<bool>())));
                    else if (k == "enum") t.push(J(std::to_string((int)req.getPathParam(i).template to<Colour>())));
                    else if (k == "flt") { char b[64]; std::snprintf(b, sizeof b, "%a", (double)req.getPathParam(i).template to<float>()); t.push(J(b)); }
                    else t.push(J());
                } catch (std::exception const&) { t.push(J("!")); }
            }
            o.set("ty", t);
        }
        if (act == "read" || act == "readclose" || act == "readx") o.set("b", co_await req.template parseBody<decltype(400_ms)>());
        if (act == "throw") throw std::runtime_error{"handler"};
        if (act == "file" || act == "range" || act == "norange") { co_await res.useRangeTransferFile(req.getRangeRequestView(), r["f"].s); co_return; }
        if (act == "chunk" || act == "cut") { co_await res.useChunkedEncodingTransferFile(r["f"].s); co_return; }
        if (act == "sse") {
            auto s = co_await res.makeSseStream(); SseEvent e; e.data = vj::dump(o);
            co_await s.push(e); co_return;
        }
        if (act == "throw2") throw Tag{};
        if (act == "x" || act == "readx") { res.setResLine(Status::CODE_201); res.addHeader("X-Set", id); } else res.setResLine(Status::CODE_200);
        if (act == "close" || act == "readclose") req.addHeaders("Connection", "close");
        co_await res.setContentType(JSON).setBody(vj::dump(o)).sendRes();
        if (act == "late") throw std::runtime_error{"after"};
    }
};
Router<VIO>* g_router;
#ifdef VF_TLS
SSL_CTX* g_peer;
#endif
template <HttpMethod M> void add(J const& r) {
    Ep e{r}; std::string p = r["p"].s;
    auto& is = r["ic"]; std::string sig; for (auto const& i : is) sig += std::to_string(i["k"].i());
    auto I = [&](int i, auto k) { return Ic<decltype(k)::value>{is[i]["n"].s, is[i]["b"].t(), is[i]["a"].t()}; };
    auto k0 = std::integral_constant<int, 0>{}; auto k1 = std::integral_constant<int, 1>{}; auto k2 = std::integral_constant<int, 2>{};
    auto k3 = std::integral_constant<int, 3>{}; auto k4 = std::integral_constant<int, 4>{}; auto k5 = std::integral_constant<int, 5>{};
    if (r["err"].t()) {
        if (sig == "") g_router->setErrorEndpointFunc(e);
        else if (sig == "0") g_router->setErrorEndpointFunc(e, I(0, k0));
        else if (sig == "01") g_router->setErrorEndpointFunc(e, I(0, k0), I(1, k1));
        else throw std::runtime_error("sig " + sig);
        return;
    }
    if (sig == "") g_router->template addEndpoint<M>(p, e);
    else if constexpr (M == HttpMethod::GET) {
        if (sig == "0") g_router->template addEndpoint<M>(p, e, I(0, k0));
        else if (sig == "1") g_router->template addEndpoint<M>(p, e, I(0, k1));
        else if (sig == "2") g_router->template addEndpoint<M>(p, e, I(0, k2));
        else if (sig == "3") g_router->template addEndpoint<M>(p, e, I(0, k3));
        else if (sig == "4") g_router->template addEndpoint<M>(p, e, I(0, k4));
        else if (sig == "5") g_router->template addEndpoint<M>(p, e, I(0, k5));
        else if (sig == "00") g_router->template addEndpoint<M>(p, e, I(0, k0), I(1, k0));
        else if (sig == "01") g_router->template addEndpoint<M>(p, e, I(0, k0), I(1, k1));
        else if (sig == "10") g_router->template addEndpoint<M>(p, e, I(0, k1), I(1, k0));
        else if (sig == "23") g_router->template addEndpoint<M>(p, e, I(0, k2), I(1, k3));
        else if (sig == "32") g_router->template addEndpoint<M>(p, e, I(0, k3), I(1, k2));
        else if (sig == "45") g_router->template addEndpoint<M>(p, e, I(0, k4), I(1, k5));
        else if (sig == "000") g_router->template addEndpoint<M>(p, e, I(0, k0), I(1, k0), I(2, k0));
        else if (sig == "012") g_router->template addEndpoint<M>(p, e, I(0, k0), I(1, k1), I(2, k2));
        else if (sig == "143") g_router->template addEndpoint<M>(p, e, I(0, k1), I(1, k4), I(2, k3));
        else if (sig == "501") g_router->template addEndpoint<M>(p, e, I(0, k5), I(1, k0), I(2, k1));
        else throw std::runtime_error("sig " + sig);
    } else throw std::runtime_error("interceptors only on GET");
}
void addRoute(J const& r) {
    for (auto const& m : r["ms"]) {
        if (m.s == "GET") add<HttpMethod::GET>(r); else if (m.s == "POST") add<HttpMethod::POST>(r);
        else if (m.s == "PUT") add<HttpMethod::PUT>(r); else if (m.s == "DELETE") add<HttpMethod::DEL>(r);
        else if (m.s == "HEAD") add<HttpMethod::HEAD>(r); else throw std::runtime_error("method");
    }
}
// number of complete HTTP messages in s (content-length and chunked framing); heads: positions of the answers to HEAD requests, which have no body
std::size_t complete(std::string const& s, std::vector<std::size_t> const& heads = {}) {
    std::size_t n = 0, p = 0;
    for (;;) {
        auto e = s.find("\r\n\r\n", p); if (e == std::string::npos) return n;
        std::string h = vf::lower(s.substr(p, e - p)); p = e + 4;
        auto c = h.find("\r\ncontent-length:");
        if (std::find(heads.begin(), heads.end(), n) != heads.end()) ;
        else if (h.find("text/event-stream") != std::string::npos) { if (s.find("\n\n", p) == std::string::npos) return n; return n + 1; }
        else if (c != std::string::npos) { std::size_t L = std::strtoull(h.c_str() + c + 17, nullptr, 10); if (s.size() < p + L) return n; p += L; }
        else if (h.find("\r\ntransfer-encoding:") != std::string::npos) { auto z = s.find("\r\n0\r\n\r\n", p - 2); if (z == std::string::npos) return n; p = z + 7; }
        ++n;
    }
}
template <class To> coroutine::RootTask<> startConn(int fd, std::atomic_bool const& run, Router<VIO> const& r, coroutine::EventLoop& l) { return ConnectionHandler<VIO>::start<To>(fd, run, r, l); }
int g_timeouts = 0;
J run(coroutine::EventLoop& loop, vf::Worker& w, J const& c) {
    J ret = J::obj();
    if (g_timeouts > 6) { ret.set("skipped", true); return ret; }
    Router<VIO> router; g_router = &router; g_ev = J::arr();
    for (auto const& r : c["routes"]) addRoute(r);
    int n = (int)c["conns"].i(1);
    std::vector<vf::Pair> ps(n);
    std::vector<int> server(n);
    std::atomic_bool isRun{true};
    std::atomic<bool> done{false};
    std::string T = c["to"].str("5s");
    int fds = vf::openFds();
    for (int i = 0; i < n; ++i) { server[i] = ps[i].r; ps[i].r = -1; int one = 1; (void)one; }
#ifdef VF_TLS
    auto relay = std::make_unique<vf::TlsRelay>(g_peer);
    for (int i = 0; i < n; ++i) { int sv[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) std::abort(); relay->add(server[i], sv[0]); server[i] = sv[1]; }
    relay->start();
#endif
    w.start([&] {
        for (int i = 0; i < n; ++i) {
            if (T == "150ms") startConn<decltype(150_ms)>(server[i], isRun, router, loop).detach();
            else startConn<decltype(5_s)>(server[i], isRun, router, loop).detach();
        }
        loop.run(); done = true;
    });
    std::vector<std::string> got(n); std::vector<bool> eof(n, false);
    auto pump = [&](int i, int ms) { // reads what is available on connection i
        if (eof[i] || ps[i].w < 0) { if (ms) ::usleep(1000); return; }
        pollfd pf{ps[i].w, POLLIN, 0};
        if (::poll(&pf, 1, ms) <= 0) return;
        char b[65536]; auto k = ::recv(ps[i].w, b, sizeof b, MSG_DONTWAIT);
        if (k > 0) got[i].append(b, (std::size_t)k); else if (k == 0 || (errno != EAGAIN && errno != EINTR)) eof[i] = true;
    };
    J log = J::arr(); bool late = false;
    for (auto const& st : c["steps"]) {
        std::string o = st["o"].s; int i = (int)st["c"].i();
        double t0 = vf::now();
        if (o == "send") {
            std::string const& s = st["s"].s; std::size_t pos = 0, ci = 0;
            while (pos < s.size() && !eof[i] && ps[i].w >= 0) {
                std::size_t end = ci < st["cuts"].size() ? (std::size_t)st["cuts"][ci++].i() : s.size(); if (end > s.size()) end = s.size(); if (end <= pos) continue;
                if (st["w"].t()) while (!eof[i] && vf::now() - t0 < 3 && !vf::drained(server[i])) { pump(i, 0); std::this_thread::yield(); }
                while (pos < end && !eof[i]) {
                    auto k = ::send(ps[i].w, s.data() + pos, end - pos, MSG_NOSIGNAL | MSG_DONTWAIT);
                    if (k > 0) pos += (std::size_t)k; else if (k < 0 && (errno == EAGAIN || errno == EINTR)) { pump(i, 1); if (vf::now() - t0 > 3) break; } else { pump(i, 0); if (!eof[i]) { pump(i, 5); } break; }
                }
                if (pos < end) break;
            }
        } else if (o == "await") { auto k = (std::size_t)st["n"].i(); std::vector<std::size_t> hd; for (auto const& x : st["hd"]) hd.push_back((std::size_t)x.i()); while (complete(got[i], hd) < k && !eof[i] && vf::now() - t0 < 3) pump(i, 5); if (complete(got[i], hd) < k) { late = late || !eof[i]; log.push(J("await" + std::to_string(i))); } }
        else if (o == "closed") { while (!eof[i] && vf::now() - t0 < 3) pump(i, 5); if (!eof[i]) { late = true; log.push(J("closed" + std::to_string(i))); } J x = J::obj(); x.set("ms", (vf::now() - t0) * 1000); log.push(x); }
        else if (o == "open") { double d = (double)st["ms"].i(3) / 1000; while (vf::now() - t0 < d) pump(i, 1); if (eof[i]) log.push(J("notopen" + std::to_string(i))); }
        else if (o == "shut") { if (ps[i].w >= 0) ::shutdown(ps[i].w, SHUT_WR); }
        else if (o == "rst") { if (ps[i].w >= 0) { pump(i, 0); ::close(ps[i].w); ps[i].w = -1; } }
        else if (o == "sleep") ::usleep((useconds_t)st["ms"].i() * 1000);
        else if (o == "stop") isRun = false;
    }
    J cs = J::arr();
    for (int i = 0; i < n; ++i) { if (!eof[i]) pump(i, 0); J x = J::obj(); x.set("got", got[i]); x.set("eof", (bool)eof[i]); cs.push(x); }
    for (int i = 0; i < n; ++i) if (ps[i].w >= 0) { ::close(ps[i].w); ps[i].w = -1; }
    double t0 = vf::now();
    while (!done && vf::now() - t0 < 6.5) ::usleep(200);
    if (!done) { ret.set("stuck", true); std::string out = "@@" + vj::dump(ret) + "\n"; std::fwrite(out.data(), 1, out.size(), stdout); std::fflush(stdout); std::_Exit(3); }
    w.wait();
#ifdef VF_TLS
    relay.reset();
#endif
    ret.set("c", cs); ret.set("log", log); ret.set("ev", g_ev);
    int fe = vf::openFds(); if (fe != fds - 2 * n) ret.set("fdleak", fe - fds + 2 * n);
    if (late) { ret.set("late", true); ++g_timeouts; }
    return ret;
}
} // namespace
int main() {
    ::signal(SIGPIPE, SIG_IGN);
#ifdef VF_TLS
    { char d[] = "/tmp/vftlsXXXXXX"; std::string dir = ::mkdtemp(d); vf::makeCert(dir);
      SslContext::get().init<SslContext::SslType::Server>({SslVerifyOption::None, dir + "/c.pem", dir + "/k.pem"});
      g_peer = vf::peerCtx(false, dir); ::unlink((dir + "/c.pem").c_str()); ::unlink((dir + "/k.pem").c_str()); ::rmdir(dir.c_str()); }
#endif
    coroutine::EventLoop loop; vf::Worker w;
    return vj::serve([&](J const& c) { return run(loop, w, c); });
}
