// The writing side: HttpResponse / HttpRequest setters and senders, file and range transfer, SSE push and SSE parsing.
#include "vj.hpp"
#include "feeder.hpp"
#include <sys/stat.h>
#include <HXLibs/net/router/Router.hpp>
#include <HXLibs/net/server/ConnectionHandler.hpp>
#include <HXLibs/net/protocol/http/Request.hpp>
#include <HXLibs/net/protocol/http/Response.hpp>
using vj::J;
using namespace HX;
using namespace HX::net;
using namespace HX::utils;
namespace {
using Req = HttpRequest<HttpIO>; using Res = HttpResponse<HttpIO>;
using Wait = decltype(3_s);
std::string g_dir;
int g_timeouts = 0;
unsigned crc(std::string_view s) {
    static unsigned tab[256]; static bool init = false;
    if (!init) { for (unsigned i = 0; i < 256; ++i) { unsigned c = i; for (int k = 0; k < 8; ++k) c = c & 1 ? 0xEDB88320u ^ (c >> 1) : c >> 1; tab[i] = c; } init = true; }
    unsigned c = ~0u; for (unsigned char ch : s) c = tab[(c ^ ch) & 255] ^ (c >> 8); return ~c;
}
Status status(long long s) { return static_cast<Status>(s); }
std::string content(long long n) { std::string s; s.resize((std::size_t)n); for (long long i = 0; i < n; ++i) s[(std::size_t)i] = (char)((i * 7 + (i >> 8) * 13 + (i >> 16) * 101) & 255); return s; }
std::string fileFor(J const& f) { // {"n": size} pattern, {"s": bytes}
    std::string p = g_dir + "/f_" + std::to_string(::getpid()) + "_" + (f.has("n") ? std::to_string(f["n"].i()) : "s") + f["ext"].str(".bin");
    if (f.has("s")) vf::spit(p, f["s"].s); else if (struct stat st; ::stat(p.c_str(), &st) || st.st_size != f["n"].i()) vf::spit(p, content(f["n"].i()));
    return p;
}
coroutine::Task<> resPlan(HttpIO& io, J const& c, J& err) {
    Res res{io};
    for (auto const& op : c["prog"]) {
        std::string o = op["o"].s;
        try {
            if (o == "line") { if (op.has("r")) res.setResLine(status(op["s"].i()), op["r"].s); else res.setResLine(status(op["s"].i())); }
            else if (o == "hdr") res.addHeader(op["k"].s, op["v"].s);
            else if (o == "body") { if (op["how"].s == "sc") res.setStatusAndContent(status(op["s"].i()), op["b"].s); else res.setBody(op["b"].s); }
            else if (o == "head") res.setHeadReq(true);
            else if (o == "send") co_await res.sendRes();
            else if (o == "file") { auto p = fileFor(op["f"]); std::string path = p + "garbage"; co_await res.useChunkedEncodingTransferFile(std::string_view{path}.substr(0, p.size())); }
            else if (o == "clear") res.clear();
            else if (o == "range") {
                HeaderHashMap h; if (op.has("range")) h["Range"] = op["range"].s;
                h["host"] = "x";
                std::string m = op["m"].s, p = op.has("path") ? op["path"].s : fileFor(op["f"]);
                co_await res.useRangeTransferFile(RangeRequestView{m, h}, p);
            }
        } catch (std::exception const& e) { err.push(J(o + ": " + e.what())); }
    }
    co_await io.close();
}
coroutine::Task<> reqPlan(HttpIO& io, J const& c, J& err) {
    std::optional<Req> r; r.emplace(io);
    for (auto const& op : c["prog"]) {
        std::string o = op["o"].s; Req& req = *r;
        try {
            if (o == "line") {
                std::string m = op["m"].s, p = op["p"].s;
                if (m == "GET") req.setReqLine<HttpMethod::GET>(p); else if (m == "POST") req.setReqLine<HttpMethod::POST>(p); else if (m == "PUT") req.setReqLine<HttpMethod::PUT>(p);
                else if (m == "DELETE") req.setReqLine<HttpMethod::DEL>(p); else if (m == "PATCH") req.setReqLine<HttpMethod::PATCH>(p); else if (m == "OPTIONS") req.setReqLine<HttpMethod::OPTIONS>(p);
                else throw std::runtime_error("method");
            } else if (o == "hdr") {
                std::string k = op["k"].s, v = op["v"].s, how = op["how"].s;
                if (how == "set") req.addHeaders(k, v);
                else if (how == "sethm") { HeaderHashMap h; h[k] = v; req.addHeaders(std::move(h)); }
                else if (how == "try") req.tryAddHeaders(k, v);
                else if (how == "tryvec") req.addHeaders(std::vector<std::pair<std::string, std::string>>{{k, v}});
                else if (how == "trymap") req.addHeaders(std::unordered_map<std::string, std::string>{{k, v}});
                else if (how == "tryhm") { HeaderHashMap h; h[k] = v; req.addHeaders(std::as_const(h)); }
                else throw std::runtime_error("how");
            } else if (o == "body") req.setBody(op["b"].s);
            else if (o == "send") co_await req.sendHttpReq<Wait>();
            else if (o == "file") co_await req.sendChunkedReq<Wait>(fileFor(op["f"]));
            else if (o == "clear") r.emplace(io);
        } catch (std::exception const& e) { err.push(J(o + ": " + e.what())); }
    }
    co_await io.close();
}
SseEvent event(J const& e) {
    SseEvent v; v.data = e["data"].s; v.event = e["event"].s;
    if (e.has("id")) v.id = e["id"].s;
    if (e.has("retry")) v.retry = std::chrono::milliseconds{e["retry"].i()};
    return v;
}
J event(SseEvent const& e) {
    J o = J::obj(); o.set("data", e.data).set("event", e.event);
    if (e.id) o.set("id", *e.id);
    if (e.retry) o.set("retry", (long long)e.retry->count());
    return o;
}
coroutine::Task<> sseParse(HttpIO& io, J const& c, J& out, J& err) {
    Res res{io};
    try {
        if (!co_await res.parserResHead<Wait>()) throw std::runtime_error("head");
        for (auto s = res.parserSseStrem<Wait>();;) { auto e = co_await s; out.push(event(e)); }
    } catch (std::exception const& e) { err.push(J(e.what())); }
    co_await io.close();
}
template <class To> coroutine::RootTask<> startConn(int fd, std::atomic_bool const& run, Router<HttpIO> const& r, coroutine::EventLoop& l) { return ConnectionHandler<HttpIO>::start<To>(fd, run, r, l); }
struct SseEp {
    J c; J* err;
    coroutine::Task<> operator()(Req&, Res& res) const { return go(c, *err, res); }
    static coroutine::Task<> go(J const& c, J& err, Res& res) {
        auto st = co_await res.makeSseStream();
        for (auto const& e : c["evs"]) {
            if (e["ping"].t()) co_await st.ping();
            else { auto v = event(e["e"]); J before = event(v); co_await st.push(v); if (vj::dump(event(v)) != vj::dump(before)) err.push(J("event changed by push")); }
        }
    }
};
J run(coroutine::EventLoop& loop, vf::Worker& w, J const& c) {
    J ret = J::obj(); std::string mode = c["mode"].s;
    if (g_timeouts > 4) { ret.set("skipped", true); return ret; }
    vf::Pair p; J err = J::arr();
    int fds = vf::openFds();
    if (mode == "sseparse") {
        std::string s = c["s"].s; std::vector<long long> cuts; for (auto const& x : c["cuts"]) cuts.push_back(x.i());
        if (c.has("every")) for (long long i = c["every"].i(); i < (long long)s.size(); i += c["every"].i()) cuts.push_back(i);
        std::atomic<bool> stop{false}; int rfd = p.r; J out = J::arr();
        w.start([&] { if (vf::feed(p.w, rfd, s, cuts, stop)) { while (!vf::drained(rfd) && !stop.load()) std::this_thread::yield(); if (c["waitms"].i()) ::usleep((unsigned)c["waitms"].i() * 1000); if (!stop) ::shutdown(p.w, SHUT_WR); } });
        double t = vf::now();
        { HttpIO io{p.r, loop}; p.r = -1; loop.sync(sseParse(io, c, out, err)); }
        if (vf::now() - t > 2.5) { ret.set("timeout", true); ++g_timeouts; }
        stop = true; w.wait();
        ret.set("out", out).set("err", err);
    } else {
        std::string got; std::atomic<bool> eof{false};
        int wfd = p.w;
        std::atomic<bool> stop{false};
        if (mode == "ssepush") { std::string q = "GET /sse HTTP/1.1\r\nHost: x\r\n\r\n"; (void)!::send(wfd, q.data(), q.size(), MSG_NOSIGNAL); }
        w.start([&] { // reads everything the library writes
            std::vector<char> b(1 << 18); double end = vf::now() + 8;
            while (!stop && vf::now() < end) {
                pollfd pf{wfd, POLLIN, 0}; if (::poll(&pf, 1, 50) <= 0) continue;
                auto k = ::recv(wfd, b.data(), b.size(), MSG_DONTWAIT);
                if (k > 0) got.append(b.data(), (std::size_t)k); else if (k == 0) { eof = true; break; } else if (errno != EAGAIN && errno != EINTR) break;
            }
            if (!eof) ::shutdown(wfd, SHUT_RDWR);
        });
        if (mode == "ssepush") {
            Router<HttpIO> router; SseEp ep{c, &err}; router.addEndpoint<HttpMethod::GET>("/sse", ep);
            std::atomic_bool run{true};
            startConn<decltype(5_s)>(p.r, run, router, loop).detach(); p.r = -1;
            loop.run();
        } else {
            HttpIO io{p.r, loop}; p.r = -1;
            if (mode == "res") loop.sync(resPlan(io, c, err)); else loop.sync(reqPlan(io, c, err));
        }
        w.wait();
        ret.set("eof", eof.load()).set("err", err);
        if (c["sum"].t()) { auto e = got.find("\r\n\r\n"); e = e == std::string::npos ? got.size() : e + 4; ret.set("head", got.substr(0, e)).set("blen", got.size() - e).set("crc", crc(std::string_view{got}.substr(e))); }
        else ret.set("raw", got);
    }
    if (vf::openFds() != fds - 1) ret.set("fdleak", vf::openFds() - fds + 1);
    return ret;
}
} // namespace
int main(int argc, char** argv) {
    ::signal(SIGPIPE, SIG_IGN);
    g_dir = argc > 1 ? argv[1] : "."; g_dir += "/w" + std::to_string(::getpid()); (void)!::system(("mkdir -p " + g_dir).c_str());
    coroutine::EventLoop loop; vf::Worker w;
    return vj::serve([&](J const& c) { return run(loop, w, c); });
}
