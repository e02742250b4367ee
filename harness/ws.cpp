// Runs a WebSocket program (receive/send/close) of the real library against a scripted peer on a socket pair.
#include "vj.hpp"
#include "feeder.hpp"
#include <HXLibs/net/router/Router.hpp>
#include <HXLibs/net/server/ConnectionHandler.hpp>
#include <HXLibs/net/protocol/websocket/WebSocket.hpp>
#include <openssl/sha.h>
#include <openssl/evp.h>
using vj::J;
using namespace HX;
using namespace HX::net;
using namespace HX::utils;
namespace {
std::string acceptKey(std::string k) { // independent of the library
    k += "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"; unsigned char d[20], o[64];
    SHA1((unsigned char const*)k.data(), k.size(), d); int n = EVP_EncodeBlock(o, d, 20); return std::string((char*)o, (std::size_t)n);
}
template <WebSocketModel M> coroutine::Task<> program(WebSocket<M, HttpIO>& ws, J const& prog, J& res, bool server) {
    for (auto const& p : prog) {
        std::string o = p["o"].s; J r = J::arr();
        try {
            if (o == "recv" || o == "recvS") {
                auto m = o == "recv" ? co_await ws.template recv<false, decltype(5_s)>(OpCode::Text, OpCode::Binary) : co_await ws.template recv<false, decltype(120_ms)>(OpCode::Text, OpCode::Binary);
                r.push(J("msg")).push(J(m.opCode == OpCode::Text ? "T" : m.opCode == OpCode::Binary ? "B" : "?")).push(J(m.content));
            } else if (o == "recvText") { r.push(J("msg")).push(J("T")).push(J(co_await ws.recvText())); }
            else if (o == "recvBytes") { r.push(J("msg")).push(J("B")).push(J(co_await ws.recvBytes())); }
            else if (o == "send") { co_await ws.sendText(p["s"].s); r.push(J("sent")); }
            else if (o == "sendb") { co_await ws.sendBytes(p["s"].s); r.push(J("sent")); }
            else if (o == "ping") { co_await ws.ping(p["s"].s); r.push(J("sent")); }
            else if (o == "view") {
                if constexpr (M == WebSocketModel::Server) { auto v = makePacketView(p["b"].t() ? OpCode::Binary : OpCode::Text, p["s"].s); for (auto k = p["k"].i(); k > 0; --k) co_await ws.sendPacketView(v); }
                r.push(J("sent"));
            } else if (o == "close") { co_await ws.close(); r.push(J("closed")); }
        } catch (std::exception const& e) { r = J::arr(); r.push(J("exc")); if (getenv("VF_WHAT")) r.push(J(e.what())); res.push(r); co_return; }
        res.push(r);
        if (o == "close") co_return;
    }
}
coroutine::Task<> direct(HttpIO& io, J const& c, J& res, std::atomic<bool>& fin) {
    std::string pre = c["pre"].str(""); std::vector<char> buf(pre.rbegin(), pre.rend());
    bool server = c["role"].s == "server";
    if (server) { WebSocket<WebSocketModel::Server, HttpIO> ws{io, buf}; co_await program(ws, c["prog"], res, true); }
    else { WebSocket<WebSocketModel::Client, HttpIO> ws{io, buf, 12345}; co_await program(ws, c["prog"], res, false); }
    fin = true;
    co_await io.close();
}
coroutine::Task<> client(HttpIO& io, J const& c, J& res, J& hs, std::atomic<bool>& fin) {
    bool up = false;
    try {
        HeaderHashMap h; for (auto const& x : c["headers"]) h[x[0].s] = x[1].s;
        auto ws = co_await WebSocketFactory<HttpIO>::connect<decltype(1_s)>(c["url"].s, io, h);
        up = true; hs = J("up");
        co_await program(ws, c["prog"], res, false);
    } catch (std::exception const& e) { if (!up) hs = J("refused"); }
    fin = true;
    co_await io.close();
}
int frames(std::string const& s, int opcode) { // complete frames of one kind in the output
    std::size_t p = 0; int n = 0;
    while (p + 2 <= s.size()) {
        auto b = (unsigned char)s[p], l = (unsigned char)s[p + 1]; std::size_t len = l & 127; std::size_t h = 2;
        if (len == 126) { if (p + 4 > s.size()) break; len = ((unsigned char)s[p + 2] << 8) | (unsigned char)s[p + 3]; h = 4; }
        else if (len == 127) { if (p + 10 > s.size()) break; len = 0; for (int i = 2; i < 10; ++i) len = len << 8 | (unsigned char)s[p + i]; h = 10; }
        if (l & 128) h += 4;
        if (p + h + len > s.size()) break;
        if ((b & 15) == opcode) ++n; p += h + len;
    }
    return n;
}
template <class To> coroutine::RootTask<> startConn(int fd, std::atomic_bool const& run, Router<HttpIO> const& r, coroutine::EventLoop& l) { return ConnectionHandler<HttpIO>::start<To>(fd, run, r, l); }
J run(coroutine::EventLoop& loop, vf::Worker& w, J const& c) {
    J ret = J::obj(), res = J::arr(), hs; std::atomic<bool> fin{false}, done{false}; std::atomic_bool isRun{true};
    std::string mode = c["mode"].s;
    vf::Pair ps; int fd = ps.r; ps.r = -1;
    int fds = vf::openFds();
    Router<HttpIO> router;
    if (mode == "accept") router.addEndpoint<HttpMethod::GET>("/ws", [&](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& rs) -> coroutine::Task<> {
        struct Fin { std::atomic<bool>& f; ~Fin() { f = true; } } guard{fin};
        bool up = false;
        try { auto ws = co_await WebSocketFactory<HttpIO>{req, rs}.accept(); up = true; hs = J("up"); co_await program(ws, c["prog"], res, true); }
        catch (std::exception const&) { if (!up) hs = J("refused"); throw; }
        if (c["end"].s == "throw") throw std::runtime_error{"end"};
    });
    HttpIO io{fd, loop};
    w.start([&] {
        if (mode == "accept") { startConn<decltype(2_s)>(fd, isRun, router, loop).detach(); loop.run(); }
        else if (mode == "connect") { auto t = client(io, c, res, hs, fin); loop.sync(t); }
        else { auto t = direct(io, c, res, fin); loop.sync(t); }
        done = true;
    });
    std::string out; bool eof = false;
    auto pump = [&](int ms) {
        if (eof) { if (ms) ::usleep(500); return; }
        pollfd pf{ps.w, POLLIN, 0}; if (::poll(&pf, 1, ms) <= 0) return;
        char b[65536]; auto k = ::recv(ps.w, b, sizeof b, MSG_DONTWAIT);
        if (k > 0) out.append(b, (std::size_t)k); else if (k == 0 || (errno != EAGAIN && errno != EINTR)) eof = true;
    };
    bool late = false; std::string head;
    for (auto const& st : c["steps"]) {
        std::string o = st["o"].s; double t0 = vf::now();
        if (o == "send") {
            std::string s = st["s"].s; std::size_t pos = 0, ci = 0;
            if (auto k = s.find("{ACCEPT}"); k != s.npos) { auto q = vf::lower(head).find("\r\nsec-websocket-key: "); std::string key = q == head.npos ? "" : head.substr(q + 21, head.find("\r\n", q + 2) - q - 21); s.replace(k, 8, acceptKey(key)); }
            while (pos < s.size() && !eof) {
                std::size_t end = ci < st["cuts"].size() ? (std::size_t)st["cuts"][ci++].i() : s.size(); if (end > s.size()) end = s.size(); if (end <= pos) continue;
                if (st["w"].t()) { double t1 = vf::now(); while (!eof && !fin && vf::now() - t1 < .03 && !vf::drained(fd)) { pump(0); std::this_thread::yield(); } }
                while (pos < end && !eof) {
                    auto k = ::send(ps.w, s.data() + pos, end - pos, MSG_NOSIGNAL | MSG_DONTWAIT);
                    if (k > 0) pos += (std::size_t)k; else if (k < 0 && (errno == EAGAIN || errno == EINTR)) { pump(1); if (vf::now() - t0 > 3 || fin) break; } else { pump(5); eof = true; break; }
                }
                if (pos < end) break;
            }
        } else if (o == "waitping") { while (frames(out, 9) < (int)st["n"].i() && !eof && !fin && vf::now() - t0 < 3) pump(2); }
        else if (o == "head") { std::size_t k; while ((k = out.find("\r\n\r\n")) == out.npos && !eof && vf::now() - t0 < 3) pump(2); if (k != out.npos) { head = out.substr(0, k + 4); out.erase(0, k + 4); } }
        else if (o == "shut") ::shutdown(ps.w, SHUT_WR);
        else if (o == "fin") { while (!fin && vf::now() - t0 < 4) pump(1); if (!fin) late = true; }
    }
    { double t0 = vf::now(); while (!fin && vf::now() - t0 < 4) pump(1); if (!fin) late = true; }
    { double t0 = vf::now(); if (mode == "accept") { ::shutdown(ps.w, SHUT_WR); } while (!eof && vf::now() - t0 < 3) pump(1); }
    ::close(ps.w); ps.w = -1;
    double t0 = vf::now();
    while (!done && vf::now() - t0 < 6.5) ::usleep(100);
    if (!done) { ret.set("stuck", true).set("res", res); std::string o = "@@" + vj::dump(ret) + "\n"; std::fwrite(o.data(), 1, o.size(), stdout); std::fflush(stdout); std::_Exit(3); }
    w.wait();
    ret.set("res", res).set("out", out).set("head", head).set("hs", hs).set("eof", eof);
    if (late) ret.set("late", true);
    int fe = vf::openFds(); if (fe != fds - 2) ret.set("fdleak", fe - fds + 2);
    return ret;
}
} // namespace
int main() {
    ::signal(SIGPIPE, SIG_IGN);
    coroutine::EventLoop loop; vf::Worker w;
    return vj::serve([&](J const& c) { return run(loop, w, c); });
}
