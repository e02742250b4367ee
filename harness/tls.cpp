// Runs the real HttpsIO of several connections on one event loop against independent TLS peers that follow a script.
#include "vj.hpp"
#include "tlspeer.hpp"
#include <HXLibs/net/socket/IO.hpp>
#include <HXLibs/net/server/ConnectionHandler.hpp>
#include <HXLibs/net/client/HttpClient.hpp>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <signal.h>
#include <memory>
using vj::J;
using namespace HX; using namespace HX::net; using namespace HX::coroutine; using namespace HX::utils;
namespace {
SSL_CTX *g_cli, *g_ser;
std::string data(long seed, std::size_t n) { std::string s(n, 0); unsigned long long x = (unsigned long long)seed * 2654435761u + 12345; for (auto& c : s) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = (char)(x >> 24); } return s; }
std::string junk(long seed, std::size_t n) { auto s = data(seed, n); s[0] = 'x'; s[1] = (char)0xfe; s[2] = (char)0x55; return s; } // cannot be the start of a record
struct Conn { int sv = -1, w = -1; bool server; J prog; std::unique_ptr<vf::TlsPeer> peer; std::mutex m; std::string pend; std::vector<std::string> res; std::atomic<int> n{0}; void put(std::string s) { std::lock_guard l(m); res.push_back(std::move(s)); ++n; } };
using L5 = decltype(5_s); using L1 = decltype(120_ms);
std::string same(std::string const& got, std::string const& want) { if (got == want) return "ok"; std::size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i; return "wrong: " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " bytes, equal up to " + std::to_string(i); }
Task<std::string> take(HttpsIO& io, J const& o) { // receives n bytes the way the program says
    std::size_t n = (std::size_t)o["n"].i(), b = (std::size_t)o["buf"].i(4096); std::string how = o["mode"].s, got;
    if (how == "full") { got.resize(n); co_await io.fullyRecv(got); co_return same(got, data(o["seed"].i(), n)); }
    std::string buf(b, 0);
    while (got.size() < n) {
        std::size_t want = std::min(b, n - got.size()); int k;
        if (how == "lim") { auto r = co_await io.recvLinkTimeout<L5>(std::span<char>{buf.data(), want}); if (r.index() == 1) co_return "timeout"; k = r.template get<0>(); }
        else k = co_await io.recv(std::span<char>{buf.data(), b}, want);
        if (k == 0) co_return "eof after " + std::to_string(got.size()); if (k < 0) co_return "err after " + std::to_string(got.size());
        if ((std::size_t)k > want) co_return "too much";
        got.append(buf.data(), (std::size_t)k);
    }
    co_return same(got, data(o["seed"].i(), n));
}
Task<> give(HttpsIO& io, J const& o) {
    std::string d = data(o["seed"].i() + 1, (std::size_t)o["m"].i());
    if (o["mode"].s == "lim") co_await io.sendLinkTimeout<L5>(d); else co_await io.fullySend(d);
}
RootTask<> serve(Conn& c, EventLoop& loop) {
    HttpsIO io{c.sv, loop}; bool ok = true;
    for (auto const& o : c.prog) {
        std::string k = o["k"].s, how = o["how"].s, r;
        if (!ok) break;
        try {
            if (k == "hs") {
                io.initSslBio(c.server ? SslContext::SslType::Server : SslContext::SslType::Client);
                if (how == "silent") co_await io.initSsl<L1>(c.server); else co_await io.initSsl<L5>(c.server);
                r = "ok";
            } else if (k == "pw") r = co_await take(io, o);
            else if (k == "ew") { co_await give(io, o); r = "ok"; }
            else if (k == "bw") { co_await give(io, o); r = co_await take(io, o); }
            else if (k == "end") {
                std::string b(64, 0); int n = 0;
                if (how != "silent" && o["mode"].s == "full") { co_await io.fullyRecv(b); r = "data"; }
                else if (how == "silent" || o["mode"].s == "lim") {
                    bool to; if (how == "silent") { auto x = co_await io.recvLinkTimeout<L1>(b); to = x.index() == 1; if (!to) n = x.template get<0>(); }
                    else { auto x = co_await io.recvLinkTimeout<L5>(b); to = x.index() == 1; if (!to) n = x.template get<0>(); }
                    r = to ? "timeout" : n > 0 ? "data" : "over";
                } else { n = co_await io.recv(b); r = n > 0 ? "data" : "over"; }
            }
        } catch (std::exception const& e) { r = k == "end" || (k == "hs" && how != "ok") ? "over" : std::string("exception: ") + e.what(); if (k == "hs") ok = false; }
        c.put(r);
    }
    co_await io.close();
    c.put("closed");
}
J run(EventLoop& loop, vf::Worker& w, J const& cs) {
    J ret = J::obj(); int fds = vf::openFds();
    std::vector<std::unique_ptr<Conn>> v;
    for (auto const& x : cs["conns"]) {
        auto c = std::make_unique<Conn>(); int sv[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) std::abort();
        c->sv = sv[0]; c->w = sv[1]; c->server = x["server"].t(); c->prog = J::arr();
        c->peer = std::make_unique<vf::TlsPeer>(c->server ? g_cli : g_ser, !c->server, c->w, sv[0], x["tls12"].t());
        v.push_back(std::move(c));
    }
    for (auto const& s : cs["steps"]) v[(std::size_t)s["c"].i()]->prog.push(s);
    std::atomic<bool> done{false};
    w.start([&] { for (auto& c : v) serve(*c, loop).detach(); loop.run(); done = true; });
    std::vector<int> due(v.size(), 0); J bad = J::arr();
    int idx = 0; std::vector<std::vector<int>> at(v.size());
    for (auto const& s : cs["steps"]) {
        auto ci = (std::size_t)s["c"].i(); auto& c = *v[ci]; auto& p = *c.peer; std::string k = s["k"].s, how = s["how"].s;
        double until = vf::now() + 6; std::vector<std::size_t> cuts; for (auto const& x : s["cuts"]) cuts.push_back((std::size_t)x.i());
        ++due[ci]; bool wait = true; std::string note; auto& got = c.pend; bool closed = false;
        auto io = [&] { p.pull(1); got += p.read(closed); };
        if (k == "hs") {
            if (how == "ok") {
                for (;;) {
                    int r = p.hs(); std::string o;
                    if (r == 1 && s["glue"].t()) { wait = false; break; }
                    o = p.take(); if (!o.empty() && !p.raw(o, cuts, until)) { note = "handshake bytes not taken"; break; }
                    if (r == 1) break; if (r < 0 || p.eof) { note = "peer: handshake failed"; break; } if (vf::now() > until) { note = "peer: handshake stuck"; break; }
                    p.pull(5);
                }
            } else if (how == "garbage") { p.raw(junk(s["seed"].i(), 300), cuts, until); }
            else if (how == "plain") p.raw("GET / HTTP/1.1\r\nHost: a\r\n\r\n", cuts, until);
            else if (how == "cut") { p.hs(); auto o = p.take(); if (!o.empty()) p.raw(o.substr(0, o.size() * (std::size_t)s["part"].i() / 4), cuts, until); ::shutdown(c.w, SHUT_WR); }
        } else if (k == "pw" || k == "bw") {
            if (s["ku"].t() && SSL_version(p.s) == TLS1_3_VERSION) SSL_key_update(p.s, SSL_KEY_UPDATE_REQUESTED);
            std::string d = data(s["seed"].i(), (std::size_t)s["n"].i()); std::size_t rec = (std::size_t)s["rec"].i(0), q = 0;
            if (!rec) p.write(d); else while (q < d.size()) { p.write(std::string_view(d).substr(q, rec)); q += rec; }
            auto o = p.take();
            if (!p.raw(o, cuts, until)) note = "peer: bytes not taken";
        } else if (k == "end") {
            if (how == "notify") { SSL_shutdown(p.s); p.raw(p.take(), cuts, until); }
            else if (how == "notifycut") { SSL_shutdown(p.s); p.raw(p.take(), cuts, until); ::shutdown(c.w, SHUT_WR); }
            else if (how == "cut") ::shutdown(c.w, SHUT_WR);
            else if (how == "cutin") { p.write(data(1, 500)); auto o = p.take(); p.raw(o.substr(0, 1 + (o.size() - 2) * (std::size_t)s["part"].i() / 4), cuts, until); ::shutdown(c.w, SHUT_WR); }
            else if (how == "garbage") p.raw(junk(s["seed"].i(), 100), cuts, until);
            else if (how == "damage") { p.write(data(1, 500)); auto o = p.take(); o[o.size() / 2] ^= 1; p.raw(o, cuts, until); }
            else if (how == "rst") { p.pull(0); ::close(c.w); p.fd = c.w = -1; p.eof = true; }
        }
        if (k == "ew" || k == "bw") {
            std::string want = data(s["seed"].i() + 1, (std::size_t)s["m"].i());
            while (got.size() < want.size() && vf::now() < until && !p.eof && !closed) io();
            std::string r = same(got.substr(0, want.size()), want); got.erase(0, want.size()); if (r != "ok") note = "the peer received " + r;
        }
        if (wait) while (c.n < due[ci] && vf::now() < until) { if (c.w >= 0) { p.pull(0); got += p.read(closed); } std::this_thread::sleep_for(std::chrono::microseconds(100)); }
        if (!note.empty()) { J x = J::obj(); x.set("step", idx).set("what", note); bad.push(x); }
        if (wait && c.n < due[ci]) { J x = J::obj(); x.set("step", idx).set("what", "does not end"); bad.push(x); ret.set("hang", true); break; }
        at[ci].push_back(idx); ++idx;
    }
    for (auto& c : v) if (c->w >= 0) { ::close(c->w); c->w = -1; c->peer->fd = -1; c->peer->eof = true; }
    double t0 = vf::now(); while (!done && vf::now() - t0 < 6) ::usleep(200);
    for (auto& c : v) if (!c->pend.empty() && !ret.has("hang")) { J x = J::obj(); x.set("step", -1).set("what", "the peer received bytes nobody sent"); bad.push(x); }
    J rs = J::arr(); for (auto& c : v) { std::lock_guard l(c->m); J x = J::arr(); for (auto const& r : c->res) x.push(r); rs.push(x); }
    ret.set("res", rs).set("bad", bad);
    if (!done) { ret.set("stuck", true); std::string out = "@@" + vj::dump(ret) + "\n"; std::fwrite(out.data(), 1, out.size(), stdout); std::fflush(stdout); std::_Exit(3); }
    w.wait();
    int fe = vf::openFds(); if (fe != fds) ret.set("fdleak", fe - fds);
    return ret;
}
// ---- the client against a server that follows a script of connections
struct Server {
    J const& script; int ls; unsigned short port; std::atomic<bool> quit{false}; std::thread t; std::vector<std::string> seen;
    explicit Server(J const& s) : script(s) {
        ls = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); int on = 1; ::setsockopt(ls, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
        static std::atomic<int> next{(int)(::getpid() % 700) * 10}; sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        for (int i = 0; i < 2000; ++i) { a.sin_port = htons((unsigned short)(20000 + (next++) % 8000)); if (::bind(ls, (sockaddr*)&a, sizeof a) == 0) break; }
        ::listen(ls, 64); port = ntohs(a.sin_port); t = std::thread([this] { loop(); });
    }
    ~Server() { quit = true; t.join(); ::close(ls); }
    void loop() {
        for (std::size_t i = 0; !quit; ++i) {
            pollfd p{ls, POLLIN, 0}; while (!quit && ::poll(&p, 1, 5) <= 0) ; if (quit) return;
            int fd = ::accept4(ls, nullptr, nullptr, SOCK_CLOEXEC); if (fd < 0) continue;
            std::string how = i < script.size() ? script[i]["how"].s : "cut"; long n = i < script.size() ? (long)script[i]["a"].i() : 100000;
            serve(fd, how, n, i); 
        }
    }
    void serve(int fd, std::string const& how, long n, std::size_t i) {
        vf::TlsPeer p{g_ser, true, fd, -1, i % 3 == 1}; double until = vf::now() + 5; auto live = [&] { return !quit && !p.eof && vf::now() < until; };
        if (how == "gone") { ::close(fd); return; }
        if (how == "garbage" || how == "plain") { while (live()) { p.pull(2); if (BIO_pending(p.in)) break; } p.raw(how == "plain" ? std::string("HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n") : junk(7, 90), {}, until); while (live()) p.pull(2); ::close(fd); return; }
        for (;;) {
            int r = p.hs(); auto o = p.take();
            if (how == "half" && !o.empty()) { p.raw(o.substr(0, o.size() / 2), {}, until); ::shutdown(fd, SHUT_WR); while (live()) p.pull(2); ::close(fd); return; }
            p.raw(o, {}, until); if (r == 1) break; if (r < 0 || !live()) { ::close(fd); return; } p.pull(2);
        }
        std::string in; bool closed = false;
        for (; n > 0; --n) {
            std::size_t e;
            while ((e = in.find("\r\n\r\n")) == std::string::npos && !closed && !quit && !p.eof) { p.pull(2); in += p.read(closed); }
            if (e == std::string::npos) break;
            auto low = vf::lower(in.substr(0, e)); std::size_t len = 0; if (auto c = low.find("content-length:"); c != std::string::npos) len = std::strtoul(low.c_str() + c + 15, nullptr, 10);
            while (in.size() < e + 4 + len && !closed && !quit && !p.eof) { p.pull(2); in += p.read(closed); }
            if (in.size() < e + 4 + len) break;
            std::string path = in.substr(in.find(' ') + 1); path = path.substr(0, path.find(' '));
            std::string body = in.substr(e + 4, len); in.erase(0, e + 4 + len); long size = std::strtol(path.c_str() + path.find("s=") + 2, nullptr, 10), id = std::strtol(path.c_str() + path.find("i=") + 2, nullptr, 10);
            std::string ans = path + ":" + std::to_string(vf::fnv(body)) + ":" + data(id, (std::size_t)size);
            p.write("HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(ans.size()) + "\r\n\r\n" + ans);
            until = vf::now() + 5; auto o = p.take(); std::size_t q = 0; // the client may be gone
            if (!p.raw(o, {}, until)) break; (void)q;
        }
        if (how == "notify") { SSL_shutdown(p.s); p.raw(p.take(), {}, vf::now() + 1); }
        if (how == "rst") { linger l{1, 0}; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } else { p.pull(0); }
        ::close(fd);
    }
};
J client(J const& c) {
    J r = J::obj(), out = J::arr(); int fds = vf::openFds();
    {
        Server s{c["script"]}; long k = 0;
        HttpsClient<NoneProxy> cli{};
        for (auto const& x : c["calls"]) {
            ++k; std::string path = "/q?i=" + std::to_string(k) + "&s=" + std::to_string(x["n"].i()), url = "https://127.0.0.1:" + std::to_string(s.port) + path, body = data(k + 77, (std::size_t)x["m"].i());
            auto a = x["m"].i() ? cli.post(url, body, HttpContentType::OctetStream).get() : cli.get(url).get();
            std::string want = path + ":" + std::to_string(vf::fnv(body)) + ":" + data(k, (std::size_t)x["n"].i());
            if (!a) { std::string w; try { a.rethrow(); } catch (std::exception const& e) { w = e.what(); } catch (...) {} out.push("err " + w); }
            else { auto& v = a.get(); out.push(v.status == 200 && v.body == want ? std::string("ok") : "wrong answer: " + std::to_string(v.status) + " " + v.body.substr(0, 30) + " " + same(v.body, want)); }
            if (x["ms"].i()) ::usleep((useconds_t)x["ms"].i() * 1000);
        }
    }
    int fe = vf::openFds(); if (fe != fds) r.set("fdleak", fe - fds);
    return r.set("calls", out);
}
} // namespace
int main() {
    ::signal(SIGPIPE, SIG_IGN);
    char d[] = "/tmp/vftlsXXXXXX"; std::string dir = ::mkdtemp(d); vf::makeCert(dir);
    SslContext::get().init<SslContext::SslType::Server>({SslVerifyOption::None, dir + "/c.pem", dir + "/k.pem"});
    SslContext::get().init<SslContext::SslType::Client>({SslVerifyOption::None});
    g_cli = vf::peerCtx(false, dir); g_ser = vf::peerCtx(true, dir);
    ::unlink((dir + "/c.pem").c_str()); ::unlink((dir + "/k.pem").c_str()); ::rmdir(dir.c_str());
    EventLoop loop; vf::Worker w;
    return vj::serve([&](J const& c) { return c.has("script") ? client(c) : run(loop, w, c); });
}
