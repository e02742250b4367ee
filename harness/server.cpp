// Drives a real HttpServer: start, connections, requests, stop at any moment, and reports every observation of the driver.
#include <HXLibs/net/ApiMacro.hpp>
#include <HXLibs/net/Api.hpp>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/resource.h>
#include <fstream>
#include <future>
#include <optional>
#include <sstream>
#include "feeder.hpp"
#include "forked.hpp"
using namespace HX; using namespace HX::net; using namespace HX::utils::time_nttp_literals; using vj::J;
namespace {
std::atomic<int> g_begun[16]; std::uint16_t port;
std::string addrOf() { return "127.0.0.1"; }
std::uint16_t freePort() {
    for (int k = 0;; ++k) {
        std::uint16_t p = (std::uint16_t)(10000 + ((unsigned)::getpid() * 13 + (unsigned)k * 101) % 20000);
        int s = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(p);
        int on = 1; ::setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); bool ok = ::bind(s, (sockaddr*)&a, sizeof a) == 0; ::close(s); if (ok && p != 28205) return p;
    }
}
std::vector<int> spare;
void limit(int n) { static rlimit old = [] { rlimit r; ::getrlimit(RLIMIT_NOFILE, &r); return r; }(); rlimit r = old; if (n) r.rlim_cur = (rlim_t)n; ::setrlimit(RLIMIT_NOFILE, &r); }
int dial() {
    int s; if (spare.empty()) s = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); else { s = spare.back(); spare.pop_back(); } sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); ::inet_pton(AF_INET, "127.0.0.1", &a.sin_addr);
    timeval tv{4, 0}; ::setsockopt(s, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
    if (::connect(s, (sockaddr*)&a, sizeof a)) { ::close(s); return -1; }
    return s;
}
int listeners() {
    std::ifstream f("/proc/net/tcp"); std::string l; std::getline(f, l); int n = 0; char want[8]; snprintf(want, sizeof want, ":%04X", port);
    while (std::getline(f, l)) { std::istringstream is(l); std::string sl, local, rem, st; is >> sl >> local >> rem >> st; if (st == "0A" && local.size() > 5 && local.substr(local.size() - 5) == want) ++n; }
    return n;
}
void routes(HttpServer& s) {
    s.addEndpoint<HttpMethod::GET>("/fast", [](HttpRequest<HttpIO>&, HttpResponse<HttpIO>& res) -> coroutine::Task<> { co_await res.setStatusAndContent(Status::CODE_200, "fast-answer").sendRes(); });
    s.addEndpoint<HttpMethod::GET>("/slow/{c}", [](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& res) -> coroutine::Task<> {
        ++g_begun[std::stoi(std::string{req.getPathParam(0)})];
        coroutine::EventLoop& l = req.getIO(); co_await l.makeTimer().sleepFor(std::chrono::milliseconds(150));
        co_await res.setStatusAndContent(Status::CODE_200, "slow-answer").sendRes();
    });
    s.addEndpoint<HttpMethod::GET>("/stream", [](HttpRequest<HttpIO>& req, HttpResponse<HttpIO>& res) -> coroutine::Task<> {
        auto st = co_await res.makeSseStream(); SseEvent e; e.data = "first"; co_await st.push(e);
        coroutine::EventLoop& l = req.getIO(); co_await l.makeTimer().sleepFor(std::chrono::milliseconds(150));
        SseEvent f; f.data = "second"; co_await st.push(f);
    });
}
struct Conn { int fd = -1; std::string in; std::string kind; bool eof = false; bool made = false; std::string k, seen; /* what the driver awaits and has seen */ };
// reads until the predicate holds; "" | "closed" | "late"
template <class P> std::string pull(Conn& c, P done, int ms = 4000) {
    double end = vf::now() + ms / 1000.;
    while (!done(c.in)) {
        if (c.eof || c.fd < 0) return "closed";
        pollfd q{c.fd, POLLIN, 0}; int left = (int)((end - vf::now()) * 1000); if (left <= 0 || ::poll(&q, 1, left) == 0) return "late";
        char b[4096]; auto n = ::recv(c.fd, b, sizeof b, 0); if (n <= 0) { c.eof = true; continue; } c.in.append(b, (std::size_t)n);
    }
    return "";
}
bool complete(std::string const& s, std::string const& kind, bool eof) {
    auto h = s.find("\r\n\r\n"); if (h == std::string::npos) return false;
    if (kind == "stream") { bool chunked = vf::lower(s.substr(0, h)).find("chunked") != std::string::npos; return s.find("second") != std::string::npos && (chunked ? s.size() >= 5 && s.substr(s.size() - 5) == "0\r\n\r\n" : eof); }
    return s.size() >= 4 && s.find(kind + "-answer", h) != std::string::npos;
}
J one(J const& c) {
    ::signal(SIGPIPE, SIG_IGN); ::dup2(1, 2);
    port = freePort();
    bool ready = false, starved = false;
    int base = vf::openFds(); J evs = J::arr(); std::size_t W = (std::size_t)c["workers"].i();
    std::optional<HttpServer> srv; srv.emplace(port); routes(*srv);
    std::map<long, Conn> cs; std::thread stopper; std::atomic<bool> stopped = false; std::string how;
    auto see = [&](J const& o, std::string r) { J e = J::obj(); e.set("o", o["o"].s).set("c", o["c"].i()).set("k", o["k"].s).set("r", r); evs.push(e); return r; };
    auto finish = [&](std::string why) { J r = J::obj(); r.set("evs", evs); if (!why.empty()) r.set("stuck", why); vf::report(r); ::_exit(0); };
    auto waitJoin = [&](double s) { double end = vf::now() + s; while (!stopped && vf::now() < end) std::this_thread::sleep_for(std::chrono::milliseconds(1)); return stopped.load(); };
    for (auto const& o : c["ops"]) {
        std::string op = o["o"].s; auto& k = cs[o["c"].i()];
        if (o.has("us")) std::this_thread::sleep_for(std::chrono::microseconds(o["us"].i()));
        // a program made for another schedule: what does not apply is left out
        bool kinds = k.k == "fast" || k.k == "slow" || k.k == "stream", open = k.fd >= 0 && !k.eof;
        if (op == "stop" && !how.empty()) continue;
        if (op == "conn" && k.made) continue;
        if ((op == "req" || op == "part") && (!k.made || !k.k.empty() || k.seen == "part")) continue;
        if (op == "begun" && (!(k.k == "slow" || k.k == "stream") || !k.seen.empty())) continue;
        if (op == "read" && (!k.made || (!kinds && open && how.empty()))) continue;
        if ((op == "starve" && (!ready || starved || !how.empty())) || (op == "feed" && !starved)) continue;
        if (op == "starve" || op == "feed") { starved = op == "starve"; if (starved) while (spare.size() < 3) spare.push_back(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0)); limit(starved ? 3 : 0); see(o, "ok"); continue; }
        if (op == "start") { srv->asyncRun(W, [] {}, decltype(700_ms){}); see(o, "ok"); }
        else if (op == "ready") { double end = vf::now() + 5; while (listeners() != (int)W && vf::now() < end) std::this_thread::sleep_for(std::chrono::milliseconds(1)); ready = listeners() == (int)W; see(o, ready ? "ok" : "late"); }
        else if (op == "conn") { k.made = true; k.fd = dial(); see(o, k.fd >= 0 ? "ok" : "refused"); }
        else if (op == "req") {
            k.kind = k.k = o["k"].s; k.seen.clear(); k.in.clear(); g_begun[o["c"].i()] = 0;
            std::string q = "GET /" + k.kind + (k.kind == "slow" ? "/" + std::to_string(o["c"].i()) : "") + " HTTP/1.1\r\nHost: x\r\n\r\n";
            if (k.fd >= 0) (void)!::send(k.fd, q.data(), q.size(), MSG_NOSIGNAL); see(o, "ok");
        } else if (op == "part") { k.k = "part"; if (k.fd >= 0) (void)!::send(k.fd, "GET /fast HT", 12, MSG_NOSIGNAL); see(o, "ok"); }
        else if (op == "begun") {
            std::string r;
            if (k.kind == "stream") r = pull(k, [](std::string const& s) { return s.find("first") != std::string::npos; });
            else { double end = vf::now() + 4; auto gone = [&] { if (k.fd < 0 || k.eof) return true; char b; auto n = ::recv(k.fd, &b, 1, MSG_PEEK | MSG_DONTWAIT); return n == 0 || (n < 0 && errno != EAGAIN); };
                   while (!g_begun[o["c"].i()] && !gone() && vf::now() < end) std::this_thread::sleep_for(std::chrono::microseconds(200)); r = g_begun[o["c"].i()] ? "" : gone() ? "closed" : "late"; }
            see(o, r.empty() ? "ok" : r); k.seen = r.empty() ? "part" : "end"; if (!r.empty()) k.k.clear();
        } else if (op == "read") {
            auto r = pull(k, [&](std::string const& s) { return complete(s, k.kind, k.eof); });
            if (r == "closed" && complete(k.in, k.kind, true)) r = "";
            see(o, r.empty() ? "full" : r == "closed" && !k.in.empty() ? "cut" : r); k.k.clear(); k.seen = r.empty() ? "" : "end"; if (r.empty()) k.in.clear();
        } else if (op == "stop") {
            how = o["k"].s;
            if (how == "async") srv->asyncStop();
            else if (how == "sync") stopper = std::thread([&] { srv->syncStop(); stopped = true; });
            else stopper = std::thread([&] { srv.reset(); stopped = true; });
            see(o, "ok");
        } else if (op == "join") {
            if (how == "async") stopper = std::thread([&] { srv.reset(); stopped = true; });
            if (!waitJoin(9)) { see(o, "hang"); finish("join"); }
            stopper.join();
            if (srv) { std::atomic<bool> d = false; std::thread x([&] { srv.reset(); d = true; }); double end = vf::now() + 5; while (!d && vf::now() < end) std::this_thread::sleep_for(std::chrono::milliseconds(1)); if (!d) { see(o, "hang"); finish("destroy"); } x.join(); }
            see(o, "ok");
        } else if (op == "again") {
            std::string r = "ok";
            for (int x : spare) ::close(x); spare.clear();
            for (auto& [_, x] : cs) if (x.fd >= 0) { ::close(x.fd); x.fd = -1; }
            if (int f = dial(); f >= 0) { r = "accepted"; ::close(f); }
            if (vf::openFds() != base) r = "fds" + std::to_string(vf::openFds() - base);
            if (r == "ok") {
                srv.emplace(port); routes(*srv); srv->asyncRun(1, [] {}, decltype(700_ms){}); double end = vf::now() + 5; while (listeners() != 1 && vf::now() < end) std::this_thread::sleep_for(std::chrono::milliseconds(1));
                Conn x; x.fd = dial(); x.kind = "fast"; std::string q = "GET /fast HTTP/1.1\r\nConnection: close\r\n\r\n"; (void)!::send(x.fd, q.data(), q.size(), MSG_NOSIGNAL);
                if (pull(x, [&](std::string const& s) { return complete(s, "fast", x.eof); }) != "") r = "unserved"; ::close(x.fd);
                stopped = false; std::thread y([&] { srv.reset(); stopped = true; }); if (!waitJoin(9)) { see(o, "hang"); finish("again"); } y.join();
            }
            see(o, r);
        }
    }
    finish(""); return J();
}
} // namespace
int main() { return vf::serveForked(one, 40); }
