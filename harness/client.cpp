// The library's HTTP client against scripted servers on loopback.  Each case: programs (one per client),
// each with its server's script; mode "own" (futures, one client with its own loop), "burst" (the same, calls
// issued without waiting), "shared" (all clients as coroutines of one loop).
#include "vj.hpp"
#include "feeder.hpp"
#include <deque>
#include <future>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/eventfd.h>
#include <HXLibs/net/client/HttpClient.hpp>
using vj::J;
using namespace HX;
using namespace HX::utils::time_nttp_literals;
static std::string pattern(long id, long n) { std::string s; s.reserve((std::size_t)n); for (long i = 0; i < n; ++i) s += (char)('a' + (id * 7 + i * 13 + i / 251) % 26); return s; }
static std::string text(long id, long tx, long size) { return "id=" + std::to_string(id) + ";tx=" + std::to_string(tx) + ";" + pattern(id + tx, size); }
struct Conn { int fd; int host; std::string in; bool parked = false; std::string late; };
struct Server {
    J const& script; int seed; std::size_t at = 0; int lss[2] = {-1, -1}, ef = -1; unsigned short ports[2] = {0, 0}; std::list<Conn> conns; J evs = J::arr(); std::map<long, long> tx;
    std::map<long, std::string> shape; // shape of the answer per request: "cl:N" "ch:N" "204" ...
    std::mutex m; std::condition_variable cv; std::deque<std::string> cmds; bool ack = false, quit = false; std::thread th;
    Server(J const& s, int sd) : script(s), seed(sd) { ef = ::eventfd(0, EFD_CLOEXEC); open(0, true); open(1, true); th = std::thread([this] { loop(); }); }
    ~Server() { cmd("stop"); th.join(); for (auto& c : conns) ::close(c.fd); ::close(lss[0]); ::close(lss[1]); ::close(ef); }
    void open(int h, bool listen) {
        int& ls = lss[h]; auto& port = ports[h];
        if (ls >= 0) ::close(ls);
        for (int i = 0;; ++i) {
            ls = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0); int on = 1; ::setsockopt(ls, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
            sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            static std::atomic<int> next{(int)(::getpid() % 900) * 10};
            a.sin_port = htons(port ? port : (unsigned short)(20000 + (next++) % 8000));
            if (::bind(ls, (sockaddr*)&a, sizeof a) == 0 && (!listen || ::listen(ls, 64) == 0)) { port = ntohs(a.sin_port); return; }
            ::close(ls); if (i > 2000) std::abort();
            if (port) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
    }
    void cmd(std::string s) { std::unique_lock l(m); cmds.push_back(std::move(s)); ack = false; eventfd_t v = 1; ::write(ef, &v, sizeof v); cv.wait(l, [&] { return ack; }); }
    void event(char const* k, long i, std::string a, int h) { J e = J::obj(); e.set("h", h); e.set("k", k); e.set("i", i); e.set("a", a); evs.push(e); }
    std::string next() const { return at < script.size() ? (script[at]["k"].s == "req" ? script[at]["a"].s : script[at]["k"].s) : std::string{}; }
    static void out(int fd, std::string const& s) {
        std::size_t p = 0; while (p < s.size()) { auto n = ::send(fd, s.data() + p, s.size() - p, MSG_NOSIGNAL | MSG_DONTWAIT); if (n > 0) p += (std::size_t)n; else if (errno == EAGAIN) { pollfd q{fd, POLLOUT, 0}; if (::poll(&q, 1, 3000) <= 0) return; } else return; }
    }
    // a complete request at the front of c.in? -> its id, method, validity
    bool request(Conn& c, long& id, std::string& method, bool& good) {
        auto e = c.in.find("\r\n\r\n"); if (e == std::string::npos) return false;
        std::string head = c.in.substr(0, e), low = vf::lower(head), body; std::size_t used = e + 4;
        auto hdr = [&](char const* k) -> std::string { auto p = low.find(std::string("\r\n") + k + ":"); if (p == std::string::npos) return {}; p += 3 + std::strlen(k); auto q = low.find("\r\n", p); auto v = low.substr(p, q == std::string::npos ? q : q - p); while (v.size() && v[0] == ' ') v.erase(0, 1); return v; };
        if (hdr("transfer-encoding") == "chunked") {
            for (;;) {
                auto q = c.in.find("\r\n", used); if (q == std::string::npos) return false;
                auto n = std::strtoul(c.in.substr(used, q - used).c_str(), nullptr, 16);
                if (c.in.size() < q + 2 + n + 2) return false;
                body += c.in.substr(q + 2, n); used = q + 2 + n + 2;
                if (!n) break;
            }
        } else if (auto l = hdr("content-length"); l.size()) { auto n = std::strtoul(l.c_str(), nullptr, 10); if (c.in.size() < used + n) return false; body = c.in.substr(used, n); used += n; }
        auto sp = head.find(' '); method = head.substr(0, sp); auto p = head.find("/r?i=");
        id = p == std::string::npos ? -1 : std::atol(head.c_str() + p + 5); long size = 0; if (auto s = head.find("&s=", p); s != std::string::npos) size = std::atol(head.c_str() + s + 3);
        good = p == sp + 1 && body == pattern(id, size) && hdr("x-id") == std::to_string(id) && hdr("host").size() && head.find(" HTTP/1.1") != std::string::npos;
        c.in.erase(0, used); return true;
    }
    void answer(Conn& c, long id, std::string const& method, bool good) {
        std::string a = at < script.size() && script[at]["k"].s == "req" ? script[at++]["a"].s : std::string{"ok"};
        long n = ++tx[id]; event("req", id, good ? a : "corrupt", c.host);
        unsigned v = (unsigned)(seed * 31 + id * 7 + n * 3 + (long)evs.size());
        bool head = method == "HEAD"; int kind = (int)(v % 5); static long const sizes[] = {0, 5, 40, 16384, 70000}; long size = sizes[v / 5 % 5];
        std::string body = text(id, n, size), h = "HTTP/1.1 " + std::string(kind == 4 ? "204 No Content" : kind == 3 ? "404 Not Found" : "200 OK") + "\r\nX-Id: " + std::to_string(id) + "\r\nX-Tx: " + std::to_string(n) + "\r\n", tail;
        if (a == "okc") h += "Connection: close\r\n";
        if (kind == 4) { if (head) h += "Content-Length: 7\r\n"; }
        else if (kind == 2) { h += "Transfer-Encoding: chunked\r\n"; char x[20]; std::size_t p = 0; while (p < body.size()) { auto k = std::min<std::size_t>(1 + (v * 97 + p) % 9000, body.size() - p); snprintf(x, 20, "%zx\r\n", k); tail += x + body.substr(p, k) + "\r\n"; p += k; } tail += "0\r\n\r\n"; }
        else { h += "Content-Length: " + std::to_string(body.size()) + "\r\n"; tail = body; }
        if (head || kind == 4) tail.clear();
        shape[id] = std::to_string(kind == 4 ? 204 : kind == 3 ? 404 : 200) + "|" + std::to_string(n) + "|" + (head || kind == 4 ? "" : body);
        std::string full = h + "\r\n" + tail, part = h + "X-Stale: 1\r\n\r\n" + tail;
        if (tail.empty()) part = h + "X-Stale: 1\r\n";
        std::size_t pc[] = {1, 12, h.size() / 2, h.size() + 3, part.size() - 1, part.size() / 2};
        part = part.substr(0, std::min(pc[v / 7 % 6], part.size() - 1));
        static char const* junk[] = {"garbage\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.1 abc OK\r\nContent-Length: 0\r\n\r\n", "\r\n\r\n", "HTTP/1.1 200 OK\r\nX-Stale: 1\r\nContent-Length: 1x\r\n\r\n", "HTTP/1.1 200 OK\r\nX-Stale: 1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "HTTP/1.1 200 OK\r\nX-Stale: 1\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabcd\r\n0\r\n\r\n"};
        if (a == "ok" || a == "okc" || a == "oks") out(c.fd, full);
        else if (a == "interim") out(c.fd, (v % 2 ? "HTTP/1.1 100 Continue\r\n\r\n" : "HTTP/1.1 103 Early Hints\r\nX-Stale: 1\r\nLink: <a>\r\n\r\nHTTP/1.1 102 Processing\r\n\r\n") + full);
        else if (a == "cut" || a == "half") out(c.fd, part);
        else if (a == "junk" || a == "bad") out(c.fd, junk[v / 3 % (head ? 4 : 7)]);
        else if (a == "slow") c.late = full;
        if (a == "okc" || a == "oks" || a == "drop" || a == "cut" || a == "junk") { ::shutdown(c.fd, SHUT_RDWR); ::close(c.fd); c.fd = -1; }
    }
    void lateAnswers() { for (auto& c : conns) if (c.fd >= 0 && c.late.size()) { out(c.fd, c.late); c.late.clear(); } }
    bool step(int wait) { // false when nothing was ready
        std::vector<pollfd> p{{ef, POLLIN, 0}, {lss[0], POLLIN, 0}, {lss[1], POLLIN, 0}}; std::vector<Conn*> who{nullptr, nullptr, nullptr};
        for (auto& c : conns) { p.push_back({c.fd, POLLIN, 0}); who.push_back(&c); }
        if (::poll(p.data(), p.size(), wait) <= 0) return false;
        bool did = false;
        for (std::size_t i = 3; i < p.size(); ++i) if (p[i].revents) {
            did = true; char b[65536]; auto n = ::recv(p[i].fd, b, sizeof b, MSG_DONTWAIT);
            if (n <= 0) { if (n == 0 || errno != EAGAIN) { ::close(who[i]->fd); who[i]->fd = -1; } continue; }
            who[i]->in.append(b, (std::size_t)n); long id; std::string m; bool good;
            while (who[i]->fd >= 0 && request(*who[i], id, m, good)) answer(*who[i], id, m, good);
        }
        conns.remove_if([](Conn& c) { return c.fd < 0; });
        for (int h = 0; h < 2; ++h) if (p[(std::size_t)h + 1].revents & POLLIN) {
            int fd = ::accept4(lss[h], nullptr, nullptr, SOCK_CLOEXEC | SOCK_NONBLOCK);
            if (fd >= 0) {
                did = true; auto w = next(); if (w == "acc" || w == "early") ++at;
                event(w == "early" ? "early" : "acc", 0, "", h);
                lateAnswers();
                if (w == "early") ::close(fd); else { int on = 1; ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &on, sizeof on); conns.push_back({fd, h, {}, false, {}}); }
            }
        }
        return did;
    }
    void loop() {
        for (;;) {
            { pollfd probe{}; (void)probe; }
            std::string c; { std::unique_lock l(m); if (!cmds.empty()) c = cmds.front(); }
            if (c.empty()) { step(1000); continue; }
            { eventfd_t v; ::read(ef, &v, sizeof v); }
            while (step(0)) {}
            if (c != "sync") lateAnswers();
            if (c == "down") { for (auto& x : conns) if (x.host == 0) { ::close(x.fd); x.fd = -1; } conns.remove_if([](Conn& x) { return x.fd < 0; }); open(0, false); }
            if (c == "up") open(0, true);
            { std::unique_lock l(m); cmds.pop_front(); ack = true; cv.notify_all(); }
            if (c == "stop") return;
        }
    }
};
using Resp = container::Try<net::ResponseData>;
static std::string verdict(Resp& r, Server& s, long id, bool viaShape = true) {
    if (!r) return "err";
    auto d = r.move(); s.cmd("sync");
    std::string want = s.shape.count(id) ? s.shape[id] : "none";
    std::string got = std::to_string(d.status) + "|" + (d.headers.contains("x-tx") ? d.headers.find("x-tx")->second : "?") + "|" + d.body;
    if (!d.headers.contains("x-id") || d.headers.find("x-id")->second != std::to_string(id)) return "wrong: the answer to another request, " + got.substr(0, 60);
    if (d.headers.contains("x-stale")) return "wrong: headers of an earlier response";
    if (got != want) return "wrong: " + got.substr(0, 80) + " (" + std::to_string(got.size()) + ") instead of " + want.substr(0, 80) + " (" + std::to_string(want.size()) + ")";
    return "ok";
}
struct Plan { std::string op, m; long id, size; std::string url; net::HeaderHashMap h; };
static std::string file; static long fileId = -1;
static Plan plan(J const& ops, J const& how, std::size_t i, unsigned short const* ports) {
    Plan p; p.op = ops[i].s; p.m = how[i][0].s; p.size = how[i][1].i(); p.id = (long)i + 1;
    bool body = p.m == "POST" || p.m == "PUT" || p.m == "UP";
    p.url = "http://127.0.0.1:" + std::to_string(ports[p.op.back() == 'B']) + "/r?i=" + std::to_string(p.id) + (body ? "&s=" + std::to_string(p.size) : "");
    p.h.emplace("X-Id", std::to_string(p.id));
    if (p.op == "callc") p.h.emplace("Connection", "close");
    return p;
}
template <typename TO> static auto issue(auto& cli, Plan p, std::string const& path, TO to) {
    using net::HttpMethod; using CT = net::HttpContentType; auto b = pattern(p.id, p.size);
    if (p.m == "POST") return cli.post(p.url, b, CT::Text, p.h, to);
    if (p.m == "PUT") return cli.template request<HttpMethod::PUT>(p.url, p.h, std::move(b), CT::Text, to);
    if (p.m == "HEAD") return cli.template request<HttpMethod::HEAD>(p.url, p.h, std::string{}, CT::None, to);
    if (p.m == "DELETE") return cli.template request<HttpMethod::DEL>(p.url, p.h, std::string{}, CT::None, to);
    if (p.m == "UP") return cli.template uploadChunked<HttpMethod::POST>(p.url, path, CT::Text, p.h, to);
    return cli.get(p.url, p.h, to);
}
template <typename TO> static coroutine::Task<Resp> coIssue(auto& cli, Plan p, std::string const& path, TO to) {
    using net::HttpMethod; using CT = net::HttpContentType; auto b = pattern(p.id, p.size);
    if (p.m == "POST") co_return co_await cli.coPost(p.url, b, CT::Text, p.h, to);
    if (p.m == "PUT") co_return co_await cli.template coRequest<HttpMethod::PUT>(p.url, p.h, std::move(b), CT::Text, to);
    if (p.m == "HEAD") co_return co_await cli.template coRequest<HttpMethod::HEAD>(p.url, p.h, std::string{}, CT::None, to);
    if (p.m == "DELETE") co_return co_await cli.template coRequest<HttpMethod::DEL>(p.url, p.h, std::string{}, CT::None, to);
    if (p.m == "UP") co_return co_await cli.template coUploadChunked<HttpMethod::POST>(p.url, path, CT::Text, p.h, to);
    co_return co_await cli.coGet(p.url, p.h, to);
}
template <typename TO> static J own(J const& c, TO to, bool burst, std::string const& dir) {
    J const& g = c["progs"][0]; Server s(g["evs"], (int)c["seed"].i()); J outs = J::arr();
    {
        auto hold = std::make_unique<net::HttpClient<net::NoneProxy>>(); auto& cli = *hold; auto& ops = g["ops"]; auto& how = g["how"];
        for (std::size_t i = 0; i < ops.size();) {
            auto p = plan(ops, how, i, s.ports);
            if (p.op.starts_with("call")) {
                std::vector<container::FutureResult<Resp>> fs; std::size_t j = i;
                for (; j < ops.size() && (j == i || burst) && (ops[j].s.starts_with("call")); ++j) {
                    auto q = plan(ops, how, j, s.ports); auto path = dir + "/f" + std::to_string(j);
                    if (q.m == "UP") vf::spit(path, pattern(q.id, q.size));
                    fs.push_back(issue(cli, q, path, to));
                }
                // a client may be closed or destroyed with requests still under way
                bool shut = burst && j < ops.size() && ops[j].s == "close";
                if (shut) cli.close();
                else if (burst && j == ops.size() && c["seed"].i() % 2) hold.reset();
                for (std::size_t k = i; k < j; ++k) { auto r = fs[k - i].get(); outs.push(verdict(r, s, (long)k + 1)); }
                if (shut) { outs.push("-"); ++j; }
                i = j; s.cmd("sync"); continue;
            }
            std::string r = "-";
            if (p.op == "down" || p.op == "up") s.cmd(p.op);
            else if (p.op == "auto" || p.op == "noauto") cli.setAutoReconnect(p.op == "auto");
            else if (p.op == "close") cli.close();
            else if (p.op.starts_with("connect")) r = cli.connect(p.url).get() ? "ok" : "err";
            s.cmd("sync"); outs.push(r); ++i;
        }
    }
    J o = J::obj(); o.set("outs", outs); o.set("evs", s.evs); J r = J::arr(); r.push(o); return r;
}
template <typename TO> static J shared(J const& c, TO to, std::string const& dir) {
    auto loop = std::make_shared<coroutine::EventLoop>(); std::size_t n = c["progs"].size();
    std::deque<Server> ss; std::vector<J> outs(n, J::arr()); std::deque<net::HttpClient<net::NoneProxy>> cs; std::vector<coroutine::Task<>> ts;
    for (std::size_t i = 0; i < n; ++i) { ss.emplace_back(c["progs"][i]["evs"], (int)(c["seed"].i() + (long)i)); cs.emplace_back(net::HttpClientOptions<net::NoneProxy>{}, loop); }
    auto run = [&](std::size_t k) -> coroutine::Task<> {
        auto& ops = c["progs"][k]["ops"]; auto& how = c["progs"][k]["how"]; auto& cli = cs[k]; auto& s = ss[k];
        for (std::size_t i = 0; i < ops.size(); ++i) {
            auto p = plan(ops, how, i, s.ports); std::string r = "-";
            if (p.op.starts_with("call")) {
                auto path = dir + "/f" + std::to_string(k) + "_" + std::to_string(i);
                if (p.m == "UP") vf::spit(path, pattern(p.id, p.size));
                auto x = co_await coIssue(cli, p, path, to); r = verdict(x, s, p.id);
            }
            else if (p.op == "down" || p.op == "up") s.cmd(p.op);
            else if (p.op == "auto" || p.op == "noauto") cli.setAutoReconnect(p.op == "auto");
            else if (p.op == "close") co_await cli.coClose();
            else if (p.op.starts_with("connect")) r = co_await cli.coConnect(p.url) ? "ok" : "err";
            s.cmd("sync"); outs[k].push(r);
        }
        co_await cli.coClose();
    };
    ts.reserve(n); for (std::size_t k = 0; k < n; ++k) { ts.push_back(run(k)); }
    for (auto& t : ts) loop->start(t);
    loop->run();
    J r = J::arr(); for (std::size_t k = 0; k < n; ++k) { ss[k].cmd("sync"); J o = J::obj(); o.set("outs", outs[k]); o.set("evs", ss[k].evs); r.push(o); }
    return r;
}
int main() {
    char d[] = "/tmp/vf_cliXXXXXX"; std::string dir = ::mkdtemp(d);
    int rc = vj::serve([&](J const& c) {
        J o = J::obj(); auto m = c["mode"].s; int f0 = vf::openFds();
        auto go = [&](auto to) { return m == "shared" ? shared(c, to, dir) : own(c, to, m == "burst", dir); };
        if (c["long"].t()) o.set("r", go(2500_ms)); else o.set("r", go(150_ms));
        o.set("fds", vf::openFds() - f0);
        return o;
    });
    std::string rm = "rm -rf '" + dir + "'"; return ::system(rm.c_str()) ? 1 : rc;
}
