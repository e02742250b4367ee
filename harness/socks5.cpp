// A scripted SOCKS5 proxy against the library's client: over a socket pair (mode 0: Socks5Proxy itself)
// or over loopback (mode 1: a whole HttpClient request through the proxy).
#include "vj.hpp"
#include "feeder.hpp"
#include <netinet/in.h>
#include <arpa/inet.h>
#include <HXLibs/net/client/HttpClient.hpp>
#include <HXLibs/net/protocol/proxy/Socks5Proxy.hpp>
using vj::J;
using namespace HX;
using namespace HX::utils::time_nttp_literals;
static std::string bytes(J const& j) { std::string s; for (auto const& b : j) s += (char)(unsigned char)b.i(); return s; }
struct Proxy { // the scripted peer
    int fd; J const& c; int mode; std::string all; std::vector<std::string> msgs; bool eof = false; std::string tail; std::string req;
    bool get(std::string& m, std::size_t n) {
        while (m.size() < n) {
            pollfd p{fd, POLLIN, 0}; if (::poll(&p, 1, 1500) <= 0) return false;
            char b[512]; auto k = ::recv(fd, b, std::min(sizeof b, n - m.size()), 0);
            if (k <= 0) { eof = true; return false; }
            m.append(b, (std::size_t)k);
        }
        return true;
    }
    void put(std::string const& s) { // in the pieces the case asks for
        long cut = c["cut"].i();
        std::size_t at = 0;
        auto one = [&](std::size_t n) { if (n) { if (::send(fd, s.data() + at, n, MSG_NOSIGNAL) < 0) eof = true; at += n; } };
        if (cut == 0) { one(s.size()); return; }
        while (at < s.size() && !eof) {
            one(std::min<std::size_t>((std::size_t)cut, s.size() - at));
            std::this_thread::sleep_for(std::chrono::microseconds(cut > 3 ? 500 : 60));
        }
    }
    bool talk() {
        std::string m;
        auto done = [&] { msgs.push_back(m); m.clear(); };
        if (!get(m, 2) || !get(m, 2 + (unsigned char)m[1])) { if (m.size()) done(); return false; }
        done(); put(bytes(c["m"])); if (c["m"].size() < 2) return false;
        if (c["u"].size() && c["m"][1].i() == 2) {
            if (!get(m, 2) || !get(m, 3 + (std::size_t)(unsigned char)m[1]) || !get(m, 3 + (std::size_t)(unsigned char)m[1] + (unsigned char)m[2 + (unsigned char)m[1]])) { if (m.size()) done(); return false; }
            done(); put(bytes(c["a"])); if (c["a"].size() < 2) return false;
        }
        if (!get(m, 5)) { if (m.size()) done(); return false; }
        std::size_t n = m[3] == 1 ? 4 : m[3] == 4 ? 16 : 1 + (std::size_t)(unsigned char)m[4];
        if (!get(m, 4 + n + 2)) { if (m.size()) done(); return false; }
        done();
        std::string g = bytes(c["g"]);
        if (mode == 1) g.clear();
        put(bytes(c["r"]) + g);
        return c["open"].t();
    }
    void run() {
        bool on = talk();
        if (on && mode == 1) { // a request may follow
            std::string m;
            while (m.find("\r\n\r\n") == std::string::npos) if (!get(m, m.size() + 1)) break;
            req = m;
            if (m.find("\r\n\r\n") != std::string::npos) put("HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello");
        }
        if (!on) ::shutdown(fd, SHUT_WR);
        std::string x; while (get(x, x.size() + 1)) {} // whatever else the client sends, until it hangs up
        tail = x;
    }
};
int main() {
    static vf::Worker worker;
    int ls = -1; unsigned short port = 0;
    {
        ls = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (::bind(ls, (sockaddr*)&a, sizeof a) || ::listen(ls, 16)) return 9;
        socklen_t l = sizeof a; ::getsockname(ls, (sockaddr*)&a, &l); port = ntohs(a.sin_port);
    }
    return vj::serve([&](J const& c) {
        int mode = (int)c["mode"].i();
        std::string cred; if (c["u"].size()) cred = bytes(c["u"][0]) + ":" + bytes(c["u"][1]) + "@";
        std::string target = "http://" + bytes(c["h"]) + (c["dp"].t() ? std::string{} : ":" + std::to_string(c["p"].i())) + "/q";
        J o = J::obj(); std::string err; bool open = false; std::string rest;
        auto report = [&](Proxy& p) {
            J s = J::arr(); for (auto& m : p.msgs) { J a = J::arr(); for (unsigned char ch : m) a.push((int)ch); s.push(a); }
            o.set("sent", s); o.set("extra", p.tail); o.set("open", open); o.set("rest", rest); o.set("err", err); o.set("req", p.req.substr(0, p.req.find("\r\n")));
        };
        if (mode == 0) {
            vf::Pair pr; Proxy p{pr.w, c, 0, {}, {}, false, {}, {}};
            worker.start([&] { p.run(); });
            coroutine::EventLoop loop;
            std::string url = "socks5://" + cred + "127.0.0.1:1";
            std::string want = bytes(c["g"]);
            auto t = [&]() -> coroutine::Task<> {
                net::HttpIO io{pr.r, loop};
                try {
                    net::Socks5Proxy x{io};
                    co_await x.connect(url, target);
                    open = true;
                } catch (std::exception const& e) { err = e.what(); }
                if (open) {
                    rest.resize(want.size());
                    try { if (want.size()) co_await io.fullyRecv(rest); co_await io.fullySend(std::string_view{"ping"}); } catch (std::exception const& e) { rest = "!"; }
                }
                co_await io.close(); pr.r = -1;
            };
            auto task = t(); loop.start(task); loop.run();
            worker.wait();
            report(p);
        } else {
            Proxy p{-1, c, 1, {}, {}, false, {}, {}};
            worker.start([&] {
                pollfd q{ls, POLLIN, 0}; if (::poll(&q, 1, 3000) <= 0) return;
                p.fd = ::accept4(ls, nullptr, nullptr, SOCK_CLOEXEC); p.run(); ::close(p.fd);
            });
            {
                net::HttpClient<net::Socks5Proxy> cli{net::HttpClientOptions<net::Socks5Proxy>{{"socks5://" + cred + "127.0.0.1:" + std::to_string(port)}}};
                cli.setAutoReconnect(false);
                auto r = cli.get(target, {}, 2_s).get();
                if (r) { open = true; rest = r.get().body; } else err = r.what();
            }
            worker.wait();
            report(p);
        }
        return o;
    });
}
