// Carries plain connections over TLS: what the driver writes on `plain` reaches the endpoint on `tls` encrypted, and back.
#pragma once
#include "tlspeer.hpp"
#include <memory>
namespace vf {
class TlsRelay {
    struct C { int plain, fd; std::unique_ptr<TlsPeer> p; bool up = false, inEnd = false, fin = false, dead = false; std::string wait, back; };
    SSL_CTX* ctx; std::vector<C> cs; std::thread t; std::atomic<bool> quit{false};
    static bool out(C& c) { // everything encrypted goes out; what comes meanwhile is kept
        std::string o = c.p->take(); return o.empty() || c.p->raw(o, {}, now() + 4);
    }
    void step(C& c) {
        if (c.dead) return;
        pollfd q{c.plain, POLLIN, 0};
        if (!c.inEnd && ::poll(&q, 1, 0) > 0) {
            char b[65536]; auto k = ::recv(c.plain, b, sizeof b, MSG_DONTWAIT);
            if (k > 0) c.wait.append(b, (std::size_t)k); else if (k == 0 || (errno != EAGAIN && errno != EINTR)) c.inEnd = true;
        }
        c.p->pull(0);
        if (!c.up) { int r = c.p->hs(); out(c); if (r == 1) c.up = true; else if (r < 0 || c.p->eof) { end(c); return; } else return; }
        if (!c.wait.empty()) { c.p->write(c.wait); c.wait.clear(); out(c); }
        if (c.inEnd && !c.fin) { c.fin = true; SSL_shutdown(c.p->s); out(c); ::shutdown(c.fd, SHUT_WR); }
        bool over = false; c.back += c.p->read(over); out(c);
        while (!c.back.empty()) { auto k = ::send(c.plain, c.back.data(), c.back.size(), MSG_NOSIGNAL | MSG_DONTWAIT); if (k > 0) c.back.erase(0, (std::size_t)k); else if (k < 0 && (errno == EAGAIN || errno == EINTR)) break; else { end(c); return; } }
        if (c.back.empty() && (over || c.p->eof)) end(c);
    }
    static void end(C& c) { c.dead = true; ::close(c.plain); ::close(c.fd); }
public:
    explicit TlsRelay(SSL_CTX* x) : ctx(x) {}
    void add(int plain, int fd) { C c; c.plain = plain; c.fd = fd; c.p = std::make_unique<TlsPeer>(ctx, false, fd, -1, cs.size() % 3 == 2); cs.push_back(std::move(c)); }
    void start() {
        t = std::thread([this] {
            while (!quit) {
                bool all = true; for (auto& c : cs) { step(c); all = all && c.dead; } if (all) return;
                std::vector<pollfd> f; for (auto& c : cs) if (!c.dead) { f.push_back({c.fd, POLLIN, 0}); if (!c.inEnd) f.push_back({c.plain, POLLIN, 0}); }
                ::poll(f.data(), f.size(), 1);
            }
        });
    }
    ~TlsRelay() { quit = true; if (t.joinable()) t.join(); for (auto& c : cs) if (!c.dead) end(c); }
};
} // namespace vf
