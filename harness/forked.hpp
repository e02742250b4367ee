// Runs each case in a child process: a crash, an exit or a hang ends only that case.
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include "vj.hpp"
namespace vf {
inline int childOut = -1;
inline void report(vj::J const& r) { std::string o = vj::dump(r); for (std::size_t i = 0; i < o.size();) { auto k = ::write(childOut, o.data() + i, o.size() - i); if (k <= 0) break; i += (std::size_t)k; } }
inline int serveForked(std::function<vj::J(vj::J const&)> f, int seconds = 10) {
    return vj::serve([=](vj::J const& c) {
        int p[2]; if (::pipe(p)) throw std::runtime_error("pipe");
        pid_t k = ::fork();
        if (k == 0) { ::close(p[0]); childOut = p[1]; if (int z = ::open("/dev/null", O_WRONLY | O_CLOEXEC); z >= 0) { ::dup2(z, 1); ::close(z); } vj::J r; try { r = f(c); } catch (std::exception const& e) { r = vj::J::obj(); r.set("harness_exception", e.what()); } report(r); ::_exit(0); }
        ::close(p[1]); std::string o; char b[65536]; bool late = false; auto t0 = std::chrono::steady_clock::now();
        for (;;) {
            auto left = seconds * 1000 - std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
            pollfd q{p[0], POLLIN, 0}; if (left <= 0 || ::poll(&q, 1, (int)left) == 0) { late = true; ::kill(k, SIGKILL); break; }
            auto n = ::read(p[0], b, sizeof b); if (n <= 0) break; o.append(b, (std::size_t)n);
        }
        ::close(p[0]); int st = 0; ::waitpid(k, &st, 0); vj::J r = vj::J::obj();
        if (late) return r.set("hang", true);
        if (WIFSIGNALED(st)) return r.set("crash", WTERMSIG(st));
        if (o.empty()) return r.set("crash", "no output");
        return vj::parse(o);
    });
}
} // namespace vf
