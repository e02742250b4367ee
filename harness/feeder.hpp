// A socket pair whose peer end hands the reader exactly the network reads a case prescribes:
// segment k+1 is written only once the reader has drained segment k.
#pragma once
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/un.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
namespace vf {
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline bool drained(int fd) { int n = 0; return ::ioctl(fd, FIONREAD, &n) == 0 && n == 0; }
// Sends `s` on `w` in the given segments; `r` is the reading end in this process. Stops when *stop.
inline bool feed(int w, int r, std::string const& s, std::vector<long long> const& cuts, std::atomic<bool>& stop) {
    std::size_t pos = 0, ci = 0;
    while (pos < s.size()) {
        std::size_t end = ci < cuts.size() ? (std::size_t)cuts[ci++] : s.size();
        if (end > s.size()) end = s.size();
        if (end <= pos) continue;
        while (!drained(r)) { if (stop.load()) return false; std::this_thread::yield(); }
        while (pos < end) {
            auto n = ::send(w, s.data() + pos, end - pos, MSG_NOSIGNAL | MSG_DONTWAIT);
            if (n > 0) pos += (std::size_t)n;
            else if (n < 0 && (errno == EAGAIN || errno == EINTR)) { if (stop.load()) return false; std::this_thread::sleep_for(std::chrono::microseconds(50)); }
            else return false;
        }
    }
    return true;
}
struct Pair {
    int r = -1, w = -1;
    Pair() { int sv[2]; if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) std::abort(); r = sv[0]; w = sv[1]; }
    ~Pair() { if (r >= 0) ::close(r); if (w >= 0) ::close(w); }
};
// Runs jobs on one persistent thread (thread creation per case would dominate).
class Worker {
    std::mutex m; std::condition_variable cv; std::function<void()> job; bool busy = false, quit = false; std::thread t;
public:
    Worker() : t([this] { std::unique_lock l(m); for (;;) { cv.wait(l, [&] { return busy || quit; }); if (quit) return; auto j = std::move(job); l.unlock(); j(); l.lock(); busy = false; cv.notify_all(); } }) {}
    void start(std::function<void()> j) { std::unique_lock l(m); job = std::move(j); busy = true; cv.notify_all(); }
    void wait() { std::unique_lock l(m); cv.wait(l, [&] { return !busy; }); }
    ~Worker() { { std::unique_lock l(m); quit = true; cv.notify_all(); } t.join(); }
};
inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
inline std::string slurp(std::string const& p) { std::string o; FILE* f = fopen(p.c_str(), "rb"); if (!f) return "<missing>"; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n); fclose(f); return o; }
inline void spit(std::string const& p, std::string_view s) { FILE* f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
inline unsigned long long fnv(std::string_view s) { unsigned long long h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
inline int openFds() { int n = 0; for (int i = 0; i < 4096; ++i) if (::fcntl(i, F_GETFD) != -1) ++n; return n; }
} // namespace vf
