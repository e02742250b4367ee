// Replays histories of the file API in a scratch directory and reports every result and the final contents.
#include <HXLibs/utils/FileUtils.hpp>
#include <sys/stat.h>
#include <array>
#include <memory>
#include "feeder.hpp"
#include "vj.hpp"
using namespace HX; using namespace HX::utils; using vj::J;
namespace {
long U = 1;
char byteOf(long id, long i) { return id == 0 ? 0 : (char)(id * 131 + i * 7 + (i >> 8) * 13 + 1); }
std::string unitsOf(J const& d) { std::string s; for (auto const& x : d) for (long i = 0; i < U; ++i) s += byteOf(x.i(), i); return s; }
J idsOf(std::string const& s, long maxId) {
    J a = J::arr();
    if ((long)s.size() % U) return J("length " + std::to_string(s.size()));
    for (std::size_t o = 0; o < s.size(); o += (std::size_t)U) {
        long id = -1;
        for (long c = 0; c <= maxId && id < 0; ++c) { bool eq = true; for (long i = 0; i < U && eq; ++i) eq = s[o + (std::size_t)i] == byteOf(c, i); if (eq) id = c; }
        a.push(id);
    }
    return a;
}
std::string dir; int dirfd_ = -1;
std::string name(long f) { return "file" + std::to_string(f) + ".dat"; }
OpenMode mode(std::string const& m) { return m == "read" ? OpenMode::Read : m == "write" ? OpenMode::Write : m == "rw" ? OpenMode::ReadWrite : OpenMode::Append; }
std::string_view cut(std::string& s) { s += "XX"; return std::string_view{s}.substr(0, s.size() - 2); } // a view that is not terminated
coroutine::Task<J> step(coroutine::EventLoop& loop, std::vector<std::unique_ptr<AsyncFile>>& hs, J const& o) {
    std::string op = o["op"].str(); auto& h = *hs.at((std::size_t)o["h"].i() - 1); long k = o["k"].i();
    J r = J::obj(); std::string data;
    try {
        if (op == "open") {
            if (o["v"].i() == 0) { std::string p = dir + "/" + name(o["f"].i()); co_await h.open(cut(p), mode(o["m"].str())); }
            else { std::string p = name(o["f"].i()); co_await h.open(cut(p), mode(o["m"].str()), dirfd_, 0600); }
        } else if (op == "close") co_await h.close();
        else if (op == "read") {
            std::string b((std::size_t)(k * U) + 64, '#'); int n;
            if (o["v"].i() == 0) n = co_await h.read(std::span<char>{b.data(), (std::size_t)(k * U)});
            else n = co_await h.read(std::span<char>{b}, (unsigned)(k * U));
            for (std::size_t i = (std::size_t)(k * U); i < b.size(); ++i) if (b[i] != '#') r.set("bad", "wrote beyond the buffer");
            data = b.substr(0, (std::size_t)n);
        } else if (op == "readAll") data = co_await h.readAll();
        else if (op == "write") { std::string b = unitsOf(o["d"]); co_await h.write(b); }
        else if (op == "seek") h.setOffset((std::uint64_t)(k * U));
        else if (op == "get") data = FileUtils::getFileContent(dir + "/" + name(o["f"].i()));
        else if (op == "size") r.set("k", (long long)FileUtils::getFileSize(dir + "/" + name(o["f"].i())));
        else if (op == "put") FileUtils::putFileContent(dir + "/" + name(o["f"].i()), unitsOf(o["d"]));
        else if (op == "full") { AsyncFile x{loop}; co_await x.open("/dev/full", OpenMode::Write); std::exception_ptr e; try { co_await x.write(std::string(100, 'x')); } catch (...) { e = std::current_exception(); } co_await x.close(); if (e) std::rethrow_exception(e); }
        else if (op == "putfull") FileUtils::putFileContent("/dev/full", std::string((std::size_t)U, 'x'));
        else if (op == "dir") { AsyncFile x{loop}; co_await x.open(dir, OpenMode::Directory); co_await x.close(); }
        else r.set("bad", "harness: op");
        r.set("r", "ok").set("d", idsOf(data, 200));
    } catch (std::exception const& e) { r.set("r", "err").set("what", e.what()); }
    co_return r;
}
coroutine::Task<> all(coroutine::EventLoop& loop, std::vector<std::unique_ptr<AsyncFile>>& hs, J const& ops, J& out) { for (auto const& o : ops) out.push(co_await step(loop, hs, o)); }
J syncStep(coroutine::EventLoop& loop, std::vector<std::unique_ptr<AsyncFile>>& hs, J const& o) {
    std::string op = o["op"].str(); auto& h = *hs.at((std::size_t)o["h"].i() - 1); long k = o["k"].i();
    J r = J::obj(); std::string data;
    try {
        if (op == "open") { if (o["v"].i() == 0) { std::string p = dir + "/" + name(o["f"].i()); h.syncOpen(cut(p), mode(o["m"].str())); } else { std::string p = name(o["f"].i()); h.syncOpen(cut(p), mode(o["m"].str()), dirfd_, 0600); } }
        else if (op == "close") h.syncClose();
        else if (op == "read") { std::string b((std::size_t)(k * U), '#'); int n = o["v"].i() == 0 ? h.syncRead(b) : h.syncRead(b, (unsigned)(k * U)); data = b.substr(0, (std::size_t)n); }
        else if (op == "readAll") data = h.syncReadAll();
        else if (op == "write") { std::string b = unitsOf(o["d"]); h.syncWrite(b); }
        else return loop.sync(step(loop, hs, o));
        r.set("r", "ok").set("d", idsOf(data, 200));
    } catch (std::exception const& e) { r.set("r", "err").set("what", e.what()); }
    return r;
}
J one(J const& c) {
    U = c["unit"].i(); char t[] = "/tmp/vf_file_XXXXXX"; dir = ::mkdtemp(t); dirfd_ = ::open(dir.c_str(), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    J out = J::arr(); long nf = (long)c["init"].size();
    for (long f = 1; f <= nf; ++f) { auto const& d = c["init"][(int)f - 1]; if (!(d.size() == 1 && d[0].i() == -1)) vf::spit(dir + "/" + name(f), unitsOf(d)); }
    int before = vf::openFds(), after;
    {
        coroutine::EventLoop loop; std::vector<std::unique_ptr<AsyncFile>> hs;
        int base = vf::openFds();
        for (int i = 0; i < 3; ++i) hs.push_back(std::make_unique<AsyncFile>(loop));
        if (c["sync"].t()) for (auto const& o : c["ops"]) out.push(syncStep(loop, hs, o));
        else loop.sync(all(loop, hs, c["ops"], out));
        int open = (int)c["open"].i();
        J fin = J::arr();
        for (long f = 1; f <= nf; ++f) { std::string p = dir + "/" + name(f); struct stat s; if (::stat(p.c_str(), &s)) fin.push(J::arr().push(-1)); else fin.push(idsOf(s.st_size ? vf::slurp(p) : "", 200)); }
        after = vf::openFds() - base - open;
        for (auto const& x : c["left"]) hs.at((std::size_t)x.i() - 1)->syncClose();
        J r = J::obj(); r.set("r", out).set("fs", fin).set("fds", after);
        out = r;
    }
    (void)before;
    for (long f = 1; f <= nf; ++f) ::unlink((dir + "/" + name(f)).c_str());
    ::close(dirfd_); ::rmdir(dir.c_str());
    return out;
}
} // namespace
int main() { return vj::serve(one); }
