// Drives HttpRequest / HttpResponse over a socket pair with prescribed network reads.
#include "vj.hpp"
#include "feeder.hpp"
#include <HXLibs/net/protocol/http/Request.hpp>
#include <HXLibs/net/protocol/http/Response.hpp>
using vj::J;
using namespace HX;
using namespace HX::net;
using namespace HX::utils;
namespace {
using Wait = decltype(3_s);
int g_timeouts = 0;
std::string g_dir;
template <class M> J headers(M const& m) { J o = J::obj(); for (auto& [k, v] : m) o.set(vf::lower(k), v); return o; }
// large values are reported by length and hash
J text(std::string const& s, bool big) { if (!big) return J(s); J j = J::obj(); j.set("len", s.size()); j.set("fnv", std::to_string(vf::fnv(s))); return j; }
J expand(J const& c) { return c; }
std::string bigText(J const& spec) { // [[unit, count], ...]
    std::string s; for (auto const& p : spec) { auto n = p[1].i(); for (long long i = 0; i < n; ++i) s += p[0].s; } return s;
}
coroutine::Task<> reqPlan(HttpIO& io, J const& c, J& out) {
    HttpRequest<HttpIO> req{io};
    bool big = c["big"].t();
    for (auto const& op : c["plan"]) {
        J r = J::obj(); std::string o = op.s;
        double t = vf::now();
        bool failed = false;
        try {
            if (o == "head") {
                bool ok = co_await req.parserReqHead<Wait>();
                r.set("ok", ok); if (!ok) failed = true;
                if (ok) { r.set("line", J::arr().push(req.getReqType()).push(req.getReqPath()).push(req.getProtocolVersion())); r.set("headers", headers(req.getHeaders())); }
            } else if (o == "body") { auto b = co_await req.parseBody<Wait>(); r.set("ok", true); r.set("body", text(b, big)); }
            else if (o == "save") { co_await req.saveToFile<Wait>(c["path"].s); r.set("ok", true); r.set("body", text(vf::slurp(c["path"].s), big)); }
            else if (o == "clear") { co_await req.clear(); r.set("ok", true); }
        } catch (std::exception const& e) { r.set("ok", false); r.set("threw", true); failed = true; }
        if (vf::now() - t > 2.5) { r.set("timeout", true); ++g_timeouts; }
        out.push(r);
        if (failed) break;
    }
    co_await io.close();
}
coroutine::Task<> resPlan(HttpIO& io, J const& c, J& out) {
    HttpResponse<HttpIO> res{io};
    bool big = c["big"].t();
    for (auto const& op : c["plan"]) {
        J r = J::obj(); std::string o = op.s;
        double t = vf::now();
        bool failed = false;
        try {
            if (o == "head") {
                bool ok = co_await res.parserResHead<Wait>();
                r.set("ok", ok); if (!ok) failed = true;
                if (ok) { r.set("line", J::arr().push(res.getProtocolVersion()).push(res.getStatusCode()).push(res.getStatusMessage())); r.set("headers", headers(res.getHeaders())); }
            } else if (o == "body") { bool ok = co_await res.parseBody<Wait>(); r.set("ok", ok); if (!ok) failed = true; else r.set("body", text(res.getBody(), big)); }
            else if (o == "clear") { res.clear(); r.set("ok", true); }
        } catch (std::exception const& e) { r.set("ok", false); r.set("threw", true); failed = true; }
        if (vf::now() - t > 2.5) { r.set("timeout", true); ++g_timeouts; }
        out.push(r);
        if (failed) break;
    }
    co_await io.close();
}
J run(coroutine::EventLoop& loop, vf::Worker& w, J const& c) {
    J ret = J::obj();
    if (g_timeouts > 4) { ret.set("skipped", true); return ret; }
    vf::Pair p;
    std::atomic<bool> stop{false};
    std::string s = c.has("bigstream") ? bigText(c["bigstream"]) : c["s"].s;
    if (c.has("pre")) vf::spit(c["path"].s, c["pre"].s);
    std::vector<long long> cuts; for (auto const& x : c["cuts"]) cuts.push_back(x.i());
    if (c.has("every")) for (long long i = c["every"].i(); i < (long long)s.size(); i += c["every"].i()) cuts.push_back(i);
    bool eof = c["eof"].t();
    bool chk = c["fds"].t(); int fds = chk ? vf::openFds() : 0;
    int rfd = p.r;
    w.start([&] { if (vf::feed(p.w, rfd, s, cuts, stop) && eof) { while (!vf::drained(rfd) && !stop.load()) std::this_thread::yield(); ::shutdown(p.w, SHUT_WR); } });
    J out = J::arr();
    {
        HttpIO io{p.r, loop}; p.r = -1;
        if (c["kind"].s == "req") loop.sync(reqPlan(io, c, out)); else loop.sync(resPlan(io, c, out));
    }
    stop = true; w.wait();
    ret.set("out", out);
    if (chk && vf::openFds() != fds - 1) ret.set("fdleak", vf::openFds() - fds + 1); // the case's own reading end is closed by now
    return ret;
}
} // namespace
int main(int argc, char** argv) {
    ::signal(SIGPIPE, SIG_IGN);
    coroutine::EventLoop loop; vf::Worker w;
    return vj::serve([&](J const& c) { return run(loop, w, c); });
}
