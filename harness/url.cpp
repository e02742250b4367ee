#include "vj.hpp"
#include <HXLibs/net/protocol/url/UrlParse.hpp>
using vj::J;
using HX::net::UrlParse;
// every string is handed over as a view without terminator behind it
int main() {
    return vj::serve([](J const& c) {
        J out = J::arr();
        for (auto const& x : c["us"]) {
            std::string u = x.s; J o = J::obj();
            std::string wide = u + "9/@:8?"; std::string_view v{wide.data(), u.size()};
            auto get = [&](char const* k, auto f) { try { o.set(k, J(f())); } catch (std::exception const&) { o.set(k, J("!")); } };
            get("pa", [&] { return std::string{UrlParse::extractPath(v)}; });
            get("h", [&] { return UrlParse::extractDomainName(u); });
            get("sc", [&] { return std::string{UrlParse::extractProtocol(v)}; });
            get("rm", [&] { std::string w = u; auto s = UrlParse::removeProtocol(w); return s + "|" + w; });
            get("user", [&] { auto r = UrlParse::extractUser(v); return r ? std::string{r->account} + "\n" + std::string{r->password} : std::string{"-"}; });
            get("hn", [&] { return std::string{HX::net::UrlInfoExtractor{v}.getHostname()}; });
            get("port", [&] { HX::net::UrlInfoExtractor e{v}; std::string s{e.getService()}; std::string w2 = s + "7"; return std::to_string(UrlParse::getProtocolPort(std::string_view{w2.data(), s.size()})); });
            get("or", [&] { return UrlParse::extractWsOrigin(v); });
            out.push(o);
        }
        J r = J::obj(); r.set("r", out); return r;
    });
}
