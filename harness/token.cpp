#include "vj.hpp"
#include <HXLibs/net/token/Token.hpp>
#include <optional>
using vj::J;
using namespace HX::net;
using namespace HX::net::token;
namespace {
struct Val { std::uint64_t id; std::string name; std::vector<std::string> roles; std::optional<int> opt; bool flag;
    bool operator==(Val const&) const = default; };
Val make(int v) {
    Val r; r.id = (std::uint64_t)v * 0x9E3779B97F4A7C15ull >> (v % 60); r.flag = v % 2;
    r.name = std::string((std::size_t)(v * 7 % 23), (char)('a' + v % 26)) + (v % 3 == 0 ? "名" : "");
    for (int i = 0; i < v % 4; ++i) r.roles.push_back("r" + std::to_string(i * v));
    if (v % 5 == 0) r.name = std::string((std::size_t)v * 400, 'L');
    if (v % 2) r.opt = v;
    return r;
}
struct Key1 { static std::string getKey() { return "0123456789abcdef0123456789abcdef"; } };
struct Key2 { static std::string getKey() { return "0123456789abcdef0123456789abcdeF"; } };
struct Key3 { static std::string getKey() { return std::string(32, '\0'); } };
struct BadKey { static std::string getKey() { return "short"; } };
TokenApi& api(int k) { return k == 1 ? TokenApi::get<Key1>() : k == 2 ? TokenApi::get<Key2>() : k == 3 ? TokenApi::get<Key3>() : TokenApi::get<>(); }
std::string const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
char other(char c, int y) { auto i = alpha.find(c); return alpha[(i + 1 + (std::size_t)y % 63) % 64]; }
std::string mutate(std::string const& t, std::string const& u, std::string const& m, int x, int y) {
    std::string r = t; auto n = t.size(); auto p = (std::size_t)x % n;
    auto chr = [&] { r[p] = other(r[p], y); };
    if (m == "none") return r;
    if (m == "char") chr();
    else if (m == "spare") { // only bits that carry no data
        std::size_t spare = n % 4 == 2 ? 16 : n % 4 == 3 ? 4 : 0;
        if (!spare) chr();
        else { auto i = alpha.find(r[n - 1]); auto k = i - i % spare + (i % spare + 1 + (std::size_t)y % (spare - 1)) % spare; r[n - 1] = alpha[k]; }
    }
    else if (m == "invalid") { static const char bad[] = "!=+/ \n\x7f\x80\xff.~"; r[p] = y % 12 == 11 ? '\0' : bad[y % 11]; }
    else if (m == "truncate") r.resize(p);
    else if (m == "drop") { r.erase(p, 1); }
    else if (m == "extend") for (int i = 0; i <= y % 9; ++i) r += alpha[(std::size_t)(x + i) % 64];
    else if (m == "pad") r += std::string((std::size_t)(1 + y % 3), '=');
    else if (m == "dup") r += t;
    else if (m == "swap") { auto q = (p + 1 + (std::size_t)y % (n - 1)) % n; if (r[p] == r[q]) chr(); else std::swap(r[p], r[q]); }
    else if (m == "splice") { auto c = std::min(p, u.size()); r = t.substr(0, p) + u.substr(c); if (r == t || r == u) { r = t; chr(); } }
    else if (m == "case") { std::size_t i = 0; for (; i < n; ++i) { char& c = r[(p + i) % n]; if (isalpha((unsigned char)c)) { c ^= 32; break; } } if (i == n) chr(); }
    else if (m == "empty") r.clear();
    return r;
}
int open(int k, std::string const& text, bool& touched, int expect) {
    Val const before = expect > 0 ? Val{} : make(77); Val got = before; touched = false; // values open into a fresh object
    try { api(k).fromToken(got, text); }
    catch (std::exception const&) { touched = !(got == before); return -1; }
    for (int v = expect > 0 ? expect : 1; v <= 64; ++v) { if (got == make(v)) return v; if (expect > 0) break; }
    return -2;
}
J history(J const& c) {
    std::vector<std::string> toks{""}; J out = J::arr();
    for (auto const& s : c["h"]) {
        int k = (int)s["k"].i(), v = (int)s["v"].i();
        if (s["op"].s == "seal") {
            auto val = make(v); toks.push_back(v % 2 ? api(k).toToken(val) : api(k).toToken(Val(val)));
            bool url = true; for (char ch : toks.back()) if (alpha.find(ch) == std::string::npos) url = false;
            for (std::size_t i = 1; i + 1 < toks.size(); ++i) if (toks[i] == toks.back()) url = false; // a fresh nonce each time
            out.push(url ? v : -3);
        } else {
            auto text = mutate(toks[(std::size_t)s["t"].i()], toks[(std::size_t)s["u"].i()], s["mut"].s, (int)s["x"].i(), (int)s["y"].i());
            bool touched; int r = open(k, text, touched, (int)s["exp0"].i());
            out.push(touched ? -4 : r);
        }
    }
    J r = J::obj(); r.set("obs", out); return r;
}
J sweep(J const& c) { // every one-byte change, deletion and insertion of one token
    int v = (int)c["v"].i(); auto val = make(v); auto t = api(1).toToken(val); std::int64_t accepted = 0, tried = 0; bool touched; std::string first;
    auto tryIt = [&](std::string const& x) { if (x == t) return; ++tried; if (open(1, x, touched, 0) != -1 || touched) { ++accepted; if (first.empty()) first = x; } };
    for (std::size_t p = 0; p < t.size(); ++p) {
        for (int b = 0; b < 256; ++b) { auto x = t; x[p] = (char)b; tryIt(x); }
        auto x = t; x.erase(p, 1); tryIt(x); tryIt(t.substr(0, p)); tryIt(t.substr(p + 1));
    }
    for (std::size_t p = 0; p <= t.size(); ++p) for (char ch : alpha + "=! ") { auto x = t; x.insert(p, 1, ch); tryIt(x); }
    bool ok = open(1, t, touched, v) == v;
    J r = J::obj(); r.set("accepted", accepted); r.set("tried", tried); r.set("still", ok); r.set("token", t); r.set("first", first); return r;
}
J codec(J const& c) { // raw codec: bytes of every length round-trip
    J r = J::obj(); bool ok = true; std::string b; std::uint64_t x = (std::uint64_t)c["seed"].i() * 2654435761u + 1;
    for (int n = 0; n < 300 && ok; ++n) {
        for (auto& ch : b) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; ch = (char)(x >> 11); }
        if (base64UrlDecode(base64UrlEncode(std::span<char const>{b.data(), b.size()})) != b) ok = false;
        b.push_back((char)n);
    }
    bool bad = false; try { (void)api(9); (void)TokenApi::get<BadKey>(); bad = true; } catch (std::exception const&) {}
    try { (void)TokenApi::get<BadKey>(); bad = true; } catch (std::exception const&) {}
    r.set("ok", ok); r.set("badkey", bad); return r;
}
} // namespace
int main() { return vj::serve([](J const& c) { std::string k = c["kind"].s; if (k == "sweep") return sweep(c); if (k == "codec") return codec(c); return history(c); }); }
