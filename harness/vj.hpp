// Minimal JSON reader/writer used by the harnesses (independent of the library under test).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace vj {
struct J {
    enum K { Nul, Bool, Num, Str, Arr, Obj } k = Nul;
    bool b = false; double d = 0; long long n = 0; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o;
    J() {} J(bool v) : k(Bool), b(v) {} J(int v) : k(Num), d(v), n(v) {} J(long v) : k(Num), d((double)v), n(v) {}
    J(long long v) : k(Num), d((double)v), n(v) {} J(unsigned long v) : k(Num), d((double)v), n((long long)v) {} J(unsigned v) : k(Num), d(v), n(v) {}
    J(double v) : k(Num), d(v), n((long long)v) {}
    J(char const* v) : k(Str), s(v) {} J(std::string v) : k(Str), s(std::move(v)) {} J(std::string_view v) : k(Str), s(v) {}
    static J arr() { J j; j.k = Arr; return j; } static J obj() { J j; j.k = Obj; return j; }
    J& push(J v) { k = Arr; a.push_back(std::move(v)); return *this; }
    J& set(std::string key, J v) { k = Obj; for (auto& p : o) if (p.first == key) { p.second = std::move(v); return *this; } o.emplace_back(std::move(key), std::move(v)); return *this; }
    bool has(std::string_view key) const { for (auto& p : o) if (p.first == key) return true; return false; }
    J const& operator[](std::string_view key) const { for (auto& p : o) if (p.first == key) return p.second; static J nul; return nul; }
    J const& operator[](std::size_t i) const { return a.at(i); }
    J const& operator[](int i) const { return a.at((std::size_t)i); }
    std::size_t size() const { return a.size(); }
    std::string str(std::string def = "") const { return k == Str ? s : def; }
    long long i(long long def = 0) const { return k == Num ? n : k == Bool ? b : def; }
    bool t() const { return k == Bool ? b : k == Num ? n != 0 : false; }
    auto begin() const { return a.begin(); } auto end() const { return a.end(); }
};
struct Parser {
    char const* p; char const* e;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    [[noreturn]] void bad(char const* w) { throw std::runtime_error(std::string("vj: ") + w); }
    static void utf8(std::string& s, unsigned c) {
        // bytes: code points below 256 are taken as raw bytes (cases carry byte strings as latin-1)
        s += (char)(unsigned char)(c & 255);
    }
    J val() {
        ws(); if (p >= e) bad("eof");
        switch (*p) {
        case '{': { J j = J::obj(); ++p; ws(); if (*p == '}') { ++p; return j; }
            for (;;) { ws(); J key = val(); ws(); if (*p != ':') bad(":"); ++p; J v = val(); j.o.emplace_back(key.s, std::move(v)); ws(); if (*p == ',') { ++p; continue; } if (*p == '}') { ++p; return j; } bad("}"); } }
        case '[': { J j = J::arr(); ++p; ws(); if (*p == ']') { ++p; return j; }
            for (;;) { j.a.push_back(val()); ws(); if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; return j; } bad("]"); } }
        case '"': { J j{std::string{}}; ++p;
            while (p < e && *p != '"') {
                if (*p == '\\') { ++p; switch (*p) { case 'n': j.s += '\n'; break; case 't': j.s += '\t'; break; case 'r': j.s += '\r'; break; case 'b': j.s += '\b'; break; case 'f': j.s += '\f'; break;
                    case 'u': { unsigned c = (unsigned)std::strtoul(std::string(p + 1, 4).c_str(), nullptr, 16); utf8(j.s, c); p += 4; break; } default: j.s += *p; } ++p; }
                else j.s += *p++;
            }
            ++p; return j; }
        case 't': p += 4; return J(true); case 'f': p += 5; return J(false); case 'n': p += 4; return J();
        default: { char* q; J j; j.k = J::Num; j.d = std::strtod(p, &q); j.n = std::strtoll(p, nullptr, 10); if (q == p) bad("number"); p = q; return j; }
        }
    }
};
inline J parse(std::string_view s) { Parser p{s.data(), s.data() + s.size()}; return p.val(); }
inline void dump(J const& j, std::string& out) {
    switch (j.k) {
    case J::Nul: out += "null"; break; case J::Bool: out += j.b ? "true" : "false"; break;
    case J::Num: { if (j.d == (double)j.n) out += std::to_string(j.n); else { char b[40]; snprintf(b, 40, "%.17g", j.d); out += b; } break; }
    case J::Str: out += '"'; for (unsigned char c : j.s) { if (c == '"' || c == '\\') { out += '\\'; out += (char)c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); out += b; } else out += (char)c; } out += '"'; break;
    case J::Arr: { out += '['; bool f = true; for (auto& x : j.a) { if (!f) out += ','; f = false; dump(x, out); } out += ']'; break; }
    case J::Obj: { out += '{'; bool f = true; for (auto& x : j.o) { if (!f) out += ','; f = false; dump(J(x.first), out); out += ':'; dump(x.second, out); } out += '}'; break; }
    }
}
inline std::string dump(J const& j) { std::string s; dump(j, s); return s; }
// Reads one case per line from stdin, prints "@@" + result per case.
inline int serve(std::function<J(J const&)> f) {
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        J c = parse(line), r;
        try { r = f(c); } catch (std::exception const& e) { r = J::obj(); r.set("harness_exception", e.what()); }
        std::string out = "@@" + dump(r) + "\n";
        std::fwrite(out.data(), 1, out.size(), stdout); std::fflush(stdout);
    }
    return 0;
}
} // namespace vj
