#include "vj.hpp"
#include <cstring>
#include <HXLibs/reflection/json/JsonRead.hpp>
#include <HXLibs/reflection/json/JsonWrite.hpp>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <sys/mman.h>
#include <unordered_map>
#include <variant>
using vj::J;
namespace {
enum class Color { red, green };
struct AB { int a{}; std::string b; };
struct Nest { AB x; std::vector<std::optional<AB>> y; std::map<std::string, AB> k; Color v{}; std::tuple<int, std::string> a; };
struct Tree { int v{}; std::vector<Tree> k; };
struct Chain { std::string v; std::unique_ptr<Chain> k; };
struct OneChar { char c{}; };

std::string bytes(J const& j) { std::string s; for (auto const& x : j) s += (char)(unsigned char)x.i(); return s; }
J bytesJ(std::string_view s) { J a = J::arr(); for (char c : s) a.push((int)(unsigned char)c); return a; }
// ---- typed value <-> the specification's value
template <typename T> struct V;
template <typename T> requires(std::is_integral_v<T> && !std::is_same_v<T, bool>) struct V<T> {
    static J out(T t) { return bytesJ(std::to_string(+t)); }
    static T in(J const& j) { auto s = bytes(j); if constexpr (std::is_unsigned_v<T>) return (T)std::stoull(s); else return (T)std::stoll(s); }
};
template <> struct V<bool> { static J out(bool b) { return J(b); } static bool in(J const& j) { return j.b; } };
template <typename T> requires std::is_floating_point_v<T> struct V<T> { // hexadecimal image: exact
    static J out(T t) { char b[64]; snprintf(b, sizeof b, "%a", (double)t); return J(std::string(b)); }
    static T in(J const& j) { auto s = bytes(j); if constexpr (std::is_same_v<T, float>) return std::strtof(s.c_str(), nullptr); else return std::strtod(s.c_str(), nullptr); }
};
template <> struct V<std::string> { static J out(std::string const& s) { return bytesJ(s); } static std::string in(J const& j) { return bytes(j); } };
template <> struct V<Color> { static J out(Color c) { return bytesJ(c == Color::red ? "red" : c == Color::green ? "green" : "?"); } static Color in(J const& j) { return bytes(j) == "red" ? Color::red : Color::green; } };
template <typename C> J outList(C const& c) { J a = J::arr(); for (auto const& x : c) a.push(V<typename C::value_type>::out(x)); return a; }
template <typename C> C inList(J const& j) { C c; for (auto const& x : j) c.push_back(V<typename C::value_type>::in(x)); return c; }
template <typename T> struct V<std::vector<T>> { static J out(std::vector<T> const& c) { return outList(c); } static auto in(J const& j) { return inList<std::vector<T>>(j); } };
template <typename T> struct V<std::deque<T>> { static J out(std::deque<T> const& c) { return outList(c); } static auto in(J const& j) { return inList<std::deque<T>>(j); } };
template <typename T> struct V<std::list<T>> { static J out(std::list<T> const& c) { return outList(c); } static auto in(J const& j) { return inList<std::list<T>>(j); } };
template <typename T, std::size_t N> struct V<std::array<T, N>> {
    static J out(std::array<T, N> const& c) { return outList(c); }
    static auto in(J const& j) { std::array<T, N> a{}; for (std::size_t i = 0; i < N; ++i) a[i] = V<T>::in(j[i]); return a; }
};
template <typename P> J outPtr(P const& p) { J a = J::arr(); if (p) a.push(V<std::remove_cvref_t<decltype(*p)>>::out(*p)); return a; }
inline std::size_t len(J const& j) { std::size_t n = 0; for (auto const& x : j) { (void)x; ++n; } return n; }
template <typename T> struct V<std::optional<T>> { static J out(std::optional<T> const& c) { return outPtr(c); } static std::optional<T> in(J const& j) { if (!len(j)) return {}; return V<T>::in(j[0]); } };
template <typename T> struct V<std::unique_ptr<T>> { static J out(std::unique_ptr<T> const& c) { return outPtr(c); } static std::unique_ptr<T> in(J const& j) { if (!len(j)) return {}; return std::make_unique<T>(V<T>::in(j[0])); } };
template <typename T> struct V<std::shared_ptr<T>> { static J out(std::shared_ptr<T> const& c) { return outPtr(c); } static std::shared_ptr<T> in(J const& j) { if (!len(j)) return {}; return std::make_shared<T>(V<T>::in(j[0])); } };
template <typename M> struct MapV {
    static J out(M const& m) { J a = J::arr(); for (auto const& [k, v] : m) { J p = J::arr(); p.push(bytesJ(k)); p.push(V<typename M::mapped_type>::out(v)); a.push(p); } return a; }
    static M in(J const& j) { M m; for (auto const& p : j) m[bytes(p[0])] = V<typename M::mapped_type>::in(p[1]); return m; }
};
template <typename T> struct V<std::map<std::string, T>> : MapV<std::map<std::string, T>> {};
template <typename T> struct V<std::unordered_map<std::string, T>> : MapV<std::unordered_map<std::string, T>> {};
template <typename... Ts> struct V<std::tuple<Ts...>> {
    static J out(std::tuple<Ts...> const& t) { J a = J::arr(); std::apply([&](auto const&... x) { (a.push(V<std::remove_cvref_t<decltype(x)>>::out(x)), ...); }, t); return a; }
    static auto in(J const& j) { std::tuple<Ts...> t; [&]<std::size_t... I>(std::index_sequence<I...>) { ((std::get<I>(t) = V<Ts>::in(j[I])), ...); }(std::index_sequence_for<Ts...>{}); return t; }
};
template <> struct V<AB> { static J out(AB const& x) { J a = J::arr(); a.push(V<int>::out(x.a)); a.push(V<std::string>::out(x.b)); return a; } static AB in(J const& j) { return {V<int>::in(j[0]), bytes(j[1])}; } };
template <> struct V<Nest> {
    static J out(Nest const& n) { J a = J::arr(); a.push(V<AB>::out(n.x)); a.push(V<decltype(n.y)>::out(n.y)); a.push(V<decltype(n.k)>::out(n.k)); a.push(V<Color>::out(n.v)); a.push(V<decltype(n.a)>::out(n.a)); return a; }
    static Nest in(J const& j) { Nest n; n.x = V<AB>::in(j[0]); n.y = V<decltype(n.y)>::in(j[1]); n.k = V<decltype(n.k)>::in(j[2]); n.v = V<Color>::in(j[3]); n.a = V<decltype(n.a)>::in(j[4]); return n; }
};
template <> struct V<Tree> { static J out(Tree const& t) { J a = J::arr(); a.push(V<int>::out(t.v)); a.push(outList(t.k)); return a; } static Tree in(J const& j) { return {V<int>::in(j[0]), inList<std::vector<Tree>>(j[1])}; } };
template <> struct V<Chain> { static J out(Chain const& t) { J a = J::arr(); a.push(bytesJ(t.v)); a.push(outPtr(t.k)); return a; }
    static Chain in(J const& j) { Chain c; c.v = bytes(j[0]); c.k = V<std::unique_ptr<Chain>>::in(j[1]); return c; } };
template <> struct V<OneChar> { static J out(OneChar const& t) { J a = J::arr(); a.push(bytesJ(std::to_string((int)(signed char)t.c))); return a; } static OneChar in(J const& j) { return {(char)std::stoi(bytes(j[0]))}; } };

// ---- text that ends where readable memory ends
struct Guarded {
    char* base; std::size_t cap; 
    Guarded() { cap = 1 << 16; base = (char*)::mmap(nullptr, cap + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ::mprotect(base + cap, 4096, PROT_NONE); }
    std::string_view put(std::string const& s) { char* p = base + cap - s.size(); std::memcpy(p, s.data(), s.size()); return {p, s.size()}; }
} g;
template <typename T> J read1(std::string const& text) {
    J r = J::obj();
    try { T t{}; HX::reflection::fromJson(t, g.put(text)); r.set("v", V<T>::out(t)); }
    catch (std::exception const&) { r.set("e", true); }
    return r;
}
template <typename T> J write1(J const& v) {
    J r = J::obj();
    T t = V<T>::in(v);
    // the value must not be changed by writing, and writing twice gives the same text
    std::string a, b; HX::reflection::toJson(t, a); HX::reflection::toJson(std::as_const(t), b);
    r.set("text", bytesJ(a)); r.set("same", a == b);
    try { T u{}; HX::reflection::fromJson(u, g.put(a)); r.set("v", V<T>::out(u)); } catch (std::exception const& e) { r.set("e", std::string(e.what())); }
    r.set("in", V<T>::out(t));
    return r;
}
template <typename... Ts> J each(J const& c) {
    J a = J::arr(); bool w = c["op"].s == "write";
    if (w) (a.push(write1<Ts>(c["v"])), ...); else { auto t = bytes(c["s"]); (a.push(read1<Ts>(t)), ...); }
    J r = J::obj(); r.set("r", a); return r;
}
J run(J const& c) {
    std::string t = c["t"].s;
    if (t == "int") return each<int>(c);
    if (t == "u8") return each<std::uint8_t>(c);
    if (t == "i8") return each<std::int8_t>(c);
    if (t == "i64") return each<std::int64_t, long long>(c);
    if (t == "u64") return each<std::uint64_t>(c);
    if (t == "bool") return each<bool>(c);
    if (t == "str") return each<std::string>(c);
    if (t == "dbl") return each<double>(c);
    if (t == "flt") return each<float>(c);
    if (t == "enum") return each<Color>(c);
    if (t == "lint") return each<std::vector<int>, std::deque<int>, std::list<int>>(c);
    if (t == "lstr") return each<std::vector<std::string>, std::list<std::string>>(c);
    if (t == "llint") return each<std::vector<std::vector<int>>, std::vector<std::list<int>>>(c);
    if (t == "oint") return each<std::optional<int>, std::unique_ptr<int>, std::shared_ptr<int>>(c);
    if (t == "ostr") return each<std::optional<std::string>, std::unique_ptr<std::string>>(c);
    if (t == "lobool") return each<std::vector<std::optional<bool>>, std::vector<std::unique_ptr<bool>>>(c);
    if (t == "msi") return each<std::map<std::string, int>, std::unordered_map<std::string, int>>(c);
    if (t == "mslb") return each<std::map<std::string, std::vector<std::string>>>(c);
    if (t == "tis") return each<std::tuple<int, std::string>>(c);
    if (t == "ttb") return each<std::tuple<std::tuple<int, std::string>, std::optional<int>, std::uint8_t>>(c);
    if (t == "arr") return each<std::array<int, 2>>(c);
    if (t == "ab") return each<AB>(c);
    if (t == "nest") return each<Nest>(c);
    if (t == "tree") return each<Tree>(c);
    if (t == "chain") return each<Chain>(c);
    if (t == "chr") return each<OneChar>(c);
    return J();
}
} // namespace
int main() { return vj::serve(run); }
