#include "vj.hpp"
#include <HXLibs/container/CHashMap.hpp>
#include <memory>
#include <stdexcept>
using vj::J;
using namespace HX::container;
namespace {
enum class E16 : std::int16_t {};
enum class E8 : std::uint8_t {};
// injective maps from pool numbers to keys
struct I32 { using T = int; T operator()(int i) const { return i; } };
struct Neg { using T = long; T operator()(int i) const { return -(long)i; } };
struct Mix { using T = std::int64_t; T operator()(int i) const { return (std::int64_t)((std::uint64_t)i * 0x9E3779B97F4A7C15ull); } };
struct High { using T = std::uint64_t; T operator()(int i) const { return (std::uint64_t)i << 48; } };
struct Edge { using T = std::int64_t; T operator()(int i) const { return i % 2 ? INT64_MIN + i : INT64_MAX - i; } };
struct U8 { using T = std::uint8_t; T operator()(int i) const { return (std::uint8_t)i; } };
struct En8 { using T = E8; T operator()(int i) const { return (E8)i; } };
struct En16 { using T = E16; T operator()(int i) const { return (E16)(i - 500); } };
struct Str { using T = std::string_view; std::string s(int i) const { return i == 0 ? "" : "key" + std::to_string(i); } };
struct Pre { using T = std::string_view; std::string s(int i) const { return std::string(300, 'p') + std::to_string(i); } };
struct Bin { using T = std::string_view; std::string s(int i) const { return {(char)(i >> 8), (char)i}; } };
struct Run { using T = std::string_view; std::string s(int i) const { return std::string((std::size_t)i, 'x'); } };
std::vector<std::unique_ptr<std::string>> g_store;
template <typename F> auto key(int i) {
    if constexpr (std::is_same_v<typename F::T, std::string_view>) {
        // fresh storage for every use: equality must be by content
        g_store.push_back(std::make_unique<std::string>(F{}.s(i)));
        return std::string_view(*g_store.back());
    } else return F{}(i);
}
template <typename F, std::size_t N> J runN(J const& c) {
    using K = typename F::T; using M = CHashMap<K, int, N>;
    std::array<std::pair<K, int>, N> a{};
    for (std::size_t i = 0; i < N; ++i) a[i] = {key<F>((int)c["keys"][i].i()), (int)i + 1};
    auto m = std::make_unique<M>(a);
    M const& cm = *m; J out = J::arr();
    for (auto const& st : c["h"]) {
        std::string op = st["op"].s; auto k = key<F>((int)st["k"].i()); int v = (int)st["v"].i(); int res = -99;
        try {
            if (op == "find") { auto it = m->find(k); res = it == m->end() ? -1 : it->first == k ? it->second : -50; }
            else if (op == "cfind") { auto it = cm.find(k); res = it == cm.end() ? -1 : it->first == k ? it->second : -50; }
            else if (op == "at") res = m->at(k);
            else if (op == "cat") res = cm.at(k);
            else if (op == "setat") { int& r = m->at(k); res = r; r = v; }
            else if (op == "setfind") { auto it = m->find(k); if (it == m->end()) res = -1; else { res = it->second; it->second = v; } }
        } catch (std::out_of_range const&) { res = -1; }
        out.push(res);
    }
    // iteration covers every key once, in order
    std::size_t n = 0; bool iter = M::size() == N && !M::empty();
    for (auto const& kv : cm) { if (n >= N || !(kv.first == a[n].first)) iter = false; ++n; }
    J r = J::obj(); r.set("obs", out); r.set("iter", iter && n == N); g_store.clear(); return r;
}
template <typename F> J run(J const& c) {
    J r; std::size_t n = 0; for (auto const& k : c["keys"]) { (void)k; ++n; }
    bool hit = false;
    auto go = [&]<std::size_t... N>(std::index_sequence<N...>) { ((n == N && (r = runN<F, N>(c), hit = true)) || ...); };
    go(std::index_sequence<VF_SIZES>{});
    if (!hit) r = J();
    return r;
}
} // namespace
int main() { return vj::serve([](J const& c) { std::string t = c["type"].s;
    if (t == "i32") return run<I32>(c);
    if (t == "neg") return run<Neg>(c);
    if (t == "mix") return run<Mix>(c);
    if (t == "high") return run<High>(c);
    if (t == "edge") return run<Edge>(c);
    if (t == "u8") return run<U8>(c);
    if (t == "e8") return run<En8>(c);
    if (t == "e16") return run<En16>(c);
    if (t == "str") return run<Str>(c);
    if (t == "pre") return run<Pre>(c);
    if (t == "bin") return run<Bin>(c);
    if (t == "run") return run<Run>(c);
    return J(); }); }
