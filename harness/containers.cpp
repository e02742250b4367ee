#include "vj.hpp"
#include <HXLibs/container/CoSharedPtr.hpp>
#include <HXLibs/container/UninitializedNonVoidVariant.hpp>
#include <HXLibs/container/Uninitialized.hpp>
#include <HXLibs/container/Try.hpp>
#include <set>
#include <stdexcept>
#include <optional>
using vj::J;
using namespace HX::container;
namespace {
int g_dead[64]; int g_live; // destructions per object id; constructed minus destroyed instances
struct alignas(64) Tracked {
    int id; Tracked* self;
    explicit Tracked(int i) : id(i), self(this) { ++g_live; }
    Tracked(Tracked&& o) noexcept : id(o.id), self(this) { o.id = 0; ++g_live; }
    Tracked(Tracked const& o) : id(o.id), self(this) { ++g_live; }
    ~Tracked() { if (self != this) g_dead[63]++; --g_live; if (id > 0) ++g_dead[id]; id = -7777; }
};
using SP = CoSharedPtr<Tracked>;
J sharedPtr(J const& c) {
    int np = (int)c["np"].i(), no = (int)c["no"].i();
    for (auto& d : g_dead) d = 0;
    int live0 = g_live;
    J out = J::arr();
    {
        std::vector<std::optional<SP>> s((std::size_t)np + 1);
        for (auto const& st : c["h"]) {
            std::string op = st["op"].s; auto p = (std::size_t)st["p"].i(), q = (std::size_t)st["q"].i(); int id = (int)q;
            if (op == "make") s[p].emplace(makeCoSharedPtr<Tracked>(id));
            else if (op == "ctor") s[p].emplace(Tracked{id});
            else if (op == "default") s[p].emplace();
            else if (op == "nullptr") s[p].emplace(nullptr);
            else if (op == "copyctor") s[p].emplace(std::as_const(*s[q]));
            else if (op == "movector") s[p].emplace(std::move(*s[q]));
            else if (op == "copyassign") *s[p] = std::as_const(*s[q]);
            else if (op == "moveassign") *s[p] = std::move(*s[q]);
            else if (op == "swap") s[p]->swap(*s[q]);
            else if (op == "assignnull") *s[p] = nullptr;
            else if (op == "reset") s[p]->reset(Tracked{id});
            else if (op == "destroy") s[p].reset();
            J o = J::obj(), ref = J::arr(), use = J::arr(), dead = J::arr();
            bool coherent = true;
            for (std::size_t i = 1; i <= (std::size_t)np; ++i) {
                if (!s[i]) { ref.push(-1); use.push(0); continue; }
                SP& x = *s[i]; SP const& cx = x;
                if ((bool)x != (x.get() != nullptr) || x.get() != cx.get()) coherent = false;
                if (x && (&*x != x.get() || x.operator->() != x.get() || x->self != x.get() || (std::uintptr_t)x.get() % 64)) coherent = false;
                for (std::size_t k = 1; k <= (std::size_t)np; ++k) if (s[k]) { bool e = x.get() == s[k]->get(); if ((x == *s[k]) != e || (x != *s[k]) == e) coherent = false; }
                ref.push(x ? x->id : 0); use.push(x.useCount());
            }
            for (int i = 1; i <= no; ++i) dead.push(g_dead[i]);
            o.set("ref", ref); o.set("use", use); o.set("dead", dead); if (!coherent || g_dead[63]) o.set("incoherent", true);
            out.push(o);
        }
    }
    J r = J::obj(); r.set("obs", out); r.set("leak", g_live - live0);
    return r;
}
// ------------------------------------------------------------------ value containers (spec Variant.tla)
std::set<void const*> g_at; bool g_torn; // addresses of living objects; double construction or destruction seen
struct Boom { int v; };
template <int K> struct Tag { int v; bool thr; };
template <int K> struct Cell { // K: alternative; copies of K == 1 throw when g_copyThrows
    int v;
    inline static bool copyThrows = false;
    void born() { if (!g_at.insert(this).second) g_torn = true; }
    explicit Cell(Tag<K> t) : v(t.v) { if (t.thr) throw Boom{t.v}; born(); }
    Cell(Cell const& o) : v(o.v) { o.check(); if (copyThrows) throw Boom{o.v}; born(); }
    Cell(Cell&& o) noexcept : v(o.v) { o.check(); o.v = 0; born(); }
    Cell& operator=(Cell const& o) { check(); o.check(); v = o.v; return *this; }
    Cell& operator=(Cell&& o) noexcept { check(); o.check(); if (this != &o) { v = o.v; o.v = 0; } return *this; }
    bool operator==(Cell const& o) const noexcept { return v == o.v; }
    void check() const { if (!g_at.count(this)) g_torn = true; }
    ~Cell() { if (!g_at.erase(this)) g_torn = true; v = -7777; }
};
using CA = Cell<0>; using CB = Cell<1>;
struct PTag { int v; };
struct PP { int v; PP() = default; PP(PTag t) : v(t.v) {} bool operator==(PP const& o) const noexcept { return v == o.v; } };
static_assert(std::is_trivial_v<PP>);
using VV = UninitializedNonVoidVariant<CA, CB, void>;
using VD = UninitializedNonVoidVariant<CA, CB, void, CA>;
using VT = UninitializedNonVoidVariant<int, PP, void>;
int idOf(int x) { return x; }
int idOf(PP const& x) { return x.v; }
int idOf(NonVoidHelper<void> const&) { return 0; }
template <int K> int idOf(Cell<K> const& c) { c.check(); return c.v; }

template <typename V> struct VarOps {
    static constexpr bool conv = !std::is_same_v<V, VD>;
    template <typename F> static void mk(int a, int v, bool thr, F&& f) { // f(integral_constant<alternative>, args...)
        using std::integral_constant;
        if constexpr (std::is_same_v<V, VT>) {
            if (a == 0) f(integral_constant<std::size_t, 0>{}, v); else if (a == 1) f(integral_constant<std::size_t, 1>{}, PTag{v}); else f(integral_constant<std::size_t, 2>{});
        } else {
            if (a == 0) f(integral_constant<std::size_t, 0>{}, Tag<0>{v, thr});
            else if (a == 1) f(integral_constant<std::size_t, 1>{}, Tag<1>{v, thr});
            else if (a == 2) f(integral_constant<std::size_t, 2>{});
            else if constexpr (std::is_same_v<V, VD>) f(integral_constant<std::size_t, 3>{}, Tag<0>{v, thr});
        }
    }
    template <std::size_t I> using Alt = UninitializedNonVoidVariantIndexToType<I, V>;
    static int apply(std::vector<std::optional<V>>& s, std::string const& op, std::size_t p, std::size_t q, int a, int v, bool thr) {
        if (op == "default") s[p].emplace();
        else if (op == "value" || op == "assignval") {
            if constexpr (conv) mk(a, v, thr, [&](auto I, auto... x) {
                if constexpr (sizeof...(x) == 1) {
                    // alternate between converting from a maker and from a ready value
                    if ((v % 2) && !thr) { internalT<decltype(I)::value> t(x...); if (op == "value") s[p].emplace(std::move(t)); else *s[p] = std::move(t); }
                    else if (op == "value") s[p].emplace(x...); else *s[p] = (x, ...);
                }
            });
        }
        else if (op == "emplace") mk(a, v, thr, [&](auto I, auto... x) { auto& r = s[p]->template emplace<decltype(I)::value>(x...); if (idOf(r) != (sizeof...(x) ? v : 0)) g_torn = true; });
        else if (op == "emplacet") mk(a, v, thr, [&](auto I, auto... x) { s[p]->template emplace<internalT<decltype(I)::value>>(x...); });
        else if (op == "copyctor" || op == "copyassign") {
            CB::copyThrows = thr;
            struct R { ~R() { CB::copyThrows = false; } } r;
            if (op == "copyctor") s[p].emplace(std::as_const(*s[q])); else *s[p] = std::as_const(*s[q]);
        }
        else if (op == "movector") s[p].emplace(std::move(*s[q]));
        else if (op == "moveassign") *s[p] = std::move(*s[q]);
        else if (op == "swap") s[p]->swap(*s[q]);
        else if (op == "reset") s[p]->reset();
        else if (op == "destroy") s[p].reset();
        return 0;
    }
    template <std::size_t I> using internalT0 = std::conditional_t<std::is_same_v<V, VT>,
        std::conditional_t<I == 0, int, std::conditional_t<I == 1, PP, NonVoidHelper<void>>>,
        std::conditional_t<I == 1, CB, std::conditional_t<I == 2, NonVoidHelper<void>, CA>>>;
    template <std::size_t I> using internalT = internalT0<I>;
    static J look(V& x) {
        J o = J::obj(); bool ok = true; int a = -1, v = 0;
        V const& cx = x;
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            ([&] {
                bool here = false, cHere = false, gHere = false;
                try { v = idOf(x.template get<I>()); here = true; } catch (std::runtime_error const&) {}
                try { int w = idOf(cx.template get<I>()); cHere = w == v; } catch (std::runtime_error const&) {}
                try { int w = idOf(HX::container::get<I>(x)); gHere = w == v; } catch (std::runtime_error const&) {}
                if (here != cHere || here != gHere || here != (x.index() == I)) ok = false;
                if (here) { if (a != -1) ok = false; a = (int)I; }
            }(), ...);
        }(std::make_index_sequence<V::N>{});
        // access by type: the first alternative of that type
        auto byType = [&]<typename T>(T*) { try { int w = idOf(x.template get<T>()); return w == v ? 1 : -1; } catch (std::runtime_error const&) { return 0; } };
        if constexpr (std::is_same_v<V, VT>) { if (byType((int*)0) != (a == 0) || byType((PP*)0) != (a == 1)) ok = false; }
        else { if (byType((CA*)0) != (a == 0) || byType((CB*)0) != (a == 1)) ok = false; }
        if ((a == -1) != (x.index() == UninitializedNonVoidVariantNpos)) ok = false;
        // visiting reaches exactly the stored value
        try { int w = HX::container::visit([](auto&& y) { return idOf(y); }, x); if (a == -1 || w != v) ok = false; } catch (std::runtime_error const&) { if (a != -1) ok = false; }
        try { int w = HX::container::visit([](auto&& y) { return idOf(y); }, cx); if (a == -1 || w != v) ok = false; } catch (std::runtime_error const&) { if (a != -1) ok = false; }
        o.set("a", a); o.set("v", v); if (!ok) o.set("incoherent", true);
        return o;
    }
    static bool pairs(V& x, V& y, J const& ox, J const& oy) {
        bool e = ox["a"].i() == oy["a"].i() && ox["v"].i() == oy["v"].i();
        return (x == y) == e && (x != y) != e;
    }
};
struct Exc { int v; };
template <typename T> struct TryOps { // Try<CB> / Try<void>
    using V = Try<T>; static constexpr bool conv = true;
    static constexpr bool isVoid = std::is_void_v<T>;
    static int apply(std::vector<std::optional<V>>& s, std::string const& op, std::size_t p, std::size_t q, int a, int v, bool thr) {
        auto ex = [&] { return std::make_exception_ptr(Exc{v}); };
        if (op == "default") s[p].emplace();
        else if (op == "value") {
            if (a == 1) s[p].emplace(ex());
            else if constexpr (!isVoid) { if (v % 2) { CB b(Tag<1>{v, thr}); s[p].emplace(std::move(b)); } else { CB b(Tag<1>{v, thr}); s[p].emplace(b); } }
        }
        else if (op == "emplace") {
            if (a == 1) s[p]->setException(ex());
            else if constexpr (isVoid) s[p]->setVal(NonVoidHelper<void>{}); else s[p]->setVal(Tag<1>{v, thr});
        }
        else if (op == "movector") s[p].emplace(std::move(*s[q]));
        else if (op == "moveassign") *s[p] = std::move(*s[q]);
        else if (op == "reset") s[p]->reset();
        else if (op == "destroy") s[p].reset();
        else if (op == "take") { try { auto r = s[p]->move(); return idOf(r); } catch (std::runtime_error const&) { return -1; } }
        return 0;
    }
    static J look(V& x) {
        J o = J::obj(); bool ok = true; int a = -1, v = 0; V const& cx = x;
        try { v = idOf(x.get()); a = 0; if (idOf(cx.get()) != v) ok = false; } catch (std::runtime_error const&) {
            try { (void)cx.get(); ok = false; } catch (std::runtime_error const&) {}
        }
        try {
            auto e = x.exception(); if (a != -1) ok = false; a = 1;
            if (e) {
                try { std::rethrow_exception(e); } catch (Exc const& y) { v = y.v; } catch (...) { ok = false; }
                try { x.rethrow(); ok = false; } catch (Exc const& y) { if (y.v != v) ok = false; }
                if (x.what() != "unknown exception type") ok = false;
            }
        } catch (std::runtime_error const&) { try { x.rethrow(); ok = false; } catch (std::runtime_error const&) {} }
        if (x.isVal() != (a == 0) || (bool)x != (a == 0)) ok = false;
        o.set("a", a); o.set("v", v); if (!ok) o.set("incoherent", true);
        return o;
    }
    static bool pairs(V&, V&, J const&, J const&) { return true; }
};
struct UninitOps {
    using V = Uninitialized<CB>; static constexpr bool conv = false;
    static int apply(std::vector<std::optional<V>>& s, std::string const& op, std::size_t p, std::size_t q, int, int v, bool thr) {
        if (op == "default") s[p].emplace();
        else if (op == "emplace") s[p]->set(Tag<1>{v, thr});
        else if (op == "movector") s[p].emplace(std::move(*s[q]));
        else if (op == "moveassign") *s[p] = std::move(*s[q]);
        else if (op == "destroy") s[p].reset();
        else if (op == "take") { auto r = s[p]->move(); return idOf(r); }
        return 0;
    }
    static J look(V& x) {
        J o = J::obj(); int a = x.isAvailable() ? 0 : -1, v = 0; bool ok = true;
        if (a == 0) { v = idOf(x.get()); if (idOf(std::as_const(x).get()) != v) ok = false; }
        o.set("a", a); o.set("v", v); if (!ok) o.set("incoherent", true);
        return o;
    }
    static bool pairs(V&, V&, J const&, J const&) { return true; }
};
template <typename Ops, typename V> J valueHistory(J const& c) {
    int np = (int)c["np"].i(); J out = J::arr(); g_torn = false; g_at.clear();
    {
        std::vector<std::optional<V>> s((std::size_t)np + 1);
        for (auto const& st : c["h"]) {
            int ret;
            try { ret = Ops::apply(s, st["op"].s, (std::size_t)st["p"].i(), (std::size_t)st["q"].i(), (int)st["a"].i(), (int)st["v"].i(), st["thr"].b); }
            catch (Boom const&) { ret = -1; }
            J o = J::obj(), sl = J::arr(); bool ok = true;
            std::vector<J> seen((std::size_t)np + 1);
            for (std::size_t i = 1; i <= (std::size_t)np; ++i) {
                J x = J::obj();
                if (!s[i]) { x.set("a", -2); x.set("v", 0); } else x = Ops::look(*s[i]);
                seen[i] = x; sl.push(x);
            }
            for (std::size_t i = 1; i <= (std::size_t)np; ++i) for (std::size_t k = 1; k <= (std::size_t)np; ++k)
                if (s[i] && s[k] && !Ops::pairs(*s[i], *s[k], seen[i], seen[k])) ok = false;
            o.set("s", sl); o.set("live", (std::int64_t)g_at.size()); o.set("ret", ret);
            if (!ok) o.set("unequal", true); if (g_torn) o.set("torn", true);
            out.push(o);
        }
    }
    J r = J::obj(); r.set("obs", out); r.set("leak", (std::int64_t)g_at.size() + (g_torn ? 1000 : 0));
    return r;
}
J values(J const& c) {
    std::string f = c["fl"].s;
    if (f == "variant") return valueHistory<VarOps<VV>, VV>(c);
    if (f == "dup") return valueHistory<VarOps<VD>, VD>(c);
    if (f == "trivial") return valueHistory<VarOps<VT>, VT>(c);
    if (f == "uninit") return valueHistory<UninitOps, Uninitialized<CB>>(c);
    if (f == "try") return valueHistory<TryOps<CB>, Try<CB>>(c);
    return valueHistory<TryOps<void>, Try<void>>(c);
}
} // namespace
int main() { return vj::serve([](J const& c) { std::string k = c["kind"].s;
    if (k == "sharedptr") return sharedPtr(c);
    if (k == "values") return values(c);
    return J(); }); }
