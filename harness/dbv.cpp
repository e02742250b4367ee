// A table with a column of every type; values are tokens of spec/DbValues.tla.
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
#include <unistd.h>
#include "vj.hpp"
using vj::J;
using namespace HX;
using namespace HX::db;
struct Pt { int x{}, y{}; };
struct Tag { std::string s; };
template <> struct HX::db::CustomType<Pt> {
    using Type = Pt;
    static std::string toSql(Pt const& p) { return std::string(20, ' ') + std::to_string(p.x) + "," + std::to_string(p.y); }
    static Pt fromSql(std::string_view s) { Pt p; std::sscanf(std::string(s).c_str(), "%d,%d", &p.x, &p.y); return p; }
};
template <> struct HX::db::CustomType<Tag> {
    using Type = Tag;
    static std::string const& toSql(Tag const& t) { return t.s; }
    static Tag fromSql(std::string_view s) { return {std::string{s}}; }
};
template <> struct HX::db::CustomType<HX::db::Date> {
    using Type = HX::db::Date;
    static std::string toSql(Date const& d) { std::chrono::year_month_day v{d}; char b[40]; std::snprintf(b, 40, "%04d-%02u-%02u", (int)v.year(), (unsigned)v.month(), (unsigned)v.day()); return b; }
    static Date fromSql(std::string_view s) { int y{}; unsigned m{}, d{}; std::sscanf(std::string(s).c_str(), "%d-%u-%u", &y, &m, &d); return std::chrono::sys_days{std::chrono::year{y} / std::chrono::month{m} / std::chrono::day{d}}; }
};
template <class T> using O = std::optional<T>;
#define COLS(X) \
    X(a, std::int8_t) X(b, std::int16_t) X(c, std::int32_t) X(d, std::int64_t) X(e, float) X(f, double) X(g, std::string) X(h, Blob) X(p, Pt) X(t, Tag) X(y, Date) \
    X(oa, O<std::int8_t>) X(ob, O<std::int16_t>) X(oc, O<std::int32_t>) X(od, O<std::int64_t>) X(oe, O<float>) X(of, O<double>) X(og, O<std::string>) X(oh, O<Blob>) X(op, O<Pt>) X(ot, O<Tag>) X(oy, O<Date>)
struct V {
    db::AutoIncrementPrimaryKey<std::int64_t> id;
#define X(n, t) t n;
    COLS(X)
#undef X
    db::Constraint<std::int64_t, db::attr::NotNull, db::attr::Index<>> ka;
};
using K = std::int64_t;
static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static std::string bytes(std::string const& k) {
    std::string s;
    if (k[0] == 'r') return std::string((std::size_t)std::stoi(k.substr(4)), (char)(hexv(k[1]) * 16 + hexv(k[2])));
    for (std::size_t i = 1; i + 1 < k.size(); i += 2) s += (char)(hexv(k[i]) * 16 + hexv(k[i + 1]));
    return s;
}
static std::string token(std::string_view s) {
    if (s.size() > 1 && s.find_first_not_of(s[0]) == s.npos && s.size() > 2) { char b[40]; std::snprintf(b, 40, "r%02x*%zu", (unsigned char)s[0], s.size()); return b; }
    std::string o = "x"; for (unsigned char c : s) { char b[4]; std::snprintf(b, 4, "%02x", c); o += b; } return o;
}
template <class T> T in(std::string const& k) {
    if constexpr (meta::IsOptionalVal<T>) { if (k.empty()) return std::nullopt; return in<typename T::value_type>(k); }
    else if constexpr (std::is_integral_v<T>) return (T)std::stoll(k);
    else if constexpr (std::is_same_v<T, float>) return std::strtof(k.c_str(), nullptr);
    else if constexpr (std::is_same_v<T, double>) return std::strtod(k.c_str(), nullptr);
    else if constexpr (std::is_same_v<T, std::string>) return bytes(k);
    else if constexpr (std::is_same_v<T, Blob>) { auto s = bytes(k); return Blob(s.begin(), s.end()); }
    else if constexpr (std::is_same_v<T, Pt>) { Pt p; std::sscanf(k.c_str(), "%d,%d", &p.x, &p.y); return p; }
    else if constexpr (std::is_same_v<T, Tag>) return Tag{bytes(k)};
    else return Date{std::chrono::days{std::stoi(k)}};
}
template <class T> std::string out(T const& v) {
    if constexpr (db::IsConstraintVal<T>) return out(v.get());
    else if constexpr (meta::IsOptionalVal<T>) return v ? out(*v) : "";
    else if constexpr (std::is_integral_v<T>) return std::to_string((long long)v);
    else if constexpr (std::is_floating_point_v<T>) { char b[60]; std::snprintf(b, 60, "%a", (double)v); return b; }
    else if constexpr (std::is_same_v<T, std::string>) return token(v);
    else if constexpr (std::is_same_v<T, Blob>) return token({v.data(), v.size()});
    else if constexpr (std::is_same_v<T, Pt>) return std::to_string(v.x) + "," + std::to_string(v.y);
    else if constexpr (std::is_same_v<T, Tag>) return token(v.s);
    else return std::to_string(v.time_since_epoch().count());
}
#define X(n, t) , &V::n
#define Y(n, t) , Col(&V::n)
static J names() { J j = J::arr();
#define Z(n, t) j.push(#n);
    j.push("id"); COLS(Z) j.push("ka"); return j; }
template <class R> J row(R const& r) { static J ns = names(); J j = J::obj(); int i = 0; std::apply([&](auto const&... x) { (j.set(ns[i++].str(), out(x)), ...); }, r.gets()); return j; }
using Db = db::DataBase<DbType::Sqlite3>;
static J run(Db& db, J const& e) {
    auto op = e["op"].str(); J o = J::obj(); J const& w = e["row"];
#define S(n, t) o.n = in<t>(w[#n].str());
#define L(n, t) auto v_##n = in<t>(w[#n].str());
    auto fill = [&] { V o{}; COLS(S) o.ka.val = in<K>(w["ka"].str()); return o; };
    if (op == "insert") {
        auto v = fill();
        if (e["ret"].t()) o.set("rows", J::arr().push(row(db.sqlTemplate<1>().insert(v).returning<&V::id COLS(X), &V::ka>().exec())));
        else db.sqlTemplate<2>().insert(v).exec();
    } else if (op == "update") {
        COLS(L) auto v_ka = in<K>(w["ka"].str()); K id = e["id"].i();
#define A(n, t) , v_##n
        if (e["ret"].t()) { auto r = db.sqlTemplate<3>().update<&V::ka COLS(X)>(v_ka COLS(A)).where<Col(&V::id) == db::param<K>>(id).returning<&V::id COLS(X), &V::ka>().exec(); J a = J::arr(); for (auto& x : r) a.push(row(x)); o.set("rows", a); }
        else db.sqlTemplate<4>().update<&V::ka COLS(X)>(v_ka COLS(A)).where<Col(&V::id) == db::param<K>>(id).exec();
    } else if (op == "find") {
        auto c = e["c"].str(), v = e["v"].str(); J a = J::arr();
#define F(n, t) if (c == #n) { using B = meta::RemoveOptionalWrapType<t>; for (auto& x : db.sqlTemplate<5, &V::n>().select<Col(&V::id)>().from<V>().where<Col(&V::n) == db::param<B>>(in<B>(v)).exec()) a.push((long long)x.get<0>()); }
        COLS(F) F(ka, K) o.set("ids", a);
    } else if (op == "read") {
        J a = J::arr(); for (auto& x : db.sqlTemplate<6>().select<Col(&V::id) COLS(Y), Col(&V::ka)>().from<V>().orderBy<Col(&V::id).asc()>().exec()) a.push(row(x)); o.set("rows", a);
    }
    return o;
}
int main() {
    return vj::serve([](J const& c) {
        std::string dir = "vfdbXXXXXX"; if (!::mkdtemp(dir.data())) throw std::runtime_error("mkdtemp");
        std::string file = dir + "/v.db"; J r = J::arr();
        {
            Db db; db.open(file); if (auto k = db.createDatabase<V>(); !k) throw std::runtime_error("create " + k.what());
            db.exec("PRAGMA synchronous=OFF");
            for (auto& e : c["log"]) {
                J o = J::obj();
                try { if (e["op"].str() == "reopen") { db.close(); db.open(file); db.exec("PRAGMA synchronous=OFF"); } else o = run(db, e); } catch (std::exception const& x) { o.set("error", x.what()); } catch (...) { o.set("error", "?"); }
                r.push(o);
            }
        }
        for (char const* x : {"/v.db", "/v.db-journal"}) ::unlink((dir + x).c_str());
        ::rmdir(dir.c_str());
        return r;
    });
}
