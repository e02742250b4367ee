// Tables of spec/Db.tla; a generated file supplies the statements.
#pragma once
#include <HXLibs/db/sqlite3/SqliteDB.hpp>
#include <unistd.h>
#include <filesystem>
#include "vj.hpp"
using vj::J;
using namespace HX;
using namespace HX::db;
using namespace HX::meta::fixed_string_literals;
struct A {
    db::AutoIncrementPrimaryKey<std::int64_t> id;
    std::int32_t n;
    std::optional<std::int32_t> m;
    std::string s;
    double d;
    db::Constraint<std::int32_t, db::attr::Unique> u;
    db::Constraint<std::int32_t, db::attr::DefaultVal<7>> k;
    db::Constraint<std::string, db::attr::DefaultVal<"lo'l\"i"_fs>> t;
};
struct B {
    inline static constexpr std::string_view TableName = "TableOfB";
    db::PrimaryKey<std::int64_t> id;
    db::Constraint<std::int64_t, db::attr::Index<>> aid;
    std::optional<std::string> v;
    std::int32_t w;
    db::Constraint<std::optional<std::int32_t>, db::attr::NotNull> q;
};
using Db = db::DataBase<DbType::Sqlite3>;
// values: [] is null, [n] a number (doubles in 4096ths), [0, bytes...] a text
template <class T> T in(J const& v) {
    if constexpr (meta::IsOptionalVal<T>) { if (!v.size()) return std::nullopt; return in<typename T::value_type>(v); }
    else if constexpr (std::is_same_v<T, std::string>) { std::string s; for (std::size_t i = 1; i < v.size(); ++i) s += (char)v[i].i(); return s; }
    else if constexpr (std::is_same_v<T, double>) return (double)v[0].i() / 4096;
    else return static_cast<T>(v[0].i());
}
template <class T> J out(T const& v) {
    J r = J::arr();
    if constexpr (db::IsConstraintVal<T>) return out(v.get());
    else if constexpr (meta::IsOptionalVal<T>) { if (v) return out(*v); }
    else if constexpr (std::is_same_v<T, std::string>) { r.push(0); for (unsigned char c : v) r.push((int)c); }
    else if constexpr (std::is_same_v<T, double>) r.push(v * 4096);
    else r.push((long long)v);
    return r;
}
template <class R> J row(R const& r) { J j = J::arr(); std::apply([&](auto const&... x) { (j.push(out(x)), ...); }, r.gets()); return j; }
template <class R> J rows(std::vector<R> const& v) { J j = J::arr(); for (auto& x : v) j.push(row(x)); return j; }
inline J good() { return J::obj().set("ok", true); }
inline J bad(std::string w) { return J::obj().set("ok", false).set("what", std::move(w)); }
// an independent reader
struct Raw {
    ::sqlite3* db{};
    Raw(std::string const& f) { if (::sqlite3_open(f.c_str(), &db) != SQLITE_OK) throw std::runtime_error("raw open"); }
    ~Raw() { ::sqlite3_close(db); }
    int exec(char const* q) { return ::sqlite3_exec(db, q, nullptr, nullptr, nullptr); }
    J table(char const* q) {
        ::sqlite3_stmt* st{}; if (::sqlite3_prepare_v2(db, q, -1, &st, nullptr) != SQLITE_OK) { J r = J::obj(); r.set("error", ::sqlite3_errmsg(db)); return r; }
        J r = J::arr(); int rc;
        while ((rc = ::sqlite3_step(st)) == SQLITE_ROW) {
            J x = J::arr();
            for (int i = 0; i < ::sqlite3_column_count(st); ++i) {
                J v = J::arr();
                switch (::sqlite3_column_type(st, i)) {
                case SQLITE_INTEGER: v.push((long long)::sqlite3_column_int64(st, i)); break;
                case SQLITE_FLOAT: v.push(::sqlite3_column_double(st, i) * 4096); break;
                case SQLITE_TEXT: { v.push(0); auto* p = ::sqlite3_column_text(st, i); int n = ::sqlite3_column_bytes(st, i); for (int k = 0; k < n; ++k) v.push((int)p[k]); break; }
                case SQLITE_BLOB: v.push("blob"); break;
                default: break;
                }
                x.push(v);
            }
            r.push(x);
        }
        ::sqlite3_finalize(st);
        if (rc != SQLITE_DONE) { J e = J::obj(); e.set("error", rc); return e; }
        return r;
    }
};
using Statement = J (*)(Db&, J const& ps, J const& vals);
extern Statement const statements[];
inline int serveDb() {
    return vj::serve([](J const& c) {
        std::string dir = "vfdbXXXXXX"; if (!::mkdtemp(dir.data())) throw std::runtime_error("mkdtemp");
        std::string file = dir + "/x.db"; J r = J::arr();
        {
            Db db; db.open(file); db.exec("PRAGMA synchronous=OFF"); std::optional<Raw> raw; raw.emplace(file); bool locked = false;
            for (auto& e : c["log"]) {
                auto op = e["op"].str(); J o = good();
                try {
                    if (op == "create") { auto a = db.createDatabase<A>(); auto b = db.createDatabase<B>(); if (!a) o = bad(a.what()); if (!b) o = bad(b.what()); }
                    else if (op == "drop") { db.exec("DROP TABLE A"); db.exec("DROP TABLE TableOfB"); }
                    else if (op == "reopen") { // goes on with a copy of the file
                        db.close(); std::string to = dir + "/" + std::to_string(r.size()) + ".db"; raw.reset(); std::filesystem::copy_file(file, to); std::filesystem::remove(file); file = to; raw.emplace(file);
                        db.open(file); db.exec("PRAGMA synchronous=OFF"); }
                    else if (op == "lock") { if (raw->exec(e["lock"].str() == "imm" ? "BEGIN IMMEDIATE" : "BEGIN EXCLUSIVE") != SQLITE_OK) o = bad("lock not free"); locked = true; }
                    else if (op == "unlock") { raw->exec("ROLLBACK"); locked = false; }
                    else o = statements[e["st"].i() - 1](db, e["ps"], e["vals"]);
                } catch (std::exception const& x) { o = bad(x.what()); } catch (...) { o = bad("thrown: not an exception"); o.set("odd", true); }
                // no lock may be left behind by the statement
                if (!locked) { if (raw->exec("BEGIN EXCLUSIVE") != SQLITE_OK) o.set("held", true); else raw->exec("ROLLBACK"); }
                if (op == "run") o.set("tab", raw->table(e["tb"].str() == "A" ? "SELECT id,n,m,s,d,u,k,t FROM A" : "SELECT id,aid,v,w,q FROM TableOfB"));
                r.push(o);
            }
        }
        std::filesystem::remove_all(dir);
        return r;
    });
}
