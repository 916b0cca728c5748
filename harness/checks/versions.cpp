/* Multi-versioning: every sequence of insertions of up to three transactions; after each of them, every transaction runs
 * every kind of query.  Reading changes nothing, so this covers every interleaving of reads and writes. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include "common/sqlkit.hpp"
#include <mutable/catalog/TableFactory.hpp>
#include <mutable/catalog/Scheduler.hpp>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>

using namespace m; using u64 = uint64_t;
static sqlkit::Engine &E() { static sqlkit::Engine e; return e; }
using Rows = std::vector<std::string>;
static sqlkit::Result run(const std::string &sql, Scheduler::Transaction &t) {
    auto &e = E(); sqlkit::Result R; e.out.str(""); e.err.str(""); e.diag.clear();
    try {
        auto cmd = command_from_string(e.diag, sql); if (not cmd or e.diag.num_errors()) { R.error = e.err.str(); Catalog::Get().timer().clear(); return R; }
        cmd->transaction(&t); sqlkit::CaptureCout cap; cmd->execute(e.diag); R.error = e.err.str(); R.ok = e.diag.num_errors() == 0 and R.error.empty();
        std::istringstream is(cap.oss.str()); for (std::string l; std::getline(is, l); ) R.rows.push_back(l);
    } catch (const std::exception &x) { R.error = std::string("EXCEPTION: ") + x.what() + " | " + e.err.str(); }
    Catalog::Get().timer().clear(); return R;
}
struct Row { int k; bool s_null; std::string s; int64_t ts; };
static std::string q(const Row &r) { return r.s_null ? "NULL" : "\"" + r.s + "\""; }

/* The queries with the rows they must give for the visible rows of T (in insertion order) and U = { 1, 2, 5 }. */
struct Ask { const char *sql; bool ordered; std::function<Rows(const std::vector<Row>&)> want; };
static std::vector<Ask> queries() {
    std::vector<Ask> Q; const std::vector<int> U = { 1, 2, 5 };
    auto ks = [](const std::vector<Row> &v) { Rows r; for (auto &x : v) r.push_back(std::to_string(x.k)); return r; };
    Q.push_back({ "SELECT k FROM T;", false, ks });
    Q.push_back({ "SELECT * FROM T;", false, [](auto &v) { Rows r; for (auto &x : v) r.push_back(std::to_string(x.k) + "," + q(x)); return r; } });
    Q.push_back({ "SELECT x.k FROM T AS x;", false, ks });
    Q.push_back({ "SELECT x.k, x.s FROM T AS x WHERE x.k > 1;", false, [](auto &v) { Rows r; for (auto &x : v) if (x.k > 1) r.push_back(std::to_string(x.k) + "," + q(x)); return r; } }); 
    Q.push_back({ "SELECT k FROM T WHERE k > 1 OR ISNULL(s);", false, [](auto &v) { Rows r; for (auto &x : v) if (x.k > 1 or x.s_null) r.push_back(std::to_string(x.k)); return r; } });
    Q.push_back({ "SELECT a.k, b.k FROM T AS a, T AS b WHERE a.k < b.k;", false, [](auto &v) { Rows r; for (auto &a : v) for (auto &b : v) if (a.k < b.k) r.push_back(std::to_string(a.k) + "," + std::to_string(b.k)); return r; } });
    Q.push_back({ "SELECT a.k, T.k FROM T AS a, T WHERE a.k = T.k;", false, [](auto &v) { Rows r; for (auto &a : v) for (auto &b : v) if (a.k == b.k) r.push_back(std::to_string(a.k) + "," + std::to_string(b.k)); return r; } });
    Q.push_back({ "SELECT T.k, U.v FROM T, U WHERE T.k = U.v;", false, [U](auto &v) { Rows r; for (auto &a : v) for (int u : U) if (a.k == u) r.push_back(std::to_string(a.k) + "," + std::to_string(u)); return r; } });
    Q.push_back({ "SELECT COUNT(), MAX(k) FROM T;", false, [](auto &v) { int m = -1; for (auto &x : v) m = std::max(m, x.k); return Rows{ std::to_string(v.size()) + "," + (v.empty() ? "NULL" : std::to_string(m)) }; } });
    Q.push_back({ "SELECT s, COUNT() FROM T GROUP BY s;", false, [](auto &v) { std::map<std::string, int> g; for (auto &x : v) ++g[q(x)]; Rows r; for (auto &[s, n] : g) r.push_back(s + "," + std::to_string(n)); return r; } });
    Q.push_back({ "SELECT n.k FROM (SELECT k FROM T) AS n;", false, ks });
    Q.push_back({ "SELECT n.k FROM (SELECT m.k FROM (SELECT a.k FROM T AS a) AS m WHERE m.k > 0) AS n;", false, ks });
    Q.push_back({ "SELECT T.k, n.j FROM T, (SELECT k AS j FROM T) AS n WHERE T.k = n.j;", false, [](auto &v) { Rows r; for (auto &a : v) for (auto &b : v) if (a.k == b.k) r.push_back(std::to_string(a.k) + "," + std::to_string(b.k)); return r; } });
    Q.push_back({ "SELECT n.c FROM (SELECT COUNT() AS c FROM T) AS n;", false, [](auto &v) { return Rows{ std::to_string(v.size()) }; } });
    Q.push_back({ "SELECT U.v FROM U, (SELECT MAX(T.k) AS m FROM T) AS n WHERE U.v = n.m;", false, [U](auto &v) { int m = -1; for (auto &x : v) m = std::max(m, x.k); Rows r; for (int u : U) if (u == m) r.push_back(std::to_string(u)); return r; } });
    Q.push_back({ "SELECT U.v FROM U, (SELECT COUNT() AS c FROM T WHERE T.k > 1) AS n WHERE U.v = n.c;", false, [U](auto &v) { int m = 0; for (auto &x : v) m += x.k > 1; Rows r; for (int u : U) if (u == m) r.push_back(std::to_string(u)); return r; } });
    Q.push_back({ "SELECT k FROM T ORDER BY k DESC LIMIT 2;", true, [](auto &v) { std::vector<int> k; for (auto &x : v) k.push_back(x.k); std::sort(k.rbegin(), k.rend()); if (k.size() > 2) k.resize(2); Rows r; for (int x : k) r.push_back(std::to_string(x)); return r; } });
    return Q;
}
static const int64_t STARTS[][3] = { { 0, 1, 2 }, { 2, 1, 0 }, { 7, 1000000000000, 8 }, { 0, 4611686018427387904, 9223372036854775806 } };
static const char *LAYOUTS[] = { "PAX4M", "Row" };

int main(int argc, char **argv)
{
    mc::Check C("C25", "model_checking", argc, argv);
    const bool T = C.thorough; const unsigned L = T ? 4 : 3;
    C.rule = "one outcome per sequence of insertions (INSERT of one or two rows, IMPORT) by three transactions, with three orders of their start times and two data layouts; after every insertion every transaction runs 17 queries (scans, aliases, joins, grouping, nested queries) that must see exactly the rows of transactions started no later";
    C.assumptions = { "UPDATE and DELETE are not implemented by the system, so versions end only through the storage API (phase \"ended versions\"); transactions are not rolled back (documented TODO)", "commands are executed directly on behalf of a transaction, in every order; the serial scheduler (C18) admits a subset of these" };
    { auto &Cat = Catalog::Get(); std::unique_ptr<TableFactory> f = std::make_unique<ConcreteTableFactory>(); Cat.table_factory(Cat.apply_table_property(Cat.pool("multi-versioning"), std::move(f))); }
    static const auto Q = queries();
    u64 n = 1; for (unsigned k = 0; k != L; ++k) n *= 9;
    C.explore("histories", n * 4 * 2, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); const int st = int(d.next(4)), lay = int(d.next(2)); std::vector<int> ops; for (unsigned k = 0; k != L; ++k) ops.push_back(int(d.next(9)));
        auto &Cat = Catalog::Get(); Cat.default_data_layout(Cat.pool(LAYOUTS[lay])); E().use_fresh_db();
        Scheduler::Transaction ddl; ddl.start_time(0); Scheduler::Transaction tx[3]; for (int k = 0; k != 3; ++k) tx[k].start_time(STARTS[st][k]);
        std::string text = "starts"; for (auto s : STARTS[st]) text += " " + std::to_string(s); text += std::string(" ") + LAYOUTS[lay];
        for (auto s : { "CREATE TABLE T (k INT(4) NOT NULL, s CHAR(3));", "CREATE TABLE U (v INT(4));", "INSERT INTO U VALUES (1), (2), (5);" }) if (auto r = run(s, ddl); not r.ok) return W.fail("setup", std::string(s) + ": " + r.error);
        std::vector<Row> all; int next = 1;
        auto row = [&](int64_t ts) { Row r{ next, next % 3 == 0, next % 2 ? "ab" : "c", ts }; ++next; all.push_back(r); return r; };
        for (unsigned k = 0; k != L; ++k) {
            const int who = ops[k] % 3, kind = ops[k] / 3; const auto ts = STARTS[st][who]; std::string sql;
            char f[] = "/tmp/verif_ver_XXXXXX";
            if (kind == 0) { auto r = row(ts); sql = "INSERT INTO T VALUES (" + std::to_string(r.k) + ", " + q(r) + ");"; }
            else if (kind == 1) { auto a = row(ts), b = row(ts); sql = "INSERT INTO T VALUES (" + std::to_string(a.k) + ", " + q(a) + "), (" + std::to_string(b.k) + ", " + q(b) + ");"; }
            else { const int fd = mkstemp(f); std::string c; for (int z = 0; z != 2; ++z) { auto r = row(ts); c += std::to_string(r.k) + "," + (r.s_null ? "" : r.s) + "\n"; } if (fd < 0 or write(fd, c.data(), c.size()) != ssize_t(c.size())) return W.fail("harness", "file"); close(fd); sql = std::string("IMPORT INTO T DSV \"") + f + "\";"; }
            text += "; t" + std::to_string(who) + ": " + (kind == 2 ? "IMPORT of 2 rows" : sql);
            W.describe("history :: " + text); auto r = run(sql, tx[who]); if (kind == 2) unlink(f); W.transitions();
            if (not r.ok) return W.fail("insertion", text + ": " + r.error);
            bool first = true; for (unsigned z = k + 1; z < L; ++z) first &= ops[z] == 0; if (not first) continue; // every prefix is read once
            for (int reader = 0; reader != 3; ++reader) {
                std::vector<Row> vis; for (auto &x : all) if (x.ts <= STARTS[st][reader]) vis.push_back(x);
                for (auto &query : Q) {
                    W.describe("history :: " + text + "; t" + std::to_string(reader) + ": " + query.sql); auto r = run(query.sql, tx[reader]); W.transitions();
                    auto want = query.want(vis); if (not query.ordered) { std::sort(want.begin(), want.end()); std::sort(r.rows.begin(), r.rows.end()); }
                    if (not r.ok) return W.fail(std::string("query: ") + query.sql, text + "; t" + std::to_string(reader) + ": " + query.sql + " fails: " + r.error);
                    if (r.rows != want) return W.fail(std::string("snapshot: ") + query.sql, text + "; t" + std::to_string(reader) + ": " + query.sql + " gives " + sqlkit::join_rows(r.rows) + " instead of " + sqlkit::join_rows(want));
                }
            }
            W.states(); W.evals(); W.outcome(text);
        }
        for (auto s : { "SELECT $ts_begin FROM T;", "SELECT T.$ts_end FROM T;", "INSERT INTO T VALUES (1, \"a\", 5, 5);", "INSERT INTO T VALUES (1);" }) { W.describe(std::string("hidden :: ") + s); if (auto r = run(s, tx[0]); r.ok or r.error.empty()) return W.fail("hidden", std::string(s) + (r.ok ? " is accepted" : " fails with " + r.error)); }
    }, 4);
    /* Versions that have ended: the system has no statement for it, but whoever writes the store through the API can end them. */
    static const int64_t B[] = { 0, 1, 4, 7, 1000000000000 }, N[] = { -1, 1, 4, 5, 8, 1000000000001 }, RD[] = { 0, 1, 3, 4, 5, 7, 8, 1000000000000, 1000000000001, 9223372036854775806 };
    const u64 nv = 5 * 6;
    C.explore("ended versions", nv * nv * 2 * (T ? nv : 1), [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); const int lay = int(d.next(2)); std::vector<std::pair<int64_t, int64_t>> v; for (int k = 0; k != (T ? 3 : 2); ++k) { auto b = B[d.next(5)]; auto n = N[d.next(6)]; v.push_back({ b, n }); }
        auto &Cat = Catalog::Get(); Cat.default_data_layout(Cat.pool(LAYOUTS[lay])); E().use_fresh_db();
        Scheduler::Transaction ddl; ddl.start_time(0);
        for (auto s : { "CREATE TABLE T (k INT(4) NOT NULL, s CHAR(3));", "CREATE TABLE U (v INT(4));", "INSERT INTO U VALUES (1), (2), (5);" }) if (auto r = run(s, ddl); not r.ok) return W.fail("setup", std::string(s) + ": " + r.error);
        auto &table = Cat.get_database_in_use().get_table(Cat.pool("T")); std::string text = LAYOUTS[lay];
        auto b = std::find_if(table.cbegin_hidden(), table.end_hidden(), [&](const Attribute &a) { return a.name == Cat.pool("$ts_begin"); });
        auto n = std::find_if(table.cbegin_hidden(), table.end_hidden(), [&](const Attribute &a) { return a.name == Cat.pool("$ts_end"); });
        if (b == table.end_hidden() or n == table.end_hidden()) return W.fail("hidden", "the table has no hidden timestamps");
        { StoreWriter w(table.store()); Tuple t(w.schema()); 
          for (unsigned k = 0; k != v.size(); ++k) {
            t.set(table[Cat.pool("k")].id, Value(int64_t(k + 1))); t.null(table[Cat.pool("s")].id); t.set(b->id, Value(v[k].first)); t.set(n->id, Value(v[k].second)); w.append(t);
            text += " [" + std::to_string(v[k].first) + "," + (v[k].second < 0 ? "forever" : std::to_string(v[k].second)) + ")"; } }
        for (auto rd : RD) {
            Scheduler::Transaction tx; tx.start_time(rd); std::vector<Row> vis;
            for (unsigned k = 0; k != v.size(); ++k) if (v[k].first <= rd and (v[k].second == -1 or v[k].second > rd)) vis.push_back({ int(k + 1), true, "", v[k].first });
            for (unsigned z = 0; z != Q.size(); ++z) { if (z % 4 != i % 4 and z) continue; auto &query = Q[z];
                W.describe("ended :: " + text + " read at " + std::to_string(rd) + ": " + query.sql); auto r = run(query.sql, tx); W.transitions();
                auto want = query.want(vis); if (not query.ordered) { std::sort(want.begin(), want.end()); std::sort(r.rows.begin(), r.rows.end()); }
                if (not r.ok) return W.fail(std::string("query: ") + query.sql, text + " read at " + std::to_string(rd) + ": " + query.sql + " fails: " + r.error);
                if (r.rows != want) return W.fail(std::string("ended versions: ") + query.sql, text + " read at " + std::to_string(rd) + ": " + query.sql + " gives " + sqlkit::join_rows(r.rows) + " instead of " + sqlkit::join_rows(want));
            }
            W.states(); W.evals(); W.outcome(text + "@" + std::to_string(rd));
        }
    }, 4);
    return C.finish();
}
