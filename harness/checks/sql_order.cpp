/* C04 -- ORDER BY, LIMIT, OFFSET.  All small row sequences with NULLs x key types x directions x limits/offsets, and row
 * counts around the block size x all limits/offsets. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include "common/refquery.hpp"

using namespace ref;
using u64 = uint64_t;
static sqlkit::Engine *eng;
static sqlkit::Engine & E_() { if (not eng) eng = new sqlkit::Engine(); return *eng; }
static const V N = V::N();
static E num(int64_t x) { return cst(V::I(x), ti(4)); }
struct TV { Ty t; std::vector<V> v; };

int main(int argc, char **argv)
{
    mc::Check C("C04", "model_checking", argc, argv);
    C.rule = "every ORDER BY / LIMIT query of the stated list on all row sequences within the bounds; sequence compared modulo ties; one outcome per (query, contents)";
    const std::vector<TV> KT{
        { ti(4), { N, V::I(0), V::I(-1), V::I(2147483647), V::I(-2147483647) } }, { ti(8), { N, V::I(0), V::I(4294967296LL), V::I(INT64_MIN + 1), V::I(INT64_MAX) } }, { ti(1), { N, V::I(0), V::I(-128), V::I(127), V::I(-1) } }, { ti(2), { N, V::I(0), V::I(256), V::I(-1), V::I(-32768) } },
        { tf(), { N, V::D(0.5), V::D(-1.5), V::D(0), V::D(0.75) } }, { td(), { N, V::D(0.5), V::D(0.25), V::D(-1e300), V::D(1e-300) } }, { tdec(6, 2), { N, V::I(0), V::I(50), V::I(-100), V::I(99) } },
        { ts(2), { N, V::S(""), V::S("a"), V::S("b"), V::S("ab") } }, { ts(4), { N, V::S("ab"), V::S("abc"), V::S(""), V::S("B") } }, { ts(9, true), { N, V::S("abcdefghi"), V::S("abcdefgh"), V::S("a"), V::S("") } },
        { tdate(), { N, mkdate(2000, 2, 29), mkdate(2000, 3, 1), mkdate(-1, 1, 1), mkdate(-2, 12, 31) } }, { tdt(), { N, mkdt(1970, 1, 1, 0, 0, 0), mkdt(1969, 12, 31, 23, 59, 58), mkdt(2038, 1, 19, 3, 14, 8), mkdt(1, 1, 1, 0, 0, 0) } }, { tb(), { N, V::B(false), V::B(true), V::B(true), V::B(false) } } };

    auto go = [&](const std::string &name, const Q &q, const std::string &ctx, mc::Worker &W) { check_query(E_(), q, W, name, ctx); W.states(); W.outcome(mc::hash_str(q.sql() + ctx)); };
    const std::vector<std::pair<int64_t, int64_t>> LIM{ { 0, 0 }, { 1, 0 }, { 2, 0 }, { 3, 0 }, { 100, 0 }, { 1, 1 }, { 2, 1 }, { 1, 2 }, { 2, 2 }, { 1, 3 }, { 5, 4 }, { 1, 100 }, { 0, 1 }, { 100, 1 }, { INT64_MAX, 1 } };

    { /* two int keys: all sequences of pairs */
        const unsigned ml = C.thorough ? 5 : 4; u64 n = num_seqs(9, ml);
        const V dom[] = { N, V::I(0), V::I(1) };
        C.explore("two keys", n, [&](u64 i, mc::Worker &W) {
            auto s = nth_seq(i, 9); Table T; T.name = "T"; T.cols = { { "id", ti(4) }, { "a", ti(4) }, { "b", ti(4) } };
            int64_t id = 0; for (auto x : s) { T.rows.push_back({ V::I(id++), dom[x % 3], dom[x / 3] }); }
            load(E_(), { &T }, W); auto ctx = T.dump();
            for (int da = 0; da != 3; ++da) for (int db = 0; db != 4; ++db) {
                Q q; q.from = { src(T) }; E a = q.c("T", "a", false), b = q.c("T", "b", false), id = q.c("T", "id", false);
                q.sel = { { a, "" }, { b, "" }, { id, "" } };
                q.order = { { a, da } }; if (db < 3) q.order.push_back({ b, db });
                go("two keys", q, ctx, W);
                if (da == 2 or db == 2) for (auto &[l, o] : LIM) { q.limit = l; q.offset = o; go("two keys limit", q, ctx, W); }
            }
            Q q; q.from = { src(T) }; E a = q.c("T", "a", false), b = q.c("T", "b", false), id_ = q.c("T", "id", false);
            q.sel = { { a, "" }, { b, "" }, { id_, "" } };
            for (auto &[l, o] : LIM) { q.limit = l; q.offset = o; go("limit", q, ctx, W); }
            auto with = [&](std::vector<Q::Sel> sel, std::vector<Q::Ord> ord, E where, const char *nm) { Q p = q; p.limit = -1; p.offset = 0; p.sel = sel; p.order = ord; p.where = where; go(nm, p, ctx, W); p.limit = 2; p.offset = 1; go(std::string(nm) + " limit", p, ctx, W); };
            with({ { id_, "" } }, { { a, 1 }, { b, 2 } }, nullptr, "non-result keys");
            with({ { id_, "" } }, { { bin("+", a, b), 2 } }, nullptr, "expression");
            with({ { id_, "" }, { a, "" } }, { { un("-", a), 0 }, { id_, 2 } }, nullptr, "negated expression");
            with({ { id_, "" } }, { { isnull(a), 2 }, { a, 0 } }, nullptr, "isnull key");
            with({ { id_, "" } }, { { bin("<", a, b), 0 } }, nullptr, "boolean key");
            with({ { id_, "" }, { bin("+", a, num(1)), "x" } }, { { col("x", 1, ti(4)), 2 } }, nullptr, "unused"); 
            with({ { b, "" }, { a, "" } }, { { b, 1 } }, un("NOT", isnull(a)), "filtered");
            with({ { id_, "" } }, { { a, 0 } }, cst(V::B(false), tb()), "no rows");
            with({ { id_, "" } }, { { id_, 2 } }, bin(">=", a, num(0)), "by id");
            with({ { num(7), "" } }, { { id_, 2 } }, nullptr, "constant");
            for (int64_t o : { 0, 1, 2, 70 }) { Q p = q; p.huge = true; p.limit = INT64_MAX; p.offset = o; go("huge limit", p, ctx, W); }
            { Q p = q; p.star = true; p.sel.clear(); p.limit = -1; p.offset = 0; p.order = { { b, 2 }, { a, 1 } }; go("star", p, ctx, W); p.limit = 3; go("star limit", p, ctx, W); }
            { Q p; p.from = { src(T) }; p.grouped = true; p.keys = { a }; p.aggs = { { "COUNT", nullptr }, { "MAX", b } };
              p.sel = { { p.key(0), "" }, { p.agg(0), "" }, { p.agg(1), "" } }; p.order = { { p.agg(0), 2 }, { p.key(0), 1 } }; go("grouped", p, ctx, W);
              p.order = { { p.agg(1), 1 } }; go("grouped by max", p, ctx, W); p.limit = 1; p.offset = 1; go("grouped limit", p, ctx, W);
              p.sel = { { p.key(0), "" } }; p.limit = -1; p.offset = 0; go("grouped hidden", p, ctx, W); p.order = { { bin("+", p.agg(0), p.agg(1)), 2 } }; go("grouped expression", p, ctx, W); }
            if (i % 971 == 11) W.sample("ordering queries on " + ctx);
        });
    }
    { /* aliases */
        u64 n = num_seqs(9, 2); const V dom[] = { N, V::I(0), V::I(1) };
        C.explore("aliases", n, [&](u64 i, mc::Worker &W) {
            auto s = nth_seq(i, 9); Table T; T.name = "T"; T.cols = { { "id", ti(4) }, { "a", ti(4) }, { "b", ti(4) } };
            int64_t id = 0; for (auto x : s) { T.rows.push_back({ V::I(id++), dom[x % 3], dom[x / 3] }); }
            load(E_(), { &T }, W); auto ctx = T.dump();
            Q q; q.from = { src(T) }; E a = q.c("T", "a", false), b = q.c("T", "b", false), id_ = q.c("T", "id", false);
            E sum = bin("+", a, b); E al = mk("x", ti(4), sum->ev);
            q.sel = { { id_, "" }, { sum, "x" } }; q.order = { { al, 2 } }; go("alias of expression", q, ctx, W);
            q.sel = { { b, "x" }, { id_, "" } }; q.order = { { mk("x", ti(4), b->ev), 1 }, { a, 2 } }; go("alias of column", q, ctx, W);
            q.sel = { { b, "a" }, { id_, "" } }; q.order = { { mk("a", ti(4), b->ev), 1 } }; go("alias shadows column", q, ctx, W);
            q.order = { { q.c("T", "a"), 1 } }; go("qualified column beside alias", q, ctx, W);
            q.sel = { { q.c("T", "a"), "" } }; q.order = { { q.c("T", "a"), 2 }, { q.c("T", "b"), 1 } }; go("qualified keys", q, ctx, W);
            /* unnamed expressions and repeated columns, ordered by something that is (not) selected */
            for (auto &o : std::vector<std::vector<std::pair<E, int>>>{ { { b, 1 } }, { { b, 2 }, { b, 1 } }, { { b, 1 }, { bin("-", b, a), 2 } }, { { bin("*", a, b), 2 }, { a, 1 } }, { { id_, 2 } } }) {
                q.order.clear(); for (auto &[e, dir] : o) q.order.push_back({ e, dir });
                q.sel = { { sum, "" } }; go("unnamed expression", q, ctx, W);
                q.sel = { { sum, "" }, { id_, "" }, { sum, "" }, { cst(V::I(7), ti(4)), "" } }; go("unnamed expression repeated", q, ctx, W);
                { q.sel = { { sum, "x" }, { un("-", a), "" }, { b, "x" } }; go("repeated alias", q, ctx, W); }
                if (o[0].first == id_) { q.sel = { { b, "" }, { id_, "" }, { b, "" }, { isnull(a), "" } }; go("repeated column", q, ctx, W); }
                else { q.sel = { { id_, "" }, { isnull(b), "" }, { id_, "" } }; go("repeated column", q, ctx, W); }
            }
        });
    }
    { /* every type */
        const unsigned ml = C.thorough ? 4 : 3; u64 n = num_seqs(5, ml);
        C.explore("key types", KT.size() * n, [&, n](u64 i, mc::Worker &W) {
            mc::Digits d(i); auto s = nth_seq(d.next(n), 5); auto &k = KT[d.next(KT.size())];
            Table T; T.name = "T"; T.cols = { { "id", ti(4) }, { "k", k.t }, { "b", tb() } }; int64_t id = 0; for (auto x : s) { T.rows.push_back({ V::I(id), k.v[x], id % 2 ? V::B(true) : N }); ++id; }
            load(E_(), { &T }, W); auto ctx = T.create() + T.dump();
            for (int dir = 0; dir != 3; ++dir) {
                Q q; q.from = { src(T) }; E kk = q.c("T", "k", false), id_ = q.c("T", "id", false), b = q.c("T", "b", false);
                q.sel = { { kk, "" }, { id_, "" } }; q.order = { { kk, dir } }; go("type " + k.t.sql(), q, ctx, W);
                q.limit = 2; go("type limit " + k.t.sql(), q, ctx, W); q.limit = -1;
                q.sel = { { id_, "" } }; q.order.push_back({ id_, 2 }); go("type + id " + k.t.sql(), q, ctx, W);
                q.order = { { b, dir }, { kk, 2 } }; go("bool + type " + k.t.sql(), q, ctx, W);
            }
        });
    }
    { /* block boundaries: number of rows x limits x offsets */
        std::vector<unsigned> R{ 0, 1, 63, 64, 65, 127, 128, 129, 192, 200 }; if (C.thorough) for (unsigned x : { 2, 62, 66, 126, 130, 191, 193, 255, 256, 257, 300 }) R.push_back(x);
        std::vector<int64_t> L{ 0, 1, 2, 62, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193, 1000 };
        C.explore("block boundaries", R.size() * L.size() * 4, [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned n = R[d.next(R.size())]; int64_t off = L[d.next(L.size())]; unsigned kind = d.next(4);
            Table T; T.name = "T"; T.cols = { { "id", ti(4) }, { "k", ti(4) }, { "s", ts(5) } };
            for (unsigned j = 0; j != n; ++j) T.rows.push_back({ V::I(j), kind == 3 and j % 9 == 0 ? N : V::I((j * 37) % 101), V::S("s" + std::to_string(j % 17)) });
            load(E_(), { &T }, W); auto ctx = std::to_string(n) + " rows";
            for (auto l : L) {
                Q q; q.from = { src(T) }; E id_ = q.c("T", "id", false), k = q.c("T", "k", false), s = q.c("T", "s", false);
                q.sel = { { id_, "" }, { k, "" }, { s, "" } }; q.limit = l; q.offset = off;
                if (kind == 1) q.order = { { k, 1 }, { id_, 2 } }; if (kind == 3) q.order = { { s, 2 }, { k, 0 } };
                if (kind == 2) q.where = bin("=", bin("%", id_, num(3)), num(1));
                go("blocks " + std::to_string(kind), q, ctx, W); W.tick();
                /* The sequence itself: LIMIT takes a contiguous window of what the query yields without it. */
                Q full = q; full.limit = -1; full.offset = 0; auto a = E_().run(full.sql()), b = E_().run(q.sql());
                std::vector<std::string> want; for (u64 j = off; j < a.rows.size() and j < u64(off) + u64(l); ++j) want.push_back(a.rows[j]);
                if (a.rows.size() and want != b.rows) W.fail("window " + std::to_string(kind), q.sql() + " on " + ctx + " is not rows " + std::to_string(off + 1) + ".. of the unlimited sequence: got [" + joined(b.rows, 5) + "] expected [" + joined(want, 5) + "]");
            }
        });
    }
    { /* limits over joins, groupings: the operator below the limit is not a scan */
        C.explore("limits over operators", 40 * 16, [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned n = 5 * d.next(40), off = 17 * d.next(16);
            Table T; T.name = "T"; T.cols = { { "id", ti(4) }, { "k", ti(4) } }; for (unsigned j = 0; j != n; ++j) T.rows.push_back({ V::I(j), V::I(j % 7) });
            Table S; S.name = "S"; S.cols = { { "k", ti(4) }, { "x", ti(4) } }; for (unsigned j = 0; j != 5; ++j) S.rows.push_back({ V::I(j), V::I(j) });
            load(E_(), { &T, &S }, W); auto ctx = std::to_string(n) + " rows";
            for (int64_t l : { 0, 1, 30, 64, 100, 1000 }) {
                { Q q; q.from = { src(T), src(S) }; q.where = bin("=", q.c("T", "k"), q.c("S", "k")); q.sel = { { q.c("T", "id"), "" }, { q.c("S", "x"), "" } }; q.limit = l; q.offset = off; go("join", q, ctx, W); }
                { Q q; q.from = { src(T), src(S) }; q.where = bin("<", q.c("T", "k"), q.c("S", "k")); q.sel = { { q.c("T", "id"), "" }, { q.c("S", "x"), "" } }; q.limit = l; q.offset = off; go("nlj", q, ctx, W); }
                { Q q; q.from = { src(T) }; q.grouped = true; q.keys = { q.c("T", "id", false) }; q.aggs = { { "COUNT", nullptr } }; q.sel = { { q.key(0), "" }, { q.agg(0), "" } }; q.limit = l; q.offset = off; go("grouping", q, ctx, W); q.order = { { q.key(0), 2 } }; go("grouping ordered", q, ctx, W); }
                { Q q; q.from = { src(T) }; q.grouped = true; q.aggs = { { "COUNT", nullptr } }; q.sel = { { q.agg(0), "" } }; q.limit = l; q.offset = off; go("aggregate", q, ctx, W); }
            }
        });
    }
    return C.finish();
}
