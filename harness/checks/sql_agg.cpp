/* C03 -- grouping and aggregation.  All small multisets of rows with NULLs x key types x aggregate functions; row and
 * group counts around the block size. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include "common/refquery.hpp"

using namespace ref;
using u64 = uint64_t;
static sqlkit::Engine *eng;
static sqlkit::Engine & E_() { if (not eng) eng = new sqlkit::Engine(); return *eng; }
static const V N = V::N();
static E num(int64_t x) { return cst(V::I(x), ti(4)); }

struct TV { Ty t; std::vector<V> v; };

/** All grouped queries over T(k, v[, l]) with key expressions `keys` and aggregated expressions `args`. */
static void queries(const Table &T, mc::Worker &W, const std::string &ctx, bool deep) {
    auto go = [&](const std::string &name, Q &q) { check_query(E_(), q, W, name, ctx); W.states(); W.outcome(mc::hash_str(q.sql() + ctx)); };
    auto base = [&] { Q q; q.from = { src(T) }; q.grouped = true; return q; };
    const auto tys = T.cols[0].second.sql() + "/" + T.cols[1].second.sql();
    Q q0 = base(); E K = q0.c("T", "k", false), A = q0.c("T", "v", false), L = q0.c("T", "l", false);
    auto aggs = [&](E a) { std::vector<Agg> r{ { "COUNT", nullptr }, { "COUNT", a }, { "MIN", a }, { "MAX", a }, { "SUM", a }, { "AVG", a } }; if (not a->ty.numeric()) r.resize(2); return r; };
    auto finish = [&](Q &q) { for (unsigned i = 0; i != q.keys.size(); ++i) q.sel.push_back({ q.key(i), "" }); for (unsigned j = 0; j != q.aggs.size(); ++j) q.sel.push_back({ q.agg(j), "" }); };

    for (int g = 0; g != 3; ++g) { // without grouping, by k, by k and l
        { Q q = base(); if (g) q.keys.push_back(K); if (g == 2) q.keys.push_back(L); q.aggs = aggs(A); finish(q); go("all aggregates " + std::to_string(g) + " " + tys, q); }
        if (g == 0) for (auto h : { cst(V::B(true), tb()), bin("=", num(1), num(2)), cst(V::B(false), tb()) }) { // a single group without aggregates
            Q q = base(); q.having = h; q.sel = { { num(7), "" }, { num(1), "x" } }; go("single group having " + h->text, q);
            q.where = un("NOT", isnull(L)); go("filtered single group having " + h->text, q);
        }
        if (not deep) continue;
        for (auto &a : aggs(A)) { // each alone
            Q q = base(); if (g) q.keys.push_back(K); if (g == 2) q.keys.push_back(L); q.aggs = { a };
            q.sel = { { q.agg(0), "" } }; go("one aggregate " + a.fn + std::to_string(g) + " " + tys, q);
        }
        { Q q = base(); if (g) q.keys.push_back(K); if (g == 2) q.keys.push_back(L); q.aggs = { { "COUNT", nullptr }, { "COUNT", K }, { "COUNT", L } }; finish(q); std::reverse(q.sel.begin(), q.sel.end()); go("counts " + std::to_string(g) + " " + tys, q); }
        if (g) { Q q = base(); q.keys.push_back(K); if (g == 2) q.keys.push_back(L); finish(q); go("distinct " + std::to_string(g) + " " + tys, q); }
        { Q q = base(); if (g) q.keys.push_back(K); if (g == 2) q.keys.push_back(L); q.aggs = aggs(A); q.where = un("NOT", isnull(L)); finish(q); go("filtered " + std::to_string(g) + " " + tys, q); }
        { Q q = base(); if (g) q.keys.push_back(K); if (g == 2) q.keys.push_back(L); q.aggs = aggs(A); q.where = cst(V::B(false), tb()); finish(q); go("no rows " + std::to_string(g) + " " + tys, q); }
        /* HAVING */
        for (int h = 0; h != 6; ++h) {
            Q q = base(); if (g) q.keys.push_back(K); if (g == 2) q.keys.push_back(L);
            q.aggs = { { "COUNT", nullptr }, { "COUNT", A } };
            if (A->ty.numeric()) { q.aggs.push_back({ "SUM", A }); q.aggs.push_back({ "MIN", A }); q.aggs.push_back({ "AVG", A }); }
            switch (h) {
                case 0: q.having = bin(">", q.agg(0), num(1)); break;
                case 1: q.having = bin("=", q.agg(0), q.agg(1)); break;
                case 2: if (not A->ty.numeric()) continue; q.having = bin(">", q.agg(2), num(0)); break;
                case 3: if (not A->ty.numeric()) continue; q.having = bin("OR", isnull(q.agg(3)), bin(">=", q.agg(4), num(1))); break;
                case 4: if (not g) continue; q.having = bin("AND", un("NOT", isnull(q.key(0))), bin(">=", q.agg(1), num(1))); break;
                case 5: if (not g) continue; q.having = isnull(q.key(0)); break;
            }
            finish(q); go("having " + std::to_string(h) + std::to_string(g) + " " + tys, q);
            if (h < 2) { q.sel = { { num(1), "" } }; if (g) q.sel = { { q.key(0), "" } }; go("having only " + std::to_string(h) + std::to_string(g) + " " + tys, q); }
        }
        /* expressions over keys and aggregates, order */
        if (A->ty.k == INT) {
            Q q = base(); if (g) q.keys.push_back(K); if (g == 2) q.keys.push_back(L); q.aggs = { { "SUM", A }, { "COUNT", A }, { "MAX", A }, { "MIN", bin("*", A, num(2)) }, { "SUM", bin("+", A, num(1)) } };
            q.sel = { { bin("+", q.agg(0), q.agg(1)), "" }, { bin("-", q.agg(2), num(1)), "" }, { q.agg(3), "" }, { bin("<", q.agg(0), q.agg(2)), "" }, { q.agg(4), "" } };
            if (g and K->ty.k == INT) q.sel.push_back({ bin("+", q.key(0), q.agg(1)), "" });
            go("expressions " + std::to_string(g) + " " + tys, q);
        }
        if (g) { Q q = base(); q.keys.push_back(K); if (g == 2) q.keys.push_back(L); q.aggs = { { "COUNT", nullptr } }; finish(q); for (unsigned i = 0; i != q.keys.size(); ++i) q.order.push_back({ q.key(i), int(i) + 1 }); go("ordered by key " + std::to_string(g) + " " + tys, q); }
    }
    if (deep and K->ty.k == INT) { // key expressions
        for (auto e : { bin("+", K, num(1)), bin("%", K, num(2)), un("-", K) }) { Q q = base(); q.keys = { e }; q.key_alias[0] = "e"; q.aggs = { { "COUNT", nullptr }, { "COUNT", A } }; finish(q); go("key expression " + e->text, q); }
    }
    if (deep) {
        { Q q = base(); q.keys = { q.c("T", "k") }; q.key_alias[0] = "x"; q.aggs = { { "COUNT", q.c("T", "k") }, { "COUNT", q.c("T", "v") } }; finish(q); go("qualified key", q); }
        { Q q = base(); q.keys = { q.c("T", "k"), q.c("T", "l") }; q.key_alias[0] = "x"; q.key_alias[1] = "y"; q.aggs = { { "COUNT", nullptr } }; finish(q); q.having = un("NOT", isnull(q.key(1))); q.order = { { q.key(1), 2 }, { q.key(0), 1 } }; go("qualified keys", q); }
    }
    if (deep) { Q q = base(); q.keys = { L, K }; q.aggs = { { "COUNT", A } }; finish(q); go("keys swapped", q);
        for (auto e : { isnull(K), isnull(L) }) { Q p = base(); p.keys = { e }; p.key_alias[0] = "e"; p.aggs = { { "COUNT", nullptr }, { "COUNT", A } }; finish(p); go("key isnull", p); } }
}

int main(int argc, char **argv)
{
    mc::Check C("C03", "model_checking", argc, argv);
    C.rule = "every grouping/aggregation query of the stated list on all row multisets within the bounds; one outcome per (query, contents)";
    const std::vector<TV> KT{
        { ti(4), { N, V::I(0), V::I(-1), V::I(2147483647) } }, { ti(8), { N, V::I(0), V::I(4294967296LL), V::I(-1) } }, { ti(1), { N, V::I(0), V::I(-128), V::I(127) } }, { ti(2), { N, V::I(0), V::I(256), V::I(-1) } },
        { tf(), { N, V::D(0.5), V::D(-1.5), V::D(0) } }, { td(), { N, V::D(0.5), V::D(0.25), V::D(0) } }, { tdec(6, 2), { N, V::I(0), V::I(50), V::I(-100) } },
        { ts(1), { N, V::S(""), V::S("a"), V::S("b") } }, { ts(4), { N, V::S("ab"), V::S("abc"), V::S("") } }, { ts(9, true), { N, V::S("abcdefghi"), V::S("abcdefgh"), V::S("a") } },
        { tdate(), { N, mkdate(2000, 2, 29), mkdate(2000, 3, 1), mkdate(-1, 1, 1) } }, { tdt(), { N, mkdt(1970, 1, 1, 0, 0, 0), mkdt(1969, 12, 31, 23, 59, 58), mkdt(2038, 1, 19, 3, 14, 8) } }, { tb(), { N, V::B(false), V::B(true), V::B(true) } } };

    auto table = [&](const TV &k, const TV &v, const std::vector<unsigned> &rows) {
        Table T; T.name = "T"; T.cols = { { "k", k.t }, { "v", v.t }, { "l", ti(4) } };
        unsigned n = 0; for (auto r : rows) { T.rows.push_back({ k.v[r % 4], v.v[r / 4 % 4], n % 3 ? V::I(n % 2) : N }); ++n; }
        return T;
    };
    { /* INT key, INT value: all row sequences up to length 3 (4) over 4x4 values (thorough) or 3x3 */
        const unsigned dom = 3, ml = C.thorough ? 5 : 4; u64 n = num_seqs(dom * dom, ml);
        C.explore("int/int", n, [&, n](u64 i, mc::Worker &W) {
            auto s = nth_seq(i, dom * dom); for (auto &x : s) x = x % dom + 4 * (x / dom);
            TV a = KT[0], b = KT[0]; b.v = { N, V::I(0), V::I(7), V::I(-3) }; a.v[2] = V::I(1);
            Table T = table(a, b, s); load(E_(), { &T }, W);
            queries(T, W, T.dump(), true);
            if (i % 977 == 5) W.sample("aggregation queries on " + T.dump());
        });
    }
    { /* every key type x every value type: all sequences up to length 2, and multisets of length 3 over the key domain */
        const unsigned ml = C.thorough ? 3 : 2; u64 n = num_seqs(16, ml);
        C.explore("types", KT.size() * KT.size() * n, [&, n](u64 i, mc::Worker &W) {
            mc::Digits d(i); auto s = nth_seq(d.next(n), 16); auto &k = KT[d.next(KT.size())], &v = KT[d.next(KT.size())];
            Table T = table(k, v, s); load(E_(), { &T }, W);
            queries(T, W, T.create() + T.dump(), s.size() == 2 and (C.thorough or s[0] % 5 == 0));
        });
        u64 m = num_seqs(4, 5);
        C.explore("key types, longer", KT.size() * m, [&, m](u64 i, mc::Worker &W) {
            mc::Digits d(i); auto s = nth_seq(d.next(m), 4); auto &k = KT[d.next(KT.size())];
            for (std::size_t j = 0; j != s.size(); ++j) s[j] += 4 * (j % 4);
            Table T = table(k, KT[0], s); load(E_(), { &T }, W);
            queries(T, W, T.create() + T.dump(), false);
        });
    }
    { /* row and group counts */
        std::vector<unsigned> rows{ 0, 1, 2, 62, 63, 64, 65, 66, 127, 128, 129, 191, 192, 193, 256 }, groups{ 1, 2, 3, 8, 9, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 200, 256 };
        if (C.thorough) { for (unsigned x = 0; x <= 300; ++x) rows.push_back(x); groups.clear(); for (unsigned x = 1; x <= 300; x += 1) groups.push_back(x); }
        C.explore("counts", rows.size() * groups.size() * 2, [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned n = rows[d.next(rows.size())], g = groups[d.next(groups.size())]; bool str = d.next(2);
            if (g > n and n) g = std::max(1u, n);
            Table T; T.name = "T"; T.cols = { { "k", str ? ts(6) : ti(4) }, { "v", ti(4) }, { "l", ti(4) } };
            for (unsigned j = 0; j != n; ++j) { unsigned x = (j * 7) % g; T.rows.push_back({ x == g / 2 ? N : str ? V::S("k" + std::to_string(x)) : V::I(int64_t(x) * 1024), j % 11 ? V::I(j % 13) : N, V::I(j % 3) }); }
            load(E_(), { &T }, W);
            queries(T, W, std::to_string(n) + " rows in " + std::to_string(g) + " groups", true);
        });
    }
    return C.finish();
}
