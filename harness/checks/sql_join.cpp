/* C02 -- joins.  All small table contents (NULL keys included) x all join-query forms; all key type pairs; match counts
 * around the block size; four-way join graphs under every plan enumerator.  Oracle: filtered cross product. */
#include "common/mc.hpp"
#include "common/refquery.hpp"

using namespace ref;
using u64 = uint64_t;
static sqlkit::Engine *eng;
static sqlkit::Engine & E_() { if (not eng) eng = new sqlkit::Engine(); return *eng; }
static const V N = V::N();

static E k(int64_t x) { return cst(V::I(x), ti(4)); }
static E eq(E a, E b) { return bin("=", a, b); }
static E conj(std::vector<E> v) { E r; for (auto &e : v) r = r ? bin("AND", r, e) : e; return r; }

struct Form { std::string name; std::function<void(Q&)> build; std::vector<std::pair<std::string, std::string>> from; /* table, alias */ };

static Q make(const Form &f, const std::map<std::string, const Table*> &tabs) {
    Q q; for (auto &[t, a] : f.from) q.from.push_back(src(*tabs.at(t), a));
    f.build(q); return q;
}
static void sel_all(Q &q) { for (auto &f : q.from) for (auto &x : f.rel.cols) q.sel.push_back({ q.c(f.name, x.first), "" }); }

static Table mk_table(const std::string &name, const std::vector<unsigned> &seq, unsigned kind) {
    /* kind 0: (id, k) key only; kind 1: (id, k, v) every pair of {NULL,0,1} */
    Table T; T.name = name; T.cols = { { "id", ti(4) }, { "k", ti(4) }, { "v", ti(4) } };
    const V dom[] = { N, V::I(0), V::I(1) };
    int64_t id = name[0] == 'R' ? 1 : name[0] == 'S' ? 11 : name[0] == 'U' ? 21 : 31;
    for (auto s : seq) { if (kind == 0) T.rows.push_back({ V::I(id), dom[s], V::I(id % 2) }); else T.rows.push_back({ V::I(id), dom[s % 3], dom[s / 3] }); ++id; }
    return T;
}

int main(int argc, char **argv)
{
    mc::Check C("C02", "model_checking", argc, argv);
    C.rule = "every join query of the stated forms on all table contents within the bounds, compared with the filtered cross product; one outcome per (form, contents)";

    /*----- forms over R, S --------------------------------------------------------------------------------------------*/
    std::vector<Form> F2, F3, F4;
    auto add2 = [&](std::string n, std::function<E(Q&)> w, std::string a = "R", std::string aa = "", std::string b = "S", std::string ba = "") {
        F2.push_back({ n, [w](Q &q) { q.where = w(q); sel_all(q); }, { { a, aa }, { b, ba } } });
    };
#define RK q.c("R", "k")
#define SK q.c("S", "k")
#define UK q.c("U", "k")
#define RV q.c("R", "v")
#define SV q.c("S", "v")
#define UV q.c("U", "v")
    add2("cross", [](Q&) { return E(); });
    for (auto op : { "=", "!=", "<", "<=", ">", ">=" }) {
        std::string o = op;
        add2("k" + o + "k", [o](Q &q) { return bin(o, RK, SK); });
        add2("k" + o + "k swapped", [o](Q &q) { return bin(o, SK, RK); });
        add2("S,R k" + o + "k", [o](Q &q) { return bin(o, RK, SK); }, "S", "", "R", "");
        add2("k=k and v" + o + "v", [o](Q &q) { return bin("AND", eq(RK, SK), bin(o, RV, SV)); });
        add2("k=k or v" + o + "v", [o](Q &q) { return bin("OR", eq(RK, SK), bin(o, RV, SV)); });
        add2("self k" + o + "k", [o](Q &q) { return bin(o, q.c("A", "k"), q.c("B", "k")); }, "R", "A", "R", "B");
        add2("filter k" + o + "0", [o](Q &q) { return bin("AND", eq(RK, SK), bin(o, RK, k(0))); });
        add2("filter only v" + o + "0", [o](Q &q) { return bin(o, SV, k(0)); });
    }
    add2("not k=k", [](Q &q) { return un("NOT", eq(RK, SK)); });
    add2("k=k twice", [](Q &q) { return bin("AND", eq(RK, SK), eq(SK, RK)); });
    add2("k=v", [](Q &q) { return eq(RK, SV); });
    add2("k=v and v=k", [](Q &q) { return bin("AND", eq(RK, SV), eq(RV, SK)); });
    add2("k=k and v=v", [](Q &q) { return bin("AND", eq(RK, SK), eq(RV, SV)); });
    add2("k=k and v=v and id", [](Q &q) { return conj({ eq(RK, SK), eq(RV, SV), bin("<", q.c("R", "id"), q.c("S", "id")) }); });
    add2("k=k and k=v", [](Q &q) { return bin("AND", eq(RK, SK), eq(RK, SV)); });
    add2("k+1=k", [](Q &q) { return eq(bin("+", RK, k(1)), SK); });
    add2("k+v=k+v", [](Q &q) { return eq(bin("+", RK, RV), bin("+", SK, SV)); });
    add2("k+k=1", [](Q &q) { return eq(bin("+", RK, SK), k(1)); });
    add2("k=-k", [](Q &q) { return eq(RK, un("-", SK)); });
    add2("isnull(k) and isnull(k)", [](Q &q) { return bin("AND", isnull(RK), isnull(SK)); });
    add2("isnull(k) or k=k", [](Q &q) { return bin("OR", isnull(RK), eq(RK, SK)); });
    add2("k=k or both null", [](Q &q) { return bin("OR", eq(RK, SK), bin("AND", isnull(RK), isnull(SK))); });
    add2("(k=k or v=v) and (k=v or v=k)", [](Q &q) { return bin("AND", bin("OR", eq(RK, SK), eq(RV, SV)), bin("OR", eq(RK, SV), eq(RV, SK))); });
    add2("(k=k and k=0) or (k=k and v=1)", [](Q &q) { return bin("OR", bin("AND", eq(RK, SK), eq(RK, k(0))), bin("AND", eq(RK, SK), eq(SV, k(1)))); });
    add2("false", [](Q &q) { return cst(V::B(false), tb()); });
    add2("k=k and true", [](Q &q) { return bin("AND", eq(RK, SK), cst(V::B(true), tb())); });
    add2("k=k and false", [](Q &q) { return bin("AND", eq(RK, SK), cst(V::B(false), tb())); });
    add2("k=k and v=0 and v=1", [](Q &q) { return conj({ eq(RK, SK), eq(RV, k(0)), eq(SV, k(1)) }); });
    add2("k=k and many filters", [](Q &q) { return conj({ eq(RK, SK), bin("!=", RV, k(5)), bin("<=", RV, k(6)), bin("OR", bin("<", RV, k(1)), isnull(RK)), bin("!=", RK, k(9)), bin(">=", RK, k(0)), bin("!=", SK, k(7)), bin("OR", bin("=", SV, k(0)), isnull(SV)) }); });
    add2("many joins", [](Q &q) { return conj({ bin("<=", RK, SK), bin("!=", bin("+", RV, SV), k(9)), bin("<=", RV, bin("+", SV, k(1))), bin("OR", eq(RV, SK), bin("<", RK, SV)), bin(">=", bin("+", RK, SK), k(0)), bin("!=", RV, bin("-", SK, k(5))) }); });
    add2("alias R AS S2, S AS R2", [](Q &q) { return eq(q.c("S2", "k"), q.c("R2", "v")); }, "R", "S2", "S", "R2");
    add2("alias one", [](Q &q) { return bin("AND", eq(q.c("R", "k"), q.c("B", "k")), bin("<", q.c("R", "id"), q.c("B", "id"))); }, "R", "", "R", "B");
    add2("alias swapped names", [](Q &q) { return bin("AND", eq(q.c("S", "k"), q.c("R", "k")), eq(q.c("S", "v"), k(0))); }, "R", "S", "S", "R");
    F2.push_back({ "star", [](Q &q) { q.where = eq(RK, SK); q.star = true; }, { { "R", "" }, { "S", "" } } });
    F2.push_back({ "star cross", [](Q &q) { q.star = true; }, { { "R", "" }, { "S", "" } } });
    F2.push_back({ "one column of each", [](Q &q) { q.where = eq(RK, SK); q.sel = { { q.c("S", "v"), "" }, { q.c("R", "v"), "" } }; }, { { "R", "" }, { "S", "" } } });
    F2.push_back({ "columns of one side", [](Q &q) { q.where = eq(RK, SK); q.sel = { { q.c("S", "id"), "" } }; }, { { "R", "" }, { "S", "" } } });
    F2.push_back({ "columns of other side", [](Q &q) { q.where = eq(RK, SK); q.sel = { { q.c("R", "id"), "" } }; }, { { "R", "" }, { "S", "" } } });
    F2.push_back({ "cross columns of one side", [](Q &q) { q.sel = { { q.c("R", "id"), "" } }; }, { { "R", "" }, { "S", "" } } });
    F2.push_back({ "constant", [](Q &q) { q.where = eq(RK, SK); q.sel = { { k(1), "" } }; }, { { "R", "" }, { "S", "" } } });
    F2.push_back({ "count", [](Q &q) { q.where = eq(RK, SK); q.grouped = true; q.aggs = { { "COUNT", nullptr } }; q.sel = { { q.agg(0), "" } }; }, { { "R", "" }, { "S", "" } } });
    F2.push_back({ "expression over both", [](Q &q) { q.where = bin("<=", RV, SV); q.sel = { { bin("+", bin("*", RK, k(10)), SK), "" }, { bin("<", RV, SK), "" }, { isnull(SV), "" } }; }, { { "R", "" }, { "S", "" } } });

    /*----- forms over R, S, U -----------------------------------------------------------------------------------------*/
    auto add3 = [&](std::string n, std::function<E(Q&)> w) {
        static const char *perm[][3] = { { "R", "S", "U" }, { "U", "S", "R" }, { "S", "U", "R" } };
        for (auto &p : perm) F3.push_back({ n + " " + p[0] + p[1] + p[2], [w](Q &q) { q.where = w(q); sel_all(q); }, { { p[0], "" }, { p[1], "" }, { p[2], "" } } });
    };
    add3("cross", [](Q&) { return E(); });
    add3("chain", [](Q &q) { return bin("AND", eq(RK, SK), eq(SK, UK)); });
    add3("chain v", [](Q &q) { return bin("AND", eq(RK, SK), eq(SV, UK)); });
    add3("star", [](Q &q) { return bin("AND", eq(RK, SK), eq(RK, UK)); });
    add3("star v", [](Q &q) { return bin("AND", eq(RK, SK), eq(RV, UK)); });
    add3("cycle", [](Q &q) { return conj({ eq(RK, SK), eq(SK, UK), eq(UK, RK) }); });
    add3("cycle v", [](Q &q) { return conj({ eq(RK, SK), eq(SV, UK), eq(UV, RV) }); });
    add3("cycle mixed", [](Q &q) { return conj({ eq(RK, SK), eq(SV, UK), bin("<", UV, RV) }); });
    add3("disconnected", [](Q &q) { return eq(RK, SK); });
    add3("disconnected 2", [](Q &q) { return bin("AND", eq(SK, UK), eq(RV, k(1))); });
    add3("unequal", [](Q &q) { return bin("AND", bin("!=", RK, SK), bin("!=", SK, UK)); });
    add3("less chain", [](Q &q) { return bin("AND", bin("<", RK, SK), bin("<=", SK, UK)); });
    add3("equal + less", [](Q &q) { return bin("AND", eq(RK, SK), bin(">", SK, UK)); });
    add3("filters", [](Q &q) { return conj({ eq(RK, SK), eq(SK, UK), eq(RV, k(1)), bin("<", UV, k(1)) }); });
    add3("or edge", [](Q &q) { return bin("AND", bin("OR", eq(RK, SK), eq(RV, SV)), eq(SK, UK)); });
    add3("double edge", [](Q &q) { return conj({ eq(RK, SK), eq(RV, SV), eq(SK, UK) }); });
    F3.push_back({ "self chain", [](Q &q) { q.where = bin("AND", eq(q.c("A", "k"), q.c("B", "k")), eq(q.c("B", "v"), q.c("Z", "v"))); sel_all(q); }, { { "R", "A" }, { "R", "B" }, { "R", "Z" } } });
    F3.push_back({ "self and other", [](Q &q) { q.where = bin("AND", eq(q.c("R", "k"), q.c("S", "k")), eq(q.c("S", "v"), q.c("B", "k"))); sel_all(q); }, { { "R", "" }, { "S", "" }, { "R", "B" } } });
    F3.push_back({ "star select", [](Q &q) { q.where = bin("AND", eq(RK, SK), eq(SV, UV)); q.star = true; }, { { "R", "" }, { "S", "" }, { "U", "" } } });

    auto run_forms = [&](const std::vector<Form> &F, const std::map<std::string, const Table*> &tabs, const std::string &ctx, mc::Worker &W, bool order_cfg = false) {
        (void) order_cfg;
        for (auto &f : F) { Q q = make(f, tabs); check_query(E_(), q, W, f.name, ctx); W.outcome(mc::hash_str(f.name + ctx)); W.states(); }
    };

    { /* key contents: sequences of {NULL,0,1} */
        const unsigned ml = C.thorough ? 4 : 3; u64 n = num_seqs(3, ml);
        C.explore("two tables, keys", n * n, [&, n](u64 i, mc::Worker &W) {
            Table R = mk_table("R", nth_seq(i % n, 3), 0), S = mk_table("S", nth_seq(i / n, 3), 0);
            load(E_(), { &R, &S }, W);
            auto ctx = R.dump() + " " + S.dump();
            run_forms(F2, { { "R", &R }, { "S", &S } }, ctx, W);
            if (i % 211 == 7) W.sample(make(F2[i % F2.size()], { { "R", &R }, { "S", &S } }).sql() + " on " + ctx);
        });
    }
    { /* key and value contents: sequences of pairs */
        u64 n = num_seqs(9, 2), m = C.thorough ? n : num_seqs(9, 1);
        C.explore("two tables, pairs", n * m * 2, [&, n, m](u64 i, mc::Worker &W) {
            mc::Digits d(i); auto a = nth_seq(d.next(n), 9), b = nth_seq(d.next(m), 9); if (d.next(2)) std::swap(a, b);
            Table R = mk_table("R", a, 1), S = mk_table("S", b, 1);
            load(E_(), { &R, &S }, W);
            run_forms(F2, { { "R", &R }, { "S", &S } }, R.dump() + " " + S.dump(), W);
        });
    }
    { /* three tables */
        u64 n = num_seqs(3, 2);
        C.explore("three tables, keys", n * n * n, [&, n](u64 i, mc::Worker &W) {
            mc::Digits d(i);
            Table R = mk_table("R", nth_seq(d.next(n), 3), 0), S = mk_table("S", nth_seq(d.next(n), 3), 0), U = mk_table("U", nth_seq(d.next(n), 3), 0);
            load(E_(), { &R, &S, &U }, W);
            run_forms(F3, { { "R", &R }, { "S", &S }, { "U", &U } }, R.dump() + " " + S.dump() + " " + U.dump(), W);
        });
        u64 p = num_seqs(9, 1);
        C.explore("three tables, pairs", p * p * p, [&, p](u64 i, mc::Worker &W) {
            mc::Digits d(i); auto two = [](std::vector<unsigned> s, unsigned extra) { s.push_back(extra); return s; };
            Table R = mk_table("R", two(nth_seq(d.next(p), 9), 4), 1), S = mk_table("S", two(nth_seq(d.next(p), 9), 7), 1), U = mk_table("U", two(nth_seq(d.next(p), 9), 5), 1);
            load(E_(), { &R, &S, &U }, W);
            run_forms(F3, { { "R", &R }, { "S", &S }, { "U", &U } }, R.dump() + " " + S.dump() + " " + U.dump(), W);
        });
    }
    { /* key types: every pair of comparable types, all sequences up to length 2 of {NULL, two values} on both sides */
        struct TV { Ty t; std::vector<V> v; };
        std::vector<std::vector<TV>> groups{
            { { ti(1), { N, V::I(0), V::I(1), V::I(-1) } }, { ti(2), { N, V::I(0), V::I(1), V::I(256) } }, { ti(4), { N, V::I(0), V::I(1), V::I(65536) } }, { ti(8), { N, V::I(0), V::I(1), V::I(4294967296LL) } },
              { tf(), { N, V::D(0), V::D(1), V::D(0.5) } }, { td(), { N, V::D(0), V::D(1), V::D(0.5) } }, { tdec(5, 2), { N, V::I(0), V::I(100), V::I(50) } }, { tdec(9, 1), { N, V::I(0), V::I(10), V::I(5) } } },
            { { ts(1), { N, V::S(""), V::S("a"), V::S("b") } }, { ts(3), { N, V::S(""), V::S("a"), V::S("abc") } }, { ts(3, true), { N, V::S("a"), V::S("ab"), V::S("abc") } }, { ts(5, true), { N, V::S(""), V::S("ab"), V::S("abc") } } },
            { { tdate(), { N, mkdate(2000, 1, 1), mkdate(1999, 12, 31), mkdate(-1, 1, 1) } } },
            { { tdt(), { N, mkdt(2000, 1, 1, 0, 0, 0), mkdt(2000, 1, 1, 0, 0, 1), mkdt(1969, 12, 31, 0, 0, 0) } } },
            { { tb(), { N, V::B(false), V::B(true), V::B(true) } } } };
        std::vector<std::pair<TV, TV>> pairs; for (auto &g : groups) for (auto &a : g) for (auto &b : g) pairs.emplace_back(a, b);
        u64 n = num_seqs(4, 2);
        C.explore("key types", pairs.size() * n * n, [&, n](u64 i, mc::Worker &W) {
            mc::Digits d(i); auto a = nth_seq(d.next(n), 4), b = nth_seq(d.next(n), 4); auto &[x, y] = pairs[d.next(pairs.size())];
            Table R; R.name = "R"; R.cols = { { "id", ti(4) }, { "k", x.t } }; Table S; S.name = "S"; S.cols = { { "k", y.t }, { "id", ti(4) } };
            int64_t id = 0; for (auto s : a) R.rows.push_back({ V::I(++id), x.v[s] }); id = 10; for (auto s : b) S.rows.push_back({ y.v[s], V::I(++id) });
            load(E_(), { &R, &S }, W);
            auto ctx = R.create() + S.create() + R.dump() + " " + S.dump();
            for (auto op : { "=", "!=", "<", ">=" }) {
                if (x.t.k == BOOL and (op[0] == '<' or op[0] == '>')) continue;
                Q q; q.from = { src(R), src(S) }; q.where = bin(op, RK, SK); sel_all(q); check_query(E_(), q, W, "types " + x.t.sql() + op + y.t.sql(), ctx);
                q.where = bin(op, SK, RK); check_query(E_(), q, W, "types rev " + x.t.sql() + op + y.t.sql(), ctx);
                W.states(2); W.outcome(mc::hash_str(ctx + op));
            }
        });
    }
    { /* match counts around the block size */
        std::vector<unsigned> cnt{ 0, 1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 130, 191, 192, 193 }; if (C.thorough) for (unsigned x : { 3, 4, 95, 96, 97, 126, 131, 255, 256, 257, 320 }) cnt.push_back(x);
        C.explore("match counts", cnt.size() * cnt.size() * 3, [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned n = cnt[d.next(cnt.size())], m = cnt[d.next(cnt.size())], shape = d.next(3);
            Table R; R.name = "R"; R.cols = { { "id", ti(4) }, { "k", ti(4) }, { "v", ti(4) } }; Table S = R; S.name = "S";
            for (unsigned j = 0; j != n; ++j) R.rows.push_back({ V::I(j), shape == 0 ? V::I(0) : shape == 1 ? V::I(j % 64) : (j % 5 ? V::I(j / 3) : N), V::I(j % 7) });
            for (unsigned j = 0; j != m; ++j) S.rows.push_back({ V::I(j), shape == 0 ? V::I(0) : shape == 1 ? V::I(j % 64) : (j % 7 ? V::I(j / 2) : N), V::I(j % 5) });
            load(E_(), { &R, &S }, W);
            auto ctx = std::to_string(n) + "x" + std::to_string(m) + " rows, key distribution " + std::to_string(shape);
            for (int f = 0; f != 7; ++f) {
                Q q; q.from = { src(R), src(S) }; q.sel = { { q.c("R", "id"), "" }, { q.c("S", "id"), "" } };
                switch (f) { case 0: q.where = eq(RK, SK); break; case 1: q.where = bin("AND", eq(RK, SK), bin("!=", RV, SV)); break; case 2: q.where = bin("AND", bin("<", RK, SK), eq(RV, k(0))); break;
                    case 3: q.where = bin("AND", eq(RV, k(0)), eq(SV, k(0))); break; case 4: q.from = { src(S), src(R) }; q.sel = { { q.c("R", "id"), "" }, { q.c("S", "id"), "" } }; q.where = eq(RK, SK); break;
                    case 5: q.where = conj({ eq(RK, SK), eq(RV, SV), bin("<", q.c("S", "id"), k(100)) }); break;
                    case 6: q.where = bin("AND", bin("<", bin("+", RK, SK), k(2)), eq(q.c("R", "id"), q.c("S", "id"))); break; }
                check_query(E_(), q, W, "matches form " + std::to_string(f), ctx); W.states(); W.outcome(mc::hash_mix(i, f)); W.tick();
            }
        });
    }
    { /* four tables: all connected labelled graphs on four nodes x plan enumerators x contents */
        static const char *PE[] = { "DPccp", "DPsize", "DPsizeOpt", "DPsizeSub", "DPsub", "DPsubOpt", "GOO", "TDbasic", "TDMinCutAGaT", "LinearizedDP", "TDGOO" };
        static const char *T4[] = { "R", "S", "U", "Z" };
        std::vector<std::pair<int, int>> edges; for (int a = 0; a != 4; ++a) for (int b = a + 1; b != 4; ++b) edges.emplace_back(a, b);
        std::vector<unsigned> graphs; for (unsigned g = 0; g != 64; ++g) graphs.push_back(g);
        const unsigned nc = C.thorough ? 81 : 16;
        C.explore("four tables, plans", u64(nc) * 64, [&, nc](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned c = d.next(nc), g = d.next(64);
            std::vector<Table> T; for (int t = 0; t != 4; ++t) {
                std::vector<unsigned> s; unsigned x = C.thorough ? (c / (t == 0 ? 1 : t == 1 ? 3 : t == 2 ? 9 : 27)) % 3 : c >> t & 1;
                if (x == 0) s = { 1, 2 }; else if (x == 1) s = { 2, 0, 1, 2 }; else s = { 2 };
                T.push_back(mk_table(T4[t], s, 0));
            }
            static std::string cur_pe;
            load(E_(), { &T[0], &T[1], &T[2], &T[3] }, W);
            std::string ctx; for (auto &t : T) ctx += t.dump() + " ";
            for (auto pe : PE) {
                auto &Cat = m::Catalog::Get(); Cat.default_plan_enumerator(Cat.pool(pe));
                Q q; for (auto &t : T) q.from.push_back(src(t)); std::vector<E> w;
                for (unsigned e = 0; e != 6; ++e) if (g >> e & 1) { auto a = q.c(T4[edges[e].first], (e + g) % 2 ? "k" : "v"), b = q.c(T4[edges[e].second], "k"); w.push_back(e % 3 == 2 ? bin("<=", a, b) : eq(a, b)); }
                q.where = conj(w); for (auto t : T4) q.sel.push_back({ q.c(t, "id"), "" });
                /* strategies other than the default need a connected graph */
                unsigned reach = 1; for (int it = 0; it != 4; ++it) for (unsigned e = 0; e != 6; ++e) if (g >> e & 1) { unsigned m = 1u << edges[e].first | 1u << edges[e].second; if (reach & m) reach |= m; }
                if (reach != 15 and std::string(pe) != "DPccp") continue;
                check_query(E_(), q, W, std::string("four ") + pe, ctx); W.states(); W.outcome(mc::hash_str(q.sql() + ctx + pe));
            }
        });
    }
    return C.finish();
}
