/* C05 -- nested queries in FROM.  Every inner shape x every outer shape (two levels deep as well) on all small contents and
 * on row counts around the block size; the reference evaluates the outer query on the materialised inner result. */
#include "common/mc.hpp"
#include "common/refquery.hpp"

using namespace ref;
using u64 = uint64_t;
static sqlkit::Engine *eng;
static sqlkit::Engine & E_() { if (not eng) eng = new sqlkit::Engine(); return *eng; }
static const V N = V::N();
static E num(int64_t x) { return cst(V::I(x), ti(4)); }

/* An inner query produces columns a (INT-like), b (INT-like) and possibly more. */
struct Inner { std::string name; std::function<Q(const Src &R, const Src &S)> f; };
struct Outer { std::string name; std::function<void(Q&)> f; bool join = false; };

static E C_(const Q &q, const Src &s, const std::string &c) { return q.c(s.name, c); }

static std::vector<Inner> inners() {
    std::vector<Inner> r;
    auto add = [&](std::string n, std::function<void(Q&, const Src&, const Src&)> f, bool join = false) {
        r.push_back({ n, [f, join](const Src &R, const Src &S) { Q q; q.from = { R }; if (join) q.from.push_back(S); f(q, R, S); return q; } });
    };
#define RA q.c(R.name, "a")
#define RB q.c(R.name, "b")
#define RI q.c(R.name, "id")
#define UA q.c(R.name, "a", false)
#define UB q.c(R.name, "b", false)
    add("columns", [](Q &q, const Src &R, const Src&) { q.sel = { { RA, "" }, { RB, "" } }; });
    add("one column twice", [](Q &q, const Src &R, const Src&) { q.sel = { { RA, "a" }, { RA, "b" } }; });
    add("renamed", [](Q &q, const Src &R, const Src&) { q.sel = { { RB, "a" }, { RA, "b" } }; });
    add("filter", [](Q &q, const Src &R, const Src&) { q.sel = { { RA, "" }, { RB, "" } }; q.where = bin("=", RA, num(1)); });
    add("filter null", [](Q &q, const Src &R, const Src&) { q.sel = { { RB, "b" }, { RA, "a" } }; q.where = isnull(RB); });
    add("empty", [](Q &q, const Src &R, const Src&) { q.sel = { { RA, "" }, { RB, "" } }; q.where = cst(V::B(false), tb()); });
    add("expressions", [](Q &q, const Src &R, const Src&) { q.sel = { { bin("+", RA, num(1)), "a" }, { bin("*", RB, RA), "b" } }; });
    add("hidden filter column", [](Q &q, const Src &R, const Src&) { q.sel = { { RA, "a" }, { RI, "b" } }; q.where = bin(">=", RB, num(0)); });
    add("star", [](Q &q, const Src&, const Src&) { q.star = true; });
    add("star filter", [](Q &q, const Src &R, const Src&) { q.star = true; q.where = bin("!=", RA, num(0)); });
    add("grouping", [](Q &q, const Src &R, const Src&) { q.grouped = true; q.keys = { UA }; q.aggs = { { "COUNT", nullptr } }; q.sel = { { q.key(0), "a" }, { q.agg(0), "b" } }; });
    add("grouping sum", [](Q &q, const Src &R, const Src&) { q.grouped = true; q.keys = { UA }; q.aggs = { { "SUM", RB }, { "COUNT", RB } }; q.sel = { { q.agg(0), "b" }, { q.key(0), "a" }, { q.agg(1), "n" } }; });
    add("grouping two keys", [](Q &q, const Src &R, const Src&) { q.grouped = true; q.keys = { UA, UB }; q.sel = { { q.key(0), "a" }, { q.key(1), "b" } }; });
    add("grouping having", [](Q &q, const Src &R, const Src&) { q.grouped = true; q.keys = { UA }; q.aggs = { { "COUNT", nullptr }, { "MAX", RB } }; q.having = bin(">", q.agg(0), num(1)); q.sel = { { q.key(0), "a" }, { q.agg(1), "b" } }; });
    add("aggregation", [](Q &q, const Src &R, const Src&) { q.grouped = true; q.aggs = { { "COUNT", nullptr }, { "MIN", RA } }; q.sel = { { q.agg(0), "a" }, { q.agg(1), "b" } }; });
    add("aggregation filtered", [](Q &q, const Src &R, const Src&) { q.grouped = true; q.where = isnull(RB); q.aggs = { { "COUNT", RA }, { "SUM", RA } }; q.sel = { { q.agg(0), "a" }, { q.agg(1), "b" } }; });
    add("ordered", [](Q &q, const Src &R, const Src&) { q.sel = { { RA, "" }, { RB, "" } }; q.order = { { RA, 2 } }; });
    add("ordered limit", [](Q &q, const Src &R, const Src&) { q.sel = { { RA, "a" }, { RB, "b" } }; q.order = { { RI, 2 } }; q.limit = 2; });
    add("ordered limit offset", [](Q &q, const Src &R, const Src&) { q.sel = { { RA, "a" }, { RI, "b" } }; q.order = { { RI, 1 } }; q.limit = 2; q.offset = 1; });
    add("limit all", [](Q &q, const Src &R, const Src&) { q.sel = { { RA, "a" }, { RB, "b" } }; q.limit = 1000; });
    add("limit none", [](Q &q, const Src &R, const Src&) { q.sel = { { RA, "a" }, { RB, "b" } }; q.limit = 0; });
    add("grouped ordered limit", [](Q &q, const Src &R, const Src&) { q.grouped = true; q.keys = { UA }; q.aggs = { { "COUNT", nullptr } }; q.sel = { { q.key(0), "a" }, { q.agg(0), "b" } }; q.order = { { q.key(0), 2 } }; q.limit = 1; q.offset = 1; });
    add("join", [](Q &q, const Src &R, const Src &S) { q.where = bin("=", RA, q.c(S.name, "a")); q.sel = { { RB, "a" }, { q.c(S.name, "b"), "b" } }; }, true);
    add("cross", [](Q &q, const Src &R, const Src &S) { q.sel = { { RA, "a" }, { q.c(S.name, "b"), "b" } }; }, true);
    add("join grouped", [](Q &q, const Src &R, const Src &S) { q.where = bin("<=", RA, q.c(S.name, "a")); q.grouped = true; q.keys = { q.c(S.name, "b") }; q.key_alias[0] = "a"; q.aggs = { { "COUNT", nullptr } }; q.sel = { { q.key(0), "" }, { q.agg(0), "b" } }; }, true);
    return r;
}
static std::vector<Outer> outers() {
    std::vector<Outer> r;
    auto add = [&](std::string n, std::function<void(Q&)> f, bool join = false) { r.push_back({ n, f, join }); };
#define XA q.c("X", "a")
#define XB q.c("X", "b")
#define QA q.c("X", "a", false)
#define QB q.c("X", "b", false)
#define YA q.c(q.from[1].name, "a")
#define YB q.c(q.from[1].name, "b")
    add("columns", [](Q &q) { q.sel = { { XA, "" }, { XB, "" } }; });
    add("star", [](Q &q) { q.star = true; });
    add("one column", [](Q &q) { q.sel = { { XB, "" } }; });
    add("unqualified", [](Q &q) { q.sel = { { QB, "" }, { QA, "" } }; });
    add("filter", [](Q &q) { q.sel = { { XA, "" }, { XB, "" } }; q.where = bin("=", XA, num(1)); });
    add("filter both", [](Q &q) { q.sel = { { XB, "" } }; q.where = bin("OR", isnull(XA), bin(">", XB, num(0))); });
    add("filter hidden", [](Q &q) { q.sel = { { XB, "" } }; q.where = un("NOT", isnull(XA)); });
    add("filter many", [](Q &q) { q.sel = { { XA, "" } }; q.where = bin("AND", bin("AND", bin("AND", bin("<=", XA, num(5)), bin("OR", isnull(XB), bin("!=", XB, num(1)))), bin("AND", bin("!=", XA, num(7)), bin("OR", bin("<", XB, num(9)), isnull(XB)))), bin("AND", bin("!=", XA, num(0)), bin("AND", bin(">=", XA, num(-1)), bin("!=", XA, num(8))))); });
    add("expressions", [](Q &q) { q.sel = { { bin("-", XA, XB), "" }, { bin("<", XA, XB), "" }, { isnull(XB), "" } }; });
    add("constant", [](Q &q) { q.sel = { { num(5), "" } }; });
    add("count", [](Q &q) { q.grouped = true; q.aggs = { { "COUNT", nullptr } }; q.sel = { { q.agg(0), "" } }; });
    add("aggregates", [](Q &q) { q.grouped = true; q.aggs = { { "COUNT", XA }, { "SUM", XB }, { "MIN", XA }, { "MAX", XB } }; for (int i = 0; i != 4; ++i) q.sel.push_back({ q.agg(i), "" }); });
    add("aggregates filtered", [](Q &q) { q.where = isnull(XB); q.grouped = true; q.aggs = { { "COUNT", XA }, { "SUM", XA } }; for (int i = 0; i != 2; ++i) q.sel.push_back({ q.agg(i), "" }); });
    add("grouping filtered", [](Q &q) { q.where = bin(">=", XA, num(1)); q.grouped = true; q.keys = { QB }; q.aggs = { { "COUNT", nullptr } }; q.sel = { { q.key(0), "" }, { q.agg(0), "" } }; });
    add("ordered filtered", [](Q &q) { q.where = un("NOT", isnull(XB)); q.sel = { { XA, "" } }; q.order = { { XA, 2 } }; });
    add("grouping", [](Q &q) { q.grouped = true; q.keys = { QA }; q.aggs = { { "COUNT", nullptr }, { "SUM", XB } }; q.sel = { { q.key(0), "" }, { q.agg(0), "" }, { q.agg(1), "" } }; });
    add("grouping by b", [](Q &q) { q.grouped = true; q.keys = { QB }; q.aggs = { { "MIN", XA } }; q.sel = { { q.agg(0), "" } }; });
    add("grouping having", [](Q &q) { q.grouped = true; q.keys = { QA, QB }; q.aggs = { { "COUNT", nullptr } }; q.having = bin(">=", q.agg(0), num(2)); q.sel = { { q.key(1), "" }, { q.key(0), "" } }; });
    add("ordered", [](Q &q) { q.sel = { { XA, "" }, { XB, "" } }; q.order = { { XB, 2 }, { XA, 1 } }; });
    add("ordered hidden", [](Q &q) { q.sel = { { XB, "" } }; q.order = { { XA, 1 } }; });
    add("ordered limit", [](Q &q) { q.sel = { { XA, "" }, { XB, "" } }; q.order = { { XA, 1 }, { XB, 2 } }; q.limit = 1; q.offset = 1; });
    add("limit", [](Q &q) { q.sel = { { XA, "" } }; q.limit = 2; });
    add("join equi", [](Q &q) { q.where = bin("=", XA, YA); q.sel = { { XB, "" }, { YB, "" } }; }, true);
    add("join equi b", [](Q &q) { q.where = bin("AND", bin("=", YB, XB), bin("!=", XA, num(7))); q.sel = { { XA, "" }, { XB, "" }, { YA, "" } }; }, true);
    add("join less", [](Q &q) { q.where = bin("<", XA, YA); q.sel = { { XA, "" }, { YA, "" } }; }, true);
    add("cross", [](Q &q) { q.sel = { { XA, "" }, { YA, "" }, { XB, "" } }; }, true);
    add("join equi filtered", [](Q &q) { q.where = bin("AND", bin("=", XA, YA), bin("AND", un("NOT", isnull(XB)), bin(">=", YB, num(0)))); q.sel = { { YA, "" }, { YB, "" } }; }, true);
    add("join less filtered", [](Q &q) { q.where = bin("AND", bin("<", XA, YA), bin("=", XB, num(0))); q.sel = { { YB, "" }, { XA, "" } }; }, true);
    add("star join", [](Q &q) { q.where = bin("=", XA, YB); q.star = true; }, true);
    add("join grouped", [](Q &q) { q.where = bin("=", XA, YA); q.grouped = true; q.keys = { XB }; q.key_alias[0] = "g"; q.aggs = { { "COUNT", YB } }; q.sel = { { q.key(0), "" }, { q.agg(0), "" } }; }, true);
    return r;
}

int main(int argc, char **argv)
{
    mc::Check C("C05", "model_checking", argc, argv);
    C.rule = "every composition of inner and outer query shape on all contents within the bounds; one outcome per (composition, contents)";
    auto IN = inners(); auto OUT = outers();
    auto table = [](const char *name, const std::vector<unsigned> &s, int64_t id) {
        static const V dom[] = { N, V::I(0), V::I(1) };
        Table T; T.name = name; T.cols = { { "id", ti(4) }, { "a", ti(4) }, { "b", ti(4) } };
        for (auto x : s) T.rows.push_back({ V::I(id++), dom[x % 3], dom[x / 3 % 3] });
        return T;
    };
    auto one = [&](const Inner &in, const Outer &out, const Table &R, const Table &S, int mode, const std::string &ctx, mc::Worker &W) {
        /* mode 0: subquery X (, table S)   1: (table S,) subquery X   2: subquery joined with another subquery */
        Q iq = in.f(src(R), src(S));
        Q q; Src x = iq.nest("X");
        if (mode == 2) { Q i2; i2.from = { src(S) }; i2.sel = { { i2.c("S", "b"), "a" }, { bin("+", i2.c("S", "a"), num(0)), "b" } }; i2.where = un("NOT", isnull(i2.c("S", "b"))); q.from = { x, i2.nest("Y") }; }
        else if (mode == 3) { Q i2 = in.f(src(S), src(R)); q.from = { x, i2.nest("Y") }; }
        else { q.from = { x }; if (out.join) q.from.push_back(src(S)); }
        /* the sources must provide a and b uniquely */
        for (auto &f : q.from) { int na = 0, nb = 0; for (auto &c : f.rel.cols) { na += c.first == "a"; nb += c.first == "b"; } if (na != 1 or nb != 1) return; }
        out.f(q);
        check_query(E_(), q, W, in.name + " / " + out.name + " mode " + std::to_string(mode), ctx); W.states(); W.outcome(mc::hash_str(q.sql() + ctx));
    };
    { /* all contents */
        const unsigned ml = C.thorough ? 4 : 3; u64 n = num_seqs(9, ml), m = C.thorough ? num_seqs(9, 1) : 4;
        C.explore("compositions", n * m, [&, n, m](u64 i, mc::Worker &W) {
            mc::Digits d(i); auto s = nth_seq(d.next(n), 9); unsigned k = d.next(m);
            static const std::vector<std::vector<unsigned>> sc{ {}, { 4, 8 }, { 4, 4, 0, 7 }, { 8, 3, 1 } };
            Table R = table("R", s, 1), S = table("S", C.thorough ? nth_seq(k, 9) : sc[k], 11);
            if (C.thorough and k) for (unsigned z : { 4u, 8u, 3u }) S.rows.push_back(table("S", { z }, 20 + z).rows[0]);
            load(E_(), { &R, &S }, W); auto ctx = R.dump() + " " + S.dump();
            const bool few = s.size() == 3 and not C.thorough;
            unsigned c = 0;
            for (auto &in : IN) for (auto &out : OUT) {
                ++c; const bool uses_S = out.join or in.name.find("join") == 0 or in.name == "cross"; if (k and not uses_S) continue;
                if (few and (c + i) % 3) continue; // every composition still meets every class of contents
                one(in, out, R, S, 0, ctx, W); if (out.join) { one(in, out, R, S, 2, ctx, W); one(in, out, R, S, 3, ctx, W); }
            }
            if (i % 977 == 3) W.sample("all compositions on " + ctx);
        });
    }
    { /* two levels */
        u64 n = num_seqs(9, 2);
        C.explore("two levels", IN.size() * IN.size() * 3, [&, n](u64 i, mc::Worker &W) {
            mc::Digits d(i); auto &i1 = IN[d.next(IN.size())], &i2 = IN[d.next(IN.size())]; unsigned c = d.next(3);
            Table R = table("R", c == 0 ? std::vector<unsigned>{ 4, 8, 3, 5, 4 } : c == 1 ? std::vector<unsigned>{ 0, 1, 2, 4 } : std::vector<unsigned>{ 7, 7, 8 }, 1), S = table("S", { 4, 8, 0, 7 }, 11);
            load(E_(), { &R, &S }, W); auto ctx = R.dump() + " " + S.dump();
            Q q1 = i1.f(src(R), src(S)); Src x1 = q1.nest("P");
            int na = 0, nb = 0, ni = 0; for (auto &cc : x1.rel.cols) { na += cc.first == "a"; nb += cc.first == "b"; ni += cc.first == "id"; } if (na != 1 or nb != 1) return;
            if (not ni) { /* the second level may refer to id: provide it if the first does not */
                if (i2.name == "hidden filter column" or i2.name.find("ordered limit") == 0) return;
            }
            Q q2 = i2.f(x1, src(S)); Src x2 = q2.nest("X");
            na = nb = 0; for (auto &cc : x2.rel.cols) { na += cc.first == "a"; nb += cc.first == "b"; } if (na != 1 or nb != 1) return;
            for (auto &out : OUT) {
                Q q; q.from = { x2 }; if (out.join) q.from.push_back(src(S)); out.f(q);
                check_query(E_(), q, W, i1.name + " / " + i2.name + " / " + out.name, ctx); W.states(); W.outcome(mc::hash_str(q.sql() + ctx));
            }
        });
    }
    { /* block boundaries */
        std::vector<unsigned> R{ 0, 1, 63, 64, 65, 127, 128, 129, 200 };
        C.explore("block boundaries", R.size() * IN.size(), [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned n = R[d.next(R.size())]; auto &in = IN[d.next(IN.size())];
            Table T; T.name = "R"; T.cols = { { "id", ti(4) }, { "a", ti(4) }, { "b", ti(4) } };
            for (unsigned j = 0; j != n; ++j) T.rows.push_back({ V::I(j), j % 5 ? V::I(j % 3) : N, j % 7 ? V::I(j % 2) : N });
            Table S = table("S", { 4, 8 }, 11); load(E_(), { &T, &S }, W);
            for (auto &out : OUT) { one(in, out, T, S, 0, std::to_string(n) + " rows", W); W.tick(); }
        });
    }
    return C.finish();
}
