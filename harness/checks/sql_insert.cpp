/* INSERT: all conversions of literal kinds to column types, and all histories of INSERT statements up to a depth, against
 * a list model, for every data layout and store. */
#include "common/refquery.hpp"
using namespace ref; using namespace sqlkit;
using u64 = uint64_t;
static const V N = V::N();
static Engine &E_() { static Engine e; return e; }

struct Lit { std::string text; V val; Ty ty; }; ///< what is written, what it denotes

/** The value a column of type `to` must hold after inserting a value of type `from`; `ok` is cleared where the
 * documentation leaves the result open (out of range, fractions into integers). */
static V convert(const V &v, const Ty &from, const Ty &to, bool &ok) {
    if (v.null) return v;
    if (to.k == STR) return V::S(v.s.substr(0, to.n));
    if (to.k == BOOL or to.k == DATE or to.k == DT) return v;
    long double x = from.floating() ? v.d : from.k == DEC ? (long double)(v.i) / pow10i(from.scale) : (long double)(v.i);
    switch (to.k) {
        case INT: { long double lim = powl(2, 8 * to.n - 1); if (x != floorl(x) or x >= lim or x < -lim) ok = false; return V::I(ok ? int64_t(x) : 0); }
        case FLT: return V::D(double(float(x)));
        case DBL: return V::D(double(x));
        default: { long double y = roundl(x * pow10i(to.scale)); if (fabsl(y) >= powl(10, to.n)) ok = false; return V::I(ok ? int64_t(y) : 0); }
    }
}
static bool same_group(const Ty &a, const Ty &b) { return (a.numeric() and b.numeric()) or a.k == b.k; }

static std::vector<Lit> literals() {
    std::vector<Lit> L;
    auto num = [&](std::string t, int64_t x, int n) { L.push_back({ t, V::I(x), ti(n) }); };
    num("0", 0, 4); num("1", 1, 4); num("-1", -1, 4); num("7", 7, 4); num("127", 127, 4); num("-128", -128, 4); num("128", 128, 4); num("-32768", -32768, 4); num("32767", 32767, 4); num("65536", 65536, 4);
    num("2147483647", 2147483647, 4); num("-2147483648", -2147483648LL, 8); num("4294967297", 4294967297LL, 8); num("9223372036854775807", INT64_MAX, 8); num("-9223372036854775807", -INT64_MAX, 8);
    num("(3 + 4)", 7, 4); num("2 * -21", -42, 4); num("0x1F", 31, 4); num("017", 15, 4); num("7 % 4", 3, 4);
    auto dbl = [&](std::string t, double x) { L.push_back({ t, V::D(x), td() }); };
    dbl("0.0", 0); dbl("1.5", 1.5); dbl("-2.25", -2.25); dbl("0.29", 0.29); dbl("-0.57", -0.57); dbl("3.0", 3); dbl("-4.0", -4); dbl("12345.67", 12345.67); dbl("1e10", 1e10); dbl("1.5 + 1.5", 3); dbl("0.1", 0.1);
    for (std::string s : { "", "a", "ab", "abc", "abcd", "abcde", "abcdefghijkl", "a b", "x,y", "\\q\"" }) L.push_back({ ref::quote(s), V::S(s), ts(int(s.size())) });
    L.push_back({ "\"a\" .. \"b\"", V::S("ab"), ts(2) });
    L.push_back({ "\"abc\" .. \"de\"", V::S("abcde"), ts(5) });
    for (auto d : { mkdate(2000, 2, 29), mkdate(1, 1, 1), mkdate(9999, 12, 31), mkdate(-44, 3, 15), mkdate(1969, 12, 31) }) L.push_back({ lit(d, tdate()), d, tdate() });
    for (auto d : { mkdt(2000, 2, 29, 23, 59, 59), mkdt(1970, 1, 1, 0, 0, 0), mkdt(1969, 12, 31, 23, 59, 58), mkdt(1, 1, 1, 0, 0, 1) }) L.push_back({ lit(d, tdt()), d, tdt() });
    L.push_back({ "TRUE", V::B(true), tb() }); L.push_back({ "FALSE", V::B(false), tb() }); L.push_back({ "1 < 2", V::B(true), tb() }); L.push_back({ "NOT TRUE", V::B(false), tb() }); L.push_back({ "TRUE AND 2 < 1", V::B(false), tb() });
    L.push_back({ "NULL", N, ti(4) }); L.push_back({ "DEFAULT", N, ti(4) });
    return L;
}

int main(int argc, char **argv)
{
    mc::Check C("C06", "model_checking", argc, argv);
    C.rule = "one outcome per (history of INSERT statements, layout): table contents after every statement equal the list model";
    const char *layouts[] = { "PAX4M", "PAX4K", "PAX16Tup", "PAX128Tup", "Row" };
    const auto L = literals();
    std::vector<Ty> types{ tb(), ti(1), ti(2), ti(4), ti(8), tf(), td(), tdec(8, 2), tdec(18, 4), tdec(5, 0), ts(1), ts(3), ts(4), ts(11), ts(1, true), ts(4, true), tdate(), tdt() };
    auto fresh = [&](unsigned layout) { auto &Cat = m::Catalog::Get(); E_().use_fresh_db(); Cat.default_data_layout(Cat.pool(layouts[layout])); };
    auto expect_rows = [](const std::vector<Row> &rows, const std::vector<Ty> &tys) { std::vector<std::string> r; for (auto &x : rows) r.push_back(show_row(x, tys)); return r; };

    /*----- every literal into every column type, between two neighbour columns ------------------------------------------*/
    C.explore("conversions", types.size() * L.size() * 5 * 3, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); unsigned lay = d.next(5), pos = d.next(3); auto &l = L[d.next(L.size())]; auto &t = types[d.next(types.size())];
        fresh(lay);
        std::vector<Ty> tys{ ti(2), ts(3), tb() }; tys.insert(tys.begin() + pos, t);
        std::string create = "CREATE TABLE T ("; for (unsigned c = 0; c != 4; ++c) create += (c ? ", c" : "c") + std::to_string(c) + " " + tys[c].sql(); create += ");";
        E_().run(create);
        bool ok = true; V v = convert(l.val, l.ty, t, ok); const bool valid = l.val.null or same_group(l.ty, t);
        auto row = [&](int k, const V &x) { Row r{ V::I(k), V::S(k == 1 ? "abc" : "z"), V::B(k == 1) }; r.insert(r.begin() + pos, x); return r; };
        auto text = [&](int k, const std::string &x) { std::vector<std::string> p{ std::to_string(k), k == 1 ? "\"abc\"" : "\"z\"", k == 1 ? "TRUE" : "FALSE" }; p.insert(p.begin() + pos, x); return "(" + p[0] + ", " + p[1] + ", " + p[2] + ", " + p[3] + ")"; };
        std::vector<Row> model;
        auto step = [&](const std::string &s, bool accept, const std::vector<Row> &add) {
            W.describe("insert " + t.sql() + " " + l.text + " :: " + create + " " + s);
            auto r = E_().run(s); W.transitions();
            if (r.ok != accept) { W.fail("accept " + t.sql() + " <- " + l.text, s + (accept ? " rejected: " + r.error : " accepted although ill-typed")); return; }
            if (accept) model.insert(model.end(), add.begin(), add.end());
            auto q = E_().run("SELECT * FROM T;"); W.evals();
            if (not q.ok) { W.fail("select", q.error); return; }
            auto e = expect_rows(model, tys);
            if (q.rows != e) W.fail("value " + t.sql() + " <- " + l.text, create + " " + s + " stores " + joined(q.rows) + " instead of " + joined(e));
        };
        if (valid and not ok) return; // result left open
        step("INSERT INTO T VALUES " + text(1, "NULL") + ";", true, { row(1, N) });
        step("INSERT INTO T VALUES " + text(2, l.text) + ";", valid, { row(2, v) });
        step("INSERT INTO T VALUES " + text(1, l.text) + ", " + text(2, "NULL") + ", " + text(1, l.text) + ", " + text(1, "DEFAULT") + ";", valid, { row(1, v), row(2, N), row(1, v), row(1, N) });
        W.states(3); W.outcome(t.sql() + l.text + std::to_string(lay * 3 + pos));
        if (i % 997 == 0) W.sample(create + " INSERT " + l.text);
    });

    /*----- all histories ------------------------------------------------------------------------------------------------*/
    {
        /* a: INT(4) NOT NULL, b: VARCHAR(3), c: DOUBLE.  A statement inserts one to three of the rows below, or is erroneous. */
        const std::vector<Ty> tys{ ti(4), ts(3, true), td() };
        struct RowT { const char *text; Row vals; };
        const std::vector<RowT> R{
            { "(1, \"abc\", 2.5)", { V::I(1), V::S("abc"), V::D(2.5) } },
            { "(2, NULL, NULL)", { V::I(2), N, N } },
            { "(3, DEFAULT, 7)", { V::I(3), N, V::D(7) } },
            { "(4, \"\", DEFAULT)", { V::I(4), V::S(""), N } },
            { "(-5, \"xyzw\", -1)", { V::I(-5), V::S("xyz"), V::D(-1) } } };
        const std::vector<std::string> bad{ "INSERT INTO T VALUES (1, \"a\");", "INSERT INTO T VALUES (1, \"a\", 1.0), (2, \"b\", 2.0, 3);", "INSERT INTO T VALUES (1, \"a\", 1.0), (NULL, \"b\", 2.0);",
            "INSERT INTO T VALUES (1, \"a\", 1.0), (2, 5, 2.0);", "INSERT INTO U VALUES (1, \"a\", 1.0);", "INSERT INTO T VALUES (1, \"a\", \"1\");", "INSERT INTO T VALUES (1, \"a\", 1.0), ();", "INSERT INTO T VALUES (1, \"a\", x);", "INSERT INTO T VALUES (9, NULL, 1), (DEFAULT, \"b\", 2.0);" };
        std::vector<std::pair<std::string, std::vector<unsigned>>> stmts;
        for (u64 k = 1; k != num_seqs(R.size(), 3); ++k) {
            auto s = nth_seq(k, R.size()); std::string t = "INSERT INTO T VALUES "; for (unsigned x = 0; x != s.size(); ++x) t += (x ? ", " : "") + std::string(R[s[x]].text);
            stmts.push_back({ t + ";", s });
        }
        const std::size_t good = stmts.size();
        for (auto &b : bad) stmts.push_back({ b, {} });
        const std::size_t S = stmts.size(); const u64 depth2 = S * S;
        /* depth 2 over all statements; depth 3 over the short ones */
        std::vector<unsigned> shorts; for (unsigned k = 0; k != S; ++k) if (k < (C.thorough ? 40u : 30u) or k >= good) shorts.push_back(k);
        const u64 H = shorts.size(), deep = C.thorough ? H * H * H * H : H * H * H;
        auto history = [&](const std::vector<unsigned> &h, unsigned lay, mc::Worker &W) {
            fresh(lay); E_().run("CREATE TABLE T (a INT(4) NOT NULL, b VARCHAR(3), c DOUBLE);");
            std::vector<std::string> model; std::string trace;
            for (auto k : h) {
                auto &s = stmts[k]; trace += s.first + " ";
                W.describe("history :: " + trace);
                auto r = E_().run(s.first); W.transitions();
                if (r.ok != (k < good)) { W.fail("history accept", trace + " -> " + (r.ok ? "accepted" : "rejected: " + r.error)); return; }
                for (auto x : s.second) model.push_back(show_row(R[x].vals, tys));
                auto q = E_().run("SELECT * FROM T;"); W.evals(); W.states();
                if (q.rows != model) { W.fail("history " + std::to_string(k), trace + " on " + layouts[lay] + " -> " + joined(q.rows) + " instead of " + joined(model)); return; }
            }
            W.outcome(mc::hash_str(trace) + lay);
        };
        C.explore("histories of two", depth2, [&](u64 i, mc::Worker &W) { mc::Digits d(i); unsigned a = d.next(S), b = d.next(S); history({ a, b }, (a + 3 * b) % 5, W); });
        C.explore("longer histories", deep, [&](u64 i, mc::Worker &W) { mc::Digits d(i); std::vector<unsigned> h; for (unsigned k = 0; k != (C.thorough ? 4 : 3); ++k) h.push_back(shorts[d.next(H)]); history(h, i % 5, W); if (i % 501 == 7) W.sample("history of " + std::to_string(h.size())); });
    }
    /*----- many rows: block and page boundaries --------------------------------------------------------------------------*/
    {
        std::vector<unsigned> ns{ 1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 257, 600 };
        C.explore("row counts", ns.size() * 5 * 4, [&](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned n = ns[d.next(ns.size())], lay = d.next(5), per = (const unsigned[]){ 1, 2, 50, 1000 }[d.next(4)];
            if (per == 1 and n > 129) return;
            fresh(lay); const std::vector<Ty> tys{ tb(), ti(4), ts(3), ti(1), tdate() };
            ref::Table T; T.name = "T"; T.cols = { { "a", tys[0] }, { "b", tys[1] }, { "c", tys[2] }, { "d", tys[3] }, { "e", tys[4] } };
            for (unsigned r = 0; r != n; ++r) T.rows.push_back({ r % 3 ? V::B(r % 2) : N, r % 5 ? V::I(r * 1000) : N, r % 4 ? V::S(std::string(1 + r % 3, char('a' + r % 26))) : N, r % 7 ? V::I(r % 128) : N, r % 2 ? mkdate(1900 + r % 200, 1 + r % 12, 1 + r % 28) : N });
            E_().run(T.create()); unsigned done = 0;
            for (auto &s : T.inserts(per)) { W.describe("rows " + std::to_string(n)); auto r = E_().run(s); W.transitions(); done += per; if (not r.ok) { W.fail("rows", r.error); return; } }
            auto q = E_().run("SELECT * FROM T;"); W.evals(); W.states();
            auto e = expect_rows(T.rows, tys);
            if (q.rows != e) { std::size_t k = 0; while (k < e.size() and k < q.rows.size() and e[k] == q.rows[k]) ++k; W.fail("row count", std::to_string(n) + " rows on " + layouts[lay] + " in statements of " + std::to_string(per) + ": row " + std::to_string(k) + " is " + (k < q.rows.size() ? q.rows[k] : "missing") + " instead of " + (k < e.size() ? e[k] : "none")); }
            W.outcome(i);
        });
    }
    return C.finish();
}
