/* C01 -- filtering and projection.  Every expression of the bounded grammar on a table holding every combination of
 * representative column values (NULL included); every Boolean combination of atoms as condition; every small row count. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include "common/sqlkit.hpp"
#include "common/refsql.hpp"

using namespace ref;
using u64 = uint64_t;

static sqlkit::Engine *eng;
/** Ensures that this process has the given table loaded. */
static void setup(const Table &T, mc::Worker &W) {
    static std::string cur;
    if (cur == T.name and eng) return;
    if (not eng) eng = new sqlkit::Engine();
    W.describe("loading table " + T.name);
    eng->use_fresh_db();
    auto r = eng->run(T.create());
    if (not r.ok) W.fail("create " + T.name, "rejected: " + T.create() + " " + r.error);
    for (auto &s : T.inserts()) { r = eng->run(s); if (not r.ok) W.fail("insert " + T.name, "rejected: " + s + " " + r.error); }
    cur = T.name;
}

/** All rows for the cross product of the columns' value sets. */
static void cross(Table &T, const std::vector<std::vector<V>> &vals) {
    u64 n = 1; for (auto &v : vals) n *= v.size();
    for (u64 i = 0; i != n; ++i) { mc::Digits d(i); Row r; for (auto &v : vals) r.push_back(v[d.next(v.size())]); T.rows.push_back(r); }
}

static void check_select(const Table &T, const std::vector<E> &es, mc::Worker &W, bool retry = true) {
    std::string q = "SELECT ";
    for (std::size_t i = 0; i != es.size(); ++i) q += (i ? ", " : "") + es[i]->text;
    q += " FROM " + T.name + ";";
    W.describe(q);
    auto r = eng->run(q);
    std::vector<Ty> tys; for (auto &e : es) tys.push_back(e->ty);
    bool bad = not r.ok or r.rows.size() != T.rows.size(); std::string detail = bad ? (r.ok ? std::to_string(r.rows.size()) + " rows instead of " + std::to_string(T.rows.size()) : "rejected: " + r.error) : "";
    for (std::size_t k = 0; not bad and k != T.rows.size(); ++k) {
        overflow = false;
        Row o; for (auto &e : es) o.push_back(e->ev(T.rows[k]));
        if (overflow) { if (es.size() > 1 and retry) { bad = true; break; } continue; }
        auto x = show_row(o, tys);
        if (x != r.rows[k]) {
            bad = true; std::vector<Ty> ct; for (auto &c : T.cols) ct.push_back(c.second);
            detail = "row (" + show_row(T.rows[k], ct) + "): got " + r.rows[k] + ", expected " + x;
        }
    }
    if (bad and es.size() > 1 and retry) { for (auto &e : es) check_select(T, { e }, W); return; }
    if (bad) W.fail("select " + es[0]->text, q + " -> " + detail);
    W.states(es.size()); W.evals(es.size() * T.rows.size()); W.transitions();
    for (auto &e : es) W.outcome(mc::hash_str(e->text));
}

static void check_where(const Table &T, const E &cond, mc::Worker &W) {
    std::string q = "SELECT id FROM " + T.name + " WHERE " + cond->text + ";";
    W.describe(q);
    auto r = eng->run(q);
    std::vector<std::string> want;
    for (auto &row : T.rows) { V v = cond->ev(row); if (not v.null and v.i) want.push_back(std::to_string(row[0].i)); }
    if (not r.ok) W.fail("where-rejected " + cond->text, "rejected: " + q + " " + r.error);
    else if (r.rows != want) {
        auto got = r.rows; std::sort(got.begin(), got.end()); auto w = want; std::sort(w.begin(), w.end());
        if (got != w) W.fail("where " + cond->text, q + " -> got ids " + joined(r.rows) + " expected " + joined(want));
    }
    W.states(); W.evals(T.rows.size()); W.transitions(); W.outcome(mc::hash_str(cond->text));
}

static const char *ARITH[] = { "+", "-", "*", "/", "%" };
static const char *CMP[] = { "=", "!=", "<", "<=", ">", ">=" };

/** A zero integral divisor is outside the property (checked separately); does evaluating divide an integer by zero? */
static bool has_int_zero(const std::string &op, const E &b, const Table &T, const Ty &t) {
    if ((op != "/" and op != "%") or t.floating()) return false;
    for (auto &r : T.rows) { V v = b->ev(r); if (not v.null and conv(v, b->ty, t).i == 0) return true; }
    return false;
}
static E safe_bin(const std::string &op, E a, E b, const Table &T) {
    if (not a or not b) return nullptr;
    if ((op == "/" or op == "%") and a->ty.numeric() and b->ty.numeric() and has_int_zero(op, b, T, join(a->ty, b->ty))) return nullptr;
    return bin(op, a, b);
}

int main(int argc, char **argv)
{
    mc::Check C("C01", "model_checking", argc, argv);
    C.rule = "every expression / condition of the stated grammar evaluated on every row of a table that holds all combinations of representative values; one outcome per expression";
    const V N = V::N();

    /*----- wide table: every type ------------------------------------------------------------------------------------*/
    Table T; T.name = "T";
    T.cols = { { "id", ti(4) }, { "b", tb() }, { "i", ti(4) }, { "j", ti(8) }, { "k", ti(2) }, { "h", ti(1) }, { "f", tf() }, { "d", td() }, { "c", tdec(8, 2) },
               { "s", ts(4) }, { "t", ts(6, true) }, { "e", tdate() }, { "m", tdt() } };
    {
        std::vector<V> B{ N, V::B(true), V::B(false) };
        std::vector<V> I{ N, V::I(-3), V::I(1), V::I(2147483647), V::I(-2147483647) };
        std::vector<V> J{ N, V::I(7), V::I(-1), V::I(4294967296LL), V::I(1) };
        std::vector<V> K{ N, V::I(-32768), V::I(32767), V::I(1) };
        std::vector<V> H{ N, V::I(-128), V::I(127), V::I(2) };
        std::vector<V> F{ N, V::D(-1.5), V::D(2.25), V::D(1), V::D(float(0.1)) };
        std::vector<V> D{ N, V::D(1), V::D(-2.5), V::D(0.1), V::D(12345.5) };
        std::vector<V> DC{ N, V::I(100), V::I(-125), V::I(7), V::I(99999), V::I(29) };
        std::vector<V> S{ N, V::S(""), V::S("a"), V::S("ab"), V::S("b"), V::S("abcd") };
        std::vector<V> TT{ N, V::S("a"), V::S("abcd"), V::S("%"), V::S("a_"), V::S("b%c"), V::S("") };
        std::vector<V> DD{ N, mkdate(2000, 2, 29), mkdate(1999, 12, 31), mkdate(2000, 3, 1), mkdate(1, 1, 1) };
        std::vector<V> DTT{ N, mkdt(2000, 2, 29, 23, 59, 59), mkdt(1970, 1, 1, 0, 0, 0), mkdt(1969, 12, 31, 23, 59, 59) };
        /* pairwise-complete: every pair of values of every two columns occurs (latin-square style rows), all NULL combinations of neighbours included */
        std::vector<std::vector<V>*> cols{ &B, &I, &J, &K, &H, &F, &D, &DC, &S, &TT, &DD, &DTT };
        int64_t id = 0;
        auto add = [&](const std::vector<unsigned> &ix) { Row r{ V::I(id++) }; for (std::size_t c = 0; c != cols.size(); ++c) r.push_back((*cols[c])[ix[c]]); T.rows.push_back(r); };
        std::set<std::vector<unsigned>> seen;
        for (std::size_t a = 0; a != cols.size(); ++a) for (std::size_t b = a + 1; b != cols.size(); ++b)
            for (unsigned x = 0; x != cols[a]->size(); ++x) for (unsigned y = 0; y != cols[b]->size(); ++y) {
                bool covered = false;
                for (auto &s : seen) if (s[a] == x and s[b] == y) { covered = true; break; }
                if (covered) continue;
                std::vector<unsigned> ix(cols.size()); for (std::size_t c = 0; c != cols.size(); ++c) ix[c] = unsigned(1 + (id + 3 * c) % (cols[c]->size() - 1));
                ix[a] = x; ix[b] = y; seen.insert(ix); add(ix);
            }
    }
    /*----- constants --------------------------------------------------------------------------------------------------*/
    std::vector<E> consts{ cst(V::B(true), tb()), cst(V::B(false), tb()), cst(V::I(1), ti(4)), cst(V::I(3), ti(4)), cst(V::I(4294967296LL), ti(8)), cst(V::D(1.5), td()), cst(V::D(0.25), td()), cst(V::D(0.29), td()),
        cst(V::S("a"), ts(1)), cst(V::S("ab"), ts(2)), cst(V::S("%b"), ts(2)), cst(V::S(""), ts(0)), cst(V::S("_"), ts(1)), cst(V::S("a%"), ts(2)), cst(mkdate(2000, 2, 29), tdate()), cst(mkdt(1970, 1, 1, 0, 0, 0), tdt()) };
    std::vector<E> leaves; for (unsigned i = 1; i != T.cols.size(); ++i) leaves.push_back(T.c(i)); for (auto &c : consts) leaves.push_back(c);
    std::vector<std::string> allops; for (auto o : ARITH) allops.push_back(o); for (auto o : CMP) allops.push_back(o); for (auto o : { "..", "LIKE", "AND", "OR" }) allops.push_back(o);

    auto run_select = [&](const char *phase, const Table &Tab, const std::vector<E> &es, unsigned batch) {
        C.explore(phase, (es.size() + batch - 1) / batch, [&, batch](u64 i, mc::Worker &W) {
            setup(Tab, W);
            std::vector<E> b(es.begin() + i * batch, es.begin() + std::min<std::size_t>(es.size(), (i + 1) * batch));
            check_select(Tab, b, W);
            if (i % 61 == 3) W.sample(b[0]->text);
        });
    };

    { std::vector<E> d0 = leaves; d0.insert(d0.begin(), T.c(0)); run_select("leaves", T, d0, 7); }
    std::vector<E> d1;
    for (auto &e : leaves) {
        d1.push_back(isnull(e));
        for (auto o : { "+", "-", "~", "NOT" }) if (auto x = un(o, e)) d1.push_back(x);
    }
    for (auto &o : allops) for (auto &a : leaves) for (auto &b : leaves) if (auto x = safe_bin(o, a, b, T)) d1.push_back(x);
    run_select("depth1", T, d1, 6);

    /* depth 2: every pair of operators over one or two representatives of each type */
    {
        std::vector<E> L; for (auto n : { "b", "i", "d", "f", "c", "s", "e", "h" }) L.push_back(T.c(n));
        L.push_back(consts[2]); L.push_back(consts[7]); if (C.thorough) { L.push_back(T.c("j")); L.push_back(T.c("t")); L.push_back(T.c("m")); L.push_back(consts[5]); }
        std::vector<E> d2, inner;
        for (auto &e : L) { inner.push_back(isnull(e)); for (auto o : { "-", "~", "NOT" }) if (auto x = un(o, e)) inner.push_back(x); }
        for (auto &o : allops) for (auto &a : L) for (auto &b : L) if (auto x = safe_bin(o, a, b, T)) inner.push_back(x);
        for (auto &e : inner) { d2.push_back(isnull(e)); for (auto o : { "-", "~", "NOT" }) if (auto x = un(o, e)) d2.push_back(x); }
        for (auto &o : allops) for (auto &a : inner) for (auto &b : L) {
            if (auto x = safe_bin(o, a, b, T)) d2.push_back(x);
            if (auto x = safe_bin(o, b, a, T)) d2.push_back(x);
        }
        if (not C.thorough) { std::vector<E> t; for (std::size_t i = 0; i != d2.size(); ++i) t.push_back(d2[i]); d2 = t; }
        run_select("depth2", T, d2, 10);
    }
    /*----- constant-only queries ----------------------------------------------------------------------------------------*/
    {
        std::vector<E> L(consts), es;
        Table none; none.name = "none"; none.rows.push_back({});
        for (auto &e : L) { es.push_back(e); es.push_back(isnull(e)); for (auto o : { "+", "-", "~", "NOT" }) if (auto x = un(o, e)) es.push_back(x); }
        for (auto &o : allops) for (auto &a : L) for (auto &b : L) if (auto x = safe_bin(o, a, b, none)) es.push_back(x);
        C.explore("constant-queries", es.size(), [&](u64 i, mc::Worker &W) {
            setup(T, W);
            std::string q = "SELECT " + es[i]->text + ";"; W.describe(q);
            auto r = eng->run(q); auto want = show(es[i]->ev({}), es[i]->ty);
            if (not r.ok or r.rows.size() != 1 or r.rows[0] != want) W.fail("const " + es[i]->text, q + " -> " + (r.ok ? joined(r.rows) : "rejected " + r.error) + " expected " + want);
            q = "SELECT id FROM T WHERE " + es[i]->text + ";";
            W.states(); W.evals(); W.outcome(mc::hash_str(es[i]->text));
        });
        std::vector<E> conds; for (auto &e : es) if (e->ty.k == BOOL) conds.push_back(e);
        C.explore("constant-conditions", conds.size(), [&](u64 i, mc::Worker &W) { setup(T, W); check_where(T, conds[i], W); });
    }
    /*----- every depth-1 condition ------------------------------------------------------------------------------------------*/
    {
        std::vector<E> conds; conds.push_back(T.c("b"));
        for (auto &e : d1) if (e->ty.k == BOOL) conds.push_back(e);
        C.explore("conditions-depth1", conds.size(), [&](u64 i, mc::Worker &W) { setup(T, W); check_where(T, conds[i], W); });
    }
    /*----- Boolean structure ------------------------------------------------------------------------------------------------*/
    Table B; B.name = "Bool3"; B.cols = { { "id", ti(4) }, { "x", tb() }, { "y", tb() }, { "z", tb() }, { "n", ti(4) } };
    {
        std::vector<V> t{ N, V::B(false), V::B(true) }; std::vector<V> n{ N, V::I(0), V::I(1), V::I(2) };
        int64_t id = 0; for (auto &a : t) for (auto &b : t) for (auto &c : t) for (auto &d : n) B.rows.push_back({ V::I(id++), a, b, c, d });
    }
    {
        auto n1 = cst(V::I(1), ti(4));
        std::vector<E> A3{ B.c("x"), B.c("y"), B.c("z"), bin("<", B.c("n"), n1), isnull(B.c("n")) };
        std::vector<E> A2 = A3; A2.push_back(bin("=", B.c("n"), n1)); A2.push_back(bin(">=", B.c("n"), n1)); A2.push_back(bin("=", B.c("x"), B.c("y"))); A2.push_back(isnull(B.c("x"))); A2.push_back(cst(V::B(true), tb())); A2.push_back(cst(V::B(false), tb()));
        auto neg = [](E e, bool n) { return n ? un("NOT", e) : e; };
        const char *AO[] = { "AND", "OR" };
        C.explore("boolean-2", A2.size() * A2.size() * 2 * 8, [&](u64 i, mc::Worker &W) {
            setup(B, W); mc::Digits d(i);
            auto a = A2[d.next(A2.size())], b = A2[d.next(A2.size())]; auto op = AO[d.next(2)]; unsigned ng = d.next(8);
            check_where(B, neg(bin(op, neg(a, ng & 1), neg(b, ng & 2)), ng & 4), W);
        });
        C.explore("boolean-3", A3.size() * A3.size() * A3.size() * 4 * 2 * 32, [&](u64 i, mc::Worker &W) {
            setup(B, W); mc::Digits d(i);
            unsigned ng = d.next(32), shape = d.next(2); auto o1 = AO[d.next(2)], o2 = AO[d.next(2)];
            auto a = A3[d.next(5)], b = A3[d.next(5)], c = A3[d.next(5)];
            auto e = shape ? bin(o2, neg(a, ng & 1), neg(bin(o1, neg(b, ng & 2), neg(c, ng & 4)), ng & 8)) : bin(o2, neg(bin(o1, neg(a, ng & 1), neg(b, ng & 2)), ng & 8), neg(c, ng & 4));
            check_where(B, neg(e, ng & 16), W);
        });
        const unsigned n4 = C.thorough ? 4 : 3; // four atoms: all shapes, negation at the leaves and inner nodes
        C.explore("boolean-4", u64(n4) * n4 * n4 * n4 * 8 * 5 * (C.thorough ? 128 : 16), [&, n4](u64 i, mc::Worker &W) {
            setup(B, W); mc::Digits d(i);
            unsigned ng = d.next(C.thorough ? 128 : 16), shape = d.next(5), o = d.next(8);
            E l[4]; for (unsigned k = 0; k != 4; ++k) l[k] = neg(A3[d.next(n4)], ng >> k & 1);
            auto O = [&](unsigned k) { return AO[o >> k & 1]; }; auto g = [&](E e, unsigned k) { return neg(e, ng >> (4 + k) & 1); };
            E e;
            switch (shape) {
                case 0: e = bin(O(0), g(bin(O(1), g(bin(O(2), l[0], l[1]), 0), l[2]), 1), l[3]); break;
                case 1: e = bin(O(0), g(bin(O(1), l[0], g(bin(O(2), l[1], l[2]), 0)), 1), l[3]); break;
                case 2: e = bin(O(0), g(bin(O(1), l[0], l[1]), 0), g(bin(O(2), l[2], l[3]), 1)); break;
                case 3: e = bin(O(0), l[0], g(bin(O(1), g(bin(O(2), l[1], l[2]), 0), l[3]), 1)); break;
                default: e = bin(O(0), l[0], g(bin(O(1), l[1], g(bin(O(2), l[2], l[3]), 0)), 1)); break;
            }
            check_where(B, g(e, 2), W);
        });
    }
    /*----- conjunctions of clauses of different weights ------------------------------------------------------------------------*/
    {
        Table R; R.name = "Conj"; R.cols = { { "id", ti(4) }, { "v", ti(4) }, { "w", ti(4) }, { "s", ts(5) }, { "x", tb() } };
        { int64_t id = 0; for (auto &v : { N, V::I(0), V::I(1), V::I(2), V::I(3) }) for (auto &w : { N, V::I(0), V::I(2) }) for (auto &t : { N, V::S("a"), V::S("bcd") }) for (auto &x : { N, V::B(true), V::B(false) }) R.rows.push_back({ V::I(id++), v, w, t, x }); }
        auto k = [](int64_t x) { return cst(V::I(x), ti(4)); };
        std::vector<E> P{ bin("!=", R.c(1), k(1)), un("NOT", isnull(R.c(2))), bin("OR", bin("!=", R.c(3), cst(V::S("a"), ts(1))), isnull(R.c(4))), R.c(4), bin("OR", bin("<", R.c(1), R.c(2)), bin("=", R.c(1), k(3))),
            bin("LIKE", R.c(3), cst(V::S("%c%"), ts(3))), bin(">=", bin("+", R.c(1), R.c(2)), k(2)), bin("OR", isnull(R.c(1)), bin("OR", R.c(4), bin("=", R.c(2), k(0)))), bin("<", bin("%", R.c(0), k(7)), k(5)), un("NOT", isnull(R.c(1))), bin("!=", R.c(2), k(1)), bin("<=", R.c(1), k(2)) };
        const unsigned np = C.thorough ? 12 : 11;
        C.explore("conjunctions", 1u << np, [&, np](u64 i, mc::Worker &W) {
            if (not i) return;
            setup(R, W);
            for (int rev = 0; rev != 2; ++rev) {
                E e; for (unsigned j = 0; j != np; ++j) { const unsigned q = rev ? np - 1 - j : j; if (i >> q & 1) e = e ? bin("AND", e, P[q]) : P[q]; }
                check_where(R, e, W);
            }
        });
    }
    /*----- number of rows ---------------------------------------------------------------------------------------------------*/
    {
        const unsigned maxn = C.thorough ? 330 : 200;
        C.explore("row-counts", maxn + 1, [&](u64 n, mc::Worker &W) {
            static sqlkit::Engine *e2 = nullptr; if (not e2) { e2 = new sqlkit::Engine(); } eng = e2;
            Table R; R.name = "R"; R.cols = { { "id", ti(4) }, { "v", ti(4) }, { "s", ts(5) } };
            for (u64 i = 0; i != n; ++i) R.rows.push_back({ V::I(i), i % 3 ? V::I(i % 7) : N, i % 5 ? V::S("s" + std::to_string(i)) : N });
            W.describe("table of " + std::to_string(n) + " rows");
            eng->use_fresh_db(); eng->run(R.create()); for (auto &s : R.inserts(37)) eng->run(s);
            check_select(R, { R.c(0), R.c(1), R.c(2), bin("+", R.c(0), R.c(1)), isnull(R.c(2)), bin("..", R.c(2), R.c(2)) }, W, false);
            auto k = [](int64_t x) { return cst(V::I(x), ti(4)); };
            std::vector<E> conds{ cst(V::B(true), tb()), cst(V::B(false), tb()), isnull(R.c(1)), isnull(R.c(2)), bin("=", R.c(1), k(3)), bin("=", bin("%", R.c(0), k(2)), k(0)), bin("=", bin("%", R.c(0), k(64)), k(63)), bin("=", bin("%", R.c(0), k(64)), k(0)),
                bin("<", R.c(0), k(64)), bin(">=", R.c(0), k(64)), bin(">", R.c(0), k(126)), bin("OR", isnull(R.c(1)), bin("=", R.c(1), k(3))), bin("AND", bin("!=", R.c(1), k(1)), un("NOT", isnull(R.c(2)))), bin("OR", bin("LIKE", R.c(2), cst(V::S("s1%"), ts(3))), bin("<", R.c(1), k(2))) };
            for (auto &c : conds) check_where(R, c, W);
            if (n % 64 < 2) W.sample("14 conditions on " + std::to_string(n) + " rows");
        });
    }
    /*----- long expressions: many constants, long strings -------------------------------------------------------------------*/
    {
        std::vector<unsigned> lens{ 1, 2, 3, 10, 60, 63, 64, 65, 100, 120, 126, 127, 128, 129, 130, 200, 250, 254, 255, 256, 257, 258, 300 };
        C.explore("long-expressions", lens.size() * 5, [&](u64 i, mc::Worker &W) {
            static sqlkit::Engine *e3 = nullptr; if (not e3) { e3 = new sqlkit::Engine(); } eng = e3;
            unsigned n = lens[i / 5];
            Table R; R.name = "R"; R.cols = { { "id", ti(8) }, { "v", ti(4) }, { "s", ts(40) } };
            for (u64 k = 0; k != 9; ++k) R.rows.push_back({ V::I(k), k % 3 ? V::I(k * 40 + 1) : N, k % 4 ? V::S(std::string(30 + k, char('a' + k))) : N });
            W.describe("long expression of " + std::to_string(n) + " operands, kind " + std::to_string(i % 5));
            eng->use_fresh_db(); eng->run(R.create()); for (auto &s : R.inserts(37)) eng->run(s);
            auto k = [](int64_t x) { return cst(V::I(x), ti(4)); };
            E e;
            switch (i % 5) {
                case 0: e = R.c(1); for (unsigned j = 1; j != n; ++j) e = bin(j % 2 ? "+" : "-", e, k(j * 3 + 1)); check_select(R, { R.c(0), e }, W, false); break;
                case 1: e = bin("=", R.c(1), k(1)); for (unsigned j = 1; j != n; ++j) e = bin("OR", e, bin("=", R.c(1), k(j * 40 + 1))); check_where(R, e, W); break;
                case 2: e = bin("!=", R.c(1), k(1)); for (unsigned j = 1; j != n; ++j) e = bin("AND", e, bin("!=", R.c(1), k(1 + 40 * (n + 8 - j)))); check_where(R, e, W); break;
                case 3: e = R.c(2); for (unsigned j = 1; j != n; ++j) e = bin("..", e, j % 3 ? R.c(2) : cst(V::S("<" + std::to_string(j) + ">"), ts(int(std::to_string(j).size()) + 2))); check_select(R, { R.c(0), e }, W, false); break;
                default: { std::vector<E> es; for (unsigned j = 0; j != std::min(n, 60u); ++j) es.push_back(j % 2 ? bin("*", R.c(1), k(n + j)) : bin("..", R.c(2), cst(V::S("x" + std::to_string(j)), ts(int(std::to_string(j).size()) + 1)))); check_select(R, es, W, false); }
            }
            W.outcome(i);
        });
    }
    /*----- division by zero: listed finding ------------------------------------------------------------------------------------*/
    {
        static const char *Q[] = { "SELECT 1 / 0;", "SELECT 1 % 0;" };
        C.explore("integral-division-by-zero", 2, [&](u64 i, mc::Worker &W) {
            eng = new sqlkit::Engine(); eng->use_fresh_db(); W.describe(Q[i]);
            int st; pid_t p = fork(); if (p == 0) { signal(SIGFPE, SIG_DFL); eng->run(Q[i]); _exit(0); }
            waitpid(p, &st, 0);
            if (not WIFEXITED(st)) W.fail(std::string("crash ") + Q[i], std::string(Q[i]) + " kills the process with signal " + std::to_string(WTERMSIG(st)) + " instead of reporting an error or NULL");
            W.states(); W.evals(); W.outcome(mc::hash_str(Q[i]));
        });
    }
    return C.finish();
}
