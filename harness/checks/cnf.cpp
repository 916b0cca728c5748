/* Conjunctive normal forms: every Boolean expression up to a size, evaluated under every assignment of its atoms. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include "common/sqlkit.hpp"
#include <mutable/IR/CNF.hpp>
#include <mutable/parse/AST.hpp>
#include <functional>

using namespace m;
using u64 = uint64_t;

namespace {
/* Truth values: 0 false, 1 true, 2 NULL. */
using TV = int;
TV tnot(TV a) { return a == 2 ? 2 : 1 - a; }
TV tand(TV a, TV b) { return a == 0 or b == 0 ? 0 : a == 2 or b == 2 ? 2 : 1; }
TV tor(TV a, TV b) { return a == 1 or b == 1 ? 1 : a == 2 or b == 2 ? 2 : 0; }
TV teq(TV a, TV b) { return a == 2 or b == 2 ? 2 : a == b; }

struct Atom { const char *sql; bool nullable; int fixed; }; // fixed: -1 free
const std::vector<Atom> ATOMS = { { "a", true, -1 }, { "b", true, -1 }, { "n", false, -1 }, { "TRUE", false, 1 }, { "i < 3", true, -1 }, { "a", true, -1 }, { "i = j", true, -1 }, { "ISNULL(i)", false, -1 } };
enum Op { ATOM, NOT, AND, OR, EQ, NE };
struct Tree { Op op; int atom = 0; std::shared_ptr<Tree> l, r; };
using T = std::shared_ptr<Tree>;
T atom(int i) { return std::make_shared<Tree>(Tree{ ATOM, i, nullptr, nullptr }); }
T mk(Op o, T l, T r = nullptr) { return std::make_shared<Tree>(Tree{ o, 0, l, r }); }
std::string sql(const T &t) {
    switch (t->op) {
        case ATOM: return t->atom < 100 ? std::string("(") + ATOMS[t->atom].sql + ")" : "?";
        case NOT: return "(NOT " + sql(t->l) + ")";
        case AND: return "(" + sql(t->l) + " AND " + sql(t->r) + ")";
        case OR: return "(" + sql(t->l) + " OR " + sql(t->r) + ")";
        case EQ: return "(" + sql(t->l) + " = " + sql(t->r) + ")";
        case NE: return "(" + sql(t->l) + " != " + sql(t->r) + ")";
    }
    return "";
}
TV eval(const T &t, const TV *v) {
    switch (t->op) {
        case ATOM: return v[t->atom];
        case NOT: return tnot(eval(t->l, v));
        case AND: return tand(eval(t->l, v), eval(t->r, v));
        case OR: return tor(eval(t->l, v), eval(t->r, v));
        case EQ: return teq(eval(t->l, v), eval(t->r, v));
        case NE: return tnot(teq(eval(t->l, v), eval(t->r, v)));
    }
    return 2;
}
void atoms_of(const T &t, std::set<int> &s) { if (t->op == ATOM) s.insert(t->atom); else { atoms_of(t->l, s); if (t->r) atoms_of(t->r, s); } }

struct Engine
{
    sqlkit::Engine E;
    Engine() { E.use_fresh_db(); if (not E.run("CREATE TABLE t (a BOOL, b BOOL, n BOOL NOT NULL, i INT(4), j INT(4));").ok) abort(); }
    std::unique_ptr<ast::Stmt> parse(const std::string &cond) {
        E.diag.clear(); E.err.str("");
        try { auto s = statement_from_string(E.diag, "SELECT i FROM t WHERE " + cond + ";"); Catalog::Get().timer().clear(); return s; } catch (...) { Catalog::Get().timer().clear(); return nullptr; }
    }
    static const ast::Expr & where(const ast::Stmt &s) { return *as<const ast::WhereClause>(*as<const ast::SelectStmt>(s).where).where; }
};
Engine & engine() { static Engine e; return e; }

/** Which atom an expression is. */
int which(const ast::Expr &e) {
    static std::unordered_map<std::string, int> M;
    if (M.empty()) for (int i = ATOMS.size() - 1; i >= 0; --i) { // the text the engine prints for it
        auto s = engine().parse(std::string("(") + ATOMS[i].sql + ") AND TRUE"); std::ostringstream o; o << *as<const ast::BinaryExpr>(Engine::where(*s)).lhs; M[o.str()] = i;
    }
    std::ostringstream o; o << e; auto it = M.find(o.str()); return it == M.end() ? -1 : it->second;
}
struct Form { std::vector<std::vector<std::pair<int, bool>>> c; bool ok = true; };
Form lower(const cnf::CNF &f) {
    Form r;
    for (auto &cl : f) { r.c.emplace_back(); for (auto &p : cl) { int w = which(*p); if (w < 0) r.ok = false; r.c.back().emplace_back(w, p.negative()); } }
    return r;
}
TV eval(const Form &f, const TV *v) {
    TV r = 1;
    for (auto &c : f.c) { TV x = 0; for (auto [a, n] : c) x = tor(x, n ? tnot(v[a]) : v[a]); r = tand(r, x); }
    return r;
}
/** Calls fn for every assignment of the atoms in `s`. */
template<typename F> void assignments(const std::set<int> &s, F &&fn) {
    std::vector<int> free; TV v[16]; for (auto &x : v) x = 0;
    for (int a : s) { if (ATOMS[a].fixed >= 0) v[a] = ATOMS[a].fixed; else free.push_back(a); }
    std::function<void(unsigned)> rec = [&](unsigned k) { if (k == free.size()) { fn(v); return; } for (TV x = 0; x != (ATOMS[free[k]].nullable ? 3 : 2); ++x) { v[free[k]] = x; rec(k + 1); } };
    rec(0);
}
std::string assignment(const std::set<int> &s, const TV *v) { std::string o; for (int a : s) o += std::string(ATOMS[a].sql) + "=" + (v[a] == 2 ? "NULL" : v[a] ? "TRUE" : "FALSE") + " "; return o; }

void check_tree(mc::Worker &W, const T &t) {
    const auto text = sql(t);
    W.describe("cnf :: " + text); W.evals();
    auto stmt = engine().parse(text);
    if (not stmt) { W.fail("rejected " + text, "rejected: " + text + ": " + engine().E.err.str()); return; }
    auto &e = Engine::where(*stmt);
    std::ostringstream before; before << e;
    const auto C = cnf::to_CNF(e), D = cnf::to_CNF(e);
    std::ostringstream after; after << e;
    if (before.str() != after.str()) W.fail("expression changed " + text, "the expression " + before.str() + " is " + after.str() + " after the conversion");
    const auto F = lower(C), G = lower(D);
    if (not F.ok or not G.ok) { W.fail("foreign predicate " + text, "predicates of the normal form of " + text + " are not its atoms: " + to_string(C)); return; }
    std::set<int> s; atoms_of(t, s);
    bool null = false; u64 bits = 0;
    assignments(s, [&](const TV *v) {
        W.states();
        const TV x = eval(t, v), y = eval(F, v);
        bits = bits * 3 + x; null |= y == 2;
        if (x != y) W.fail("meaning of " + text, "the normal form " + to_string(C) + " of " + text + " differs for " + assignment(s, v));
    });
    if (null and not C.can_be_null()) W.fail("nullability of " + text, "the normal form " + to_string(C) + " claims never to be NULL");
    if (not (C == D) or C != D or not (C <= D) or not (C >= D)) W.fail("equality of " + text, "two conversions of " + text + " are not equal");
    W.outcome(bits * 31 + F.c.size());
    /* printed as SQL it still means the same */
    std::ostringstream o; C.to_sql(o);
    auto again = engine().parse(o.str());
    if (not again) W.fail("printing of " + text, "the normal form of " + text + " prints as " + o.str() + ", which is rejected: " + engine().E.err.str());
    else {
        const auto P = lower(cnf::to_CNF(Engine::where(*again)));
        assignments(s, [&](const TV *v) { if (not P.ok or eval(P, v) != eval(F, v)) W.fail("printing of " + text, "the normal form of " + text + " prints as " + o.str() + ", which differs for " + assignment(s, v)); });
    }
    if (W.index() % 1009 == 7) W.sample(text + "  -->  " + to_string(C));
}

/*----- Enumeration of trees --------------------------------------------------------------------------------------------*/
struct Space
{
    std::vector<int> atoms; std::vector<Op> ops; bool nots;
    std::vector<u64> n; // number of trees by binary operators
    void prepare(unsigned max) {
        for (unsigned k = 0; k <= max; ++k) {
            u64 c = 0;
            if (k == 0) c = atoms.size(); else for (unsigned i = 0; i != k; ++i) c += ops.size() * n[i] * n[k - 1 - i];
            n.push_back(nots ? 2 * c : c);
        }
    }
    T get(unsigned k, u64 i) const {
        if (nots) { bool neg = i & 1; i >>= 1; auto t = plain(k, i); return neg ? mk(NOT, t) : t; }
        return plain(k, i);
    }
    T plain(unsigned k, u64 i) const {
        if (k == 0) return atom(atoms[i]);
        for (unsigned l = 0; l != k; ++l) {
            u64 c = ops.size() * n[l] * n[k - 1 - l];
            if (i >= c) { i -= c; continue; }
            auto op = ops[i % ops.size()]; i /= ops.size();
            return mk(op, get(l, i % n[l]), get(k - 1 - l, i / n[l]));
        }
        abort();
    }
};
}

int main(int argc, char **argv)
{
    mc::Check C("C13", "model_checking", argc, argv);
    C.rule = "all Boolean expressions up to the stated number of operators over the stated atoms, under all three-valued assignments; non-trivial by truth table and number of clauses";
    C.assumptions = { "the empty forms, which no expression has, are not operands" };
    const bool Th = C.thorough;
    auto trees = [&](const char *name, Space S, unsigned k) {
        S.prepare(k);
        C.explore(name, S.n[k], [=](uint64_t i, mc::Worker &W) { check_tree(W, S.get(k, i)); });
    };
    std::vector<int> all; for (unsigned i = 0; i != ATOMS.size(); ++i) if (i != 5) all.push_back(i);
    const std::vector<Op> OPS = { AND, OR, EQ, NE };
    trees("atoms", { all, OPS, true, {} }, 0);
    trees("one operator", { all, OPS, true, {} }, 1);
    trees("two operators", { { 0, 2, 4 }, OPS, true, {} }, 2);
    trees("three operators, without =", { { 0, 1 }, { AND, OR }, true, {} }, 3);
    trees("three operators", { { 0, 2, 4 }, OPS, false, {} }, 3);
    trees("four operators", { { 0, 2 }, { AND, OR, NE }, false, {} }, 4);
    if (Th) { trees("three operators, negations", { { 0, 1 }, OPS, true, {} }, 3); trees("four operators, with =", { { 0, 1 }, OPS, false, {} }, 4); trees("two operators, all atoms", { all, OPS, true, {} }, 2); }
    /* operations on forms */
    static Space P{ { 0, 2, 4 }, { AND, OR, NE }, true, {} }; P.prepare(1);
    static const u64 N = P.n[0] + P.n[1];
    C.explore("operations on pairs of forms", N * N, [](uint64_t i, mc::Worker &W) {
        auto get = [](u64 k) { return k < P.n[0] ? P.get(0, k) : P.get(1, k - P.n[0]); };
        const auto x = get(i % N), y = get(i / N);
        const std::string text = sql(x) + " , " + sql(y);
        W.describe("operations :: " + text); W.evals();
        auto sx = engine().parse(sql(x)), sy = engine().parse(sql(y));
        if (not sx or not sy) { W.fail("rejected", text); return; }
        const auto X = cnf::to_CNF(Engine::where(*sx)), Y = cnf::to_CNF(Engine::where(*sy));
        const auto A = X and Y, O = X or Y, NX = not X;
        const auto LX = lower(X), LY = lower(Y), LA = lower(A), LO = lower(O), LN = lower(NX);
        std::set<int> s; atoms_of(x, s); atoms_of(y, s);
        bool same = true;
        assignments(s, [&](const TV *v) {
            W.states();
            const TV a = eval(x, v), b = eval(y, v);
            same &= a == b;
            if (eval(LX, v) != a or eval(LY, v) != b) W.fail("operand changed", text);
            if (eval(LA, v) != tand(a, b)) W.fail("conjunction of " + text, to_string(A) + " differs for " + assignment(s, v));
            if (eval(LO, v) != tor(a, b)) W.fail("disjunction of " + text, to_string(O) + " differs for " + assignment(s, v));
            if (eval(LN, v) != tnot(a)) W.fail("negation of " + sql(x), to_string(NX) + " differs for " + assignment(s, v));
        });
        /* inclusion */
        auto has = [](const auto &v, const auto &p) { for (auto &q : v) if (q == p) return true; return false; };
        using Lit = std::vector<std::pair<int, bool>>;
        auto clause_le = [&](const Lit &a, const Lit &b) { for (auto &p : a) if (not has(b, p)) return false; return true; };
        auto form_le = [&](const Form &a, const Form &b) { for (auto &c : a.c) { bool f = false; for (auto &d : b.c) f |= clause_le(c, d) and clause_le(d, c); if (not f) return false; } return true; };
        if ((X <= Y) != form_le(LX, LY) or (X >= Y) != form_le(LY, LX)) W.fail("inclusion of " + text, to_string(X) + " in " + to_string(Y));
        if ((X == Y) != (form_le(LX, LY) and form_le(LY, LX)) or (X == Y) == (X != Y)) W.fail("equality of " + text, to_string(X) + " and " + to_string(Y));
        if (X == Y and not same) W.fail("equal forms differ in meaning", text);
        for (unsigned a = 0; a != X.size(); ++a) for (unsigned b = 0; b != Y.size(); ++b) {
            if ((X[a] <= Y[b]) != clause_le(LX.c[a], LY.c[b]) or (X[a] >= Y[b]) != clause_le(LY.c[b], LX.c[a])) W.fail("inclusion of clauses", to_string(X[a]) + " in " + to_string(Y[b]));
            const auto CO = cnf::CNF{ X[a] or Y[b] }, CA = X[a] and Y[b]; const auto CN = not X[a];
            const auto l1 = lower(CO), l2 = lower(CA), l3 = lower(CN);
            assignments(s, [&](const TV *v) {
                const TV p = eval(Form{ { LX.c[a] } }, v), q = eval(Form{ { LY.c[b] } }, v);
                if (eval(l1, v) != tor(p, q)) W.fail("disjunction of clauses", to_string(X[a]) + " and " + to_string(Y[b]));
                if (eval(l2, v) != tand(p, q)) W.fail("conjunction of clauses", to_string(X[a]) + " and " + to_string(Y[b]));
                if (eval(l3, v) != tnot(p)) W.fail("negation of a clause", to_string(X[a]));
            });
        }
        for (auto &c : X) for (auto &d : Y) for (auto p : c) for (auto q : d) {
            const bool eq = which(*p) == which(*q) and p.negative() == q.negative();
            if ((p == q) != eq or (p != q) == eq) W.fail("equality of predicates", to_string(p) + " and " + to_string(q));
            if (eq and std::hash<cnf::Predicate>{}(p) != std::hash<cnf::Predicate>{}(q)) W.fail("hash of equal predicates", to_string(p) + " and " + to_string(q));
            if ((not p).negative() == p.negative() or &(not p).expr() != &p.expr() or not ((not not p) == p)) W.fail("negation of a predicate", to_string(p));
        }
        W.outcome(text);
    });
    return C.finish();
}
