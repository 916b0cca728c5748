/* C12 -- semantic analysis.  All expressions up to a size over all operand types, and all compositions of clauses out of
 * pools, against independent typing and well-formedness rules; everything accepted is planned and executed. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include "common/sqlkit.hpp"
#include <mutable/catalog/Type.hpp>
#include <mutable/parse/AST.hpp>
#include <memory>

using u64 = uint64_t;
static sqlkit::Engine *eng;
static std::vector<std::string> split_ws(const std::string &s) { std::istringstream is(s); std::vector<std::string> v; for (std::string x; is >> x; ) v.push_back(x); return v; }

/*===== Types and expressions of the reference =======================================================================*/
enum K { NONE, BOOL, CHAR, DATE, DATETIME, INT, FLOAT, DECIMAL };
struct Ty
{
    K k = NONE; unsigned n = 0, scale = 0; bool vec = false; // n: bits of numbers, decimal digits of decimals, length of strings
    bool num() const { return k >= INT; }
    unsigned bits() const { return k == DECIMAL ? unsigned(std::ceil(n * std::log2(10.0))) : n; }
    std::string str() const {
        static const char *N[] = { "NONE", "BOOL", "CHAR", "DATE", "DATETIME", "INT", "FLOAT", "DECIMAL" };
        std::string s = N[k];
        if (k == CHAR or num()) s += " " + std::to_string(n);
        if (k == DECIMAL) s += " " + std::to_string(scale);
        return k == NONE ? s : s + (vec ? " vector" : " scalar");
    }
};
static Ty mk(K k, unsigned n = 0, unsigned sc = 0) { return { k, n, sc, false }; }
struct Bad { std::string why; };

static std::string type_of(const m::Type *t) {
    using namespace m;
    if (t->is_none()) return "NONE";
    if (t->is_error()) return "ERROR";
    Ty r; auto p = cast<const PrimitiveType>(t); if (not p) return "?"; r.vec = p->is_vectorial();
    if (t->is_boolean()) r.k = BOOL; else if (auto c = cast<const CharacterSequence>(t)) r.k = CHAR, r.n = c->length; else if (t->is_date()) r.k = DATE; else if (t->is_date_time()) r.k = DATETIME;
    else if (auto n = cast<const Numeric>(t)) { r.k = n->kind == Numeric::N_Int ? INT : n->kind == Numeric::N_Float ? FLOAT : DECIMAL; r.n = n->kind == Numeric::N_Int ? n->precision * 8 : n->precision; r.scale = n->scale; }
    else return "?";
    return r.str();
}

struct X; using E = std::shared_ptr<X>;
struct X { enum { LIT, NAME, UN, BIN, FN } k; std::string op, tbl; Ty ty; std::vector<E> a; };
static E lit(std::string s, Ty t) { return std::make_shared<X>(X{ X::LIT, s, "", t, {} }); }
static E nm(std::string s, std::string t = "") { return std::make_shared<X>(X{ X::NAME, s, t, {}, {} }); }
static E un(std::string o, E a) { return std::make_shared<X>(X{ X::UN, o, "", {}, { a } }); }
static E bin(std::string o, E a, E b) { return std::make_shared<X>(X{ X::BIN, o, "", {}, { a, b } }); }
static E fn(std::string o, std::vector<E> a = {}) { return std::make_shared<X>(X{ X::FN, o, "", {}, a }); }
static std::string sql(const E &e, bool top = true) {
    switch (e->k) {
        case X::LIT: return e->op;
        case X::NAME: return e->tbl.empty() ? e->op : e->tbl + "." + e->op;
        case X::UN: { auto s = e->op + " " + sql(e->a[0], false); return top ? s : "(" + s + ")"; }
        case X::BIN: { auto s = sql(e->a[0], false) + " " + e->op + " " + sql(e->a[1], false); return top ? s : "(" + s + ")"; }
        case X::FN: { std::string s = e->op + "("; for (auto &x : e->a) s += (&x == &e->a[0] ? "" : ", ") + sql(x); return s + ")"; }
    }
    return "";
}
static bool aggregate(const std::string &f) { return f == "COUNT" or f == "MIN" or f == "MAX" or f == "SUM" or f == "AVG"; }
static bool has_agg(const E &e) { if (e->k == X::FN and aggregate(e->op)) return true; for (auto &x : e->a) if (has_agg(x)) return true; return false; }
static bool constant(const E &e) { if (e->k == X::NAME or e->k == X::FN) return false; for (auto &x : e->a) if (not constant(x)) return false; return true; }
static bool odd_tilde(const E &e, const std::function<Ty(const E&)> &ty) { if (e->k == X::UN and e->op == "~" and ty(e->a[0]).k != INT) return true; for (auto &x : e->a) if (odd_tilde(x, ty)) return true; return false; }

using Named = std::vector<std::pair<std::string, Ty>>;
struct Src { std::string name; Named cols; };
enum Stage { WHERE, GROUP, HAVING, SELECT, ORDER };
struct Ctx { Stage st = WHERE; std::vector<Src> src; Named keys, res; };

/** Numeric promotion: the kind that is more general, the greater precision (in bits), the greater scale. */
static Ty promote(const Ty &a, const Ty &b) {
    Ty r; r.k = std::max(a.k, b.k); r.vec = a.vec or b.vec; r.n = std::max(a.bits(), b.bits());
    if (r.k == FLOAT) r.n = r.n <= 32 ? 32 : 64;
    if (r.k == DECIMAL) r.n = unsigned(r.n / std::log2(10.0)), r.scale = std::max(a.scale, b.scale);
    return r;
}
static Ty infer(const E &e, const Ctx &C) {
    switch (e->k) {
        case X::LIT: return e->ty;
        case X::NAME: {
            auto find = [&](const Named &v) { std::vector<Ty> r; for (auto &[n, t] : v) if (n == sql(e)) r.push_back(t); return r; };
            if (C.st == ORDER) { auto r = find(C.res); if (r.size() > 1) throw Bad{ "ambiguous result" }; if (r.size() == 1) return r[0]; }
            if (C.st > GROUP) { auto r = find(C.keys); if (r.size() > 1) throw Bad{ "ambiguous key" }; if (r.size() == 1) { r[0].vec = false; return r[0]; } }
            std::vector<Ty> r; for (auto &s : C.src) if (e->tbl.empty() or e->tbl == s.name) for (auto &[n, t] : s.cols) if (n == e->op) r.push_back(t);
            if (r.size() != 1) throw Bad{ r.empty() ? "unknown name" : "ambiguous name" };
            r[0].vec = true; return r[0];
        }
        case X::UN: { Ty t = infer(e->a[0], C); if (e->op == "NOT" ? t.k != BOOL : not t.num()) throw Bad{ "operand of " + e->op }; return t; }
        case X::BIN: {
            Ty a = infer(e->a[0], C), b = infer(e->a[1], C), r; const auto &o = e->op;
            const Bad bad{ "operands of " + o };
            if (a.k == NONE or b.k == NONE) throw bad;
            r.vec = a.vec or b.vec; r.k = BOOL;
            if (o == "+" or o == "-" or o == "*" or o == "/" or o == "%") { if (not a.num() or not b.num() or (o == "%" and (a.k != INT or b.k != INT))) throw bad; return promote(a, b); }
            if (o == ".." or o == "LIKE") { if (a.k != CHAR or b.k != CHAR) throw bad; if (o == "..") r.k = CHAR, r.n = a.n + b.n; return r; }
            if (o == "AND" or o == "OR") { if (a.k != BOOL or b.k != BOOL) throw bad; return r; }
            if (a.k != b.k and not (a.num() and b.num())) throw bad;
            if (a.k == BOOL and o != "=" and o != "!=") throw bad;
            return r;
        }
        case X::FN: {
            const bool agg = aggregate(e->op);
            Ctx in = C; if (agg and C.st > GROUP) in.st = WHERE;
            std::vector<Ty> t; for (auto &x : e->a) t.push_back(infer(x, in));
            if (not agg and e->op != "ISNULL") throw Bad{ "unknown function" };
            if (agg and C.st <= GROUP) throw Bad{ "aggregate not allowed here" };
            if (e->op == "COUNT") { if (t.size() > 1) throw Bad{ "arguments" }; return mk(INT, 64); }
            if (t.size() != 1) throw Bad{ "arguments" };
            if (e->op == "ISNULL") { if (t[0].k == NONE) throw Bad{ "NULL" }; Ty r; r.k = BOOL; r.vec = t[0].vec; return r; }
            if (not t[0].num()) throw Bad{ "aggregate of non-numeric" };
            t[0].vec = false;
            if (e->op == "AVG") return mk(FLOAT, 64);
            if (e->op == "SUM") { if (t[0].k == INT) return mk(INT, 64); if (t[0].k == FLOAT) return mk(FLOAT, 64); return mk(DECIMAL, m::Numeric::MAX_DECIMAL_PRECISION, t[0].scale); }
            return t[0];
        }
    }
    throw Bad{ "?" };
}

/*===== Running the real system ======================================================================================*/
struct Outcome { bool accepted = false, executed = false; std::string error; std::vector<std::string> types; std::vector<std::string> rows; bool star = false; };

static Outcome run(const std::string &q, bool execute) {
    using namespace m;
    Outcome R; auto &E = *eng;
    E.out.str(""); E.err.str(""); E.diag.clear();
    try {
        auto cmd = command_from_string(E.diag, q);
        if (not cmd or E.diag.num_errors()) { R.error = E.err.str(); if (not E.diag.num_errors()) R.error = "REJECTED WITHOUT DIAGNOSTIC"; Catalog::Get().timer().clear(); return R; }
        R.accepted = true;
        if (auto dc = cast<DatabaseCommand>(cmd.get())) if (auto s = cast<const ast::SelectStmt>(&dc->ast())) {
            auto &c = as<const ast::SelectClause>(*s->select);
            R.star = bool(c.select_all);
            for (auto &x : c.expanded_select_all) R.types.push_back(type_of(x->type()));
            for (auto &x : c.select) R.types.push_back(type_of(x.first->type()));
        }
        if (execute) {
            sqlkit::CaptureCout cap;
            cmd->execute(E.diag);
            R.executed = true;
            if (E.diag.num_errors()) R.error = "EXECUTION: " + E.err.str();
            std::istringstream is(cap.oss.str()); for (std::string l; std::getline(is, l); ) R.rows.push_back(l);
        }
    } catch (const m::frontend_exception &e) {
        R.accepted = false; R.error = E.err.str(); if (not E.diag.num_errors()) R.error = "REJECTED WITHOUT DIAGNOSTIC " + R.error;
    } catch (const std::exception &e) {
        R.error = std::string("EXCEPTION: ") + e.what() + " | " + E.err.str();
    }
    Catalog::Get().timer().clear();
    return R;
}

/** Runs `q`; `want` are the expected types of the result, or null if the statement is ill-formed. */
static void judge(mc::Worker &W, const std::string &key, const std::string &q, const std::vector<Ty> *want, const std::string &why, bool execute) {
    W.describe(key + " :: " + q);
    auto R = run(q, execute);
    W.states(); W.evals();
    W.outcome(mc::hash_str(key) ^ (R.accepted * 0x9e3779b9ull));
    auto bad = [&](const std::string &s) { W.fail(key, s + "\n    query: " + q + (R.error.empty() ? "" : "\n    reported: " + R.error)); };
    if (R.error.find("REJECTED WITHOUT") != R.error.npos or R.error.find("EXCEPTION") != R.error.npos) return bad("fails without a proper diagnostic");
    if (bool(want) != R.accepted) return bad(want ? "well-formed statement is rejected" : "ill-formed statement is accepted: " + why);
    if (not want) return;
    if (execute and not R.error.empty() and R.error.find("EXECUTION") != R.error.npos) return bad("accepted statement fails in execution");
    if (not execute and R.types.empty()) return bad("no types");
    if (R.types.size() != want->size()) return bad("wrong number of results: " + std::to_string(R.types.size()) + " instead of " + std::to_string(want->size()));
    for (size_t i = 0; i != want->size(); ++i) if (R.types[i] != (*want)[i].str()) return bad("result " + std::to_string(i) + " has type " + R.types[i] + ", expected " + (*want)[i].str());
    if (execute and not want->empty()) for (auto &l : R.rows) if (size_t(std::count(l.begin(), l.end(), ',')) + 1 != want->size()) return bad("row with a wrong number of columns: " + l);
}

/*===== Databases ====================================================================================================*/
static const char *A_COLS = "i1 INT(1), i2 INT(2), i4 INT(4), i8 INT(8), f FLOAT, d DOUBLE, m4 DECIMAL(4, 2), m9 DECIMAL(9, 0), m18 DECIMAL(18, 6), c CHAR(3), v VARCHAR(8), b BOOL, dt DATE, ts DATETIME";
static const Named A_TY{ { "i1", mk(INT, 8) }, { "i2", mk(INT, 16) }, { "i4", mk(INT, 32) }, { "i8", mk(INT, 64) }, { "f", mk(FLOAT, 32) }, { "d", mk(FLOAT, 64) }, { "m4", mk(DECIMAL, 4, 2) }, { "m9", mk(DECIMAL, 9, 0) }, { "m18", mk(DECIMAL, 18, 6) }, { "c", mk(CHAR, 3) }, { "v", mk(CHAR, 8) }, { "b", mk(BOOL) }, { "dt", mk(DATE) }, { "ts", mk(DATETIME) } };
static const std::vector<E> A_LITS{ lit("3", mk(INT, 32)), lit("3000000000", mk(INT, 64)), lit("017", mk(INT, 32)), lit("0xFFFFFFFF", mk(INT, 64)), lit("2.5", mk(FLOAT, 64)), lit("0x1.8", mk(FLOAT, 64)), lit("\"ab\"", mk(CHAR, 2)), lit("\"\"", mk(CHAR, 0)), lit("TRUE", mk(BOOL)), lit("d'2020-02-29'", mk(DATE)), lit("d'2020-02-29 01:02:03'", mk(DATETIME)), lit("NULL", mk(NONE)) };

static void setup(const std::vector<std::string> &stmts) {
    if (not eng) eng = new sqlkit::Engine();
    eng->use_fresh_db();
    for (auto &s : stmts) { auto r = eng->run(s); if (not r.ok) { std::cerr << s << ": " << r.error; std::abort(); } }
}
static void setup_types() {
    static bool done = false; if (done) return; done = true;
    setup({ std::string("CREATE TABLE T (") + A_COLS + ");",
            "INSERT INTO T VALUES (1, 2, 3, 4, 1.5, 2.5, 1.25, 7, 3.5, \"abc\", \"xyz\", TRUE, d'2020-02-29', d'2020-02-29 01:02:03'), (NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL, NULL);" });
}
static Ctx types_ctx() { Ctx C; C.st = SELECT; C.src = { { "T", A_TY } }; return C; }

static const std::vector<std::string> UN_OPS{ "NOT", "+", "-", "~" }, BIN_OPS{ "+", "-", "*", "/", "%", "..", "LIKE", "AND", "OR", "=", "!=", "<", "<=", ">", ">=" }, FNS{ "ISNULL", "COUNT", "MIN", "MAX", "SUM", "AVG" };
static const std::vector<std::string> UNARY = [] { auto v = UN_OPS; v.insert(v.end(), FNS.begin(), FNS.end()); return v; }();
static E unary(const std::string &o, E a) { return std::find(UN_OPS.begin(), UN_OPS.end(), o) != UN_OPS.end() ? un(o, a) : fn(o, { a }); }

/** Expected outcome of `SELECT e FROM T`. */
static void expr_case(mc::Worker &W, const std::string &key, const E &e, bool execute) {
    setup_types();
    Ctx C = types_ctx(); Ty t; std::string why; bool ok = true;
    try { t = infer(e, C); if (t.vec and has_agg(e)) throw Bad{ "aggregates mixed with vectorial values" }; } catch (Bad b) { ok = false; why = b.why; }
    if (ok and execute and odd_tilde(e, [&](const E &x) { return infer(x, C); })) execute = false; // known finding, see phase `tilde`
    std::vector<Ty> w{ t };
    judge(W, key, "SELECT " + sql(e) + " FROM T;", ok ? &w : nullptr, why, execute);
}

/*===== Clauses ======================================================================================================*/
struct Item { E e; std::string as; };
struct Stmt
{
    int from = 0; bool star = false; std::vector<Item> sel; E where; std::vector<Item> group; bool grouped = false; E having; std::vector<std::pair<E, bool>> order; std::string limit;
};
static Ty V(Ty t) { t.vec = true; return t; }
struct FromV { std::string sql; bool ok; std::vector<Src> src; };
static const Named T_COLS{ { "a", mk(INT, 32) }, { "b", mk(FLOAT, 64) }, { "s", mk(CHAR, 8) }, { "p", mk(BOOL) } }, U_COLS{ { "a", mk(INT, 32) }, { "c", mk(DECIMAL, 6, 2) } };
static const std::vector<FromV> FROMS{
    { "", true, {} },
    { "T", true, { { "T", T_COLS } } },
    { "T AS x", true, { { "x", T_COLS } } },
    { "T, U", true, { { "T", T_COLS }, { "U", U_COLS } } },
    { "T AS x, T AS y", true, { { "x", T_COLS }, { "y", T_COLS } } },
    { "(SELECT a, b FROM T) AS q", true, { { "q", { { "a", mk(INT, 32) }, { "b", mk(FLOAT, 64) } } } } },
    { "(SELECT a AS k, COUNT() AS n FROM T GROUP BY a) AS q, U", true, { { "q", { { "k", mk(INT, 32) }, { "n", mk(INT, 64) } } }, { "U", U_COLS } } },
    { "(SELECT COUNT() AS n, MIN(a) AS a FROM T) AS T", true, { { "T", { { "n", mk(INT, 64) }, { "a", mk(INT, 32) } } } } },
    { "(SELECT a, s AS a FROM T) AS q", true, { { "q", { { "a", mk(INT, 32) }, { "a", mk(CHAR, 8) } } } } },
    { "(SELECT * FROM T WHERE p ORDER BY b LIMIT 1) AS x", true, { { "x", T_COLS } } },
    { "(SELECT 1 AS a, \"x\" AS s) AS q", true, { { "q", { { "a", mk(INT, 32) }, { "s", mk(CHAR, 1) } } } } },
    { "T, T", false, {} },
    { "T AS U, U", false, {} },
    { "nope", false, {} },
    { "(SELECT nope FROM T) AS q", false, {} },
    { "(SELECT a, NULL AS z FROM T) AS q", false, {} },
    { "(SELECT COUNT() AS n, a FROM T) AS q", false, {} },
    { "T, (SELECT T.a FROM U) AS q", false, {} },
};
static E I(int x) { return lit(std::to_string(x), mk(INT, 32)); }
static const std::vector<std::vector<Item>> SELS{
    {}, // *
    { { nm("a"), "" } }, { { nm("a"), "k" } }, { { nm("b"), "a" } }, { { nm("s"), "" }, { nm("a"), "" } }, { { nm("a"), "" }, { nm("a"), "" } }, { { nm("b"), "" }, { nm("a"), "" }, { nm("b"), "" } }, { { nm("b"), "k" }, { nm("a"), "k" } }, { { nm("a"), "" }, { fn("COUNT"), "a" } }, { { nm("k"), "" } }, { { nm("n"), "" } },
    { { nm("a", "T"), "" } }, { { nm("a", "x"), "k" } }, { { nm("a", "q"), "" } }, { { nm("c", "U"), "" }, { nm("n"), "" } }, { { nm("nope"), "" } }, { { nm("a", "nope"), "" } }, { { nm("nope", "T"), "" } },
    { { I(1), "" } }, { { I(1), "k" } }, { { lit("NULL", mk(NONE)), "k" } }, { { I(1), "" }, { nm("a"), "" } }, { { I(1), "" }, { fn("COUNT"), "" } }, { { bin("+", I(1), lit("\"x\"", mk(CHAR, 1))), "" } },
    { { bin("+", nm("a"), I(1)), "" } }, { { bin("+", nm("a"), I(1)), "k" }, { nm("a"), "" } }, { { bin("+", nm("a"), nm("b")), "k" } }, { { bin("=", nm("a"), nm("s")), "" } }, { { un("NOT", nm("p")), "p" } }, { { un("NOT", nm("a")), "" } },
    { { fn("COUNT"), "" } }, { { fn("COUNT"), "k" } }, { { fn("COUNT", { nm("s") }), "a" } }, { { fn("MIN", { nm("a") }), "a" } }, { { fn("SUM", { nm("c") }), "" } }, { { fn("AVG", { nm("s") }), "" } }, { { fn("MAX", { nm("a"), nm("b") }), "" } }, { { fn("MAX"), "" } },
    { { nm("a"), "" }, { fn("COUNT"), "" } }, { { fn("COUNT"), "" }, { nm("a"), "" } }, { { nm("k"), "" }, { fn("MIN", { nm("b") }), "m" } }, { { bin("+", fn("COUNT"), I(1)), "" } }, { { bin("+", fn("MIN", { nm("a") }), nm("a")), "" } }, { { bin("*", fn("MIN", { nm("b") }), fn("MAX", { nm("a") })), "k" } },
    { { fn("MIN", { fn("MIN", { nm("a") }) }), "" } }, { { fn("MIN", { bin("+", nm("a"), nm("b")) }), "" } }, { { fn("ISNULL", { nm("a") }), "" } }, { { fn("ISNULL", { nm("s") }), "p" }, { nm("a"), "" } }, { { fn("ISNULL", { fn("MIN", { nm("a") }) }), "" } }, { { fn("FOO", { nm("a") }), "" } },
};
static const std::vector<E> WHERES{ nullptr, bin("=", nm("a"), I(1)), nm("p"), nm("a"), lit("TRUE", mk(BOOL)), bin(">", fn("COUNT"), I(1)), bin("=", nm("nope"), I(1)), bin("<", nm("a", "T"), I(2)), bin("LIKE", nm("s"), lit("\"a%\"", mk(CHAR, 2))), bin("AND", nm("p"), bin("!=", nm("b"), nm("a"))), bin("=", nm("a", "x"), nm("a", "y")), bin("<", nm("k"), I(5)), un("NOT", fn("ISNULL", { nm("a") })), lit("NULL", mk(NONE)) };
static const std::vector<std::vector<Item>> GROUPS{ {}, { { nm("a"), "" } }, { { nm("a"), "k" } }, { { nm("a"), "" }, { nm("b"), "" } }, { { bin("+", nm("a"), I(1)), "k" } }, { { nm("p"), "" } }, { { nm("b"), "a" } }, { { nm("a"), "" }, { nm("a"), "" } }, { { nm("a", "T"), "" } }, { { nm("a", "x"), "k" }, { nm("a", "y"), "a" } }, { { I(1), "" } }, { { fn("COUNT"), "" } }, { { nm("nope"), "" } }, { { lit("NULL", mk(NONE)), "" } }, { { nm("n"), "" } }, { { nm("a"), "k" }, { nm("s"), "k" } } };
static const std::vector<E> HAVINGS{ nullptr, bin(">", fn("COUNT"), I(0)), bin("=", nm("a"), I(1)), bin(">", nm("k"), I(1)), bin(">=", fn("MIN", { nm("b") }), I(0)), nm("a"), lit("TRUE", mk(BOOL)), fn("COUNT"), nm("p"), bin("=", nm("nope"), I(1)), bin("OR", fn("ISNULL", { nm("a") }), bin("=", fn("SUM", { nm("a") }), I(1))) };
static const std::vector<std::vector<std::pair<E, bool>>> ORDERS{ {}, { { nm("a"), true } }, { { nm("k"), false } }, { { fn("COUNT"), true } }, { { bin("+", nm("a"), I(1)), true } }, { { I(1), true } }, { { nm("a", "T"), true } }, { { nm("nope"), true } }, { { nm("s"), false }, { nm("a"), true } }, { { nm("p"), true } }, { { lit("NULL", mk(NONE)), true } }, { { fn("MIN", { nm("b") }), false }, { nm("a"), true } }, { { nm("n"), true } }, { { nm("b"), true } }, { { nm("a"), true }, { bin("*", nm("a"), I(2)), true }, { nm("a"), false } }, { { fn("COUNT"), true }, { fn("COUNT"), true } }, { { nm("b", "x"), true }, { nm("b", "y"), false } } };
static const std::vector<std::string> LIMITS{ "", "1", "1 OFFSET 2", "99999999999999999999", "1 OFFSET 99999999999999999999" };

static std::string item_sql(const Item &i) { return sql(i.e) + (i.as.empty() ? "" : " AS " + i.as); }
static std::string stmt_sql(const Stmt &s) {
    std::string q = "SELECT "; if (s.star) q += "*"; for (auto &i : s.sel) q += (&i == &s.sel[0] ? "" : ", ") + item_sql(i);
    if (s.from) q += " FROM " + FROMS[s.from].sql;
    if (s.where) q += " WHERE " + sql(s.where);
    if (s.grouped) { q += " GROUP BY "; for (auto &i : s.group) q += (&i == &s.group[0] ? "" : ", ") + item_sql(i); }
    if (s.having) q += " HAVING " + sql(s.having);
    if (not s.order.empty()) { q += " ORDER BY "; for (auto &o : s.order) q += (&o == &s.order[0] ? "" : ", ") + sql(o.first) + (o.second ? " ASC" : " DESC"); }
    if (not s.limit.empty()) q += " LIMIT " + s.limit;
    return q + ";";
}
/** Checks a statement, returns the types of its results; throws `Bad` if ill-formed. */
static std::vector<Ty> well_formed(const Stmt &s) {
    if (not FROMS[s.from].ok) throw Bad{ "FROM" };
    Ctx C; C.src = FROMS[s.from].src;
    if (not s.from and (s.where or s.grouped or s.having or not s.order.empty())) throw Bad{ "no FROM" };
    C.st = WHERE; if (s.where and infer(s.where, C).k != BOOL) throw Bad{ "WHERE is not boolean" };
    C.st = GROUP;
    Named keys;
    for (auto &g : s.group) { Ty t = infer(g.e, C); if (t.k == NONE or not t.vec) throw Bad{ "grouping key" }; keys.emplace_back(g.as.empty() ? (g.e->k == X::NAME ? g.e->op : sql(g.e)) : g.as, t); }
    C.keys = keys;
    const bool grouping = s.grouped or s.having;
    C.st = HAVING; if (s.having) { Ty t = infer(s.having, C); if (t.k != BOOL or t.vec) throw Bad{ "HAVING" }; }
    C.st = SELECT;
    bool sc = false, ve = false, agg = false; std::vector<Ty> R; Named res; unsigned unnamed = 0;
    if (s.star) {
        if (s.grouped) { std::set<std::string> names; for (auto &[n, t] : keys) { if (not names.insert(n).second) throw Bad{ "ambiguous key" }; Ty x = t; x.vec = false; R.push_back(x); res.emplace_back(n, x); sc = true; } }
        else for (auto &src : C.src) { std::set<std::string> names; for (auto &[n, t] : src.cols) { if (not names.insert(n).second) throw Bad{ "ambiguous name" }; R.push_back(V(t)); res.emplace_back(n, V(t)); ve = true; } }
    }
    for (auto &i : s.sel) {
        Ty t = infer(i.e, C);
        if (grouping and t.vec) throw Bad{ "not scalar" };
        if (t.vec and has_agg(i.e)) throw Bad{ "aggregate mixed with vectorial" };
        agg = agg or has_agg(i.e);
        if (not constant(i.e)) (t.vec ? ve : sc) = true;
        R.push_back(t);
        res.emplace_back(not i.as.empty() ? i.as : i.e->k == X::NAME ? i.e->op : constant(i.e) ? "$const" + std::to_string(unnamed++) : "?" + sql(i.e), t);
    }
    if (sc and ve) throw Bad{ "scalar and vectorial values" };
    C.res = res; C.st = ORDER;
    for (auto &o : s.order) {
        Ty t = infer(o.first, C);
        if (t.k == NONE) throw Bad{ "ORDER BY NULL" };
        if (grouping ? t.vec : not t.vec) throw Bad{ "ORDER BY" };
        if (not grouping and (has_agg(o.first) or agg)) throw Bad{ "ORDER BY mixes" };
    }
    if (s.limit.find("999999") != s.limit.npos) throw Bad{ "LIMIT out of range" };
    return R;
}
static void setup_clauses() {
    static bool done = false; if (done) return; done = true;
    setup({ "CREATE TABLE T (a INT(4), b DOUBLE, s VARCHAR(8), p BOOL);", "CREATE TABLE U (a INT(4), c DECIMAL(6, 2));", "INSERT INTO T VALUES (1, 0.5, \"abc\", TRUE), (2, NULL, NULL, NULL), (1, 1.5, \"x\", FALSE), (NULL, 2.0, \"\", TRUE);", "INSERT INTO U VALUES (1, 2.25), (3, NULL);" });
}
static void stmt_case(mc::Worker &W, const Stmt &s) {
    setup_clauses();
    std::vector<Ty> R; std::string why; bool ok = true;
    try { R = well_formed(s); } catch (Bad b) { ok = false; why = b.why; }
    judge(W, "statement", stmt_sql(s), ok ? &R : nullptr, why, true);
}

int main(int argc, char **argv) {
    mc::Check C("C12", "model_checking", argc, argv);
    C.rule = "semantic analysis accepts exactly the statements that are well-formed by an independent typing function and independent rules for names, aggregates, grouping, and scalar/vectorial values; it assigns the types of that function; rejection comes with a diagnostic; accepted statements are planned and executed";
    C.assumptions = { "`~` on numbers that are not integers is accepted (an existing test requires it) and not executed here except in phase `tilde`", "scalar subqueries in expressions, ISNULL(constant) beside columns and `SELECT *` with HAVING but without GROUP BY are not enumerated" };
    std::vector<E> atoms; for (auto &[n, t] : A_TY) atoms.push_back(nm(n)); for (auto &l : A_LITS) atoms.push_back(l);
    const u64 N = atoms.size(), B = BIN_OPS.size(), U = UNARY.size();

    C.explore("types-1", N + 1, [&](u64 i, mc::Worker &W) { if (i == N) { setup_types(); std::vector<Ty> w; for (auto &[n, t] : A_TY) w.push_back(V(t)); judge(W, "star", "SELECT * FROM T;", &w, "", true); } else expr_case(W, "atom", atoms[i], true); });
    C.explore("types-unary", N * U * U, [&](u64 i, mc::Worker &W) { mc::Digits d(i); auto a = atoms[d.next(N)]; auto &o = UNARY[d.next(U)], &p = UNARY[d.next(U)]; if (&p == &UNARY[0]) expr_case(W, o, unary(o, a), true); expr_case(W, p + " of " + o, unary(p, unary(o, a)), true); });
    C.explore("types-binary", N * N * B, [&](u64 i, mc::Worker &W) { mc::Digits d(i); auto a = atoms[d.next(N)], b = atoms[d.next(N)]; auto &o = BIN_OPS[d.next(B)]; expr_case(W, o, bin(o, a, b), true); });
    C.explore("types-unary-binary", N * N * B * U, [&](u64 i, mc::Worker &W) { mc::Digits d(i); auto a = atoms[d.next(N)], b = atoms[d.next(N)]; auto &o = BIN_OPS[d.next(B)]; auto &u = UNARY[d.next(U)]; const bool x = C.thorough or i % 8 == 0; expr_case(W, u + " of " + o, unary(u, bin(o, a, b)), x); expr_case(W, o + " of " + u, bin(o, unary(u, a), b), x); });
    std::vector<E> few; for (auto n : split_ws(C.thorough ? "i1 i4 i8 f d m4 m18 c b dt ts" : "i4 f m4 c b dt")) few.push_back(nm(n));
    for (auto k : C.thorough ? std::vector<int>{ 0, 1, 4, 6, 8, 11 } : std::vector<int>{ 0, 4, 6, 8 }) few.push_back(A_LITS[k]);
    const u64 M = few.size();
    C.explore("types-3", M * M * M * B * B * 2, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); auto a = few[d.next(M)], b = few[d.next(M)], c = few[d.next(M)]; auto &o = BIN_OPS[d.next(B)], &p = BIN_OPS[d.next(B)];
        expr_case(W, o + " and " + p, d.next(2) ? bin(o, bin(p, a, b), c) : bin(o, a, bin(p, b, c)), false);
    });
    C.explore("tilde", 1, [&](u64, mc::Worker &W) { setup_types(); W.describe("~ of a number that is not an integer"); std::vector<Ty> w{ V(mk(FLOAT, 64)) }; judge(W, "~ of a number that is not an integer", "SELECT ~ d FROM T;", &w, "", true); });

    auto make = [](u64 f, u64 s, u64 w, u64 g, u64 h, u64 o, u64 l) { Stmt S; S.from = int(f); S.sel = SELS[s]; S.star = s == 0; S.where = WHERES[w]; S.group = GROUPS[g]; S.grouped = g != 0; S.having = HAVINGS[h]; S.order = ORDERS[o]; S.limit = LIMITS[l]; return S; };
    auto skip = [](const Stmt &S) { return S.star and S.having and not S.grouped; };
    C.explore("where", FROMS.size() * SELS.size() * WHERES.size() * LIMITS.size() * 2, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); auto f = d.next(FROMS.size()), s = d.next(SELS.size()), w = d.next(WHERES.size()), l = d.next(LIMITS.size()), o = d.next(2);
        stmt_case(W, make(f, s, w, 0, 0, o, l));
    });
    const u64 nw = C.thorough ? 3 : 1, nh = C.thorough ? HAVINGS.size() : 5, no = C.thorough ? ORDERS.size() : 7;
    C.explore("clauses", FROMS.size() * SELS.size() * nw * GROUPS.size() * nh * no, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); auto f = d.next(FROMS.size()), s = d.next(SELS.size()), w = d.next(nw), g = d.next(GROUPS.size()), h = d.next(nh), o = d.next(no);
        if (not FROMS[f].ok and (g > 2 or h > 1 or o > 1)) return;
        auto S = make(f, s, w, g, h, o, 0); if (skip(S)) return;
        stmt_case(W, S);
    });
    C.explore("order", FROMS.size() * SELS.size() * GROUPS.size() * ORDERS.size(), [&](u64 i, mc::Worker &W) { mc::Digits d(i); auto f = d.next(FROMS.size()), s = d.next(SELS.size()), g = d.next(GROUPS.size()), o = d.next(ORDERS.size()); stmt_case(W, make(f, s, 0, g, 0, o, 0)); });
    C.explore("having", FROMS.size() * SELS.size() * GROUPS.size() * HAVINGS.size(), [&](u64 i, mc::Worker &W) { mc::Digits d(i); auto f = d.next(FROMS.size()), s = d.next(SELS.size()), g = d.next(GROUPS.size()), h = d.next(HAVINGS.size()); auto S = make(f, s, 0, g, h, 0, 0); if (not skip(S)) stmt_case(W, S); });
    return C.finish();
}
