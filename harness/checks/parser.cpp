/* Parser and printer: token sequences against an independent grammar; printed statements are parsed again. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/Type.hpp>
#include <mutable/parse/AST.hpp>
#include <mutable/util/Diagnostic.hpp>
#include "parse/ASTPrinter.hpp"
#include "parse/Parser.hpp"
#include <set>
#include <sstream>

using namespace m;
using namespace m::ast;
using u64 = uint64_t;
using Toks = std::vector<std::string>;

static std::string join(const Toks &t) { std::string s; for (auto &x : t) s += (s.empty() ? "" : " ") + x; return s; }
static Toks split(const std::string &s) { // by blanks outside of quotes
    Toks v; std::string cur; bool dq = false, sq = false;
    for (size_t k = 0; k < s.size(); ++k) { const char c = s[k]; if (dq and c == '\\' and k + 1 < s.size()) { cur += c; cur += s[++k]; continue; } if (c == '"' and not sq) dq = not dq; if (c == '\'' and not dq) sq = not sq; if (c == ' ' and not dq and not sq) { if (not cur.empty()) v.push_back(cur); cur.clear(); } else cur += c; }
    if (not cur.empty()) v.push_back(cur);
    return v;
}

/*===== Structure of the real AST ====================================================================================*/
struct Structure : ConstASTVisitor
{
    std::string s;
    using ConstASTVisitor::operator();
    template<typename T> void sub(const T &x) { s += ' '; (*this)(*x); }
    static std::string text(const Token &t) { return t.text.has_value() ? std::string(*t.text.assert_not_none()) : "-"; }
    static std::string opt(const Token &t) { return t.type == TK_EOF ? "-" : text(t); }

    void operator()(Const<ErrorExpr>&) override { s += "ERROR"; }
    void operator()(Const<Designator> &e) override { s += e.has_explicit_table_name() ? text(e.table_name) + "." + text(e.attr_name) : text(e.attr_name); }
    void operator()(Const<Constant> &e) override { s += text(e.tok); }
    void operator()(Const<FnApplicationExpr> &e) override { s += "(call"; sub(e.fn); for (auto &a : e.args) sub(a); s += ")"; }
    void operator()(Const<UnaryExpr> &e) override { s += "(" + text(e.op()); sub(e.expr); s += ")"; }
    void operator()(Const<BinaryExpr> &e) override { s += "(" + text(e.op()); sub(e.lhs); sub(e.rhs); s += ")"; }
    void operator()(Const<QueryExpr> &e) override { s += "(query"; sub(e.query); s += ")"; }

    void operator()(Const<ErrorClause>&) override { s += "ERROR"; }
    void operator()(Const<SelectClause> &c) override { s += "(select"; if (c.select_all) s += " *"; for (auto &[e, n] : c.select) { sub(e); s += ":" + opt(n); } s += ")"; }
    void operator()(Const<FromClause> &c) override {
        s += "(from";
        for (auto &f : c.from) { if (auto t = std::get_if<Token>(&f.source)) s += " " + text(*t); else { s += " "; (*this)(*std::get<Stmt*>(f.source)); } s += ":" + opt(f.alias); }
        s += ")";
    }
    void operator()(Const<WhereClause> &c) override { s += "(where"; sub(c.where); s += ")"; }
    void operator()(Const<GroupByClause> &c) override { s += "(group"; for (auto &[e, n] : c.group_by) { sub(e); s += ":" + opt(n); } s += ")"; }
    void operator()(Const<HavingClause> &c) override { s += "(having"; sub(c.having); s += ")"; }
    void operator()(Const<OrderByClause> &c) override { s += "(order"; for (auto &[e, asc] : c.order_by) { sub(e); s += asc ? ":asc" : ":desc"; } s += ")"; }
    void operator()(Const<LimitClause> &c) override { s += "(limit " + text(c.limit) + " " + opt(c.offset) + ")"; }

    void operator()(Const<PrimaryKeyConstraint>&) override { s += "primary"; }
    void operator()(Const<UniqueConstraint>&) override { s += "unique"; }
    void operator()(Const<NotNullConstraint>&) override { s += "notnull"; }
    void operator()(Const<CheckConditionConstraint> &c) override { s += "(check"; sub(c.cond); s += ")"; }
    void operator()(Const<ReferenceConstraint> &c) override { s += "(references " + text(c.table_name) + " " + text(c.attr_name) + ")"; }

    void operator()(Const<Instruction> &i) override { s += "(instruction " + std::string(*i.name); for (auto &a : i.args) s += " " + a; s += ")"; }
    void operator()(Const<ErrorStmt>&) override { s += "ERROR"; }
    void operator()(Const<EmptyStmt>&) override { s += "(empty)"; }
    void operator()(Const<CreateDatabaseStmt> &x) override { s += "(createdb " + text(x.database_name) + ")"; }
    void operator()(Const<DropDatabaseStmt> &x) override { s += "(dropdb " + text(x.database_name) + (x.has_if_exists ? " ifexists" : "") + ")"; }
    void operator()(Const<UseDatabaseStmt> &x) override { s += "(use " + text(x.database_name) + ")"; }
    static std::string type(const Type &t) {
        if (cast<const ErrorType>(&t)) return "ERROR";
        if (t.is_boolean()) return "BOOL";
        if (auto c = cast<const CharacterSequence>(&t)) return (c->is_varying ? "VARCHAR " : "CHAR ") + std::to_string(c->length);
        if (t.is_date()) return "DATE";
        if (t.is_date_time()) return "DATETIME";
        if (auto n = cast<const Numeric>(&t)) switch (n->kind) {
            case Numeric::N_Int: return "INT " + std::to_string(n->precision);
            case Numeric::N_Float: return n->precision == 32 ? "FLOAT" : "DOUBLE";
            case Numeric::N_Decimal: return "DECIMAL " + std::to_string(n->precision) + " " + std::to_string(n->scale);
        }
        return "?";
    }
    void operator()(Const<CreateTableStmt> &x) override {
        s += "(createtable " + text(x.table_name);
        for (auto &a : x.attributes) { s += " (" + text(a->name) + " " + type(*a->type); for (auto &c : a->constraints) sub(c); s += ")"; }
        s += ")";
    }
    void operator()(Const<DropTableStmt> &x) override { s += "(droptable"; for (auto &t : x.table_names) s += " " + text(*t); if (x.has_if_exists) s += " ifexists"; s += ")"; }
    void operator()(Const<CreateIndexStmt> &x) override {
        s += "(createindex " + std::string(x.has_unique ? "unique " : "") + (x.has_if_not_exists ? "ifnotexists " : "") + opt(x.index_name) + " " + text(x.table_name) + " " + opt(x.method);
        for (auto &e : x.key_fields) sub(e);
        s += ")";
    }
    void operator()(Const<DropIndexStmt> &x) override { s += "(dropindex"; for (auto &t : x.index_names) s += " " + text(*t); if (x.has_if_exists) s += " ifexists"; s += ")"; }
    void operator()(Const<SelectStmt> &x) override {
        s += "(stmt";
        for (auto c : { &x.select, &x.from, &x.where, &x.group_by, &x.having, &x.order_by, &x.limit }) if (*c) sub(*c);
        s += ")";
    }
    void operator()(Const<InsertStmt> &x) override {
        s += "(insert " + text(x.table_name);
        for (auto &t : x.tuples) { s += " ("; for (auto &[k, e] : t) { if (k == InsertStmt::I_Default) s += " DEFAULT"; else if (k == InsertStmt::I_Null) s += " NULLVALUE"; else { const size_t b = s.size(); sub(e); if (s.substr(b) == " NULL") s.replace(b, s.npos, " NULLVALUE"); } } s += ")"; }
        s += ")";
    }
    void operator()(Const<UpdateStmt> &x) override { s += "(update " + text(x.table_name); for (auto &[t, e] : x.set) { s += " " + text(t) + "="; (*this)(*e); } if (x.where) sub(x.where); s += ")"; }
    void operator()(Const<DeleteStmt> &x) override { s += "(delete " + text(x.table_name); if (x.where) sub(x.where); s += ")"; }
    void operator()(Const<DSVImportStmt> &x) override {
        s += "(import " + text(x.table_name) + " " + text(x.path) + " " + opt(x.rows) + " " + opt(x.delimiter) + " {" + opt(x.escape) + " " + opt(x.quote) + "}" + (x.has_header ? " has" : "") + (x.skip_header ? " skip" : "") + ")";
    }
};

/*===== Reference grammar ============================================================================================*/
struct Err { };
struct Ref
{
    const Toks &t; size_t i = 0; bool unclear = false; // NOT as operand of a stronger operator: outside of the documented grammar, yet unambiguous
    Ref(const Toks &t) : t(t) { }
    static inline const std::set<std::string> KW{ "AND", "AS", "ASC", "BOOL", "BY", "CASCADE", "CHAR", "CHECK", "CREATE", "DATABASE", "DATE", "DATETIME", "DECIMAL", "DEFAULT", "DELETE", "DELIMITER", "DESC", "DOUBLE", "DROP", "DSV", "ESCAPE", "EXISTS", "FALSE", "FLOAT", "FROM", "GROUP", "HAS", "HAVING", "HEADER", "IF", "IMPORT", "INDEX", "INSERT", "INT", "INTO", "KEY", "LIKE", "LIMIT", "NOT", "NULL", "OFFSET", "ON", "OR", "ORDER", "PRIMARY", "QUOTE", "REFERENCES", "RESTRICT", "ROWS", "SELECT", "SET", "SKIP", "TABLE", "TRUE", "UNIQUE", "UPDATE", "USE", "USING", "VALUES", "VARCHAR", "WHERE" };

    const std::string & cur() const { static const std::string end; return i < t.size() ? t[i] : end; }
    bool is(const char *s) const { return cur() == s; }
    bool opt(const char *s) { if (is(s)) { ++i; return true; } return false; }
    void need(const char *s) { if (not opt(s)) throw Err(); }
    static bool ident_(const std::string &s) { return not s.empty() and (isalpha((unsigned char)s[0]) or s[0] == '_') and not KW.count(s) and s.find('\'') == std::string::npos; }
    bool is_ident() const { return ident_(cur()); }
    std::string ident() { if (not is_ident()) throw Err(); return t[i++]; }
    static bool number_(const std::string &s) { return not s.empty() and (isdigit((unsigned char)s[0]) or (s[0] == '.' and s.size() > 1 and isdigit((unsigned char)s[1]))); }
    static bool integer_(const std::string &s) { if (not number_(s)) return false; if (s.size() > 1 and (s[1] == 'x' or s[1] == 'X')) return s.find_first_of(".pP") == std::string::npos; return s.find_first_of(".eE") == std::string::npos; }
    static bool dec_(const std::string &s) { return integer_(s) and s[0] != '0'; }
    static bool string_(const std::string &s) { return s.size() > 1 and s[0] == '"'; }
    static bool date_(const std::string &s) { return s.size() > 2 and s[0] == 'd' and s[1] == '\''; }
    std::string integer() { if (not integer_(cur())) throw Err(); return t[i++]; }
    std::string dec() { if (not dec_(cur())) throw Err(); return t[i++]; }
    std::string string() { if (not string_(cur())) throw Err(); return t[i++]; }
    bool constant() const { auto &c = cur(); return number_(c) or string_(c) or date_(c) or c == "TRUE" or c == "FALSE" or c == "NULL"; }

    /* 1 OR, 2 AND, 3 NOT, 4 comparison, 5 concatenation, 6 additive, 7 multiplicative, 8 unary */
    static int level(const std::string &o) {
        if (o == "OR") return 1; if (o == "AND") return 2;
        for (auto s : { "=", "!=", "<", ">", "<=", ">=", "LIKE" }) if (o == s) return 4;
        if (o == "..") return 5; if (o == "+" or o == "-") return 6; if (o == "*" or o == "/" or o == "%") return 7;
        return 0;
    }
    std::string expr(int l = 1) {
        if (l == 3) { if (opt("NOT")) return "(NOT " + expr(3) + ")"; return expr(4); }
        if (l == 8) {
            for (auto u : { "+", "-", "~" }) if (opt(u)) return std::string("(") + u + " " + expr(8) + ")";
            if (opt("NOT")) { unclear = true; return "(NOT " + expr(3) + ")"; }
            return postfix();
        }
        std::string lhs = expr(l + 1);
        while (level(cur()) == l) { const std::string o = t[i++]; const std::string rhs = expr(l + 1); lhs = "(" + o + " " + lhs + " " + rhs + ")"; }
        return lhs;
    }
    std::string postfix() {
        std::string e;
        if (is_ident()) { e = ident(); if (opt(".")) e += "." + ident(); }
        else if (constant()) e = t[i++];
        else if (opt("(")) { if (is("SELECT")) e = "(query " + select() + ")"; else e = expr(); need(")"); }
        else throw Err();
        while (opt("(")) {
            e = "(call " + e;
            if (not opt("*") and not is(")")) do e += " " + expr(); while (opt(","));
            need(")"); e += ")";
        }
        return e;
    }
    std::string named(bool) { std::string e = expr(); if (opt("AS")) return e + ":" + ident(); if (is_ident()) return e + ":" + ident(); return e + ":-"; }
    std::string select() {
        need("SELECT");
        std::string s = "(stmt (select";
        if (opt("*")) { s += " *"; } else s += " " + named(true);
        while (opt(",")) s += " " + named(true);
        s += ")";
        if (opt("FROM")) {
            s += " (from";
            do {
                if (opt("(")) { s += " " + select(); need(")"); opt("AS"); s += ":" + ident(); }
                else { s += " " + ident(); if (opt("AS")) s += ":" + ident(); else if (is_ident()) s += ":" + ident(); else s += ":-"; }
            } while (opt(","));
            s += ")";
        }
        s += where();
        if (opt("GROUP")) { need("BY"); s += " (group"; do s += " " + named(false); while (opt(",")); s += ")"; }
        if (opt("HAVING")) s += " (having " + expr() + ")";
        if (opt("ORDER")) { need("BY"); s += " (order"; do { s += " " + expr(); if (opt("DESC")) s += ":desc"; else { opt("ASC"); s += ":asc"; } } while (opt(",")); s += ")"; }
        if (opt("LIMIT")) { s += " (limit " + integer(); s += opt("OFFSET") ? " " + integer() : " -"; s += ")"; }
        return s + ")";
    }
    std::string where() { return opt("WHERE") ? " (where " + expr() + ")" : ""; }
    std::string data_type() {
        for (auto s : { "BOOL", "DATE", "DATETIME", "FLOAT", "DOUBLE" }) if (opt(s)) return s;
        for (auto s : { "CHAR", "VARCHAR", "INT" }) if (opt(s)) { need("("); auto d = dec(); need(")"); return s + (" " + d); }
        if (opt("DECIMAL")) { need("("); auto p = dec(); std::string q = "0"; if (opt(",")) { if (is("0")) ++i; else q = dec(); } need(")"); return "DECIMAL " + p + " " + q; }
        throw Err();
    }
    std::string if_exists() { if (opt("IF")) { need("EXISTS"); return " ifexists"; } return ""; }
    std::string statement() {
        if (is(";")) return "(empty)";
        if (is("SELECT")) return select();
        if (opt("CREATE")) {
            if (opt("DATABASE")) return "(createdb " + ident() + ")";
            if (opt("TABLE")) {
                std::string s = "(createtable " + ident(); need("(");
                do {
                    s += " (" + ident(); s += " " + data_type();
                    for (;;) {
                        if (opt("PRIMARY")) { need("KEY"); s += " primary"; }
                        else if (opt("NOT")) { need("NULL"); s += " notnull"; }
                        else if (opt("UNIQUE")) s += " unique";
                        else if (opt("CHECK")) { need("("); s += " (check " + expr() + ")"; need(")"); }
                        else if (opt("REFERENCES")) { s += " (references " + ident(); need("("); s += " " + ident() + ")"; need(")"); }
                        else break;
                    }
                    s += ")";
                } while (opt(","));
                need(")");
                return s + ")";
            }
            std::string s = "(createindex ";
            if (opt("UNIQUE")) s += "unique ";
            need("INDEX");
            if (opt("IF")) { need("NOT"); need("EXISTS"); s += "ifnotexists " + ident(); } else s += is_ident() ? ident() : "-";
            need("ON"); s += " " + ident();
            if (opt("USING")) s += " " + (opt("DEFAULT") ? "DEFAULT" : ident()); else s += " -";
            need("(");
            do { if (is_ident()) s += " " + ident(); else if (opt("(")) { --i; s += " " + key(); } else throw Err(); } while (opt(","));
            need(")");
            return s + ")";
        }
        if (opt("DROP")) {
            if (opt("DATABASE")) { auto e = if_exists(); return "(dropdb " + ident() + e + ")"; }
            const bool tbl = is("TABLE"); if (not tbl and not is("INDEX")) throw Err();
            ++i; auto e = if_exists(); std::string s = tbl ? "(droptable" : "(dropindex"; do s += " " + ident(); while (opt(",")); return s + e + ")";
        }
        if (opt("USE")) return "(use " + ident() + ")";
        if (opt("INSERT")) {
            need("INTO"); std::string s = "(insert " + ident(); need("VALUES");
            do { need("("); s += " ("; do { if (opt("DEFAULT")) s += " DEFAULT"; else { if (is("NULL") and i + 1 < t.size() and t[i + 1] != "," and t[i + 1] != ")") unclear = true; /* NULL is an alternative of its own */ const std::string e = expr(); s += e == "NULL" ? " NULLVALUE" : " " + e; } } while (opt(",")); need(")"); s += ")"; } while (opt(","));
            return s + ")";
        }
        if (opt("UPDATE")) { std::string s = "(update " + ident(); need("SET"); do { s += " " + ident() + "="; need("="); s += expr(); } while (opt(",")); return s + where() + ")"; }
        if (opt("DELETE")) { need("FROM"); std::string s = "(delete " + ident(); return s + where() + ")"; }
        if (opt("IMPORT")) {
            need("INTO"); std::string s = "(import " + ident(); need("DSV"); s += " " + string();
            if (opt("ROWS")) { if (integer_(cur()) and not (cur().size() > 1 and (cur()[1] == 'x' or cur()[1] == 'X'))) s += " " + t[i++]; else throw Err(); } else s += " -"; // decimal or octal
            s += opt("DELIMITER") ? " " + string() : " -";
            s += " {"; s += opt("ESCAPE") ? string() : "-"; s += opt("QUOTE") ? " " + string() : " -"; s += "}";
            if (opt("HAS")) { need("HEADER"); s += " has"; }
            if (opt("SKIP")) { need("HEADER"); s += " skip"; }
            return s + ")";
        }
        throw Err();
    }
    /** '(' expression ')' in a key list; longer expressions beginning with a parenthesis are outside of the documented grammar. */
    std::string key() {
        const size_t b = i; const std::string e = expr();
        int d = 0; size_t j = b; for (;; ++j) { if (t[j] == "(") ++d; if (t[j] == ")" and --d == 0) break; }
        if (j + 1 != i) unclear = true;
        return e;
    }
    /** All commands; throws if outside of the grammar. */
    std::vector<std::string> all() { std::vector<std::string> v; while (i < t.size()) { v.push_back(statement()); need(";"); } return v; }
};

/*===== Checks =======================================================================================================*/
struct Parsed { std::vector<std::unique_ptr<Command>> cmds; std::vector<std::string> s; unsigned errors = 0; bool endless = false; };
static Parsed parse(const std::string &text, size_t limit) {
    std::istringstream in(text); std::ostringstream o, e; Diagnostic diag(false, o, e);
    Lexer L(diag, Catalog::Get().get_pool(), "-", in); Parser P(L);
    Parsed R;
    while (P.token()) { if (R.cmds.size() > limit) { R.endless = true; break; } R.cmds.push_back(P.parse()); }
    R.errors = diag.num_errors();
    for (auto &c : R.cmds) { Structure S; S(*c); R.s.push_back(S.s); }
    return R;
}
/** An existing test requires that imports are printed without their ESCAPE and QUOTE options. */
static std::string unescaped(std::string s) { if (s.rfind("(import", 0) == 0) { auto a = s.find(" {"), b = s.find('}', a); s.replace(a, b - a, " {- -"); } return s; }
static void check(const Toks &t, mc::Worker &W, bool must_be_valid = false) {
    const std::string text = join(t);
    W.describe("statement " + text);
    auto fail = [&](const std::string &w) { W.fail(text.size() > 300 ? text.substr(0, 300) : text, "'" + (text.size() > 600 ? text.substr(0, 600) : text) + "': " + w); };
    std::vector<std::string> want; bool valid = true; Ref R(t);
    try { want = R.all(); } catch (Err) { valid = false; }
    if (must_be_valid and not valid) return fail("harness: this statement was meant to be valid");
    Parsed P = parse(text, t.size() + 2);
    if (P.endless) return fail("parsing does not end");
    if (not valid) { if (not P.errors) fail("accepted although outside of the grammar: " + (P.s.empty() ? std::string() : P.s[0])); return; }
    if (R.unclear) { if (P.errors) return; want = P.s; } // only the round trip is checked
    else {
        if (P.errors) return fail("rejected although valid");
        if (P.s != want) return fail("parsed as " + (P.s.empty() ? std::string() : P.s[0]) + " instead of " + (want.empty() ? std::string() : want[0]));
    }
    for (size_t k = 0; k != P.cmds.size(); ++k) {
        std::ostringstream o; ASTPrinter pr(o); pr(*const_cast<const Command*>(P.cmds[k].get()));
        Parsed Q = parse(o.str(), 4);
        if (Q.errors) return fail("printed as '" + o.str() + "', which does not parse");
        if (Q.s.size() != 1 or (Q.s[0] != want[k] and Q.s[0] != unescaped(want[k]))) return fail("printed as '" + o.str() + "', which parses as " + (Q.s.empty() ? std::string() : Q.s[0]) + " instead of " + want[k]);
    }
}

int main(int argc, char **argv) {
    mc::Check C("C11", "model_checking", argc, argv);
    Catalog::Get();
    const unsigned T = C.thorough ? 1 : 0;
    C.rule = "All token sequences: after SELECT up to 4 (thorough: 5) tokens of 22 expression tokens and up to 6 (7) of 9; all chains of 4 operands under all combinations of 3 binary operators and one unary operator before each operand (quick: before at most one); after the head of every statement and clause up to 4 (5) tokens of those that matter there; any 3 tokens of the whole vocabulary; 60 statements covering the grammar with every single token deleted, replaced by, or preceded by every token of the vocabulary, and neighbours exchanged (thorough: every two such deletions and replacements of close positions); nesting up to 200 and lists up to 1000. A sequence must be accepted without diagnostics iff an independent recursive-descent grammar accepts it, with the same structure, and printing and parsing again must give the same structure; all pairs of 400 expressions: equality agrees with structure, equal expressions have equal hashes.";
    auto sequences = [&](const std::string &name, const std::string &pre, const Toks &vocab, unsigned from, unsigned to, const std::string &post = ";") {
        const Toks a = split(pre), z = split(post);
        for (unsigned len = from; len <= to; ++len) {
            u64 n = 1; for (unsigned i = 0; i != len; ++i) n *= vocab.size();
            C.explore(name + " of " + std::to_string(len), n, [&, len, a, z, vocab](u64 i, mc::Worker &W) {
                Toks t = a; for (unsigned k = 0; k != len; ++k) t.push_back(vocab[i % vocab.size()]), i /= vocab.size();
                t.insert(t.end(), z.begin(), z.end());
                W.states(); W.evals(); check(t, W);
            });
        }
    };
    sequences("expressions", "SELECT", split("a 1 \"s\" NULL ( ) + - * / = < AND OR NOT ~ . , .. LIKE AS SELECT"), 0, 4 + T);
    sequences("expressions of few tokens", "SELECT", split("a ( ) - * = AND NOT ,"), 5, 6 + T);
    { /* operator chains */
        const Toks bin = split("+ - * / % .. = != < > <= >= LIKE AND OR"), un = { "", "+", "-", "~", "NOT" };
        const u64 U = C.thorough ? 625 : 17;
        C.explore("operator chains", 15 * 15 * 15 * U, [&](u64 i, mc::Worker &W) {
            unsigned o[3], u[4] = { 0, 0, 0, 0 }; for (auto &x : o) x = i % 15, i /= 15;
            if (C.thorough) for (auto &x : u) x = i % 5, i /= 5; else if (i) u[(i - 1) / 4] = 1 + (i - 1) % 4;
            Toks t{ "SELECT" }; for (unsigned k = 0; k != 4; ++k) { if (k) t.push_back(bin[o[k - 1]]); if (u[k]) t.push_back(un[u[k]]); t.push_back(std::string(1, "abcd"[k])); }
            t.push_back(";"); W.states(); W.evals(); check(t, W);
        });
    }
    struct Head { const char *name, *pre, *vocab; unsigned len; const char *post; };
    static const Head HEADS[] = {
        { "after FROM", "SELECT a FROM", "t AS , ( ) SELECT * WHERE FROM a ; 1", 5, ";" },
        { "after FROM subquery", "SELECT a FROM ( SELECT * FROM t", "t AS , ( ) WHERE LIMIT 1 ;", 4, ";" },
        { "clauses", "SELECT a FROM t", "WHERE GROUP BY HAVING ORDER LIMIT OFFSET a 1 , ASC DESC", 5, ";" },
        { "after GROUP BY", "SELECT a FROM t GROUP BY", "a b , AS ( ) + HAVING ORDER . 1", 4, ";" },
        { "after ORDER BY", "SELECT a FROM t ORDER BY", "a , ASC DESC ( ) + LIMIT 1 . BY", 5, ";" },
        { "after LIMIT", "SELECT a FROM t LIMIT", "1 0 0x1F 1.5 a - OFFSET , ; \"s\" NULL", 4, ";" },
        { "columns", "CREATE TABLE t (", "a INT ( ) 4 , NOT NULL BOOL", 6, ") ;" },
        { "types", "CREATE TABLE t ( a", "INT CHAR VARCHAR DECIMAL BOOL DATE DATETIME FLOAT DOUBLE ( ) 4 0 , 017 1.5 a", 4, ") ;" },
        { "decimal", "CREATE TABLE t ( a DECIMAL", "( ) 10 2 0 00 , a", 5, ") ;" },
        { "constraints", "CREATE TABLE t ( a INT ( 4 )", "PRIMARY KEY NOT NULL UNIQUE CHECK ( ) a , REFERENCES b", 5, ") ;" },
        { "create index", "CREATE", "UNIQUE INDEX IF NOT EXISTS i ON t", 5, "( a ) ;" },
        { "index keys", "CREATE INDEX i ON t", "USING DEFAULT ( ) a , + 1 .", 5, ") ;" },
        { "key expressions", "CREATE INDEX ON t (", "( ) a , . 1 - SELECT", 6, ") ;" },
        { "drop", "DROP", "DATABASE TABLE INDEX IF NOT EXISTS a b , ;", 5, ";" },
        { "values", "INSERT INTO t VALUES", "( ) DEFAULT NULL 1 , - a", 6, ";" },
        { "insert", "INSERT", "INTO t VALUES ( ) 1 , SELECT", 5, ";" },
        { "set", "UPDATE t SET", "a = 1 , + WHERE ( ) .", 6, ";" },
        { "update", "UPDATE", "t SET a = 1 WHERE ,", 5, ";" },
        { "delete", "DELETE", "FROM t WHERE a = 1 ; ,", 5, ";" },
        { "import", "IMPORT INTO t DSV \"f\"", "ROWS 1 0x1 DELIMITER \"s\" ESCAPE QUOTE HAS SKIP HEADER", 5, ";" },
        { "import heads", "IMPORT", "INTO t DSV \"f\" ROWS 1 ;", 5, ";" },
        { "use", "USE", "t , . 1 DATABASE ; \"s\"", 3, ";" },
        { "calls", "SELECT f", "( ) * a , + ( . f", 6, ";" },
        { "subqueries", "SELECT a FROM t WHERE (", "SELECT a ) ( = FROM t *", 5, ") ;" },
        { "several", "", "; SELECT a CREATE DATABASE USE t DROP", 6, ";" },
    };
    for (auto &h : HEADS) { const Toks v = split(h.vocab); unsigned L = h.len - (T ? 0 : 1); sequences(h.name, h.pre, v, 0, L, h.post); }
    const Toks VOCAB = [] { Toks v(Ref::KW.begin(), Ref::KW.end()); for (auto &x : split("a 1 017 0 0x1F 1.5 0x1p3 \"s\" d'2020-01-31' ( ) ~ + - * / % .. = != < > <= >= , . ;")) v.push_back(x); return v; }();
    sequences("any tokens", "", VOCAB, 1, 3, "");
    static const char *CORPUS[] = {
        ";", "SELECT * ;", "SELECT 1 , 2 x , 3 AS y ;", "SELECT * , a FROM t ;", "SELECT a . b , c FROM t ;", "SELECT a FROM t , u AS v , w x ;", "SELECT a FROM ( SELECT * FROM t ) AS s ;", "SELECT a FROM ( SELECT b FROM t ) s , u ;",
        "SELECT a FROM t WHERE a = 1 AND b != 2 OR NOT c < d ;", "SELECT a FROM t WHERE ( a + b ) * c - d / e % 2 = - 1 ;", "SELECT a FROM t WHERE name LIKE \"a%\" AND s .. \"x\" = \"yx\" ;",
        "SELECT a , COUNT ( * ) FROM t GROUP BY a ;", "SELECT a FROM t GROUP BY a + 1 AS x , b ;", "SELECT SUM ( a ) FROM t GROUP BY b HAVING SUM ( a ) > 1 ;", "SELECT a FROM t ORDER BY a , b DESC , c ASC ;",
        "SELECT a FROM t LIMIT 10 ;", "SELECT a FROM t LIMIT 0x10 OFFSET 017 ;", "SELECT a FROM t WHERE x GROUP BY a HAVING b ORDER BY c DESC LIMIT 1 OFFSET 2 ;",
        "SELECT ( SELECT a FROM t ) ;", "SELECT a FROM t WHERE a = ( SELECT MIN ( b ) FROM u WHERE u . x = t . x ) ;", "SELECT a FROM t HAVING ( SELECT b FROM u ) < 1 ;", "SELECT a FROM t ORDER BY ( SELECT b FROM u ) ;", "SELECT a FROM t GROUP BY ( SELECT b FROM u ) AS g ;",
        "SELECT f ( ) , g ( a ) , h ( a , b + 1 ) , f ( g ( h ( 1 ) ) ) ;", "SELECT f ( a ) ( b ) ;", "SELECT ~ a , + a , - - a , NOT NOT a ;", "SELECT d'2020-01-31' , d'-0044-03-15' , d'2020-01-31 12:34:56' , NULL , TRUE , FALSE , 0x1F , 017 , 0 , 1.5 , .5 , 1e5 , 0x1p3 , \"a\\\"b\" ;",
        "SELECT a FROM ( SELECT a FROM ( SELECT a FROM t WHERE a = ( SELECT 1 ) ) AS x ) AS y ;",
        "CREATE DATABASE d ;", "DROP DATABASE d ;", "DROP DATABASE IF EXISTS d ;", "USE d ;",
        "CREATE TABLE t ( a INT ( 4 ) ) ;", "CREATE TABLE t ( a INT ( 4 ) PRIMARY KEY , b CHAR ( 10 ) NOT NULL UNIQUE , c VARCHAR ( 20 ) ) ;", "CREATE TABLE t ( a BOOL , b DATE , c DATETIME , d FLOAT , e DOUBLE , f DECIMAL ( 10 ) , g DECIMAL ( 10 , 2 ) , h DECIMAL ( 5 , 0 ) ) ;",
        "CREATE TABLE t ( a INT ( 8 ) CHECK ( a > 0 AND a < 10 ) REFERENCES u ( b ) NOT NULL ) ;", "CREATE TABLE t ( a INT ( 8 ) CHECK ( a = ( SELECT 1 ) ) ) ;",
        "DROP TABLE t ;", "DROP TABLE IF EXISTS t , u , v ;", "DROP INDEX i ;", "DROP INDEX IF EXISTS i , j ;",
        "CREATE INDEX ON t ( a ) ;", "CREATE INDEX i ON t ( a , b ) ;", "CREATE UNIQUE INDEX IF NOT EXISTS i ON t USING rmi ( a ) ;", "CREATE INDEX i ON t USING DEFAULT ( ( a + b ) , c , ( - a ) ) ;", "CREATE INDEX ON t ( ( t . a ) , ( 1 ) , ( f ( a ) ) , ( a ) ) ;", "CREATE INDEX ON t ( ( ( SELECT a FROM u ) ) ) ;",
        "INSERT INTO t VALUES ( 1 ) ;", "INSERT INTO t VALUES ( 1 , \"a\" , NULL , DEFAULT , - 2 ) , ( 2 + 3 , d'2020-01-31' , TRUE ) ;", "INSERT INTO t VALUES ( ( SELECT 1 ) ) , ( NULL ) ;",
        "UPDATE t SET a = 1 ;", "UPDATE t SET a = b + 1 , b = ( SELECT 1 ) WHERE a = 2 OR b ;", "DELETE FROM t ;", "DELETE FROM t WHERE a = ( SELECT 1 FROM u ) ;",
        "IMPORT INTO t DSV \"f.csv\" ;", "IMPORT INTO t DSV \"f\" ROWS 10 DELIMITER \"|\" ESCAPE \"\\\\\" QUOTE \"\\\"\" HAS HEADER SKIP HEADER ;", "IMPORT INTO t DSV \"f\" ROWS 010 HAS HEADER ;", "IMPORT INTO t DSV \"f\" QUOTE \"'\" SKIP HEADER ;",
        "SELECT a ; ; USE d ; CREATE DATABASE e ;",
    };
    static std::vector<Toks> corpus; for (auto c : CORPUS) corpus.push_back(split(c));
    C.explore("corpus", corpus.size(), [&](u64 i, mc::Worker &W) { W.states(); W.evals(); check(corpus[i], W, true); });
    { /* edits */
        struct Edit { unsigned c, p; };
        std::vector<Edit> E; for (unsigned c = 0; c != corpus.size(); ++c) for (unsigned p = 0; p <= corpus[c].size(); ++p) E.push_back({ c, p });
        const u64 V = VOCAB.size(), N = 2 * V + 2;
        auto apply = [&, V](Toks &t, unsigned p, u64 k) -> bool { // false if the edit does not apply
            if (k < V) { if (p >= t.size()) return false; t[p] = VOCAB[k]; }
            else if (k < 2 * V) t.insert(t.begin() + p, VOCAB[k - V]);
            else if (k == 2 * V) { if (p >= t.size()) return false; t.erase(t.begin() + p); }
            else { if (p + 1 >= t.size()) return false; std::swap(t[p], t[p + 1]); }
            return true;
        };
        C.explore("edited statements", E.size() * N, [&](u64 i, mc::Worker &W) {
            auto e = E[i / N]; Toks t = corpus[e.c];
            if (not apply(t, e.p, i % N)) return;
            W.states(); W.evals(); check(t, W);
        });
        if (C.thorough) {
            /* two edits at a distance of up to 2, tokens from a smaller vocabulary */
            static const Toks V2 = split("a 1 \"s\" ( ) - * = AND NOT NULL , . ; SELECT FROM AS BY WHERE");
            const u64 M = V2.size() + 1;
            C.explore("twice edited statements", E.size() * M * M * 3, [&](u64 i, mc::Worker &W) {
                const unsigned d = i % 3; i /= 3; const u64 k1 = i % M, k2 = i / M % M; auto e = E[i / M / M]; Toks t = corpus[e.c];
                const unsigned q = e.p + 1 + d; if (q >= t.size()) return;
                if (k2 < V2.size()) t[q] = V2[k2]; else t.erase(t.begin() + q);
                if (k1 < V2.size()) t[e.p] = V2[k1]; else t.erase(t.begin() + e.p);
                W.states(); W.evals(); check(t, W);
            });
        }
    }
    C.explore("long and deep", 200 * 8, [&](u64 i, mc::Worker &W) {
        const unsigned n = 1 + i / 8, big = n * 5; Toks t;
        auto rep = [&](const std::string &s, unsigned k) { for (auto &x : split(s)) (void)x; const Toks v = split(s); while (k--) t.insert(t.end(), v.begin(), v.end()); };
        switch (i % 8) {
            case 0: rep("SELECT", 1); rep("(", n); rep("a", 1); rep(")", n); break;
            case 1: rep("SELECT", 1); rep("-", n); rep("a", 1); break;
            case 2: rep("SELECT", 1); rep("a +", big); rep("a", 1); break;
            case 3: rep("SELECT", 1); rep("a ,", big); rep("a", 1); break;
            case 4: rep("SELECT * FROM (", n); rep("SELECT 1", 1); rep(") AS x", n); break;
            case 5: rep("SELECT", 1); rep("f (", n); rep(")", n); break;
            case 6: rep("SELECT", 1); rep("( SELECT", n); rep("1", 1); rep(")", n); break;
            default: rep("INSERT INTO t VALUES", 1); rep("( 1 , 2 ) ,", big); rep("( 3 )", 1); break;
        }
        t.push_back(";"); W.states(); W.evals(); check(t, W, true);
    });
    { /* equality and hashes */
        static std::vector<std::string> ex;
        const Toks at = split("a b t.a 1 2 \"a\" NULL TRUE");
        for (auto &x : at) ex.push_back(x);
        for (auto u : { "-", "+", "~", "NOT" }) for (auto &x : at) ex.push_back(std::string(u) + " " + x);
        for (auto o : { "+", "-", "*", "=", "<", "AND", "OR", "LIKE" }) for (auto &x : at) for (auto &y : { "a", "b", "1", "t.a" }) ex.push_back(x + " " + o + " " + y);
        for (auto &x : at) ex.push_back("f ( " + x + " )"), ex.push_back("g ( " + x + " , a )"), ex.push_back("f ( a , " + x + " )"), ex.push_back("( a + b ) * " + x), ex.push_back("a + b * " + x), ex.push_back(x + " - ( a - b )"), ex.push_back(x + " - a - b"), ex.push_back("f ( " + x + " ) ( a )");
        ex.push_back("f ( )"); ex.push_back("f ( * )"); ex.push_back("g ( )"); ex.push_back("( a )");
        struct X { std::unique_ptr<Command> c; const Expr *e; std::string s; };
        static std::vector<X> xs, ys; // parsed twice, so that equality is never that of one object
        for (auto v : { &xs, &ys }) for (auto &e : ex) { auto P = parse("SELECT " + e + ";", 2); auto &sel = as<SelectClause>(*as<SelectStmt>(*P.cmds[0]).select); const Expr *x = sel.select[0].first.get(); Structure S; S(*x); v->push_back({ std::move(P.cmds[0]), x, S.s }); }
        C.explore("equality of expressions", xs.size(), [&](u64 i, mc::Worker &W) {
            W.describe("equality of " + ex[i]); W.states();
            for (size_t j = 0; j != ys.size(); ++j) {
                const bool e = xs[i].s == ys[j].s;
                if ((*xs[i].e == *ys[j].e) != e or (*xs[i].e != *ys[j].e) == e) W.fail("equality " + ex[i] + " | " + ex[j], "equality of '" + ex[i] + "' and '" + ex[j] + "' is " + (e ? "false" : "true"));
                if (e and xs[i].e->hash() != ys[j].e->hash()) W.fail("hash " + ex[i], "hashes of equal expressions '" + ex[i] + "' and '" + ex[j] + "' differ");
            }
            W.evals(ys.size());
        });
    }
    return C.finish();
}
