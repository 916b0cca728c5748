/* DDL histories: every sequence of statements that create and drop databases, tables and indexes, on the real catalog in lock-step
 * with a model made of maps; and all reachable states of the model with every statement tried in each of them. */
#include "common/mc.hpp"
#include "common/sqlkit.hpp"
#include <mutable/catalog/Schema.hpp>
#include <mutable/storage/Index.hpp>
#include <map>
#include <functional>
#include <set>

using namespace m;
using u64 = uint64_t;

/*----- the model ----------------------------------------------------------------------------------------------------*/
struct MAttr { std::string name, type; bool pk = false, unique = false, notnull = false; std::string ref; };
struct MTab { unsigned def; int rows = 0; std::vector<MAttr> attrs; };
struct MIdx { std::string table, attr, method; bool valid = true; };
struct MDB { std::map<std::string, MTab> tabs; std::map<std::string, MIdx> idx; };
struct Model {
    std::map<std::string, MDB> dbs; std::string use;
    std::string key() const {
        std::string s = "use=" + use;
        for (auto &[n, d] : dbs) {
            s += ";" + n + ":";
            for (auto &[t, T] : d.tabs) { s += t + std::to_string(T.def) + "#" + std::to_string(T.rows); for (auto &a : T.attrs) s += a.ref.empty() ? "" : ">" + a.ref; s += ","; }
            for (auto &[i, I] : d.idx) s += i + "@" + I.table + "." + I.attr + "/" + I.method + (I.valid ? "" : "!") + ",";
        }
        return s;
    }
    MDB * in_use() { auto it = dbs.find(use); return it == dbs.end() ? nullptr : &it->second; }
};
struct Stmt { std::string sql; std::function<bool(Model&)> step; }; ///< step returns whether the statement succeeds; a failing one changes nothing

static std::vector<Stmt> statements(bool large) {
    std::vector<Stmt> S;
    auto create_db = [&](std::string n) { S.push_back({ "CREATE DATABASE " + n, [n](Model &M) { return M.dbs.emplace(n, MDB{}).second; } }); };
    auto drop_db = [&](std::string n, bool ife) { S.push_back({ std::string("DROP DATABASE ") + (ife ? "IF EXISTS " : "") + n, [n, ife](Model &M) { if (M.use == n) return false; return M.dbs.erase(n) or ife; } }); };
    auto use = [&](std::string n) { S.push_back({ "USE " + n, [n](Model &M) { if (not M.dbs.count(n)) return false; M.use = n; return true; } }); };
    auto table = [&](std::string n, unsigned def, std::string body, std::vector<MAttr> attrs, std::string ref_table = "", std::string ref_attr = "") {
        S.push_back({ "CREATE TABLE " + n + " (" + body + ")", [=](Model &M) {
            auto D = M.in_use(); if (not D or D->tabs.count(n) or attrs.empty()) return false;
            if (not ref_table.empty()) { // the referenced attribute exists and has the type of the first one
                auto it = D->tabs.find(ref_table); if (it == D->tabs.end()) return false;
                bool found = false; for (auto &a : it->second.attrs) found |= a.name == ref_attr and a.type == attrs[0].type; if (not found) return false;
            }
            D->tabs[n] = MTab{ def, 0, attrs }; return true;
        } });
    };
    auto drop_tab = [&](std::vector<std::string> ns, bool ife) {
        std::string l; for (auto &n : ns) l += (l.empty() ? "" : ", ") + n;
        S.push_back({ std::string("DROP TABLE ") + (ife ? "IF EXISTS " : "") + l, [ns, ife](Model &M) {
            auto D = M.in_use(); if (not D) return false;
            if (not ife) for (auto &n : ns) if (not D->tabs.count(n)) return false;
            for (auto &n : ns) if (D->tabs.erase(n)) {
                for (auto it = D->idx.begin(); it != D->idx.end();) if (it->second.table == n) it = D->idx.erase(it); else ++it;
                for (auto &[_, T] : D->tabs) for (auto &a : T.attrs) if (a.ref.rfind(n + ".", 0) == 0) a.ref.clear();
            }
            return true;
        } });
    };
    auto index = [&](std::string pre, std::string n, std::string t, std::string method, std::string keys, std::string attr, bool ifn = false, std::set<std::string> rmi_no = {}) {
        S.push_back({ pre + t + (method.empty() ? "" : " USING " + method) + " (" + keys + ")", [=](Model &M) {
            auto D = M.in_use(); if (not D) return false;
            if (attr.empty()) return ifn and D->idx.count(n); // not supported
            if (D->idx.count(n)) return ifn;
            auto it = D->tabs.find(t); if (it == D->tabs.end()) return false;
            const MAttr *a = nullptr; for (auto &x : it->second.attrs) if (x.name == attr) a = &x;
            if (not a) return false;
            D->idx[n] = MIdx{ t, attr, method == "rmi" ? "rmi" : "array" }; return true;
        } });
    };
    auto drop_idx = [&](std::vector<std::string> ns, bool ife) {
        std::string l; for (auto &n : ns) l += (l.empty() ? "" : ", ") + n;
        S.push_back({ std::string("DROP INDEX ") + (ife ? "IF EXISTS " : "") + l, [ns, ife](Model &M) {
            auto D = M.in_use(); if (not D) return false;
            if (not ife) for (auto &n : ns) if (not D->idx.count(n)) return false;
            for (auto &n : ns) D->idx.erase(n);
            return true;
        } });
    };
    auto insert = [&](std::string n, std::string vals, std::set<unsigned> defs) {
        S.push_back({ "INSERT INTO " + n + " VALUES (" + vals + ")", [=](Model &M) {
            auto D = M.in_use(); if (not D) return false;
            auto it = D->tabs.find(n); if (it == D->tabs.end() or not defs.count(it->second.def)) return false;
            it->second.rows++; for (auto &[_, I] : D->idx) if (I.table == n) I.valid = false;
            return true;
        } });
    };
    const MAttr a4{ "a", "INT(4)", true }, b3{ "b", "CHAR(3)", false, false, true }, c8{ "c", "DOUBLE", false, true };
    create_db("x"); create_db("y"); drop_db("x", false); use("x"); use("y");
    table("t", 1, "a INT(4) PRIMARY KEY, b CHAR(3) NOT NULL, c DOUBLE UNIQUE", { a4, b3, c8 });
    table("t", 2, "a INT(8), d DATE NOT NULL UNIQUE", { { "a", "INT(8)" }, { "d", "DATE", false, true, true } });
    table("u", 3, "a INT(4) NOT NULL REFERENCES t (a), b BOOL", { { "a", "INT(4)", false, false, true, "t.a" }, { "b", "BOOL" } }, "t", "a");
    table("u", 4, "a INT(4) CHECK (a > 0)", { { "a", "INT(4)" } });
    drop_tab({ "t" }, false); drop_tab({ "u", "t" }, false); drop_tab({ "t", "u" }, true);
    index("CREATE INDEX i ON ", "i", "t", "", "a", "a"); index("CREATE INDEX j ON ", "j", "u", "rmi", "a", "a"); index("CREATE INDEX IF NOT EXISTS i ON ", "i", "t", "array", "b", "b", true);
    drop_idx({ "i" }, false); drop_idx({ "i", "j" }, true);
    insert("t", "1, \"x\", 2.5", { 1 }); insert("u", "3, FALSE", { 3 });
    if (large) {
        drop_db("y", false); drop_db("x", true);
        drop_tab({ "u" }, true); drop_tab({ "t", "t" }, false); drop_tab({ "u", "t", "u" }, true);
        drop_idx({ "j", "i" }, false); drop_idx({ "j" }, true); drop_idx({ "i", "i" }, false);
        insert("t", "7, d'2020-02-03'", { 2 }); insert("u", "3", { 4 }); insert("u", "\"x\"", {});
        table("u", 9, "a INT(4), a BOOL", {}); table("u", 9, "a INT(4) PRIMARY KEY, b INT(4) PRIMARY KEY", {}); table("u", 9, "a INT(4) CHECK (a + 1)", {}); table("u", 9, "a INT(4) CHECK (z > 1)", {});
        table("u", 9, "a INT(4) REFERENCES t (zz)", {}); table("u", 9, "a INT(4) REFERENCES zz (a)", {}); table("u", 9, "a INT(4) REFERENCES t (a) REFERENCES t (a)", {}); table("u", 9, "a CHAR(3) REFERENCES t (c)", {});
        table("u", 5, "b CHAR(3) REFERENCES t (b), a DATETIME PRIMARY KEY, e DECIMAL(9,2)", { { "b", "CHAR(3)", false, false, false, "t.b" }, { "a", "DATETIME", true }, { "e", "DECIMAL(9, 2)" } }, "t", "b");
        index("CREATE UNIQUE INDEX i ON ", "i", "t", "", "a", ""); index("CREATE INDEX ON ", "i", "t", "", "a", ""); index("CREATE INDEX i ON ", "i", "t", "", "a, b", ""); index("CREATE INDEX i ON ", "i", "t", "magic", "a", "");
        index("CREATE INDEX i ON ", "i", "t", "", "(a + 1)", ""); index("CREATE INDEX i ON ", "i", "t", "", "(u.a)", ""); index("CREATE INDEX i ON ", "i", "t", "", "(t.a)", "a"); index("CREATE INDEX i ON ", "i", "t", "", "zz", "zz"); index("CREATE INDEX j ON ", "j", "t", "DEFAULT", "b", "b");
        index("CREATE INDEX j ON ", "j", "u", "", "b", "b");
    }
    return S;
}

/*----- the real catalog ---------------------------------------------------------------------------------------------*/
static sqlkit::Engine & E_() { static sqlkit::Engine E; return E; }
static void own_memory() {
    static pid_t owner = 0; if (owner == getpid()) return; owner = getpid();
    auto &a = dynamic_cast<memory::LinearAllocator&>(Catalog::Get().allocator()); a.~LinearAllocator(); new (&a) memory::LinearAllocator();
}
static void reset() { own_memory(); Catalog::Clear(); }

/** Compares everything that is observable. */
static std::string compare(const Model &M) {
    auto &C = Catalog::Get();
    if (C.num_databases() != M.dbs.size()) return "there are " + std::to_string(C.num_databases()) + " databases instead of " + std::to_string(M.dbs.size());
    if (C.has_database_in_use() != not M.use.empty()) return M.use.empty() ? "a database is in use" : "no database is in use";
    if (not M.use.empty() and *C.get_database_in_use().name != M.use) return std::string("database ") + *C.get_database_in_use().name + " is in use instead of " + M.use;
    for (std::string n : { "x", "y", "t", "i", "z" }) if (C.has_database(C.pool(n.c_str())) != bool(M.dbs.count(n))) return "database " + n + (M.dbs.count(n) ? " is missing" : " exists");
    for (auto &[n, D] : M.dbs) {
        auto &DB = C.get_database(C.pool(n.c_str()));
        if (*DB.name != n) return "database " + n + " is named " + *DB.name;
        if (DB.size() != D.tabs.size()) return "database " + n + " has " + std::to_string(DB.size()) + " tables instead of " + std::to_string(D.tabs.size());
        for (std::string t : { "t", "u", "i", "j", "x", "zz" }) if (DB.has_table(C.pool(t.c_str())) != bool(D.tabs.count(t))) return "table " + n + "." + t + (D.tabs.count(t) ? " is missing" : " exists");
        for (auto &[t, T] : D.tabs) {
            auto &R = DB.get_table(C.pool(t.c_str()));
            const std::string N = n + "." + t;
            if (*R.name() != t) return "table " + N + " is named " + *R.name();
            if (R.num_attrs() != T.attrs.size()) return "table " + N + " has " + std::to_string(R.num_attrs()) + " attributes instead of " + std::to_string(T.attrs.size());
            if (R.store().num_rows() != size_t(T.rows)) return "table " + N + " has " + std::to_string(R.store().num_rows()) + " rows instead of " + std::to_string(T.rows);
            std::set<std::string> pk; for (auto &a : R.primary_key()) pk.insert(*a.get().name);
            const auto schema = R.schema();
            for (size_t i = 0; i != T.attrs.size(); ++i) {
                auto &a = T.attrs[i]; auto &r = R.at(i); std::ostringstream ty; ty << *r.type;
                const std::string A = "attribute " + N + "." + a.name;
                if (*r.name != a.name) return A + " is named " + *r.name;
                if (ty.str() != a.type) return A + " has type " + ty.str() + " instead of " + a.type;
                if (not R.has_attribute(C.pool(a.name.c_str())) or &R.at(C.pool(a.name.c_str())) != &r) return A + " is not found by its name";
                if (r.unique != a.unique or r.is_unique() != (a.unique or a.pk)) return A + (r.is_unique() ? " is unique" : " is not unique");
                if (r.not_nullable != a.notnull) return A + (r.not_nullable ? " is not nullable" : " is nullable");
                if (pk.count(a.name) != a.pk) return A + (a.pk ? " is not in the primary key" : " is in the primary key");
                if ((r.reference != nullptr) == a.ref.empty()) return A + (r.reference ? " references an attribute" : " references no attribute");
                bool runique = false;
                if (r.reference) {
                    auto &o = DB.get_table(C.pool(a.ref.substr(0, a.ref.find('.')).c_str())).at(C.pool(a.ref.substr(a.ref.find('.') + 1).c_str()));
                    if (r.reference != &o) return A + " references the wrong attribute";
                    runique = o.is_unique();
                }
                auto &e = schema.at(i);
                if (e.id.name != r.name or e.type != r.type or e.unique() != r.is_unique() or e.nullable() == a.notnull or e.references_unique() != runique) return "the schema of " + A + " has wrong constraints";
            }
        }
        for (std::string i : { "i", "j", "t", "x" }) {
            auto it = D.idx.find(i); const bool want = it != D.idx.end();
            if (DB.has_index(C.pool(i.c_str())) != want) return "index " + n + "." + i + (want ? " is missing" : " exists");
            try { auto &I = DB.get_index(C.pool(i.c_str())); if (not want) return "index " + n + "." + i + " can be retrieved";
                  if ((I.method() == idx::IndexMethod::Rmi) != (it->second.method == "rmi")) return "index " + n + "." + i + " has the wrong method"; }
            catch (m::invalid_argument&) { if (want) return "index " + n + "." + i + " cannot be retrieved"; }
        }
        for (auto &[t, T] : D.tabs) for (auto &a : T.attrs) for (auto mth : { idx::IndexMethod::Array, idx::IndexMethod::Rmi }) {
            bool want = false; for (auto &[_, I] : D.idx) want |= I.valid and I.table == t and I.attr == a.name and (I.method == "rmi") == (mth == idx::IndexMethod::Rmi);
            if (DB.has_index(C.pool(t.c_str()), C.pool(a.name.c_str()), mth) != want) return "a valid index on " + n + "." + t + "." + a.name + (want ? " is missing" : " exists");
        }
    }
    return "";
}
/** Executes a statement and compares; `M` is advanced. */
static std::string step(Model &M, const Stmt &s) {
    Model N = M; const bool ok = s.step(N); auto r = E_().run(s.sql + ";");
    if (ok) M = N;
    const bool got = r.error.find("EXCEPTION") == std::string::npos ? (E_().diag.num_errors() == 0) : false;
    if (r.error.find("EXCEPTION") != std::string::npos) return s.sql + ": raises " + r.error;
    if (got != ok) return s.sql + (ok ? ": fails with " + r.error : ": succeeds");
    if (not ok and r.error.empty()) return s.sql + ": fails without a diagnostic";
    if (auto e = compare(M); not e.empty()) return "after " + s.sql + (ok ? "" : " (which fails)") + ": " + e;
    return "";
}
static std::string fingerprint(const std::string &e) { std::string s; for (char c : e) s += (c >= '0' and c <= '9') ? '#' : c; return s.substr(0, 120); }
/** All tables of the database in use answer queries. */
static std::string query(Model &M) {
    auto D = M.in_use(); if (not D) return "";
    for (auto &[t, T] : D->tabs) {
        auto r = E_().run("SELECT * FROM " + t + ";");
        if (not r.ok or r.rows.size() != size_t(T.rows)) return "SELECT * FROM " + t + ": " + (r.ok ? std::to_string(r.rows.size()) + " rows" : r.error);
        const int v = T.def == 1 ? 1 : T.def == 2 ? 7 : 3; if (T.def == 5) continue;
        r = E_().run("SELECT a FROM " + t + " WHERE a >= " + std::to_string(v) + ";");
        if (not r.ok or r.rows != std::vector<std::string>(T.rows, std::to_string(v))) return "SELECT a FROM " + t + ": " + (r.ok ? sqlkit::join_rows(r.rows) : r.error);
    }
    return "";
}

int main(int argc, char **argv) {
    mc::Check C("C09", "model_checking", argc, argv);
    C.rule = "Databases x and y, tables t and u (five definitions with PRIMARY KEY, NOT NULL, UNIQUE, CHECK, REFERENCES), indexes i and j (array, rmi), with statements that succeed and that fail. (1) breadth-first search over the states of the map model up to a depth, each state reached on the real catalog by its shortest history, every statement tried in it and in the states that follow; (2) all sequences of statements of a smaller alphabet up to a length; (3) scripts of up to three statements, also ill-formed ones, sent as one stream. After every statement success, diagnostic and everything observable of the catalog are compared: databases, the one in use, tables, attributes, types, constraints, schema, rows, indexes and their validity.";
    C.assumptions = { "a reference to an attribute ends when the referenced table is dropped", "constraints are declared, not enforced", "CREATE of an existing name fails also with another definition" };
    const auto S = statements(true), SMALL = statements(false);
    const size_t N = S.size();

    /* (1) */
    struct State { std::vector<uint16_t> path; };
    std::vector<State> states; std::set<std::string> seen; size_t max_depth = 0;
    {
        std::vector<std::pair<Model, std::vector<uint16_t>>> layer{ { Model{}, {} } }; seen.insert(Model{}.key());
        const size_t cap = C.thorough ? 60000 : 5000;
        while (not layer.empty() and states.size() < cap) {
            std::vector<std::pair<Model, std::vector<uint16_t>>> next;
            for (auto &[M, p] : layer) {
                states.push_back({ p }); max_depth = std::max(max_depth, p.size());
                for (size_t i = 0; i != N; ++i) { Model X = M; if (not S[i].step(X)) continue; if (auto D = X.in_use()) { int rows = 0; for (auto &[_, T] : D->tabs) rows += T.rows; if (rows > 2) continue; } if (seen.insert(X.key()).second) { auto q = p; q.push_back(uint16_t(i)); next.push_back({ X, q }); } }
            }
            layer = std::move(next);
        }
    }
    C.explore("reachable states", states.size(), [&](u64 k, mc::Worker &W) {
        const auto &path = states[k].path; std::string hist; for (auto i : path) hist += S[i].sql + "; ";
        auto replay = [&](Model &M) -> bool { reset(); M = Model{}; for (auto i : path) if (auto e = step(M, S[i]); not e.empty()) { W.fail(fingerprint(e), hist + ":: " + e); return false; } return true; };
        Model M; W.states(); W.describe("history :: " + hist);
        if (not replay(M)) return;
        if (auto e = query(M); not e.empty()) return W.fail(fingerprint(e), hist + ":: " + e);
        const std::string key = M.key(); u64 n = 0; std::vector<size_t> changing;
        for (size_t i = 0; i != N; ++i) { // first the statements that leave the state as it is
            Model X = M; const bool ok = S[i].step(X); if (ok and X.key() != key) { changing.push_back(i); continue; }
            W.describe(S[i].sql + " :: " + hist + S[i].sql); ++n;
            if (auto e = step(M, S[i]); not e.empty()) return W.fail(fingerprint(e), hist + ":: " + e);
        }
        for (size_t i : changing) {
            if (not replay(M)) return;
            W.describe(S[i].sql + " :: " + hist + S[i].sql); ++n;
            if (auto e = step(M, S[i]); not e.empty()) return W.fail(fingerprint(e), hist + ":: " + e);
            if (auto e = query(M); not e.empty()) return W.fail(fingerprint(e), hist + S[i].sql + " :: " + e);
        }
        W.evals(n); W.transitions(n);
    });

    /* (2) */
    const unsigned L = C.thorough ? 6 : 5; const size_t A = SMALL.size();
    u64 total = 1; for (unsigned l = 1; l != L; ++l) total *= A; // the last statement is enumerated inside
    C.explore("sequences", total, [&](u64 k, mc::Worker &W) {
        mc::Digits d(k); std::vector<size_t> seq; for (unsigned l = 1; l != L; ++l) seq.push_back(d.next(A));
        std::reverse(seq.begin(), seq.end());
        std::string hist = "CREATE DATABASE x; USE x; "; for (auto i : seq) hist += SMALL[i].sql + "; ";
        reset(); Model M; u64 n = 0; W.describe("sequence :: " + hist);
        for (size_t i : { size_t(0), size_t(3) }) if (auto e = step(M, SMALL[i]); not e.empty()) return W.fail(fingerprint(e), hist + ":: " + e);
        for (size_t i : seq) if (auto e = step(M, SMALL[i]); not e.empty()) return W.fail(fingerprint(e), hist + ":: " + e);
        const std::string key = M.key();
        for (size_t i = 0; i != A; ++i) { Model X = M; const bool ok = SMALL[i].step(X); if (ok and X.key() != key) continue; ++n; if (auto e = step(M, SMALL[i]); not e.empty()) return W.fail(fingerprint(e), hist + ":: " + e); }
        if (auto e = query(M); not e.empty()) return W.fail(fingerprint(e), hist + ":: " + e);
        W.states(); W.evals(n + seq.size()); W.transitions(n + seq.size());
    });

    /* (3) */
    std::vector<Stmt> SC = SMALL;
    for (std::string bad : { "CREATE TABLE", "DROP INDEX i j", "CREATE DATABASE x y", "USE", "FOO", "CREATE TABLE t (a INT(4)", "" }) SC.push_back({ bad, [bad](Model&) { return bad.empty(); } });
    const size_t B = SC.size();
    C.explore("scripts", B * B * B, [&](u64 k, mc::Worker &W) {
        mc::Digits d(k); std::vector<size_t> seq; for (unsigned l = 0; l != 3; ++l) seq.push_back(d.next(B));
        std::reverse(seq.begin(), seq.end());
        std::string text = "CREATE DATABASE x; USE x; "; for (auto i : seq) text += SC[i].sql + ";\n";
        reset(); W.describe("script :: " + text); W.states(); W.evals(3); W.transitions(3);
        Model M; bool ok = true; SC[0].step(M); SC[3].step(M);
        for (auto i : seq) { Model X = M; if (SC[i].step(X)) M = X; else ok = false; }
        std::ostringstream out, err; Diagnostic diag(false, out, err); std::istringstream in(text);
        { sqlkit::CaptureCout cap; process_stream(in, "script", diag); }
        if (err.str().find("error") != std::string::npos == ok) return W.fail("script diagnostics", text + ":: " + (ok ? "fails with " + err.str() : "no diagnostic"));
        if (auto e = compare(M); not e.empty()) return W.fail("script: " + fingerprint(e), text + ":: " + e);
        if (auto e = query(M); not e.empty()) return W.fail("script: " + fingerprint(e), text + ":: " + e);
    });
    return C.finish();
}
