/* Cardinality estimation: the injection estimator with every partial model, malformed documents, and the Cartesian product. */
#include "common/mc.hpp"
#include "common/sqlkit.hpp"
#include <mutable/catalog/CardinalityEstimator.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/IR/QueryGraph.hpp>

using namespace m;
using u64 = uint64_t;

namespace {
/* Names whose lexicographic order differs from their order in the query; some are prefixes of others. */
const std::vector<std::vector<std::string>> NAMES = { { "a", "b", "c", "d" }, { "t", "s2", "s", "B" }, { "zz", "z", "zzz", "Z" } };
const u64 ROWS[] = { 3, 5, 0, 2 };

struct World
{
    sqlkit::Engine E; Catalog &C = Catalog::Get();
    std::unique_ptr<ast::Stmt> stmt; std::unique_ptr<QueryGraph> G;
    std::vector<std::string> names; std::vector<u64> rows;
    void build(const std::vector<std::string> &n, const std::vector<u64> &r) {
        G.reset(); stmt.reset(); names = n; rows = r;
        E.use_fresh_db();
        std::string from;
        auto &DB = C.get_database_in_use();
        for (unsigned i = 0; i != n.size(); ++i) {
            auto &T = DB.add_table(C.pool(n[i].c_str())); T.push_back(C.pool("x"), Type::Get_Integer(Type::TY_Vector, 4)); T.store(C.create_store(T)); T.layout(C.data_layout());
            for (u64 k = 0; k != r[i]; ++k) T.store().append();
            from += (i ? ", " : "") + n[i];
        }
        E.diag.clear();
        stmt = statement_from_string(E.diag, "SELECT " + n[0] + ".x FROM " + from + ";");
        G = QueryGraph::Build(*stmt);
        C.timer().clear();
    }
};
World & world() { static World w; return w; }

std::string document(const World &w, const std::map<u64, u64> &model, const std::string &db, bool reversed) {
    std::string s = "{\"" + db + "\": [";
    bool first = true;
    auto entry = [&](u64 set, u64 size) {
        s += std::string(first ? "" : ", ") + "{\"relations\": ["; first = false;
        bool f = true;
        for (unsigned k = 0; k != w.names.size(); ++k) { unsigned i = reversed ? w.names.size() - 1 - k : k; if (set >> i & 1) { s += std::string(f ? "" : ",") + "\"" + w.names[i] + "\""; f = false; } }
        s += "], \"size\": " + std::to_string(size) + "}";
    };
    if (reversed) for (auto it = model.rbegin(); it != model.rend(); ++it) entry(it->first, it->second); else for (auto [a, b] : model) entry(a, b);
    return s + "]}";
}

/** All estimates of an estimator for the query, compared with the model. */
template<typename Est>
void verify(mc::Worker &W, World &w, const Est &CE, const std::map<u64, u64> &model, const std::string &text) {
    const unsigned n = w.names.size(); const u64 full = (1ul << n) - 1;
    const auto &G = *w.G;
    auto bad = [&](const std::string &m) { W.fail(m.substr(0, m.find(" [")), m + " with " + text); };
    auto val = [&](u64 s, u64 cap) { auto it = model.find(s); return it == model.end() ? cap : std::min(it->second, cap); };
    auto scan = [&](unsigned i) { auto it = model.find(1ul << i); return it == model.end() ? w.rows[i] : it->second; };
    W.evals();
    if (CE.predict_cardinality(*CE.empty_model()) != 0) bad("empty model not empty");
    PlanTableSmallOrDense P(n); PlanTableLargeAndSparse L(n);
    for (unsigned i = 0; i != n; ++i) {
        auto s = SmallBitset::Singleton(i);
        P[s].model = CE.estimate_scan(G, s); L[s].model = CE.estimate_scan(G, s);
        if (CE.predict_cardinality(*P[s].model) != scan(i)) bad("scan of relation " + std::to_string(i) + " [" + std::to_string(CE.predict_cardinality(*P[s].model)) + " instead of " + std::to_string(scan(i)) + "]");
    }
    /* join of all, from the scans */
    for (u64 s = 1; s <= full; ++s) {
        u64 prod = 1; for (unsigned i = 0; i != n; ++i) if (s >> i & 1) prod *= scan(i);
        const u64 want = val(s, prod);
        const u64 a = CE.predict_cardinality(*CE.estimate_join_all(G, P, SmallBitset(s), cnf::CNF{})), b = CE.predict_cardinality(*CE.estimate_join_all(G, L, SmallBitset(s), cnf::CNF{}));
        if (a != want) bad("join of all relations of " + std::to_string(s) + " [" + std::to_string(a) + " instead of " + std::to_string(want) + "]");
        if (b != want) bad("join of all relations (large table) of " + std::to_string(s) + " [" + std::to_string(b) + " instead of " + std::to_string(want) + "]");
    }
    /* joins pairwise: one plan per set, every split of it */
    std::map<u64, std::vector<std::pair<std::unique_ptr<DataModel>, u64>>> M; // every distinct way is represented by its cardinality
    for (u64 s = 1; s <= full; ++s) {
        if (not (s & (s - 1))) { unsigned i = __builtin_ctzll(s); M[s].emplace_back(CE.estimate_scan(G, SmallBitset(s)), scan(i)); continue; }
        for (u64 l = (s - 1) & s; l; l = (l - 1) & s) for (auto &[ml, cl] : M[l]) for (auto &[mr, cr] : M[s & ~l]) {
            auto m = CE.estimate_join(G, *ml, *mr, cnf::CNF{});
            const u64 want = val(s, cl * cr), got = CE.predict_cardinality(*m);
            W.states();
            if (got != want) { bad("join of " + std::to_string(l) + " and " + std::to_string(s & ~l) + " [" + std::to_string(got) + " instead of " + std::to_string(want) + ", inputs " + std::to_string(cl) + " and " + std::to_string(cr) + "]"); return; }
            bool known = false; for (auto &x : M[s]) known |= x.second == want;
            if (not known) M[s].emplace_back(std::move(m), want);
        }
    }
    /* filter, limit, grouping on some of them, and joins of their results */
    for (u64 s = 1; s <= full; ++s) {
        auto &[m, c] = M[s].front();
        if (CE.predict_cardinality(*CE.estimate_filter(G, *m, cnf::CNF{})) > c) bad("a filter increases the estimate");
        for (u64 lim : { u64(0), u64(1), c - (c > 0), c, c + 1, ~u64(0) }) for (u64 off : { u64(0), u64(1), c, c + 1, ~u64(0) }) {
            auto x = CE.estimate_limit(G, *m, lim, off); const u64 rest = off > c ? 0 : c - off;
            if (CE.predict_cardinality(*x) != std::min(lim, rest)) bad("limit " + std::to_string(lim) + " offset " + std::to_string(off) + " of " + std::to_string(c) + " [" + std::to_string(CE.predict_cardinality(*x)) + "]");
            if (s != full and lim == 1) { // the limited input joined with another relation
                unsigned j = __builtin_ctzll(~s);
                const u64 want = val(s | 1ul << j, std::min(lim, rest) * scan(j)), got = CE.predict_cardinality(*CE.estimate_join(G, *x, *P[SmallBitset::Singleton(j)].model, cnf::CNF{}));
                if (got != want) bad("join with a limited input of " + std::to_string(s) + " [" + std::to_string(got) + " instead of " + std::to_string(want) + "]");
            }
        }
        auto f = CE.estimate_filter(G, *m, cnf::CNF{});
        if (s != full) {
            unsigned j = __builtin_ctzll(~s);
            const u64 want = val(s | 1ul << j, c * scan(j)), got = CE.predict_cardinality(*CE.estimate_join(G, *P[SmallBitset::Singleton(j)].model, *f, cnf::CNF{}));
            if (got != want) bad("join with a filtered input of " + std::to_string(s) + " [" + std::to_string(got) + "]");
        }
        f->assign_to(SmallBitset(s));
        if (CE.predict_cardinality(*f) > c) bad("assigning a model changes its estimate");
    }
    std::string o; for (auto &[s, v] : M) for (auto &x : v) o += std::to_string(x.second) + ",";
    W.outcome(o);
}
}

int main(int argc, char **argv)
{
    mc::Check C("C26", "model_checking", argc, argv);
    C.rule = "all partial models of up to four relations for two values per set, with all ways of joining; all malformed documents of the list in all positions; a case is non-trivial by the vector of its estimates";
    C.assumptions = { "products of cardinalities stay below 2^64", "learned (sum-product network) estimators are not covered" };
    const bool T = C.thorough;
    const u64 VALUES[] = { 0, 4, 0, 1000000, 1 }; // the first is not used
    /* partial models: each of the 15 sets has no entry, a small or a huge one */
    auto partial = [&](const char *name, unsigned n, unsigned values) {
        u64 sets = (1ul << n) - 1, per = values + 1, total = 1; for (u64 i = 0; i != sets; ++i) total *= per;
        const u64 parts = std::min<u64>(total, 512);
        C.explore(name, NAMES.size() * parts, [=](uint64_t i, mc::Worker &W) {
            mc::Digits d(i); auto &nm = NAMES[d.next(NAMES.size())]; const u64 part = d.next(parts);
            auto &w = world(); w.build({ nm.begin(), nm.begin() + n }, { ROWS, ROWS + n });
            for (u64 k = part; k < total; k += parts) {
                std::map<u64, u64> model; u64 v = k;
                for (u64 s = 1; s <= sets; ++s) { u64 x = v % per; v /= per; if (x) model[s] = values == 1 ? (s * 7) % 11 + (s == 3 ? 1000 : 0) : VALUES[x]; }
                const auto text = document(w, model, "mine", k % 2);
                W.describe("estimation :: " + text); W.tick();
                std::istringstream in(text); std::ostringstream o, e; Diagnostic diag(false, o, e);
                InjectionCardinalityEstimator CE(diag, w.C.pool("mine"), in);
                if (not e.str().empty()) W.fail("diagnostic for a proper model", text + ": " + e.str());
                verify(W, w, CE, model, text);
                if (k % 5003 == 17) W.sample(text);
            }
        }, 1);
    };
    partial("partial models of two relations", 2, 4);
    partial("partial models of three relations", 3, T ? 4 : 3);
    partial("partial models of four relations", 4, 1);
    if (T) partial("partial models of four relations, two values", 4, 2);
    C.explore("Cartesian product", 4 * 4 * 4 * 4, [](uint64_t i, mc::Worker &W) {
        static const u64 R[] = { 0, 1, 3, 64 };
        mc::Digits d(i); std::vector<u64> rows; for (int k = 0; k != 4; ++k) rows.push_back(R[d.next(4)]);
        auto &w = world(); w.build(NAMES[1], rows);
        CartesianProductEstimator CE;
        verify(W, w, CE, {}, "Cartesian product of " + std::to_string(rows[0]) + "," + std::to_string(rows[1]) + "," + std::to_string(rows[2]) + "," + std::to_string(rows[3]));
    });
    /* grouping by keys */
    C.explore("grouping", 5 * 4 * 3, [](uint64_t i, mc::Worker &W) {
        mc::Digits d(i); const u64 entry = d.next(5), rows = d.next(4), kind = d.next(3);
        static const u64 ROW[] = { 0, 1, 3, 9 }, ENTRY[] = { 0, 1, 4, 100, ~0ul }; // the last: no entry
        auto &w = world(); w.build({ "t" }, { ROW[rows] });
        auto stmt = statement_from_string(w.E.diag, kind == 1 ? "SELECT k FROM t GROUP BY x AS k;" : "SELECT x FROM t GROUP BY x;");
        auto G = QueryGraph::Build(*stmt); w.C.timer().clear();
        const std::string key = kind == 1 ? "g#k" : "g#t.x";
        std::map<u64, u64> model; const u64 c = ROW[rows];
        std::ostringstream id; id << "g#"; if (kind == 1) id << "k"; else id << G->group_by().front().first.get();
        std::string text = ENTRY[entry] == ~0ul ? "{\"mine\": []}" : "{\"mine\": [{\"relations\": [\"" + id.str() + "\"], \"size\": " + std::to_string(ENTRY[entry]) + "}]}";
        W.describe("grouping :: " + text); W.evals(); W.states();
        std::istringstream in(text); std::ostringstream o, e; Diagnostic diag(false, o, e);
        InjectionCardinalityEstimator CE(diag, w.C.pool("mine"), in);
        auto scan = CE.estimate_scan(*G, SmallBitset(1));
        auto g = kind == 2 ? CE.estimate_grouping(*G, *scan, {}) : CE.estimate_grouping(*G, *scan, G->group_by());
        const u64 got = CE.predict_cardinality(*g), want = kind == 2 ? 1 : std::min(c, ENTRY[entry]);
        if (got != want) W.fail("grouping estimate", text + " over " + std::to_string(c) + " rows: " + std::to_string(got) + " instead of " + std::to_string(want));
        CartesianProductEstimator CP; auto s2 = CP.estimate_scan(*G, SmallBitset(1));
        if (CP.predict_cardinality(*CP.estimate_grouping(*G, *s2, G->group_by())) > c) W.fail("Cartesian grouping estimate", "increases the estimate");
        W.outcome(text + std::to_string(c));
    });
    /* malformed documents: the proper entries still count, every malformed one is reported */
    static const std::vector<std::string> BAD = {
        "1", "\"x\"", "null", "[]", "[1]", "{}", "true", "1.5",
        "{\"relations\": [\"a\"]}", "{\"size\": 3}", "{\"relations\": 5, \"size\": 3}", "{\"relations\": \"a\", \"size\": 3}", "{\"relations\": null, \"size\": 3}",
        "{\"relations\": {\"a\": 1}, \"size\": 3}", "{\"relations\": [1], \"size\": 3}", "{\"relations\": [\"a\", 1], \"size\": 3}", "{\"relations\": [[\"a\"]], \"size\": 3}", "{\"relations\": [null], \"size\": 3}",
        "{\"relations\": [\"a\"], \"size\": \"3\"}", "{\"relations\": [\"a\"], \"size\": null}", "{\"relations\": [\"a\"], \"size\": [3]}", "{\"relations\": [\"a\"], \"size\": {}}", "{\"relations\": [\"a\"], \"size\": -1}", "{\"relations\": [\"a\"], \"size\": true}",
        "{\"relations\": [\"a\", \"b\"], \"size\": 77}", // the same set again
        "{\"relations\": [\"b\", \"a\"], \"size\": 78}" };
    static const std::vector<std::string> DOC = { "", " ", "{", "[", "]", "}", "{}", "[]", "1", "\"x\"", "null", "true", "{\"mine\"", "{\"mine\":", "{\"mine\": [", "{\"mine\": [1", "{\"mine\": [}", "{\"other\": []}", "{\"mine\": 1}", "{\"mine\": \"x\"}", "{\"mine\": null}", "{\"mine\": {}}", "{\"mine\": {\"a\": 1}}", "{\"mine\": true}", "\xff", "{\"mine\": [{\"relations\": [\"a\"], \"size\": 3}]", "{\"mine\": [{\"relations\": [\"a\"], \"size\": 03}]}", "[{\"mine\": []}]", "{\"Mine\": []}", "{mine: []}" };
    C.explore("malformed documents", DOC.size() * 1, [](uint64_t i, mc::Worker &W) {
        auto &w = world(); w.build({ "a", "b", "c" }, { 3, 5, 2 });
        W.describe("malformed document :: " + DOC[i]); W.evals(); W.states();
        std::istringstream in(DOC[i]); std::ostringstream o, e; Diagnostic diag(false, o, e);
        try {
            InjectionCardinalityEstimator CE(diag, w.C.pool("mine"), in);
            if (e.str().empty() and DOC[i] != "{\"mine\": {}}" and DOC[i] != "{\"mine\": null}") W.fail("malformed document not reported", DOC[i]);
            verify(W, w, CE, {}, DOC[i]);
        } catch (std::exception &x) { W.fail("exception for a malformed document", DOC[i] + ": " + x.what()); }
        W.outcome(DOC[i]);
    });
    C.explore("malformed entries", BAD.size() * BAD.size() * 4, [](uint64_t i, mc::Worker &W) {
        mc::Digits d(i); auto &x = BAD[d.next(BAD.size())]; auto &y = BAD[d.next(BAD.size())]; const auto pos = d.next(4);
        auto &w = world(); w.build({ "a", "b", "c" }, { 3, 5, 2 });
        const std::string good = "{\"relations\": [\"a\", \"b\"], \"size\": 7}", good2 = "{\"relations\": [\"c\"], \"size\": 9}";
        std::vector<std::string> v = { good, good2 };
        /* the proper entry for a set comes before another one for the same set, so that it counts */
        if (pos == 0) v = { good, x, y, good2 }; else if (pos == 1) v = { good, x, good2, y }; else if (pos == 2) v = { good, good2, x, y }; else v = { good2, good, y, x };
        std::string text = "{\"mine\": ["; for (auto &s : v) text += (&s == &v[0] ? "" : ", ") + s; text += "]}";
        W.describe("malformed entry :: " + text); W.evals(); W.states();
        std::istringstream in(text); std::ostringstream o, e; Diagnostic diag(false, o, e);
        try {
            InjectionCardinalityEstimator CE(diag, w.C.pool("mine"), in);
            if (e.str().empty()) W.fail("malformed entry not reported", text);
            verify(W, w, CE, { { 3, 7 }, { 4, 9 } }, text);
        } catch (std::exception &ex) { W.fail("exception for a malformed entry " + x, text + ": " + ex.what()); }
        W.outcome(text);
    });
    return C.finish();
}
