/* joinkit.hpp -- join graphs, supplied cardinalities, brute-force optimum and validation of plans (C14, C27). */
#pragma once
#include "common/mc.hpp"
#include "common/sqlkit.hpp"
#include <mutable/catalog/CardinalityEstimator.hpp>
#include <mutable/catalog/CostFunctionCout.hpp>
#include <mutable/IR/PlanEnumerator.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <functional>

using namespace m;
using u64 = uint64_t;

namespace {
/*----- An estimator that knows the cardinality of every set of relations. ----------------------------------------------*/
u64 CARD[256];
struct Model : DataModel { u64 s; Model(u64 s) : s(s) { } void assign_to(Subproblem S) override { s = u64(S); } };
struct Estimator : CardinalityEstimatorCRTP<Estimator>
{
    using U = std::unique_ptr<DataModel>;
    static u64 set(const DataModel &d) { return static_cast<const Model&>(d).s; }
    U empty_model() const override { return std::make_unique<Model>(0); }
    U estimate_scan(const QueryGraph&, Subproblem P) const override { return std::make_unique<Model>(u64(P)); }
    U estimate_filter(const QueryGraph&, const DataModel &d, const cnf::CNF&) const override { return std::make_unique<Model>(set(d)); }
    U estimate_limit(const QueryGraph&, const DataModel &d, std::size_t, std::size_t) const override { return std::make_unique<Model>(set(d)); }
    U estimate_grouping(const QueryGraph&, const DataModel &d, const std::vector<group_type>&) const override { return std::make_unique<Model>(set(d)); }
    U estimate_join(const QueryGraph&, const DataModel &l, const DataModel &r, const cnf::CNF&) const override { return std::make_unique<Model>(set(l) | set(r)); }
    template<typename PT> U operator()(estimate_join_all_tag, PT &&, const QueryGraph&, Subproblem S, const cnf::CNF&) const { return std::make_unique<Model>(u64(S)); }
    std::size_t predict_cardinality(const DataModel &d) const override { return CARD[set(d)]; }
    void print(std::ostream&) const override { }
};
/** A cost function that depends on which input is on which side. */
struct Asymmetric : CostFunctionCRTP<Asymmetric>
{
    template<typename PT> double operator()(calculate_filter_cost_tag, const PT &P, const QueryGraph&, const CardinalityEstimator&, Subproblem s, const cnf::CNF&) const { return P[s].cost; }
    template<typename PT> double operator()(calculate_join_cost_tag, const PT &P, const QueryGraph&, const CardinalityEstimator&, Subproblem l, Subproblem r, const cnf::CNF&) const { return 2. * CARD[u64(l)] + 5. * CARD[u64(r)] + CARD[u64(l | r)] + P[l].cost + P[r].cost; }
    template<typename PT> double operator()(calculate_grouping_cost_tag, const PT &P, const QueryGraph&, const CardinalityEstimator&, Subproblem s, const std::vector<const ast::Expr*>&) const { return P[s].cost; }
};

/*----- Graphs ----------------------------------------------------------------------------------------------------------*/
struct Graph { unsigned n; u64 adj[8] = {}; std::string text; };
Graph make(unsigned n, u64 bits) {
    Graph g; g.n = n; unsigned k = 0;
    for (unsigned i = 0; i != n; ++i) for (unsigned j = i + 1; j != n; ++j, ++k)
        if (bits >> k & 1) { g.adj[i] |= 1u << j; g.adj[j] |= 1u << i; g.text += (g.text.empty() ? "" : " ") + std::to_string(i) + "-" + std::to_string(j); }
    return g;
}
u64 nb(const Graph &g, u64 s) { u64 r = 0; for (unsigned i = 0; i != g.n; ++i) if (s >> i & 1) r |= g.adj[i]; return r & ~s; }
bool conn(const Graph &g, u64 s) { if (not s) return false; u64 r = s & -s; for (;;) { u64 t = r | (nb(g, r) & s); if (t == r) return r == s; r = t; } }
std::vector<Graph> connected_graphs(unsigned n) { std::vector<Graph> v; for (u64 b = 0; b < 1ul << (n * (n - 1) / 2); ++b) { auto g = make(n, b); if (conn(g, (1ul << n) - 1)) v.push_back(g); } return v; }

struct Engine
{
    sqlkit::Engine E; Catalog &C = Catalog::Get();
    std::unique_ptr<ast::Stmt> stmt; std::unique_ptr<QueryGraph> G; Graph g;
    Engine() {
        E.use_fresh_db();
        auto &DB = C.get_database_in_use();
        for (int i = 0; i != 7; ++i) { auto &T = DB.add_table(C.pool(("t" + std::to_string(i)).c_str())); T.push_back(C.pool("a"), Type::Get_Integer(Type::TY_Vector, 4)); T.store(C.create_store(T)); T.layout(C.data_layout()); }
        DB.cardinality_estimator(std::make_unique<Estimator>());
    }
    void build(const Graph &x) {
        g = x;
        std::string from, where;
        for (unsigned i = 0; i != g.n; ++i) from += (i ? ", t" : "t") + std::to_string(i);
        for (unsigned i = 0; i != g.n; ++i) for (unsigned j = i + 1; j != g.n; ++j) if (g.adj[i] >> j & 1) where += (where.empty() ? " WHERE t" : " AND t") + std::to_string(i) + ".a = t" + std::to_string(j) + ".a";
        G.reset();
        E.diag.clear();
        stmt = statement_from_string(E.diag, "SELECT t0.a FROM " + from + where + ";");
        G = QueryGraph::Build(*stmt);
        C.timer().clear();
    }
};
Engine & engine() { static Engine e; return e; }

/*----- Brute force -----------------------------------------------------------------------------------------------------*/
struct Ref
{
    const Graph &g; bool asym; bool cross;
    double best[256];
    bool conn_[256];
    double join(u64 l, u64 r, double cl, double cr) const { return asym ? 2. * CARD[l] + 5. * CARD[r] + CARD[l | r] + cl + cr : CARD[l | r] + cl + cr; }
    Ref(const Graph &g, bool asym, bool cross) : g(g), asym(asym), cross(cross) {
        for (u64 s = 1; s < 1ul << g.n; ++s) conn_[s] = conn(g, s);
        for (u64 s = 1; s < 1ul << g.n; ++s) {
            best[s] = (s & (s - 1)) ? std::numeric_limits<double>::infinity() : 0;
            for (u64 l = (s - 1) & s; l; l = (l - 1) & s)
                if (cross or (conn_[s] and conn_[l] and conn_[s & ~l])) best[s] = std::min(best[s], join(l, s & ~l, best[l], best[s & ~l]));
        }
    }
};

struct Plan { double cost; std::vector<std::pair<u64, u64>> joins; };

template<typename PT>
void init(PT &P, const QueryGraph &G, const CardinalityEstimator &CE) {
    for (auto &ds : G.sources()) { auto s = SmallBitset::Singleton(ds->id()); P[s].cost = 0; P[s].model = CE.estimate_scan(G, s); }
}
/** Extracts the final plan and checks that every entry of it is a proper join with the right cost. */
template<typename PT>
std::string extract(const PT &P, const Ref &R, u64 s, bool cross, Plan &out) {
    auto &e = P[SmallBitset(s)];
    if (not (s & (s - 1))) return e.cost == 0 ? "" : "the cost of a relation was changed";
    const u64 l = u64(e.left), r = u64(e.right);
    if (not l or not r) return "no plan for " + std::to_string(s);
    if ((l & r) or (l | r) != s) return "the plan of " + std::to_string(s) + " joins " + std::to_string(l) + " and " + std::to_string(r);
    if (not cross and (not R.conn_[l] or not R.conn_[r])) return "cross product in the plan of " + std::to_string(s);
    auto a = extract(P, R, l, cross, out); if (not a.empty()) return a;
    auto b = extract(P, R, r, cross, out); if (not b.empty()) return b;
    out.joins.emplace_back(l, r);
    if (e.cost != R.join(l, r, P[SmallBitset(l)].cost, P[SmallBitset(r)].cost)) return "the cost of the plan of " + std::to_string(s) + " is not the cost of its join";
    if (not e.model) return "no model for " + std::to_string(s);
    if (u64(static_cast<Model&>(*e.model).s) != s) return "the model of " + std::to_string(s) + " describes something else";
    return "";
}
std::string cards(unsigned n) { std::string s; for (u64 i = 1; i < 1ul << n; ++i) s += std::to_string(CARD[i]) + (i + 1 < 1ul << n ? "," : ""); return s; }
}
