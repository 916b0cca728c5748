/* C27 -- heuristic search.  (1) join ordering: every configuration of the heuristic search on every connected join graph
 * with every assignment of the stated cardinalities, against brute force; (2) the generic search on every small weighted
 * graph with every heuristic of the stated values, for every kind of search, against shortest paths. */
#include "common/joinkit.hpp"
#include <mutable/IR/HeuristicSearchPlanEnumerator.hpp>
#include <mutable/util/HeuristicSearch.hpp>
#include <mutable/util/ArgParser.hpp>
#include <mutable/Options.hpp>

namespace {
constexpr double INF = std::numeric_limits<double>::infinity();
/*----- (1) join ordering ----------------------------------------------------------------------------------------------*/
struct Conf { bool up; const char *heuristic, *search; };
/** All configurations offered by the enumerator. */
const std::vector<Conf> CONFS = [] {
    std::vector<Conf> v;
    auto add = [&](bool up, const char *h, std::initializer_list<const char*> ss) { for (auto s : ss) v.push_back({ up, h, s }); };
    add(true, "zero", { "AStar", "AStar_with_cbp", "beam_search", "beam_search_with_cbp", "dynamic_beam_search", "anytimeAStar", "weighted_anytimeAStar", "anytimeAStar_with_cbp", "weighted_anytimeAStar_with_cbp" });
    add(true, "sum", { "AStar", "AStar_with_cbp", "weighted_AStar", "lazyAStar", "beam_search", "dynamic_beam_search", "anytimeAStar", "weighted_anytimeAStar", "anytimeAStar_with_cbp", "weighted_anytimeAStar_with_cbp" });
    add(true, "scaled_sum", { "AStar", "beam_search", "dynamic_beam_search" });
    add(true, "avg_sel", { "AStar", "beam_search" });
    add(true, "product", { "AStar" });
    add(true, "GOO", { "AStar", "AStar_with_cbp", "weighted_AStar", "beam_search", "dynamic_beam_search", "anytimeAStar", "weighted_anytimeAStar", "anytimeAStar_with_cbp", "weighted_anytimeAStar_with_cbp" });
    add(false, "zero", { "AStar", "AStar_with_cbp", "beam_search", "dynamic_beam_search", "anytimeAStar", "weighted_anytimeAStar", "anytimeAStar_with_cbp", "weighted_anytimeAStar_with_cbp" });
    add(false, "sqrt_sum", { "AStar" });
    add(false, "sum", { "AStar", "AStar_with_cbp", "weighted_AStar", "beam_search", "dynamic_beam_search", "anytimeAStar", "weighted_anytimeAStar", "anytimeAStar_with_cbp", "weighted_anytimeAStar_with_cbp" });
    add(false, "GOO", { "AStar", "AStar_with_cbp", "weighted_AStar", "beam_search", "dynamic_beam_search", "anytimeAStar", "weighted_anytimeAStar", "anytimeAStar_with_cbp", "weighted_anytimeAStar_with_cbp" });
    return v;
}();
void option(Engine &E, const char *name, const char *value = nullptr) { const char *argv[] = { "c27", name, value, nullptr }; E.C.arg_parser()(value ? 3 : 2, argv); }

/** The costs of the plans GOO may produce: the greatest one. */
double worst_goo(const Graph &g, std::vector<u64> parts, const Ref &R) {
    if (parts.size() == 1) return 0;
    u64 least = ~0ul; double worst = 0;
    for (auto a : parts) for (auto b : parts) if (a < b and (nb(g, a) & b)) least = std::min(least, CARD[a | b]);
    for (auto a : parts) for (auto b : parts) if (a < b and (nb(g, a) & b) and CARD[a | b] == least) { auto p = parts; std::erase(p, a); std::erase(p, b); p.push_back(a | b); worst = std::max(worst, double(CARD[a | b]) + worst_goo(g, p, R)); }
    return worst;
}

template<typename PT>
void run(mc::Worker &W, Engine &E, const Conf &c, const char *wf, const char *budget, bool bounded, const Ref &R, double goo) {
    auto &CE = E.C.get_database_in_use().cardinality_estimator();
    const u64 full = (1ul << E.g.n) - 1;
    const std::string name = std::string(c.up ? "bottom-up " : "top-down ") + c.heuristic + " " + c.search + (wf ? std::string(" weight ") + wf : "") + (budget ? std::string(" budget ") + budget : "") + (bounded ? " bounded" : "");
    auto bad = [&](const std::string &m) { W.fail(name + " " + E.g.text, m + " [" + name + ", graph " + E.g.text + ", cardinalities of the sets 1.. are " + cards(E.g.n) + "]"); };
    option(E, "--hs-expand", c.up ? "BottomUpComplete" : "TopDownComplete"); option(E, "--hs-heuristic", c.heuristic); option(E, "--hs-search", c.search);
    option(E, "--hs-wf", wf ? wf : "1"); option(E, "--hs-budget", budget ? budget : "18446744073709551615");
    static const CostFunctionCout cout; const CostFunction &CF = cout;
    PT P(*E.G); init(P, *E.G, CE);
    E.C.plan_enumerator(E.C.pool("HeuristicSearch"))(*E.G, CF, P);
    W.evals();
    Plan plan; const auto e = extract(P, R, full, false, plan);
    if (not e.empty()) return bad(e);
    if (plan.joins.size() != E.g.n - 1) return bad("the plan has " + std::to_string(plan.joins.size()) + " joins");
    if (&P.get_final() != &P[SmallBitset(full)]) return bad("the final entry of the plan table is not the plan of all relations");
    const double cost = P[SmallBitset(full)].cost, best = R.best[full];
    if (cost < best) return bad("cost " + std::to_string(cost) + " is below the minimum " + std::to_string(best));
    const std::string_view h = c.heuristic, s = c.search;
    const bool admissible = h == "zero" or (h == "sum" and not c.up), complete = s.find("beam") == s.npos and s.find("lazy") == s.npos;
    if (admissible and complete and not budget) {
        const double w = h == "zero" or not wf ? 1 : std::max(1., atof(wf)), last = CARD[full]; // the last join is not part of the search
        if (cost - last > w * (best - last)) return bad("cost " + std::to_string(cost) + " instead of " + std::to_string(best));
    }
    if (bounded and not budget and cost > goo) return bad("cost " + std::to_string(cost) + " exceeds the initial upper bound " + std::to_string(goo));
    if (mc::hash_str(cards(E.g.n)) % 64 == 0) W.outcome(E.g.text + name + std::to_string(cost));
}
void check(mc::Worker &W, Engine &E, bool bounded) {
    W.states();
    Ref R(E.g, false, false);
    std::vector<u64> parts; for (unsigned i = 0; i != E.g.n; ++i) parts.push_back(1ul << i);
    const double goo = worst_goo(E.g, parts, R);
    if (bounded) { static bool once = [&] { option(E, "--hs-init-upper-bound"); return true; }(); (void) once; }
    u64 k = W.index();
    for (auto &c : CONFS) {
        const std::string_view s = c.search; const bool weighted = s.find("weighted") != s.npos, any = s.find("anytime") != s.npos, cbp = s.find("cbp") != s.npos;
        if (bounded and not cbp) continue;
        ++k;
        std::vector<const char*> ws{ nullptr }; if (weighted) ws = { "2", "0.5", "20" };
        std::vector<const char*> bs{ nullptr }; if (any) for (auto b : { "0", "1", "2", "3", "5", "8", "13" }) if (unsigned(atoi(b)) <= 2 * E.g.n) bs.push_back(b);
        for (auto w : ws) for (auto b : bs) {
            if (k & 1) run<PlanTableSmallOrDense>(W, E, c, w, b, bounded, R, goo); else run<PlanTableLargeAndSparse>(W, E, c, w, b, bounded, R, goo);
        }
    }
    E.C.timer().clear();
    if (W.index() % 97 == 5 and mc::hash_str(cards(E.g.n)) % 997 == 1) W.sample("graph " + E.g.text + " cardinalities " + cards(E.g.n) + " minimum " + std::to_string(R.best[(1ul << E.g.n) - 1]));
}

/*----- (2) generic search ---------------------------------------------------------------------------------------------*/
constexpr unsigned MAXN = 5;
struct WG { unsigned n; int w[MAXN][MAXN]; double h[MAXN]; u64 id; double d[MAXN], longest; ///< d: distance to the goal n-1
    std::string text() const { std::string s; for (unsigned i = 0; i != n; ++i) for (unsigned j = 0; j != n; ++j) if (w[i][j] >= 0) s += std::to_string(i) + "-(" + std::to_string(w[i][j]) + ")>" + std::to_string(j) + " "; s += "h:"; for (unsigned i = 0; i != n; ++i) s += " " + std::to_string(h[i]); return s; }
    void distances() { for (unsigned i = 0; i != n; ++i) d[i] = i + 1 == n ? 0 : INF; for (unsigned k = 0; k != n; ++k) for (unsigned i = 0; i != n; ++i) for (unsigned j = 0; j != n; ++j) if (w[i][j] >= 0) d[i] = std::min(d[i], w[i][j] + d[j]); }
};
struct Node
{
    struct base { }; using base_type = base;
    mutable const Node *parent_ = nullptr; mutable double g_ = 0; unsigned v = 0;
    Node() = default;
    Node(unsigned v, double g, const Node *p) : parent_(p), g_(g), v(v) { }
    Node(Node&&) = default; Node & operator=(Node&&) = default; Node(const Node&) = delete;
    const Node * parent() const { return parent_; }
    double g() const { return g_; }
    void decrease_g(const Node *p, double g) const { if (g > g_) { raised = true; } parent_ = p; g_ = g; }
    bool operator==(const Node &o) const { return v == o.v; }
    static inline bool raised = false;
};
}
template<> struct std::hash<Node> { uint64_t operator()(const Node &n) const { return n.v * 7; } };
namespace {
struct Expand
{
    static bool is_goal(const Node &n, const WG &g) { return n.v + 1 == g.n; }
    template<typename F> void operator()(const Node &n, F &&f, const WG &g) const { for (unsigned j = 0; j != g.n; ++j) if (g.w[n.v][j] >= 0) f(Node(j, n.g() + g.w[n.v][j], &n)); }
    void reset_marked(Node&, const WG&) { }
};
template<bool A> struct Heur { using state_type = Node; static constexpr bool is_admissible = A; double operator()(const Node &n, const WG &g) const { return g.h[n.v]; } };
namespace cfg = m::pe::hs::config;
template<bool mono, bool weighted, bool lazy, bool cbp, long bn, long bd, bool any>
using SC = cfg::combine<cfg::monotone<mono>, cfg::Fibonacci_heap, cfg::weighted_search<weighted>, cfg::lazy<lazy>, cfg::cost_based_pruning<cbp>, cfg::beam<bn, bd>, cfg::anytime_search<any>>;

struct Want { bool optimal; double factor; bool may_miss; };
template<typename Config, bool A>
void search(mc::Worker &W, const WG &g, const char *name, double weight, double bound, u64 budget, Want want) {
    auto bad = [&](const std::string &m) { W.fail(std::string(name) + (A ? " admissible" : "") + ": " + m.substr(0, 40), m + " [" + name + ", weight " + std::to_string(weight) + ", bound " + std::to_string(bound) + ", budget " + std::to_string(budget) + ", graph " + g.text() + "]"); };
    using S = m::ai::genericAStar<Node, Expand, Heur<A>, Config, const WG&>;
    m::ai::SearchConfiguration<Config> config;
    if constexpr (Config::PerformWeightedSearch) config.weighting_factor = float(weight);
    if constexpr (Config::PerformCostBasedPruning) config.upper_bound = bound == INF ? std::numeric_limits<double>::quiet_NaN() : bound;
    if constexpr (Config::PerformAnytimeSearch) config.expansion_budget = budget;
    Heur<A> h; const WG &ctx = g; W.evals(); Node::raised = false;
    const double best = g.d[0];
    S s(ctx);
    try {
        const Node &goal = s.search(Node(0, 0, nullptr), Expand{}, h, config, ctx);
        if (goal.v + 1 != g.n) return bad("the result is no goal");
        /* the path must exist and have the cost reported */
        double c = 0; unsigned len = 0;
        for (const Node *n = &goal; n->parent(); n = n->parent()) { if (g.w[n->parent()->v][n->v] < 0 or ++len > g.n) return bad("the result is no path"); c += g.w[n->parent()->v][n->v]; if (not n->parent()->parent() and n->parent()->v != 0) return bad("the path does not begin at the start"); }
        if (not len and g.n > 1) return bad("the path is empty");
        if (c > goal.g()) return bad("the path costs " + std::to_string(c) + ", reported are " + std::to_string(goal.g()));
        if (goal.g() < best) return bad("reported cost " + std::to_string(goal.g()) + " is less than the shortest path " + std::to_string(best));
        if (want.optimal and goal.g() > want.factor * best) return bad("cost " + std::to_string(goal.g()) + " although the shortest path costs " + std::to_string(best));
        if (goal.g() > bound) return bad("cost " + std::to_string(goal.g()) + " exceeds the bound");
    } catch (m::ai::budget_exhausted_exception&) {
        if (budget == UINT64_MAX) return bad("the budget is unlimited");
        if (not Config::PerformAnytimeSearch) return bad("there is no budget");
    } catch (std::logic_error&) {
        if (best <= bound and best < INF and not want.may_miss) return bad("no path found although the shortest path costs " + std::to_string(best));
    }
    if (Node::raised) return bad("the cost of a state was raised");
}
template<bool A>
void searches(mc::Worker &W, const WG &g, double maxratio) {
    const double none = std::numeric_limits<double>::quiet_NaN(); const u64 M = UINT64_MAX;
    auto B = [&](double b) { return std::isnan(b) ? INF : b; }; (void) B;
    const double b = g.d[0];
    search<SC<false, false, false, false, 0, 1, false>, A>(W, g, "A*", 1, INF, M, { A, 1, false });
    search<SC<false, false, false, true, 0, 1, false>, A>(W, g, "A* with pruning", 1, INF, M, { A, 1, false });
    if (b < INF) for (double x : { b, b + 1 }) search<SC<false, false, false, true, 0, 1, false>, A>(W, g, "A* with pruning and bound", 1, x, M, { A, 1, false });
    for (double w : { 2., .5 }) {
        search<SC<false, true, false, false, 0, 1, false>, A>(W, g, "weighted A*", w, INF, M, { A, std::max(1., w), false });
        search<SC<false, true, false, true, 0, 1, false>, A>(W, g, "weighted A* with pruning", w, INF, M, { A, std::max(1., w), false });
    }
    search<SC<false, false, true, false, 0, 1, false>, A>(W, g, "lazy A*", 1, INF, M, { false, 1, false });
    search<SC<false, false, false, false, 2, 1, false>, A>(W, g, "beam search", 1, INF, M, { false, 1, false });
    search<SC<false, false, false, false, 1, 5, false>, A>(W, g, "dynamic beam search", 1, INF, M, { false, 1, false });
    search<SC<false, false, false, true, 2, 1, false>, A>(W, g, "beam search with pruning", 1, INF, M, { false, 1, false });
    for (u64 n : { u64(0), u64(1), u64(2), u64(3), M }) search<SC<false, false, false, false, 0, 1, true>, A>(W, g, "anytime A*", 1, INF, n, { A, 1, false });
    (void) none; (void) maxratio;
}
}

int main(int argc, char **argv)
{
    mc::Check C("C27", "model_checking", argc, argv);
    C.rule = "all connected labelled join graphs with all assignments of the stated cardinalities, for each of the 60 configurations of the heuristic search with several weights, budgets and with an initial upper bound; all directed graphs with the stated weights and heuristic values for each kind of search";
    C.assumptions = { "optimality is required for C_out, admissible heuristics (zero; top-down sum) and searches without beam; for weight w, at most w times the minimum" };
    const bool T = C.thorough;
    auto free_cards = [&](const std::string &name, unsigned n, std::vector<u64> values, u64 parts, bool bounded) {
        const auto G = connected_graphs(n);
        C.explore(name, G.size() * parts, [=](uint64_t i, mc::Worker &W) {
            auto &E = engine(); mc::Digits d(i); const u64 part = d.next(parts);
            E.build(G[d.next(G.size())]);
            std::vector<u64> sets; for (u64 s = 1; s < (1ul << n) - 1; ++s) if ((s & (s - 1)) and conn(E.g, s)) sets.push_back(s);
            u64 total = 1; for (std::size_t k = 0; k != sets.size(); ++k) total *= values.size();
            for (u64 k = part; k < total; k += parts) {
                for (u64 s = 1; s < 1ul << n; ++s) CARD[s] = 10 + s % 3;
                u64 v = k; for (auto s : sets) { CARD[s] = values[v % values.size()]; v /= values.size(); }
                W.describe("heuristic search :: graph " + E.g.text + " cardinalities " + cards(n));
                check(W, E, bounded); W.tick();
            }
        }, 1);
    };
    auto selective = [&](const std::string &name, unsigned n, std::vector<u64> sz, u64 stride, bool bounded) {
        const auto G = connected_graphs(n);
        C.explore(name, G.size(), [=](uint64_t i, mc::Worker &W) {
            auto &E = engine(); E.build(G[i]);
            std::vector<std::pair<int, int>> edges;
            for (unsigned a = 0; a != n; ++a) for (unsigned b = a + 1; b != n; ++b) if (E.g.adj[a] >> b & 1) edges.emplace_back(a, b);
            for (u64 k = i % stride; k < 1ul << edges.size(); k += stride) {
                for (u64 s = 1; s < 1ul << n; ++s) {
                    double c = 1;
                    for (unsigned a = 0; a != n; ++a) if (s >> a & 1) c *= sz[a];
                    for (unsigned e = 0; e != edges.size(); ++e) if ((s >> edges[e].first & 1) and (s >> edges[e].second & 1)) c *= k >> e & 1 ? 0.01 : 0.5;
                    CARD[s] = std::max<u64>(1, u64(c));
                }
                W.describe("heuristic search :: graph " + E.g.text + " cardinalities " + cards(n));
                check(W, E, bounded); W.tick();
            }
        }, 1);
    };
    for (bool bounded : { false, true }) {
        const std::string x = bounded ? ", bounded" : "";
        free_cards("two relations" + x, 2, { 1, 7 }, 1, bounded);
        free_cards("three relations" + x, 3, { 0, 1, 7, 1000000 }, 4, bounded);
        free_cards("four relations" + x, 4, T ? std::vector<u64>{ 1, 10, 40 } : std::vector<u64>{ 3, 20 }, T ? 64 : 8, bounded);
        selective("five relations" + x, 5, { 50, 7, 90, 20, 100 }, T ? 4 : 32, bounded);
        if (T) selective("six relations" + x, 6, { 10, 200, 30, 4, 50, 7 }, 4001, bounded);
    }
    /* all directed graphs of n nodes: no edges into the start or out of the goal, except for those back to the start */
    auto graphs = [&](const std::string &name, unsigned n, std::vector<int> ws, std::vector<double> hs, bool back, bool adm) {
        std::vector<std::pair<unsigned, unsigned>> edges;
        for (unsigned i = 0; i + 1 < n; ++i) for (unsigned j = 0; j != n; ++j) if (i != j and (back or j > i)) edges.emplace_back(i, j);
        u64 total = 1; for (std::size_t i = 0; i != edges.size(); ++i) total *= ws.size();
        u64 nh = 1; for (unsigned i = 1; i + 1 < n; ++i) nh *= hs.size();
        const u64 chunk = 64;
        C.explore(name, (total + chunk - 1) / chunk, [=](u64 i, mc::Worker &W) {
            for (u64 k = i * chunk; k < std::min(total, (i + 1) * chunk); ++k) {
                WG g; g.n = n; for (auto &r : g.w) for (auto &x : r) x = -1;
                mc::Digits d(k); for (auto [a, b] : edges) g.w[a][b] = ws[d.next(ws.size())];
                g.distances();
                for (u64 z = 0; z != nh; ++z) {
                    mc::Digits e(z); g.h[0] = 0; g.h[n - 1] = 0; bool dup = false;
                    for (unsigned v = 1; v + 1 < n; ++v) {
                        const double f = hs[e.next(hs.size())];
                        if (adm) { const double b = g.d[v] == INF ? 9 : g.d[v]; g.h[v] = std::floor(f * b * 4) / 4; if (f != 0 and b == 0) dup = true; } else g.h[v] = f;
                    }
                    if (dup) continue;
                    g.id = k; W.states();
                    W.describe("generic search :: " + g.text());
                    if (adm) searches<true>(W, g, 1); else searches<false>(W, g, 1);
                }
            }
            W.outcome(std::to_string(i) + name); W.tick();
        }, 1);
    };
    graphs("generic: three nodes", 3, { -1, 0, 1, 2, 5 }, { 0, .5, 1 }, true, true);
    graphs("generic: four nodes", 4, T ? std::vector<int>{ -1, 1, 2, 5 } : std::vector<int>{ -1, 1, 5 }, { 0, .5, 1 }, true, true);
    graphs("generic: five nodes, acyclic", 5, T ? std::vector<int>{ -1, 1, 2, 6 } : std::vector<int>{ -1, 1, 6 }, { 0, 1 }, false, true);
    graphs("generic: four nodes, any heuristic", 4, { -1, 1, 5 }, { 0, 3, 20 }, true, false);
    return C.finish();
}
