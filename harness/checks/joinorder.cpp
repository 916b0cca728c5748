/* Join ordering: every strategy on every connected join graph with every assignment of cardinalities, against brute force. */
#include "common/joinkit.hpp"

namespace {
/** Some order of the joins of the plan is greedy. */
bool greedy(const Graph &g, std::vector<u64> parts, const std::vector<std::pair<u64, u64>> &joins) {
    if (parts.size() == 1) return true;
    u64 least = ~0ul;
    for (auto a : parts) for (auto b : parts) if (a != b and (nb(g, a) & b)) least = std::min(least, CARD[a | b]);
    for (auto [l, r] : joins) {
        if (CARD[l | r] != least or std::count(parts.begin(), parts.end(), l) == 0 or std::count(parts.begin(), parts.end(), r) == 0) continue;
        auto p = parts; std::erase(p, l); std::erase(p, r); p.push_back(l | r);
        if (greedy(g, p, joins)) return true;
    }
    return false;
}

enum Kind { EXACT, ALL, GREEDY, TDGREEDY, LINEAR, LINEARDP };
struct Strategy { const char *name; Kind kind; };
const Strategy STRATEGIES[] = { { "DPccp", EXACT }, { "DPsize", EXACT }, { "DPsizeOpt", EXACT }, { "DPsizeSub", EXACT }, { "DPsub", EXACT }, { "DPsubOpt", EXACT },
    { "TDbasic", EXACT }, { "TDMinCutAGaT", EXACT }, { "PEall", ALL }, { "GOO", GREEDY }, { "TDGOO", TDGREEDY }, { "IKKBZ", LINEAR }, { "LinearizedDP", LINEARDP } };

template<typename PT, typename CFT>
void run(mc::Worker &W, Engine &E, const Strategy &S, const CFT &CF, const char *what, const Ref &R, double &linear) {
    auto &CE = E.C.get_database_in_use().cardinality_estimator();
    const u64 full = (1ul << E.g.n) - 1;
    auto bad = [&](const std::string &m) { W.fail(std::string(S.name) + " " + what + " " + E.g.text, m + " [" + S.name + ", " + what + ", graph " + E.g.text + ", cardinalities of the sets 1.. are " + cards(E.g.n) + "]"); };
    PT P(*E.G);
    init(P, *E.G, CE);
    const CostFunction &cf = CF;
    E.C.plan_enumerator(E.C.pool(S.name))(*E.G, cf, P);
    W.evals();
    Plan plan;
    const auto e = extract(P, R, full, S.kind == ALL, plan);
    if (not e.empty()) return bad(e);
    if (plan.joins.size() != E.g.n - 1) return bad("the plan has " + std::to_string(plan.joins.size()) + " joins");
    if (P.num_sources() != E.g.n or &P.get_final() != &P[SmallBitset(full)] or not P.has_plan(SmallBitset(full)) or P.c(SmallBitset(full)) != P.get_final().cost) return bad("the final entry of the plan table is not the plan of all relations");
    const double c = P[SmallBitset(full)].cost;
    if (c < R.best[full]) return bad("cost " + std::to_string(c) + " is below the minimum " + std::to_string(R.best[full]));
    switch (S.kind) {
        case EXACT: case ALL:
            if (c != R.best[full]) return bad("cost " + std::to_string(c) + " instead of " + std::to_string(R.best[full]));
            for (u64 s = 1; s <= full; ++s) if (S.kind == ALL or R.conn_[s]) { // every subplan is optimal, too
                if (not P.has_plan(SmallBitset(s))) { if (S.kind == ALL or s == full) return bad("no plan for " + std::to_string(s)); continue; }
                Plan q; const auto x = extract(P, R, s, S.kind == ALL, q);
                if (not x.empty()) return bad(x);
                if (P[SmallBitset(s)].cost != R.best[s]) return bad("the plan of " + std::to_string(s) + " is not optimal");
            } else if (P.has_plan(SmallBitset(s))) return bad("a plan for the unconnected " + std::to_string(s));
            break;
        case GREEDY: { std::vector<u64> p; for (unsigned i = 0; i != E.g.n; ++i) p.push_back(1ul << i); if (not greedy(E.g, p, plan.joins)) return bad("the plan does not always join to the smallest intermediate result"); break; }
        case TDGREEDY:
            for (auto [l, r] : plan.joins) {
                u64 least = ~0ul; const u64 s = l | r;
                for (u64 x = (s - 1) & s; x; x = (x - 1) & s) if (R.conn_[x] and R.conn_[s & ~x]) least = std::min(least, CARD[x] + CARD[s & ~x]);
                if (CARD[l] + CARD[r] != least) return bad("the cut of " + std::to_string(s) + " does not have the smallest parts");
            }
            break;
        case LINEAR: for (auto [l, r] : plan.joins) if ((l & (l - 1)) and (r & (r - 1))) return bad("the plan is not linear"); linear = c; break;
        case LINEARDP: if (c > linear) return bad("the plan is worse than the linear plan"); break;
    }
    if (mc::hash_str(cards(E.g.n)) % 64 == 0) { std::string o = S.name; for (auto [l, r] : plan.joins) o += " " + std::to_string(l) + "x" + std::to_string(r); W.outcome(E.g.text + o); }
}
void check(mc::Worker &W, Engine &E, bool both) {
    W.states();
    static const CostFunctionCout cout; static const Asymmetric asym;
    Ref R0(E.g, false, false), X0(E.g, false, true), R1(E.g, true, false), X1(E.g, true, true);
    double l0 = 0, l1 = 0;
    for (auto &S : STRATEGIES) {
        auto &r0 = S.kind == ALL ? X0 : R0; auto &r1 = S.kind == ALL ? X1 : R1;
        run<PlanTableSmallOrDense>(W, E, S, cout, "C_out, small plan table", r0, l0);
        run<PlanTableLargeAndSparse>(W, E, S, asym, "sided cost, large plan table", r1, l1);
        if (both) { double x = l0, y = l1; run<PlanTableLargeAndSparse>(W, E, S, cout, "C_out, large plan table", r0, x); run<PlanTableSmallOrDense>(W, E, S, asym, "sided cost, small plan table", r1, y); }
    }
    if (W.index() % 97 == 5 and mc::hash_str(cards(E.g.n)) % 997 == 1) W.sample("graph " + E.g.text + " cardinalities " + cards(E.g.n) + " minimum " + std::to_string(R0.best[(1ul << E.g.n) - 1]));
}
}

int main(int argc, char **argv)
{
    mc::Check C("C14", "model_checking", argc, argv);
    C.rule = "all connected labelled graphs with all assignments of the stated cardinalities, for each strategy, both plan tables and two cost functions; a case is non-trivial by the graph, strategy and plan";
    C.assumptions = { "cardinalities are supplied by the harness; unconnected join graphs are covered by the results of queries (C02) only" };
    const bool T = C.thorough;
    /* every cardinality of every set of relations, independently */
    auto free_cards = [&](const char *name, unsigned n, std::vector<u64> values, bool singles, u64 parts) {
        const auto G = connected_graphs(n);
        std::vector<u64> sets;
        for (u64 s = 1; s < 1ul << n; ++s) if (singles or (s & (s - 1))) sets.push_back(s);
        u64 total = 1; for (std::size_t i = 0; i != sets.size(); ++i) total *= values.size();
        C.explore(name, G.size() * parts, [=](uint64_t i, mc::Worker &W) {
            auto &E = engine(); mc::Digits d(i); const u64 part = d.next(parts);
            E.build(G[d.next(G.size())]);
            W.describe("join ordering :: graph " + E.g.text);
            for (u64 k = part; k < total; k += parts) {
                for (u64 s = 1; s < 1ul << n; ++s) CARD[s] = 10 + s % 3;
                u64 v = k; for (auto s : sets) { CARD[s] = values[v % values.size()]; v /= values.size(); }
                bool skip = false; for (auto s : sets) if (n > 3 and not conn(E.g, s) and CARD[s] != values[0]) skip = true; // unconnected sets matter to PEall only
                if (skip) continue;
                if (W.index() % 16 == 0) W.describe("join ordering :: graph " + E.g.text + " cardinalities " + cards(n));
                check(W, E, n < 4);
                W.tick();
            }
        }, 1);
    };
    free_cards("two relations", 2, { 0, 1, 3, 10, 1000000 }, true, 1);
    free_cards("three relations", 3, { 0, 1, 7 }, true, 27);
    free_cards("three relations, large", 3, { 1, 10, 1000, 100000000 }, false, 16);
    free_cards("four relations", 4, T ? std::vector<u64>{ 1, 10, 40 } : std::vector<u64>{ 3, 20 }, false, T ? 81 : 16);
    /* cardinalities from base sizes and selectivities */
    auto selective = [&](const char *name, unsigned n, std::vector<std::vector<u64>> sizes, u64 stride) {
        const auto G = connected_graphs(n);
        C.explore(name, G.size() * sizes.size(), [=](uint64_t i, mc::Worker &W) {
            auto &E = engine(); mc::Digits d(i); auto &sz = sizes[d.next(sizes.size())];
            E.build(G[d.next(G.size())]);
            std::vector<std::pair<int, int>> edges;
            for (unsigned a = 0; a != n; ++a) for (unsigned b = a + 1; b != n; ++b) if (E.g.adj[a] >> b & 1) edges.emplace_back(a, b);
            W.describe("join ordering :: graph " + E.g.text);
            for (u64 k = stride > 1 ? i % stride : 0; k < 1ul << edges.size(); k += stride) {
                for (u64 s = 1; s < 1ul << n; ++s) {
                    double c = 1;
                    for (unsigned a = 0; a != n; ++a) if (s >> a & 1) c *= sz[a];
                    for (unsigned e = 0; e != edges.size(); ++e) if ((s >> edges[e].first & 1) and (s >> edges[e].second & 1)) c *= k >> e & 1 ? 0.01 : 0.5;
                    CARD[s] = std::max<u64>(1, u64(c));
                }
                check(W, E, false);
                W.tick();
            }
        }, 1);
    };
    selective("five relations", 5, T ? std::vector<std::vector<u64>>{ { 10, 20, 30, 40, 50 }, { 500, 7, 90, 7, 100 }, { 100, 100, 100, 100, 100 } } : std::vector<std::vector<u64>>{ { 50, 7, 90, 20, 100 } }, T ? 1 : 1);
    { /* every graph of six relations, few assignments */
        const auto G = connected_graphs(6);
        const u64 per = T ? 12 : 2;
        C.explore("six relations, few assignments", G.size(), [=](uint64_t i, mc::Worker &W) {
            auto &E = engine(); E.build(G[i]);
            for (u64 k = 0; k != per; ++k) {
                for (u64 s = 1; s < 64; ++s) CARD[s] = k == 0 ? 1 + __builtin_popcountll(s) : k == 1 ? 1 + (s * 37 + 11) % 61 : 1 + ((s * 2654435761u) >> (7 + k)) % (k % 2 ? 1000 : 7);
                check(W, E, false);
            }
        }, 16);
    }
    if (T) selective("six relations, one selectivity assignment in 61", 6, { { 10, 200, 30, 4, 50, 7 } }, 61);
    return C.finish();
}
