/* Join-graph algorithms: exhaustive enumeration of all small undirected graphs, compared with brute force. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include <mutable/util/AdjacencyMatrix.hpp>
#include <mutable/util/MinCutAGaT.hpp>
#include <deque>
#include <functional>

using namespace m;
using u64 = uint64_t;

struct G { unsigned n; u64 adj[8] = {}; };

static G make(unsigned n, u64 bits) {
    G g; g.n = n;
    unsigned k = 0;
    for (unsigned i = 0; i != n; ++i) for (unsigned j = i + 1; j != n; ++j, ++k)
        if (bits >> k & 1) { g.adj[i] |= 1u << j; g.adj[j] |= 1u << i; }
    return g;
}
/** The graph embedded at vertex positions pos[0..n) of a matrix of `total` vertices. */
static AdjacencyMatrix matrix(const G &g, const std::vector<unsigned> &pos, unsigned total) {
    AdjacencyMatrix M(total);
    for (unsigned i = 0; i != g.n; ++i) for (unsigned j = 0; j != g.n; ++j) if (g.adj[i] >> j & 1) M(pos[i], pos[j]) = true;
    return M;
}
static u64 emb(u64 s, const std::vector<unsigned> &pos) { u64 r = 0; for (unsigned i = 0; i != pos.size(); ++i) if (s >> i & 1) r |= u64(1) << pos[i]; return r; }
static u64 nb(const G &g, u64 s) { u64 r = 0; for (unsigned i = 0; i != g.n; ++i) if (s >> i & 1) r |= g.adj[i]; return r & ~s; }
static u64 reach(const G &g, u64 s, u64 in) { // plain fixpoint
    u64 r = s & in;
    for (;;) { u64 t = r; for (unsigned i = 0; i != g.n; ++i) if (r >> i & 1) t |= g.adj[i] & in; if (t == r) return r; r = t; }
}
static bool conn(const G &g, u64 s) { return s and reach(g, s & -s, s) == s; }
static std::string show(const G &g, const std::vector<unsigned> &pos) {
    std::ostringstream o; o << "n=" << g.n << " edges";
    for (unsigned i = 0; i != g.n; ++i) for (unsigned j = i + 1; j != g.n; ++j) if (g.adj[i] >> j & 1) o << " " << pos[i] << "-" << pos[j];
    return o.str();
}

static void check_graph(const G &g, const std::vector<unsigned> &pos, unsigned total, bool heavy, mc::Worker &W) {
    const std::string name = show(g, pos);
    W.describe("graph algorithms on " + name);
    const AdjacencyMatrix M = matrix(g, pos, total);
    const u64 full = (u64(1) << g.n) - 1;
    auto bad = [&](const std::string &op, const std::string &d) { W.fail(op + " " + name, op + " on " + name + ": " + d); };
    auto S = [&](u64 s) { return SmallBitset(emb(s, pos)); };
    W.states();
    for (u64 s = 0; s <= full; ++s) {
        if (u64(M.neighbors(S(s))) != emb(nb(g, s), pos)) bad("neighbors", "S=" + std::to_string(s));
        if (s and u64(M.reachable(S(s))) != emb(reach(g, s, full), pos)) bad("reachable", "S=" + std::to_string(s));
        if (s and M.is_connected(S(s)) != conn(g, s)) bad("is_connected", "S=" + std::to_string(s));
        W.evals(3);
        if (heavy) for (u64 t = 0; t <= full; ++t) {
            W.evals(2);
            if (u64(M.reachable(S(s), S(t))) != emb(reach(g, s, t), pos)) bad("reachable-within", "src=" + std::to_string(s) + " S=" + std::to_string(t));
            if (s and t and not (s & t) and M.is_connected(S(s), S(t)) != bool(nb(g, s) & t)) bad("pair-connected", std::to_string(s) + "," + std::to_string(t));
        }
    }
    /* connected subgraphs of every vertex super set, from every source set, and pairs */
    for (u64 sup = 0; sup <= full; ++sup) {
        for (u64 src = heavy ? 0 : sup; src <= sup; ++src) {
            if (src & ~sup) continue;
            std::map<u64, unsigned> got; u64 calls = 0;
            M.for_each_CSG_undirected(S(sup), S(src), [&](SmallBitset c) { ++got[u64(c)]; ++calls; });
            W.transitions(calls); W.evals();
            u64 expect = 0;
            for (u64 c = 1; c <= full; ++c) if (not (c & ~sup) and (c & src) and conn(g, c)) {
                ++expect;
                auto it = got.find(emb(c, pos));
                if (it == got.end()) { bad("CSG-missing", "super=" + std::to_string(sup) + " source=" + std::to_string(src) + " set=" + std::to_string(c)); break; }
            }
            if (calls != expect) bad("CSG-count", "super=" + std::to_string(sup) + " source=" + std::to_string(src) + " expected " + std::to_string(expect) + " got " + std::to_string(calls));
        }
        /* the same through the overload without sources */
        { u64 calls = 0, expect = 0; bool ok = true;
          M.for_each_CSG_undirected(S(sup), [&](SmallBitset c) { ++calls; ok = ok and c.is_subset(S(sup)) and M.is_connected(c); });
          for (u64 c = 1; c <= full; ++c) expect += not (c & ~sup) and conn(g, c);
          if (calls != expect or not ok) bad("CSG", "super=" + std::to_string(sup)); }
        std::map<std::pair<u64, u64>, unsigned> pairs; u64 calls = 0;
        std::map<u64, u64> last; std::vector<std::pair<u64, u64>> order; // for the order: a subproblem is complete before it is used
        M.for_each_CSG_pair_undirected(S(sup), [&](SmallBitset a, SmallBitset b) {
            last[u64(a) | u64(b)] = order.size(); order.emplace_back(u64(a), u64(b));
            ++calls; u64 x = u64(a), y = u64(b); ++pairs[{ std::min(x, y), std::max(x, y) }];
        });
        W.transitions(calls); W.evals();
        for (u64 k = 0; k != order.size(); ++k) for (u64 part : { order[k].first, order[k].second }) {
            auto it = last.find(part);
            if (it != last.end() and it->second >= k) { bad("CSG-pair-order", "super=" + std::to_string(sup) + ": pair number " + std::to_string(k) + " uses subproblem " + std::to_string(part) + " before the last pair of that subproblem is enumerated"); break; }
        }
        u64 expect = 0;
        for (u64 a = sup; a; a = (a - 1) & sup) for (u64 b = (sup & ~a); b; b = (b - 1) & (sup & ~a)) {
            if (a > b) continue;
            if (not conn(g, a) or not conn(g, b) or not (nb(g, a) & b)) continue;
            ++expect;
            u64 x = emb(a, pos), y = emb(b, pos);
            auto it = pairs.find({ std::min(x, y), std::max(x, y) });
            if (it == pairs.end()) bad("CSG-pair-missing", "super=" + std::to_string(sup) + " pair " + std::to_string(a) + "," + std::to_string(b));
            else if (it->second != 1) bad("CSG-pair-duplicate", "super=" + std::to_string(sup) + " pair " + std::to_string(a) + "," + std::to_string(b));
        }
        if (expect != pairs.size()) bad("CSG-pair-extra", "super=" + std::to_string(sup) + " expected " + std::to_string(expect) + " got " + std::to_string(pairs.size()));
        /* min-cut partitioning of the connected subproblem */
        if (conn(g, sup) and (sup & (sup - 1))) {
            std::map<std::pair<u64, u64>, unsigned> parts;
            MinCutAGaT{}.partition(M, [&](SmallBitset a, SmallBitset b) { u64 x = u64(a), y = u64(b); ++parts[{ std::min(x, y), std::max(x, y) }]; W.transitions(); }, S(sup));
            W.evals();
            u64 exp = 0;
            for (u64 a = (sup - 1) & sup; a; a = (a - 1) & sup) {
                u64 b = sup & ~a; if (a > b or not conn(g, a) or not conn(g, b)) continue;
                ++exp;
                u64 x = emb(a, pos), y = emb(b, pos);
                auto it = parts.find({ std::min(x, y), std::max(x, y) });
                if (it == parts.end()) bad("min-cut-missing", "S=" + std::to_string(sup) + " partition " + std::to_string(a) + "|" + std::to_string(b));
                else if (it->second != 1) bad("min-cut-duplicate", "S=" + std::to_string(sup) + " partition " + std::to_string(a) + "|" + std::to_string(b));
            }
            if (exp != parts.size()) bad("min-cut-extra", "S=" + std::to_string(sup));
        }
    }
    /* transitive closures: a path of at least one edge */
    {
        auto U = M.transitive_closure_undirected(), D = M.transitive_closure_directed();
        for (unsigned i = 0; i != g.n; ++i) for (unsigned j = 0; j != g.n; ++j) {
            bool e = g.adj[i] and (reach(g, u64(1) << i, full) >> j & 1);
            if (bool(U(pos[i], pos[j])) != e) bad("closure-undirected", std::to_string(i) + "," + std::to_string(j));
            if (bool(D(pos[i], pos[j])) != e) bad("closure-directed", std::to_string(i) + "," + std::to_string(j));
            W.evals(2);
        }
    }
    W.outcome(mc::hash_str(name));
}

static double kruskal(const G &g, const std::function<double(unsigned, unsigned)> &w, unsigned &edges) {
    std::vector<std::tuple<double, unsigned, unsigned>> E;
    for (unsigned i = 0; i != g.n; ++i) for (unsigned j = i + 1; j != g.n; ++j) if (g.adj[i] >> j & 1) E.push_back({ w(i, j), i, j });
    std::sort(E.begin(), E.end());
    std::vector<unsigned> p(g.n); for (unsigned i = 0; i != g.n; ++i) p[i] = i;
    std::function<unsigned(unsigned)> find = [&](unsigned x) { return p[x] == x ? x : p[x] = find(p[x]); };
    double sum = 0; edges = 0;
    for (auto &[c, a, b] : E) if (find(a) != find(b)) { p[find(a)] = find(b); sum += c; ++edges; }
    return sum;
}

int main(int argc, char **argv)
{
    mc::Check C("C15", "model_checking", argc, argv);
    C.rule = "every undirected simple graph on n vertices, every vertex super set, (small n) every source set; compared with brute force; one outcome per graph";
    auto ident = [](unsigned n) { std::vector<unsigned> p; for (unsigned i = 0; i != n; ++i) p.push_back(i); return p; };
    for (unsigned n = 1; n <= (C.thorough ? 6u : 5u); ++n)
        C.explore("graphs-n" + std::to_string(n), u64(1) << (n * (n - 1) / 2), [&](u64 i, mc::Worker &W) { check_graph(make(n, i), ident(n), n, true, W); if (i % 97 == 5) W.sample(show(make(n, i), ident(n))); });
    { unsigned n = C.thorough ? 7 : 6;
      C.explore("graphs-all-n" + std::to_string(n), u64(1) << (n * (n - 1) / 2), [&](u64 i, mc::Worker &W) { check_graph(make(n, i), ident(n), n, false, W); }); }
    /* the same graphs spread over the 64 available vertex positions, in particular the extreme ones */
    static const std::vector<std::vector<unsigned>> POS = { { 0, 31, 32, 62, 63 }, { 59, 60, 61, 62, 63 }, { 0, 1, 30, 31, 63 }, { 5, 7, 33, 40, 47 } };
    C.explore("graphs-spread", POS.size() * (u64(1) << 10), [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); auto &p = POS[d.next(POS.size())]; check_graph(make(5, d.next(1024)), p, 64, false, W);
    });
    /* directed closure of every directed graph with self loops on 3 and 4 vertices */
    for (unsigned n : { 1u, 2u, 3u, 4u })
        C.explore("directed-n" + std::to_string(n), u64(1) << (n * n), [&, n](u64 bits, mc::Worker &W) {
            W.describe("directed closure n=" + std::to_string(n) + " bits=" + std::to_string(bits));
            AdjacencyMatrix M(n); bool r[4][4];
            for (unsigned i = 0; i != n; ++i) for (unsigned j = 0; j != n; ++j) { bool b = bits >> (i * n + j) & 1; M(i, j) = b; r[i][j] = b; }
            for (unsigned k = 0; k != n; ++k) for (unsigned i = 0; i != n; ++i) for (unsigned j = 0; j != n; ++j) r[i][j] = r[i][j] or (r[i][k] and r[k][j]);
            auto T = M.transitive_closure_directed();
            W.states(); W.evals();
            for (unsigned i = 0; i != n; ++i) for (unsigned j = 0; j != n; ++j)
                if (bool(T(i, j)) != r[i][j]) W.fail("closure-directed-" + std::to_string(n) + "-" + std::to_string(bits), "directed closure of a " + std::to_string(n) + "-vertex digraph (row-major bits " + std::to_string(bits) + ") wrong at " + std::to_string(i) + "," + std::to_string(j));
            AdjacencyMatrix cp(M); if (not (cp == M) or (cp != M)) W.fail("matrix-equality", "copy differs");
            for (unsigned i = 0; i != n; ++i) for (unsigned j = 0; j != n; ++j) {
                AdjacencyMatrix c(M); c(i, j) = not bool(c(i, j)); if (c == M) W.fail("matrix-inequality", "flipped entry not noticed");
                c(i, j) = M(i, j); if (c != M) W.fail("matrix-restore", "restored entry differs");
            }
        });
    /* minimum spanning forests: all graphs with weights from a small domain (ties included), trees directed away from each root */
    for (unsigned n : { 2u, 3u, 4u, 5u }) {
        const unsigned e = n * (n - 1) / 2;
        const unsigned dom = n <= 4 ? 4 : (C.thorough ? 3 : 2); // weight 0 = no edge
        u64 N = 1; for (unsigned k = 0; k != e; ++k) N *= dom;
        const unsigned variants = n == 5 ? 2 : 1;
        C.explore("msf-n" + std::to_string(n), N * variants, [&, n, dom, variants](u64 i, mc::Worker &W) {
            mc::Digits d(i); unsigned variant = d.next(variants);
            G g; g.n = n; double w[8][8] = {};
            unsigned k = 0;
            for (unsigned a = 0; a != n; ++a) for (unsigned b = a + 1; b != n; ++b, ++k) {
                unsigned x = d.next(dom);
                if (x) { g.adj[a] |= 1u << b; g.adj[b] |= 1u << a; w[a][b] = w[b][a] = variant ? double((k * 7) % 11) + 1 : x; }
            }
            std::string nm = show(g, ident(n)) + " w="; for (unsigned a = 0; a != n; ++a) for (unsigned b = a + 1; b != n; ++b) nm += std::to_string(int(w[a][b]));
            W.describe("spanning forest of " + nm); W.states(); W.evals();
            auto M = matrix(g, ident(n), n);
            auto F = M.minimum_spanning_forest([&](std::size_t a, std::size_t b) { return w[a][b]; });
            double sum = 0; unsigned edges = 0; G f; f.n = n;
            for (unsigned a = 0; a != n; ++a) for (unsigned b = 0; b != n; ++b) {
                if (bool(F(a, b)) != bool(F(b, a))) W.fail("msf-symmetric " + nm, "forest is not symmetric");
                if (F(a, b)) { if (not (g.adj[a] >> b & 1)) W.fail("msf-subgraph " + nm, "forest uses an edge that is not in the graph: " + nm); f.adj[a] |= 1u << b; if (a < b) { sum += w[a][b]; ++edges; } }
            }
            unsigned ee; double es = kruskal(g, [&](unsigned a, unsigned b) { return w[a][b]; }, ee);
            if (edges != ee or sum != es) W.fail("msf-minimal " + nm, "spanning forest has " + std::to_string(edges) + " edges, weight " + std::to_string(sum) + "; minimum has " + std::to_string(ee) + " edges, weight " + std::to_string(es) + "; graph " + nm);
            W.outcome(mc::hash_str(nm));
            /* direct the tree away from each root */
            u64 full = (u64(1) << n) - 1;
            for (unsigned r = 0; r != n; ++r) {
                if (reach(f, u64(1) << r, full) != full) continue;
                auto D = F.tree_directed_away_from(SmallBitset::Singleton(r));
                /* depth by BFS */
                int depth[8]; for (auto &x : depth) x = -1; depth[r] = 0;
                std::deque<unsigned> q{ r }; while (not q.empty()) { auto v = q.front(); q.pop_front(); for (unsigned x = 0; x != n; ++x) if ((f.adj[v] >> x & 1) and depth[x] < 0) { depth[x] = depth[v] + 1; q.push_back(x); } }
                for (unsigned a = 0; a != n; ++a) for (unsigned b = 0; b != n; ++b) {
                    bool e = (f.adj[a] >> b & 1) and depth[b] == depth[a] + 1;
                    if (bool(D(a, b)) != e) W.fail("directed-tree " + nm, "tree directed away from " + std::to_string(r) + " wrong at " + std::to_string(a) + "," + std::to_string(b) + " in " + nm);
                }
                W.transitions();
            }
        });
    }
    return C.finish();
}
