/* Relation sets, subset and combination enumerators, in-place sorting, grid search: exhaustive over small universes placed at
 * different positions of the 64 bit word, compared with std::set and plain recursion. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include <mutable/util/ADT.hpp>
#include <util/GridSearch.hpp>
#include <util/algorithms.hpp>
#include <algorithm>
#include <set>

using namespace m;
using u64 = uint64_t;
using Set = std::set<unsigned>;

/** Positions at which the members of a universe of `k` elements are placed. */
static std::vector<std::vector<unsigned>> placements(unsigned k) {
    std::vector<std::vector<unsigned>> P;
    std::vector<unsigned> a, b, c, d;
    for (unsigned i = 0; i != k; ++i) { a.push_back(i); b.push_back(63 - k + 1 + i); c.push_back(i * 63 / (k - 1)); d.push_back(i < k / 2 ? 31 - k / 2 + 1 + i : 32 + i - k / 2); }
    P = { a, b, c, d };
    return P;
}
static u64 emb(u64 s, const std::vector<unsigned> &pos) { u64 r = 0; for (unsigned i = 0; i != pos.size(); ++i) if (s >> i & 1) r += u64(1) << pos[i]; return r; }
static Set as_set(u64 bits) { Set s; for (unsigned i = 0; i != 64; ++i) if (bits >> i & 1) s.insert(i); return s; }
static u64 bits_of(const Set &s) { u64 r = 0; for (unsigned i : s) r += u64(1) << i; return r; }
static std::string show(const Set &s) { std::string o = "{"; for (unsigned i : s) o += (o.size() > 1 ? "," : "") + std::to_string(i); return o + "}"; }

/** All unary operations on one set. */
static void unary(u64 bits, mc::Worker &W) {
    const Set ref = as_set(bits);
    const SmallBitset S(bits);
    auto bad = [&](const std::string &op, const std::string &d) { W.fail(op + " " + show(ref), op + " of " + show(ref) + ": " + d); };
    W.describe("operations on " + show(ref));
    W.evals(25); W.states();
    if (u64(S) != bits) bad("value", std::to_string(u64(S)));
    if (S.size() != ref.size()) bad("size", std::to_string(S.size()));
    if (S.empty() != ref.empty() or bool(S) == ref.empty()) bad("empty", "");
    if (S.is_singleton() != (ref.size() == 1)) bad("is_singleton", "");
    if (not ref.empty()) {
        if (as_set(u64(S.hi())) != Set{ *ref.rbegin() }) bad("hi", show(as_set(u64(S.hi()))));
        Set lo; for (unsigned i = 0; i <= *ref.begin(); ++i) lo.insert(i);
        if (as_set(u64(S.mask_to_lo())) != lo) bad("mask_to_lo", show(as_set(u64(S.mask_to_lo()))));
        if (as_set(u64(least_subset(S))) != Set{ *ref.begin() }) bad("least_subset", show(as_set(u64(least_subset(S)))));
        if (as_set(u64(S.begin().as_set())) != Set{ *ref.begin() }) bad("iterator::as_set", "");
        if (as_set(u64(S.rbegin().as_set())) != Set{ *ref.rbegin() }) bad("reverse_iterator::as_set", "");
        if (ref.size() == 1) { lo.erase(*ref.begin()); if (as_set(u64(S.singleton_to_lo_mask())) != lo) bad("singleton_to_lo_mask", ""); }
    } else if (u64(least_subset(S))) bad("least_subset", "");
    { std::vector<unsigned> v(ref.begin(), ref.end()), w, x, y; std::size_t guard = 0;
      for (auto e : S) { w.push_back(e); if (++guard > 64) break; }
      if (v != w) bad("iteration", "wrong elements or order");
      guard = 0;
      for (auto it = S.cbegin(); it != S.cend() and ++guard <= 64;) { auto e = *it; if (as_set(u64(it.as_set())) != Set{ unsigned(e) }) bad("iterator::as_set", ""); auto old = it++; if (*old != e) bad("iterator post-increment", ""); x.push_back(e); }
      if (v != x) bad("iteration (post-increment)", "");
      std::reverse(v.begin(), v.end());
      guard = 0;
      for (auto it = S.rbegin(); it != S.rend() and ++guard <= 64; ++it) { y.push_back(*it); if (as_set(u64(it.as_set())) != Set{ unsigned(*it) }) bad("reverse_iterator::as_set", ""); }
      if (v != y) bad("reverse iteration", "wrong elements or order");
      y.clear(); guard = 0;
      for (auto it = S.crbegin(); it != S.crend() and ++guard <= 64;) { auto e = *it; auto old = it++; if (*old != e) bad("reverse_iterator post-increment", ""); y.push_back(e); }
      if (v != y) bad("reverse iteration (post-increment)", ""); }
    { u64 c = u64(~S); if (as_set(c).size() + ref.size() != 64) bad("complement", ""); for (unsigned i : ref) if (c >> i & 1) bad("complement", ""); }
    SmallBitset T = S;
    for (unsigned i = 0; i != 64; ++i) {
        const bool in = ref.count(i);
        const SmallBitset &CS = T;
        if (bool(CS[i]) != in or bool(CS(i)) != in or bool(T[i]) != in or bool(T(i)) != in or bool(T.at(i)) != in or bool(CS.at(i)) != in) bad("element access", std::to_string(i));
        for (int val = 0; val != 2; ++val) {
            SmallBitset A = S, B = S, C = S, D = S;
            A[i] = bool(val); B(i) = bool(val); C.at(i) = bool(val);
            SmallBitset src(val ? ~u64(0) : u64(0)); D[i] = src[63 - i];
            Set e = ref; if (val) e.insert(i); else e.erase(i);
            if (as_set(u64(A)) != e or as_set(u64(B)) != e or as_set(u64(C)) != e) bad("element assignment", std::to_string(i) + " := " + std::to_string(val));
            if (as_set(u64(D)) != e) bad("element assignment from element", std::to_string(i));
        }
        W.evals(4);
    }
    for (std::size_t o : { std::size_t(64), std::size_t(65), std::size_t(1) << 32, ~std::size_t(0) }) {
        bool thrown = false, thrown2 = false;
        try { (void) bool(T.at(o)); } catch (m::out_of_range&) { thrown = true; }
        try { const SmallBitset &CT = T; (void) bool(CT.at(o)); } catch (m::out_of_range&) { thrown2 = true; }
        if (not thrown or not thrown2) bad("at out of range", std::to_string(o));
    }
    if (bits != ~u64(0)) {
        SmallBitset A = S, B = S;
        SmallBitset r = B++;
        if (u64(++A) != bits + 1 or u64(A) != bits + 1 or u64(B) != bits + 1 or u64(r) != bits) bad("increment", "");
    }
    if (bits) {
        SmallBitset A = S, B = S;
        SmallBitset r = B--;
        if (u64(--A) != bits - 1 or u64(A) != bits - 1 or u64(B) != bits - 1 or u64(r) != bits) bad("decrement", "");
    }
    { std::ostringstream o, p; o << S; S.print_fixed_length(p, 7);
      std::string e, f; for (unsigned i = 64; i --> 0;) { e += ref.count(i) ? '1' : '0'; if (i < 7) f += e.back(); }
      if (o.str() != e or p.str() != f) bad("printing", o.str()); }
}
static void binary(u64 a, u64 b, mc::Worker &W) {
    const Set x = as_set(a), y = as_set(b);
    auto bad = [&](const std::string &op) { W.fail(op + " " + show(x) + show(y), op + " of " + show(x) + " and " + show(y)); };
    SmallBitset A(a), B(b);
    Set un, in, di;
    std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::inserter(un, un.end()));
    std::set_intersection(x.begin(), x.end(), y.begin(), y.end(), std::inserter(in, in.end()));
    std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::inserter(di, di.end()));
    W.evals(12);
    SmallBitset U = A, I = A, D = A; U |= B; I &= B; D -= B;
    if (as_set(u64(A | B)) != un or as_set(u64(unify(A, B))) != un or as_set(u64(U)) != un) bad("union");
    if (as_set(u64(A & B)) != in or as_set(u64(intersect(A, B))) != in or as_set(u64(I)) != in) bad("intersection");
    if (as_set(u64(A - B)) != di or as_set(u64(subtract(A, B))) != di or as_set(u64(D)) != di) bad("difference");
    if (A.is_subset(B) != std::includes(y.begin(), y.end(), x.begin(), x.end())) bad("is_subset");
    if ((A == B) != (x == y) or (A != B) == (x == y)) bad("equality");
}

int main(int argc, char **argv) {
    mc::Check C("C21", "model_checking", argc, argv);
    C.rule = "All subsets of universes of up to 10 (pairs: 7) elements placed at the low end, at the high end, spread over and across the middle of the 64-bit word; all set operations, iterators, element assignments, single increments; all subset enumerations of all those sets; Gosper's hack and the combination enumerator for all n <= 20 (and n up to 63 for k within 2 of either end) and all start sets; quicksort and partitioning of all arrays of up to 7 elements over 4 values; grid search over all small spaces. Operations whose documented precondition is violated are not called.";
    const unsigned KU = C.thorough ? 14 : 10, KP = C.thorough ? 9 : 7;

    C.explore("single sets", u64(4) << KU, [&](u64 i, mc::Worker &W) {
        const auto pos = placements(KU)[i >> KU];
        const u64 s = i & ((u64(1) << KU) - 1);
        unary(emb(s, pos), W);
        W.outcome(emb(s, pos));
        /* and the complement of it */
        if (s % 16 == 5) unary(~emb(s, pos), W);
        if (i % 997 == 0) W.sample("set " + show(as_set(emb(s, pos))));
    });
    C.explore("pairs of sets", u64(4) << KP, [&](u64 i, mc::Worker &W) {
        const auto pos = placements(KP)[i >> KP];
        const u64 a = emb(i & ((u64(1) << KP) - 1), pos);
        W.describe("binary operations with " + show(as_set(a)));
        for (u64 j = 0; j != u64(1) << KP; ++j) { const u64 b = emb(j, pos); binary(a, b, W); if (j % 7 == 0) { binary(~a, b, W); binary(a, ~b, W); } }
        W.states(u64(1) << KP);
    });
    C.explore("factories", 65, [&](u64 n, mc::Worker &W) {
        W.describe("All, Singleton of " + std::to_string(n));
        Set e; for (unsigned i = 0; i != n; ++i) e.insert(i);
        if (as_set(u64(SmallBitset::All(n))) != e) W.fail("All " + std::to_string(n), "All(" + std::to_string(n) + ") is " + show(as_set(u64(SmallBitset::All(n)))));
        if (n < 64 and as_set(u64(SmallBitset::Singleton(n))) != Set{ unsigned(n) }) W.fail("Singleton " + std::to_string(n), show(as_set(u64(SmallBitset::Singleton(n)))));
        if (SmallBitset().size() or not SmallBitset().empty()) W.fail("default set", "not empty");
        if (SmallBitset().capacity() != 64) W.fail("capacity", "");
        W.evals(3); W.states();
    });
    /* next_subset enumerates all subsets of a set, each exactly once, in ascending order */
    C.explore("subsets of a set", u64(4) << KU, [&](u64 i, mc::Worker &W) {
        const auto pos = placements(KU)[i >> KU];
        const u64 set = emb(i & ((u64(1) << KU) - 1), pos);
        if (not set) return;
        const SmallBitset S(set);
        W.describe("enumeration of the subsets of " + show(as_set(set)));
        const u64 total = u64(1) << as_set(set).size();
        u64 n = 1, last = 0; bool ok = true;
        for (SmallBitset sub = least_subset(S); ; sub = next_subset(sub, S)) {
            if (n == total) { if (u64(sub)) ok = false; break; } // wraps around to the empty set after the set itself
            if (not (u64(sub) > last) or (u64(sub) & ~set)) { ok = false; break; }
            last = u64(sub); ++n;
        }
        if (not ok) W.fail("next_subset " + show(as_set(set)), "next_subset does not enumerate the subsets of " + show(as_set(set)) + " exactly once in ascending order: stops after " + std::to_string(n) + " at " + show(as_set(last)));
        W.evals(n); W.states();
        /* combinations */
        const unsigned sz = as_set(set).size();
        if (sz > 63) return;
        std::vector<u64> all; for (u64 s = 0; ; s = (s - set) & set) { all.push_back(s); if (s == set) break; }
        for (unsigned k = 0; k <= sz; ++k) {
            W.describe("SubsetEnumerator of size " + std::to_string(k) + " of " + show(as_set(set)));
            std::vector<u64> expect, got;
            for (u64 s : all) if (unsigned(__builtin_popcountll(s)) == k) expect.push_back(s);
            for (SubsetEnumerator E(S, k); E; ++E) { got.push_back(u64(*E)); if (got.size() > expect.size()) break; }
            if (got != expect) W.fail("SubsetEnumerator k=" + std::to_string(k) + " " + show(as_set(set)), "SubsetEnumerator(" + show(as_set(set)) + ", " + std::to_string(k) + ") yields " + (got.size() > expect.size() ? "more than " : "") + std::to_string(expect.size() < got.size() ? expect.size() : got.size()) + " sets or the wrong ones, expected the " + std::to_string(expect.size()) + " subsets of that size in ascending order");
            W.evals(expect.size());
        }
    });
    /* Gosper's hack: all k, n */
    const unsigned NG = C.thorough ? 24 : 18;
    C.explore("combinations", (NG + 1) * (NG + 2) / 2, [&](u64 i, mc::Worker &W) {
        unsigned n = 0, k; u64 r = i; while (r > n) { r -= n + 1; ++n; } k = r;
        W.describe("GospersHack::enumerate_all(" + std::to_string(k) + ", " + std::to_string(n) + ")");
        u64 cnt = 0, s = 0; std::string err;
        GospersHack GH = GospersHack::enumerate_all(k, n);
        /* walk through all n-bit numbers with k bits */
        for (s = 0; s != u64(1) << n; ++s) {
            if (unsigned(__builtin_popcountll(s)) != k) continue;
            if (not GH) { err = "ends early, before " + show(as_set(s)); break; }
            if (u64(*GH) != s) { err = "yields " + show(as_set(u64(*GH))) + " instead of " + show(as_set(s)); break; }
            ++cnt; ++GH;
        }
        if (err.empty() and GH) err = "does not end after all " + std::to_string(cnt) + " subsets";
        if (not err.empty()) W.fail("GospersHack k=" + std::to_string(k) + " n=" + std::to_string(n), "enumerate_all(" + std::to_string(k) + ", " + std::to_string(n) + ") " + err);
        W.states(); W.evals(cnt); W.outcome(cnt);
    });
    /* n up to 63, k near 0 or n */
    C.explore("combinations of large sets", 64 * 6, [&](u64 i, mc::Worker &W) {
        const unsigned n = i / 6; int k = int(i % 6) < 3 ? int(i % 6) : int(n) - int(i % 6 - 3);
        if (k < 0 or k > int(n)) return;
        W.describe("GospersHack::enumerate_all(" + std::to_string(k) + ", " + std::to_string(n) + ")");
        u64 expect = 1; for (int j = 1; j <= std::min(k, int(n) - k); ++j) expect = expect * (n - j + 1) / j;
        u64 cnt = 0; u64 last = 0; std::string err;
        for (GospersHack GH = GospersHack::enumerate_all(k, n); GH; ++GH) {
            const u64 s = u64(*GH);
            if (__builtin_popcountll(s) != k or s >> n or (cnt and s <= last)) { err = "yields " + show(as_set(s)); break; }
            last = s;
            if (++cnt > expect) { err = "does not end"; break; }
        }
        if (err.empty() and cnt != expect) err = "yields " + std::to_string(cnt) + " sets instead of " + std::to_string(expect);
        if (not err.empty()) W.fail("GospersHack k=" + std::to_string(k) + " n=" + std::to_string(n), "enumerate_all(" + std::to_string(k) + ", " + std::to_string(n) + ") " + err);
        W.states(); W.evals(cnt);
    });
    /* continuing from any set */
    C.explore("combinations from a set", 11 << 11, [&](u64 i, mc::Worker &W) {
        const unsigned n = i >> 11; const u64 s0 = i & 2047;
        if (s0 >= u64(1) << n) return;
        W.describe("GospersHack::enumerate_from(" + show(as_set(s0)) + ", " + std::to_string(n) + ")");
        std::vector<u64> expect, got;
        for (u64 s = s0; s != u64(1) << n; ++s) if (__builtin_popcountll(s) == __builtin_popcountll(s0)) expect.push_back(s);
        for (GospersHack GH = GospersHack::enumerate_from(SmallBitset(s0), n); GH; ++GH) { got.push_back(u64(*GH)); if (got.size() > expect.size()) break; }
        if (got != expect) W.fail("enumerate_from " + show(as_set(s0)) + " n=" + std::to_string(n), "enumerate_from(" + show(as_set(s0)) + ", " + std::to_string(n) + ") does not yield the remaining sets");
        W.states(); W.evals(expect.size());
    });
    /* sorting */
    const unsigned LQ = C.thorough ? 9 : 7;
    u64 NQ = 0; for (unsigned l = 0, p = 1; l <= LQ; ++l, p *= 4) NQ += p;
    C.explore("quicksort", NQ, [&](u64 i, mc::Worker &W) {
        unsigned l = 0; u64 p = 1; while (i >= p) { i -= p; p *= 4; ++l; }
        static const int VAL[4] = { -2147483647, 0, 7, 2147483646 };
        std::vector<int> v, e; for (unsigned j = 0; j != l; ++j, i /= 4) v.push_back(VAL[i % 4]);
        e = v; std::sort(e.begin(), e.end());
        std::string name = "["; for (int x : v) name += std::to_string(x) + ","; name += "]";
        W.describe("qsort of " + name);
        auto w = v; m::qsort(w.begin(), w.end(), partition_predicated_naive{});
        if (w != e) W.fail("qsort " + name, "qsort of " + name + " is not sorted or not a permutation");
        for (int piv : VAL) {
            auto x = v;
            W.describe("partition of " + name + " by " + std::to_string(piv));
            /* documented use: the pivot need not be a member */
            auto mid = partition_predicated_naive{}(piv, x.begin(), x.end());
            bool ok = mid >= x.begin() and mid <= x.end();
            if (ok) { for (auto it = x.begin(); it != mid; ++it) ok = ok and *it <= piv; for (auto it = mid; it != x.end(); ++it) ok = ok and *it >= piv; }
            if (ok and l) { if (verify_partition(x.begin(), mid, x.end()) != true) ok = false; }
            std::sort(x.begin(), x.end()); ok = ok and x == e;
            if (not ok) W.fail("partition " + name + " by " + std::to_string(piv), "partitioning " + name + " by " + std::to_string(piv) + " is wrong");
        }
        for (unsigned j = 0; j <= l; ++j) {
            bool e2 = true; for (unsigned a = 0; a != j; ++a) for (unsigned b = j; b != l; ++b) e2 = e2 and v[a] <= v[b];
            if (verify_partition(v.begin(), v.begin() + j, v.end()) != e2) W.fail("verify_partition " + name + " at " + std::to_string(j), "verify_partition is wrong for " + name + " at " + std::to_string(j));
        }
        W.states(); W.evals(5 + l);
    });
    /* grid search: every combination exactly once */
    C.explore("grid search", 5 * 5 * 4 * 8, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); const unsigned s1 = 1 + d.next(5), s2 = 1 + d.next(5), s3 = 1 + d.next(4); const bool a1 = d.next(2), a2 = d.next(2), a3 = d.next(2);
        std::ostringstream nm; nm << "grid of " << s1 << "x" << s2 << "x" << s3 << " steps" << a1 << a2 << a3;
        W.describe(nm.str());
        using namespace m::gs;
        LinearSpace<unsigned> A(3, 3 + 2 * s1, s1, a1); LinearSpace<int> B(-7, -7 + int(3 * s2), s2, a2); LinearSpace<double> D(-1.0, -1.0 + s3 * 0.25, s3, a3);
        std::vector<std::tuple<unsigned, int, double>> got, expect;
        GridSearch GS(A, B, D);
        GS([&](unsigned a, int b, double c) { got.emplace_back(a, b, c); });
        for (unsigned x = 0; x <= s1; ++x) for (unsigned y = 0; y <= s2; ++y) for (unsigned z = 0; z <= s3; ++z)
            expect.emplace_back(a1 ? 3 + 2 * x : 3 + 2 * (s1 - x), a2 ? -7 + int(3 * y) : -7 + int(3 * (s2 - y)), -1.0 + 0.25 * (a3 ? z : s3 - z));
        if (GS.num_points() != expect.size() or GS.num_spaces() != 3) W.fail("num_points " + nm.str(), std::to_string(GS.num_points()) + " instead of " + std::to_string(expect.size()));
        std::sort(got.begin(), got.end()); std::sort(expect.begin(), expect.end());
        if (got != expect) W.fail("grid " + nm.str(), nm.str() + ": not every combination exactly once: " + std::to_string(got.size()) + " of " + std::to_string(expect.size()));
        auto sq = A.sequence(); bool ok = sq.size() == s1 + 1; for (unsigned x = 0; ok and x <= s1; ++x) ok = sq[x] == (a1 ? 3 + 2 * x : 3 + 2 * (s1 - x));
        if (not ok) W.fail("sequence " + nm.str(), "sequence of the space is wrong");
        W.states(); W.evals(expect.size());
    });
    return C.finish();
}
