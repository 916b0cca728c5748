/* Container types: all operation histories up to a depth, on the real containers, in lock-step with plain STL models; every
 * element's lifetime is tracked. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include <mutable/util/ADT.hpp>
#include <mutable/util/unsharable_shared_ptr.hpp>
#include <mutable/util/fn.hpp>
#include <util/container/RefCountingHashMap.hpp>
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>

using namespace m;
using u64 = uint64_t;

/*----- element type that tracks construction and destruction --------------------------------------------------------*/
static std::set<const void*> LIVE;
static std::string LIFE_ERR; // first lifetime error
static void life(const char *e) { if (LIFE_ERR.empty()) LIFE_ERR = e; }
template<int Tag> struct Tracked {
    int v; u64 magic = 0x600d;
    void born() { if (not LIVE.insert(this).second) life("an element is constructed over a living element"); }
    void ok() const { if (magic != 0x600d or not LIVE.count(this)) life("an element that does not live is used"); }
    Tracked() : v(-7) { born(); }
    Tracked(int v) : v(v) { born(); }
    Tracked(const Tracked &o) : v(o.v) { o.ok(); born(); }
    Tracked(Tracked &&o) : v(o.v) { o.ok(); o.v = -9; born(); }
    Tracked & operator=(const Tracked &o) { ok(); o.ok(); v = o.v; return *this; }
    Tracked & operator=(Tracked &&o) { ok(); o.ok(); v = o.v; if (&o != this) o.v = -9; return *this; }
    ~Tracked() { if (not LIVE.erase(this)) life("an element is destroyed twice or was never constructed"); magic = 0xdead; }
    bool operator==(const Tracked &o) const { ok(); o.ok(); return v == o.v; }
    bool operator!=(const Tracked &o) const { return not operator==(o); }
    bool operator<(const Tracked &o) const { ok(); o.ok(); return v < o.v; }
    bool operator>(const Tracked &o) const { return o < *this; }
};
using E = Tracked<0>;
using K = Tracked<1>;

static int HASHER;
struct KH { std::size_t operator()(const K &k) const { k.ok();
    switch (HASHER) { case 0: return std::size_t(k.v); case 1: return 0; case 2: return std::size_t(k.v) % 2 * 3; case 3: return ~std::size_t(0); case 4: return std::size_t(k.v) * 0x9e3779b97f4a7c15ULL; default: return std::size_t(3 - k.v); } } };
static const int NHASH = 6;

static std::string lifetimes(std::size_t expected) {
    if (not LIFE_ERR.empty()) return LIFE_ERR;
    if (LIVE.size() != expected) return std::to_string(LIVE.size()) + " elements live instead of " + std::to_string(expected);
    return "";
}

/*----- hash multimap ------------------------------------------------------------------------------------------------*/
using Map = RefCountingHashMap<K, E, KH>;
using Ref = std::multimap<int, int>;

static std::string check_map(Map &M, const Ref &R, int nkeys) {
    const Map &CM = M;
    if (M.size() != R.size()) return "size is " + std::to_string(M.size()) + " instead of " + std::to_string(R.size());
    if (M.capacity() & (M.capacity() - 1) or M.capacity() <= M.size()) return "capacity " + std::to_string(M.capacity()) + " for " + std::to_string(M.size()) + " elements"; // (an empty slot must remain, otherwise a search does not end)
    std::multiset<std::pair<int,int>> all, got, cgot;
    for (auto &p : R) all.insert(p);
    std::size_t guard = 0;
    for (auto it = M.begin(); it != M.end(); ++it) { got.emplace(it->first.v, (*it).second.v); if (++guard > 100000) return "iteration does not end"; }
    if (got != all) return "iteration yields " + std::to_string(got.size()) + " elements, not exactly the " + std::to_string(all.size()) + " inserted";
    for (auto it = CM.cbegin(); it != CM.cend();) { auto old = it++; cgot.emplace(old->first.v, old->second.v); }
    if (cgot != all) return "const iteration differs";
    for (int k = -1; k <= nkeys; ++k) {
        const K key(k);
        std::multiset<int> e, a, b, c, d;
        for (auto [x, y] = R.equal_range(k); x != y; ++x) e.insert(x->second);
        M.for_all(key, [&](Map::value_type &p) { if (p.first.v != k) a.insert(-12345); a.insert(p.second.v); });
        CM.for_all(key, [&](const Map::value_type &p) { b.insert(p.second.v); });
        if (a != e or b != e) return "for_all of key " + std::to_string(k) + " finds " + std::to_string(a.size()) + " elements instead of " + std::to_string(e.size());
        if (CM.count(key) != e.size()) return "count of key " + std::to_string(k);
        auto it = M.find(key);
        if ((it != M.end()) != not e.empty()) return std::string("find of key ") + std::to_string(k) + (e.empty() ? " finds a missing key" : " does not find the key");
        if (not e.empty() and (it->first.v != k or not e.count(it->second.v))) return "find of key " + std::to_string(k) + " finds another element";
        auto cit = CM.find(key);
        if ((cit != CM.end()) != not e.empty()) return "const find of key " + std::to_string(k);
        for (auto bit = M.bucket(key); bit.has_next(); ++bit) {
            if ((*bit).first.v == k) { c.insert(bit->second.v); if (bit.bucket_index() != M.masked(KH{}(key))) return "bucket index of key " + std::to_string(k); }
        }
        for (auto bit = CM.bucket(key); bit.has_next();) { auto old = bit++; if (old->first.v == k) d.insert(old->second.v); }
        if (c != e or d != e) return "bucket of key " + std::to_string(k);
    }
    return "";
}

struct MapOp { enum T { DUP, NODUP, RESIZE, REHASH, SHRINK, MLF } t; int a; };
static std::string show(const MapOp &o) {
    switch (o.t) { case MapOp::DUP: return "insert_with_duplicates(" + std::to_string(o.a) + ")"; case MapOp::NODUP: return "insert_without_duplicates(" + std::to_string(o.a) + ")";
        case MapOp::RESIZE: return "resize(" + std::to_string(o.a) + ")"; case MapOp::REHASH: return "rehash()"; case MapOp::SHRINK: return "shrink_to_fit()"; default: return "max_load_factor(" + std::to_string(o.a) + "%)"; }
}
static const std::vector<MapOp> MAPOPS = { { MapOp::DUP, 0 }, { MapOp::DUP, 1 }, { MapOp::DUP, 2 }, { MapOp::DUP, 3 }, { MapOp::NODUP, 0 }, { MapOp::NODUP, 1 }, { MapOp::NODUP, 2 }, { MapOp::NODUP, 3 },
    { MapOp::RESIZE, 1 }, { MapOp::RESIZE, 8 }, { MapOp::REHASH, 0 }, { MapOp::SHRINK, 0 }, { MapOp::MLF, 30 }, { MapOp::MLF, 99 } };

static std::string apply(Map &M, Ref &R, const MapOp &o, int stamp) {
    switch (o.t) {
        case MapOp::DUP: { auto it = M.insert_with_duplicates(K(o.a), E(stamp)); R.emplace(o.a, stamp); if (it->first.v != o.a or it->second.v != stamp) return "returned iterator"; break; }
        case MapOp::NODUP: { auto [it, fresh] = M.insert_without_duplicates(K(o.a), E(stamp));
            if (fresh == bool(R.count(o.a))) return fresh ? "a duplicate is inserted" : "a fresh key is not inserted";
            if (fresh) R.emplace(o.a, stamp);
            if (it->first.v != o.a or (fresh and it->second.v != stamp)) return "returned iterator"; break; }
        case MapOp::RESIZE: M.resize(o.a); if (M.capacity() < std::size_t(o.a)) return "capacity"; break;
        case MapOp::REHASH: if (M.size() <= M.watermark_high()) M.rehash(); break; // documented precondition
        case MapOp::SHRINK: M.shrink_to_fit(); break;
        case MapOp::MLF: M.max_load_factor(o.a / 100.f); break;
    }
    return "";
}
static void map_history(const std::vector<MapOp> &ops, unsigned cap, mc::Worker &W, int nkeys = 4) {
    std::string name = "map(" + std::to_string(cap) + ") hash " + std::to_string(HASHER) + ":";
    for (auto &o : ops) name += " " + show(o);
    W.describe(name); LIVE.clear(); LIFE_ERR.clear();
    std::string err;
    {   Map M(cap); Ref R; int stamp = 100;
        for (auto &o : ops) { if (auto e = apply(M, R, o, stamp++); err.empty()) err = e; W.transitions(); }
        if (err.empty()) err = lifetimes(2 * R.size());
        if (err.empty()) err = check_map(M, R, nkeys);
        W.outcome(mc::hash_mix(M.capacity(), M.size() * 7 + HASHER));
    }
    if (err.empty()) err = lifetimes(0);
    W.states(); W.evals();
    if (not err.empty()) W.fail(name, name + ": " + err);
}

/*----- list ---------------------------------------------------------------------------------------------------------*/
using L = doubly_linked_list<E>;
using V = std::vector<int>;
static std::string showv(const V &v) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; }
static std::string check_list(L &l, const V &v) {
    const L &c = l;
    V a, b, d, e, f; std::size_t guard = 0;
    if (l.size() != v.size() or l.empty() != v.empty()) return "size is " + std::to_string(l.size()) + " instead of " + std::to_string(v.size());
    for (auto it = l.begin(); it != l.end() and ++guard < 100; ++it) a.push_back(it->v);
    guard = 0; for (auto it = c.begin(); it != c.end() and ++guard < 100;) { auto o = it++; b.push_back((*o).v); }
    V r(v.rbegin(), v.rend());
    if (a != v or b != v) return "iteration yields " + showv(a) + " instead of " + showv(v);
    guard = 0; for (auto it = l.rbegin(); it != l.rend() and ++guard < 100; ++it) d.push_back(it->v);
    if (d != r) return "reverse iteration yields " + showv(d) + " instead of " + showv(r);
    if (not v.empty()) { guard = 0; auto it = c.cend(); do { --it; e.push_back(it->v); } while (it != c.cbegin() and ++guard < 100); if (e != r) return "backward iteration yields " + showv(e); 
        auto jt = l.rend(); guard = 0; do { auto o = jt--; (void) o; f.push_back(jt->v); } while (jt != l.rbegin() and ++guard < 100); if (f != v) return "backward reverse iteration yields " + showv(f);
        if (l.front().v != v.front() or l.back().v != v.back() or c.front().v != v.front() or c.back().v != v.back()) return "front or back"; }
    return "";
}
static L::iterator at(L &l, std::size_t p, bool from_end) {
    if (from_end) { auto it = l.end(); for (std::size_t n = l.size() - p; n; --n) --it; return it; }
    auto it = l.begin(); while (p--) ++it; return it;
}
struct ListOp { int t; int p; };
/** The op with index i; returns false if it does not apply to the current state. */
static const int NLISTOP = 26;
static bool list_op(L &l, V &v, L &l2, V &v2, int i, int stamp, std::string &err, std::string &name) {
    auto pos = [&](int p) { return p == 0 ? 0ul : p == 1 ? v.size() / 2 : v.size(); };
    auto ret = [&](L::iterator it, std::size_t p) { if (p == v.size()) { if (it != l.end()) err = "returned iterator is not the end"; } else { auto j = l.begin(); for (std::size_t k = 0; k != p and j != l.end(); ++k) ++j; if (it == l.end() or it->v != v[p] or it != j) err = "returned iterator"; } };
    switch (i) {
        case 0: name = "push_back"; l.push_back(E(stamp)); v.push_back(stamp); return true;
        case 1: { name = "push_front(const&)"; E e(stamp); l.push_front(e); v.insert(v.begin(), stamp); return true; }
        case 2: { name = "emplace_back"; if (l.emplace_back(stamp).v != stamp) err = "returned reference"; v.push_back(stamp); return true; }
        case 3: { name = "emplace_front"; if (l.emplace_front(stamp).v != stamp) err = "returned reference"; v.insert(v.begin(), stamp); return true; }
        case 4: case 5: case 6: case 7: { int p = i < 6 ? 1 : 2; bool fe = i & 1; if (v.size() < 2) return false;
            name = std::string("insert at ") + (p == 1 ? "middle" : "end") + (fe ? " found from the end" : ""); auto x = pos(p); auto it = l.insert(at(l, x, fe), E(stamp)); v.insert(v.begin() + x, stamp); ret(it, x); return true; }
        case 8: { name = "insert 3 copies at middle"; auto x = pos(1); E e(stamp); auto it = l.insert(at(l, x, false), std::size_t(3), e); v.insert(v.begin() + x, 3, stamp); ret(it, x); return true; }
        case 9: { name = "insert 0 copies"; auto x = pos(1); E e(stamp); auto it = l.insert(at(l, x, true), std::size_t(0), e); ret(it, x); return true; }
        case 10: { name = "insert range at middle"; auto x = pos(1); std::vector<E> s; s.emplace_back(stamp); s.emplace_back(stamp + 1000); s.emplace_back(stamp + 2000); auto it = l.insert(at(l, x, false), s.begin(), s.end()); int q[] = { stamp, stamp + 1000, stamp + 2000 }; v.insert(v.begin() + x, q, q + 3); ret(it, x); return true; }
        case 11: { name = "insert empty range"; auto x = pos(1); std::vector<E> s; auto it = l.insert(at(l, x, false), s.begin(), s.end()); ret(it, x); return true; }
        case 12: case 13: case 14: case 15: { int p = i - 12; if (v.empty()) return false; bool fe = p & 1; std::size_t x = p == 0 ? 0 : p == 1 ? v.size() - 1 : v.size() / 2; if (p >= 2 and v.size() < 3) return false;
            name = "erase " + std::to_string(x) + (fe ? " found from the end" : ""); L::iterator it = p == 3 ? l.erase(L::const_iterator(at(l, x, true))) : l.erase(at(l, x, fe)); v.erase(v.begin() + x); ret(it, x); return true; }
        case 16: { if (v.empty()) return false; name = "pop_back"; auto e = l.pop_back(); if (e.v != v.back()) err = "popped value"; v.pop_back(); return true; }
        case 17: { if (v.empty()) return false; name = "pop_front"; auto e = l.pop_front(); if (e.v != v.front()) err = "popped value"; v.erase(v.begin()); return true; }
        case 18: name = "reverse"; l.reverse(); std::reverse(v.begin(), v.end()); return true;
        case 19: name = "clear"; l.clear(); v.clear(); return true;
        case 20: name = "swap"; swap(l, l2); std::swap(v, v2); return true;
        case 21: name = "copy into other"; l2 = L(static_cast<const L&>(l)); v2 = v; return true;
        case 22: { name = "move out and back"; L t(std::move(l)); if (l.size() or not l.empty() or l.begin() != l.end()) err = "moved-from list is not empty"; std::string e = check_list(t, v); if (not e.empty()) err = e; l = std::move(t); return true; }
        case 23: name = "move-assign from other"; l = std::move(l2); v = std::move(v2); v2.clear(); { L t; l2 = std::move(t); } return true;
        case 24: { name = "construct from range"; L t(l.begin(), l.end()); std::string e = check_list(t, v); if (not e.empty()) err = e; swap(t, l2); v2 = v; return true; }
        case 25: { name = "insert own elements at front"; if (v.size() > 3) return false; auto it = l.insert(l.begin(), { E(stamp), E(stamp + 1000) }); int q[] = { stamp, stamp + 1000 }; v.insert(v.begin(), q, q + 2); ret(it, 0); return true; }
    }
    return false;
}

/*----- smart pointer ------------------------------------------------------------------------------------------------*/
struct Other { u64 pad = 77; virtual ~Other() = default; };
struct Base { E e; Base(int v) : e(v) { } virtual ~Base() { } };
struct Derived : Other, Base { E f; Derived(int v) : Base(v), f(v + 5) { } };
template<typename T> using P = unsharable_shared_ptr<T>;

int main(int argc, char **argv) {
    mc::Check C("C20", "model_checking", argc, argv);
    C.rule = "All histories of operations up to the stated depth per container (hash multimap: 14 operations, 4 keys, 6 hash functions including total and partial collisions, start capacities 1, 2, 4; list: 26 operations on a pair of lists; pointers: 17 operations on 4 variables), in lock-step with STL models, every element's construction and destruction tracked; plus all (hash, capacity, load factor, number of elements) for up to 200 elements; all small sorted vectors and arrays. Copying hash maps, a maximum load factor of 0 and rehash() beyond the load factor are excluded (unsupported).";
    /* hash map histories */
    const unsigned DM = C.thorough ? 6 : 5;
    u64 NM = 0, p = 1; for (unsigned d = 0; d <= DM; ++d) { NM += p; p *= MAPOPS.size(); }
    C.explore("hash map histories", NM * NHASH, [&](u64 i, mc::Worker &W) {
        HASHER = i % NHASH; i /= NHASH;
        u64 p = 1; unsigned d = 0; while (i >= p) { i -= p; p *= MAPOPS.size(); ++d; }
        std::vector<MapOp> ops; for (unsigned j = 0; j != d; ++j) { ops.push_back(MAPOPS[i % MAPOPS.size()]); i /= MAPOPS.size(); }
        for (unsigned cap : { 1u, 2u, 4u }) map_history(ops, cap, W);
    }, 2048);
    /* longer insert-only histories: growth through several capacities */
    const unsigned DI = C.thorough ? 9 : 8;
    u64 NI = 1; for (unsigned d = 0; d != DI; ++d) NI *= 4;
    C.explore("hash map insertions", NI * NHASH, [&](u64 i, mc::Worker &W) {
        HASHER = i % NHASH; i /= NHASH;
        std::vector<MapOp> ops; for (unsigned j = 0; j != DI; ++j) { ops.push_back({ j % 3 == 2 ? MapOp::NODUP : MapOp::DUP, int(i % 4) }); i /= 4; }
        map_history(ops, 16, W);
    }, 512);
    C.explore("hash map sizes", 200 * NHASH * 3 * 3 * 4, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); const int n = d.next(200); HASHER = d.next(NHASH); const unsigned cap = std::vector<unsigned>{ 1, 16, 256 }[d.next(3)]; const int ml = std::vector<int>{ 10, 85, 99 }[d.next(3)]; const unsigned kind = d.next(4);
        std::vector<MapOp> ops; ops.push_back({ MapOp::MLF, ml });
        for (int j = 0; j != n; ++j) ops.push_back({ kind == 1 ? MapOp::NODUP : MapOp::DUP, kind == 0 ? j : kind == 1 ? j % 50 : kind == 2 ? j % 3 : 0 });
        if (n % 5 == 0) ops.push_back({ MapOp::SHRINK, 0 });
        map_history(ops, cap, W, std::min(n, 12));
    }, 64);
    /* list histories */
    const unsigned DL = C.thorough ? 6 : 5;
    u64 NL = 0; p = 1; for (unsigned d = 0; d <= DL; ++d) { NL += p; p *= NLISTOP; }
    C.explore("list histories", NL, [&](u64 i, mc::Worker &W) {
        u64 p = 1; unsigned d = 0; while (i >= p) { i -= p; p *= NLISTOP; ++d; }
        LIVE.clear(); LIFE_ERR.clear();
        std::string name = "list:", err; bool applies = true;
        { L l, l2; V v, v2; int stamp = 1;
          for (unsigned j = 0; j != d and applies and err.empty(); ++j) {
              std::string n; int op = i % NLISTOP; i /= NLISTOP;
              W.describe(name + " (operation " + std::to_string(op) + ")");
              applies = list_op(l, v, l2, v2, op, stamp++, err, n); name += " " + n + ";"; W.transitions();
              W.describe(name);
          }
          if (applies) {
              if (err.empty()) err = check_list(l, v);
              if (err.empty()) err = check_list(l2, v2);
              if (err.empty()) err = lifetimes(v.size() + v2.size());
              W.states(); W.evals(); W.outcome(mc::hash_mix(v.size(), v2.size()));
          }
        }
        if (applies and err.empty()) err = lifetimes(0);
        if (applies and not err.empty()) W.fail(name, name + ": " + err);
    }, 4096);
    /* sorted vectors */
    C.explore("sorted vectors", 4 * (C.thorough ? 78125 : 15625), [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); const bool desc = d.next(2), range = d.next(2); V v; int x; while ((x = int(d.next(5))) != 0 and v.size() < 8) v.push_back(x % 4); if (d.v) return;
        std::string name = std::string("sorted_vector ") + (desc ? "descending " : "") + (range ? "range " : "") + showv(v), err; W.describe(name);
        LIVE.clear(); LIFE_ERR.clear();
        auto run = [&](auto S) {
            auto comp = [&](int a, int b) { return desc ? a > b : a < b; };
            V ref; std::vector<E> in; 
            if (range) { for (int x : v) in.emplace_back(x); S.insert(in.begin(), in.end()); ref = v; }
            else for (int x : v) { S.reserve(3); auto it = S.insert(E(x)); ref.push_back(x); if (it->v != x) err = "returned iterator"; if (S.size() != ref.size()) err = "size"; }
            std::stable_sort(ref.begin(), ref.end(), comp);
            V got; for (auto &e : S) got.push_back(e.v);
            V cgot; for (auto it = S.cbegin(); it != S.cend(); ++it) cgot.push_back(it->v);
            if (got != ref or cgot != ref) err = "contains " + showv(got) + " instead of " + showv(ref);
            if (S.empty() != ref.empty() or S.size() != ref.size()) err = "size";
            for (int k = -1; k <= 5; ++k) if (S.contains(E(k)) != bool(std::count(ref.begin(), ref.end(), k))) err = "contains(" + std::to_string(k) + ")";
        };
        if (desc) run(sorted_vector<E, std::greater<E>>()); else run(sorted_vector<E>());
        if (err.empty()) err = lifetimes(0);
        W.states(); W.evals();
        if (not err.empty()) W.fail(name, name + ": " + err);
    });
    /* arrays */
    C.explore("arrays", 7 * 7 * 12, [&](u64 i, mc::Worker &W) {
        mc::Digits d(i); const std::size_t n = d.next(7), n2 = d.next(7); const unsigned op = d.next(12);
        std::string name = "dyn_array of " + std::to_string(n) + " and " + std::to_string(n2) + " operation " + std::to_string(op), err; W.describe(name);
        LIVE.clear(); LIFE_ERR.clear();
        {
            V v, v2; for (std::size_t j = 0; j != n; ++j) v.push_back(int(j)); for (std::size_t j = 0; j != n2; ++j) v2.push_back(int(j) + (op & 1 ? 0 : 10));
            std::vector<E> src(v.begin(), v.end()), src2(v2.begin(), v2.end());
            const std::size_t base = LIVE.size();
            dyn_array<E> A(src.begin(), src.end()), B(src2.begin(), src2.end()), D(n), Z;
            if (D.size() != n or Z.size() != 0 or Z.begin() != Z.end()) err = "size";
            auto same = [&](const dyn_array<E> &X, const V &r) { if (X.size() != r.size()) return false; std::size_t j = 0; for (auto &e : X) { if (e.v != r[j] or X[j].v != r[j] or X.at(j).v != r[j] or X.data()[j].v != r[j]) return false; ++j; } return j == r.size() and std::size_t(X.cend() - X.cbegin()) == r.size(); };
            if (not same(A, v) or not same(B, v2)) err = "constructed from a range";
            if (op == 0) { dyn_array<E> X(static_cast<const dyn_array<E>&>(A)); if (not same(X, v) or not same(A, v)) err = "copy"; if (n) { X[0].v = 55; if (A[0].v == 55) err = "copy shares elements"; } }
            else if (op == 1) { dyn_array<E> X(std::move(A)); if (not same(X, v)) err = "move"; A = std::move(X); if (not same(A, v)) err = "move back"; }
            else if (op == 2) { A = std::move(B); if (not same(A, v2)) err = "move assignment"; B = dyn_array<E>(n); }
            else if (op == 3) { for (std::size_t j = 0; j != n; ++j) A[j] = E(int(j) + 40); for (auto &x : v) x += 40; if (not same(A, v)) err = "assignment"; }
            else if (op == 4) { for (std::size_t j = 0; j != n; ++j) A.at(j) = E(int(j) * 3); for (auto &x : v) x *= 3; if (not same(A, v)) err = "assignment"; }
            else if (op == 5) { for (std::size_t o : { n, n + 1, ~std::size_t(0) }) { bool t1 = false, t2 = false; try { A.at(o); } catch (m::out_of_range&) { t1 = true; } try { std::as_const(A).at(o); } catch (m::out_of_range&) { t2 = true; } if (not t1 or not t2) err = "at out of range"; } }
            else if (op == 6 or op == 7) { if ((A == B) != (v == v2) or (A != B) == (v == v2)) err = "equality"; }
            else if (op == 8 and n) { dyn_array<E> X(static_cast<const dyn_array<E>&>(A)); if (not (X == A)) err = "copy not equal"; X[n - 1].v ^= 1; if (X == A) err = "difference in last element not noticed"; X[n - 1].v ^= 1; X[0].v ^= 1; if (not (X != A)) err = "difference in first element not noticed"; }
            else if (op == 9) { std::list<E> l(src.begin(), src.end()); dyn_array<E> X(l.begin(), l.end()); if (not same(X, v)) err = "from a list"; }
            if (err.empty() and op < 9 and op != 2) err = lifetimes(base + 2 * n + n2);
        }
        if (err.empty()) err = lifetimes(0);
        W.states(); W.evals();
        if (not err.empty()) W.fail(name, name + ": " + err);
    });
    /* sharing-aware pointers: variables b1, b2 (Base), d (Derived), c (const Base) */
    const unsigned DP = C.thorough ? 6 : 5; const unsigned NPO = 18;
    u64 NP = 0; p = 1; for (unsigned d = 0; d <= DP; ++d) { NP += p; p *= NPO; }
    C.explore("pointer histories", NP, [&](u64 i, mc::Worker &W) {
        u64 p = 1; unsigned dep = 0; while (i >= p) { i -= p; p *= NPO; ++dep; }
        LIVE.clear(); LIFE_ERR.clear();
        std::string name = "pointers:", err;
        {
            P<Base> b[2]; P<Derived> d; P<const Base> c; std::shared_ptr<int> rb[2], rd, rc; int stamp = 1;
            std::unique_ptr<Base> u; std::unique_ptr<Derived> ud; int ru = -1, rud = -1; // values owned exclusively
            std::set<int*> derived; // objects that are Derived
            static const char *N[NPO] = { "b0=new Base", "b0=new Derived", "b0=make", "d=make", "b0=d", "b0=move(d)", "b1=b0", "b1=move(b0)", "c=b0", "b0.reset", "d.reset", "swap(b0,b1)", "unshare b0", "unshare d", "d=cast(b0)", "b0=as(d)", "u.reset", "drop copies" };
            for (unsigned j = 0; j != dep and err.empty(); ++j) {
                const unsigned op = i % NPO; i /= NPO; name += std::string(" ") + N[op] + ";"; W.describe(name); W.transitions();
                const int s = 10 * stamp++;
                switch (op) {
                    case 0: b[0] = P<Base>(new Base(s)); rb[0] = std::make_shared<int>(s); break;
                    case 1: b[0] = P<Base>(new Derived(s)); rb[0] = std::make_shared<int>(s); derived.insert(rb[0].get()); break;
                    case 2: b[0] = make_unsharable_shared<Base>(s); rb[0] = std::make_shared<int>(s); break;
                    case 3: d = make_unsharable_shared<Derived>(s); rd = std::make_shared<int>(s); derived.insert(rd.get()); break;
                    case 4: b[0] = d; rb[0] = rd; break;
                    case 5: b[0] = std::move(d); rb[0] = std::move(rd); break;
                    case 6: b[1] = b[0]; rb[1] = rb[0]; break;
                    case 7: b[1] = std::move(b[0]); rb[1] = std::move(rb[0]); break;
                    case 8: { P<const Base> t(b[0]); c = t; rc = rb[0]; break; }
                    case 9: b[0].reset(); rb[0].reset(); break;
                    case 10: d = P<Derived>(nullptr); rd.reset(); break;
                    case 11: std::swap(b[0], b[1]); std::swap(rb[0], rb[1]); break;
                    case 12: case 13: {
                        auto &ref = op == 12 ? rb[0] : rd; bool thrown = false;
                        try { if (op == 12) { auto x = b[0].exclusive_shared_to_unique(); if (ref) u = std::move(x); else if (x) err = "unsharing nothing yields something"; } else { auto x = d.exclusive_shared_to_unique(); if (ref) ud = std::move(x); else if (x) err = "unsharing nothing yields something"; } }
                        catch (m::invalid_state&) { thrown = true; }
                        if (thrown != (ref.use_count() > 1)) err = thrown ? "an exclusively held object cannot be unshared" : "a shared object is unshared";
                        if (not thrown and ref) { (op == 12 ? ru : rud) = *ref; ref.reset(); } break; }
                    case 14: d = m::cast<Derived>(b[0]); rd = rb[0] and derived.count(rb[0].get()) ? rb[0] : nullptr; break;
                    case 15: if (rd) { b[0] = m::as<Base>(P<Derived>(d)); rb[0] = rd; } break;
                    case 16: u.reset(); ud.reset(); ru = rud = -1; break;
                    case 17: b[1].reset(); rb[1].reset(); { P<const Base> t; c = t; } rc.reset(); break;
                }
                auto cmp = [&](auto &x, const std::shared_ptr<int> &r, const char *n) {
                    if (bool(x) != bool(r)) err = std::string(n) + (x ? " holds an object" : " holds no object");
                    else if (x and (x->e.v != *r or not LIVE.count(&x->e))) err = std::string(n) + " holds another or a destroyed object";
                    else if (x.use_count() != r.use_count()) err = std::string(n) + " has a use count of " + std::to_string(x.use_count()) + " instead of " + std::to_string(r.use_count());
                };
                if (err.empty()) cmp(b[0], rb[0], "b0"); if (err.empty()) cmp(b[1], rb[1], "b1"); if (err.empty()) cmp(d, rd, "d"); if (err.empty()) cmp(c, rc, "c");
                if (err.empty()) if ((ru != -1) != bool(u) or (u and u->e.v != ru) or (rud != -1) != bool(ud) or (ud and (ud->e.v != rud or ud->f.v != rud + 5))) err = "the unshared object is wrong";
                if (err.empty() and not LIFE_ERR.empty()) err = LIFE_ERR;
                if (err.empty()) { std::set<int*> objs; std::size_t n = 0; for (auto &r : { rb[0], rb[1], rd, rc }) if (r and objs.insert(r.get()).second) n += derived.count(r.get()) ? 2 : 1;
                    if (u) n += dynamic_cast<Derived*>(u.get()) ? 2 : 1; if (ud) n += 2; err = lifetimes(n); }
                for (auto it = derived.begin(); it != derived.end();) { bool used = false; for (auto &r : { rb[0], rb[1], rd, rc }) used = used or r.get() == *it; it = used ? std::next(it) : derived.erase(it); }
            }
        }
        if (err.empty()) err = lifetimes(0);
        W.states(); W.evals();
        if (not err.empty()) W.fail(name, name + ": " + err);
    }, 4096);
    /* ranges and views */
    C.explore("views", 64, [&](u64 n, mc::Worker &W) {
        W.describe("views of " + std::to_string(n) + " elements");
        std::vector<std::pair<int,int>> v; for (u64 i = 0; i != n; ++i) v.emplace_back(int(i), int(2 * i));
        using It = std::vector<std::pair<int,int>>::iterator;
        range<It> r(v.begin(), v.end()); std::string err;
        if (r.size() != n or r.empty() != (n == 0)) err = "size";
        int i = 0; for (auto &p : r) if (p.first != i++) err = "range"; 
        for (auto &p : r.reverse()) if (p.first != --i) err = "reversed range";
        auto V = view(r, [](It it) -> int& { return it->second; });
        i = 0; for (int &x : V) { if (x != 2 * i++) err = "view"; x += 1; }
        if (u64(i) != n or V.end() - V.begin() != std::ptrdiff_t(n)) err = "view size";
        auto b = V.begin(); b += int(n); if (b != V.end()) err = "view advance"; b -= int(n); if (not (b == V.begin())) err = "view retreat";
        for (auto &p : v) if (p.second != 2 * p.first + 1) err = "view write";
        W.states(); W.evals(); if (not err.empty()) W.fail("views " + err, "view of " + std::to_string(n) + " elements: " + err);
    });
    return C.finish();
}
