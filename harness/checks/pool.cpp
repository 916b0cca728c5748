/* PODPool / Pool / string pools: every sequence of handle operations, and every schedule of small client programs. */
#include "common/mc.hpp"
#include "common/mc_rt.hpp"
#include <mutable/util/Pool.hpp>
#include <atomic>
#include <memory>
#include <set>
#include <sstream>
#include <thread>

using namespace m; using u64 = uint64_t;
#define NOINSTR __attribute__((no_sanitize("thread"), noinline))

namespace {
/*----- the pooled types -----------------------------------------------------------------------------------------------*/
std::atomic<long> LIVE{0}; // instances alive
NOINSTR void born() { LIVE.fetch_add(1, std::memory_order_relaxed); }
NOINSTR void died() { LIVE.fetch_sub(1, std::memory_order_relaxed); }
struct Obj { // a tracked value
    int v; unsigned magic = 0xa11fe;
    Obj(int v) : v(v) { born(); }
    Obj(const Obj &o) : v(o.v), magic(o.magic) { born(); }
    Obj(Obj &&o) : v(o.v), magic(o.magic) { born(); }
    ~Obj() { magic = 0xdead; died(); }
    bool operator==(const Obj &o) const { return v == o.v; }
};
struct ObjHash { u64 operator()(const Obj &o) const { return o.v % 2; } }; // with collisions
struct Base { int v; Base(int v) : v(v) { born(); } Base(const Base &o) : v(o.v) { born(); } Base(Base &&o) : v(o.v) { born(); o.v = -7; } virtual ~Base() { v = -1; died(); } virtual int kind() const { return 0; } bool operator==(const Base &o) const { return kind() == o.kind() and v == o.v; } };
struct D1 : Base { using Base::Base; D1(D1&&) = default; D1(const D1&) = default; int kind() const override { return 1; } };
struct D2 : Base { using Base::Base; D2(D2&&) = default; D2(const D2&) = default; int kind() const override { return 2; } };
struct BaseHash { u64 operator()(const Base &o) const { return o.v; } };

/* Traits: values 0..2. */
template<bool TS> struct Ints { using pool = PODPool<int, std::hash<int>, std::equal_to<int>, std::identity, TS>; using H = typename pool::proxy_type; using O = typename pool::proxy_optional_type; static constexpr const char *name = TS ? "ThreadSafePODPool<int>" : "PODPool<int>";
    static H intern(pool &p, int v) { int x = v * 17; H h = p(x); x = -1; return h; } static std::string wrong(const H &h, int v) { return *h == v * 17 ? "" : "value " + std::to_string(*h); } };
template<bool TS> struct Objs { using pool = PODPool<Obj, ObjHash, std::equal_to<Obj>, std::identity, TS>; using H = typename pool::proxy_type; using O = typename pool::proxy_optional_type; static constexpr const char *name = TS ? "ThreadSafePODPool<object>" : "PODPool<object>";
    static H intern(pool &p, int v) { if (v == 1) { Obj o(v); return p(o); } return p(Obj(v)); } static std::string wrong(const H &h, int v) { return h->magic != 0xa11fe ? "a destroyed object" : h->v != v ? "value " + std::to_string(h->v) : ""; } };
template<bool TS> struct Strings { using pool = m::detail::_StringPool<TS>; using H = typename pool::proxy_type; using O = typename pool::proxy_optional_type; static constexpr const char *name = TS ? "ThreadSafeStringPool" : "StringPool";
    static const char *text(int v) { return v == 0 ? "" : v == 1 ? "ab" : "abc"; }
    static H intern(pool &p, int v) { // every time by another kind of source, which is overwritten afterwards
        char buf[8]; strcpy(buf, text(v)); strcat(buf, "XY"); const size_t n = strlen(text(v)); static thread_local unsigned which = 0;
        if (which++ % 2) { H h = p(std::string_view(buf, n)); memset(buf, '#', sizeof buf); return h; }
        buf[n] = 0; H h = p((const char*) buf); memset(buf, '#', sizeof buf); return h;
    }
    static std::string wrong(const H &h, int v) { return strcmp(*h, text(v)) == 0 ? "" : std::string("text '") + *h + "'"; } };
template<bool TS> struct Classes { using pool = Pool<Base, BaseHash, std::equal_to<Base>, TS>; using H = Pooled<Base, pool, false>; using O = Pooled<Base, pool, true>; static constexpr const char *name = TS ? "ThreadSafePool" : "Pool";
    static H intern(pool &p, int v) { if (v == 0) return p(D1(5)); if (v == 1) return p(D2(5)); return p(D1(6)); } // two classes, equal members
    static std::string wrong(const H &h, int v) {
        const int k = v == 1 ? 2 : 1, w = v == 2 ? 6 : 5; if (h->v != w or h->kind() != k) return "another object";
        if (k == 1) { auto d = h.template as<D1>(); if (d->v != w or not (d == h)) return "as<D1>() differs"; typename Classes::H up = d; if (not (up == h)) return "the base of as<D1>() differs"; } else if (auto d = h.template as<D2>(); d->v != w) return "as<D2>() differs";
        return "";
    } };

/*----- sequential histories -------------------------------------------------------------------------------------------*/
enum K { Intern, Drop, CopyC, MoveC, CopyA, MoveA, Swap, OptCopy, OptMove, FromOptCopy, FromOptMove, OptClear, OptAssign, OptMoveA, NotNone, NK };
const char *KN[] = { "intern", "drop", "copy-construct", "move-construct", "copy-assign", "move-assign", "swap", "optional from handle", "optional from moved handle", "handle from optional", "handle from moved optional", "clear optional", "assign optional", "move-assign optional", "assert_not_none" };
struct Op { K k; int a, b; };
constexpr int N = 3, NO = 2, NV = 3;
std::vector<Op> all_ops() {
    std::vector<Op> o;
    for (int a = 0; a != N; ++a) {
        for (int v = 0; v != NV; ++v) o.push_back({ Intern, a, v });
        o.push_back({ Drop, a, 0 });
        for (int b = 0; b != N; ++b) { if (a != b) { o.push_back({ CopyC, a, b }); o.push_back({ MoveC, a, b }); } if (a < b) o.push_back({ Swap, a, b }); o.push_back({ CopyA, a, b }); o.push_back({ MoveA, a, b }); }
        for (int b = 0; b != NO; ++b) { o.push_back({ OptCopy, a, b }); o.push_back({ OptMove, a, b }); o.push_back({ FromOptCopy, b, a }); o.push_back({ FromOptMove, b, a }); o.push_back({ NotNone, b, a }); }
    }
    for (int b = 0; b != NO; ++b) { o.push_back({ OptClear, b, 0 }); for (int c = 0; c != NO; ++c) { o.push_back({ OptAssign, b, c }); o.push_back({ OptMoveA, b, c }); } }
    return o;
}
constexpr int ABSENT = -2, EMPTY = -1; // EMPTY: moved-from handle, or an optional without value
struct Model { int h[N] = { ABSENT, ABSENT, ABSENT }, o[NO] = { EMPTY, EMPTY }; std::set<int> ever; };
bool enabled(const Op &p, const Model &m) {
    switch (p.k) {
        case Intern: return true;                              // into an absent or present slot
        case Drop: return m.h[p.a] != ABSENT;
        case CopyC: return m.h[p.a] >= 0 and m.h[p.b] == ABSENT;
        case MoveC: return m.h[p.a] >= 0 and m.h[p.b] == ABSENT;
        case CopyA: case MoveA: return m.h[p.a] >= 0 and m.h[p.b] != ABSENT;
        case Swap: return m.h[p.a] != ABSENT and m.h[p.b] != ABSENT;
        case OptCopy: case OptMove: return m.h[p.a] >= 0;
        case FromOptCopy: case FromOptMove: return m.o[p.a] >= 0;
        case NotNone: return m.h[p.b] == ABSENT;
        default: return true;
    }
}
void step(const Op &p, Model &m) { // the model
    switch (p.k) {
        case Intern: m.h[p.a] = p.b; m.ever.insert(p.b); break;
        case Drop: m.h[p.a] = ABSENT; break;
        case CopyC: case CopyA: m.h[p.b] = m.h[p.a]; break;
        case MoveC: case MoveA: { int v = m.h[p.a]; m.h[p.a] = EMPTY; m.h[p.b] = v; break; }
        case Swap: std::swap(m.h[p.a], m.h[p.b]); break;
        case OptCopy: m.o[p.b] = m.h[p.a]; break;
        case OptMove: m.o[p.b] = m.h[p.a]; m.h[p.a] = EMPTY; break;
        case FromOptCopy: m.h[p.b] = m.o[p.a]; break;
        case FromOptMove: m.h[p.b] = m.o[p.a]; m.o[p.a] = EMPTY; break;
        case OptClear: m.o[p.a] = EMPTY; break;
        case OptAssign: m.o[p.b] = m.o[p.a]; break;
        case OptMoveA: { int v = m.o[p.a]; m.o[p.a] = EMPTY; m.o[p.b] = v; break; }
        case NotNone: if (m.o[p.a] >= 0) m.h[p.b] = m.o[p.a]; break;
        default: break;
    }
}
template<typename T> struct Seq {
    using P = typename T::pool; using H = typename T::H; using O = typename T::O;
    struct Real { P pool; std::unique_ptr<H> h[N]; O o[NO]; const void *addr[NV] = {}; Real() : pool(1) { } };
    static std::string apply(const Op &p, const Model &before, Real &r) {
        auto put = [&](int i, H x) { if (r.h[i]) *r.h[i] = std::move(x); else r.h[i] = std::make_unique<H>(std::move(x)); };
        switch (p.k) {
            case Intern: put(p.a, T::intern(r.pool, p.b)); break;
            case Drop: r.h[p.a].reset(); break;
            case CopyC: r.h[p.b] = std::make_unique<H>(*r.h[p.a]); break;
            case MoveC: r.h[p.b] = std::make_unique<H>(std::move(*r.h[p.a])); break;
            case CopyA: *r.h[p.b] = *r.h[p.a]; break;
            case MoveA: *r.h[p.b] = std::move(*r.h[p.a]); break;
            case Swap: { using std::swap; swap(*r.h[p.a], *r.h[p.b]); break; }
            case OptCopy: r.o[p.b] = *r.h[p.a]; break;
            case OptMove: r.o[p.b] = std::move(*r.h[p.a]); break;
            case FromOptCopy: { H x(r.o[p.a]); put(p.b, std::move(x)); break; }
            case FromOptMove: { H x(std::move(r.o[p.a])); put(p.b, std::move(x)); break; }
            case OptClear: r.o[p.a] = O(); break;
            case OptAssign: r.o[p.b] = r.o[p.a]; break;
            case OptMoveA: r.o[p.b] = std::move(r.o[p.a]); break;
            case NotNone:
                try { H x = r.o[p.a].assert_not_none(); if (before.o[p.a] < 0) return "assert_not_none() of an empty optional does not throw"; put(p.b, std::move(x)); }
                catch (m::invalid_argument&) { if (before.o[p.a] >= 0) return "assert_not_none() of an optional with a value throws"; }
                break;
            default: break;
        }
        return "";
    }
    static std::string check(const Model &m, Real &r) {
        unsigned refs[NV] = {}; for (int v : m.h) if (v >= 0) ++refs[v]; for (int v : m.o) if (v >= 0) ++refs[v];
        if (r.pool.size() != m.ever.size()) return "the pool has " + std::to_string(r.pool.size()) + " objects instead of " + std::to_string(m.ever.size());
        if (size_t(std::distance(r.pool.cbegin(), r.pool.cend())) != m.ever.size()) return "iteration over the pool";
        auto one = [&](const H &h, int v) -> std::string {
            if (auto e = T::wrong(h, v); not e.empty()) return "a handle of value " + std::to_string(v) + " shows " + e;
            const void *a = (const void*) &*h; if (not r.addr[v]) r.addr[v] = a; if (r.addr[v] != a) return "equal values have two objects";
            for (int w = 0; w != NV; ++w) if (w != v and r.addr[w] == a) return "different values share an object";
            return "";
        };
        for (int i = 0; i != N; ++i) {
            if ((m.h[i] != ABSENT) != bool(r.h[i])) return "harness";
            if (m.h[i] == EMPTY) { if (r.h[i]->count() != 0) return "a moved-from handle has references"; continue; }
            if (m.h[i] < 0) continue;
            if (r.h[i]->count() != refs[m.h[i]]) return "the count is " + std::to_string(r.h[i]->count()) + " with " + std::to_string(refs[m.h[i]]) + " references";
            if (auto e = one(*r.h[i], m.h[i]); not e.empty()) return e;
            for (int j = 0; j != N; ++j) if (m.h[j] >= 0) { const bool e = m.h[i] == m.h[j]; if ((*r.h[i] == *r.h[j]) != e or (*r.h[i] != *r.h[j]) == e) return "comparison of handles"; if (e and std::hash<H>{}(*r.h[i]) != std::hash<H>{}(*r.h[j])) return "hashes of equal handles differ"; }
            for (int j = 0; j != NO; ++j) { const bool e = m.h[i] == m.o[j]; if ((*r.h[i] == r.o[j]) != e or (r.o[j] != *r.h[i]) == e) return "comparison of a handle and an optional"; }
        }
        for (int j = 0; j != NO; ++j) {
            if (r.o[j].has_value() != (m.o[j] >= 0)) return "has_value() is wrong";
            if (r.o[j].count() != (m.o[j] >= 0 ? refs[m.o[j]] : 0)) return "the count of an optional is wrong";
            if (m.o[j] >= 0) { if (auto e = one(r.o[j].assert_not_none(), m.o[j]); not e.empty()) return e; }
        }
        return "";
    }
    static void run(mc::Worker &W, std::vector<Op> &seq, unsigned depth) {
        static const auto ops = all_ops();
        std::string text, e; Model m;
        const long live = LIVE;
        {
            Real r;
            for (size_t i = 0; i != seq.size(); ++i) {
                auto &o = seq[i]; text += (i ? "; " : "") + std::string(KN[o.k]) + " " + std::to_string(o.a) + " " + std::to_string(o.b);
                W.describe(std::string(T::name) + " history :: " + text);
                e = apply(o, m, r); step(o, m);
                if (e.empty() and i + 1 == seq.size()) e = check(m, r);
                if (not e.empty()) { W.fail(std::string(T::name) + ": " + e, text); return; }
            }
        }
        if (LIVE != live) { W.fail(std::string(T::name) + ": objects destroyed other than once", text + ": " + std::to_string(LIVE - live) + " instances too many"); return; }
        W.states(); W.transitions(); W.evals();
        { std::string st = T::name; for (int v : m.h) st += char('3' + v); for (int v : m.o) st += char('3' + v); W.outcome(st); }
        if (seq.size() >= depth) return;
        for (auto &o : ops) { if (not enabled(o, m)) continue; seq.push_back(o); run(W, seq, depth); seq.pop_back(); }
    }
    static void phase(mc::Check &C, unsigned depth) {
        static const auto ops = all_ops();
        C.explore((std::string(T::name) + " histories").c_str(), ops.size() * ops.size(), [depth](u64 i, mc::Worker &W) {
            mc::Digits d(i); Model m; std::vector<Op> seq; for (int k = 0; k != 2; ++k) { auto o = ops[d.next(ops.size())]; if (not enabled(o, m)) return; step(o, m); seq.push_back(o); }
            run(W, seq, depth);
        }, 8);
        /* many values: objects keep their place while the table grows */
        C.explore((std::string(T::name) + " growth").c_str(), 12, [](u64 i, mc::Worker &W) {
            using PI = PODPool<int, std::hash<int>, std::equal_to<int>, std::identity, T::pool::is_thread_safe>; using PS = m::detail::_StringPool<T::pool::is_thread_safe>;
            const unsigned n = 1u << i; W.describe("growth :: " + std::to_string(n)); W.states(n); W.evals(); W.transitions(n);
            PI p(i % 3); PS s; { std::vector<typename PI::proxy_type> h; std::vector<const int*> a; std::vector<typename PS::proxy_type> g; std::vector<const char*> b;
            for (unsigned k = 0; k != n; ++k) { h.push_back(p(int(k * 7))); a.push_back(&*h.back()); g.push_back(s(std::to_string(k).c_str())); b.push_back(*g.back()); }
            if (p.size() != n or s.size() != n) return W.fail("growth: size", std::to_string(n));
            for (unsigned k = 0; k != n; ++k) if (*h[k] != int(k * 7) or &*h[k] != a[k] or &*p(int(k * 7)) != a[k] or *g[k] != b[k] or b[k] != std::to_string(k) or *s(std::string_view(b[k])) != b[k]) return W.fail("growth: objects moved", std::to_string(n) + " values: " + std::to_string(k));
            if (p.size() != n or s.size() != n) return W.fail("growth: size", std::to_string(n) + " after looking up"); }
        });
    }
};

/*----- schedules ------------------------------------------------------------------------------------------------------*/
/* What a client does; two values x (0) and y (1). */
enum COp { IX, IY, IXX, IXY, IYX, IXDX, SHARE, NCOPS };
const char *CN[] = { "x", "y", "x;x", "x;y", "y;x", "x;drop;x", "copy given handle" };
template<typename T> void schedule(mc::Worker &W, const std::vector<COp> &ops, bool pre, unsigned bound) {
    using P = typename T::pool; using H = typename T::H; using O = typename T::O;
    std::string name = std::string(T::name) + (pre ? " with x" : ""); for (auto o : ops) { name += " | "; name += CN[o]; }
    rt::Options opt; opt.bound = bound; W.describe(name);
    auto st = rt::explore(W, name, [&]() {
        auto p = std::make_unique<P>();
        std::vector<std::vector<std::pair<int, H>>> got(ops.size()); std::vector<std::thread> t; O given; bool x = pre, y = false;
        for (auto o : ops) { x |= o != IY and o != SHARE; y |= o == IY or o == IXY or o == IYX; }
        if (pre) given = T::intern(*p, 0);
        for (auto &g : got) g.reserve(4);
        for (unsigned i = 0; i != ops.size(); ++i) t.emplace_back([&, i]() {
            auto get = [&](int v) { H h = T::intern(*p, v); if (auto e = T::wrong(h, v); not e.empty()) rt::fail("a client that interned value " + std::to_string(v) + " sees " + e); if (h.count() == 0) rt::fail("the count of a referenced object is 0"); got[i].emplace_back(v, std::move(h)); };
            switch (ops[i]) {
                case IX: get(0); break; case IY: get(1); break; case IXX: get(0); get(0); break; case IXY: get(0); get(1); break; case IYX: get(1); get(0); break;
                case IXDX: get(0); got[i].clear(); get(0); break;
                case SHARE: if (given.has_value()) { H h = given.assert_not_none(); H k = h; { H l = k; } if (not (k == h)) rt::fail("copies of a handle differ"); if (auto e = T::wrong(k, 0); not e.empty()) rt::fail("the copy of a handle shows " + e); got[i].emplace_back(0, std::move(k)); } break;
                default: break;
            }
            rt::point();
        });
        for (auto &z : t) z.join();
        const H *of[2] = {}; unsigned refs[2] = {}; if (pre) refs[0] = 1;
        for (auto &g : got) for (auto &[v, h] : g) { ++refs[v]; if (auto e = T::wrong(h, v); not e.empty()) rt::fail("after all clients a handle of value " + std::to_string(v) + " shows " + e); if (of[v] and not (*of[v] == h)) rt::fail("equal values interned concurrently have two objects"); of[v] = &h; }
        if (pre and of[0] and not (given == *of[0])) rt::fail("a value interned before and one interned concurrently have two objects");
        if (of[0] and of[1] and *of[0] == *of[1]) rt::fail("different values share an object");
        if (p->size() != size_t(x) + size_t(y)) rt::fail("the pool has " + std::to_string(p->size()) + " objects instead of " + std::to_string(x + y));
        for (int v = 0; v != 2; ++v) if (of[v] and of[v]->count() != refs[v]) rt::fail("the count is " + std::to_string(of[v]->count()) + " with " + std::to_string(refs[v]) + " references");
        { H again = T::intern(*p, 0); if (of[0] and not (again == *of[0])) rt::fail("a value interned afterwards has another object"); }
        std::string obs; for (auto &g : got) obs += std::to_string(g.size()); rt::observe(obs);
        got.clear(); given = O(); p.reset();
        if (LIVE.load() != 0) rt::fail(std::to_string(LIVE.load()) + " instances are left after the pool is gone");
    }, opt);
    W.evals(st.execs); if (st.capped) W.count(0);
    if (W.index() % 41 == 3) W.sample(name + ": " + std::to_string(st.execs) + " schedules, bound " + std::to_string(bound));
}
void dispatch(mc::Worker &W, int which, const std::vector<COp> &ops, bool pre, unsigned bound) {
    switch (which) { case 0: return schedule<Ints<true>>(W, ops, pre, bound); case 1: return schedule<Objs<true>>(W, ops, pre, bound); case 2: return schedule<Strings<true>>(W, ops, pre, bound); default: return schedule<Classes<true>>(W, ops, pre, bound); }
}
}

int main(int argc, char **argv)
{
    mc::Check C("C17", "model_checking", argc, argv);
    C.rule = "all schedules with at most the stated number of deviations of every multiset of client programs per thread-safe pool; all sequences of operations on three handles and two optional handles for each of eight pools; an outcome is a state of all handles";
    C.counter_names = { "capped_scenarios" };
    C.case_limit = 300;
    C.assumptions = { "interleavings are sequentially consistent; weaker memory orders are covered by the race detector only", "pools never release single objects while they live (as documented by a TODO in the code)" };
    const bool T = C.thorough;
    struct Sc { int which; std::vector<COp> ops; bool pre; };
    std::vector<Sc> S2, S3;
    for (int w = 0; w != 4; ++w) for (int pre = 0; pre != 2; ++pre) {
        const int n = pre ? NCOPS : NCOPS - 1;
        for (int a = 0; a != n; ++a) for (int b = a; b != n; ++b) { S2.push_back({ w, { COp(a), COp(b) }, bool(pre) }); for (int c = b; c != n; ++c) if (T or (w >= 2 and not pre)) S3.push_back({ w, { COp(a), COp(b), COp(c) }, bool(pre) }); }
    }
    auto phase = [&](const char *n, auto &S, unsigned bound) { C.explore(n, S.size(), [&, bound](u64 i, mc::Worker &W) { dispatch(W, S[i].which, S[i].ops, S[i].pre, bound); }, 1); };
    phase("two-clients", S2, T ? 4 : 2);
    phase("three-clients", S3, T ? 2 : 1);
    const unsigned depth = T ? 5 : 4;
    Seq<Ints<false>>::phase(C, depth); Seq<Objs<false>>::phase(C, depth); Seq<Strings<false>>::phase(C, depth); Seq<Classes<false>>::phase(C, depth);
    Seq<Ints<true>>::phase(C, depth); Seq<Objs<true>>::phase(C, depth); Seq<Strings<true>>::phase(C, depth); Seq<Classes<true>>::phase(C, depth);
    return C.finish();
}
