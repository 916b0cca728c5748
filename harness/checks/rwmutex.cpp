/* reader_writer_mutex / reader_writer_lock: every schedule of small client programs. */
#include "common/mc.hpp"
#include "common/mc_rt.hpp"
#include <mutable/util/reader_writer_lock.hpp>
#include <thread>
#include <memory>

using namespace m;

/* What a client thread does. */
enum Op { R, W_, U, TR, TW, TU, RR, WW, NOPS };
static const char *OPN[] = { "read", "write", "upgrade", "try_read", "try_write", "try_read+upgrade", "read;read", "write;write" };

namespace {
struct Shared {
    reader_writer_mutex mx;
    int readers = 0, writers = 0; // only touched inside an uninstrumented accessor? no: plain, guarded by hand-over of the scheduler
    int data = 0;                 // protected datum: the race detector watches it
};
/* The bookkeeping of who is inside is done without instrumentation, since it deliberately is not synchronised. */
#define NOINSTR __attribute__((no_sanitize("thread"), noinline))
NOINSTR void enter_r(Shared &s) { if (s.writers) rt::fail("a reader is admitted while a writer is active"); ++s.readers; }
NOINSTR void leave_r(Shared &s) { --s.readers; }
NOINSTR void enter_w(Shared &s) { if (s.writers) rt::fail("two writers are active"); if (s.readers) rt::fail("a writer is admitted while a reader is active"); ++s.writers; }
NOINSTR void leave_w(Shared &s) { --s.writers; }
NOINSTR void r2w(Shared &s) { --s.readers; if (s.writers) rt::fail("two writers are active"); if (s.readers) rt::fail("an upgraded writer is admitted while a reader is active"); ++s.writers; }

void reading(Shared &s) { enter_r(s); volatile int x = s.data; (void) x; rt::point(); x = s.data; leave_r(s); }
void writing(Shared &s) { enter_w(s); int x = s.data; rt::point(); s.data = x + 1; leave_w(s); }

/* Through the mutex itself. */
void client_raw(Shared &s, Op op, std::string &obs) {
    switch (op) {
        case RR: client_raw(s, R, obs); client_raw(s, R, obs); break;
        case WW: client_raw(s, W_, obs); client_raw(s, W_, obs); break;
        case R: s.mx.lock_read(); reading(s); s.mx.unlock_read(); obs += 'r'; break;
        case W_: s.mx.lock_write(); writing(s); s.mx.unlock_write(); obs += 'w'; break;
        case TR: if (s.mx.try_lock_read()) { reading(s); s.mx.unlock_read(); obs += 't'; } else obs += '-'; break;
        case TW: if (s.mx.try_lock_write()) { writing(s); s.mx.unlock_write(); obs += 'T'; } else obs += '-'; break;
        case U: case TU:
            if (op == TU) { if (not s.mx.try_lock_read()) { obs += '-'; return; } } else s.mx.lock_read();
            enter_r(s); { volatile int x = s.data; (void) x; }
            { int before = s.data;
            if (s.mx.upgrade()) {
                r2w(s); if (s.data != before) rt::fail("the datum changed between holding the read lock and holding the upgraded write lock");
                int x = s.data; rt::point(); s.data = x + 1; leave_w(s); s.mx.unlock_write(); obs += 'U';
            } else { // another upgrade is pending, and cannot complete before this read lock is given back
                if (s.mx.try_lock_read()) rt::fail("a further reader is admitted while an upgrade is pending");
                leave_r(s); s.mx.unlock_read(); obs += 'u'; } }
            break;
        default: break;
    }
}
/* Through the scoped reader_writer_lock. */
void client_lock(Shared &s, Op op, std::string &obs) {
    switch (op) {
        case RR: client_lock(s, R, obs); client_lock(s, R, obs); break;
        case WW: client_lock(s, W_, obs); client_lock(s, W_, obs); break;
        case R: case TR: { reader_writer_lock l(s.mx); l.lock_read(); if (not l.owns_read_lock() or l.owns_write_lock()) rt::fail("ownership flags wrong after lock_read"); reading(s); obs += 'r'; break; }
        case W_: case TW: { reader_writer_lock l(s.mx); l.lock_write(); if (not l.owns_write_lock() or l.owns_read_lock()) rt::fail("ownership flags wrong after lock_write"); writing(s); obs += 'w'; break; }
        case U: case TU: {
            reader_writer_lock l(s.mx); l.lock_read(); enter_r(s); int before = s.data;
            leave_r(s); // on failure the lock gives the read lock back by itself
            if (l.upgrade()) { enter_w(s); if (s.data != before) rt::fail("the datum changed between holding the read lock and holding the upgraded write lock"); int x = s.data; rt::point(); s.data = x + 1; leave_w(s); obs += 'U'; if (not l.owns_write_lock()) rt::fail("no ownership after upgrade"); }
            else { if (l.owns_read_lock() or l.owns_write_lock()) rt::fail("lock still owned after failed upgrade"); obs += 'u'; }
            break;
        }
        default: break;
    }
}
/* Through read_lock / write_lock / upgrade_lock. */
void client_scoped(Shared &s, Op op, std::string &obs) {
    switch (op) {
        case RR: client_scoped(s, R, obs); client_scoped(s, R, obs); break;
        case WW: client_scoped(s, W_, obs); client_scoped(s, W_, obs); break;
        case R: { read_lock l(s.mx); reading(s); obs += 'r'; break; }
        case TR: { read_lock l(s.mx, std::defer_lock); if (l.owns_lock()) rt::fail("deferred lock is owned"); l.lock(); reading(s); l.unlock(); l.lock(); reading(s); obs += 'r'; break; }
        case W_: { write_lock l(s.mx); writing(s); obs += 'w'; break; }
        case TW: { write_lock l(s.mx, std::defer_lock); l.lock(); writing(s); l.unlock(); l.lock(); write_lock k(std::move(l)); if (l.owns_lock() or not k.owns_lock()) rt::fail("ownership not moved"); writing(s); obs += 'w'; break; }
        case U: case TU: {
            upgrade_lock l(s.mx); enter_r(s); int before = s.data; leave_r(s);
            auto w = l.upgrade();
            if (w.owns_lock()) { enter_w(s); if (l.owns_read_lock()) rt::fail("read lock still owned after upgrade"); if (s.data != before) rt::fail("the datum changed between holding the read lock and holding the upgraded write lock"); int x = s.data; rt::point(); s.data = x + 1; leave_w(s); obs += 'U'; }
            else { if (op == U) { if (l.owns_read_lock()) l.unlock(); } else { if (l.owns_read_lock()) rt::fail("read lock not given up after failed upgrade"); } obs += 'u'; }
            break;
        }
        default: break;
    }
}
using client_fn = void (*)(Shared&, Op, std::string&);
const client_fn CLIENTS[] = { client_raw, client_lock, client_scoped };
const char *CN[] = { "mutex", "reader_writer_lock", "scoped" };

void scenario(mc::Worker &W, int api, const std::vector<Op> &ops, unsigned bound) {
    std::string name = CN[api];
    for (auto o : ops) { name += " | "; name += OPN[o]; }
    rt::Options o; o.bound = bound;
    W.describe(name);
    auto st = rt::explore(W, name, [&]() {
        auto s = std::make_unique<Shared>();
        std::vector<std::thread> t; std::vector<std::string> obs(ops.size());
        unsigned expect = 0;
        for (unsigned i = 0; i != ops.size(); ++i) t.emplace_back([&, i]() { CLIENTS[api](*s, ops[i], obs[i]); });
        for (auto &x : t) x.join();
        for (auto &x : obs) for (char c : x) expect += c == 'w' or c == 'T' or c == 'U';
        if (api == 2) { expect = 0; for (unsigned i = 0; i != ops.size(); ++i) for (char c : obs[i]) expect += c == 'U' ? 1 : c == 'w' ? (ops[i] == TW ? 2 : 1) : 0; }
        if (s->data != int(expect)) rt::fail("lost update: " + std::to_string(expect) + " writes were made, the datum shows " + std::to_string(s->data));
        /* afterwards the mutex is free */
        if (not s->mx.try_lock_write()) rt::fail("the write lock is not available after all clients left"); 
        if (s->mx.try_lock_read()) rt::fail("a read lock is granted while the write lock is held");
        if (s->mx.try_lock_write()) rt::fail("a second write lock is granted");
        s->mx.unlock_write();
        if (not s->mx.try_lock_read()) rt::fail("a read lock is not available after all clients left");
        if (not s->mx.try_lock_read()) rt::fail("a second read lock is not granted");
        if (s->mx.try_lock_write()) rt::fail("the write lock is granted while read locks are held");
        s->mx.unlock_read(); s->mx.unlock_read();
        std::string all; for (auto &x : obs) all += x + "/";
        rt::observe(all);
    }, o);
    W.evals(st.execs);
    if (st.capped) W.count(0);
    W.count(1, st.outcomes);
    if (W.index() % 41 == 3) W.sample(name + ": " + std::to_string(st.execs) + " schedules, " + std::to_string(st.outcomes) + " outcomes, bound " + std::to_string(bound));
}

/*----- lock handles: every sequence of operations on up to three handles and two mutexes, without contention ----------*/
template<typename H> constexpr int KIND = std::is_same_v<H, reader_writer_lock> ? 0 : std::is_same_v<H, read_lock> ? 1 : std::is_same_v<H, write_lock> ? 2 : 3;
template<typename H> struct Handles
{
    static constexpr int N = 3;
    struct M { bool exists = false; int mx = 0; char held = 0; }; // held: 0, 'r', 'w'
    struct Real { reader_writer_mutex mx[2]; std::unique_ptr<H> h[N]; std::unique_ptr<write_lock> up; };
    struct Op_ { int kind, a, b; };
    static std::vector<Op_> all_ops() {
        std::vector<Op_> o;
        for (int a = 0; a != N; ++a) {
            for (int k = 0; k != 2; ++k) { o.push_back({ 0, a, k }); if (KIND<H> != 0) o.push_back({ 1, a, k }); }
            for (int k = 2; k != 7; ++k) o.push_back({ k, a, 0 });
            for (int b = 0; b != N; ++b) if (a != b) { o.push_back({ 7, a, b }); o.push_back({ 8, a, b }); }
        }
        return o;
    }
    static std::string show(const Op_ &o) {
        static const char *n[] = { "create deferred", "create locking", "lock read", "lock write", "unlock", "destroy", "upgrade", "move-construct", "move-assign" };
        return std::string(n[o.kind]) + " " + std::to_string(o.a) + (o.kind < 2 or o.kind > 6 ? " " + std::to_string(o.b) : "");
    }
    static int readers(const M *m, int mx) { int r = 0; for (int i = 0; i != N; ++i) r += m[i].exists and m[i].mx == mx and m[i].held == 'r'; return r; }
    static int writers(const M *m, int mx) { int r = 0; for (int i = 0; i != N; ++i) r += m[i].exists and m[i].mx == mx and m[i].held == 'w'; return r; }
    static bool can_read(const M *m, int mx) { return writers(m, mx) == 0; }
    static bool can_write(const M *m, int mx) { return writers(m, mx) + readers(m, mx) == 0; }
    static bool owns(H &h, char what) {
        if constexpr (KIND<H> == 0) return what == 'r' ? h.owns_read_lock() : h.owns_write_lock();
        else if constexpr (KIND<H> == 1) return what == 'r' and h.owns_lock();
        else if constexpr (KIND<H> == 2) return what == 'w' and h.owns_lock();
        else return what == 'r' and h.owns_read_lock();
    }
    static bool enabled(const Op_ &o, const M *m) {
        const M &x = m[o.a]; constexpr int K = KIND<H>;
        switch (o.kind) {
            case 0: return not x.exists;
            case 1: return not x.exists and (K == 2 ? can_write(m, o.b) : can_read(m, o.b));
            case 2: return x.exists and x.mx >= 0 and not x.held and K != 2 and can_read(m, x.mx);
            case 3: return x.exists and x.mx >= 0 and not x.held and (K == 0 or K == 2) and can_write(m, x.mx);
            case 4: return x.exists and x.held;
            case 5: return x.exists;
            case 6: return x.exists and x.held == 'r' and (K == 0 or K == 3) and readers(m, x.mx) == 1;
            case 7: return x.exists and x.mx >= 0 and not m[o.b].exists;
            default: return x.exists and x.mx >= 0 and m[o.b].exists;
        }
    }
    /** Performs the operation on the real handles and the model; returns what is wrong. */
    static std::string apply(const Op_ &o, M *m, Real &r) {
        M &x = m[o.a]; constexpr int K = KIND<H>; auto &h = r.h[o.a];
        switch (o.kind) {
            case 0: if constexpr (K == 0) h = std::make_unique<H>(r.mx[o.b]); else h = std::make_unique<H>(r.mx[o.b], std::defer_lock); x = { true, o.b, 0 }; break;
            case 1: if constexpr (K != 0) { h = std::make_unique<H>(r.mx[o.b]); x = { true, o.b, K == 2 ? 'w' : 'r' }; } break;
            case 2: if constexpr (K == 0) h->lock_read(); else if constexpr (K != 2) h->lock(); x.held = 'r'; break;
            case 3: if constexpr (K == 0) h->lock_write(); else if constexpr (K == 2) h->lock(); x.held = 'w'; break;
            case 4: h->unlock(); x.held = 0; break;
            case 5: h.reset(); x = M{}; break;
            case 6:
                if constexpr (K == 0) { if (not h->upgrade()) return "the upgrade of the only reader fails"; x.held = 'w'; }
                else if constexpr (K == 3) { // the write lock is given back at once
                    write_lock w = h->upgrade();
                    if (not w.owns_lock()) return "the upgrade of the only reader fails";
                    if (r.mx[x.mx].try_lock_read()) return "a read lock is granted while an upgraded writer is active";
                    x.held = 0;
                }
                break;
            case 7: r.h[o.b] = std::make_unique<H>(std::move(*h)); m[o.b] = x; x.held = 0; x.mx = -1; break;
            case 8: {
                M old = m[o.b]; *r.h[o.b] = std::move(*h); m[o.b].mx = x.mx; m[o.b].held = x.held;
                x.held = 0;
                if (owns(*h, 'r') or owns(*h, 'w')) { // handles may exchange their locks
                    if (not old.held) return "the source of a move-assignment still owns a lock";
                    x = old;
                }
                if (not x.held) x.mx = -1; // which mutex a moved-from handle refers to is unspecified
                break;
            }
        }
        for (int i = 0; i != N; ++i) if (m[i].exists)
            for (char c : { 'r', 'w' }) if (owns(*r.h[i], c) != (m[i].held == c)) return "handle " + std::to_string(i) + (m[i].held == c ? " does not own its lock" : " owns a lock it does not hold");
        for (int k = 0; k != 2; ++k) {
            bool w = r.mx[k].try_lock_write(); if (w) r.mx[k].unlock_write();
            if (w != can_write(m, k)) return std::string("the write lock of mutex ") + std::to_string(k) + (w ? " is granted while it is held" : " is not available although nobody holds it");
            bool rd = r.mx[k].try_lock_read(); if (rd) r.mx[k].unlock_read();
            if (rd != can_read(m, k)) return std::string("a read lock of mutex ") + std::to_string(k) + (rd ? " is granted while a writer is active" : " is not available although there is no writer");
        }
        return "";
    }
    static void run(mc::Worker &W, std::vector<Op_> &seq, unsigned depth) {
        static const auto ops = all_ops();
        /* replay */
        M m[N]; Real r; std::string text;
        for (auto &o : seq) {
            if (not enabled(o, m)) return;
            text += (text.empty() ? "" : "; ") + show(o);
            W.describe("handles :: " + text); W.transitions();
            auto e = apply(o, m, r);
            if (not e.empty()) { W.fail("handles kind " + std::to_string(KIND<H>) + ": " + e, text); return; }
        }
        W.states();
        for (auto &h : r.h) h.reset();
        for (auto &x : r.mx) { if (not x.try_lock_write()) { W.fail("handles kind " + std::to_string(KIND<H>) + ": mutex not free after all handles are gone", text); return; } x.unlock_write(); }
        W.evals(); { std::string st; for (auto &h : m) { st += h.exists ? char('0' + h.mx + 1) : '.'; st += h.held ? h.held : '-'; } W.outcome(std::to_string(KIND<H>) + st); }
        if (seq.size() >= depth) return;
        for (auto &o : ops) { if (not enabled(o, m)) continue; seq.push_back(o); run(W, seq, depth); seq.pop_back(); }
    }
    static void phase(mc::Check &C, const char *name, unsigned depth) {
        static const auto ops = all_ops();
        C.explore(name, ops.size() * ops.size() * ops.size(), [depth](uint64_t i, mc::Worker &W) {
            mc::Digits d(i); std::vector<Op_> seq; for (int k = 0; k != 3; ++k) seq.push_back(ops[d.next(ops.size())]);
            M m[N]; for (auto &o : seq) if (not enabled(o, m)) return; else { M &x = m[o.a]; // only to prune: the model part of `apply`
                switch (o.kind) { case 0: x = { true, o.b, 0 }; break; case 1: x = { true, o.b, KIND<H> == 2 ? 'w' : 'r' }; break; case 2: x.held = 'r'; break; case 3: x.held = 'w'; break; case 4: x.held = 0; break; case 5: x = M{}; break; case 6: x.held = KIND<H> == 0 ? 'w' : 0; break; case 7: m[o.b] = x; x.held = 0; x.mx = -1; break; default: return run(W, seq, depth); } }
            run(W, seq, depth);
        });
    }
};
}

int main(int argc, char **argv)
{
    mc::Check C("C16", "model_checking", argc, argv);
    C.rule = "all schedules with at most the stated number of deviations of every multiset of client operations; a schedule is non-trivial by its outcome (order and success of operations)";
    C.counter_names = { "capped_scenarios", "outcomes" };
    C.case_limit = 300;
    C.assumptions = { "interleavings are sequentially consistent; weaker memory orders are covered by the race detector only",
                      "at most the stated number of preemptions / spurious wake-ups per schedule" };
    const bool T = C.thorough;
    std::vector<std::pair<int, std::vector<Op>>> S2, S3, S4;
    for (int api = 0; api != 3; ++api) {
        for (int a = 0; a != NOPS; ++a) for (int b = a; b != NOPS; ++b) S2.push_back({ api, { Op(a), Op(b) } });
        for (int a = 0; a != NOPS; ++a) for (int b = a; b != NOPS; ++b) for (int c = b; c != NOPS; ++c) S3.push_back({ api, { Op(a), Op(b), Op(c) } });
        for (int a = 0; a <= TW; ++a) for (int b = a; b <= TW; ++b) for (int c = b; c <= TW; ++c) for (int d = c; d <= TW; ++d) if (api == 0) S4.push_back({ api, { Op(a), Op(b), Op(c), Op(d) } });
    }
    auto phase = [&](const char *n, auto &S, unsigned bound) { C.explore(n, S.size(), [&, bound](uint64_t i, mc::Worker &W) { scenario(W, S[i].first, S[i].second, bound); }, 1); };
    phase("two-clients", S2, T ? 4 : 3);
    phase("three-clients", S3, T ? 3 : 1);
    phase("four-clients", S4, T ? 2 : 0);
    Handles<reader_writer_lock>::phase(C, "reader_writer_lock handles", T ? 8 : 5);
    Handles<read_lock>::phase(C, "read_lock handles", T ? 8 : 5);
    Handles<write_lock>::phase(C, "write_lock handles", T ? 8 : 5);
    Handles<upgrade_lock>::phase(C, "upgrade_lock handles", T ? 8 : 5);
    return C.finish();
}
