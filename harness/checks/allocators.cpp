/* Allocators: all histories of allocations and deallocations up to a depth, with every request for memory pages observed and,
 * once per history and position, refused. */
#include "common/mc.hpp"
#include "common/heapguard.hpp"
#include <mutable/mutable-config.hpp>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <map>

/*----- All pages the allocator under test obtains. ------------------------------------------------------------------*/
namespace pages {
static std::map<uintptr_t, std::size_t> regions; // address -> size, disjoint, all mapped
static int fail_at = -1, requests = 0;
static std::string error;
static void * get(void *a, std::size_t n, int prot, int flags, int fd, off_t off) {
    if (requests++ == fail_at or n > (std::size_t(1) << 40)) { errno = ENOMEM; return MAP_FAILED; }
    void *p = ::mmap(a, n, prot, flags, fd, off);
    if (p != MAP_FAILED) regions[uintptr_t(p)] = (n + 4095) & ~std::size_t(4095);
    return p;
}
static int put(void *p, std::size_t n) {
    const uintptr_t b = uintptr_t(p), e = b + ((n + 4095) & ~std::size_t(4095));
    if (n == 0) { errno = EINVAL; return -1; }
    /* cut [b, e) out of the mapped regions; all of it must be mapped */
    uintptr_t covered = b;
    for (auto it = regions.upper_bound(b); covered < e;) {
        if (it != regions.begin()) --it;
        if (it == regions.end() or it->first > covered or it->first + it->second <= covered) { error = "memory that is not owned is given back"; break; }
        const uintptr_t rb = it->first, re = rb + it->second;
        regions.erase(it);
        if (rb < b) regions[rb] = b - rb;
        if (re > e) regions[e] = re - e;
        covered = std::min(re, e);
        it = regions.upper_bound(covered);
    }
    if (not error.empty()) return -1; // never unmap foreign memory
    return ::munmap(p, n);
}
static bool owned(void *p, std::size_t n) {
    uintptr_t a = uintptr_t(p); const uintptr_t e = a + n;
    while (a < e) {
        auto it = regions.upper_bound(a);
        if (it == regions.begin()) return false;
        --it;
        if (it->first + it->second <= a) return false;
        a = it->first + it->second;
    }
    return true;
}
}
#define mmap pages::get
#define munmap pages::put
#include <mutable/util/list_allocator.hpp>
#undef mmap
#undef munmap
#include <mutable/util/malloc_allocator.hpp>
#include <memory>

using namespace m;
using u64 = uint64_t;

struct Block { uint8_t *p; std::size_t n, a; uint8_t pat; };
struct Req { std::size_t n, a; };

static void fill(const Block &b) { if (b.n > 20000) { memset(b.p, b.pat, 16); memset(b.p + b.n - 16, b.pat, 16); } else memset(b.p, b.pat, b.n); }
static bool intact(const Block &b) {
    for (std::size_t i = 0; i < b.n; ++i) { if (b.n > 20000 and i == 16) i = b.n - 16; if (b.p[i] != b.pat) return false; }
    return true;
}

/** One history on one allocator; `next(n)` chooses the next operation among n. */
template<typename A> struct History
{
    std::unique_ptr<A> alloc, other;
    std::vector<Block> live;
    std::vector<std::string> log;
    uint8_t pat = 1;
    bool own; // pages are observed
    mc::Worker &W; std::string cfg;
    bool bad = false;

    std::string text() const { std::string s = cfg + ":"; for (auto &l : log) s += " " + l; return s; }
    void fail(const std::string &what) { bad = true; W.fail(text(), text() + " -> " + what); }
    static std::size_t mapped() { return pages::regions.size(); }
    void check_all() {
        for (auto &b : live) if (not intact(b)) { fail("block of " + std::to_string(b.n) + " bytes was overwritten"); return; }
        if (own and not pages::error.empty()) fail(pages::error);
    }
    void allocate(Req r, bool may_fail = false) {
        log.push_back("allocate(" + std::to_string(r.n) + (r.a ? "," + std::to_string(r.a) : "") + ")");
        W.evals();
        void *p;
        const int before = pages::requests;
        try { p = alloc->allocate(r.n, r.a); } catch (std::runtime_error&) { if (not may_fail or (own and pages::requests == before and r.n < (std::size_t(1) << 40))) fail("allocation failed"); log.back() += "!"; check_all(); return; }
        if (r.n == 0) { if (own and p) fail("memory for an empty allocation"); if (p) alloc->deallocate(p, 0); return; }
        if (r.n > (std::size_t(1) << 40)) { fail("an allocation larger than the address space succeeded"); return; }
        if (not p) { fail("null"); return; }
        if (r.a and uintptr_t(p) % r.a) { fail("misaligned"); return; }
        if (own and not pages::owned(p, r.n)) { fail("block outside of the memory owned by the allocator"); return; }
        for (auto &b : live) if (uintptr_t(p) < uintptr_t(b.p) + b.n and uintptr_t(b.p) < uintptr_t(p) + r.n) { fail("block overlaps a live block"); return; }
        live.push_back({ static_cast<uint8_t*>(p), r.n, r.a, pat++ });
        fill(live.back());
        check_all();
    }
    void deallocate(std::size_t i) {
        log.push_back("free(" + std::to_string(i) + ")");
        W.evals();
        Block b = live[i]; live.erase(live.begin() + i);
        memset(b.p, 0xEE, std::min<std::size_t>(b.n, 64)); // the client may write until it deallocates
        alloc->deallocate(b.p, b.n);
        check_all();
    }
};

/* Sizes around the header size, the splitting threshold and the page size. */
static const Req REQS[] = { { 1, 0 }, { 8, 8 }, { 9, 1 }, { 24, 16 }, { 100, 64 }, { 2036, 0 }, { 4072, 0 }, { 4088, 8 }, { 4089, 0 }, { 64, 4096 }, { 16, 8192 }, { 12288, 0 } };
static constexpr unsigned NR = sizeof(REQS) / sizeof(*REQS);

int main(int argc, char **argv) {
    mc::Check C("C19", "model_checking", argc, argv);
    C.rule = "All histories of up to 5 (thorough: 6) operations on a list allocator: an allocation of one of 12 size and alignment pairs around the header size, the splitting threshold and the page size, deallocation of any live block, move construction, move assignment, copy (up to 4 operations; thorough: 5); from 4 initial configurations; all histories of up to 7 (thorough: 9) operations over the 4 pairs that split and coalesce one page; after each history everything is freed in both orders, every earlier request is repeated and must be served from the freed memory, and the allocator is destroyed, which must give back exactly the memory it obtained; every request for pages is refused once per history (4 operations); single allocations of 0..70 and all sizes around pages with all alignments up to 64 KiB; sizes near the range of size_t must fail; the same histories on the malloc allocator.";

    struct Cfg { std::size_t initial; AllocationStrategy strategy; const char *name; };
    static const Cfg CFG[] = { { 0, AllocationStrategy::Linear, "linear" }, { 1, AllocationStrategy::Linear, "linear,initial" }, { 0, AllocationStrategy::Exponential, "exponential" }, { 10000, AllocationStrategy::Exponential, "exponential,initial" } };
    auto run_list = [&](const Cfg &cfg, const std::vector<Req> &reqs, unsigned depth, u64 code, bool moves, int fail_at, bool reverse, mc::Worker &W) -> int {
        pages::regions.clear(); pages::error.clear(); pages::requests = 0; pages::fail_at = -1;
        int requests;
        {
            History<list_allocator> H{ std::make_unique<list_allocator>(cfg.initial, cfg.strategy), nullptr, {}, {}, 1, true, W, cfg.name };
            pages::requests = 0; pages::fail_at = fail_at;
            if (fail_at >= 0) H.cfg += ",refuse " + std::to_string(fail_at);
            for (unsigned k = 0; k != depth and not H.bad; ++k) {
                const unsigned n = reqs.size() + (moves ? 3 : 0) + k; // at most k live blocks
                const unsigned c = code % n; code /= n;
                W.describe(H.text() + " op " + std::to_string(c));
                W.transitions();
                if (c < reqs.size()) H.allocate(reqs[c], fail_at >= 0);
                else if (c < reqs.size() + k) { const unsigned i = c - reqs.size(); if (i < H.live.size()) H.deallocate(i); else if (k + 1 != depth) { pages::fail_at = -1; for (auto &b : H.live) H.alloc->deallocate(b.p, b.n); return -1; } }
                else if (c == reqs.size() + k) { H.log.push_back("move"); auto N = std::make_unique<list_allocator>(std::move(*H.alloc)); H.alloc = std::move(N); H.check_all(); }
                else if (c == reqs.size() + k + 1) { H.log.push_back("assign"); pages::fail_at = -1; auto N = std::make_unique<list_allocator>(); void *q = N->allocate(40); N->deallocate(q, 40); *N = std::move(*H.alloc); H.alloc = std::move(N); H.check_all(); }
                else { H.log.push_back("copy"); pages::fail_at = -1; list_allocator X(static_cast<const list_allocator&>(*H.alloc)); void *q = X.allocate(40); for (auto &b : H.live) if (static_cast<uint8_t*>(q) >= b.p and static_cast<uint8_t*>(q) < b.p + b.n) H.fail("a copy hands out a live block"); X.deallocate(q, 40); H.check_all(); }
            }
            requests = pages::requests;
            pages::fail_at = -1;
            if (not H.bad) {
                std::vector<Block> all = H.live;
                while (not H.live.empty() and not H.bad) { W.describe(H.text() + " free all"); H.deallocate(reverse ? H.live.size() - 1 : 0); }
                const std::size_t regions = H.mapped();
                if (not H.bad and H.alloc->num_chunks_available() > regions) H.fail("freed chunks are not joined: " + std::to_string(H.alloc->num_chunks_available()) + " chunks in " + std::to_string(regions) + " regions");
                const int before = pages::requests;
                for (auto &b : all) if (not H.bad and b.a <= 4096) {
                    W.describe(H.text() + " again " + std::to_string(b.n));
                    void *p = H.alloc->allocate(b.n, b.a);
                    H.alloc->deallocate(p, b.n);
                    if (pages::requests != before) H.fail("freed memory is not reused for " + std::to_string(b.n) + " bytes");
                }
                W.describe(H.text() + " destroy");
                H.alloc.reset();
                if (not H.bad and not pages::error.empty()) H.fail(pages::error);
                if (not H.bad and not pages::regions.empty()) H.fail("memory is not given back: " + std::to_string(pages::regions.size()) + " regions");
            }
            W.states();
            W.outcome(std::to_string(H.log.size()) + "/" + std::to_string(requests));
            if (H.bad) { new std::unique_ptr<list_allocator>(std::move(H.alloc)); /* state unknown: never destroy */ }
        }
        return requests;
    };
    auto count = [](unsigned reqs, unsigned extra, unsigned depth) { u64 n = 1; for (unsigned k = 0; k != depth; ++k) n *= reqs + extra + k; return n; };

    { const std::vector<Req> R(REQS, REQS + NR);
      for (unsigned d = 1; d <= (C.thorough ? 6u : 5u); ++d) {
        const bool moves = d < 5 or (C.thorough and d == 5);
        const u64 n = count(NR, moves ? 3 : 0, d);
        if (d == 6) { // the deepest level without moves
            const u64 n6 = count(NR, 0, d);
            C.explore("list histories of length 6", n6, [&](u64 i, mc::Worker &W) { run_list(CFG[1], R, d, i, false, -1, i & 1, W); }, 4096);
        } else C.explore("list histories of length " + std::to_string(d), n * (d == 5 ? 1 : 4), [&, d, n, moves](u64 i, mc::Worker &W) { run_list(CFG[d == 5 ? 1 : i / n], R, d, i % n, moves, -1, i & 1, W); }, d < 4 ? 64 : 2048);
      } }
    { static const std::vector<Req> R = { { 100, 0 }, { 24, 0 }, { 1000, 0 }, { 2100, 0 } };
      const unsigned D = C.thorough ? 9 : 7;
      for (unsigned d = 6; d <= D; ++d) C.explore("list histories on one page of length " + std::to_string(d), count(4, 0, d), [&, d](u64 i, mc::Worker &W) { run_list(CFG[1], R, d, i, false, -1, i & 1, W); }, 4096); }
    { static const std::vector<Req> R = { { 1, 0 }, { 4088, 8 }, { 4089, 0 }, { 16, 8192 }, { 24, 16 } };
      const unsigned d = C.thorough ? 5 : 4; const u64 n = count(R.size(), 3, d);
      C.explore("refused pages", n * 4 * 4, [&, d, n](u64 i, mc::Worker &W) { const int at = i / n % 4; run_list(CFG[i / n / 4], R, d, i % n, true, at, i & 1, W); }, 512); }
    { static const std::size_t AL[] = { 0, 1, 2, 4, 8, 16, 32, 64, 128, 4096, 8192, 65536 };
      std::vector<std::size_t> N; for (std::size_t n = 0; n <= 70; ++n) N.push_back(n);
      for (std::size_t b : { 128ul, 2048ul, 4096ul, 8192ul, 65536ul, 1ul << 20 }) for (int d = -18; d <= 18; ++d) N.push_back(b + d);
      C.explore("single allocations", N.size() * 12 * 4, [&, N](u64 i, mc::Worker &W) {
        mc::Digits d(i); const Cfg &cfg = CFG[d.next(4)]; const std::size_t a = AL[d.next(12)], n = N[d.next(N.size())];
        run_list(cfg, { { n, a }, { 24, 0 } }, 3, 0 + 2 * 1, false, -1, false, W); // allocate(n,a), allocate(24), allocate(n,a)
        run_list(cfg, { { n, a } }, 2, 0, false, -1, true, W);
      }, 64); }
    { std::vector<std::size_t> N; for (int d = 0; d <= 24; ++d) { N.push_back(SIZE_MAX - d); N.push_back((SIZE_MAX >> 1) - 12 + d); N.push_back((SIZE_MAX >> 1) - 4095 + d); N.push_back(SIZE_MAX - 4096 - 12 + d); } N.push_back(std::size_t(1) << 45);
      C.explore("impossible sizes", N.size() * 4 * 3, [&, N](u64 i, mc::Worker &W) {
        mc::Digits d(i); const Cfg &cfg = CFG[d.next(4)]; const std::size_t a = std::size_t(d.next(3)) * 32, n = N[d.next(N.size())];
        run_list(cfg, { { 24, 0 }, { n, a } }, 3, 0 + 2 * (1 + 3 * 0), false, 99, false, W); // allocate(24), allocate(n), allocate(24)
      }, 16); }
    { static const Req M[] = { { 0, 0 }, { 1, 0 }, { 7, 1 }, { 8, 8 }, { 24, 16 }, { 100, 64 }, { 4096, 4096 }, { 3, 2 }, { 0, 16 } };
      static const std::vector<Req> R(M, M + 9);
      const unsigned d = C.thorough ? 5 : 4;
      C.explore("malloc allocator", count(9, 0, d), [&, d](u64 i, mc::Worker &W) {
        History<malloc_allocator> H{ std::make_unique<malloc_allocator>(), nullptr, {}, {}, 1, false, W, "malloc" };
        for (unsigned k = 0; k != d and not H.bad; ++k) {
            const unsigned n = 9 + k, c = i % n; i /= n;
            W.transitions();
            W.describe(H.text());
            if (c < 9) H.allocate(R[c]); else if (c - 9 < H.live.size()) H.deallocate(c - 9);
        }
        while (not H.live.empty()) H.deallocate(H.live.size() - 1);
        W.states();
      }, 256); }
    { /* typed interface */
      C.explore("typed allocations", 64, [&](u64 i, mc::Worker &W) {
        struct S3 { char c[3]; }; struct alignas(32) S64 { double d[7]; };
        W.describe("typed " + std::to_string(i)); W.states(); W.evals(10);
        const std::size_t n = i % 16 + 1;
        auto go = [&](auto &A, const char *who) {
            auto bad = [&](const char *w) { W.fail(std::string(who) + w + std::to_string(n), std::string(who) + ": " + w + " with " + std::to_string(n) + " elements"); };
            char *c = A.template allocate<char>(n); S3 *s = A.template allocate<S3>(n); S64 *x = A.template allocate<S64>(n); double *d = A.template allocate<double>();
            memset(c, 1, n); memset(s, 2, n * sizeof(S3)); memset(x, 3, n * sizeof(S64)); memset(d, 4, sizeof *d);
            auto u = A.template make_unique<int>(); auto v = A.template make_unique<S64[]>(n); *u = 5; memset(v.get(), 6, n * sizeof(S64));
            for (std::size_t k = 0; k != n; ++k) if (c[k] != 1 or s[k].c[0] != 2 or s[k].c[2] != 2) bad("overwritten array");
            for (std::size_t k = 0; k != n * sizeof(S64); ++k) if (reinterpret_cast<char*>(x)[k] != 3 or reinterpret_cast<char*>(v.get())[k] != 6) bad("overwritten array");
            for (std::size_t k = 0; k != sizeof *d; ++k) if (reinterpret_cast<char*>(d)[k] != 4) bad("overwritten object");
            if (*u != 5) bad("overwritten object");
            if (uintptr_t(x) % 32 or uintptr_t(v.get()) % 32 or uintptr_t(d) % alignof(double) or uintptr_t(u.get()) % alignof(int)) bad("misaligned");
            A.deallocate(c, n); A.deallocate(x, n); A.dispose(std::move(u)); A.dispose(std::move(v), n); A.deallocate(d); A.deallocate(s, n);
        };
        pages::regions.clear(); pages::error.clear(); pages::fail_at = -1;
        { list_allocator L(i / 16 * 3000, i & 1 ? AllocationStrategy::Linear : AllocationStrategy::Exponential); go(L, "list"); go(L, "list again"); }
        if (not pages::regions.empty() or not pages::error.empty()) W.fail("typed leak " + std::to_string(i), "typed allocations: memory is not given back");
        malloc_allocator M; go(M, "malloc");
      }); }
    return C.finish();
}
