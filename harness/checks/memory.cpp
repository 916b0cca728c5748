/* Mapping-based memory: all histories of allocations, mappings, moves and deallocations, with all bytes' aliasing checked after every step. */
#include "common/mc.hpp"
#include <mutable/util/memory.hpp>
#include <sys/mman.h>
#include <sys/stat.h>
#include <array>
#include <map>

using namespace m;
using namespace m::memory;
using u64 = uint64_t;

static constexpr std::size_t PAGE = 4096;
static constexpr unsigned SLOTS = 3, VM_PAGES = 6;

/** Whether the page is accessible. */
static bool accessible(const void *p) { return madvise(const_cast<void*>(p), PAGE, 22 /* MADV_POPULATE_READ */) == 0; }

struct World
{
    mc::Worker &W;
    std::string cfg;
    std::vector<std::string> log;
    bool bad = false;

    std::array<std::unique_ptr<LinearAllocator>, 2> alloc; // two allocators: their offsets coincide
    std::unique_ptr<AddressSpace> vm;
    struct Slot { Memory mem; int id = -1; }; // id of the allocation, -1 if none
    std::array<std::unique_ptr<Slot>, SLOTS> slot;
    struct Alloc { int a; std::size_t size, offset; uint8_t *addr; bool live = true; };
    std::vector<Alloc> allocs;
    /** What each page of the address space shows: allocation and page; -1 never mapped, -2 its allocation is gone. */
    std::array<std::pair<int, unsigned>, VM_PAGES> shows;
    /** The stack of allocations per allocator, as documented: only a suffix of deallocated ones is reclaimed. */
    std::array<std::vector<int>, 2> stack;

    World(mc::Worker &W, std::string cfg, std::size_t vm_size) : W(W), cfg(cfg) {
        for (auto &a : alloc) a = std::make_unique<LinearAllocator>();
        vm = std::make_unique<AddressSpace>(vm_size);
        for (auto &s : slot) s = std::make_unique<Slot>();
        shows.fill({ -1, 0 });
    }
    std::string text() const { std::string s = cfg + ":"; for (auto &l : log) s += " " + l; return s; }
    void fail(const std::string &what) { if (not bad) W.fail(text() + " " + what, text() + " -> " + what); bad = true; }

    void freed(int id) {
        auto &A = allocs[id]; A.live = false;
        for (std::size_t o = 0; o < A.size; o += PAGE) if (accessible(A.addr + o)) { fail("the memory of a deallocated allocation is still mapped"); break; }
        for (auto &s : shows) if (s.first == id) s.first = -2;
        auto &st = stack[A.a];
        while (not st.empty() and not allocs[st.back()].live) st.pop_back();
    }
    void allocate(unsigned k, int a, std::size_t size) {
        log.push_back("m" + std::to_string(k) + "=allocate(" + std::to_string(size) + ")" + (a ? "'" : ""));
        const int old = slot[k]->id;
        {
            Memory fresh = alloc[a]->allocate(size);
            const std::size_t want = (size + PAGE - 1) / PAGE * PAGE;
            if (fresh.size() != want) return fail("size " + std::to_string(fresh.size()));
            if (size == 0) { if (fresh.addr()) return fail("memory for an empty allocation"); }
            else {
                if (not fresh.addr() or uintptr_t(fresh.addr()) % PAGE) return fail("address is not page aligned");
                if (&fresh.allocator() != alloc[a].get()) return fail("wrong allocator");
                for (auto &o : allocs) if (o.live) {
                    if (o.addr < fresh.as<uint8_t*>() + want and fresh.as<uint8_t*>() < o.addr + o.size) return fail("overlaps a live allocation");
                    if (o.a == a and o.offset < fresh.offset() + want and fresh.offset() < o.offset + o.size) return fail("shares the memory of a live allocation");
                }
                if (vm->addr() and fresh.as<uint8_t*>() < vm->as<uint8_t*>() + vm->size() and vm->as<uint8_t*>() < fresh.as<uint8_t*>() + want) return fail("overlaps the address space");
            }
            const int id = size ? int(allocs.size()) : -1;
            if (size) { allocs.push_back({ a, want, fresh.offset(), fresh.as<uint8_t*>() }); stack[a].push_back(id); }
            slot[k]->mem = std::move(fresh); slot[k]->id = id; // `fresh` now holds what the slot held before
        }
        if (old >= 0) freed(old);
    }
    void drop(unsigned k) {
        log.push_back("free m" + std::to_string(k));
        const int id = slot[k]->id;
        slot[k] = std::make_unique<Slot>();
        if (id >= 0) freed(id);
    }
    void move(unsigned k, unsigned to, bool construct) {
        log.push_back(std::string(construct ? "construct" : "assign") + " m" + std::to_string(to) + " from m" + std::to_string(k));
        if (construct) { const int id = slot[k]->id; auto N = std::make_unique<Slot>(); { Memory t(std::move(slot[k]->mem)); N->mem = std::move(t); } N->id = id; slot[k] = std::move(N); } // through two handles, old one destroyed
        else { using std::swap; if (k < to) slot[to]->mem = std::move(slot[k]->mem); else swap(slot[k]->mem, slot[to]->mem); std::swap(slot[to]->id, slot[k]->id); }
    }
    void map(unsigned k, std::size_t size, std::size_t src, std::size_t dst) {
        log.push_back("map(m" + std::to_string(k) + "," + std::to_string(size) + " from " + std::to_string(src / PAGE) + " to " + std::to_string(dst / PAGE) + ")");
        slot[k]->mem.map(size, src, *vm, dst);
        for (unsigned p = 0; p * PAGE < size; ++p) shows[dst / PAGE + p] = { slot[k]->id, unsigned(src / PAGE + p) };
    }
    /** Every page of every live allocation gets a stamp of its own, through each of its views in turn, which must appear in all its views and nowhere else. */
    void check() {
        for (unsigned k = 0; k != SLOTS; ++k) {
            auto &s = *slot[k];
            if (s.id < 0) { if (s.mem.addr() or s.mem.size()) return fail("an empty handle refers to memory"); continue; }
            auto &A = allocs[s.id];
            if (s.mem.addr() != A.addr or s.mem.size() != A.size or s.mem.offset() != A.offset or &s.mem.allocator() != alloc[A.a].get()) return fail("handle m" + std::to_string(k) + " does not refer to its allocation");
        }
        for (unsigned a = 0; a != 2; ++a) {
            const std::size_t end = stack[a].empty() ? 0 : allocs[stack[a].back()].offset + allocs[stack[a].back()].size;
            if (alloc[a]->offset() != end) return fail("next allocation at " + std::to_string(alloc[a]->offset()) + " instead of " + std::to_string(end));
            struct stat st; if (fstat(alloc[a]->fd(), &st)) return fail("no memory file");
            if (std::size_t(st.st_size) != end) return fail("the memory file has " + std::to_string(st.st_size) + " bytes instead of " + std::to_string(end));
        }
        std::map<std::pair<int, unsigned>, std::vector<uint8_t*>> views;
        for (unsigned id = 0; id != allocs.size(); ++id) if (allocs[id].live) for (unsigned p = 0; p != allocs[id].size / PAGE; ++p) views[{ int(id), p }].push_back(allocs[id].addr + p * PAGE);
        for (unsigned p = 0; p != vm->size() / PAGE; ++p) {
            uint8_t *a = vm->as<uint8_t*>() + p * PAGE;
            if (shows[p].first >= 0) views[shows[p]].push_back(a);
            else if (shows[p].first == -1 and accessible(a)) return fail("page " + std::to_string(p) + " of the address space was mapped by the way");
        }
        unsigned rounds = 1; for (auto &v : views) rounds = std::max<unsigned>(rounds, v.second.size());
        for (unsigned r = 0; r != rounds; ++r) {
            u64 stamp = 1000 * (r + 1);
            for (auto &v : views) { uint8_t *p = v.second[r % v.second.size()]; ++stamp; for (std::size_t o : { std::size_t(0), std::size_t(2040), PAGE - 8 }) { u64 x = stamp + o * 7; memcpy(p + o, &x, 8); } }
            stamp = 1000 * (r + 1);
            for (auto &v : views) { ++stamp; for (auto p : v.second) for (std::size_t o : { std::size_t(0), std::size_t(2040), PAGE - 8 }) { u64 x; memcpy(&x, p + o, 8); if (x != stamp + o * 7) return fail("page " + std::to_string(v.first.second) + " of an allocation does not hold what was written to it"); } }
        }
        W.evals();
    }
    /** Ends the history: all handles are released, in the given order. */
    void finish(bool reverse) {
        for (unsigned i = 0; i != SLOTS and not bad; ++i) { drop(reverse ? SLOTS - 1 - i : i); check(); }
        const void *a = vm->addr(); const auto n = vm->size();
        AddressSpace moved(std::move(*vm));
        if (moved.addr() != a or moved.size() != n) return fail("moved address space");
        vm.reset();
        if (n and madvise(const_cast<void*>(a), n, MADV_NORMAL)) return fail("a moved address space was released by its old handle");
    }
};

int main(int argc, char **argv) {
    mc::Check C("C30", "model_checking", argc, argv);
    C.rule = "All histories of up to 4 (thorough: 5) operations on three memory handles, two linear allocators and an address space of 6 pages: allocation of 0, 1 byte, 1 page, 2 pages and 1 byte into a handle (which may hold another allocation), deallocation, move construction, move assignment and swap of handles, mapping of one page, a part of a page and all pages from every page to several pages of the address space; after every operation every page of every live allocation is written through each of its views (the allocation and all mappings) and read through all; reclaimed and unmapped memory must be inaccessible, the memory file as long as documented; address spaces of 0 to 3 pages. Memory mapped from an allocation is not used after its deallocation.";
    static const std::size_t SIZES[] = { 1, PAGE, 2 * PAGE + 1, 0 };
    struct Op { enum { ALLOC, DROP, MOVE, MAP } k; unsigned a = 0, b = 0, c = 0, d = 0; };
    std::vector<Op> OPS;
    for (unsigned s = 0; s != 4; ++s) OPS.push_back({ Op::ALLOC, 0, 0, s }), OPS.push_back({ Op::ALLOC, 1, 0, s });
    for (unsigned s : { 0u, 2u }) OPS.push_back({ Op::ALLOC, 2, 1, s }), OPS.push_back({ Op::ALLOC, 0, 1, s });
    for (unsigned k = 0; k != SLOTS; ++k) OPS.push_back({ Op::DROP, k });
    OPS.push_back({ Op::MOVE, 0, 0, 1 }); OPS.push_back({ Op::MOVE, 0, 1, 0 }); OPS.push_back({ Op::MOVE, 2, 0, 0 });
    for (unsigned k = 0; k != SLOTS; ++k) for (unsigned src = 0; src != 3; ++src) for (unsigned len = 0; len != (src ? 2 : 3); ++len) for (unsigned dst : { 0u, 1u, 3u }) if (k == 0 or dst != 1) OPS.push_back({ Op::MAP, k, src, len, dst });
    const u64 NO = OPS.size();
    for (unsigned depth = 1; depth <= (C.thorough ? 5u : 4u); ++depth) {
        u64 n = 1; for (unsigned i = 0; i != depth; ++i) n *= NO;
        C.explore("histories of " + std::to_string(depth) + " operations", n * 2, [&, depth, n](u64 i, mc::Worker &W) {
            const bool reverse = i >= n; i %= n;
            unsigned op[8]; for (unsigned j = depth; j--;) op[j] = i % NO, i /= NO; // first operation most significant: like prefixes are neighbours
            /* cheap exclusion of histories with impossible operations */
            int pages[SLOTS] = { 0, 0, 0 };
            for (unsigned j = 0; j != depth; ++j) {
                const Op &o = OPS[op[j]];
                switch (o.k) {
                    case Op::ALLOC: pages[o.a] = (SIZES[o.c] + PAGE - 1) / PAGE; break;
                    case Op::DROP: if (not pages[o.a]) return; pages[o.a] = 0; break;
                    case Op::MOVE: if (o.b) { if (not pages[o.a]) return; } else { if (not pages[o.a] and not pages[o.c]) return; std::swap(pages[o.a], pages[o.c]); } break;
                    case Op::MAP: if (int(o.b) >= pages[o.a]) return; if (o.c == 1 and pages[o.a] - int(o.b) == 1) return; break;
                }
            }
            World w(W, "pages", VM_PAGES * PAGE - 5);
            W.states();
            for (unsigned j = 0; j != depth and not w.bad; ++j) {
                const Op &o = OPS[op[j]];
                W.describe(w.text() + " then operation " + std::to_string(op[j]));
                switch (o.k) {
                    case Op::ALLOC: w.allocate(o.a, o.b, SIZES[o.c]); break;
                    case Op::DROP: w.drop(o.a); break;
                    case Op::MOVE: w.move(o.a, o.c, o.b); break;
                    case Op::MAP: w.map(o.a, o.c == 0 ? PAGE : o.c == 1 ? w.slot[o.a]->mem.size() - o.b * PAGE : 100, o.b * PAGE, o.d * PAGE); break;
                }
                if (j + 1 == depth) w.check(); // shorter histories check the prefixes
            }
            W.transitions(depth);
            if (not w.bad) w.finish(reverse);
        });
    }
    C.explore("address spaces", 4 * 3, [&](u64 i, mc::Worker &W) {
        /* sizes from 0; the stack is soiled first, so that members left alone show */
        const std::size_t size = (i % 4) * PAGE - (i % 4 and i / 4 ? i / 4 * 100 : 0);
        W.describe("address space of " + std::to_string(size) + " bytes"); W.states();
        alignas(AddressSpace) unsigned char buf[sizeof(AddressSpace)]; memset(buf, 0x5A, sizeof(buf));
        auto *A = new (buf) AddressSpace(size);
        const std::size_t want = (size + PAGE - 1) / PAGE * PAGE;
        auto bad = [&](const char *s) { W.fail("address space of " + std::to_string(size) + " bytes " + s, "address space of " + std::to_string(size) + " bytes: " + s); };
        if (A->size() != want) return bad("wrong size");
        if (size == 0) { if (A->addr()) return bad("an address for an empty space"); A->~AddressSpace(); return; }
        for (std::size_t p = 0; p != want; p += PAGE) if (accessible(A->as<char*>() + p)) bad("accessible before anything is mapped");
        AddressSpace B(std::move(*A)); if (A->addr() or A->size()) bad("moved-from space keeps its range");
        A->~AddressSpace();
        char *a = B.as<char*>();
        if (madvise(a, want, MADV_NORMAL)) bad("released too early");
        { AddressSpace D(std::move(B)); }
        if (not madvise(a, want, MADV_NORMAL)) bad("not released");
    });
    return C.finish();
}
