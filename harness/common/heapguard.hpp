/* Heap of the program under test with a canary behind every block; fresh and freed memory is overwritten.  Writing behind a block aborts when it is released. */
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#if !__has_feature(address_sanitizer) && !__has_feature(thread_sanitizer)
extern "C" {
void * __libc_malloc(size_t); void __libc_free(void*);
}
namespace heapguard {
struct Header { uint64_t magic, size; };
static constexpr uint64_t MAGIC = 0x6d75746865617067ull, CANARY = 0xa7c3b1d59e8f6042ull;
static constexpr size_t FILL = 512;
inline Header * header(void *p) { auto h = reinterpret_cast<Header*>(p) - 1; return h->magic == (MAGIC ^ reinterpret_cast<uintptr_t>(p)) ? h : nullptr; }
inline void * get(size_t n) {
    if (n > SIZE_MAX / 2) return nullptr;
    auto h = static_cast<Header*>(__libc_malloc(n + sizeof(Header) + sizeof(CANARY)));
    if (not h) return nullptr;
    auto p = reinterpret_cast<char*>(h + 1);
    h->magic = MAGIC ^ reinterpret_cast<uintptr_t>(p); h->size = n;
    memcpy(p + n, &CANARY, sizeof(CANARY));
    return p;
}
}
extern "C" __attribute__((used)) void * malloc(size_t n) { void *p = heapguard::get(n); if (p) memset(p, 0xa5, n < heapguard::FILL ? n : heapguard::FILL); return p; }
extern "C" __attribute__((used)) void * calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void *p = heapguard::get(n); if (p) memset(p, 0, n); return p; }
extern "C" __attribute__((used)) void free(void *p) {
    if (not p) return;
    auto h = heapguard::header(p);
    if (not h) { __libc_free(p); return; } // aligned allocation
    if (memcmp(static_cast<char*>(p) + h->size, &heapguard::CANARY, sizeof(heapguard::CANARY))) {
        static const char msg[] = "heap: memory behind a block was overwritten\n"; (void) !write(2, msg, sizeof(msg) - 1); abort();
    }
    memset(p, 0xdd, h->size < heapguard::FILL ? h->size : heapguard::FILL);
    h->magic = 0;
    __libc_free(h);
}
extern "C" __attribute__((used)) void * realloc(void *p, size_t n) {
    if (not p) return malloc(n);
    auto h = heapguard::header(p);
    if (not h) abort();
    void *q = malloc(n);
    if (q) { memcpy(q, p, h->size < n ? h->size : n); free(p); }
    return q;
}
#endif
