// The allocator of the simulated server: counts what the server itself holds (nothing of the simulator's),
// and fills what it gets and what it gives back, so that reading either shows in the answers.
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <malloc.h>
#include <unistd.h>

#include "heap.h"

namespace sim {
bool    g_heap_on = false;
int     g_inside  = 0;
int64_t g_live = 0, g_blocks = 0;
}
using namespace sim;

extern "C" {
void* __libc_malloc(size_t);
void  __libc_free(void*);
}

namespace {
struct Head { uint64_t size; uint64_t raw; }; // size: highest bit set when the block is the server's
constexpr uint64_t OURS = 1ull << 63;
Head* head(void* p) { return reinterpret_cast<Head*>(p) - 1; }
void* get(size_t n, size_t align)
{
    if (n > (1ull << 46)) { errno = ENOMEM; return nullptr; }
    char* raw = static_cast<char*>(__libc_malloc(n + sizeof(Head) + (align > 16 ? align : 0)));
    if (!raw) return nullptr;
    uintptr_t a = reinterpret_cast<uintptr_t>(raw) + sizeof(Head);
    if (align > 16) a = (a + align - 1) / align * align;
    void* p = reinterpret_cast<void*>(a);
    bool  s = g_heap_on && !g_inside;
    *head(p) = {n | (s ? OURS : 0), reinterpret_cast<uint64_t>(raw)};
    if (s) { g_live += static_cast<int64_t>(n); ++g_blocks; memset(p, 0xB3, n); }
    return p;
}
} // namespace

extern "C" {
void* malloc(size_t n) { return get(n, 16); }
void  free(void* p)
{
    if (!p) return;
    int  e = errno;
    auto h = *head(p);
    if (h.size & OURS) { g_live -= static_cast<int64_t>(h.size & ~OURS); --g_blocks; memset(p, 0xDD, h.size & ~OURS); }
    __libc_free(reinterpret_cast<void*>(h.raw));
    errno = e;
}
void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    void* p = get(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n)
{
    if (!p) return get(n, 16);
    if (n == 0) { free(p); return nullptr; }
    void* q = get(n, 16);
    if (!q) return nullptr;
    size_t o = head(p)->size & ~OURS;
    memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
void* reallocarray(void* p, size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
    return realloc(p, n);
}
void* memalign(size_t a, size_t n) { return get(n, a); }
void* aligned_alloc(size_t a, size_t n) { return get(n, a); }
void* valloc(size_t n) { return get(n, 4096); }
void* pvalloc(size_t n) { return get((n + 4095) / 4096 * 4096, 4096); }
int   posix_memalign(void** o, size_t a, size_t n)
{
    int   e = errno;
    void* p = get(n, a);
    errno = e;
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
size_t malloc_usable_size(void* p) { return p ? head(p)->size & ~OURS : 0; }
}
