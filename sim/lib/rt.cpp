#include "rt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <exception>
#include <execinfo.h>
#include <link.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

#include "../common/rng.h"

namespace rt {

Shared*   g_sh;
Accesses* g_acc;
uint64_t  g_relro = 0;

namespace {
constexpr uint64_t LIVE = 0x4c49564542304c4bull, FREED = 0x46524545444c4b21ull;
constexpr uint64_t CANARY = 0xC0DEDBADC0DEDBADull;
constexpr uint64_t MAX_STEPS = 400000000ull;
struct Hdr
{
    uint64_t magic;
    size_t   size;
    Hdr *    prev, *next;
    uint64_t serial;
    int32_t  op;
    uint8_t  kind, lib, fill, pad;
    void*    base;
    uint64_t magic2;
};
static_assert(sizeof(Hdr) == 64, "");

uintptr_t g_lo = 0, g_size = 0; // the library's writable static data, when it is a shared object of its own
bool      g_record = false;
bool     g_active = false;
uint8_t  g_fill = 0xCD;
uint64_t g_serial = 0;
Hdr      g_list{0, 0, &g_list, &g_list};
Hdr*     g_q_head = nullptr; // quarantine, oldest first, linked through next
Hdr*     g_q_tail = nullptr;
uint64_t g_q_bytes = 0;
std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
struct Lock { Lock() { while (g_lock.test_and_set(std::memory_order_acquire)); } ~Lock() { g_lock.clear(std::memory_order_release); } };

struct TL
{
    uint64_t steps = 0;      // basic blocks executed in the current operation
    uint64_t next = ~0ull;   // operation step of the next event
    int      in = 0;         // inside a library call
    int      op = -1;
    int64_t  allocs = 0, fail_from = 0, fail_count = 0, fired = 0;
    int      id = -1;
    size_t   swi = 0;
    uint64_t total = 0;
};
thread_local TL tl;

void release_oldest();

void* do_new(size_t size, int kind, size_t align, bool nothrow)
{
    if (tl.in && g_active)
    {
        ++tl.allocs;
        ++g_sh->allocs;
        if (tl.fail_count && tl.allocs >= tl.fail_from && tl.allocs < tl.fail_from + tl.fail_count)
        {
            ++tl.fired;
            ++g_sh->fired;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    if (size > (1ull << 30))
    {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (align < 16) align = 16;
    char* base = static_cast<char*>(malloc(size + sizeof(Hdr) + align + 16));
    if (!base)
    {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    auto  a = (reinterpret_cast<uintptr_t>(base) + sizeof(Hdr) + align - 1) / align * align;
    char* p = reinterpret_cast<char*>(a);
    auto  h = reinterpret_cast<Hdr*>(p - sizeof(Hdr));
    h->magic = LIVE;
    h->magic2 = LIVE ^ a;
    h->size = size;
    h->op = tl.op;
    h->kind = static_cast<uint8_t>(kind);
    h->lib = tl.in != 0;
    h->base = base;
    h->next = h->prev = nullptr;
    uint64_t c = CANARY ^ a;
    memcpy(p + size, &c, 8);
    memcpy(p + size + 8, &c, 8);
    if (g_active) memset(p, g_fill, size);
    h->fill = 0;
    {
        Lock l;
        h->serial = ++g_serial;
        h->prev = g_list.prev;
        h->next = &g_list;
        g_list.prev->next = h;
        g_list.prev = h;
    }
    return p;
}

void verify_block(Hdr* h, const char* when)
{
    char*    p = reinterpret_cast<char*>(h) + sizeof(Hdr);
    uint64_t c = CANARY ^ reinterpret_cast<uintptr_t>(p), x, y;
    memcpy(&x, p + h->size, 8);
    memcpy(&y, p + h->size + 8, 8);
    if (x != c || y != c) violation("overrun", std::string("a block of ") + std::to_string(h->size) + " bytes allocated by operation " + std::to_string(h->op) + " was written past its end (" + when + ")");
}

void do_delete(void* p, int kind)
{
    if (!p) return;
    auto a = reinterpret_cast<uintptr_t>(p);
    if (g_active && (a % 16 || a < 4096)) violation("badfree", "delete of a pointer that no new returned");
    auto h = reinterpret_cast<Hdr*>(static_cast<char*>(p) - sizeof(Hdr));
    if (h->magic == FREED && h->magic2 == (FREED ^ a)) violation("doublefree", "block of " + std::to_string(h->size) + " bytes allocated by operation " + std::to_string(h->op) + " deleted twice, the second time by operation " + std::to_string(tl.op));
    if (h->magic != LIVE || h->magic2 != (LIVE ^ a)) violation("badfree", "delete of a pointer that no new returned, or the memory before it was overwritten");
    if (!g_active)
    {
        Lock l;
        h->prev->next = h->next;
        h->next->prev = h->prev;
        h->magic = FREED;
        free(h->base);
        return;
    }
    if (h->kind != kind) violation("badfree", std::string("block allocated with ") + (h->kind ? "new[]" : "new") + " released with " + (kind ? "delete[]" : "delete"));
    verify_block(h, "seen when it was released");
    memset(p, 0xDD, h->size);
    h->magic = FREED;
    h->magic2 = FREED ^ a;
    Lock l;
    h->prev->next = h->next;
    h->next->prev = h->prev;
    h->next = nullptr;
    if (g_q_tail) g_q_tail->next = h; else g_q_head = h;
    g_q_tail = h;
    g_q_bytes += h->size + 96;
    while (g_q_bytes > (256u << 20)) release_oldest();
}

void verify_freed(Hdr* h)
{
    auto p = reinterpret_cast<unsigned char*>(h) + sizeof(Hdr);
    for (size_t i = 0; i < h->size; ++i)
        if (p[i] != 0xDD) violation("useafterfree", "a block of " + std::to_string(h->size) + " bytes allocated by operation " + std::to_string(h->op) + " was written after it was released");
    verify_block(h, "after it was released");
}
void release_oldest()
{
    Hdr* h = g_q_head;
    g_q_head = h->next;
    if (!g_q_head) g_q_tail = nullptr;
    g_q_bytes -= h->size + 96;
    verify_freed(h);
    free(h->base);
}
} // namespace

void init()
{
    g_sh = static_cast<Shared*>(mmap(nullptr, REGION, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (g_sh == MAP_FAILED) { perror("mmap"); _exit(2); }
    dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
        if (!i->dlpi_name || !strstr(i->dlpi_name, "librace.so")) return 0;
        for (int k = 0; k < i->dlpi_phnum; ++k)
            if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_W) { g_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; g_size = i->dlpi_phdr[k].p_memsz; }
            else if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) g_relro = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
        return 1;
    }, nullptr);
    if (g_lo)
    {
        g_relro -= g_lo;
        g_acc = static_cast<Accesses*>(mmap(nullptr, 16 + MAX_ACCESSES * sizeof(Access), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (g_acc == MAP_FAILED) { perror("mmap"); _exit(2); }
    }
}
static void on_terminate()
{
    tl.in = 0;
    if (getenv("SIM_BT"))
    {
        void* a[60];
        int   n = backtrace(a, 60);
        backtrace_symbols_fd(a, n, 2);
    }
    violation("terminate", "the process ended because of an exception that left a function which must not throw, in operation " + std::to_string(tl.op));
}
void activate(int fill, bool record) { g_record = record && g_acc; std::set_terminate(on_terminate); g_fill = static_cast<uint8_t>(fill); g_active = true; }
[[noreturn]] void violation(const char* cls, const std::string& detail)
{
    g_sh->has_viol = 1;
    snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
    snprintf(g_sh->detail, sizeof g_sh->detail, "%s", detail.c_str());
    _exit(77);
}
void emit(int thread, int op, const std::string& t)
{
    uint32_t n = static_cast<uint32_t>(t.size()), h[3] = {static_cast<uint32_t>(thread), static_cast<uint32_t>(op), n};
    if (g_sh->len + 12 + n > REGION - sizeof(Shared) - 64) violation("harness", "results too large");
    memcpy(g_sh->data + g_sh->len, h, 12);
    memcpy(g_sh->data + g_sh->len + 12, t.data(), n);
    g_sh->len += 12 + n;
}
Call::Call(int op, int64_t from, int64_t count)
{
    tl.op = op;
    tl.allocs = 0;
    tl.fired = 0;
    tl.fail_from = from;
    tl.fail_count = count;
    tl.in = 1;
}
Call::~Call() { tl.in = 0; tl.fail_count = 0; }
int64_t  Call::allocs() const { return tl.allocs; }
int64_t  Call::fired() const { return tl.fired; }
uint64_t Call::steps() const { return tl.steps; }
bool is_live(const void* p, size_t& size, int& kind)
{
    Lock l;
    for (Hdr* h = g_list.prev; h != &g_list; h = h->prev) // most recent first: results are young
        if (reinterpret_cast<const char*>(h) + sizeof(Hdr) == p) { size = h->size; kind = h->kind; return true; }
    return false;
}
LiveInfo live()
{
    LiveInfo r;
    for (Hdr* h = g_list.next; h != &g_list; h = h->next)
        if (h->lib)
        {
            verify_block(h, "while still in use");
            ++r.blocks;
            r.bytes += h->size;
        }
    return r;
}
std::string oldest_live_since(uint64_t s)
{
    for (Hdr* h = g_list.next; h != &g_list; h = h->next)
        if (h->lib && h->serial > s) return "block of " + std::to_string(h->size) + " bytes allocated by operation " + std::to_string(h->op);
    return "";
}
uint64_t serial() { return g_serial; }
uint64_t op_steps() { return tl.steps; }
void     check_quarantine() { for (Hdr* h = g_q_head; h; h = h->next) verify_freed(h); }

// ------------------------------------------------------------------ scheduler
namespace {
struct T { pthread_t th; sem_t sem; bool done = false; std::function<void()> body; std::vector<Switch> sw; };
std::vector<T*> g_t;
sem_t           g_main;
std::string*    g_trace;
uint64_t        g_spins = 0;
bool            g_running = false;

void sem_waitx(sem_t* s) { while (sem_wait(s) && errno == EINTR); }
int pick(int from, int want)
{
    int n = static_cast<int>(g_t.size());
    for (int i = 0; i < n; ++i) { int k = ((want + i) % n + n) % n; if (k != from && !g_t[static_cast<size_t>(k)]->done) return k; }
    return -1;
}
void pass(int to)
{
    int me = tl.id;
    ++g_sh->switches;
    sem_post(&g_t[static_cast<size_t>(to)]->sem);
    sem_waitx(&g_t[static_cast<size_t>(me)]->sem);
}
void arm()
{
    auto& sw = g_t[static_cast<size_t>(tl.id)]->sw;
    while (tl.swi < sw.size() && (sw[tl.swi].op < tl.op || (sw[tl.swi].op == tl.op && sw[tl.swi].step < tl.steps))) ++tl.swi;
    uint64_t lim = MAX_STEPS;
    tl.next = tl.swi < sw.size() && sw[tl.swi].op == tl.op ? std::min(lim, sw[tl.swi].step) : lim;
}
void event()
{
    if (tl.steps >= MAX_STEPS) violation("hang", "operation " + std::to_string(tl.op) + " did not finish within " + std::to_string(MAX_STEPS) + " basic blocks");
    auto& sw = g_t[static_cast<size_t>(tl.id)]->sw;
    if (tl.swi < sw.size() && sw[tl.swi].op == tl.op && sw[tl.swi].step == tl.steps)
    {
        int want = sw[tl.swi].next;
        ++tl.swi;
        int to = pick(tl.id, want);
        if (to >= 0)
        {
            if (g_trace) { int in = tl.in; tl.in = 0; uint64_t v[4] = {static_cast<uint64_t>(tl.id), static_cast<uint64_t>(tl.op), tl.steps, static_cast<uint64_t>(to)}; g_trace->append(reinterpret_cast<char*>(v), sizeof v); tl.in = in; }
            pass(to);
        }
    }
    arm();
}
void* entry(void* x)
{
    auto t = static_cast<T*>(x);
    for (size_t i = 0; i < g_t.size(); ++i) if (g_t[i] == t) tl.id = static_cast<int>(i);
    sem_waitx(&t->sem);
    t->body();
    tl.next = ~0ull;
    t->done = true;
    g_sh->steps += tl.total + tl.steps;
    int to = pick(tl.id, tl.id + 1);
    tl.id = -1;
    if (to >= 0) sem_post(&g_t[static_cast<size_t>(to)]->sem);
    else sem_post(&g_main);
    return nullptr;
}
// a thread finds something held by a parked thread: let the others run
void blocked()
{
    if (!g_running || tl.id < 0) { usleep(50); return; }
    int to = pick(tl.id, tl.id + 1);
    if (to < 0 || ++g_spins > 2000000) violation("blocked", "every thread waits for another one");
    pass(to);
}
} // namespace

void point(int op)
{
    tl.total += tl.steps;
    tl.steps = 0;
    tl.op = op;
    arm();
    if (tl.next == 0) event();
}

void run_threads(std::vector<std::function<void()>> bodies, std::vector<Switch> sw, std::string* trace)
{
    g_t.clear();
    g_trace = trace;
    sem_init(&g_main, 0, 0);
    for (size_t i = 0; i < bodies.size(); ++i)
    {
        auto t = new T;
        t->body = std::move(bodies[i]);
        sem_init(&t->sem, 0, 0);
        for (auto& s : sw) if (s.thread == static_cast<int>(i)) t->sw.push_back(s);
        std::stable_sort(t->sw.begin(), t->sw.end(), [](auto& a, auto& b) { return a.op < b.op || (a.op == b.op && a.step < b.step); });
        g_t.push_back(t);
    }
    g_running = true;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 8u << 20);
    for (auto t : g_t) if (pthread_create(&t->th, &at, entry, t)) { perror("pthread_create"); _exit(2); }
    sem_post(&g_t[0]->sem);
    sem_waitx(&g_main);
    for (auto t : g_t) pthread_join(t->th, nullptr);
    g_running = false;
}
} // namespace rt

using namespace rt;

extern "C" void __sanitizer_cov_trace_pc()
{
    if (!tl.in) return;
    ++tl.steps;
    auto pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
    g_sh->cover[(pc >> 2) & 0xffff] = 1;
    if (tl.steps >= tl.next) { int in = tl.in; event(); tl.in = in; }
}

// The library built with -fsanitize=thread calls these before every access to memory: an access to static data is a place
// where threads may be switched, between any two accesses. No part of the real sanitizer runtime is there.
namespace rt { namespace {
inline void access(const void* p, bool write)
{
    uintptr_t off = reinterpret_cast<uintptr_t>(p) - g_lo;
    if (off >= g_size || !tl.in) return;
    ++tl.steps;
    if (g_record && g_acc->n < MAX_ACCESSES) g_acc->a[g_acc->n++] = {static_cast<uint32_t>(tl.op), static_cast<uint32_t>(off >> 3) * 2 + write, tl.steps};
    if (tl.steps >= tl.next) { int in = tl.in; event(); tl.in = in; }
}
} }
extern "C" {
void __tsan_init() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, false); } void __tsan_write##n(void* p) { access(p, true); } \
    void __tsan_unaligned_read##n(void* p) { access(p, false); } void __tsan_unaligned_write##n(void* p) { access(p, true); } \
    void __tsan_volatile_read##n(void* p) { access(p, false); } void __tsan_volatile_write##n(void* p) { access(p, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t) { access(p, false); }
void __tsan_write_range(void* p, size_t) { access(p, true); }
void __tsan_vptr_update(void** p, void*) { access(p, true); }
void __tsan_vptr_read(void** p) { access(p, false); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T* p, int) { access(const_cast<T*>(p), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store(volatile T* p, T v, int) { access(const_cast<T*>(p), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access(const_cast<T*>(p), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access(const_cast<T*>(p), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access(const_cast<T*>(p), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access(const_cast<T*>(p), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access(const_cast<T*>(p), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { access(const_cast<T*>(p), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { access(const_cast<T*>(p), true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { access(const_cast<T*>(p), true); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { access(const_cast<T*>(p), true); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int, int) { access(const_cast<T*>(p), true); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}

void* operator new(size_t n) { return do_new(n, 0, 16, false); }
void* operator new[](size_t n) { return do_new(n, 1, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 1, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, 0, static_cast<size_t>(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, 1, static_cast<size_t>(a), false); }
void operator delete(void* p) noexcept { do_delete(p, 0); }
void operator delete[](void* p) noexcept { do_delete(p, 1); }
void operator delete(void* p, size_t) noexcept { do_delete(p, 0); }
void operator delete[](void* p, size_t) noexcept { do_delete(p, 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p, 1); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p, 0); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p, 1); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p, 0); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p, 1); }

// Initialisation guards and locks: a holder may be parked, so waiting means running somebody else.
extern "C" {
int __cxa_guard_acquire(uint64_t* g)
{
    auto b = reinterpret_cast<std::atomic<uint8_t>*>(g);
    for (;;)
    {
        if (b[0].load(std::memory_order_acquire)) return 0;
        uint8_t z = 0;
        if (b[1].compare_exchange_strong(z, 1)) return 1;
        blocked();
    }
}
void __cxa_guard_release(uint64_t* g)
{
    auto b = reinterpret_cast<std::atomic<uint8_t>*>(g);
    b[0].store(1, std::memory_order_release);
    b[1].store(0);
}
void __cxa_guard_abort(uint64_t* g) { reinterpret_cast<std::atomic<uint8_t>*>(g)[1].store(0); }
int pthread_mutex_lock(pthread_mutex_t* m)
{
    for (;;)
    {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        blocked();
    }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; blocked(); } }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; blocked(); } }
int pthread_once(pthread_once_t* o, void (*f)())
{
    auto a = reinterpret_cast<std::atomic<int>*>(o);
    for (;;)
    {
        if (a->load() == 2) return 0;
        int z = 0;
        if (a->compare_exchange_strong(z, 1))
        {
            try { f(); } catch (...) { a->store(0); throw; }
            a->store(2);
            return 0;
        }
        blocked();
    }
}
}
