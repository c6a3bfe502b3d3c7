// Runtime the library runs on in the simulator: allocator bookkeeping, allocation faults, and a scheduler that runs one
// thread at a time and switches at machine-code basic blocks.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace rt {

constexpr size_t REGION = 192u << 20;
struct Shared // written by the child, read by the parent
{
    uint64_t steps, allocs, fired, switches;
    uint32_t has_viol, pad;
    char     cls[32], detail[2000];
    uint8_t  cover[65536];
    uint64_t len;
    char     data[1];
};
extern Shared* g_sh;
struct Access { uint32_t op, off; uint64_t step; }; // off: 8-byte cell of the library's static data, times two, plus one for a write
struct Accesses { uint64_t n; Access a[1]; };
constexpr size_t MAX_ACCESSES = 3000000;
extern uint64_t  g_relro; // how much of it becomes read-only after loading
extern Accesses* g_acc; // what the library does with its static data, in the order it does it; library built for it only (race_sim)
void           init(); // parent: maps the region

// ---- child side
void               activate(int fill, bool record); // start strict bookkeeping, and perhaps recording accesses to static data
[[noreturn]] void  violation(const char* cls, const std::string& detail);
void               emit(int thread, int op, const std::string& text); // append a record
struct Call // one C API call: library code runs between construction and end()
{
    Call(int op, int64_t fail_from, int64_t fail_count);
    ~Call();
    int64_t allocs() const;
    int64_t fired() const;
    uint64_t steps() const;
};
bool     is_live(const void* p, size_t& size, int& kind); // exact start of a live block; kind 0 new, 1 new[]
struct LiveInfo { uint64_t blocks = 0, bytes = 0; };
LiveInfo live(); // blocks allocated inside library calls
std::string oldest_live_since(uint64_t serial);
uint64_t serial();
uint64_t op_steps(); // basic blocks executed by the current operation so far
void     check_quarantine();

struct Switch { int thread, op; uint64_t step; int next; };
// Runs the bodies on real threads, one at a time. body(t) calls point(op) before every operation.
void run_threads(std::vector<std::function<void()>> bodies, std::vector<Switch> sw, std::string* trace);
void point(int op);
} // namespace rt
