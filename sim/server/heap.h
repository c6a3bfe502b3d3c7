#pragma once
#include <cstdint>
namespace sim {
extern bool    g_heap_on;        // the server is running
extern int     g_inside;         // > 0: inside the simulator
extern int64_t g_live, g_blocks; // bytes and blocks the server has allocated and not released
struct In { In() { ++g_inside; } ~In() { --g_inside; } };
}
