// Seeded workload, world and fault generators.
#pragma once
#include "../common/programs.h"
#include "../common/rng.h"
#include "core.h"

namespace sim {

Plan        gen_plan(const std::string& prop, uint64_t seed);

} // namespace sim
