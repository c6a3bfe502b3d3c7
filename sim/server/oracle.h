#pragma once
#include "core.h"
namespace sim {
struct Verdict
{
    std::string cls;    // violation class, "" = held
    std::string detail;
    bool        nontrivial = false;
    uint64_t    more_hash = 0, more_ns = 0, more_steps = 0; // further executions that belong to the run itself
    std::map<std::string, int64_t> probes; // rare conditions that were reached
};
Verdict judge(const Plan& p, const History& h);
extern uint64_t g_ref_runs; // reference executions done
} // namespace sim
