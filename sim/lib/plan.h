#pragma once
#include <memory>
#include <string>
#include <vector>

#include "../common/json.h"
#include "../common/rng.h"
#include "rt.h"

namespace sim {

struct HandleSpec
{
    std::string driver = "fanuc_mill"; // or heidenhain
    int         lang = 0, bits = 31;   // bits: evaluate_macro, verify_code_groups, calculate_path, ncsettings_code_analysis, zero_point_analysis
    std::string settings;
};
struct LOp
{
    std::string          k, t, s, u; // kind, text, further texts
    int                  h = 0, l = 0, m = 0, hold = 0; // handle, line, multi-line messages, release the result later
    std::vector<int64_t> v;
    int64_t              nth = 0, cnt = 0; // fail the nth allocation of this call, and the following cnt-1
    double               frac = -1;        // before resolution: which allocation, as a fraction of all
};
struct LPlan
{
    std::string                   prop;
    uint64_t                      seed = 0;
    int                           warm = 0, rounds = 1, split = 0; // C15 warm-up, C16 rounds and whether their figures change
    std::vector<HandleSpec>       handles;
    std::vector<std::vector<LOp>> threads; // C18: tasks
    std::vector<rt::Switch>       sw;      // C14: thread switches; C18: order of the tasks (thread only)
    std::string                   style;   // how to make the switches if there are none yet
    bool                          resolved = false;
    std::string                   to_json() const;
    static LPlan                  from_json(const std::string& s);
    size_t                        nops() const { size_t n = 0; for (auto& t : threads) n += t.size(); return n; }
    size_t                        nfaults() const { size_t n = sw.size(); for (auto& t : threads) for (auto& o : t) n += o.cnt != 0; return n; }
};
LPlan gen_plan(const std::string& prop, uint64_t seed);

struct Rec { int thread, op; std::string text; };
struct RunResult
{
    int              how = 0; // 0 ended, 'S' signal, 'V' violation, 'T' timeout
    int              code = 0;
    std::string      cls, detail, trace;
    std::vector<Rec> recs;
    uint64_t         steps = 0, allocs = 0, fired = 0, switches = 0;
};
// What one child process does: lists of operations per thread, over handle slots
struct Job
{
    const LPlan*                  plan;
    std::vector<std::vector<LOp>> threads;
    std::vector<rt::Switch>       sw;
    int                           fill = 0xCD;
    bool                          direct = false; // calls of the parser classes instead of the C interface (C26)
    bool                          record = false; // accesses to static data, into rt::g_acc
};
struct Direct { virtual ~Direct() = default; virtual std::string op(const LPlan& p, const LOp& o) = 0; };
std::unique_ptr<Direct> make_direct();
RunResult execute(const Job& j);
extern int64_t g_execs;

struct LVerdict { std::string cls, detail; bool nontrivial = false; uint64_t hash = 0, shape = 0; uint64_t steps = 0, switches = 0, refs = 0; std::vector<std::pair<std::string, int64_t>> probes, faults, ops; std::string trace; };
LVerdict judge(LPlan& p); // resolves the plan (explicit switches and faults), runs it, compares

} // namespace sim
