// The shipped configuration and machine settings in the form the parser library's C interface takes.
#pragma once
#include <cstring>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "AllAttributesParserBase.h"
#include "AllAttributesParserWrapperBase.h"
#include "GeneralParserDefines.h"
#include "fanuc/AllAttributesParserDefines.h"
#include "fanuc/AllAttributesParserWrapper.h"
#include "fanuc/CodeGroupsDefines.h"

#include "programs.h"

namespace sim {
namespace {
using namespace parser;
using parser::fanuc::CodeGroupValue;
using parser::fanuc::WordGrammarWrapper;
using parser::fanuc::WordType;

// ---- configuration in the form the C API takes, prepared by the parent
struct Cfg
{
    std::vector<std::string>        mk, ik, ops, gk, ck;
    std::vector<WordGrammarWrapper> mv, iv;
    std::vector<CodeGroupValue>     gv, cv;
    std::vector<int>                gl, cl;
};
WordType word_type(const std::string& s)
{
    static const char* n[] = {"misc", "angle", "calc", "code", "feed", "length", "macro", "numbering", "assignable"};
    for (int i = 0; i < 9; ++i) if (s == n[i]) return static_cast<WordType>(i);
    return WordType::misc;
}
const Cfg& cfg(const std::string& driver)
{
    static std::map<std::string, Cfg> cache;
    auto it = cache.find(driver);
    if (it != cache.end()) return it->second;
    Cfg& c = cache[driver];
    J    j;
    J::parse(g_base[std::string(ROOT) + "/conf/" + driver + "/grammar.json"], j);
    auto words = [](const J& m, std::vector<std::string>& k, std::vector<WordGrammarWrapper>& v) {
        for (auto& [w, g] : m.o)
        {
            k.push_back(w);
            v.push_back({strdup(g.at("word").str().c_str()), static_cast<int>(g.at("range_from").i()), static_cast<int>(g.at("range_to").i()), static_cast<unsigned>(g.at("decimal_from").i()),
                         static_cast<unsigned>(g.at("decimal_to").i()), g.at("unique").b, word_type(g.at("type").str())});
        }
    };
    words(j.at("metric"), c.mk, c.mv);
    words(j.at("imperial"), c.ik, c.iv);
    for (auto& o : j.at("operations").a) c.ops.push_back(o.str());
    auto groups = [&](const char* f, std::vector<std::string>& k, std::vector<CodeGroupValue>& v, std::vector<int>& l) {
        J g;
        J::parse(g_base[std::string(ROOT) + "/conf/" + driver + "/" + f], g);
        for (auto& [n, a] : g.at("groups").o)
        {
            k.push_back(n);
            l.push_back(static_cast<int>(a.a.size()));
            for (auto& e : a.a) v.push_back({static_cast<int>(e.at("code").i()), static_cast<int>(e.at("rest").i())});
        }
    };
    groups("gcode_groups.json", c.gk, c.gv, c.gl);
    groups("mcode_groups.json", c.ck, c.cv, c.cl);
    return c;
}
std::vector<const char*> ptrs(const std::vector<std::string>& v) { std::vector<const char*> r; for (auto& s : v) r.push_back(s.c_str()); return r; }
ParserSettings parser_settings(int b) { return {(b & 1) != 0, (b & 2) != 0, (b & 4) != 0, (b & 8) != 0, (b & 16) != 0}; }

template <typename T> T en(const std::string& s) { std::istringstream i(s); T t{}; i >> t; return t; }

struct Settings // owns everything SetNCSettings takes
{
    EMachineTool                       mt{};
    EMachineToolType                   mtt{};
    std::vector<std::string>           str;
    std::vector<char*>                 bk, tk;
    std::vector<double>                bv, tv;
    KinematicsWrapper                  kin{};
    std::vector<AxisParametersWrapper> axes;
    CncDefaultValues                   def{};
    ZeroPoint                          zero{};
};
std::unique_ptr<Settings> settings(const std::string& text)
{
    auto s = std::make_unique<Settings>();
    J    j;
    J::parse(text, j);
    s->str.reserve(200);
    auto keep = [&](const std::string& x) { s->str.push_back(x); return s->str.back().data(); };
    s->mt = en<EMachineTool>(j.at("machine_tool").str("mill_3axis"));
    s->mtt = en<EMachineToolType>(j.at("machine_tool_type").str("mill"));
    for (auto& [a, v] : j.at("machine_points_data").at("machine_base_point").o) { s->bk.push_back(keep(a)); s->bv.push_back(v.n()); }
    for (auto& [a, v] : j.at("machine_points_data").at("tool_exchange_point").o) { s->tk.push_back(keep(a)); s->tv.push_back(v.n()); }
    const J& k = j.at("kinematics");
    for (auto& [a, v] : k.at("cartesian_system_axis").o) s->axes.push_back({keep(a), v.at("range_min").n(), v.at("range_max").n()});
    s->kin = {k.at("max_working_feed").n(), k.at("max_fast_feed").n(), static_cast<int>(k.at("maximum_spindle_speed").i()), static_cast<int>(k.at("numer_of_items_in_the_warehouse").i()),
              static_cast<int>(k.at("tool_exchange_time").i()), static_cast<int>(k.at("pallet_exchange_time").i()), static_cast<int>(k.at("tool_measurement_time").i()),
              k.at("diameter_programming_2x").b, k.at("auto_measure_after_tool_selection").b, keep(k.at("pallet_exchange_code").str()), keep(k.at("pallet_exchange_code_value").str()),
              keep(k.at("tool_measurement_code").str()), keep(k.at("tool_measurement_code_value").str())};
    const J& c = j.at("cnc_default_values");
    auto&    d = s->def;
    d.default_motion = en<EMotion>(c.at("default_motion").str("rapid_traverse"));
    d.default_work_plane = en<EWorkPlane>(c.at("default_work_plane").str("XY"));
    d.default_driver_units = en<EDriverUnits>(c.at("default_driver_units").str("millimeter"));
    d.default_programming = en<EProgrammingType>(c.at("default_programming").str("absolute"));
    d.default_feed_mode = en<EFeedMode>(c.at("default_feed_mode").str("feed_per_minute"));
    d.default_rotation_direction = en<ERotationDirection>(c.at("default_rotation_direction").str("right"));
    d.drill_cycle_z_value = en<EDepthProgrammingType>(c.at("drill_cycle_z_value").str("absolute"));
    d.drill_cycle_return_value = en<EDrillGreturnMode>(c.at("drill_cycle_return_value").str("beginning"));
    d.default_rotation = static_cast<int>(c.at("default_rotation").i());
    d.rapid_traverse_cancel_cycle = c.at("rapid_traverse_cancel_cycle").b;
    d.linear_interpolation_cancel_cycle = c.at("linear_interpolation_cancel_cycle").b;
    d.circular_interpolation_cw_cancel_cycle = c.at("circular_interpolation_cw_cancel_cycle").b;
    d.circular_interpolation_ccw_cancel_cycle = c.at("circular_interpolation_ccw_cancel_cycle").b;
    d.cycle_cancel_starts_rapid_traverse = c.at("cycle_cancel_starts_rapid_traverse").b;
    d.operator_turns_on_rotation = c.at("operator_turns_on_rotation").b;
    d.tool_number_executes_exchange = c.at("tool_number_executes_exchange").b;
    d.auto_rapid_traverse_after_tool_exchange = c.at("auto_rapid_traverse_after_tool_exchange").b;
    s->zero = {j.at("zero_point").at("X").n(), j.at("zero_point").at("Y").n(), j.at("zero_point").at("Z").n()};
    return s;
}
} // namespace
} // namespace sim
