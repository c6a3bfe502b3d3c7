// Gives the lines of a document to a new handle of the parser library, one after the other, through the C interface,
// with the configuration read by the harness: no code of the server takes part.
#include "libref.h"

#include <cmath>
#include <cstdio>

#include "../common/libconf.h"

namespace sim {
namespace {
// what the server assumes when no settings file is configured
const char* NO_SETTINGS = R"({"machine_tool":"mill_3axis","machine_tool_type":"mill","driver":"fanuc_mill",
"machine_points_data":{"machine_base_point":{"X":0,"Y":0,"Z":500,"I":0,"J":0,"K":0},"tool_exchange_point":{"X":0,"Y":0,"Z":500}},
"kinematics":{"cartesian_system_axis":{"X":{"range_min":-500,"range_max":500},"Y":{"range_min":-500,"range_max":500},"Z":{"range_min":0,"range_max":1000}},
"max_working_feed":20000,"max_fast_feed":20000,"maximum_spindle_speed":10000,"numer_of_items_in_the_warehouse":30,"tool_exchange_time":6,"pallet_exchange_time":1,"tool_measurement_time":3,
"diameter_programming_2x":false,"auto_measure_after_tool_selection":false,"pallet_exchange_code":"","pallet_exchange_code_value":"","tool_measurement_code":"","tool_measurement_code_value":""},
"cnc_default_values":{"default_motion":"rapid_traverse","default_work_plane":"XY","default_driver_units":"millimeter","default_programming":"absolute","default_feed_mode":"feed_per_minute",
"default_rotation_direction":"right","drill_cycle_z_value":"absolute","drill_cycle_return_value":"beginning","default_rotation":0,"rapid_traverse_cancel_cycle":false,"linear_interpolation_cancel_cycle":false,
"circular_interpolation_cw_cancel_cycle":false,"circular_interpolation_ccw_cancel_cycle":false,"cycle_cancel_starts_rapid_traverse":false,"operator_turns_on_rotation":false,
"tool_number_executes_exchange":false,"auto_rapid_traverse_after_tool_exchange":false},"zero_point":{"X":0,"Y":0,"Z":0}})";

std::string clock_text(double seconds)
{
    long long ms = std::llround(seconds * 1000.0), a = ms < 0 ? -ms : ms;
    char      b[64];
    if (a >= 3600000) snprintf(b, sizeof b, "%s%lld:%02lld:%02lld.%03lld", ms < 0 ? "-" : "", a / 3600000, a / 60000 % 60, a / 1000 % 60, a % 1000);
    else snprintf(b, sizeof b, "%s%lld:%02lld.%03lld", ms < 0 ? "-" : "", a / 60000, a / 1000 % 60, a % 1000);
    return b;
}
std::string length_text(double d) { char b[400]; snprintf(b, sizeof b, "%.2f", d); return b; }
} // namespace

std::string library_result(const World& w, const std::string& text)
{
    const std::string driver = w.settings ? w.driver : "fanuc_mill";
    auto              set = settings(w.settings ? w.settings_text : NO_SETTINGS);
    const Cfg&        c = cfg(driver);
    auto              mk = ptrs(c.mk), ik = ptrs(c.ik), op = ptrs(c.ops), gk = ptrs(c.gk), ck = ptrs(c.ck);
    auto              gl = c.gl, cl = c.cl;
    ParserSettings    ps = parser_settings(31);
    OtherSettings     os{ELanguage::English};
    auto*             h = fanuc::CreateFanucAllAttributesParser(mk.data(), c.mv.data(), static_cast<int>(mk.size()), ik.data(), c.iv.data(), static_cast<int>(ik.size()), op.data(), static_cast<int>(op.size()), gk.data(),
                                                                c.gv.data(), static_cast<int>(gk.size()), gl.data(), ck.data(), c.cv.data(), static_cast<int>(ck.size()), cl.data(), &ps, &os,
                                                                en<EFanucParserType>(driver), false);
    SetNCSettings(h, set->mt, set->mtt, set->bk.data(), set->bv.data(), static_cast<int>(set->bk.size()), set->tk.data(), set->tv.data(), static_cast<int>(set->tk.size()), &set->kin, set->axes.data(),
                  static_cast<int>(set->axes.size()), &set->def, &set->zero);
    ResetMacroValues(h);

    J      lines = J::arr(), lens = J::arr(), macros = J::arr();
    double before = 0, cut = 0, rapid = 0, cut_time = 0, rapid_time = 0;
    size_t from = 0;
    for (int64_t n = 0; from < text.size(); ++n)
    {
        auto        to = text.find('\n', from);
        std::string line = text.substr(from, to == std::string::npos ? to : to - from);
        from = to == std::string::npos ? text.size() : to + 1;
        while (!line.empty() && strchr(" \t\n\v\f\r", line.back()) && line.back()) line.pop_back();
        if (line.empty()) continue;
        char*             msg = nullptr;
        bool              ok;
        if (w.calc)
        {
            WordValueWrapper* v = nullptr;
            int               len = 0;
            ok = ParseValue(h, static_cast<int>(n + 1), line.c_str(), &v, &len, &msg, true);
            if (v) DisposeWordValueWrapper(v, len);
        }
        else
            ok = Parse(h, static_cast<int>(n + 1), line.c_str(), &msg, true);
        if (!ok) { J e = J::arr(); e.push(n); e.push(std::string(msg ? msg : "")); e.push(line); lines.push(e); }
        if (msg) DisposeCharArray(msg);
        if (!w.calc) continue;
        PathResultWrapper* p = nullptr;
        TimeResultWrapper* t = nullptr;
        WordResultRange*   wr = nullptr;
        int                len = 0, unit = 0;
        GetPathValues(h, p, t, &wr, &len, &unit);
        if (t->total != before)
        {
            before = t->total;
            rapid += p->fast_motion;
            rapid_time += t->fast_motion;
            cut += p->work_motion;
            cut_time += t->work_motion;
            const double least = 0.01;
            std::string  s;
            if (p->total >= least) s += " | Total path = " + length_text(p->total);
            if (t->total >= least) s += " | Total time = " + clock_text(t->total);
            if (p->tool_total >= least && p->total - p->tool_total >= least) s += " | T" + std::string(p->tool_id) + " total path = " + length_text(p->tool_total);
            if (p->fast_motion >= least) s += " | Total rapid path = " + length_text(rapid);
            if (t->fast_motion >= least) s += " | Total rapid time = " + clock_text(rapid_time);
            if (p->work_motion >= least) s += " | Total cut path = " + length_text(cut);
            if (t->work_motion >= least) s += " | Total cut time = " + clock_text(cut_time);
            for (double x : {t->total, rapid_time, cut_time}) if (!(std::fabs(x) < 1e12)) s = "?"; // thirty thousand years
            J e = J::arr();
            e.push(n);
            e.push(s);
            lens.push(e);
        }
        DisposePathValues(p, t, wr, len);
    }
    int *   ids = nullptr, *at = nullptr, len = 0;
    double* val = nullptr;
    GetMacroValues(h, &ids, &at, &val, &len);
    for (int i = 0; i < len; ++i) { J e = J::arr(); e.push(static_cast<int64_t>(ids[i])); e.push(static_cast<int64_t>(at[i])); char b[400]; snprintf(b, sizeof b, "%f", val[i]); e.push(std::string(b)); macros.push(e); }
    DisposeMacroValues(ids, at, val);
    DisposeAllAttributesParser(h);
    J r = J::obj();
    r.set("lines", lines);
    r.set("lens", lens);
    r.set("macros", macros);
    return r.dump();
}
} // namespace sim
