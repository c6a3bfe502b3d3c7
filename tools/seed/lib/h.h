// h.h: a few lines around the exported C API, for demonstrations
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <functional>
#include "AllAttributesParserBase.h"
#include "AllAttributesParserWrapperBase.h"
#include "GeneralParserDefines.h"
#include "fanuc/AllAttributesParserDefines.h"
#include "fanuc/AllAttributesParserWrapper.h"
#include "fanuc/CodeGroupsDefines.h"
#include "heidenhain/AllAttributesParserWrapper.h"
using namespace parser;
using parser::fanuc::CodeGroupValue;
using parser::fanuc::WordGrammarWrapper;
using parser::fanuc::WordType;
#include "cfg.h"
template <typename T> T en(const char* s) { std::istringstream i(s); T t{}; i >> t; return t; }
#define N(a) int(sizeof(a) / sizeof(*a))
typedef AllAttributesParserWrapperBase* Handle;
inline bool turns_on_rotation = false;
inline void setnc(Handle h)
{
    static char X[] = "X", Y[] = "Y", Z[] = "Z", m[] = "M", c60[] = "60", e[] = "";
    char*  k[] = {X, Y, Z};
    double v[] = {0, 0, 0};
    AxisParametersWrapper ax[] = {{X, -9999, 9999}, {Y, -9999, 9999}, {Z, -9999, 9999}};
    KinematicsWrapper kin{};
    kin.max_working_feed = 10000; kin.max_fast_feed = 20000; kin.maximum_spindle_speed = 8000; kin.numer_of_items_in_the_warehouse = 30; kin.tool_exchange_time = 5;
    kin.pallet_exchange_code = m; kin.pallet_exchange_code_value = c60; kin.tool_measurement_code = e; kin.tool_measurement_code_value = e;
    CncDefaultValues d{};
    d.default_motion = en<EMotion>("rapid_traverse"); d.default_work_plane = en<EWorkPlane>("XY"); d.default_driver_units = en<EDriverUnits>("millimeter");
    d.default_programming = en<EProgrammingType>("absolute"); d.default_feed_mode = en<EFeedMode>("feed_per_minute"); d.default_rotation_direction = en<ERotationDirection>("right");
    d.drill_cycle_z_value = en<EDepthProgrammingType>("absolute"); d.drill_cycle_return_value = en<EDrillGreturnMode>("beginning"); d.default_rotation = 1000; d.operator_turns_on_rotation = turns_on_rotation;
    ZeroPoint z{};
    SetNCSettings(h, en<EMachineTool>("mill_3axis"), en<EMachineToolType>("mill"), k, v, 3, k, v, 3, &kin, ax, 3, &d, &z);
}
inline Handle make(int bits = 0x1f)
{
    ParserSettings ps{(bits & 1) != 0, (bits & 2) != 0, (bits & 4) != 0, (bits & 8) != 0, (bits & 16) != 0};
    OtherSettings  os{ELanguage::English};
    Handle h = fanuc::CreateFanucAllAttributesParser(mk, mv, N(mk), ik, iv, N(ik), ops, N(ops), gk, gv, N(gk), gl, ck, cv, N(ck), cl, &ps, &os, en<EFanucParserType>("fanuc_mill"), false);
    setnc(h);
    return h;
}
inline std::string parse(Handle h, int line, const std::string& t) { char* m = nullptr; bool r = Parse(h, line, t.c_str(), &m, true); std::string s = std::string(r ? "ok " : "bad ") + (m ? m : ""); DisposeCharArray(m); return s; }
typedef std::function<bool(WordValueWrapper**, int*, char**)> WordsCall;
inline std::string words(const WordsCall& f)
{
    WordValueWrapper* v = nullptr; int n = 0; char* m = nullptr;
    bool r = f(&v, &n, &m);
    std::string s = r ? "ok" : std::string("bad ") + (m ? m : "");
    for (int i = 0; i < n; ++i) s += std::string(" ") + v[i].word + v[i].value;
    DisposeWordValueWrapper(v, n); DisposeCharArray(m);
    return s;
}
inline std::string path(Handle h)
{
    PathResultWrapper* p = nullptr; TimeResultWrapper* t = nullptr; WordResultRange* w = nullptr; int n = 0, unit = 0;
    GetPathValues(h, p, t, &w, &n, &unit);
    char b[200]; snprintf(b, sizeof b, "%.9g %.9g %.9g %.9g %.9g %.9g %d", p->total, p->work_motion, p->fast_motion, t->total, t->work_motion, t->fast_motion, unit);
    DisposePathValues(p, t, w, n);
    return b;
}
inline void check(bool ok, const char* what) { if (!ok) { fprintf(stderr, "FAILED: %s\n", what); fflush(stderr); _Exit(1); } }
