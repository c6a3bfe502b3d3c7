#include "programs.h"

#include <algorithm>
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <sstream>

namespace sim {

std::map<std::string, std::string> g_base;

void load_base(const std::string& repo)
{
    namespace fs = std::filesystem;
    for (auto& e : fs::recursive_directory_iterator(repo + "/conf"))
        if (e.is_regular_file())
        {
            std::ifstream     f(e.path(), std::ios::binary);
            std::stringstream ss;
            ss << f.rdbuf();
            g_base[std::string(ROOT) + "/conf/" + fs::relative(e.path(), repo + "/conf").string()] = ss.str();
        }
}

const std::vector<std::string>& drivers()
{
    static std::vector<std::string> d;
    if (d.empty())
        for (auto& [p, _] : g_base)
        {
            auto q = p.find("/grammar.json");
            if (q == std::string::npos) continue;
            auto s = p.rfind('/', q - 1);
            d.push_back(p.substr(s + 1, q - s - 1));
        }
    return d;
}

const Conf& conf(const std::string& driver)
{
    static std::map<std::string, Conf> cache;
    auto it = cache.find(driver);
    if (it != cache.end()) return it->second;
    Conf c;
    auto load = [&](const char* f, std::vector<std::string>& v, std::map<std::string, std::pair<std::string, std::string>>& m, bool syn) {
        J j;
        auto b = g_base.find(std::string(ROOT) + "/conf/" + driver + "/desc/" + f);
        if (b == g_base.end() || !J::parse(b->second, j)) return;
        for (auto& [code, td] : j.at("descriptions").o)
        {
            if (m.count(code)) continue;
            v.push_back(code);
            if (!td.o.empty()) m[code] = {td.o[0].first, td.o[0].second.str()};
        }
        if (syn)
            for (auto n = v.size(), i = n - n; i < n; ++i)
                if (v[i].size() == 1 || (v[i].size() == 3 && v[i][1] == '.'))
                {
                    std::string z = "0" + v[i];
                    if (!m.count(z)) m[z] = m[v[i]];
                    v.push_back(z);
                }
    };
    load("gcode_desc_en.json", c.g, c.gdesc, true);
    load("mcode_desc_en.json", c.m, c.mdesc, true);
    load("macros_desc_en.json", c.macros, c.macrodesc, false);
    return cache[driver] = c;
}

static bool has(const std::string& s, const char* x) { return s.find(x) != std::string::npos; }

std::string settings_text(Rng& r, const std::string& driver)
{
    static J    list;
    static bool loaded = false;
    if (!loaded)
    {
        loaded = true;
        auto b = g_base.find(std::string(ROOT) + "/conf/nc_settings.json");
        J    j;
        if (b != g_base.end() && J::parse(b->second, j)) list = j.at("machine_tool");
    }
    const char* type = has(driver, "millturn") ? "millturn" : has(driver, "lathe") ? "lathe" : "mill";
    std::vector<const std::pair<std::string, J>*> cand;
    for (auto& e : list.o) if (e.second.at("type").str() == type) cand.push_back(&e);
    if (cand.empty()) return "{}";
    auto& e = *r.pick(cand);
    J     s = J::obj();
    s.set("version", "1.0").set("driver", driver).set("machine_tool", e.first).set("machine_tool_type", type).set("machine_tool_name", "Machine " + std::to_string(r.below(100)));
    s.set("machine_points_data", e.second.at("machine_points_data"));
    J k = e.second.at("kinematics");
    auto few = [&] { return r.chance(0.3) ? std::to_string(r.below(99)) : std::to_string(10 * (1 + r.below(4))); };
    if (r.chance(0.3)) k.set("max_working_feed", static_cast<int>(100 + r.below(30000))).set("max_fast_feed", static_cast<int>(100 + r.below(40000))).set("maximum_spindle_speed", static_cast<int>(100 + r.below(20000)));
    if (r.chance(0.3)) k.set("tool_exchange_time", static_cast<int>(r.below(30)));
    if (r.chance(0.2)) k.set("diameter_programming_2x", true);
    if (r.chance(0.2)) k.set("pallet_exchange_code", r.chance(0.5) ? "M" : "O").set("pallet_exchange_code_value", few()).set("pallet_exchange_time", static_cast<int>(r.below(50)));
    if (r.chance(0.2)) k.set("tool_measurement_code", r.chance(0.5) ? "M" : "O").set("tool_measurement_code_value", few()).set("tool_measurement_time", static_cast<int>(r.below(50))).set("auto_measure_after_tool_selection", r.chance(0.5));
    s.set("kinematics", k);
    J c = e.second.at("cnc_default_values");
    if (r.chance(0.3)) c.set("default_driver_units", r.chance(0.5) ? "inch" : "millimeter");
    if (r.chance(0.3)) c.set("default_programming", r.chance(0.5) ? "incremental" : "absolute");
    if (r.chance(0.3)) c.set("default_motion", r.chance(0.5) ? "linear_interpolation" : "rapid_traverse");
    if (r.chance(0.2)) c.set("default_feed_mode", r.chance(0.5) ? "feed_per_revolution" : "feed_per_minute");
    if (r.chance(0.2)) c.set("default_work_plane", r.chance(0.5) ? "XZ" : "YZ");
    if (r.chance(0.2)) c.set("tool_number_executes_exchange", true);
    if (r.chance(0.3)) c.set("drill_cycle_z_value", r.chance(0.7) ? "incremental" : "absolute");
    if (r.chance(0.3)) c.set("drill_cycle_return_value", r.chance(0.5) ? "point_r" : "beginning");
    for (auto b : {"rapid_traverse_cancel_cycle", "linear_interpolation_cancel_cycle", "cycle_cancel_starts_rapid_traverse", "operator_turns_on_rotation", "auto_rapid_traverse_after_tool_exchange", "circular_interpolation_cw_cancel_cycle", "circular_interpolation_ccw_cancel_cycle"})
        if (r.chance(0.15)) c.set(b, true);
    s.set("cnc_default_values", c);
    J z = J::obj();
    bool nz = r.chance(0.3);
    for (auto a : {"X", "Y", "Z"}) z.set(a, nz ? static_cast<int>(r.below(100)) : 0);
    s.set("zero_point", z);
    return s.dump();
}

// ---------------------------------------------------------------- programs
static std::string num(Rng& r)
{
    switch (r.below(10))
    {
    case 0: return std::to_string(r.below(1000)) + ".";
    case 1: return "-" + std::to_string(r.below(300)) + "." + std::to_string(r.below(1000));
    case 2: return "." + std::to_string(1 + r.below(999));
    case 3: return "#" + std::to_string(100 + r.below(8));
    case 4: return "[#" + std::to_string(100 + r.below(8)) + "+" + std::to_string(r.below(50)) + "]";
    case 5: return "-" + std::to_string(r.below(400));
    default: return std::to_string(r.below(400)) + "." + std::to_string(r.below(100));
    }
}
static std::string expr(Rng& r, int d)
{
    static const std::vector<std::string> fn{"SIN", "COS", "TAN", "ATAN", "SQRT", "ABS", "ROUND", "FIX", "FUP", "BIN", "BCD", "ASIN", "ACOS", "LN", "EXP"};
    static const std::vector<std::string> op{"+", "-", "*", "/", " MOD ", " AND ", " OR ", " XOR "};
    if (d <= 0 || r.chance(0.3)) return r.chance(0.5) ? "#" + std::to_string(r.chance(0.8) ? 1 + r.below(33) : 100 + r.below(900)) : std::to_string(r.below(100)) + (r.chance(0.3) ? "." + std::to_string(r.below(10)) : "");
    switch (r.below(4))
    {
    case 0: return "[" + expr(r, d - 1) + "]";
    case 1: return r.pick(fn) + "[" + expr(r, d - 1) + "]";
    default: return expr(r, d - 1) + r.pick(op) + expr(r, d - 1);
    }
}
std::string code(Rng& r, const std::vector<std::string>& v, const char* p) { return v.empty() ? std::string(p) + "1" : p + r.pick(v); }

// two codes of one group of the driver's control, where there is a second group for a code often that one
static std::string group_pair(Rng& r, const std::string& driver)
{
    using Groups = std::vector<std::vector<std::string>>;
    static std::map<std::string, std::pair<Groups, Groups>> cache;
    auto it = cache.find(driver);
    if (it == cache.end())
    {
        std::pair<Groups, Groups> p;
        for (bool g : {true, false})
        {
            J    j;
            auto b = g_base.find(std::string(ROOT) + "/conf/" + driver + (g ? "/gcode_groups.json" : "/mcode_groups.json"));
            if (b == g_base.end() || !J::parse(b->second, j)) continue;
            std::map<std::string, int> times;
            Groups                     all;
            for (auto& [_, codes] : j.at("groups").o)
            {
                std::vector<std::string> v;
                for (auto& c : codes.a)
                {
                    v.push_back((g ? "G" : "M") + std::to_string(static_cast<int>(c.at("code").n())) + (c.at("rest").n() > 0 ? "." + std::to_string(static_cast<int>(c.at("rest").n())) : ""));
                    ++times[v.back()];
                }
                if (v.size() > 1) all.push_back(v);
            }
            Groups& to = g ? p.first : p.second;
            to         = all;
            for (auto& v : all)
                for (auto& c : v)
                    if (times[c] > 1)
                        for (int i = 0; i < 3; ++i) to.push_back(v);
        }
        it = cache.emplace(driver, p).first;
    }
    auto& gs = r.chance(0.5) ? it->second.first : it->second.second;
    if (gs.empty()) return "G0 G1";
    auto& v = r.pick(gs);
    return r.pick(v) + " " + r.pick(v);
}

static std::string line(Rng& r, const std::string& driver)
{
    const Conf& c = conf(driver);
    bool        lathe = has(driver, "lathe");
    auto        axis  = [&] { return r.pick(lathe ? std::vector<std::string>{"X", "Z", "U", "W", "X", "Z"} : std::vector<std::string>{"X", "Y", "Z"}); };
    std::string s;
    if (r.chance(0.1)) s += "N" + std::to_string(10 * (1 + r.below(500))) + " ";
    switch (r.below(29))
    {
    case 0: case 1: case 2: case 3:
        s += (r.chance(0.5) ? "G0" : "G1");
        if (r.chance(0.3)) s += "0";
        [[fallthrough]];
    case 4: case 5:
    {
        s += " " + axis() + num(r);
        if (r.chance(0.4)) { auto a = axis(); s += " " + a + num(r); }
        if (r.chance(0.3)) s += " F" + std::to_string(1 + r.below(3000));
        break;
    }
    case 6: s += (r.chance(0.5) ? "G2" : "G3") + std::string(lathe ? " X" : " X") + num(r) + (lathe ? " Z" : " Y") + num(r) + (r.chance(0.5) ? " R" + num(r) : std::string(" I") + num(r) + (lathe ? " K" : " J") + num(r)); break;
    case 7: s += code(r, c.g, "G"); if (r.chance(0.3)) s += " " + axis() + num(r); break;
    case 8: s += code(r, c.m, "M"); break;
    case 9: s += code(r, c.g, "G") + " " + code(r, c.g, "G"); break;
    case 10: s += "#" + std::to_string(r.chance(0.7) ? 100 + r.below(8) : 1 + r.below(33)) + "=" + expr(r, 3); break;
    case 11: s += "#" + std::to_string(100 + r.below(8)) + "=" + std::to_string(r.below(100)); break;
    case 12: s += r.chance(0.5) ? "G20" : "G21"; break;
    case 13: s += r.chance(0.5) ? "G90" : "G91"; break;
    case 14: s += "T" + std::to_string(1 + r.below(20)) + (r.chance(0.7) ? " M6" : ""); break;
    case 15: s += "S" + std::to_string(100 + r.below(9000)) + (r.chance(0.5) ? " M3" : " M4"); break;
    case 16:
        s += "(" + std::string(r.chance(0.5) ? r.pick(std::vector<const char*>{"comment", "line 1", "see line 10", "time: 10:30", "ERROR: no"}) : "note: x=1 \xc4\x85\xc4\x99 \xe2\x82\xac") + ")";
        break;
    case 26: // a system variable, often the first or last one of a range
    {
        auto v = "#" + std::to_string(r.chance(0.7) ? r.pick(std::vector<int>{0, 999, 1000, 1001, 1020, 1031, 1032, 1035, 1036, 1100, 2001, 2200, 2201, 2600, 3001, 3011, 4001, 4030, 5001, 5021, 5040, 7681, 10000, 10001, 10500, 10999, 11001, 11999, 14001, 14020, 100001, 100050, 118400}) : 1000 + static_cast<int>(r.below(8000)));
        s += r.chance(0.5) ? "#" + std::to_string(100 + r.below(8)) + "=" + v : v + "=" + num(r);
        break;
    }
    case 17: s += r.pick(std::vector<std::string>{"G54", "G55", "G17", "G18", "G19", "G40", "G49", "G80", "G94", "G95", "G98", "G99", "G28 Z0", "G53 Z0", "G92 X0 Y0", "G10 L2 P1 X1 Y1 Z1", "G4 P1000", "G4 X2."}); break;
    case 18: s += r.pick(std::vector<std::string>{"G68 X0 Y0 R45", "G69", "G16", "G15", "G51 X0 Y0 P2000", "G50", "G66 P1000", "G67", "G65 P9100 A1 B2", "G43 H1 Z50", "M98 P1000", "M99"}); break;
    case 19: s += r.pick(std::vector<std::string>{"G81", "G82", "G83", "G73", "G85"}) + " Z-" + std::to_string(1 + r.below(50)) + " R" + std::to_string(r.below(10)) + " F" + std::to_string(50 + r.below(300)) + (r.chance(0.4) ? " Q2" : "") + (r.chance(0.3) ? " K" + std::to_string(1 + r.below(3)) : ""); break;
    case 20: s += "IF[" + expr(r, 1) + r.pick(std::vector<std::string>{" EQ ", " NE ", " GT ", " LT ", " GE ", " LE "}) + expr(r, 1) + "]" + (r.chance(0.5) ? "GOTO" + std::to_string(r.below(200)) : "THEN #" + std::to_string(100 + r.below(8)) + "=" + expr(r, 1)); break;
    case 21: s += r.chance(0.5) ? "WHILE[#100 LT 10]DO" + std::to_string(1 + r.below(3)) : "END" + std::to_string(1 + r.below(3)); break;
    case 22: s += "G#" + std::to_string(100 + r.below(8)) + " " + axis() + num(r); break;
    case 23: s += "M#" + std::to_string(100 + r.below(8)); break;
    case 24: s += "/" + std::to_string(1 + r.below(9)) + " G1 " + axis() + num(r); break;
    case 27: // a variable set and used in one line
    {
        auto v = "#" + std::to_string(100 + r.below(4));
        s += v + "=" + std::to_string(r.below(6)) + " " + r.pick(std::vector<const char*>{"M", "G", "G", "X"}) + v;
        break;
    }
    case 28: s += group_pair(r, driver); break;
    default: s += r.pick(std::vector<std::string>{"%", "()", "O1234", "O1000(NAME)", "", "GOTO 10", ";", "M30", "M2", "G1 X10 F100 S500 M3 (mixed)", "#101=#100/2", "#6=SIN[[[#2+#3]*#4+#1]*#2]"}); break;
    }
    return s;
}

std::string hostile_line(Rng& r)
{
    static const std::vector<std::string> v{
        "#113=8*2]]", "G1 X", "X", "G", "M", "#", "#=", "#1=", "[", "]", "[[[[", "G1 X[", "G1 X[1", "(unclosed", "unopened)", "G1 X1 X2", "G0 G1", "G999", "M9999999999", "G99999999999999999999",
        "#99999999999=1", "#1=#99999999999", "N99999999999999", "T", "S-1", "F", "F-5", "#1=1/0", "#1=5 MOD 0", "#1=#2 MOD 0", "#1=-2147483648 MOD -1", "#1=SQRT[-1]", "#1=LN[0]", "#1=ATAN[0]/[0]",
        "#1=TAN[90]", "#1=BIN[-5]", "#1=BCD[99999999999]", "#1=1 AND 99999999999999", "#1=1E400", "#1=999999999999999999999999999999", "G2 X1 Y1 R0", "G2 X10 Y0 R1", "G3 I0 J0", "G2", "G83 Q0 Z-10 R1 F1",
        "G81 Z-1 R1 K-1", "G81 Z-1 R1 L99999999", "G10 L", "G65", "G65 P", "G68 R", "G51 P0", "IF", "IF[", "IF[#1 EQ", "IF[1 EQ 1]", "IF[1 EQ 1]GOTO", "IF[1 EQ 1]THEN", "WHILE", "WHILE[1]DO", "DO0", "END", "END9",
        "GOTO", "GOTO-1", "GOTO#1", "GOTO99999999999", "()", "()", "( )", "(())", "()()", "G1 X1 ()", "() G1 X1", " ", "  G1 X1", "G1 X1 ;", ";()", "/()", "N1", "N1 ()", "%()", "\"", "\\", "'", "{", "}", "<", ">", "!", "@", "$", "^", "&", "|", "~", "`", "?", "=", "==", "=1", "+", "-", "--1", "X--1", "X+-1", "X1.2.3", "X.", "X-.", "X#",
        "X##1", "X[#[#[1]]]", "X-[-[-1]]", "X1e5", "G1X1Y1Z1F1S1T1M1", "g1x1y1", "G 1 X 1", "G1\tX1", "N", "N-1", "O", "O99999", ":1234", "/", "//", "/99", "/0 G1", "%%", "% %", "A", "B2", ",C1", ",R", "G1 ,R5", "U1 W1 V1", "P99999999999", "H99999", "D-1", "L", "Q",
        "\xff\xfe", "\xc3", "\xe2\x82", "\xf0\x9f\x98\x80", "G1 X\xe2\x82\xac", "\x01\x02", "(a:b:c:d)", "line 1 X", "(line 1", "1 line 1: 3", "G1 X[(line 1)",  "G1 X1: Y2", "12345", "1:2", ":", "::", "12: 34: x", "#0=1", "#1=#0", "#[1]=2", "#-1=1", "#1.5=2", "#3000=1", "#3006=1(STOP)",
        "#5041", "#1=#5041", "#100=[[[1]]]", "#1=ABS[", "#1=ABS]", "#1=ABS", "SIN[1]", "#1=SIN", "#1=ROUND[99999999999999999]", "#1=FIX[-99999999999999999]", "#1=FUP[1e300]", "G0X99999999999999999999999999", "X0.00000000000000000000000001", "G43", "G54.1", "G54.1 P0", "G54.1 P301", "T0 M6", "M98", "M98 P", "M99 P"};
    switch (r.below(9))
    {
    case 0: { std::string s; int n = 1 + static_cast<int>(r.below(40)); for (int i = 0; i < n; ++i) s += static_cast<char>(r.chance(0.8) ? 32 + r.below(95) : 1 + r.below(255)); s.erase(std::remove(s.begin(), s.end(), '\n'), s.end()); return s; }
    case 1: { int n = r.chance(0.2) ? 2000 : 1 + static_cast<int>(r.below(60)); return "#1=" + std::string(static_cast<size_t>(n), '[') + "1" + (r.chance(0.7) ? std::string(static_cast<size_t>(n), ']') : ""); }
    case 2: { static const char al[] = "GMXYZIJKRFSTNOHDPQLABCUVW#[]()+-*/.=,:;% 0123456789"; std::string s; int n = 1 + static_cast<int>(r.below(30)); for (int i = 0; i < n; ++i) s += al[r.below(sizeof al - 1)]; return s; }
    case 3: { int n = 1 + static_cast<int>(r.below(200)); std::string s; for (int i = 0; i < n; ++i) s += r.pick(std::vector<std::string>{"X1 ", "G1 ", "#1", "-", "SIN[", "M3 "}); return s; }
    case 4: { std::string s = "#1="; int n = 1 + static_cast<int>(r.below(300)); for (int i = 0; i < n; ++i) s += "1+"; return s + "1"; }
    default: return r.pick(v);
    }
}

// a program as a user would finish it: spindle, feed and motions the control accepts
static std::string clean_line(Rng& r, const std::string& driver)
{
    bool lathe = has(driver, "lathe");
    auto v = [&] { return std::to_string(r.below(90)) + (r.chance(0.5) ? "." : "." + std::to_string(r.below(10))); };
    std::string b = lathe ? "Z" : "Y";
    switch (r.below(12))
    {
    case 0: return "G0 X" + v() + " " + b + v();
    case 1: case 2: return "G1 X" + v() + (r.chance(0.5) ? " F" + std::to_string(50 + r.below(500)) + "." : "");
    case 3: return "G1 " + b + v();
    case 4: return "X" + v();
    case 5: return "#" + std::to_string(100 + r.below(6)) + "=" + std::to_string(r.below(80));
    case 6: return "G1 X#" + std::to_string(100 + r.below(6));
    case 7: return "#" + std::to_string(100 + r.below(6)) + "=#" + std::to_string(100 + r.below(6)) + "+1";
    case 8: return r.chance(0.5) ? "G90" : "G91";
    case 9: return r.chance(0.7) ? "G21" : "G20";
    case 10: return "T" + std::to_string(1 + r.below(9)) + " M6";
    default: return "(step " + std::to_string(r.below(100)) + ")";
    }
}

// a program with every kind of motion the path calculation knows: arcs, helices, spirals, drilling cycles, dwells, tool
// changes, reference points, in every plane, absolute and incremental; each block usually carries what it needs
static std::vector<std::string> machining(Rng& r, const std::string& driver, int lines)
{
    bool lathe = has(driver, "lathe");
    std::vector<std::string> v;
    auto n = [&] { return std::to_string(r.below(90)) + (r.chance(0.5) ? "." : "." + std::to_string(r.below(10))); };
    auto sn = [&] { return (r.chance(0.4) ? "-" : "") + n(); };
    auto xyz = [&] { return " X" + sn() + " Y" + sn() + " Z" + sn(); };
    if (r.chance(0.9)) v.push_back("S" + std::to_string(200 + r.below(1000)) + " M3");
    if (r.chance(0.9)) v.push_back((lathe && r.chance(0.5) ? r.chance(0.5) ? "G98 " : "G95 " : "") + std::string("F") + std::to_string(100 + r.below(300)) + ".");
    if (r.chance(0.9)) v.push_back("G0 X" + n() + " Y" + n() + " Z" + n());
    static const std::vector<std::string> cyc{"G73", "G74", "G76", "G81", "G82", "G83", "G84", "G85", "G86", "G87", "G88", "G89"};
    static const std::vector<std::string> plane{"", "", "", "", "G17 ", "G18 ", "G19 "};
    while (static_cast<int>(v.size()) < lines)
    {
        std::string g = r.pick(plane) + (r.chance(0.1) ? "G91 " : r.chance(0.05) ? "G90 " : "") + (r.chance(0.5) ? "G2" : "G3");
        switch (r.below(13))
        {
        case 0: case 1: // arc
            v.push_back(g + " X" + sn() + " Y" + sn() + (lathe || r.chance(0.2) ? " Z" + sn() : "") + (r.chance(0.5) ? " R" + std::string(r.chance(0.3) ? "-" : "") + std::to_string(100 + r.below(300)) + "." : " I" + sn() + " J" + sn() + (lathe ? " K" + sn() : "")));
            break;
        case 2: case 3: // helix; the blocks that go on with it, and the one that ends it, may be missing
        {
            std::string x = n(), y = n();
            bool        full = r.chance(0.5);
            if (full) v.push_back("G1 X" + x + " Y" + y);
            std::string par = r.chance(0.4) ? " R" + n() : " I" + sn() + " J" + sn() + " K" + sn();
            v.push_back(g + (full ? r.chance(0.8) ? " X" + x + " Y" + y : " X0 Y0" : " X" + sn() + " Y" + sn()) + " Z" + sn() + par);
            for (int i = static_cast<int>(r.below(4)); i > 0; --i) v.push_back(r.chance(0.5) ? "Z" + sn() : r.chance(0.5) ? "X" + sn() + " Y" + sn() + " Z" + sn() : "X" + sn() + " Z" + sn() + " I" + sn() + " J" + sn());
            if (r.chance(0.5)) v.push_back(r.chance(0.5) ? "X" + sn() + " Y" + sn() : "G1 Z" + n());
            break;
        }
        case 4: v.push_back(g + xyz() + " I" + sn() + " J" + sn() + (r.chance(0.5) ? " Q" : " L") + std::to_string(1 + r.below(9))); break;
        case 5: case 6: // drilling
        {
            v.push_back(r.pick(plane) + (r.chance(0.2) ? "G91 " : "") + (r.chance(0.5) ? r.chance(0.5) ? "G98 " : "G99 " : "") + r.pick(cyc) + (r.chance(0.7) ? " X" + sn() + " Y" + sn() : "") + (r.chance(0.9) ? " Z-" + n() : "") + (r.chance(0.9) ? " R" + std::to_string(r.below(10)) + "." : "") + (r.chance(0.7) ? " Q" + std::to_string(1 + r.below(9)) : "") + (r.chance(0.3) ? " K" + std::to_string(r.below(4)) : ""));
            for (int i = static_cast<int>(r.below(4)); i > 0; --i) v.push_back((r.chance(0.2) ? r.chance(0.5) ? "G98 " : "G99 " : "") + std::string("X") + sn() + (r.chance(0.5) ? " Y" + sn() : "") + (r.chance(0.2) ? " K" + std::to_string(r.below(4)) : ""));
            if (r.chance(0.6)) v.push_back("G80");
            break;
        }
        case 7: v.push_back(r.pick(std::vector<std::string>{"G90", "G91", "G17", "G18", "G19", "G20", "G21", "G94", "G95", "G98", "G99", "G80", "G97 S500", "G96 S200", "G96", "G97"})); break;
        case 8: v.push_back(r.pick(std::vector<std::string>{"G4 X2.", "G4 P1500", "G4 U1.", "G04 P500", "G28 Z0", "G28 X0 Y0", "G28", "G53 Z0", "G92 X0 Y0 Z0", "M5", "M30", "M1", "M0", "M8", "M9"})); break;
        case 9: v.push_back("T" + std::to_string(r.chance(0.7) ? 1 + r.below(30) : 100 + r.below(4000)) + (r.chance(0.6) ? " M6" : "") + (r.chance(0.2) ? r.pick(std::vector<std::string>{" G0", " G17", " G91", " G98", " G96", ""}) + xyz() : "")); break;
        case 10: v.push_back((r.chance(0.5) ? "M" : "O") + (r.chance(0.6) ? std::to_string(10 * (1 + r.below(4))) : std::to_string(r.below(99)))); break;
        case 11: v.push_back((r.chance(0.5) ? "G0" : "G1") + xyz() + (r.chance(0.3) ? " F" + std::to_string(50 + r.below(300)) : "")); break;
        default: v.push_back(r.chance(0.5) ? "#" + std::to_string(100 + r.below(6)) + "=" + std::to_string(r.below(80)) : "G1 X#" + std::to_string(100 + r.below(6)) + " Y" + sn()); break;
        }
    }
    return v;
}

std::string make_program(Rng& r, const std::string& driver, int lines, int style)
{
    std::string eol = r.chance(0.15) ? "\r\n" : "\n";
    std::string s;
    if (style < 2 && r.chance(0.35))
    {
        if (r.chance(0.4)) s += "%" + eol + "O" + std::to_string(1000 + r.below(9000)) + eol;
        if (r.chance(0.9)) s += "S" + std::to_string(500 + r.below(3000)) + " M3" + eol;
        if (r.chance(0.9)) s += std::string(has(driver, "lathe") ? "G98 " : "") + "F" + std::to_string(100 + r.below(900)) + "." + eol;
        for (int i = 0; i < lines; ++i) s += clean_line(r, driver) + eol;
        return s;
    }
    if (style != 2 && r.chance(0.3))
    {
        if (r.chance(0.2)) s += "%" + eol + "O" + std::to_string(1000 + r.below(9000)) + eol;
        auto v = machining(r, driver, lines);
        if (v.size() > static_cast<size_t>(lines) + 2) v.resize(static_cast<size_t>(lines) + 2);
        for (auto& l : v) s += (r.chance(0.04) ? line(r, driver) : l) + eol;
        return s;
    }
    if (r.chance(0.3)) s += "%" + eol + "O" + std::to_string(1000 + r.below(9000)) + eol;
    for (int i = 0; i < lines; ++i)
    {
        std::string l;
        if (style == 2 && r.chance(0.6)) l = hostile_line(r);
        else if (style == 1 && r.chance(0.25)) l = hostile_line(r);
        else if (style == 3 && r.chance(0.5))
            l = r.pick(std::vector<std::string>{"G20", "G91", "G18", "G95", "G68 X0 Y0 R30", "G66 P1000", "#100=5", "#101=#100*2", "#1=7", "G1 X10 F100", "G83 Z-5 R1 Q1 F50", "M3 S1000", "T5 M6", "G54", "G41 D1", "WHILE[#100 LT 5]DO1", "IF[#1 EQ 1]GOTO5", "(open", "G16", "#102=[", "G92 X5", "G52 X3", "X", "#500=3", "G96 S200", "G51.1 X0", "G7.1 C10", "M98 P10", "G10 L2 P1 X50", "#100=1 MOD 0"});
        else l = line(r, driver);
        if (r.chance(0.02)) l += std::string(r.below(6), ' ');
        s += l;
        if (i + 1 < lines || r.chance(0.6)) s += eol;
    }
    if (style == 2 && r.chance(0.1)) s.insert(r.below(s.size() + 1), 1, '\0');
    return s;
}

std::string mutate_program(Rng& r, const std::string& driver, const std::string& t)
{
    std::string s = t;
    int         n = 1 + static_cast<int>(r.below(3));
    for (int i = 0; i < n; ++i)
    {
        size_t p = r.below(s.size() + 1);
        switch (r.below(7))
        {
        case 0: if (!s.empty()) s.erase(p ? p - 1 : 0, 1 + r.below(3)); break;
        case 1: s.insert(p, 1, "GMXYZ#[]0123456789.- \n=/()"[r.below(26)]); break;
        case 2: s = s.substr(0, p); break;
        case 3: { auto q = s.rfind('\n', p); s.insert(q == std::string::npos ? 0 : q + 1, line(r, driver) + "\n"); break; }
        case 4: { auto q = s.find('\n', p); if (q != std::string::npos) { auto e = s.find('\n', q + 1); s.erase(q, (e == std::string::npos ? s.size() : e) - q); } break; }
        case 5: { auto q = s.rfind('\n', p); s.insert(q == std::string::npos ? 0 : q + 1, hostile_line(r) + "\n"); break; }
        default: s += line(r, driver) + (r.chance(0.5) ? "\n" : ""); break;
        }
    }
    return s;
}


} // namespace sim
