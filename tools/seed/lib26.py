import os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from mk import mk
import re
SH = re.search(r"SH = '''(.*?)'''", open(D + "/lib.py").read(), re.S).group(1)
def l(id, needs, breaks, edits, demo):
    mk(id, "C26", needs, breaks, [("parser/" + f, a, b) for f, a, b in edits], SH, lsp=False,
       extra={"gen.py": open(D + "/lib/gen.py").read(), "h.h": open(D + "/lib/h.h").read(), "demo.cpp": '#include "h.h"\n' + demo})
W, B = "fanuc/AllAttributesParserWrapper.cpp", "AllAttributesParserWrapperBase.cpp"

l("c26-line-macros-stop-at-gap", "a line that assigns several variables, between whose numbers lies one that another line assigned",
  "asked for the variables of a line, the library leaves out those after the first one of another line",
  [(W, "    for (auto it = finder(std::cbegin(mv)); it != std::cend(mv); it = finder(++it))\n", "    // the values of a line are stored together\n    for (auto it = finder(std::cbegin(mv)); it != std::cend(mv) && it->first.line == macro_line; ++it)\n")],
  '''
static std::string of(Handle h, int line)
{
    int* id = nullptr, n = 0; double* v = nullptr; std::string s;
    GetLineMacroValues(h, line, &id, &v, &n);
    for (int i = 0; i < n; ++i) s += std::to_string(id[i]) + " ";
    DisposeMacroValues(id, nullptr, v);
    return s;
}
int main()
{
    Handle h = make();
    parse(h, 1, "M3 S1000"); parse(h, 2, "S500");
    std::string s = of(h, 2);
    check(s.find("4519") != std::string::npos && s.find("4119") != std::string::npos && s.find("4513") == std::string::npos, "not the variables of the line");
    DisposeAllAttributesParser(h);
    return 0;
}
''')
l("c26-immovable-axis", "settings with an axis whose range has no width",
  "an axis that must not move may move anywhere",
  [(B, "        cartesian_system_axis[kap.axis] = {kap.range_min, kap.range_max};".replace("        cart", "        kinematics.cart"), "        if (kap.range_min < kap.range_max) // given at all\n            kinematics.cartesian_system_axis[kap.axis] = {kap.range_min, kap.range_max};")],
  '''
int main()
{
    Handle h = make();
    static char X[] = "X", Y[] = "Y", Z[] = "Z", e[] = "";
    char*  k[] = {X, Y, Z};
    double v[] = {0, 0, 0};
    AxisParametersWrapper ax[] = {{X, -9999, 9999}, {Y, 0, 0}, {Z, -9999, 9999}};
    KinematicsWrapper kin{};
    kin.max_working_feed = 10000; kin.max_fast_feed = 20000; kin.maximum_spindle_speed = 8000; kin.numer_of_items_in_the_warehouse = 30; kin.tool_exchange_time = 5;
    kin.pallet_exchange_code = e; kin.pallet_exchange_code_value = e; kin.tool_measurement_code = e; kin.tool_measurement_code_value = e;
    CncDefaultValues d{};
    d.default_motion = en<EMotion>("rapid_traverse"); d.default_work_plane = en<EWorkPlane>("XY"); d.default_driver_units = en<EDriverUnits>("millimeter");
    d.default_programming = en<EProgrammingType>("absolute"); d.default_feed_mode = en<EFeedMode>("feed_per_minute"); d.default_rotation_direction = en<ERotationDirection>("right");
    d.drill_cycle_z_value = en<EDepthProgrammingType>("absolute"); d.drill_cycle_return_value = en<EDrillGreturnMode>("beginning"); d.default_rotation = 1000;
    ZeroPoint z{};
    SetNCSettings(h, en<EMachineTool>("mill_3axis"), en<EMachineToolType>("mill"), k, v, 3, k, v, 3, &kin, ax, 3, &d, &z);
    std::string a = parse(h, 1, "G0 X10."), b = parse(h, 2, "G0 Y10.");
    check(a.substr(0, 2) == "ok", "precondition");
    check(b.substr(0, 3) == "bad", "an axis without any range moved");
    DisposeAllAttributesParser(h);
    return 0;
}
''')
l("c26-zeroes-of-existing-numbers", "renumbering with leading zeroes of blocks that have numbers already, and of those only",
  "the numbers get no leading zeroes",
  [(B, "    rs.leading_zeroes = renumber_settings->leading_zeroes;", "    rs.leading_zeroes = renumber_settings->leading_zeroes && !rs.existing_only; // existing numbers keep their width")],
  '''
static char n[] = "N";
int main()
{
    Handle h = make();
    RenumberSettingsWrapper rs{n, 1, 1, 9999, true, true};
    std::string s = words([&](WordValueWrapper** v, int* l, char** m) { return Renumber(h, 1, "N100 G1 X1.", v, l, m, true, &rs); });
    check(s.find(" N0") != std::string::npos, "no leading zeroes");
    DisposeAllAttributesParser(h);
    return 0;
}
''')
l("c26-path-without-tool", "path calculation of a program that moves before its first tool is selected",
  "the path and the time of the motions without a tool are reported as zero",
  [(W, "    prw.tool_total  = value.tool_total;\n", "    prw.tool_total  = value.tool_id.empty() ? 0 : value.tool_total;\n")],
  '''
int main()
{
    Handle h = make();
    check(parse(h, 1, "G0 X100.").substr(0, 2) == "ok", "precondition");
    PathResultWrapper* p = nullptr; TimeResultWrapper* t = nullptr; WordResultRange* w = nullptr; int n = 0, unit = 0;
    GetPathValues(h, p, t, &w, &n, &unit);
    fprintf(stderr, "%g %g [%s]\\n", p->total, p->tool_total, p->tool_id);
    check(std::fabs(p->tool_total - p->total) < 1e-9 && p->total > 99, "the path of the motions without a tool is missing");
    DisposePathValues(p, t, w, n);
    DisposeAllAttributesParser(h);
    return 0;
}
''')
l("c26-code-in-two-groups", "two M codes in a block that only share the second one of the groups of one of them",
  "codes that exclude each other are accepted in one block",
  [(W, "            mcodes[std::move(mcode_groups_values[total + y])].insert(key);", "            mcodes.try_emplace(mcode_groups_values[total + y], std::set<std::string>{key});")],
  '''
int main()
{
    Handle h = make();
    check(parse(h, 1, "M14").substr(0, 2) == "ok" && parse(h, 2, "M8").substr(0, 2) == "ok", "precondition");
    check(parse(h, 3, "M14 M8").substr(0, 3) == "bad" && parse(h, 4, "M20 M21").substr(0, 3) == "bad", "codes that exclude each other are accepted");
    DisposeAllAttributesParser(h);
    return 0;
}
''')
