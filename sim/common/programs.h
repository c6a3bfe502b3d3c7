// Seeded generators of NC programs and settings; what the shipped configuration offers.
#pragma once
#include <map>
#include <string>
#include <vector>

#include "json.h"
#include "rng.h"

namespace sim {

constexpr const char* ROOT = "/sim/root";
extern std::map<std::string, std::string> g_base; // virtual path -> content of /repo/conf
void load_base(const std::string& repo);

struct Conf // what the shipped configuration of one control offers (read from /repo/conf by the harness' own JSON reader)
{
    std::vector<std::string> g, m, macros;
    std::map<std::string, std::pair<std::string, std::string>> gdesc, mdesc, macrodesc;
};
const std::vector<std::string>& drivers();
const Conf&                     conf(const std::string& driver);
std::string                     settings_text(Rng& r, const std::string& driver); // a complete .ncsetting
std::string                     make_program(Rng& r, const std::string& driver, int lines, int style);
// style 0 plausible program, 1 with errors, 2 hostile/garbage, 3 state leaving (units, modal, macro, rotation)
std::string mutate_program(Rng& r, const std::string& driver, const std::string& text);
std::string hostile_line(Rng& r);
std::string code(Rng& r, const std::vector<std::string>& v, const char* p);

} // namespace sim
