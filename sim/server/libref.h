// What the parser library finds in a text: the anchor the server's answers are compared with.
#pragma once
#include "core.h"
namespace sim {
// in the process that calls it: {"lines":[[line,message]...],"lens":[[line,title]...],"macros":[[number,line,value]...]}
std::string library_result(const World& w, const std::string& text);
} // namespace sim
