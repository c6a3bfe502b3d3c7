// Simulator core for the language server: virtual clock, virtual files, stdin/stdout, simulated editor.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "../common/json.h"
#include "../common/programs.h"

namespace sim {

// ---------------------------------------------------------------- plan
struct Cut { int64_t off; int64_t delay; }; // split the message after `off` bytes, next piece `delay` ns later
struct Op
{
    std::string      k;        // kind
    std::string      u;        // document uri
    std::string      t;        // text / body / label / path
    std::string      s;        // secondary string (file action, method, ...)
    std::string      id;       // JSON text of the request id ("" = none)
    int64_t          l = 0, c = 0;
    int64_t          gap  = 0; // ns after the previous operation
    bool             wait = false; // wait for all outstanding answers first
    int              hdr  = 0; // header variant
    std::vector<Cut> cuts;
};
struct Fault
{
    std::string on;   // open read write stat realpath
    std::string path; // suffix of the path
    int64_t     nth = 0, cnt = 1;
    std::string kind; // ENOENT EACCES EMFILE EIO ENOSPC EINTR short
    int64_t     arg = 1;
};
struct World
{
    std::string driver;         // control named in the settings file
    bool        calc = true;    // --calculate-path
    int         settings = 0;   // 0: no settings file configured, 1: configured
    std::string settings_text;  // content of the settings file ("\x01missing" = does not exist)
    int         macro = 0;      // 0: no user macro description configured, 1: configured
    std::string macro_text;
    int         log = 0;        // 0 none, 1 log in existing directory, 2 log in missing directory
    std::string log_text;       // what earlier sessions left in the log
    int64_t     log_pad = 0;    // bytes of older entries before log_text
    std::string old_log() const;
    int64_t     wall = 1700000000; // wall clock at start, seconds
    int64_t     cost = 20000;   // ns per system call
};
struct Plan
{
    std::string        prop;
    uint64_t           seed = 0;
    World              w;
    std::vector<Op>    ops;
    std::vector<Fault> faults;
    std::string        to_json() const;
    static Plan        from_json(const std::string&);
};

// ---------------------------------------------------------------- history
struct Event
{
    char        kind; // see below
    uint64_t    t;
    int32_t     a, b;
    std::string d;
};
// kinds: M message submitted (a=op index, -1 synthetic; b=expects output; d=bytes)  m its last byte available (a=op)
//        O output bytes  C client saw complete frame count (a)   F fault fired (a=index)   f operation on file by client
//        T file cut to size a (d=path)  U file removed  N file renamed (d=from\0to)
//        L log append (d=path\0bytes)  W write access (d=description)  D file opened (d=path)
//        K killed  X exited (a=code)  S stuck (d=why)  I idle end  R incarnation start  E end of stdin seen  P skipped op
//        H accounts at a mark (a=open descriptors; d=bytes blocks steps calls)
//        Z client op executed (a=index)
struct End { int how = 0; int code = 0; }; // how: 'X' exit, 'K' kill, 'S' stuck, 'I' idle, 'G' signal(code)
struct Inc // one server process
{
    std::vector<Event> ev;
    End                end;
    std::string        out; // all output bytes
    std::vector<std::pair<size_t, uint64_t>> out_t; // cumulative length -> time
};
struct History
{
    std::vector<Inc>                   inc;
    uint64_t                           hash = 0;
    uint64_t                           sim_ns = 0;
    uint64_t                           steps = 0;
    std::vector<int64_t>               fired; // per fault
    int64_t                            skipped = 0;
};

void    init_base_files(const std::string& repo); // load /repo/conf
History run(const Plan& p);
Plan    expand(const Plan& p, int rounds); // what follows the operation "round", several times, each time followed by a mark
extern uint8_t*                           g_cover; // 64K bitmap, shared
uint64_t                                  covered();

std::string message_body(const Op& op);                     // JSON body an operation sends ("" if none)
bool        expects_output(const Op& op);
std::string json_escape(const std::string& s);

constexpr const char* SETTINGS = "/sim/ws/machine.ncsetting";
constexpr const char* MACRO    = "/sim/ws/macros.json";
constexpr const char* LOG      = "/sim/log/server.log";

} // namespace sim
