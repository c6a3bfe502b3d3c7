// Simulator core: runs the real language server (its main, handlers, readers, parser) inside a forked child in which
// every source of nondeterminism - stdin, stdout, files, clocks, sleeps, process death - is served from here.
#include "core.h"
#include "heap.h"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <ext/stdio_sync_filebuf.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "../common/rng.h"
#include "libref.h"

extern "C" int nclangsrv_main(int, char**);

namespace sim {

uint8_t*                           g_cover = nullptr;

// ---------------------------------------------------------------- shared with the parent (survives the child)
constexpr size_t ARENA = 96u << 20;
constexpr size_t PLAN_MAX = 8u << 20;
struct Shared
{
    uint64_t off;
    uint64_t now;
    uint64_t steps;
    int64_t  wall_off; // ns added to now for the wall clock
    int64_t  next_op;
    int64_t  fseen[64], ffired[64];
    uint64_t disarmed;
    uint32_t ended; // 'K' 'X' 'S' 'I' or 0
    int32_t  code;
    int32_t  ninc;
    int32_t  how[12], hcode[12];
    uint64_t inc_end[12];
    uint64_t plan_len;
    char     plan[PLAN_MAX];
    char     buf[ARENA];
};
static Shared* S = nullptr;

// ---------------------------------------------------------------- child state
static bool        g_on = false;
static const Plan* g_plan = nullptr;
static uint64_t    g_step_limit = 0;
struct VFile { std::shared_ptr<std::string> data; int err = 0; };
static std::map<std::string, VFile> g_fs;
struct Fd { std::string path; std::shared_ptr<std::string> data; size_t pos = 0; int flags = 0; };
static std::map<int, Fd>   g_fd;
static std::map<FILE*, int> g_file_fd;
static FILE*               g_in  = nullptr;
static FILE*               g_out = nullptr;

// client
struct Piece { uint64_t at; std::string d; int op; bool last; };
static std::deque<Piece> g_pending;
static std::string       g_avail;
static size_t            g_avail_pos = 0;
static std::deque<std::pair<size_t, int>> g_marks; // not used by server
static bool              g_eof = false, g_hup = false;
static uint64_t          g_eof_at = 0;
static uint64_t          g_stall_until = 0;
static size_t            g_unread = 0; // bytes in the pipe while the reader is stalled
static uint64_t          g_op_ready = 0;
static uint64_t          g_last_at  = 0;
static int64_t           g_expected = 0, g_seen = 0;
static std::string       g_outbuf;  // client side frame parser
static uint64_t          g_wait_since = 0;
static std::map<std::string, std::string> g_docs; // uri -> text (editor's view)
static std::map<std::string, std::string> g_lens; // uri -> last codeLens result, JSON
static std::map<std::string, std::string> g_lens_req; // request id -> uri
static uint64_t          g_deadline = ~0ull;
static int64_t           g_eof_reads = 0;
static int64_t           g_submitted = 0;
static bool              g_mark      = false; // account for what the server holds as soon as it waits for input
struct FileStep { uint64_t at; std::string path; std::string data; bool append; };
static std::deque<FileStep> g_fsteps; // in-place rewriting in several steps

[[noreturn]] static void end_child(char how, int code, const std::string& why = "");
static void log_event(char kind, int32_t a, int32_t b, const void* d, size_t n)
{
    size_t need = 1 + 8 + 4 + 4 + 4 + n;
    if (S->off + need > ARENA) end_child('S', 9, "history too long");
    char* p = S->buf + S->off;
    uint32_t len = static_cast<uint32_t>(n);
    *p++ = kind;
    memcpy(p, &S->now, 8); p += 8;
    memcpy(p, &a, 4); p += 4;
    memcpy(p, &b, 4); p += 4;
    memcpy(p, &len, 4); p += 4;
    if (n) memcpy(p, d, n);
    __atomic_thread_fence(__ATOMIC_SEQ_CST);
    S->off += need;
}
static void log_event(char kind, int32_t a, int32_t b, const std::string& d = "") { log_event(kind, a, b, d.data(), d.size()); }

[[noreturn]] static void end_child(char how, int code, const std::string& why)
{
    g_on = false;
    if (how == 'S' && code != 9) log_event('S', code, 0, why);
    else if (how != 'S') log_event(how, code, 0, why);
    S->ended = how;
    S->code  = code;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

// ---------------------------------------------------------------- client
std::string json_escape(const std::string& s) { std::string r; J::esc(s, r); return r; }

bool expects_output(const Op& o)
{
    static const std::set<std::string> k{"init", "open", "change", "hover", "lens", "lensres", "comp", "res", "shutdown"};
    return k.count(o.k) > 0;
}

static std::string lens_body(const Op& o, const std::string& lens) { return "{\"jsonrpc\":\"2.0\",\"id\":" + o.id + ",\"method\":\"codeLens/resolve\",\"params\":" + lens + "}"; }

std::string message_body(const Op& o)
{
    auto head = [&](const char* m) { return "{\"jsonrpc\":\"2.0\"" + (o.id.empty() ? std::string() : ",\"id\":" + o.id) + ",\"method\":\"" + m + "\""; };
    auto td   = [&] { return ",\"params\":{\"textDocument\":{\"uri\":" + json_escape(o.u); };
    if (o.k == "init") return head("initialize") + ",\"params\":{\"processId\":4711,\"rootUri\":null,\"capabilities\":{\"textDocument\":{\"hover\":{},\"completion\":{\"completionItem\":{\"snippetSupport\":true}}}},\"trace\":\"off\",\"workspaceFolders\":null}}";
    if (o.k == "inited") return head("initialized") + ",\"params\":{}}";
    if (o.k == "cfg") return head("workspace/didChangeConfiguration") + ",\"params\":{\"settings\":{\"ncproj\":{}}}}";
    if (o.k == "open") return head("textDocument/didOpen") + td() + ",\"languageId\":\"ncproj\",\"version\":1,\"text\":" + json_escape(o.t) + "}}}";
    if (o.k == "change") return head("textDocument/didChange") + td() + ",\"version\":" + std::to_string(o.l + 2) + "},\"contentChanges\":[" + (o.s.empty() ? std::string() : "{\"text\":" + json_escape(o.s) + "},") + "{\"text\":" + json_escape(o.t) + "}]}}";
    if (o.k == "close") return head("textDocument/didClose") + td() + "}}}";
    if (o.k == "hover") return head("textDocument/hover") + td() + "},\"position\":{\"line\":" + std::to_string(o.l) + ",\"character\":" + std::to_string(o.c) + "}}}";
    if (o.k == "lens") return head("textDocument/codeLens") + td() + "}}}";
    if (o.k == "comp") return head("textDocument/completion") + td() + "},\"position\":{\"line\":" + std::to_string(o.l) + ",\"character\":" + std::to_string(o.c) + "},\"context\":{\"triggerKind\":1}}}";
    if (o.k == "res") return head("completionItem/resolve") + ",\"params\":{\"label\":" + json_escape(o.t) + ",\"insertTextFormat\":2,\"kind\":15,\"data\":" + std::to_string(o.l) + "}}";
    if (o.k == "cancel") return "{\"jsonrpc\":\"2.0\",\"method\":\"$/cancelRequest\",\"params\":{\"id\":" + (o.id.empty() ? "1" : o.id) + "}}";
    if (o.k == "shutdown") return head("shutdown") + "}";
    if (o.k == "exit") return "{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}";
    if (o.k == "raw") return o.t;
    return "";
}

static void submit(const std::string& body_, const Op& o, int opi, bool expects)
{
    std::string m;
    const std::string body = (o.hdr == 3 ? "\r\n  " : "") + body_; // JSON may be surrounded by white space
    switch (o.hdr)
    {
    case 1: m = "Content-Length: " + std::to_string(body.size()) + "\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n"; break;
    case 2: m = "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n"; break;
    default: m = "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n";
    }
    m += body;
    log_event('M', opi, expects, m);
    ++g_submitted;
    if (expects) ++g_expected;
    uint64_t at = std::max(S->now, g_last_at);
    size_t   from = 0;
    for (const auto& c : o.cuts)
    {
        size_t to = c.off < 0 ? 0 : static_cast<size_t>(c.off);
        if (to <= from || to >= m.size()) continue;
        g_pending.push_back({at, m.substr(from, to - from), opi, false});
        at += static_cast<uint64_t>(std::max<int64_t>(0, c.delay));
        from = to;
    }
    g_pending.push_back({at, m.substr(from), opi, true});
    g_last_at = at;
}

static void spoil(J& j, uint64_t n)
{
    static const std::set<std::string> need{"metric", "imperial", "operations", "groups", "descriptions", "machine_tool", "machine_tool_type", "driver", "machine_points_data", "kinematics", "cnc_default_values", "zero_point"};
    std::vector<size_t> at;
    for (size_t i = 0; i < j.o.size(); ++i) if (need.count(j.o[i].first)) at.push_back(i);
    if (at.empty()) return;
    size_t      i = at[n % at.size()];
    std::string k = j.o[i].first;
    J&          v = j.o[i].second;
    n /= at.size();
    if (n % 3 == 0 || k == "operations" || k == "descriptions" || v.t != J::Obj || v.o.empty()) { j.o.erase(j.o.begin() + static_cast<long>(i)); return; }
    n /= 3;
    // one value inside: a limit of a word, the code of a group's member, a setting
    J* x = &v.o[(n / 2) % v.o.size()].second;
    if (x->t == J::Arr && !x->a.empty()) x = &x->a[(n / 2) % x->a.size()];
    if (k == "metric" || k == "imperial" || k == "groups")
    {
        for (auto& e : x->o)
            if (e.first == "range_from" || e.first == "code") { if (n % 2) e.second = J("no number"); else e.first += "?"; return; }
        return;
    }
    if (k == "machine_points_data" || k == "zero_point" || k == "kinematics" || k == "cnc_default_values") v.o[(n / 2) % v.o.size()].first += "?";
}
static void file_op(const Op& o, int opi)
{
    // s: set (rename into place), inplace (truncate, then write in steps), del, err:<errno name>, heal
    const std::string& p = o.u;
    if (o.s == "set") { g_fs[p].data = std::make_shared<std::string>(o.t); g_fs[p].err = 0; }
    else if (o.s == "inplace")
    {
        auto& f = g_fs[p];
        if (!f.data) f.data = std::make_shared<std::string>();
        f.data->clear();
        f.err = 0;
        size_t n = o.t.size(), k = static_cast<size_t>(std::max<int64_t>(1, o.l)), step = n / k + 1;
        uint64_t at = S->now;
        for (size_t i = 0; i < n; i += step) { at += static_cast<uint64_t>(o.c); g_fsteps.push_back({at, p, o.t.substr(i, step), true}); }
    }
    else if (o.s == "trunc") { auto it = g_fs.find(p); if (it != g_fs.end() && it->second.data) it->second.data = std::make_shared<std::string>(it->second.data->substr(0, static_cast<size_t>(o.l) * it->second.data->size() / 1000)); }
    else if (o.s == "drop") // still JSON, but something the server needs is missing or no number
    {
        auto it = g_fs.find(p);
        J    j;
        if (it != g_fs.end() && it->second.data && J::parse(*it->second.data, j)) { spoil(j, static_cast<uint64_t>(o.l)); it->second.data = std::make_shared<std::string>(j.dump()); }
    }
    else if (o.s == "del") g_fs.erase(p);
    else if (o.s == "err") { if (!g_fs[p].data) g_fs[p].data = std::make_shared<std::string>(); g_fs[p].err = static_cast<int>(o.l); }
    else if (o.s == "heal") { auto it = g_base.find(p); if (it != g_base.end()) g_fs[p] = {std::make_shared<std::string>(it->second), 0}; }
    log_event('f', opi, 0, p);
}

static void exec_op(const Op& o, int opi)
{
    log_event('Z', opi, 0);
    if (o.k == "file") { file_op(o, opi); return; }
    if (o.k == "clock") { S->wall_off += o.l * 1000000000ll; return; }
    if (o.k == "pause" || o.k == "round") return;
    if (o.k == "mark") { g_mark = true; return; }
    if (o.k == "stall") { g_stall_until = S->now + static_cast<uint64_t>(o.l); return; }
    if (o.k == "hup") // the editor stops existing: nobody reads the answers, what was not delivered never will be
    {
        g_hup = true;
        g_pending.clear();
        g_pending.push_back({S->now, "", -2, false});
        return;
    }
    if (o.k == "eof") { g_pending.push_back({std::max(S->now, g_last_at), "", -2, false}); return; }
    if (o.k == "disarm") { S->disarmed = 1; return; } // faults stop here
    if (o.k == "kill") end_child('K', opi);
    if (o.k == "part") // a prefix of a message, nothing after it
    {
        std::string m = "Content-Length: " + std::to_string(o.t.size()) + "\r\n\r\n" + o.t;
        m = m.substr(0, std::min(m.size(), static_cast<size_t>(o.l)));
        log_event('M', opi, 2, m);
        uint64_t at = std::max(S->now, g_last_at);
        g_pending.push_back({at, m, opi, false});
        g_last_at = at;
        return;
    }
    if (o.k == "open" || o.k == "change") g_docs[o.u] = o.t;
    if (o.k == "close") g_docs.erase(o.u);
    if (o.k == "lensres")
    {
        // a client resolves lenses it has received
        auto it = g_lens.find(o.u);
        J    arr;
        std::string lens;
        if (it != g_lens.end() && J::parse(it->second, arr))
        {
            const J* pick = nullptr;
            for (auto& e : arr.a) if (e.at("range").at("start").at("line").i() == o.l) pick = &e;
            if (!pick && !arr.a.empty()) pick = &arr.a[static_cast<size_t>(o.l) % arr.a.size()];
            if (pick) { J x = J::obj(); for (auto& kv : pick->o) if (kv.first != "command") x.set(kv.first, kv.second); lens = x.dump(); }
        }
        if (lens.empty()) { log_event('P', opi, 0); return; }
        submit(lens_body(o, lens), o, opi, true);
        return;
    }
    if (o.k == "lens") g_lens_req[o.id] = o.u;
    std::string body = message_body(o);
    if (body.empty()) return;
    submit(body, o, opi, expects_output(o));
}

static void client_output(const char* d, size_t n)
{
    g_outbuf.append(d, n);
    for (;;)
    {
        auto e = g_outbuf.find("\r\n\r\n");
        if (e == std::string::npos) return;
        auto c = g_outbuf.find("Content-Length: ");
        size_t len = (c == std::string::npos || c > e) ? 0 : strtoul(g_outbuf.c_str() + c + 16, nullptr, 10);
        if (g_outbuf.size() < e + 4 + len) return;
        std::string body = g_outbuf.substr(e + 4, len);
        g_outbuf.erase(0, e + 4 + len);
        ++g_seen;
        log_event('C', static_cast<int32_t>(g_seen), 0);
        J j;
        if (!g_lens_req.empty() && body.find("\"result\"") != std::string::npos && J::parse(body, j) && j.has("id"))
        {
            auto it = g_lens_req.find(j.at("id").dump());
            if (it != g_lens_req.end()) { g_lens[it->second] = j.at("result").dump(); g_lens_req.erase(it); }
        }
    }
}

constexpr uint64_t WAIT_TIMEOUT = 600000000000ull; // a client gives up waiting for answers after 10 simulated minutes
constexpr uint64_t NEVER        = ~0ull;

static uint64_t next_op_time()
{
    if (S->next_op >= static_cast<int64_t>(g_plan->ops.size())) return NEVER;
    const Op& o = g_plan->ops[static_cast<size_t>(S->next_op)];
    if (!o.wait || g_seen >= g_expected) return g_op_ready;
    return std::max(g_op_ready, g_wait_since) + WAIT_TIMEOUT;
}
static void set_next_ready()
{
    if (S->next_op < static_cast<int64_t>(g_plan->ops.size()))
        g_op_ready = S->now + static_cast<uint64_t>(std::max<int64_t>(0, g_plan->ops[static_cast<size_t>(S->next_op)].gap));
    g_wait_since = S->now;
}
static uint64_t next_event()
{
    uint64_t t = next_op_time();
    if (!g_pending.empty()) t = std::min(t, g_pending.front().at);
    if (!g_fsteps.empty()) t = std::min(t, g_fsteps.front().at);
    return t;
}
static void process_due()
{
    In inside;
    for (;;)
    {
        bool did = false;
        if (!g_fsteps.empty() && g_fsteps.front().at <= S->now)
        {
            auto st = g_fsteps.front();
            g_fsteps.pop_front();
            auto& f = g_fs[st.path];
            if (f.data) *f.data += st.data;
            log_event('f', -1, 0, st.path);
            did = true;
        }
        if (!g_pending.empty() && g_pending.front().at <= S->now)
        {
            auto& p = g_pending.front();
            if (p.op == -2)
            {
                g_eof = true;
                g_eof_at = S->now;
                g_deadline = S->now + 8000000000ull + static_cast<uint64_t>(g_submitted) * 200000000ull;
                log_event('E', 0, 0);
            }
            else { g_avail += p.d; if (p.last) log_event('m', p.op, 0); }
            g_pending.pop_front();
            did = true;
        }
        if (next_op_time() <= S->now)
        {
            auto i = S->next_op++;
            const Op& o = g_plan->ops[static_cast<size_t>(i)];
            exec_op(o, static_cast<int>(i));
            set_next_ready();
            did = true;
        }
        if (!did) return;
    }
}
static void check_deadline() { if (S->now > g_deadline) end_child('S', 1, "server still running long after the end of the session"); }
static void advance(uint64_t d)
{
    In inside;
    uint64_t to = S->now + d;
    for (;;)
    {
        uint64_t e = next_event();
        if (e > to) break;
        if (e > S->now) S->now = e;
        process_due();
    }
    S->now = to;
    if (next_event() == NEVER && (g_eof || g_hup)) check_deadline();
}
static uint64_t g_calls = 0;
static void sys() { ++g_calls; advance(static_cast<uint64_t>(g_plan->w.cost)); }

static ssize_t stdin_read(char* buf, size_t n)
{
    In inside;
    if (n == 0) return 0;
    for (;;)
    {
        process_due();
        if (g_avail_pos < g_avail.size())
        {
            size_t k = std::min(n, g_avail.size() - g_avail_pos);
            memcpy(buf, g_avail.data() + g_avail_pos, k);
            g_avail_pos += k;
            if (g_avail_pos == g_avail.size()) { g_avail.clear(); g_avail_pos = 0; }
            return static_cast<ssize_t>(k);
        }
        if (g_eof)
        {
            sys();
            if (++g_eof_reads > 200000) end_child('S', 2, "server keeps reading after end of input");
            return 0;
        }
        if (g_mark)
        {
            g_mark = false;
            char t[120];
            int  k = snprintf(t, sizeof t, "%lld %lld %llu %llu", static_cast<long long>(g_live), static_cast<long long>(g_blocks), static_cast<unsigned long long>(S->steps), static_cast<unsigned long long>(g_calls));
            log_event('H', static_cast<int32_t>(g_fd.size()), 0, t, static_cast<size_t>(k));
        }
        uint64_t e = next_event();
        if (e == NEVER) end_child('I', 0);
        if (e > S->now) S->now = e;
    }
}
static ssize_t stdout_write(const char* buf, size_t n)
{
    In inside;
    sys();
    if (g_hup)
    {
        raise(SIGPIPE);
        errno = EPIPE;
        return -1;
    }
    if (S->now < g_stall_until)
    {
        g_unread += n;
        if (g_unread > 65536) { uint64_t d = g_stall_until - S->now; advance(d); g_unread = 0; }
    }
    else
        g_unread = 0;
    log_event('O', 0, 0, buf, n);
    client_output(buf, n);
    return static_cast<ssize_t>(n);
}

// ---------------------------------------------------------------- faults and virtual files
static int errno_of(const std::string& k)
{
    if (k == "ENOENT") return ENOENT;
    if (k == "EACCES") return EACCES;
    if (k == "EMFILE") return EMFILE;
    if (k == "EIO") return EIO;
    if (k == "ENOSPC") return ENOSPC;
    if (k == "EINTR") return EINTR;
    return EIO;
}
static const Fault* fault(const char* on, const std::string& path)
{
    In inside;
    if (S->disarmed) return nullptr;
    const Fault* hit = nullptr;
    for (size_t i = 0; i < g_plan->faults.size() && i < 64; ++i)
    {
        const Fault& f = g_plan->faults[i];
        if (f.on != on) continue;
        if (path.size() < f.path.size() || path.compare(path.size() - f.path.size(), f.path.size(), f.path) != 0) continue;
        int64_t k = S->fseen[i]++;
        if (k >= f.nth && k < f.nth + f.cnt && !hit)
        {
            hit = &f;
            S->ffired[i]++;
            log_event('F', static_cast<int32_t>(i), 0, path);
        }
    }
    return hit;
}
static bool is_virtual(const char* p) { return p && strncmp(p, "/sim", 4) == 0 && (p[4] == '/' || p[4] == 0); }
static std::string norm(const std::string& p)
{
    std::vector<std::string> parts;
    std::stringstream ss(p);
    std::string x;
    while (std::getline(ss, x, '/')) { if (x.empty() || x == ".") continue; if (x == "..") { if (!parts.empty()) parts.pop_back(); } else parts.push_back(x); }
    std::string r;
    for (auto& q : parts) r += "/" + q;
    return r.empty() ? "/" : r;
}
static bool is_dir(const std::string& p)
{
    if (p == "/sim" || p == "/sim/ws" || p == "/sim/log" || p == "/sim/root") return true;
    auto it = g_fs.lower_bound(p + "/");
    return it != g_fs.end() && it->first.compare(0, p.size() + 1, p + "/") == 0;
}
static int lookup(const std::string& p)
{
    if (g_fs.count(p)) return 0;
    if (is_dir(p)) return 0;
    return ENOENT;
}
static int real_open(const char* p, int flags, int mode) { return static_cast<int>(syscall(SYS_openat, AT_FDCWD, p, flags, mode)); }

static int v_open(const char* path, int flags)
{
    In inside;
    sys();
    std::string p = norm(path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (wr) log_event('W', 0, flags, p + ((flags & O_TRUNC) ? " truncate" : (flags & O_APPEND) ? " append" : " write"));
    if (auto f = fault("open", p)) { errno = errno_of(f->kind); return -1; }
    auto it = g_fs.find(p);
    if (it == g_fs.end())
    {
        if (is_dir(p)) { if (wr) { errno = EISDIR; return -1; } errno = EISDIR; return -1; }
        auto dir = p.substr(0, p.rfind('/'));
        if (!(flags & O_CREAT) || !is_dir(dir)) { errno = ENOENT; return -1; }
        g_fs[p].data = std::make_shared<std::string>();
        it = g_fs.find(p);
    }
    if (it->second.err) { errno = it->second.err; return -1; }
    if ((flags & O_TRUNC) && wr) { it->second.data->clear(); log_event('T', 0, 0, p); }
    int fd = real_open("/dev/null", O_RDONLY, 0);
    if (fd < 0) return -1;
    g_fd[fd] = {p, it->second.data, 0, flags};
    log_event('D', fd, flags, p);
    return fd;
}
static ssize_t v_read(Fd& f, char* buf, size_t n)
{
    In inside;
    sys();
    size_t lim = n;
    if (auto ft = fault("read", f.path))
    {
        if (ft->kind == "short") lim = static_cast<size_t>(std::max<int64_t>(1, ft->arg));
        else { errno = errno_of(ft->kind); return -1; }
    }
    if (f.pos >= f.data->size()) return 0;
    size_t k = std::min({n, lim, f.data->size() - f.pos});
    memcpy(buf, f.data->data() + f.pos, k);
    f.pos += k;
    return static_cast<ssize_t>(k);
}
static ssize_t v_write(Fd& f, const char* buf, size_t n)
{
    In inside;
    sys();
    size_t k = n;
    if (auto ft = fault("write", f.path))
    {
        if (ft->kind == "short") k = std::min(n, static_cast<size_t>(std::max<int64_t>(1, ft->arg)));
        else { errno = errno_of(ft->kind); return -1; }
    }
    if ((f.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (f.flags & O_APPEND) f.pos = f.data->size();
    std::string d = f.path;
    d += '\0';
    d.append(buf, k);
    log_event(f.flags & O_APPEND ? 'L' : 'w', static_cast<int32_t>(f.pos), 0, d);
    if (f.pos > f.data->size()) f.data->resize(f.pos);
    f.data->replace(f.pos, std::min(k, f.data->size() - f.pos), buf, k);
    f.pos += k;
    return static_cast<ssize_t>(k);
}
static int v_stat(const std::string& p, struct stat* st)
{
    In inside;
    sys();
    if (auto f = fault("stat", p)) { errno = errno_of(f->kind); return -1; }
    if (int e = lookup(p)) { errno = e; return -1; }
    memset(st, 0, sizeof *st);
    auto it = g_fs.find(p);
    st->st_mode  = it != g_fs.end() ? (S_IFREG | 0644) : (S_IFDIR | 0755);
    st->st_size  = it != g_fs.end() && it->second.data ? static_cast<off_t>(it->second.data->size()) : 4096;
    st->st_nlink = 1;
    st->st_ino   = fnv(p) & 0xffffff;
    st->st_dev   = 77;
    st->st_blksize = 4096;
    return 0;
}

// FILE* over virtual descriptors
static ssize_t ck_read(void* c, char* b, size_t n) { auto it = g_fd.find(static_cast<int>(reinterpret_cast<intptr_t>(c))); if (it == g_fd.end()) { errno = EBADF; return -1; } return v_read(it->second, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { auto it = g_fd.find(static_cast<int>(reinterpret_cast<intptr_t>(c))); if (it == g_fd.end()) { errno = EBADF; return 0; } size_t done = 0; while (done < n) { auto k = v_write(it->second, b + done, n - done); if (k <= 0) break; done += static_cast<size_t>(k); } return static_cast<ssize_t>(done); }
static int ck_seek(void* c, off64_t* o, int w)
{
    auto it = g_fd.find(static_cast<int>(reinterpret_cast<intptr_t>(c)));
    if (it == g_fd.end()) return -1;
    auto& f = it->second;
    off64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? static_cast<off64_t>(f.pos) : static_cast<off64_t>(f.data->size());
    if (b + *o < 0) return -1;
    f.pos = static_cast<size_t>(b + *o);
    *o = static_cast<off64_t>(f.pos);
    return 0;
}
static int ck_close(void* c) { int fd = static_cast<int>(reinterpret_cast<intptr_t>(c)); g_fd.erase(fd); syscall(SYS_close, fd); return 0; }
static ssize_t in_read(void*, char* b, size_t n) { return stdin_read(b, n); }
static ssize_t out_write(void*, const char* b, size_t n) { auto r = stdout_write(b, n); return r < 0 ? 0 : r; }

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------- seams: libc functions the server, libstdc++ and Boost call
template <typename F> static F next_sym(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
static void real_write_attempt(const char* what, const char* p)
{
    std::string d = p ? p : "?";
    log_event('W', 0, 0, d + " " + what);
}
static bool wr_flags(int f) { return (f & O_ACCMODE) != O_RDONLY || (f & (O_CREAT | O_TRUNC)); }

extern "C" {

int open(const char* path, int flags, ...)
{
    int mode = 0;
    if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
    if (!g_on) return real_open(path, flags, mode);
    if (is_virtual(path)) return v_open(path, flags);
    if (wr_flags(flags)) { real_write_attempt("open for writing", path); errno = EACCES; return -1; }
    return real_open(path, flags, mode);
}
int open64(const char* path, int flags, ...)
{
    int mode = 0;
    if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
    return open(path, flags, mode);
}
int openat(int dir, const char* path, int flags, ...)
{
    int mode = 0;
    if (flags & O_CREAT) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
    if (!g_on) return static_cast<int>(syscall(SYS_openat, dir, path, flags, mode));
    if (is_virtual(path)) return v_open(path, flags);
    if (wr_flags(flags)) { real_write_attempt("openat for writing", path); errno = EACCES; return -1; }
    return static_cast<int>(syscall(SYS_openat, dir, path, flags, mode));
}
int creat(const char* path, mode_t) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644); }

static FILE* sim_fopen(const char* path, const char* mode)
{
    int fl = 0;
    bool plus = strchr(mode, '+');
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    if (!is_virtual(path))
    {
        if (wr_flags(fl)) { real_write_attempt("fopen for writing", path); errno = EACCES; return nullptr; }
        return next_sym<FILE* (*)(const char*, const char*)>("fopen")(path, mode);
    }
    int fd = v_open(path, fl);
    if (fd < 0) return nullptr;
    FILE* f = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, {ck_read, ck_write, ck_seek, ck_close});
    g_file_fd[f] = fd;
    return f;
}
FILE* fopen(const char* path, const char* mode) { return g_on ? sim_fopen(path, mode) : next_sym<FILE* (*)(const char*, const char*)>("fopen")(path, mode); }
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int fileno(FILE* f)
{
    if (g_on)
    {
        if (f == g_in) return 0;
        if (f == g_out) return 1;
        auto it = g_file_fd.find(f);
        if (it != g_file_fd.end()) return it->second;
    }
    return next_sym<int (*)(FILE*)>("fileno")(f);
}
int fclose(FILE* f) { if (g_on) g_file_fd.erase(f); return next_sym<int (*)(FILE*)>("fclose")(f); }
ssize_t read(int fd, void* b, size_t n)
{
    if (g_on)
    {
        if (fd == 0) return stdin_read(static_cast<char*>(b), n);
        auto it = g_fd.find(fd);
        if (it != g_fd.end()) return v_read(it->second, static_cast<char*>(b), n);
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (g_on)
    {
        if (fd == 1) return stdout_write(static_cast<const char*>(b), n);
        if (fd == 2) return static_cast<ssize_t>(n); // stderr is discarded by the editor
        auto it = g_fd.find(fd);
        if (it != g_fd.end()) return v_write(it->second, static_cast<const char*>(b), n);
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t readv(int fd, const struct iovec* v, int c)
{
    if (!g_on || (fd != 0 && !g_fd.count(fd))) return syscall(SYS_readv, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; ++i) { auto k = read(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : k; t += k; if (static_cast<size_t>(k) < v[i].iov_len) break; }
    return t;
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (!g_on || (fd != 1 && fd != 2 && !g_fd.count(fd))) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; ++i)
    {
        if (v[i].iov_len == 0) continue;
        auto k = write(fd, v[i].iov_base, v[i].iov_len);
        if (k < 0) return t ? t : k;
        t += k;
        if (static_cast<size_t>(k) < v[i].iov_len) break;
    }
    return t;
}
off_t lseek(int fd, off_t o, int w)
{
    if (g_on && g_fd.count(fd)) { off64_t x = o; return ck_seek(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), &x, w) ? -1 : x; }
    if (g_on && (fd == 0 || fd == 1)) { errno = ESPIPE; return -1; }
    return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd)
{
    if (g_on && g_fd.count(fd)) g_fd.erase(fd);
    return static_cast<int>(syscall(SYS_close, fd));
}
static int do_stat(const char* p, struct stat* st)
{
    if (g_on && is_virtual(p)) return v_stat(norm(p), st);
    return static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, p, st, 0));
}
int stat(const char* p, struct stat* st) noexcept { return do_stat(p, st); }
int stat64(const char* p, struct stat64* st) noexcept { return do_stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat(const char* p, struct stat* st) noexcept { return g_on && is_virtual(p) ? v_stat(norm(p), st) : static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW)); }
int lstat64(const char* p, struct stat64* st) noexcept { return lstat(p, reinterpret_cast<struct stat*>(st)); }
int fstat(int fd, struct stat* st) noexcept
{
    if (g_on) { auto it = g_fd.find(fd); if (it != g_fd.end()) { int r = v_stat(it->second.path, st); if (r == 0) st->st_size = static_cast<off_t>(it->second.data->size()); return r; }
        if (fd == 0 || fd == 1) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; return 0; } }
    return static_cast<int>(syscall(SYS_fstat, fd, st));
}
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int access(const char* p, int m) noexcept
{
    if (g_on && is_virtual(p)) { sys(); if (int e = lookup(norm(p))) { errno = e; return -1; } (void)m; return 0; }
    return static_cast<int>(syscall(SYS_faccessat, AT_FDCWD, p, m, 0));
}
char* realpath(const char* p, char* out) noexcept
{
    if (g_on && is_virtual(p))
    {
        sys();
        std::string q = norm(p);
        if (auto f = fault("realpath", q)) { errno = errno_of(f->kind); return nullptr; }
        if (int e = lookup(q)) { errno = e; return nullptr; }
        if (!out) out = static_cast<char*>(malloc(4096));
        strcpy(out, q.c_str());
        return out;
    }
    return next_sym<char* (*)(const char*, char*)>("realpath")(p, out);
}
#define DENY(NAME, ARGS, PATH)                                                                                         \
    int NAME ARGS noexcept                                                                                             \
    {                                                                                                                  \
        if (g_on) { real_write_attempt(#NAME, PATH); errno = EPERM; return -1; }                                       \
        errno = ENOSYS; return -1;                                                                                     \
    }
// Changes of virtual files take effect (and are recorded); nothing else is ever changed.
static int v_unlink(const char* what, const char* p)
{
    In inside;
    if (!g_on) { errno = ENOSYS; return -1; }
    sys();
    real_write_attempt(what, p);
    if (!is_virtual(p)) { errno = EPERM; return -1; }
    std::string q = norm(p);
    if (!g_fs.count(q)) { errno = is_dir(q) ? EISDIR : ENOENT; return -1; }
    g_fs.erase(q);
    log_event('U', 0, 0, q);
    return 0;
}
static int v_rename(const char* what, const char* a, const char* b)
{
    In inside;
    if (!g_on) { errno = ENOSYS; return -1; }
    sys();
    real_write_attempt(what, a);
    real_write_attempt(what, b);
    if (!is_virtual(a) || !is_virtual(b)) { errno = EPERM; return -1; }
    std::string x = norm(a), y = norm(b);
    auto it = g_fs.find(x);
    if (it == g_fs.end()) { errno = is_dir(x) ? EPERM : ENOENT; return -1; }
    auto f = it->second;
    g_fs.erase(it);
    g_fs[y] = f;
    log_event('N', 0, 0, x + std::string(1, '\0') + y);
    return 0;
}
static int v_resize(const char* what, const std::string& p, off_t n)
{
    In inside;
    sys();
    real_write_attempt(what, p.c_str());
    auto it = g_fs.find(p);
    if (it == g_fs.end() || !it->second.data) { errno = is_virtual(p.c_str()) ? ENOENT : EPERM; return -1; }
    it->second.data->resize(static_cast<size_t>(n));
    log_event('T', static_cast<int32_t>(n), 0, p);
    return 0;
}
int unlink(const char* p) noexcept { return v_unlink("unlink", p); }
int unlinkat(int, const char* p, int) noexcept { return v_unlink("unlinkat", p); }
int remove(const char* p) noexcept { return v_unlink("remove", p); }
int rename(const char* a, const char* b) noexcept { return v_rename("rename", a, b); }
int renameat(int, const char* a, int, const char* b) noexcept { return v_rename("renameat", a, b); }
int truncate(const char* p, off_t n) noexcept { if (!g_on) { errno = ENOSYS; return -1; } return v_resize("truncate", is_virtual(p) ? norm(p) : std::string(p), n); }
int truncate64(const char* p, off64_t n) noexcept { return truncate(p, n); }
DENY(mkdir, (const char* p, mode_t), p)
DENY(rmdir, (const char* p), p)
DENY(symlink, (const char* p, const char*), p)
DENY(link, (const char* p, const char*), p)
DENY(chmod, (const char* p, mode_t), p)
int ftruncate(int fd, off_t n) noexcept
{
    if (g_on) { auto it = g_fd.find(fd); return v_resize("ftruncate", it != g_fd.end() ? it->second.path : "?", n); }
    errno = ENOSYS; return -1;
}
int ftruncate64(int fd, off64_t o) noexcept { return ftruncate(fd, o); }

// clocks and waiting
static int sim_sleep(const struct timespec* a)
{
    advance(static_cast<uint64_t>(a->tv_sec) * 1000000000ull + static_cast<uint64_t>(a->tv_nsec));
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* r) { if (g_on) { int k = sim_sleep(a); if (r) r->tv_sec = r->tv_nsec = 0; return k; } return static_cast<int>(syscall(SYS_nanosleep, a, r)); }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* r)
{
    if (!g_on) return static_cast<int>(syscall(SYS_clock_nanosleep, c, fl, a, r));
    if (fl & TIMER_ABSTIME)
    {
        int64_t target = a->tv_sec * 1000000000ll + a->tv_nsec;
        int64_t cur = static_cast<int64_t>(S->now) + (c == CLOCK_REALTIME ? S->wall_off : 0);
        if (target > cur) advance(static_cast<uint64_t>(target - cur)); else sys();
        return 0;
    }
    return sim_sleep(a);
}
int usleep(useconds_t u) { struct timespec t{static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned s) { struct timespec t{static_cast<time_t>(s), 0}; nanosleep(&t, nullptr); return 0; }
int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    if (!g_on) return static_cast<int>(syscall(SYS_clock_gettime, c, t));
    sys();
    int64_t v = static_cast<int64_t>(S->now) + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? S->wall_off : 0);
    t->tv_sec = v / 1000000000ll;
    t->tv_nsec = v % 1000000000ll;
    if (t->tv_nsec < 0) { t->tv_nsec += 1000000000; --t->tv_sec; }
    return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* o) noexcept { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (o) *o = s.tv_sec; return s.tv_sec; }
int poll(struct pollfd* p, nfds_t n, int ms)
{
    if (!g_on) return static_cast<int>(syscall(SYS_poll, p, n, ms));
    int64_t left = ms < 0 ? INT64_MAX : static_cast<int64_t>(ms) * 1000000;
    for (;;)
    {
        process_due();
        int r = 0;
        bool in = false;
        for (nfds_t i = 0; i < n; ++i)
        {
            p[i].revents = 0;
            if (p[i].fd == 0) { in = true; if (g_avail_pos < g_avail.size()) p[i].revents |= POLLIN; if (g_eof) p[i].revents |= POLLHUP; }
            else if (p[i].events & POLLOUT) p[i].revents |= POLLOUT;
            else if (g_fd.count(p[i].fd)) p[i].revents |= POLLIN;
            if (p[i].revents) ++r;
        }
        if (r || left <= 0) { sys(); return r; }
        uint64_t e = next_event();
        if (e == NEVER) { if (ms < 0 && in) end_child('I', 0); advance(static_cast<uint64_t>(left)); return 0; }
        int64_t d = e > S->now ? static_cast<int64_t>(e - S->now) : 0;
        if (d >= left) { advance(static_cast<uint64_t>(left)); left = 0; }
        else { S->now = e; left -= d; }
    }
}
int ioctl(int fd, unsigned long rq, ...) noexcept
{
    va_list a; va_start(a, rq); void* arg = va_arg(a, void*); va_end(a);
    if (g_on && rq == FIONREAD)
    {
        if (fd == 0) { process_due(); *static_cast<int*>(arg) = static_cast<int>(g_avail.size() - g_avail_pos); return 0; }
        auto it = g_fd.find(fd);
        if (it != g_fd.end()) { *static_cast<int*>(arg) = static_cast<int>(it->second.data->size() - std::min(it->second.pos, it->second.data->size())); return 0; }
    }
    if (g_on && (fd == 0 || fd == 1)) { errno = ENOTTY; return -1; }
    return static_cast<int>(syscall(SYS_ioctl, fd, rq, arg));
}
int isatty(int fd) noexcept { if (g_on) { (void)fd; errno = ENOTTY; return 0; } return next_sym<int (*)(int)>("isatty")(fd); }
ssize_t getrandom(void* b, size_t n, unsigned) { static Rng r(12345); auto c = static_cast<unsigned char*>(b); for (size_t i = 0; i < n; ++i) c[i] = static_cast<unsigned char>(r.next()); return static_cast<ssize_t>(n); }

void __sanitizer_cov_trace_pc()
{
    if (!g_on) return;
    uint64_t pc = reinterpret_cast<uint64_t>(__builtin_return_address(0));
    sim::g_cover[(pc ^ (pc >> 16)) & 0xffff] = 1;
    if (++S->steps > g_step_limit) end_child('S', 3, "no progress: step budget for the session exhausted");
}
} // extern "C"

// ---------------------------------------------------------------- running a plan
namespace sim {

uint64_t covered() { uint64_t n = 0; if (g_cover) for (int i = 0; i < 65536; ++i) n += g_cover[i]; return n; }

static void start_zygote();
void init_base_files(const std::string& repo)
{
    setenv("TZ", "UTC", 1);
    tzset();
    S       = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_cover = static_cast<uint8_t*>(mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    load_base(repo);
    g_base[std::string(ROOT) + "/nclangsrv"] = "ELF";
    start_zygote();
}

static void child(const Plan& p, bool restart)
{
    // editor state at the start of this server process
    g_plan = &p;
    S->ended = 0;
    g_step_limit = S->steps + 600000000ull;
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 60; // code that is not instrumented cannot spin for ever either
    setrlimit(RLIMIT_CPU, &rl);
    if (int n = real_open("/dev/null", O_WRONLY, 0); n >= 0) { syscall(SYS_dup2, n, 2); syscall(SYS_close, n); }
    rl.rlim_cur = rl.rlim_max = 8ull << 30;
    setrlimit(RLIMIT_AS, &rl);
    signal(SIGPIPE, SIG_DFL);

    g_in  = fopencookie(nullptr, "r", {in_read, nullptr, nullptr, nullptr});
    g_out = fopencookie(nullptr, "w", {nullptr, out_write, nullptr, nullptr});
    stdin  = g_in;
    stdout = g_out;
    std::cin.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdin));
    std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdout));
    std::cin.clear();
    std::cout.clear();

    std::vector<std::string> args{std::string(ROOT) + "/nclangsrv"};
    auto add = [&](const char* a, const std::string& b) { args.push_back(a); args.push_back(b); };
    if (p.w.calc) add("--calculate-path", "true");
    if (p.w.settings) add("--ncsetting-path", SETTINGS);
    if (p.w.macro) add("--macro-desc-path", MACRO);
    if (p.w.log == 1) add("--log-path", LOG);
    if (p.w.log == 2) add("--log-path", "/sim/nodir/server.log");
    static std::vector<std::vector<char>> store;
    static std::vector<char*>             argv;
    for (auto& a : args) { store.emplace_back(a.begin(), a.end()); store.back().push_back(0); }
    for (auto& a : store) argv.push_back(a.data());
    argv.push_back(nullptr);

    set_next_ready();
    log_event('R', restart, 0);
    if (restart)
    {
        // the editor restarts the server: handshake, then every open document with its current text
        std::map<std::string, std::string> docs;
        for (int64_t i = 0; i < S->next_op; ++i)
        {
            const Op& o = p.ops[static_cast<size_t>(i)];
            if (o.k == "open" || o.k == "change") docs[o.u] = o.t;
            if (o.k == "close") docs.erase(o.u);
        }
        Op o;
        int n = -10;
        o.k = "init"; o.id = "\"restart\"";
        submit(message_body(o), o, n--, true);
        o.k = "inited"; o.id = "";
        submit(message_body(o), o, n--, false);
        for (auto& [u, t] : docs) { Op q; q.k = "open"; q.u = u; q.t = t; submit(message_body(q), q, n--, true); g_docs[u] = t; }
    }
    // how long a server may keep running once its editor is gone
    g_deadline = NEVER;
    g_on       = true;
    g_heap_on  = true;
    atexit([] { if (g_on) end_child('X', S->code); });
    int rc = nclangsrv_main(static_cast<int>(args.size()), argv.data());
    S->code = rc;
    exit(rc);
}

// Runs one plan, incarnation by incarnation, in the process that calls it; everything observable goes to the arena.
static void run_inner(const Plan& p)
{
    S->off = 0; S->now = 1000000000ull; S->steps = 0; S->next_op = 0; S->disarmed = 0; S->ninc = 0;
    S->wall_off = p.w.wall * 1000000000ll;
    memset(S->fseen, 0, sizeof S->fseen);
    memset(S->ffired, 0, sizeof S->ffired);
    g_fs.clear();
    for (auto& [k, v] : g_base) g_fs[k].data = std::make_shared<std::string>(v);
    if (p.w.settings && p.w.settings_text != "\x01missing") g_fs[SETTINGS].data = std::make_shared<std::string>(p.w.settings_text);
    if (p.w.macro && p.w.macro_text != "\x01missing") g_fs[MACRO].data = std::make_shared<std::string>(p.w.macro_text);
    if (auto t = p.w.old_log(); !t.empty()) g_fs[LOG].data = std::make_shared<std::string>(std::move(t));
    size_t from = 0;
    g_plan = &p;
    if (p.prop == "libref") // the parser library alone, in a process of its own
    {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid == 0)
        {
            struct rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            rl.rlim_cur = rl.rlim_max = 60;
            setrlimit(RLIMIT_CPU, &rl);
            rl.rlim_cur = rl.rlim_max = 8ull << 30;
            setrlimit(RLIMIT_AS, &rl);
            log_event('Q', 0, 0, library_result(p.w, p.ops.at(0).t));
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        S->how[0] = WIFEXITED(st) ? 'X' : 'G';
        S->hcode[0] = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st);
        S->inc_end[0] = S->off;
        S->ninc = 1;
        return;
    }
    for (int incno = 0; incno < 12; ++incno)
    {
        S->ended = 0; S->code = 0;
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(2); }
        if (pid == 0) child(p, incno > 0);
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (S->ended) { S->how[incno] = static_cast<int>(S->ended); S->hcode[incno] = S->code; }
        else if (WIFSIGNALED(st)) { S->how[incno] = 'G'; S->hcode[incno] = WTERMSIG(st); }
        else { S->how[incno] = 'X'; S->hcode[incno] = WEXITSTATUS(st); }
        S->inc_end[incno] = S->off;
        S->ninc = incno + 1;
        if (S->ended != 'K') break;
        // what the killed server and the editor did to the files is what the next server finds
        for (size_t q = from; q + 21 <= S->off;)
        {
            const char* c = S->buf + q;
            char        kind = c[0];
            int32_t     ea;
            uint64_t    et;
            uint32_t    len;
            memcpy(&et, c + 1, 8); memcpy(&ea, c + 9, 4); memcpy(&len, c + 17, 4);
            std::string d(c + 21, len);
            q += 21 + len;
            if (kind == 'L' || kind == 'w')
            {
                auto  z = d.find('\0');
                auto& f = g_fs[d.substr(0, z)];
                if (!f.data) f.data = std::make_shared<std::string>();
                std::string x = d.substr(z + 1);
                size_t      pos = static_cast<size_t>(ea);
                if (pos > f.data->size()) f.data->resize(pos);
                f.data->replace(pos, std::min(x.size(), f.data->size() - pos), x);
            }
            else if (kind == 'T') { auto& f = g_fs[d]; if (!f.data) f.data = std::make_shared<std::string>(); f.data->resize(static_cast<size_t>(ea)); }
            else if (kind == 'U') g_fs.erase(d);
            else if (kind == 'N') { auto z = d.find('\0'); auto f = g_fs[d.substr(0, z)]; g_fs.erase(d.substr(0, z)); g_fs[d.substr(z + 1)] = f; }
            else if (kind == 'f' && ea >= 0)
            {
                uint64_t off = S->off, now = S->now;
                S->now = et;
                file_op(p.ops[static_cast<size_t>(ea)], ea); // in-place rewriting is completed at once
                for (auto& s : g_fsteps) *g_fs[s.path].data += s.data;
                g_fsteps.clear();
                S->off = off;
                S->now = now;
            }
        }
        from = S->off;
    }
}

// The zygote: a process whose state never changes, so that a run depends on nothing but its plan.
static int g_to = -1, g_from = -1;
static void start_zygote()
{
    int a[2], b[2];
    if (pipe(a) || pipe(b)) { perror("pipe"); exit(2); }
    pid_t z = fork();
    if (z < 0) { perror("fork"); exit(2); }
    if (z == 0)
    {
        syscall(SYS_close, a[1]);
        syscall(SYS_close, b[0]);
        for (;;)
        {
            char c;
            if (syscall(SYS_read, a[0], &c, 1) != 1) _exit(0);
            pid_t r = fork();
            if (r == 0)
            {
                Plan p = Plan::from_json(std::string(S->plan, S->plan_len));
                run_inner(p);
                _exit(0);
            }
            int  st = 0;
            while (waitpid(r, &st, 0) < 0 && errno == EINTR) {}
            char ok = r > 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 'y' : 'n';
            if (syscall(SYS_write, b[1], &ok, 1) != 1) _exit(0);
        }
    }
    syscall(SYS_close, a[0]);
    syscall(SYS_close, b[1]);
    g_to = a[1];
    g_from = b[0];
}

History run(const Plan& p)
{
    std::string js = p.to_json();
    if (js.size() > PLAN_MAX) { fprintf(stderr, "plan too large\n"); exit(2); }
    memcpy(S->plan, js.data(), js.size());
    S->plan_len = js.size();
    char c = 'r';
    if (syscall(SYS_write, g_to, &c, 1) != 1 || syscall(SYS_read, g_from, &c, 1) != 1 || c != 'y') { fprintf(stderr, "simulation runner failed\n"); exit(2); }
    History h;
    size_t  q = 0;
    for (int i = 0; i < S->ninc; ++i)
    {
        Inc inc;
        while (q + 21 <= S->inc_end[i])
        {
            Event       e;
            const char* b = S->buf + q;
            e.kind = b[0];
            uint32_t len;
            memcpy(&e.t, b + 1, 8); memcpy(&e.a, b + 9, 4); memcpy(&e.b, b + 13, 4); memcpy(&len, b + 17, 4);
            e.d.assign(b + 21, len);
            q += 21 + len;
            if (e.kind == 'O') { inc.out += e.d; inc.out_t.emplace_back(inc.out.size(), e.t); }
            inc.ev.push_back(std::move(e));
        }
        inc.end = {S->how[i], S->hcode[i]};
        h.inc.push_back(std::move(inc));
    }
    uint64_t hh = fnv(S->buf, S->off);
    for (auto& i : h.inc) { int v[2] = {i.end.how, i.end.code}; hh = fnv(v, sizeof v, hh); }
    h.hash = hh;
    h.sim_ns = S->now - 1000000000ull;
    h.steps  = S->steps;
    for (size_t i = 0; i < p.faults.size(); ++i) h.fired.push_back(i < 64 ? S->ffired[i] : 0);
    for (auto& i : h.inc) for (auto& e : i.ev) if (e.kind == 'P') ++h.skipped;
    return h;
}

Plan expand(const Plan& p, int rounds)
{
    Plan   q = p;
    size_t at = 0;
    while (at < p.ops.size() && p.ops[at].k != "round") ++at;
    q.ops.assign(p.ops.begin(), p.ops.begin() + static_cast<long>(at));
    if (at == p.ops.size()) return q;
    std::set<std::string> open;
    for (auto& o : q.ops) { if (o.k == "open") open.insert(o.u); else if (o.k == "close") open.erase(o.u); }
    for (int r = 1; r <= rounds; ++r)
    {
        char tok[16];
        snprintf(tok, sizeof tok, "@%04d@", r);
        auto put = [&](std::string t) { 
            for (size_t k; (k = t.find("@0000@")) != std::string::npos;) t.replace(k, 6, tok);
            for (size_t k; (k = t.find("@N@")) != std::string::npos;) t.replace(k, 3, std::to_string(1000 + r));
            return t;
        };
        for (size_t i = at + 1; i < p.ops.size(); ++i)
        {
            Op o = p.ops[i];
            o.u = put(o.u);
            o.t = put(o.t);
            // what an editor does: a document is opened once, and changed or closed when it is open
            if (o.k == "open" || o.k == "change") { o.k = open.insert(o.u).second ? "open" : "change"; if (o.k == "open") o.s.clear(); }
            else if (o.k == "close" && !open.erase(o.u)) continue;
            q.ops.push_back(o);
        }
        for (auto it = open.begin(); it != open.end();)
            if (it->find(tok) == std::string::npos) ++it;
            else { Op c; c.k = "close"; c.u = *it; q.ops.push_back(c); it = open.erase(it); }
        Op m;
        m.k = "mark"; m.wait = true; m.gap = 3000000000ll; m.l = r;
        q.ops.push_back(m);
    }
    return q;
}

// ---------------------------------------------------------------- plan <-> JSON
std::string World::old_log() const
{
    std::string       r;
    const std::string l = "[2019-12-31 23:59:59] main: an earlier session\n";
    while (static_cast<int64_t>(r.size()) < log_pad) r += l;
    return r + log_text;
}
std::string Plan::to_json() const
{
    J j = J::obj();
    j.set("prop", prop).set("seed", std::to_string(seed));
    J jw = J::obj();
    jw.set("driver", w.driver).set("calc", w.calc).set("settings", w.settings).set("settings_text", w.settings_text).set("macro", w.macro).set("macro_text", w.macro_text)
        .set("log", w.log).set("log_text", w.log_text).set("log_pad", w.log_pad).set("wall", w.wall).set("cost", w.cost);
    j.set("world", jw);
    J ops_ = J::arr();
    for (auto& o : ops)
    {
        J x = J::obj();
        x.set("k", o.k);
        if (!o.u.empty()) x.set("u", o.u);
        if (!o.t.empty()) x.set("t", o.t);
        if (!o.s.empty()) x.set("s", o.s);
        if (!o.id.empty()) x.set("id", o.id);
        if (o.l) x.set("l", o.l);
        if (o.c) x.set("c", o.c);
        if (o.gap) x.set("gap", o.gap);
        if (o.wait) x.set("wait", o.wait);
        if (o.hdr) x.set("hdr", o.hdr);
        if (!o.cuts.empty()) { J c = J::arr(); for (auto& q : o.cuts) { J z = J::arr(); z.push(q.off); z.push(q.delay); c.push(z); } x.set("cuts", c); }
        ops_.push(x);
    }
    j.set("ops", ops_);
    J f_ = J::arr();
    for (auto& f : faults) { J x = J::obj(); x.set("on", f.on).set("path", f.path).set("nth", f.nth).set("cnt", f.cnt).set("kind", f.kind).set("arg", f.arg); f_.push(x); }
    j.set("faults", f_);
    return j.dump();
}
Plan Plan::from_json(const std::string& s)
{
    Plan p;
    J j;
    if (!J::parse(s, j)) { fprintf(stderr, "bad plan file\n"); exit(2); }
    p.prop = j.at("prop").str();
    p.seed = strtoull(j.at("seed").str().c_str(), nullptr, 10);
    auto& w = j.at("world");
    p.w.driver = w.at("driver").str(); p.w.calc = w.at("calc").b; p.w.settings = static_cast<int>(w.at("settings").i()); p.w.settings_text = w.at("settings_text").str();
    p.w.macro = static_cast<int>(w.at("macro").i()); p.w.macro_text = w.at("macro_text").str(); p.w.log = static_cast<int>(w.at("log").i()); p.w.log_text = w.at("log_text").str();
    p.w.log_pad = w.at("log_pad").i();
    p.w.wall = w.at("wall").i(); p.w.cost = w.at("cost").i();
    for (auto& x : j.at("ops").a)
    {
        Op o;
        o.k = x.at("k").str(); o.u = x.at("u").str(); o.t = x.at("t").str(); o.s = x.at("s").str(); o.id = x.at("id").str();
        o.l = x.at("l").i(); o.c = x.at("c").i(); o.gap = x.at("gap").i(); o.wait = x.at("wait").b; o.hdr = static_cast<int>(x.at("hdr").i());
        for (auto& c : x.at("cuts").a) o.cuts.push_back({c.a[0].i(), c.a[1].i()});
        p.ops.push_back(std::move(o));
    }
    for (auto& x : j.at("faults").a) p.faults.push_back({x.at("on").str(), x.at("path").str(), x.at("nth").i(), x.at("cnt").i(), x.at("kind").str(), x.at("arg").i()});
    return p;
}

} // namespace sim
