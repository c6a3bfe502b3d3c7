// The caller of the C API: runs one list of operations per thread in a child process and records every result.
#include <cmath>
#include <cstdio>
#include <cstring>
#include <algorithm>
#include <deque>
#include <memory>
#include <sstream>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include "../common/libconf.h"
#include "heidenhain/AllAttributesParserWrapper.h"
#include "plan.h"

namespace sim {

int64_t g_execs = 0;

namespace {
// ---- results
std::string num(double d) { if (std::isnan(d)) return "nan"; char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
size_t block(const void* p, const char* what, size_t least, int kind)
{
    size_t size = 0;
    int    k = 0;
    if (!rt::is_live(p, size, k)) rt::violation("badresult", std::string(what) + " does not point to memory the library holds for the caller");
    if (k != kind) rt::violation("badresult", std::string(what) + " was allocated with " + (k ? "new[]" : "new") + " but its Dispose function uses " + (kind ? "delete[]" : "delete"));
    if (size < least) rt::violation("badresult", std::string(what) + " has " + std::to_string(size) + " bytes, " + std::to_string(least) + " are needed for its length");
    return size;
}
std::string text(const char* p, const char* what)
{
    if (!p) return "<null>";
    size_t n = block(p, what, 1, 1);
    if (!memchr(p, 0, n)) rt::violation("badresult", std::string(what) + " is not terminated");
    return p;
}
std::string quoted(const std::string& s) { std::string r; J::esc(s, r); return r; }
std::string words(const WordValueWrapper* v, int64_t n)
{
    std::string r = "[";
    if (n < 0) rt::violation("badresult", "negative length of the word array");
    if (n && !v) rt::violation("badresult", "no word array although its length is " + std::to_string(n));
    if (v) block(v, "word array", static_cast<size_t>(n) * sizeof *v, 1);
    for (int64_t i = 0; i < n; ++i)
    {
        if (!v[i].word || !v[i].value) rt::violation("badresult", "word " + std::to_string(i) + " of " + std::to_string(n) + " is not filled in");
        r += quoted(text(v[i].word, "word")) + ":" + quoted(text(v[i].value, "value of a word")) + " ";
    }
    return r + "]";
}

constexpr uintptr_t GARBAGE = 0x5151515151515151ull;
template <typename T> void gone(T* p, const char* what)
{
    size_t s;
    int    k;
    if (p && rt::is_live(p, s, k)) rt::violation("leak", std::string(what) + " is still allocated after its Dispose function");
}

struct World
{
    const LPlan* plan;
    std::vector<AllAttributesParserWrapperBase*>         h;
    std::vector<char>                                    ready; // settings were applied: a precondition of everything else
    std::vector<std::unique_ptr<Settings>>               set;
    std::vector<std::map<std::string, std::unique_ptr<Settings>>> alt; // other settings, by text
    struct Held { int op; std::string text; std::function<std::string()> again; std::function<void()> dispose; };
    std::vector<std::deque<Held>> held; // per thread: results released later
};
void drop(World& w, int thread, size_t keep)
{
    auto& q = w.held[static_cast<size_t>(thread)];
    while (q.size() > keep)
    {
        auto h = std::move(q.front());
        q.pop_front();
        if (h.again() != h.text) rt::violation("badresult", "the result of operation " + std::to_string(h.op) + " changed while the caller held it");
        h.dispose();
    }
}

// Runs one operation. Returns its result in text form; info gets "allocs fired".
std::string run_op(World& w, int thread, const LOp& o, int idx, bool& failed)
{
    failed = false;
    const HandleSpec& hs = w.plan->handles[static_cast<size_t>(o.h)];
    auto&             h = w.h[static_cast<size_t>(o.h)];
    std::string       r;
    const bool        single = !o.m;
    if (o.k == "mark") return "";
    if (o.k == "create" ? h != nullptr : !h) return "not possible";
    if (!w.ready[static_cast<size_t>(o.h)] && o.k != "create" && o.k != "dispose" && o.k != "setnc") return "not configured";

    // everything the call needs is prepared outside it
    ParserSettings           ps = parser_settings(o.k == "setps" && !o.v.empty() ? static_cast<int>(o.v[0]) : hs.bits);
    OtherSettings            os{hs.lang ? ELanguage::Polish : ELanguage::English};
    std::vector<const char*> mk, ik, op, gk, ck, lines;
    std::vector<std::string> split;
    Settings*                set = nullptr;
    RenumberSettingsWrapper  rs{};
    FileSplittingWrapper     fs{};
    std::string              s1 = o.s, s2 = o.u;
    auto                     V = [&](size_t i, int64_t d) { return i < o.v.size() ? o.v[i] : d; };
    const Cfg*               c = nullptr;
    std::vector<int>         gl, cl;
    EFanucParserType         ptype{};
    if (o.k == "create" && hs.driver != "heidenhain") ptype = en<EFanucParserType>(hs.driver);
    if (o.k == "create" && hs.driver != "heidenhain") { c = &cfg(hs.driver); mk = ptrs(c->mk); ik = ptrs(c->ik); op = ptrs(c->ops); gk = ptrs(c->gk); ck = ptrs(c->ck); gl = c->gl; cl = c->cl; }
    if (o.k == "setnc")
    {
        if (o.t.empty()) set = w.set[static_cast<size_t>(o.h)].get();
        else { auto& a = w.alt[static_cast<size_t>(o.h)][o.t]; if (!a) a = settings(o.t); set = a.get(); }
    }
    if (o.k == "renum") rs = {s1.data(), static_cast<unsigned>(V(0, 1)), static_cast<unsigned>(V(1, 1)), static_cast<unsigned>(V(2, 9999)), V(3, 0) != 0, V(4, 0) != 0};
    if (o.k == "split" || o.k == "splits")
    {
        std::string l;
        for (char ch : o.t) if (ch == '\n') { split.push_back(l); l.clear(); } else l += ch;
        if (!l.empty()) split.push_back(l);
        lines = ptrs(split);
        if (lines.empty()) lines.reserve(1);
        fs = {static_cast<FileSplittingType>(V(0, 0)), static_cast<int>(V(1, 5)), static_cast<int>(V(2, 5)), static_cast<int>(V(3, 5)), s1.data(), V(4, 0) != 0, s2.data()};
    }
    std::string in = o.t;
    in.push_back('\0'); // the library gets the text up to its first NUL
    CncDefaultValues  def{};
    ZeroPoint         zero{};
    KinematicsWrapper kin{};
    if (set) { def = set->def; zero = set->zero; kin = set->kin; }

    auto                              g = [](auto& p) { memcpy(&p, &GARBAGE, sizeof p); };
    WordValueWrapper*                 value; g(value);
    int                               length; memcpy(&length, &GARBAGE, 4);
    char*                             msg; g(msg);
    int *                             ids, *mlines, *vvl, *vl; g(ids); g(mlines); g(vvl); g(vl);
    double*                           mvals; g(mvals);
    PathResultWrapper*                pr; g(pr);
    TimeResultWrapper*                tr; g(tr);
    WordResultRange*                  wr; g(wr);
    char**                            strs; g(strs);
    int                               unit = 0x51515151;
    bool                              ret = false;
    AllAttributesParserWrapperBase*   created = nullptr;
    std::string                       exc;
    const char*                       d = in.c_str();
    const char*                       k = o.k.c_str();
    auto is = [&](const char* x) { return !strcmp(k, x); };
    enum { None, Handle, Msg, Words, Macros, LMacros, Path, Split, Strs } kind = None;
    if (is("create")) kind = Handle;
    else if (is("parse")) kind = Msg;
    else if (is("macros")) kind = Macros;
    else if (is("lmacros")) kind = LMacros;
    else if (is("path")) kind = Path;
    else if (is("split")) kind = Split;
    else if (is("splits")) kind = Strs;
    else if (is("pval") || is("conv") || is("rnum") || is("renum") || is("rot") || is("rcom") || is("ropt")) kind = Words;
    int64_t  allocs, fired;
    int      E = 0; // 1 bad_alloc, 2 std::exception, 3 other
    char     what[300] = "";
    {
        rt::Call call(idx, o.nth, o.cnt);
        try
        {
            if (is("create"))
            {
                if (!c) created = heidenhain::CreateHeidenhainAllAttributesParser(&ps, &os, o.v.size() && o.v[0]);
                else
                    created = fanuc::CreateFanucAllAttributesParser(mk.data(), c->mv.data(), static_cast<int>(mk.size()), ik.data(), c->iv.data(), static_cast<int>(ik.size()), op.data(), static_cast<int>(op.size()), gk.data(),
                                                                    c->gv.data(), static_cast<int>(gk.size()), gl.data(), ck.data(), c->cv.data(), static_cast<int>(ck.size()), cl.data(), &ps, &os,
                                                                    ptype, o.v.size() && o.v[0]);
            }
            else if (is("setnc"))
                SetNCSettings(h, set->mt, set->mtt, set->bk.data(), set->bv.data(), static_cast<int>(set->bk.size()), set->tk.data(), set->tv.data(), static_cast<int>(set->tk.size()), &kin, set->axes.data(),
                              static_cast<int>(set->axes.size()), &def, &zero);
            else if (is("setps")) SetParserSettings(h, &ps);
            else if (is("parse")) ret = Parse(h, o.l, d, &msg, single);
            else if (is("pval")) ret = ParseValue(h, o.l, d, &value, &length, &msg, single);
            else if (is("macros")) GetMacroValues(h, &ids, &mlines, &mvals, &length);
            else if (is("lmacros")) GetLineMacroValues(h, o.l, &ids, &mvals, &length);
            else if (is("rmacros")) ResetMacroValues(h);
            else if (is("path")) GetPathValues(h, pr, tr, &wr, &length, &unit);
            else if (is("rpath")) ResetPathValues(h);
            else if (is("conv")) ret = ConvertLength(h, o.l, d, &value, &length, &msg, single, static_cast<UnitConversionType>(V(0, 0)));
            else if (is("rnum")) ret = RemoveNumbering(h, o.l, d, &value, &length, &msg, single);
            else if (is("renum")) ret = Renumber(h, o.l, d, &value, &length, &msg, single, &rs);
            else if (is("rstart")) SetRenumberStartValue(h, static_cast<unsigned>(V(0, 1)));
            else if (is("rreset")) RenumberReset(h);
            else if (is("rot")) ret = RotateAxes(h, o.l, d, &value, &length, &msg, single, static_cast<AxesRotatingOption>(V(0, 0)));
            else if (is("split")) ret = SplitFile(h, &fs, lines.data(), static_cast<int>(lines.size()), &value, &vvl, &vl, &length, &msg, single);
            else if (is("splits")) ret = SplitFileString(h, &fs, lines.data(), static_cast<int>(lines.size()), &strs, &length, &msg, single);
            else if (is("rcom")) ret = RemoveComment(h, o.l, d, &value, &length, &msg, single);
            else if (is("ropt")) ret = RemoveOptionalBlock(h, o.l, d, &value, &length, &msg, single);
            else if (is("dispose")) { DisposeAllAttributesParser(h); h = nullptr; }
        }
        catch (const std::bad_alloc&) { E = 1; }
        catch (const std::exception& e) { E = 2; snprintf(what, sizeof what, "%s", e.what()); }
        catch (...) { E = 3; }
        allocs = call.allocs();
        fired = call.fired();
    }
    failed = fired > 0;
    if (E)
    {
        r = E == 1 ? "E:bad_alloc" : E == 2 ? std::string("E:") + what : "E:other";
    }
    else
    {
        // check and record everything the call handed out; later, or now, release it
        bool m = kind == Msg || kind == Words || kind == Split || kind == Strs;
        if (kind == Handle) { if (created) block(created, "handle", 1, 0); h = created; w.ready[static_cast<size_t>(o.h)] = 0; }
        auto again = [=]() -> std::string {
            std::string r;
            if (m) r += std::string(ret ? "true " : "false ") + quoted(text(msg, "message")) + " ";
            switch (kind)
            {
            case Handle: r += created ? "ok" : "null"; break;
            case Words:
                r += words(value, length);
                if (!length && value) r += "empty";
                break;
            case Macros:
            case LMacros:
            {
                if (length < 0) rt::violation("badresult", "negative length of the macro arrays");
                auto n = static_cast<size_t>(length);
                bool full = kind == Macros;
                if (n && (!ids || !mvals || (full && !mlines))) rt::violation("badresult", "no macro arrays although their length is " + std::to_string(n));
                if (ids) block(ids, "macro numbers", n * sizeof(int), 1);
                if (mvals) block(mvals, "macro values", n * sizeof(double), 1);
                if (full && mlines) block(mlines, "macro lines", n * sizeof(int), 1);
                std::vector<std::string> rows; // a map's order is not promised
                for (size_t i = 0; i < n; ++i) rows.push_back("#" + std::to_string(ids[i]) + (full ? "@" + std::to_string(mlines[i]) : "") + "=" + num(mvals[i]));
                std::sort(rows.begin(), rows.end());
                for (auto& x : rows) r += x + " ";
                break;
            }
            case Path:
            {
                if (!pr || !tr) rt::violation("badresult", "no path or time result");
                block(pr, "path result", sizeof *pr, 0);
                block(tr, "time result", sizeof *tr, 0);
                if (length < 0) rt::violation("badresult", "negative length of the range array");
                if (length && !wr) rt::violation("badresult", "no range array although its length is " + std::to_string(length));
                if (wr) block(wr, "range array", static_cast<size_t>(length) * sizeof *wr, 1);
                r += "path " + num(pr->total) + " " + num(pr->work_motion) + " " + num(pr->fast_motion) + " " + num(pr->tool_total) + " " + quoted(text(pr->tool_id, "tool"));
                r += " time " + num(tr->total) + " " + num(tr->work_motion) + " " + num(tr->fast_motion) + " " + num(tr->tool_total) + " " + quoted(text(tr->tool_id, "tool"));
                std::vector<std::string> rows;
                for (int i = 0; i < length; ++i)
                {
                    if (!wr[i].word) rt::violation("badresult", "range " + std::to_string(i) + " is not filled in");
                    rows.push_back(" " + text(wr[i].word, "word of a range") + ":" + num(wr[i].value_min) + "," + num(wr[i].value) + "," + num(wr[i].value_max));
                }
                std::sort(rows.begin(), rows.end());
                for (auto& x : rows) r += x;
                r += " unit " + std::to_string(unit);
                break;
            }
            case Split:
            {
                if (length < 0) rt::violation("badresult", "negative number of pieces");
                if (length && (!vl || !vvl)) rt::violation("badresult", "no lengths of the pieces");
                int64_t blocks = 0, total = 0;
                if (vl) block(vl, "piece lengths", static_cast<size_t>(length) * sizeof(int), 1);
                for (int i = 0; i < length; ++i) { if (vl[i] < 0 || vl[i] > 1000000) rt::violation("badresult", "number of blocks of piece " + std::to_string(i) + " is not filled in"); blocks += vl[i]; }
                if (vvl) block(vvl, "block lengths", static_cast<size_t>(blocks) * sizeof(int), 1);
                for (int64_t i = 0; i < blocks; ++i) { if (vvl[i] < 0 || vvl[i] > 100000) rt::violation("badresult", "length of block " + std::to_string(i) + " is not filled in"); total += vvl[i]; }
                for (int i = 0; i < length; ++i) r += std::to_string(vl[i]) + " ";
                r += "/ ";
                for (int64_t i = 0; i < blocks; ++i) r += std::to_string(vvl[i]) + " ";
                r += words(value, total);
                break;
            }
            case Strs:
            {
                if (length < 0) rt::violation("badresult", "negative number of pieces");
                if (length && !strs) rt::violation("badresult", "no pieces although there should be " + std::to_string(length));
                if (strs) block(strs, "pieces", static_cast<size_t>(length) * sizeof(char*), 1);
                for (int i = 0; i < length; ++i) { if (!strs[i]) rt::violation("badresult", "piece " + std::to_string(i) + " is not filled in"); r += quoted(text(strs[i], "piece")) + " "; }
                break;
            }
            default: r += "done"; break;
            }
            return r;
        };
        auto dispose = [=]() {
            auto release = [&](auto&& f) { rt::Call call(idx, 0, 0); f(); };
            switch (kind)
            {
            case Words: release([&] { DisposeWordValueWrapper(value, length); }); gone(value, "the word array"); break;
            case Macros:
            case LMacros:
            {
                int* ml = kind == Macros ? mlines : nullptr;
                release([&] { DisposeMacroValues(ids, ml, mvals); });
                gone(ids, "macro numbers"); gone(mvals, "macro values"); gone(ml, "macro lines");
                break;
            }
            case Path: release([&] { DisposePathValues(pr, tr, wr, length); }); gone(pr, "path result"); gone(tr, "time result"); gone(wr, "range array"); break;
            case Split: release([&] { DisposeSplitFile(value, vvl, vl, length); }); gone(value, "the word array"); gone(vvl, "block lengths"); gone(vl, "piece lengths"); break;
            case Strs: release([&] { DisposeSplitFileString(strs, length); }); gone(strs, "pieces"); break;
            default: break;
            }
            if (m && msg) { release([&] { DisposeCharArray(msg); }); gone(msg, "message"); }
        };
        r = again();
        if (o.k == "setnc") w.ready[static_cast<size_t>(o.h)] = 1;
        if (o.hold && kind != Handle && kind != None) w.held[static_cast<size_t>(thread)].push_back({idx, r, again, dispose});
        else dispose();
        if (!o.hold) drop(w, thread, 4);
    }
    r += "\x1f" + std::to_string(allocs) + " " + std::to_string(fired) + " " + std::to_string(rt::op_steps());
    return r;
}

void child(const Job& j)
{
    if (j.direct)
    {
        auto d = make_direct();
        for (size_t t = 0; t < j.threads.size(); ++t)
            for (size_t i = 0; i < j.threads[t].size(); ++i) rt::emit(static_cast<int>(t), static_cast<int>(i), d->op(*j.plan, j.threads[t][i]) + "\x1f" "0 0 0");
        return;
    }
    World w;
    w.plan = j.plan;
    w.h.assign(j.plan->handles.size(), nullptr);
    w.alt.resize(w.h.size());
    w.ready.resize(w.h.size());
    w.held.resize(j.threads.size());
    for (auto& h : j.plan->handles) w.set.push_back(settings(h.settings));
    for (size_t i = 0; i < w.h.size(); ++i)
        for (auto& t : j.threads) for (auto& o : t) if (o.k == "setnc" && !o.t.empty() && o.h == static_cast<int>(i)) w.alt[i][o.t] = settings(o.t);
    rt::activate(j.fill, j.record);
    std::string trace;
    trace.reserve(1 << 20);
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < j.threads.size(); ++t)
        bodies.push_back([&, t] {
            int i = 0;
            for (auto& o : j.threads[t])
            {
                rt::point(i);
                if (o.k == "mark")
                {
                    drop(w, static_cast<int>(t), 0);
                    auto l = rt::live();
                    rt::emit(static_cast<int>(t), i, "live " + std::to_string(l.blocks) + " " + std::to_string(l.bytes));
                    ++i;
                    continue;
                }
                bool        failed;
                std::string r = run_op(w, static_cast<int>(t), o, i, failed);
                rt::emit(static_cast<int>(t), i, r);
                if (failed && w.h[static_cast<size_t>(o.h)] == nullptr && o.k == "create")
                {
                    LOp again = o;
                    again.cnt = 0;
                    rt::emit(static_cast<int>(t), i, "again " + run_op(w, static_cast<int>(t), again, i, failed));
                }
                else if (failed && (o.k == "setnc" || o.k == "rmacros" || o.k == "rpath" || o.k == "rreset" || o.k == "setps"))
                {
                    LOp again = o;
                    again.cnt = 0;
                    rt::emit(static_cast<int>(t), i, "again " + run_op(w, static_cast<int>(t), again, i, failed));
                }
                ++i;
            }
            drop(w, static_cast<int>(t), 0);
        });
    rt::run_threads(std::move(bodies), j.sw, &trace);
    rt::live(); // overruns of blocks still in use
    rt::check_quarantine();
    rt::emit(-1, -1, trace);
}
} // namespace

void prepare() { for (auto& d : drivers()) cfg(d); }

RunResult execute(const Job& j)
{
    static bool once = (prepare(), true);
    (void)once;
    ++g_execs;
    auto& s = *rt::g_sh;
    s.steps = s.allocs = s.fired = s.switches = 0;
    s.has_viol = 0;
    s.len = 0;
    if (rt::g_acc) rt::g_acc->n = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        rl = {6ull << 30, 6ull << 30};
        setrlimit(RLIMIT_AS, &rl);
        itimerval it{{0, 0}, {60, 0}};
        setitimer(ITIMER_REAL, &it, nullptr);
        child(j);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
    RunResult r;
    if (s.has_viol) { r.how = 'V'; r.cls = s.cls; r.detail = s.detail; }
    else if (WIFSIGNALED(st)) { r.how = WTERMSIG(st) == SIGALRM ? 'T' : 'S'; r.code = WTERMSIG(st); r.cls = r.how == 'T' ? "hang" : "crash"; r.detail = r.how == 'T' ? "no end within 60 s" : std::string("killed by signal ") + strsignal(r.code); }
    else if (WEXITSTATUS(st)) { r.how = 'S'; r.code = WEXITSTATUS(st); r.cls = "crash"; r.detail = "the process exited with status " + std::to_string(r.code); }
    for (uint64_t p = 0; p < s.len;)
    {
        uint32_t h[3];
        memcpy(h, s.data + p, 12);
        Rec rec{static_cast<int>(h[0]), static_cast<int>(h[1]), std::string(s.data + p + 12, h[2])};
        if (rec.thread == -1) r.trace = rec.text; else r.recs.push_back(std::move(rec));
        p += 12 + h[2];
    }
    r.steps = s.steps; r.allocs = s.allocs; r.fired = s.fired; r.switches = s.switches;
    if (r.how == 'V' || r.how == 'S' || r.how == 'T')
        if (!r.recs.empty()) r.detail += " (after operation " + std::to_string(r.recs.back().op) + " of thread " + std::to_string(r.recs.back().thread) + ")";
    return r;
}
} // namespace sim
