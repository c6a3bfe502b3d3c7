// What each property demands of a run, and the runs it takes to decide it.
#include <algorithm>
#include <cstring>
#include <map>
#include <set>

#include "../common/programs.h"
#include "plan.h"

namespace sim {

namespace {
struct Res { std::string text; int64_t allocs = 0, fired = 0, steps = 0; bool again = false; };
std::string pre(const std::string& s, size_t n = 160) { return s.size() > n ? s.substr(0, n) + "..." : s; }
// records of one thread, by operation; a retried operation has two
std::vector<std::vector<Res>> by_op(const RunResult& r, int thread)
{
    std::vector<std::vector<Res>> v;
    for (auto& c : r.recs)
    {
        if (c.thread != thread) continue;
        Res  x;
        auto p = c.text.find('\x1f');
        x.text = c.text.substr(0, p);
        if (p != std::string::npos) sscanf(c.text.c_str() + p + 1, "%ld %ld %ld", &x.allocs, &x.fired, &x.steps);
        if (x.text.compare(0, 6, "again ") == 0) { x.again = true; x.text.erase(0, 6); }
        if (v.size() <= static_cast<size_t>(c.op)) v.resize(static_cast<size_t>(c.op) + 1);
        v[static_cast<size_t>(c.op)].push_back(x);
    }
    return v;
}
std::string desc(const LOp& o) { return o.k + (o.t.empty() ? "" : " " + pre(J(o.t).dump(), 80)); }
bool bad(LVerdict& v, const RunResult& r, const char* which)
{
    if (!r.how) return false;
    v.cls = r.cls;
    v.detail = r.detail + " [" + which + "]";
    return true;
}
struct Ctx
{
    LPlan&   p;
    LVerdict v;
    explicit Ctx(LPlan& q) : p(q) {}
    RunResult run(std::vector<std::vector<LOp>> t, std::vector<rt::Switch> sw = {}, int fill = 0xCD, bool record = false)
    {
        Job       j{&p, std::move(t), std::move(sw), fill, false, record};
        RunResult r = execute(j);
        v.steps += r.steps;
        v.switches += r.switches;
        return r;
    }
    void hash(const RunResult& r)
    {
        for (auto& c : r.recs) { v.hash = fnv(&c.thread, 4, v.hash); v.hash = fnv(&c.op, 4, v.hash); v.hash = fnv(c.text, v.hash); }
        v.hash = fnv(r.trace, v.hash);
        v.hash = fnv(&r.how, 4, v.hash);
        v.hash = fnv(&r.steps, 8, v.hash);
    }
    void probe(const char* k, int64_t n) { if (n) v.probes.emplace_back(k, n); }
    void fault(const char* k, int64_t n) { if (n) v.faults.emplace_back(k, n); }
};
LOp plain(const char* k, int h) { LOp o; o.k = k; o.h = h; return o; }
void dispose_all(const LPlan& p, std::vector<LOp>& v) { for (size_t h = 0; h < p.handles.size(); ++h) v.push_back(plain("dispose", static_cast<int>(h))); }
void create_all(const LPlan& p, std::vector<LOp>& v) { for (size_t h = 0; h < p.handles.size(); ++h) { v.push_back(plain("create", static_cast<int>(h))); v.push_back(plain("setnc", static_cast<int>(h))); } }
void append(std::vector<LOp>& a, const std::vector<LOp>& b) { a.insert(a.end(), b.begin(), b.end()); }
std::vector<LOp> clean(std::vector<LOp> v) { for (auto& o : v) { o.cnt = 0; o.nth = 0; } return v; }

// ---- C14
// Where the threads meet: accesses to static data that some call of some thread writes
struct Meeting
{
    std::vector<std::vector<rt::Access>> by_thread; // first accesses of every call to every cell
    std::vector<uint32_t>                often, once, read; // cells written by several calls of a thread; by one; only read, but not read-only
    void add(size_t t)
    {
        if (!rt::g_acc) return;
        if (by_thread.size() <= t) by_thread.resize(t + 1);
        std::map<std::pair<uint32_t, uint32_t>, int> seen;
        for (uint64_t i = 0; i < rt::g_acc->n; ++i)
        {
            auto& a = rt::g_acc->a[i];
            if (++seen[{a.op, a.off}] <= 24) by_thread[t].push_back(a);
        }
    }
    void finish()
    {
        std::map<uint32_t, std::set<uint32_t>> w; // cell: threads and calls writing it
        std::map<uint32_t, size_t>             most, all;
        for (size_t t = 0; t < by_thread.size(); ++t)
        {
            std::map<uint32_t, std::set<uint32_t>> mine;
            for (auto& a : by_thread[t]) if (a.off & 1) mine[a.off >> 1].insert(a.op);
            for (auto& [o, s] : mine) { most[o] = std::max(most[o], s.size()); all[o] += s.size(); }
        }
        for (auto& [o, n] : most) (n > 1 ? often : once).push_back(o);
        std::set<uint32_t> rd;
        for (auto& t : by_thread) for (auto& a : t) if ((a.off >> 1) * 8 >= rt::g_relro && !most.count(a.off >> 1)) rd.insert(a.off >> 1);
        read.assign(rd.begin(), rd.end());
    }
};
void resolve_race(Ctx& c, const Meeting& m)
{
    auto& p = c.p;
    Rng   r(p.seed ^ 0x52414345);
    int   n = static_cast<int>(p.threads.size());
    auto other = [&](int t) { return (t + 1 + static_cast<int>(r.below(static_cast<uint64_t>(std::max(1, n - 1))))) % n; };
    std::set<uint32_t> cells;
    int k = r.range(1, 4);
    for (int i = 0; i < k; ++i)
    {
        auto& from = !m.often.empty() && r.chance(0.7) ? m.often : !m.once.empty() && (m.read.empty() || r.chance(0.6)) ? m.once : m.read;
        if (!from.empty()) cells.insert(r.pick(from));
    }
    double keep = r.chance(0.3) ? 1 : r.chance(0.5) ? 0.4 : 0.1;
    for (int t = 0; t < n; ++t)
    {
        if (static_cast<size_t>(t) >= m.by_thread.size()) continue;
        std::vector<const rt::Access*> at;
        for (auto& a : m.by_thread[static_cast<size_t>(t)]) if (cells.count(a.off >> 1) && r.chance(keep)) at.push_back(&a);
        size_t limit = static_cast<size_t>(r.chance(0.5) ? r.range(1, 6) : r.range(20, 150));
        while (at.size() > limit) at.erase(at.begin() + static_cast<long>(r.below(at.size())));
        // before the access, after it, or shortly after
        for (auto a : at) p.sw.push_back({t, static_cast<int>(a->op), a->step + (r.chance(0.7) ? r.below(2) : r.below(r.chance(0.7) ? 12 : 80)), other(t)});
    }
}
void resolve_switches(Ctx& c, const std::vector<std::vector<std::vector<Res>>>& solo, const Meeting& m)
{
    auto& p = c.p;
    Rng   r(p.seed ^ 0xABCDEF);
    int   n = static_cast<int>(p.threads.size());
    struct Slot { int t, op; int64_t steps; };
    std::vector<Slot> slots;
    int64_t           total = 0;
    for (int t = 0; t < n; ++t)
        for (size_t i = 0; i < solo[static_cast<size_t>(t)].size(); ++i)
            if (!solo[static_cast<size_t>(t)][i].empty()) { slots.push_back({t, static_cast<int>(i), solo[static_cast<size_t>(t)][i][0].steps}); total += slots.back().steps; }
    if (slots.empty()) { p.resolved = true; return; }
    auto any = [&]() -> Slot& {
        if (r.chance(0.5) || total <= 0) return r.chance(0.5) ? slots[r.below(slots.size())] : slots[r.below(std::min<size_t>(slots.size(), 4))];
        auto k = static_cast<int64_t>(r.below(static_cast<uint64_t>(total)));
        for (auto& s : slots) { if (k < s.steps) return s; k -= s.steps; }
        return slots.back();
    };
    auto other = [&](int t) { return (t + 1 + static_cast<int>(r.below(static_cast<uint64_t>(std::max(1, n - 1))))) % n; };
    auto at = [&](const Slot& s) { return static_cast<uint64_t>(r.below(static_cast<uint64_t>(std::max<int64_t>(1, s.steps)))); };
    if (p.style == "race" && m.often.size() + m.once.size() + m.read.size()) resolve_race(c, m);
    else if (p.style == "few" || p.style == "uniform")
    {
        int k = p.style == "few" ? r.range(1, 5) : r.range(10, 120);
        for (int i = 0; i < k; ++i) { Slot& s = any(); p.sw.push_back({s.t, s.op, at(s), other(s.t)}); }
    }
    else if (p.style == "dense" || p.style == "start")
    {
        // every thread is switched away from often, in a window of one of its calls
        for (int t = 0; t < n; ++t)
        {
            std::vector<Slot> mine;
            for (auto& s : slots) if (s.t == t) mine.push_back(s);
            if (mine.empty()) continue;
            int w = p.style == "start" ? 2 : r.range(1, 3);
            for (int k = 0; k < w; ++k)
            {
                const Slot& s = p.style == "start" ? mine[std::min<size_t>(static_cast<size_t>(k), mine.size() - 1)] : mine[r.below(mine.size())];
                uint64_t from = p.style == "start" && r.chance(0.5) ? 0 : at(s), d = 1 + r.below(r.chance(0.5) ? 20 : 2000);
                int      m = r.range(20, 200);
                for (int i = 0; i < m; ++i) { p.sw.push_back({t, s.op, from, other(t)}); from += 1 + r.below(d); }
            }
        }
    }
    else
        for (auto& s : slots)
            if (r.chance(0.7)) p.sw.push_back({s.t, s.op, r.chance(0.6) ? 0 : at(s), other(s.t)});
    std::sort(p.sw.begin(), p.sw.end(), [](auto& a, auto& b) { return std::tie(a.thread, a.op, a.step) < std::tie(b.thread, b.op, b.step); });
    p.resolved = true;
}
void c14(Ctx& c)
{
    auto& p = c.p;
    std::vector<std::vector<std::vector<Res>>> solo;
    Meeting                                    meet;
    for (size_t t = 0; t < p.threads.size(); ++t)
    {
        RunResult r = c.run({p.threads[t]}, {}, 0xCD, !p.resolved);
        if (bad(c.v, r, "one thread alone")) return;
        solo.push_back(by_op(r, 0));
        if (!p.resolved) meet.add(t);
        ++c.v.refs;
    }
    meet.finish();
    if (!p.resolved)
    {
        resolve_switches(c, solo, meet);
        c.probe("static_cells_written_during_calls", static_cast<int64_t>(meet.often.size() + meet.once.size()));
    }
    RunResult r = c.run(p.threads, p.sw);
    c.hash(r);
    c.v.trace = r.trace;
    if (bad(c.v, r, "several threads")) return;
    int64_t compared = 0, inside = 0;
    for (size_t t = 0; t < p.threads.size(); ++t)
    {
        auto got = by_op(r, static_cast<int>(t));
        for (size_t i = 0; i < p.threads[t].size(); ++i)
        {
            std::string a = i < got.size() && !got[i].empty() ? got[i][0].text : "<missing>", b = i < solo[t].size() && !solo[t][i].empty() ? solo[t][i][0].text : "<missing>";
            ++compared;
            if (a != b)
            {
                c.v.cls = "differs";
                c.v.detail = "thread " + std::to_string(t) + " operation " + std::to_string(i) + " " + desc(p.threads[t][i]) + ": " + pre(a) + " instead of " + pre(b) + " when the thread runs alone";
                return;
            }
        }
    }
    for (size_t k = 0; k + 32 <= r.trace.size(); k += 32) { uint64_t x[4]; memcpy(x, r.trace.data() + k, 32); inside += x[2] != 0; }
    c.probe("results_compared", compared);
    c.fault("thread_switch_between_calls", static_cast<int64_t>(r.trace.size() / 32) - inside);
    c.fault("thread_switch_inside_call", inside);
    c.v.nontrivial = inside > 0;
}

// ---- C15
bool pure(const std::string& k) { return k == "rcom" || k == "ropt" || k == "rot" || k == "rnum" || k == "conv"; }
void c15(Ctx& c)
{
    auto& p = c.p;
    p.threads.resize(3);
    auto &A = p.threads[0], &B = p.threads[1], &R = p.threads[2];
    auto whole = [&](bool faults, size_t& a0, size_t& b0) {
        std::vector<LOp> v;
        if (p.warm) { append(v, clean(A)); append(v, clean(R)); append(v, clean(B)); dispose_all(p, v); }
        v.push_back(plain("mark", 0));
        a0 = v.size();
        append(v, faults ? A : clean(A));
        append(v, faults ? R : clean(R));
        b0 = v.size();
        append(v, clean(B));
        dispose_all(p, v);
        v.push_back(plain("mark", 0));
        return v;
    };
    size_t a0, b0;
    auto   rv = whole(false, a0, b0);
    RunResult ref = c.run({rv});
    ++c.v.refs;
    if (bad(c.v, ref, "no fault")) return;
    auto ro = by_op(ref, 0);
    auto R0 = [&](size_t i) { return i < ro.size() && !ro[i].empty() ? ro[i][0] : Res{}; };
    if (!p.resolved)
    {
        auto fix = [&](std::vector<LOp>& v, size_t at) {
            for (size_t i = 0; i < v.size(); ++i)
                if (v[i].cnt)
                {
                    int64_t n = R0(at + i).allocs;
                    if (n < 1) v[i].cnt = 0;
                    else v[i].nth = 1 + static_cast<int64_t>(v[i].frac * static_cast<double>(n));
                }
        };
        fix(A, a0);
        fix(R, a0 + A.size());
        p.resolved = true;
    }
    // a new handle
    std::vector<LOp> fv;
    fv.push_back(plain("create", 0));
    fv.push_back(plain("setnc", 0));
    append(fv, clean(R));
    size_t fb0 = fv.size();
    append(fv, clean(B));
    RunResult fresh = c.run({fv});
    ++c.v.refs;
    if (bad(c.v, fresh, "new handle")) return;
    auto fo = by_op(fresh, 0);

    auto      v = whole(true, a0, b0);
    RunResult r = c.run({v});
    c.hash(r);
    if (bad(c.v, r, "allocation faults")) return;
    auto    o = by_op(r, 0);
    std::set<int> hit;
    int64_t fired = 0, errors = 0, compared = 0;
    bool    disposed = false;
    for (size_t i = a0; i < v.size(); ++i)
    {
        if (v[i].k == "mark") continue;
        if (i >= o.size() || o[i].empty()) { c.v.cls = "differs"; c.v.detail = "operation without a result"; return; }
        const Res&  x = o[i][0];
        const auto& op = v[i];
        std::string want = R0(i).text;
        auto fail = [&](const char* cls, const std::string& d) { c.v.cls = cls; c.v.detail = "operation " + std::to_string(i) + " " + desc(op) + ": " + d; };
        if (x.fired)
        {
            ++fired;
            bool err = x.text == "E:bad_alloc" || x.text.compare(0, 6, "false ") == 0;
            errors += err;
            if (!err && x.text != want && !hit.count(op.h)) { fail("outcome", "a failed allocation (" + std::to_string(op.nth) + " of " + std::to_string(R0(i).allocs) + ") gave " + pre(x.text) + " instead of an error or " + pre(want)); return; }
            if (o[i].size() > 1 && !o[i][1].fired && o[i][1].text != (op.k == "create" ? "ok" : "done")) { fail("unusable", "retried after a failed allocation: " + pre(o[i][1].text)); return; }
            hit.insert(op.h);
            continue;
        }
        if (i >= b0 && op.h == 0 && i < b0 + B.size())
        {
            size_t k = fb0 + (i - b0);
            std::string w = k < fo.size() && !fo[k].empty() ? fo[k][0].text : "<missing>";
            ++compared;
            if (x.text != w) { fail("differs", pre(x.text) + " instead of " + pre(w) + " as on a new handle"); return; }
            continue;
        }
        if (!hit.count(op.h) || op.k == "rmacros" || op.k == "rpath" || op.k == "rreset" || op.k == "dispose" || op.k == "setps" || pure(op.k))
        {
            ++compared;
            if (x.text != want) { fail("differs", pre(x.text) + " instead of " + pre(want) + " without faults"); return; }
        }
    }
    (void)disposed;
    if (p.warm)
    {
        std::vector<std::string> m;
        for (auto& rec : r.recs) if (rec.text.compare(0, 5, "live ") == 0) m.push_back(rec.text);
        if (m.size() == 2)
        {
            long b[2], y[2];
            for (int k = 0; k < 2; ++k) sscanf(m[static_cast<size_t>(k)].c_str(), "live %ld %ld", &b[k], &y[k]);
            if (b[1] > b[0] || y[1] > y[0])
            {
                // a cache filled on a path only the faults lead to is no leak: it does not grow when the same happens again
                std::vector<LOp> again(v.begin(), v.end());
                again.insert(again.end(), v.begin() + static_cast<long>(a0), v.end());
                RunResult w = c.run({again});
                if (bad(c.v, w, "allocation faults, again")) return;
                long q[3] = {}, z[3] = {};
                int  k = 0;
                for (auto& rec : w.recs) if (rec.text.compare(0, 5, "live ") == 0 && k < 3) { sscanf(rec.text.c_str(), "live %ld %ld", &q[k], &z[k]); ++k; }
                if (q[2] > q[1] || z[2] > z[1]) { c.v.cls = "leak"; c.v.detail = std::to_string(q[2] - q[1]) + " blocks, " + std::to_string(z[2] - z[1]) + " bytes are still allocated after everything was disposed"; return; }
            }
            c.probe("leak_checks", 1);
        }
    }
    c.probe("results_compared", compared);
    c.probe("calls_ended_with_error", errors);
    c.fault("alloc_failure", static_cast<int64_t>(r.fired));
    c.v.nontrivial = fired > 0 && compared > 0;
}

// ---- C16
// the same calls with other figures in their texts
std::vector<LOp> varied(std::vector<LOp> v, uint64_t round)
{
    for (auto& o : v)
    {
        if (o.k == "setnc") continue;
        bool code = false;
        for (size_t i = 0; i < o.t.size(); ++i)
        {
            bool digit = o.t[i] >= '0' && o.t[i] <= '9';
            if (!digit) code = strchr("GMTOgmto", o.t[i]) != nullptr && o.t[i];
            else if (!code) o.t[i] = static_cast<char>('0' + (static_cast<uint64_t>(o.t[i] - '0') + (round * 2654435761u >> (i % 7 * 4))) % 10);
        }
    }
    return v;
}
void c16(Ctx& c)
{
    auto& p = c.p;
    std::vector<LOp> v;
    v.push_back(plain("mark", 0));
    for (int i = 0; i < std::max(2, p.rounds); ++i)
    {
        append(v, p.split ? varied(p.threads[0], static_cast<uint64_t>(i)) : p.threads[0]);
        dispose_all(p, v);
        v.push_back(plain("mark", 0));
    }
    RunResult a = c.run({v}, {}, 0xCD);
    c.hash(a);
    if (bad(c.v, a, "fresh memory filled with 0xCD")) return;
    RunResult b = c.run({v}, {}, 0x5A);
    ++c.v.refs;
    if (bad(c.v, b, "fresh memory filled with 0x5A")) return;
    auto x = by_op(a, 0), y = by_op(b, 0);
    size_t round = p.threads[0].size() + p.handles.size() + 1;
    int64_t calls = 0;
    std::vector<std::pair<long, long>> m;
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (i >= x.size() || x[i].empty() || i >= y.size() || y[i].empty()) { c.v.cls = "differs"; c.v.detail = "operation without a result"; return; }
        if (v[i].k == "mark")
        {
            long n = 0, s = 0;
            sscanf(x[i][0].text.c_str(), "live %ld %ld", &n, &s);
            m.emplace_back(n, s);
            continue;
        }
        ++calls;
        if (x[i][0].text != y[i][0].text) { c.v.cls = "uninitialised"; c.v.detail = "operation " + std::to_string(i) + " " + desc(v[i]) + " depends on what was in fresh memory: " + pre(x[i][0].text) + " or " + pre(y[i][0].text); return; }
        if (!p.split && i > round && x[i][0].text != x[i - round][0].text) { c.v.cls = "differs"; c.v.detail = "operation " + std::to_string(i) + " " + desc(v[i]) + ": " + pre(x[i][0].text) + " instead of " + pre(x[i - round][0].text) + " as in the round before"; return; }
    }
    auto &l = m.back(), &k = m[m.size() - 2];
    if (p.split)
    {
        bool more = m.size() > 6;
        for (size_t i = 2; i < m.size(); ++i) more = more && (m[i].first > m[i - 1].first || m[i].second > m[i - 1].second);
        if (more)
        {
            c.v.cls = "leak";
            c.v.detail = "every further round of the same calls with other figures leaves more memory allocated, the last one " + std::to_string(l.first - k.first) + " blocks, " + std::to_string(l.second - k.second) + " bytes";
            return;
        }
        c.probe("runs_with_changing_figures", 1);
    }
    else if (l.first > k.first || l.second > k.second)
    {
        c.v.cls = "leak";
        c.v.detail = "a further round of the same calls leaves " + std::to_string(l.first - k.first) + " more blocks, " + std::to_string(l.second - k.second) + " more bytes allocated";
        return;
    }
    c.probe("calls_checked", calls * 2);
    c.fault("garbage_in_fresh_memory", 2);
    c.v.nontrivial = p.threads[0].size() > 3;
}

// ---- C17
void c17(Ctx& c)
{
    auto& p = c.p;
    p.threads.resize(3);
    std::vector<LOp> used, fresh;
    used.push_back(plain("create", 0));
    used.push_back(plain("setnc", 0));
    fresh = used;
    append(used, p.threads[0]);
    append(used, p.threads[2]);
    append(fresh, p.threads[2]);
    size_t u0 = used.size(), f0 = fresh.size();
    append(used, p.threads[1]);
    append(fresh, p.threads[1]);
    dispose_all(p, used);
    dispose_all(p, fresh);
    RunResult f = c.run({fresh});
    ++c.v.refs;
    if (bad(c.v, f, "new handle")) return;
    RunResult u = c.run({used});
    c.hash(u);
    if (bad(c.v, u, "used handle")) return;
    auto x = by_op(u, 0), y = by_op(f, 0);
    for (size_t i = 0; i < p.threads[1].size(); ++i)
    {
        std::string a = u0 + i < x.size() && !x[u0 + i].empty() ? x[u0 + i][0].text : "<missing>", b = f0 + i < y.size() && !y[f0 + i].empty() ? y[f0 + i][0].text : "<missing>";
        if (a != b) { c.v.cls = "differs"; c.v.detail = desc(p.threads[1][i]) + " after the reset: " + pre(a) + " instead of " + pre(b) + " as on a new handle"; return; }
    }
    c.probe("results_compared", static_cast<int64_t>(p.threads[1].size()));
    c.fault("abandoned_program", 1);
    c.v.nontrivial = !p.threads[0].empty() && !p.threads[1].empty();
}

// ---- C18
void c18(Ctx& c)
{
    auto& p = c.p;
    std::vector<LOp> v;
    create_all(p, v);
    std::vector<size_t> next(p.threads.size(), 0);
    std::vector<std::pair<size_t, size_t>> at; // position in v -> task, operation
    size_t v0 = v.size(), turns = 0;
    size_t last = ~size_t{0};
    auto take = [&](size_t t) {
        if (next[t] >= p.threads[t].size()) return;
        turns += t != last;
        last = t;
        at.emplace_back(t, next[t]);
        v.push_back(p.threads[t][next[t]++]);
    };
    for (auto& s : p.sw) if (s.thread >= 0 && static_cast<size_t>(s.thread) < p.threads.size()) take(static_cast<size_t>(s.thread));
    for (size_t t = 0; t < p.threads.size(); ++t) while (next[t] < p.threads[t].size()) take(t);
    dispose_all(p, v);
    std::vector<std::vector<std::vector<Res>>> solo;
    for (auto& t : p.threads)
    {
        std::vector<LOp> w;
        create_all(p, w);
        append(w, t);
        dispose_all(p, w);
        RunResult r = c.run({w});
        ++c.v.refs;
        if (bad(c.v, r, "one task alone")) return;
        solo.push_back(by_op(r, 0));
    }
    RunResult r = c.run({v});
    c.hash(r);
    if (bad(c.v, r, "tasks in turns")) return;
    auto x = by_op(r, 0);
    for (size_t i = 0; i < at.size(); ++i)
    {
        auto [t, k] = at[i];
        std::string a = v0 + i < x.size() && !x[v0 + i].empty() ? x[v0 + i][0].text : "<missing>", b = v0 + k < solo[t].size() && !solo[t][v0 + k].empty() ? solo[t][v0 + k][0].text : "<missing>";
        if (a != b) { c.v.cls = "differs"; c.v.detail = "task " + std::to_string(t) + " call " + std::to_string(k) + " " + desc(p.threads[t][k]) + ": " + pre(a) + " instead of " + pre(b) + " when its task has the handle to itself"; return; }
    }
    c.probe("results_compared", static_cast<int64_t>(at.size()));
    c.fault("task_switch", static_cast<int64_t>(turns));
    c.v.nontrivial = turns > 2;
    for (auto& a : at) { auto t = static_cast<uint32_t>(a.first); c.v.shape = fnv(&t, 4, c.v.shape ? c.v.shape : 1469598103934665603ull); }
}

// ---- C26
void c26(Ctx& c)
{
    auto& p = c.p;
    std::vector<LOp> v = p.threads[0];
    dispose_all(p, v);
    RunResult r = c.run({v}, {}, p.split ? 0x5A : 0xCD);
    c.hash(r);
    if (bad(c.v, r, "C interface")) return;
    Job       j{&p, {clean(v)}, {}, 0xCD, true, false};
    RunResult d = execute(j);
    ++c.v.refs;
    if (bad(c.v, d, "parser classes")) return;
    auto x = by_op(r, 0), y = by_op(d, 0);
    int64_t words = 0, turns = 0;
    int     last = -1;
    for (size_t i = 0; i < v.size(); ++i)
    {
        turns += v[i].h != last;
        last = v[i].h;
        std::string a = i < x.size() && !x[i].empty() ? x[i][0].text : "<missing>", b = i < y.size() && !y[i].empty() ? y[i][0].text : "<missing>";
        words += a.find("\":\"") != std::string::npos;
        if (a == b) continue;
        size_t k = 0;
        while (k < a.size() && k < b.size() && a[k] == b[k]) ++k;
        k = k > 60 ? k - 60 : 0;
        c.v.cls = "differs";
        c.v.detail = "operation " + std::to_string(i) + " " + desc(v[i]) + ": the C interface hands over " + (k ? "..." : "") + pre(a.substr(k)) + ", the parser computed " + (k ? "..." : "") + pre(b.substr(k));
        return;
    }
    c.probe("results_compared", static_cast<int64_t>(v.size()));
    c.probe("results_with_words", words);
    c.fault("handle_switch", p.handles.size() > 1 ? turns : 0);
    c.fault("garbage_in_fresh_memory", 1);
    c.v.nontrivial = v.size() > 6;
}
} // namespace

LVerdict judge(LPlan& p)
{
    Ctx c(p);
    c.v.hash = 1469598103934665603ull;
    if (p.prop == "C14") c14(c);
    else if (p.prop == "C15") c15(c);
    else if (p.prop == "C16") c16(c);
    else if (p.prop == "C17") c17(c);
    else if (p.prop == "C18") c18(c);
    else if (p.prop == "C26") c26(c);
    uint64_t sh = c.v.shape ? c.v.shape : 1469598103934665603ull;
    for (auto& t : p.threads) { for (auto& o : t) { sh = fnv(o.k, sh); sh = fnv(&o.h, 4, sh); sh = fnv(&o.nth, 8, sh); sh = fnv(&o.cnt, 8, sh); } sh = fnv(std::string("|"), sh); }
    sh = fnv(c.v.trace, sh);
    c.v.shape = sh;
    std::map<std::string, int64_t> ops;
    for (auto& t : p.threads) for (auto& o : t) ops[o.k]++;
    for (auto& [k, n] : ops) c.v.ops.emplace_back(k, n);
    c.v.hash = fnv(c.v.cls, c.v.hash);
    return c.v;
}
} // namespace sim
