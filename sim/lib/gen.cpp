// Plans for the library simulator: text form and seeded generation.
#include "../common/programs.h"
#include "plan.h"

namespace sim {

static J jop(const LOp& o)
{
    J j = J::obj();
    j.set("k", o.k);
    if (o.h) j.set("h", o.h);
    if (o.l) j.set("l", o.l);
    if (o.m) j.set("m", o.m);
    if (o.hold) j.set("hold", o.hold);
    if (!o.t.empty()) j.set("t", o.t);
    if (!o.s.empty()) j.set("s", o.s);
    if (!o.u.empty()) j.set("u", o.u);
    if (!o.v.empty()) { J a = J::arr(); for (auto x : o.v) a.push(x); j.set("v", a); }
    if (o.cnt) j.set("nth", o.nth).set("cnt", o.cnt);
    if (o.cnt && o.frac >= 0) j.set("frac", o.frac);
    return j;
}
std::string LPlan::to_json() const
{
    J j = J::obj(), hs = J::arr(), ts = J::arr(), ss = J::arr();
    j.set("prop", prop).set("seed", std::to_string(seed)).set("warm", warm).set("split", split).set("rounds", rounds).set("style", style).set("resolved", resolved);
    for (auto& h : handles) { J x = J::obj(); x.set("driver", h.driver).set("lang", h.lang).set("bits", h.bits).set("settings", h.settings); hs.push(x); }
    for (auto& t : threads) { J a = J::arr(); for (auto& o : t) a.push(jop(o)); ts.push(a); }
    for (auto& s : sw) { J a = J::arr(); a.push(s.thread).push(s.op).push(s.step).push(s.next); ss.push(a); }
    j.set("handles", hs).set("threads", ts).set("switches", ss);
    return j.dump();
}
LPlan LPlan::from_json(const std::string& s)
{
    J j;
    if (!J::parse(s, j)) { fprintf(stderr, "bad plan file\n"); exit(2); }
    LPlan p;
    p.prop = j.at("prop").str();
    p.seed = strtoull(j.at("seed").str().c_str(), nullptr, 10);
    p.warm = static_cast<int>(j.at("warm").i());
    p.rounds = static_cast<int>(j.at("rounds").i(1));
    p.split = static_cast<int>(j.at("split").i());
    p.style = j.at("style").str();
    p.resolved = j.at("resolved").b;
    for (auto& h : j.at("handles").a) p.handles.push_back({h.at("driver").str(), static_cast<int>(h.at("lang").i()), static_cast<int>(h.at("bits").i()), h.at("settings").str()});
    for (auto& t : j.at("threads").a)
    {
        p.threads.emplace_back();
        for (auto& x : t.a)
        {
            LOp o;
            o.k = x.at("k").str();
            o.h = static_cast<int>(x.at("h").i());
            o.l = static_cast<int>(x.at("l").i());
            o.m = static_cast<int>(x.at("m").i());
            o.hold = static_cast<int>(x.at("hold").i());
            o.t = x.at("t").str();
            o.s = x.at("s").str();
            o.u = x.at("u").str();
            for (auto& v : x.at("v").a) o.v.push_back(v.i());
            o.nth = x.at("nth").i();
            o.cnt = x.at("cnt").i();
            o.frac = x.has("frac") ? x.at("frac").n() : -1;
            p.threads.back().push_back(o);
        }
    }
    for (auto& x : j.at("switches").a) p.sw.push_back({static_cast<int>(x.a[0].i()), static_cast<int>(x.a[1].i()), static_cast<uint64_t>(x.a[2].i()), static_cast<int>(x.a[3].i())});
    return p;
}

namespace {
// Heidenhain dialogue programs
std::string hnum(Rng& r) { return r.pick(std::vector<std::string>{"+", "-", ""}) + std::to_string(r.below(300)) + (r.chance(0.4) ? (r.chance(0.5) ? "." : ",") + std::to_string(r.below(100)) : ""); }
std::string hline(Rng& r)
{
    std::string s = r.chance(0.15) ? std::to_string(r.below(100)) + " " : "";
    switch (r.below(16))
    {
    case 0: case 1: case 2: s += "L X" + hnum(r) + (r.chance(0.6) ? " Y" + hnum(r) : "") + (r.chance(0.3) ? " R0" : "") + (r.chance(0.5) ? r.chance(0.5) ? " FMAX" : " F" + std::to_string(r.below(5000)) : "") + (r.chance(0.3) ? " M" + std::to_string(r.below(14)) : ""); break;
    case 3: s += "TOOL CALL " + std::to_string(r.below(40)) + " Z S" + std::to_string(r.below(9000)); break;
    case 4: s += "CC X" + hnum(r) + " Y" + hnum(r); break;
    case 5: s += "C X" + hnum(r) + " Y" + hnum(r) + (r.chance(0.5) ? " DR+" : " DR-"); break;
    case 6: s += "; a comment " + std::to_string(r.below(100)); break;
    case 7: s += "BEGIN PGM X" + std::to_string(r.below(100)) + " MM"; break;
    case 8: s += "Q" + std::to_string(r.below(300)) + " = " + hnum(r); break;
    case 9: s += "M" + std::to_string(r.below(150)); break;
    case 10: s += "CYCL DEF 1." + std::to_string(r.below(6)) + " SET UP" + hnum(r); break;
    case 11: s += "LBL " + std::to_string(r.below(20)); break;
    case 12: s += "END PGM X1 MM"; break;
    case 13: s += "G1 X10 Y20"; break;
    case 14: return hostile_line(r);
    default: s += "X" + hnum(r); break;
    }
    return s;
}
std::vector<std::string> lines_of(const std::string& t)
{
    std::vector<std::string> v;
    std::string              l;
    for (char c : t) if (c == '\n') { v.push_back(l); l.clear(); } else l += c;
    if (!l.empty()) v.push_back(l);
    return v;
}
struct G
{
    Rng   r;
    LPlan p;
    explicit G(uint64_t s) : r(s) {}
    bool heid(int h) { return p.handles[static_cast<size_t>(h)].driver == "heidenhain"; }
    const std::string& drv(int h) { return heid(h) ? drivers()[0] : p.handles[static_cast<size_t>(h)].driver; }
    std::vector<std::string> program(int h, int n)
    {
        if (heid(h)) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(hline(r)); return v; }
        static const int st[] = {0, 0, 0, 0, 1, 1, 2, 3, 3};
        auto v = lines_of(make_program(r, drv(h), n, st[r.below(9)]));
        if (v.size() > static_cast<size_t>(n) + 2) v.resize(static_cast<size_t>(n) + 2);
        return v;
    }
    HandleSpec spec(const std::string& d = "")
    {
        HandleSpec h;
        h.driver = !d.empty() ? d : r.chance(0.12) ? "heidenhain" : r.pick(drivers());
        h.lang = r.chance(0.2);
        h.bits = r.chance(0.75) ? 31 : static_cast<int>(r.below(32));
        h.settings = settings_text(r, h.driver == "heidenhain" ? drivers()[0] : h.driver);
        return h;
    }
    LOp op(const char* k, int h, int l = 0, const std::string& t = "") { LOp o; o.k = k; o.h = h; o.l = l; o.t = t; o.m = r.chance(0.25); o.hold = r.chance(0.1); return o; }
    LOp create(int h) { LOp o; o.k = "create"; o.h = h; o.v = {r.chance(0.15)}; return o; }
    LOp setnc(int h) { LOp o; o.k = "setnc"; o.h = h; return o; }
    LOp plain(const char* k, int h) { LOp o; o.k = k; o.h = h; return o; }
    // one call of a task that rewrites a line
    LOp rewrite(const std::string& k, int h, int l, const std::string& t)
    {
        LOp o = op(k.c_str(), h, l, t);
        if (k == "conv") o.v = {static_cast<int64_t>(r.below(2))};
        else if (k == "rot") o.v = {static_cast<int64_t>(r.below(9))};
        else if (k == "renum") { o.s = "N"; o.v = {static_cast<int64_t>(r.chance(0.5) ? 1 : r.range(1, 10)), r.range(1, 3), r.chance(0.7) ? 9999 : r.range(1, 60), r.chance(0.3), r.chance(0.3)}; }
        return o;
    }
    LOp splitop(int h, const std::vector<std::string>& v)
    {
        LOp o = op(r.chance(0.6) ? "split" : "splits", h);
        for (auto& x : v) o.t += x + "\n";
        o.v = {static_cast<int64_t>(r.below(5)), r.range(1, 8), r.range(1, 20), r.range(1, 200), r.chance(0.3)};
        o.s = r.pick(std::vector<std::string>{"T", "M6", "G0", "(", "N", "X"});
        o.u = r.chance(0.5) ? "" : r.pick(std::vector<std::string>{"Z100", "G0 Z50", "Z", "Z[", "U10"});
        return o;
    }
    const std::vector<std::string> rewrites{"conv", "rnum", "renum", "rot", "rcom", "ropt"};
    // what a caller does with one program
    void work(std::vector<LOp>& v, int h, int n, double extra, bool split = true)
    {
        auto pr = program(h, n);
        int  l = r.chance(0.9) ? 1 : r.range(0, 500);
        auto other = [&] { return r.chance(0.8) || pr.empty() ? (heid(h) ? hline(r) : hostile_line(r)) : r.pick(pr); };
        if (r.chance(0.25)) v.push_back(op("rstart", h)), v.back().v = {r.range(0, 50)};
        for (auto& t : pr)
        {
            v.push_back(op(r.chance(0.8) ? "parse" : "pval", h, l, t));
            if (r.chance(extra)) v.push_back(op("lmacros", h, r.chance(0.8) ? l : r.range(0, l + 1)));
            if (r.chance(extra * 0.6)) v.push_back(op("macros", h));
            if (r.chance(extra)) v.push_back(op("path", h));
            if (r.chance(extra * 2)) v.push_back(rewrite(r.pick(rewrites), h, l, r.chance(0.6) ? t : other()));
            if (r.chance(0.04)) v.push_back(op("parse", h, l, other()));
            if (split && r.chance(extra * 0.2)) v.push_back(splitop(h, pr));
            if (r.chance(0.03)) v.push_back(plain(r.chance(0.5) ? "rmacros" : r.chance(0.5) ? "rpath" : "rreset", h));
            ++l;
            if (r.chance(0.02)) l = r.range(0, l + 3);
        }
        if (r.chance(0.5)) v.push_back(op("macros", h));
        if (r.chance(0.5)) v.push_back(op("path", h));
    }
    void alloc_fault(LOp& o)
    {
        o.frac = r.chance(0.15) ? 0 : static_cast<double>(r.below(100000)) / 100000.0;
        o.cnt = r.chance(0.7) ? 1 : r.chance(0.5) ? r.range(2, 6) : 1000000000;
    }
    void c14()
    {
        int n = r.chance(0.6) ? 2 : r.chance(0.6) ? 3 : 4;
        bool same = r.chance(0.5);
        std::string d = same ? (r.chance(0.15) ? "heidenhain" : r.pick(drivers())) : "";
        for (int t = 0; t < n; ++t)
        {
            int h0 = static_cast<int>(p.handles.size());
            p.handles.push_back(spec(d));
            if (same && r.chance(0.4)) { p.handles.back().bits = p.handles[0].bits; p.handles.back().settings = p.handles[0].settings; }
            std::vector<LOp> v{create(h0), setnc(h0)};
            if (r.chance(0.1)) { p.handles.push_back(spec(d)); v.push_back(create(h0 + 1)); v.push_back(setnc(h0 + 1)); }
            int rounds = r.chance(0.75) ? 1 : 2;
            for (int i = 0; i < rounds; ++i)
            {
                work(v, h0, r.range(1, 8), 0.15);
                if (p.handles.size() > static_cast<size_t>(h0) + 1 && r.chance(0.7)) work(v, h0 + 1, r.range(1, 4), 0.15);
                if (i + 1 < rounds)
                {
                    if (r.chance(0.5)) { v.push_back(plain("dispose", h0)); v.push_back(create(h0)); v.push_back(setnc(h0)); }
                    else { v.push_back(plain("rmacros", h0)); v.push_back(plain("rpath", h0)); }
                }
            }
            if (r.chance(0.6)) v.push_back(plain("dispose", h0));
            p.threads.push_back(v);
        }
        // the same program on several threads: the same internal paths at the same time
        if (same && r.chance(0.3)) for (size_t t = 1; t < p.threads.size(); ++t) { int d0 = static_cast<int>(t); if (p.handles.size() == p.threads.size()) { p.threads[t] = p.threads[0]; for (auto& o : p.threads[t]) o.h = d0; } }
        p.style = r.pick(std::vector<std::string>{"few", "uniform", "dense", "calls", "start", "race", "race", "race", "race"});
    }
    void resets(std::vector<LOp>& v, int h)
    {
        std::vector<const char*> k{"rmacros", "rpath", "rreset"};
        for (size_t i = 0; i < 3; ++i) std::swap(k[i], k[i + r.below(3 - i)]);
        for (auto x : k) v.push_back(plain(x, h));
    }
    void c15()
    {
        p.handles.push_back(spec());
        p.warm = r.chance(0.75);
        std::vector<LOp> a{create(0), setnc(0)}, rs, b;
        bool two = r.chance(0.2);
        if (two) { p.handles.push_back(spec(r.chance(0.5) ? p.handles[0].driver : "")); a.push_back(create(1)); a.push_back(setnc(1)); }
        work(a, 0, r.range(1, 8), 0.25);
        if (two) work(a, 1, r.range(1, 5), 0.25);
        resets(rs, 0);
        work(b, 0, r.range(1, 8), 0.2);
        for (auto& o : a) if (r.chance(o.k == "create" || o.k == "setnc" ? 0.15 : 0.25)) alloc_fault(o);
        for (auto& o : rs) if (r.chance(0.1)) alloc_fault(o);
        bool any = false;
        for (auto& o : a) any |= o.cnt != 0;
        if (!any) alloc_fault(a[r.below(a.size())]);
        p.threads = {a, b, rs};
    }
    void c16()
    {
        int n = r.chance(0.7) ? 1 : 2;
        std::vector<LOp> v;
        p.rounds = r.chance(0.8) ? 2 : 3;
        for (int h = 0; h < n; ++h) p.handles.push_back(spec());
        for (int h = 0; h < n; ++h)
        {
            v.push_back(create(h));
            v.push_back(setnc(h));
            work(v, h, r.range(1, 12), 0.3);
            if (r.chance(0.15)) { v.push_back(setnc(h)); v.back().t = settings_text(r, drv(h)); work(v, h, r.range(1, 4), 0.3); }
            if (r.chance(0.15)) { v.push_back(plain("setps", h)); v.back().v = {static_cast<int64_t>(r.below(32))}; work(v, h, r.range(1, 4), 0.3); }
            if (r.chance(0.1)) { v.push_back(plain("dispose", h)); v.push_back(create(h)); v.push_back(setnc(h)); work(v, h, r.range(1, 3), 0.2); }
        }
        for (auto& o : v) o.hold = r.chance(0.2);
        if (r.chance(0.2)) { p.split = 1; p.rounds = r.range(7, 9); if (v.size() > 40) v.resize(40); }
        p.threads.push_back(v);
    }
    void c17()
    {
        p.handles.push_back(spec());
        std::vector<LOp> a, rs, b;
        int n = r.chance(0.7) ? 1 : r.range(2, 4);
        for (int i = 0; i < n; ++i)
        {
            work(a, 0, r.chance(0.9) ? r.range(1, 14) : r.range(30, 150), 0.15);
            if (r.chance(0.5) && a.size() > 2) a.resize(1 + r.below(a.size())); // abandoned at any line
            if (r.chance(0.3)) resets(a, 0);
        }
        bool bits = false, other = false;
        if (r.chance(0.15)) { a.insert(a.begin() + static_cast<long>(r.below(a.size() + 1)), plain("setps", 0)); for (auto& o : a) if (o.k == "setps") o.v = {static_cast<int64_t>(r.below(32))}; bits = true; }
        if (r.chance(0.2)) { LOp o = setnc(0); o.t = settings_text(r, drv(0)); a.insert(a.begin() + static_cast<long>(r.below(a.size() + 1)), o); other = true; }
        if (bits) { rs.push_back(plain("setps", 0)); rs.back().v = {p.handles[0].bits}; }
        // applying settings again does the work of the path reset
        if (other || r.chance(0.35))
        {
            rs.push_back(setnc(0));
            rs.push_back(plain("rmacros", 0));
            if (r.chance(0.5)) rs.push_back(plain("rpath", 0));
            rs.push_back(plain("rreset", 0));
            if (!other && r.chance(0.5)) std::swap(rs[rs.size() - 1], rs[rs.size() - 2]);
        }
        else resets(rs, 0);
        work(b, 0, r.range(1, 12), 0.2);
        p.threads = {a, b, rs};
    }
    void c18()
    {
        p.handles.push_back(spec());
        int k = r.range(1, 3);
        std::vector<std::vector<LOp>> t(1);
        // the parse task
        {
            auto& v = t[0];
            auto  pr = program(0, r.range(2, 12));
            int   l = 1;
            for (auto& x : pr)
            {
                v.push_back(op(r.chance(0.85) ? "parse" : "pval", 0, l++, x));
                if (r.chance(0.1)) v.push_back(op("lmacros", 0, r.range(0, l)));
                if (r.chance(0.2)) v.push_back(op("macros", 0));
                if (r.chance(0.2)) v.push_back(op("path", 0));
                if (r.chance(0.03)) v.push_back(plain(r.chance(0.5) ? "rmacros" : "rpath", 0));
            }
            v.push_back(op("macros", 0));
            v.push_back(op("path", 0));
        }
        std::vector<std::string> kinds = rewrites;
        for (int i = 0; i < k; ++i)
        {
            size_t q = r.below(kinds.size());
            std::string kind = kinds[q];
            kinds.erase(kinds.begin() + static_cast<long>(q)); // one task of a kind
            std::vector<LOp> v;
            auto pr = program(0, r.range(1, 10));
            int  l = r.range(0, 3);
            LOp  first = rewrite(kind, 0, 0, "");
            if (kind == "renum" && r.chance(0.5)) { v.push_back(plain("rstart", 0)); v.back().v = {r.range(0, 50)}; }
            for (auto& x : pr)
            {
                LOp o = op(kind.c_str(), 0, l++, x);
                o.v = first.v;
                o.s = first.s;
                v.push_back(o);
                if (kind == "renum" && r.chance(0.05)) v.push_back(plain("rreset", 0));
            }
            t.push_back(v);
        }
        p.threads = t;
        size_t total = p.nops();
        bool   runs = r.chance(0.4);
        int    cur = 0;
        for (size_t i = 0; i < total; ++i)
        {
            if (!runs || r.chance(0.3)) cur = static_cast<int>(r.below(t.size()));
            p.sw.push_back({cur, 0, 0, 0});
        }
    }
    void c26()
    {
        int n = r.chance(0.6) ? 1 : 2;
        std::vector<std::vector<LOp>> t(static_cast<size_t>(n));
        for (int h = 0; h < n; ++h) p.handles.push_back(spec());
        for (int h = 0; h < n; ++h)
        {
            auto& v = t[static_cast<size_t>(h)];
            v.push_back(create(h));
            v.push_back(setnc(h));
            work(v, h, r.range(1, 14), r.chance(0.5) ? 0.5 : 0.25);
            if (r.chance(0.25)) v.push_back(splitop(h, program(h, r.range(1, 15))));
            if (r.chance(0.2)) { v.push_back(setnc(h)); v.back().t = settings_text(r, drv(h)); work(v, h, r.range(1, 6), 0.4); }
            if (r.chance(0.2)) { v.push_back(plain("setps", h)); v.back().v = {static_cast<int64_t>(r.below(32))}; work(v, h, r.range(1, 6), 0.4); }
            if (r.chance(0.1)) { v.push_back(plain("dispose", h)); v.push_back(create(h)); v.push_back(setnc(h)); work(v, h, r.range(1, 4), 0.3); }
            if (r.chance(0.3))
            {
                LOp first = rewrite("renum", h, 0, "");
                if (r.chance(0.5)) first.s = r.pick(std::vector<std::string>{"N", "O", ":", "BLK"});
                int l = 1;
                for (auto& x : program(h, r.range(2, 12))) { LOp o = op("renum", h, l++, x); o.v = first.v; o.s = first.s; v.push_back(o); }
            }
        }
        // the handles take turns
        std::vector<LOp> v;
        std::vector<size_t> at(t.size(), 0);
        size_t cur = 0;
        for (;;)
        {
            bool any = false;
            for (size_t i = 0; i < t.size(); ++i) any |= at[i] < t[i].size();
            if (!any) break;
            if (r.chance(0.4)) cur = r.below(t.size());
            if (at[cur] >= t[cur].size()) { cur = (cur + 1) % t.size(); continue; }
            v.push_back(t[cur][at[cur]++]);
        }
        p.split = r.chance(0.5);
        p.threads.push_back(v);
    }
};
} // namespace

LPlan gen_plan(const std::string& prop, uint64_t seed)
{
    G g(seed);
    g.p.prop = prop;
    g.p.seed = seed;
    if (prop == "C14") g.c14();
    else if (prop == "C15") g.c15();
    else if (prop == "C16") g.c16();
    else if (prop == "C17") g.c17();
    else if (prop == "C18") g.c18();
    else if (prop == "C26") g.c26();
    else { fprintf(stderr, "unknown property\n"); exit(2); }
    return g.p;
}
} // namespace sim
