// run: seeded search over sessions. replay: one plan file. shrink: minimise a failing plan.
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>

#include "gen.h"
#include "oracle.h"

using namespace sim;

static double wall() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }

static Verdict execute(const Plan& p, History& h) 
{
    h = run(p);
    Verdict v = judge(p, h);
    h.hash ^= v.more_hash;
    h.sim_ns += v.more_ns;
    h.steps += v.more_steps;
    return v;
}

// the measure of distinct executions: the sequence of operation kinds, answers, faults and ends, without payloads
static uint64_t shape(const History& h)
{
    uint64_t x = 1469598103934665603ull;
    for (auto& i : h.inc)
    {
        for (auto& e : i.ev) if (strchr("MmCFfKXSIRELP", e.kind)) { x = fnv(&e.kind, 1, x); if (e.kind == 'F' || e.kind == 'M' || e.kind == 'm') x = fnv(&e.a, 4, x); }
        int v[2] = {i.end.how, i.end.code};
        x = fnv(v, sizeof v, x);
    }
    return x;
}

static bool still(const Plan& p, const std::string& cls) { History h; return execute(p, h).cls == cls; }

static Plan shrink(Plan p, const std::string& cls, double budget)
{
    double end = wall() + budget;
    auto   left = [&] { return wall() < end; };
    const auto starts = std::count_if(p.ops.begin(), p.ops.end(), [](auto& o) { return o.k == "init" || o.k == "cfg" || o.k == "round"; });
    // 1. drop runs of operations, then of faults
    for (int pass = 0; pass < 3 && left(); ++pass)
    {
        bool any = false;
        for (size_t n = std::max<size_t>(1, p.ops.size() / 2); n >= 1 && left(); n /= 2)
        {
            for (size_t i = 0; i + n <= p.ops.size() && left();)
            {
                if (p.ops[i].k == "init" || p.ops[i].k == "cfg" || p.ops[i].k == "round") { ++i; continue; } // the editor always starts the session
                Plan q = p;
                q.ops.erase(q.ops.begin() + static_cast<long>(i), q.ops.begin() + static_cast<long>(i + n));
                if (std::count_if(q.ops.begin(), q.ops.end(), [](auto& o) { return o.k == "init" || o.k == "cfg" || o.k == "round"; }) != starts) { i += n; continue; }
                if (still(q, cls)) { p = q; any = true; } else i += n;
            }
            if (n == 1) break;
        }
        for (size_t i = 0; i < p.faults.size() && left();) { Plan q = p; q.faults.erase(q.faults.begin() + static_cast<long>(i)); if (still(q, cls)) { p = q; any = true; } else ++i; }
        if (!any) break;
    }
    // 2. simpler faults, timing and world
    for (auto f : {&World::log, &World::macro}) if (left()) { Plan q = p; q.w.*f = 0; if (still(q, cls)) p = q; }
    if (left() && p.w.log_pad) { Plan q = p; q.w.log_pad = 0; if (still(q, cls)) p = q; }
    if (left() && !p.w.log_text.empty()) { Plan q = p; q.w.log_text.clear(); if (still(q, cls)) p = q; }
    for (size_t i = 0; i < p.faults.size() && left(); ++i)
    {
        if (p.faults[i].cnt > 1) { Plan q = p; q.faults[i].cnt = 1; if (still(q, cls)) p = q; }
        if (p.faults[i].nth > 0) { Plan q = p; q.faults[i].nth = 0; if (still(q, cls)) p = q; }
    }
    for (size_t i = 0; i < p.ops.size() && left(); ++i)
    {
        auto& o = p.ops[i];
        if (!o.cuts.empty()) { Plan q = p; q.ops[i].cuts.clear(); if (still(q, cls)) p = q; else for (size_t k = 0; k < p.ops[i].cuts.size() && left();) { Plan z = p; z.ops[i].cuts.erase(z.ops[i].cuts.begin() + static_cast<long>(k)); if (still(z, cls)) p = z; else ++k; } }
        if (p.ops[i].gap) { Plan q = p; q.ops[i].gap = 0; if (still(q, cls)) p = q; }
        if (p.ops[i].hdr) { Plan q = p; q.ops[i].hdr = 0; if (still(q, cls)) p = q; }
        if (!p.ops[i].wait && p.ops[i].k != "kill") { Plan q = p; q.ops[i].wait = true; if (still(q, cls)) p = q; }
    }
    // 3. shorter texts: lines, then characters of short ones
    for (size_t i = 0; i < p.ops.size() && left(); ++i)
    {
        if (p.ops[i].t.empty() || p.ops[i].k == "file" || p.ops[i].k == "part") continue;
        std::vector<std::string> l;
        { std::string c; for (char ch : p.ops[i].t) { c += ch; if (ch == '\n') { l.push_back(c); c.clear(); } } if (!c.empty()) l.push_back(c); }
        auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x; return s; };
        for (size_t n = std::max<size_t>(1, l.size() / 2); left(); n /= 2)
        {
            for (size_t k = 0; k + n <= l.size() && left();) { auto m = l; m.erase(m.begin() + static_cast<long>(k), m.begin() + static_cast<long>(k + n)); Plan q = p; q.ops[i].t = join(m); if (still(q, cls)) { p = q; l = m; } else k += n; }
            if (n <= 1) break;
        }
        std::string t = p.ops[i].t;
        for (size_t n = std::max<size_t>(1, t.size() / 2); left(); n /= 2)
        {
            for (size_t k = 0; k + n <= t.size() && left();) { std::string m = t; m.erase(k, n); Plan q = p; q.ops[i].t = m; if (still(q, cls)) { p = q; t = m; } else k += n; }
            if (n <= 1) break;
        }
    }
    return p;
}

int main(int argc, char** argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR"))
    {
        personality(ADDR_NO_RANDOMIZE);
        setenv("SIM_ASLR", "tried", 1);
        execv("/proc/self/exe", argv);
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::map<std::string, std::string> a;
    std::string                        mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    init_base_files(a.count("--repo") ? a["--repo"] : "/repo");
    if (drivers().empty()) { fprintf(stderr, "no configuration found\n"); return 2; }

    if (mode == "gen")
    {
        std::cout << gen_plan(a["--prop"], strtoull(a["--seed"].c_str(), nullptr, 10)).to_json() << "\n";
        return 0;
    }
    if (mode == "replay" || mode == "shrink")
    {
        Plan p = Plan::from_json(slurp(a["--plan"]));
        History h;
        Verdict v = execute(p, h);
        if (mode == "shrink" && !v.cls.empty())
        {
            p = shrink(p, v.cls, num("--budget", 40));
            v = execute(p, h);
            spit(a["--out"], p.to_json());
        }
        J j = J::obj();
        char hx[32];
        snprintf(hx, sizeof hx, "%016llx", static_cast<unsigned long long>(h.hash));
        j.set("hash", std::string(hx)).set("cls", v.cls).set("detail", v.detail).set("ops", static_cast<int>(p.ops.size())).set("faults", static_cast<int>(p.faults.size()));
        std::cout << j.dump() << "\n";
        if (a.count("--trace"))
            for (auto& i : h.inc)
            {
                for (auto& e : i.ev) if (!strchr("D", e.kind)) std::cout << e.kind << " t=" << e.t / 1000 << "us a=" << e.a << " " << J(e.d.substr(0, 300)).dump() << "\n";
                std::cout << "end " << static_cast<char>(i.end.how) << " " << i.end.code << "\n";
            }
        return v.cls.empty() ? 0 : 1;
    }
    if (mode == "run")
    {
        std::string prop = a["--prop"];
        uint64_t    base = strtoull(a["--seed"].c_str(), nullptr, 10);
        int64_t     start = static_cast<int64_t>(num("--start", 0)), step = static_cast<int64_t>(num("--step", 1)), count = static_cast<int64_t>(num("--count", 1e9));
        double      t0 = wall(), until = t0 + num("--time", 30), hard = t0 + num("--max-time", num("--time", 30));
        int64_t     least = static_cast<int64_t>(num("--min", 0));
        int         maxv = static_cast<int>(num("--max-violations", 1));
        bool        hashes = a.count("--hashes");
        std::set<uint64_t> shapes, nontriv;
        std::map<std::string, int64_t> probes, fired, ops, ends;
        int64_t  n = 0, nt = 0;
        uint64_t sim_ns = 0, steps = 0;
        J        samples = J::arr(), viol = J::arr(), hl = J::arr();
        for (int64_t i = start; n < count && wall() < (n < least ? hard : until); i += step)
        {
            uint64_t seed = fnv(prop + ":" + std::to_string(base) + ":" + std::to_string(i));
            Plan     p = gen_plan(prop, seed);
            History  h;
            Verdict  v = execute(p, h);
            ++n;
            sim_ns += h.sim_ns;
            steps += h.steps;
            auto sh = shape(h);
            shapes.insert(sh);
            if (v.nontrivial) { ++nt; nontriv.insert(sh); }
            for (auto& [k, c] : v.probes) probes[k] += c;
            for (size_t k = 0; k < p.faults.size(); ++k) if (h.fired[k]) fired[p.faults[k].on + ":" + p.faults[k].kind] += h.fired[k];
            for (auto& inc : h.inc)
            {
                ends[std::string(1, static_cast<char>(inc.end.how))]++;
                for (auto& e : inc.ev) if (e.kind == 'Z')
                {
                    auto& o = p.ops[static_cast<size_t>(e.a)];
                    ops[o.k]++;
                    if (!o.cuts.empty()) fired["input:split"] += static_cast<int64_t>(o.cuts.size());
                    if (o.k == "file") fired["file:" + o.s]++;
                    if (o.k == "kill" || o.k == "eof" || o.k == "hup" || o.k == "part" || o.k == "stall" || o.k == "clock" || o.k == "raw") fired[o.k]++;
                }
            }
            if (hashes) { char hx[40]; snprintf(hx, sizeof hx, "%016llx", static_cast<unsigned long long>(h.hash)); hl.push(std::to_string(i) + " " + hx + " " + v.cls); }
            if (v.nontrivial && samples.a.size() < 2 && p.to_json().size() < 6000) { J s; J::parse(p.to_json(), s); samples.push(s); }
            if (!v.cls.empty())
            {
                J s = J::obj();
                s.set("index", i).set("cls", v.cls).set("detail", v.detail).set("plan", p.to_json());
                viol.push(s);
                if (static_cast<int>(viol.a.size()) >= maxv) break;
            }
        }
        J out = J::obj(), jp = J::obj(), jf = J::obj(), jo = J::obj(), je = J::obj(), js = J::arr(), jn = J::arr();
        for (auto& [k, c] : probes) jp.set(k, c);
        for (auto& [k, c] : fired) jf.set(k, c);
        for (auto& [k, c] : ops) jo.set(k, c);
        for (auto& [k, c] : ends) je.set(k, c);
        for (auto x : shapes) js.push(std::to_string(x));
        for (auto x : nontriv) jn.push(std::to_string(x));
        out.set("runs", n).set("nontrivial", nt).set("sim_ns", sim_ns).set("steps", steps).set("covered", covered()).set("ref_runs", g_ref_runs).set("probes", jp).set("faults", jf).set("ops", jo).set("ends", je).set("shapes", js).set("nshapes", jn).set("samples", samples).set("violations", viol);
        if (hashes) out.set("hashes", hl);
        std::string cov;
        if (a.count("--cover")) spit(a["--cover"], std::string(reinterpret_cast<char*>(g_cover), 65536));
        spit(a["--out"], out.dump());
        return viol.a.empty() ? 0 : 1;
    }
    fprintf(stderr, "usage: server_sim run|replay|shrink|gen\n");
    return 2;
}
