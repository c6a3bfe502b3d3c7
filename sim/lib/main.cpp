// run: seeded search over call histories. replay: one plan file. shrink: minimise a failing plan.
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>

#include "../common/programs.h"
#include "plan.h"

using namespace sim;

static double wall() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary); o << d; }

static bool still(const LPlan& p, const std::string& cls) { LPlan q = p; return judge(q).cls == cls; }

static LPlan shrink(LPlan p, const std::string& cls, double budget)
{
    double end = wall() + budget;
    auto   left = [&] { return wall() < end; };
    for (int pass = 0; pass < 3 && left(); ++pass)
    {
        bool any = false;
        // fewer switches, in runs
        for (size_t n = std::max<size_t>(1, p.sw.size() / 2); n >= 1 && left() && !p.sw.empty(); n /= 2)
        {
            for (size_t i = 0; i + n <= p.sw.size() && left();)
            {
                LPlan q = p;
                q.sw.erase(q.sw.begin() + static_cast<long>(i), q.sw.begin() + static_cast<long>(i + n));
                if (still(q, cls)) { p = q; any = true; } else i += n;
            }
            if (n == 1) break;
        }
        // fewer calls; switches move with their call
        for (size_t t = 0; t < p.threads.size() && left(); ++t)
            for (size_t n = std::max<size_t>(1, p.threads[t].size() / 2); n >= 1 && left() && !p.threads[t].empty(); n /= 2)
            {
                for (size_t i = 0; i + n <= p.threads[t].size() && left();)
                {
                    LPlan q = p;
                    q.threads[t].erase(q.threads[t].begin() + static_cast<long>(i), q.threads[t].begin() + static_cast<long>(i + n));
                    if (q.prop == "C14")
                    {
                        std::vector<rt::Switch> s;
                        for (auto x : q.sw)
                        {
                            if (x.thread == static_cast<int>(t) && x.op >= static_cast<int>(i)) { if (x.op < static_cast<int>(i + n)) continue; x.op -= static_cast<int>(n); }
                            s.push_back(x);
                        }
                        q.sw = s;
                    }
                    if (still(q, cls)) { p = q; any = true; } else i += n;
                }
                if (n == 1) break;
            }
        for (auto& t : p.threads)
            for (auto& o : t)
            {
                if (!left()) break;
                if (o.cnt) { LOp old = o; o.cnt = 0; if (still(p, cls)) any = true; else { o = old; if (o.cnt > 1) { o.cnt = 1; if (!still(p, cls)) o = old; } } }
                if (o.hold) { o.hold = 0; if (!still(p, cls)) o.hold = 1; }
                if (o.m) { o.m = 0; if (!still(p, cls)) o.m = 1; }
            }
        if (!any) break;
    }
    if (p.warm && left()) { LPlan q = p; q.warm = 0; if (still(q, cls)) p = q; }
    // shorter texts
    for (size_t t = 0; t < p.threads.size(); ++t)
        for (size_t i = 0; i < p.threads[t].size() && left(); ++i)
        {
            if (p.threads[t][i].k == "setnc") continue;
            std::string x = p.threads[t][i].t;
            for (size_t n = std::max<size_t>(1, x.size() / 2); left(); n /= 2)
            {
                for (size_t k = 0; k + n <= x.size() && left();) { std::string m = x; m.erase(k, n); LPlan q = p; q.threads[t][i].t = m; if (still(q, cls)) { p = q; x = m; } else k += n; }
                if (n <= 1) break;
            }
        }
    return p;
}

int main(int argc, char** argv)
{
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR"))
    {
        personality(ADDR_NO_RANDOMIZE);
        setenv("SIM_ASLR", "tried", 1);
        execv("/proc/self/exe", argv);
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    std::map<std::string, std::string> a;
    std::string                        mode = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    load_base(a.count("--repo") ? a["--repo"] : "/repo");
    if (drivers().empty()) { fprintf(stderr, "no configuration found\n"); return 2; }
    rt::init();

    if (mode == "gen")
    {
        LPlan p = gen_plan(a["--prop"], strtoull(a["--seed"].c_str(), nullptr, 10));
        std::cout << p.to_json() << "\n";
        return 0;
    }
    if (mode == "replay" || mode == "shrink")
    {
        LPlan    p = LPlan::from_json(slurp(a["--plan"]));
        LVerdict v = judge(p);
        if (mode == "shrink" && !v.cls.empty())
        {
            p = shrink(p, v.cls, num("--budget", 40));
            v = judge(p);
            spit(a["--out"], p.to_json());
        }
        J    j = J::obj();
        char hx[32];
        snprintf(hx, sizeof hx, "%016llx", static_cast<unsigned long long>(v.hash));
        j.set("hash", std::string(hx)).set("cls", v.cls).set("detail", v.detail).set("ops", static_cast<int>(p.nops())).set("faults", static_cast<int>(p.nfaults()));
        std::cout << j.dump() << "\n";
        return v.cls.empty() ? 0 : 1;
    }
    if (mode == "run")
    {
        std::string prop = a["--prop"];
        uint64_t    base = strtoull(a["--seed"].c_str(), nullptr, 10);
        int64_t     start = static_cast<int64_t>(num("--start", 0)), step = static_cast<int64_t>(num("--step", 1)), count = static_cast<int64_t>(num("--count", 1e9));
        double      t0 = wall(), until = t0 + num("--time", 30), hard = t0 + num("--max-time", num("--time", 30));
        int64_t     least = static_cast<int64_t>(num("--min", 0));
        int         maxv = static_cast<int>(num("--max-violations", 1));
        bool        hashes = a.count("--hashes");
        std::set<uint64_t> shapes, nontriv;
        std::map<std::string, int64_t> probes, fired, ops, ends;
        int64_t  n = 0, nt = 0, refs = 0;
        uint64_t steps = 0;
        J        samples = J::arr(), viol = J::arr(), hl = J::arr();
        std::string cover(65536, '\0');
        for (int64_t i = start; n < count && wall() < (n < least ? hard : until); i += step)
        {
            uint64_t seed = fnv(prop + ":" + std::to_string(base) + ":" + std::to_string(i));
            LPlan    p = gen_plan(prop, seed);
            LVerdict v = judge(p);
            ++n;
            steps += v.steps;
            refs += static_cast<int64_t>(v.refs);
            shapes.insert(v.shape);
            if (v.nontrivial) { ++nt; nontriv.insert(v.shape); }
            for (auto& [k, c] : v.probes) probes[k] += c;
            for (auto& [k, c] : v.faults) fired[k] += c;
            for (auto& [k, c] : v.ops) ops[k] += c;
            ends[v.cls.empty() ? "as expected" : v.cls]++;
            if (hashes) { char hx[40]; snprintf(hx, sizeof hx, "%016llx", static_cast<unsigned long long>(v.hash)); hl.push(std::to_string(i) + " " + hx + " " + v.cls); }
            if (v.nontrivial && samples.a.size() < 2 && p.to_json().size() < 6000) { J s; J::parse(p.to_json(), s); samples.push(s); }
            if (!v.cls.empty())
            {
                J s = J::obj();
                s.set("index", i).set("cls", v.cls).set("detail", v.detail).set("plan", p.to_json());
                viol.push(s);
                if (static_cast<int>(viol.a.size()) >= maxv) break;
            }
        }
        int64_t covered = 0;
        for (size_t k = 0; k < 65536; ++k) { cover[k] = static_cast<char>(rt::g_sh->cover[k]); covered += rt::g_sh->cover[k] != 0; }
        J out = J::obj(), jp = J::obj(), jf = J::obj(), jo = J::obj(), je = J::obj(), js = J::arr(), jn = J::arr();
        for (auto& [k, c] : probes) jp.set(k, c);
        for (auto& [k, c] : fired) jf.set(k, c);
        for (auto& [k, c] : ops) jo.set(k, c);
        for (auto& [k, c] : ends) je.set(k, c);
        for (auto x : shapes) js.push(std::to_string(x));
        for (auto x : nontriv) jn.push(std::to_string(x));
        out.set("runs", n).set("nontrivial", nt).set("sim_ns", static_cast<uint64_t>(0)).set("steps", steps).set("covered", covered).set("ref_runs", refs).set("probes", jp).set("faults", jf).set("ops", jo).set("ends", je).set("shapes", js).set("nshapes", jn).set("samples", samples).set("violations", viol);
        if (hashes) out.set("hashes", hl);
        if (a.count("--cover")) spit(a["--cover"], cover);
        spit(a["--out"], out.dump());
        return viol.a.empty() ? 0 : 1;
    }
    fprintf(stderr, "usage: lib_sim run|replay|shrink|gen\n");
    return 2;
}
