#include "gen.h"

#include <algorithm>
#include <cstdio>

namespace sim {

static bool has(const std::string& s, const char* x) { return s.find(x) != std::string::npos; }
// ---------------------------------------------------------------- sessions
namespace {
struct Gen
{
    Rng         r;
    Plan        p;
    std::string driver;
    std::vector<std::string>           uris;
    std::map<std::string, std::string> docs;
    std::map<std::string, std::set<int64_t>> lensed; // uri asked for lenses
    int         idn     = 0;
    int         id_mode = 0; // 0 ints, 1 strings, 2 mixed incl. large
    int         maxl    = 25;
    int         style_w = 0;
    double      pwait = 0.3, pcut = 0.2;
    int64_t     maxgap = 20000000;
    bool        bytewise = false;
    std::map<std::string, int> w; // operation weights

    Gen(const std::string& prop, uint64_t seed) : r(seed)
    {
        p.prop = prop;
        p.seed = seed;
    }
    void world(bool always_settings = false)
    {
        driver = r.chance(0.35) ? "fanuc_mill" : r.pick(drivers());
        p.w.settings = always_settings || driver != "fanuc_mill" || r.chance(0.5);
        p.w.driver = driver;
        if (p.w.settings) p.w.settings_text = settings_text(r, driver);
        p.w.calc = r.chance(0.85);
        p.w.wall = 1500000000 + static_cast<int64_t>(r.below(400000000));
        p.w.cost = r.pick(std::vector<int64_t>{1000, 20000, 50000, 200000});
        int n = 1 + static_cast<int>(r.below(4));
        static const std::vector<std::string> u{"file:///w/a.nc", "file:///w/b.nc", "file:///w/sub/a.nc", "file:///w/a.nc.bak", "file:///w/%C5%BC.nc", "file:///w/A.nc", "untitled:Untitled-1", "file:///w/a.n"};
        std::vector<std::string> pool = u;
        for (int i = 0; i < n; ++i) { auto k = r.below(pool.size()); uris.push_back(pool[k]); pool.erase(pool.begin() + static_cast<long>(k)); }
        maxl    = r.pick(std::vector<int>{3, 8, 20, 60});
        style_w = static_cast<int>(r.below(4));
        pwait   = r.pick(std::vector<double>{0, 0.2, 0.6, 1.0});
        pcut    = r.pick(std::vector<double>{0, 0.2, 0.8});
        maxgap  = r.pick(std::vector<int64_t>{0, 1000000, 50000000, 700000000});
    }
    void user_macros()
    {
        if (!r.chance(0.3)) return;
        p.w.macro = 1;
        p.w.macro_text = macro_file();
    }
    std::string macro_file()
    {
        J d = J::obj();
        auto& c = conf(driver);
        int n = 1 + static_cast<int>(r.below(5));
        for (int i = 0; i < n; ++i)
        {
            std::string k = !c.macros.empty() && r.chance(0.4) ? r.pick(c.macros) : std::to_string(r.chance(0.5) ? 100 + r.below(8) : 100 + r.below(900));
            if (d.has(k)) continue;
            J t = J::obj();
            t.set("User title " + std::to_string(r.below(1000)), "User text " + std::to_string(r.below(1000)) + (r.chance(0.3) ? r.pick(std::vector<const char*>{" Range: #800-#820", " \nRange: #500-#509 \n", " Range: #100-#107 - #1-#33"}) : ""));
            d.set(k, t);
        }
        J j = J::obj();
        j.set("version", "1.0").set("descriptions", d);
        return j.dump();
    }
    std::string next_id()
    {
        int n = ++idn;
        switch (id_mode == 2 ? static_cast<int>(r.below(4)) : id_mode)
        {
        case 1: return r.chance(0.1) ? "\"" + std::string(r.chance(0.5) ? "\\\"q\\\\" : "a b/:{}") + std::to_string(n) + "\"" : r.chance(0.05) ? "\"" + std::string(300, 'k') + std::to_string(n) + "\"" : "\"r" + std::to_string(n) + "\"";
        case 2: return std::to_string(3000000000ull + static_cast<uint64_t>(n));
        case 3: return "\"" + std::to_string(n) + "-\xc5\xbc\"";
        default: return id_mode == 2 && r.chance(0.3) ? std::to_string(-n) : std::to_string(n);
        }
    }
    int style() { return style_w == 0 ? 0 : style_w == 1 ? 1 : style_w == 2 ? static_cast<int>(r.below(3)) : 3; }
    std::string text(const std::string& u)
    {
        if (longs) // a long session, of short texts that come again
        {
            if (texts.size() < 3 || (texts.size() < 12 && r.chance(0.03))) texts.push_back(utf8(make_program(r, driver, 1 + static_cast<int>(r.below(3)), style())));
            return r.pick(texts);
        }
        std::string t = utf8(text_(u));
        if (!r.chance(plong)) return t;
        // a long document: many lines, or few long ones
        static const std::vector<std::string> pad{"\n", "\r\n", "(filler)\n", "\n(x)\n", " \n"};
        std::string  f = r.chance(0.15) ? "(" + std::string(200 + r.below(70000), 'x') + ")\n" : r.pick(pad);
        const size_t n = f.size() > 100 ? 1 + r.below(3) : r.pick(std::vector<size_t>{300, 1200, 2500, 6000, 12000});
        std::string  all;
        for (size_t i = 0; i < n; ++i) all += f;
        return r.chance(0.5) ? all + t : t + (t.empty() || t.back() == '\n' ? "" : "\n") + all;
    }
    double plong = 0.01, psize = 0;
    int    longs = 0;
    std::vector<std::string> texts;
    static const std::vector<int64_t>& sizes() { static const std::vector<int64_t> v{255, 256, 1000, 1023, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 10000, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131072}; return v; }
    void exact_size(Op& o) // the message becomes exactly that long
    {
        int64_t n = r.pick(sizes()) - static_cast<int64_t>(message_body(o).size()) - 4;
        if (n >= 0) { o.t += "\n(" + std::string(static_cast<size_t>(n), 'x') + ")"; docs[o.u] = o.t; }
    }
    void earlier_log(double p_text)
    {
        if (!r.chance(p_text)) return;
        switch (r.below(4))
        {
        case 0: p.w.log_text = "[2020-01-01 00:00:00] earlier session\n[partly"; break;
        case 1: p.w.log_text = "[2020-01-01 00:00:00] earlier\n"; break;
        case 2: p.w.log_text = std::string(200 + r.below(5000), 'x') + (r.chance(0.5) ? "\n" : ""); break;
        default: p.w.log_text = "[2020-01-01 00:00:00] main: {\"jsonr"; break;
        }
        if (r.chance(0.12)) p.w.log_pad = r.pick(std::vector<int64_t>{3000, 70000, 1100000, 5300000, 10600000, 17000000});
    }
    static std::string utf8(const std::string& s) // an editor only ever sends valid UTF-8
    {
        std::string o;
        for (size_t i = 0; i < s.size();)
        {
            unsigned char c = static_cast<unsigned char>(s[i]);
            size_t        n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE1 && c < 0xED ? 3 : c >= 0xF1 && c < 0xF4 ? 4 : c == 0xF0 ? 4 : 0;
            bool          ok = n > 0 && i + n <= s.size();
            for (size_t k = 1; ok && k < n; ++k) ok = (static_cast<unsigned char>(s[i + k]) & 0xC0) == 0x80;
            if (ok && c == 0xF0 && static_cast<unsigned char>(s[i + 1]) < 0x90) ok = false;
            if (ok) { o.append(s, i, n); i += n; }
            else { if (c >= 0x80) o += "\xc3\xbc"; ++i; }
        }
        return o;
    }
    std::string text_(const std::string& u)
    {
        auto it = docs.find(u);
        if (it != docs.end() && r.chance(0.5)) return mutate_program(r, driver, it->second);
        if (r.chance(0.03)) return "";
        return make_program(r, driver, 1 + static_cast<int>(r.below(static_cast<uint64_t>(maxl))), style());
    }
    void pos(const std::string& u, Op& o)
    {
        auto it = docs.find(u);
        std::vector<std::string> ls{""};
        if (it != docs.end()) for (char c : it->second) { if (c == '\n') ls.emplace_back(); else ls.back() += c; }
        o.l = static_cast<int64_t>(r.below(ls.size() + (r.chance(0.05) ? 5 : 0)));
        std::string l = o.l < static_cast<int64_t>(ls.size()) ? ls[static_cast<size_t>(o.l)] : "";
        std::vector<int64_t> hot;
        for (size_t i = 0; i < l.size(); ++i) if (strchr_("GgMm#", l[i])) { hot.push_back(static_cast<int64_t>(i)); hot.push_back(static_cast<int64_t>(i) + 1); }
        if (hot.empty() && r.chance(0.7)) // look for a line with something to show
            for (size_t k = 0; k < ls.size(); ++k) { auto q = ls[k].find_first_of("GM#"); if (q != std::string::npos && r.chance(0.4)) { o.l = static_cast<int64_t>(k); hot.push_back(static_cast<int64_t>(q)); break; } }
        if (r.chance(0.3)) // rather a variable
        {
            std::vector<std::pair<int64_t, int64_t>> at;
            for (size_t k = 0; k < ls.size(); ++k) for (size_t q = ls[k].find('#'); q != std::string::npos; q = ls[k].find('#', q + 1)) at.emplace_back(static_cast<int64_t>(k), static_cast<int64_t>(q));
            if (!at.empty()) { auto& x = r.pick(at); o.l = x.first; hot.assign(1, x.second + (r.chance(0.5) ? 1 : 0)); }
        }
        o.c = !hot.empty() && r.chance(0.85) ? r.pick(hot) : static_cast<int64_t>(r.below(l.size() + 3));
    }
    static bool strchr_(const char* s, char c) { for (; *s; ++s) if (*s == c) return true; return false; }
    Op timed(Op o)
    {
        o.wait = r.chance(pwait);
        o.gap  = maxgap && r.chance(0.5) ? static_cast<int64_t>(r.below(static_cast<uint64_t>(maxgap))) : 0;
        if (bytewise && r.chance(0.3))
        {
            int64_t d = static_cast<int64_t>(r.below(300000));
            for (int64_t i = 1; i < 400; ++i) o.cuts.push_back({i, d});
        }
        else if (r.chance(pcut))
        {
            int n = 1 + static_cast<int>(r.below(5));
            std::set<int64_t> at;
            for (int i = 0; i < n; ++i) at.insert(static_cast<int64_t>(1 + r.below(r.chance(0.5) ? 40 : r.chance(0.5) ? 200 : 3000)));
            for (auto a : at) o.cuts.push_back({a, static_cast<int64_t>(r.chance(0.3) ? r.below(1500000000) : r.below(3000000))});
        }
        return o;
    }
    void add(Op o) { p.ops.push_back(timed(std::move(o))); }
    Op mk(const char* k, const std::string& u = "") { Op o; o.k = k; o.u = u; return o; }
    void start()
    {
        Op o = mk("init"); o.id = next_id(); add(o);
        if (r.chance(0.9)) add(mk("inited"));
        if (r.chance(0.5)) add(mk("cfg"));
    }
    bool one(const std::string& k)
    {
        std::string u = r.pick(uris);
        bool        open = docs.count(u) > 0;
        Op          o = mk(k.c_str(), u);
        if (k == "open" || k == "change")
        {
            if (!open) o.k = "open"; else if (k == "open") o.k = "change";
            o.t = text(u);
            o.l = static_cast<int64_t>(p.ops.size());
            if (o.k == "change" && r.chance(0.05)) o.s = text(u); // replaced by a later change of the same message
            docs[u] = o.t;
            if (psize > 0 && o.s.empty() && r.chance(psize)) exact_size(o);
        }
        else if (k == "close") { if (!open) return false; docs.erase(u); }
        else if (k == "hover") { if (!open && r.chance(0.8)) return false; o.id = next_id(); pos(u, o); }
        else if (k == "lens") { if (!open && r.chance(0.7)) return false; o.id = next_id(); lensed[u].insert(0); }
        else if (k == "lensres")
        {
            if (!lensed.count(u)) return false;
            o.id = next_id();
            auto it = docs.find(u);
            int64_t n = it == docs.end() ? 5 : 1 + std::count(it->second.begin(), it->second.end(), '\n');
            o.l = static_cast<int64_t>(r.below(static_cast<uint64_t>(n)));
            o.wait = true;
            Op t = timed(o);
            t.wait = true;
            p.ops.push_back(t);
            return true;
        }
        else if (k == "comp") { o.id = next_id(); pos(u, o); }
        else if (k == "res")
        {
            o.id = next_id();
            auto& c = conf(driver);
            switch (r.below(4)) { case 0: o.t = code(r, c.g, "G"); break; case 1: o.t = code(r, c.m, "M"); break; case 2: o.t = c.macros.empty() ? "#1" : "#" + r.pick(c.macros); break; default: o.t = r.pick(std::vector<std::string>{"G9999", "X", "#99999", "M9999", "g1", "hello"}); }
            o.l = static_cast<int64_t>(r.below(300));
        }
        else if (k == "cancel") o.id = std::to_string(1 + r.below(50));
        else if (k == "clock") o.l = r.pick(std::vector<int64_t>{-86400 * 365, -3600, -1, 1, 3600, 86400 * 3650});
        else if (k == "stall") o.l = static_cast<int64_t>(1 + r.below(300000000));
        add(o);
        return true;
    }
    void weights(std::initializer_list<std::pair<const char*, int>> l)
    {
        for (auto& [k, v] : l) { int x = v ? static_cast<int>(r.below(static_cast<uint64_t>(2 * v + 1))) : 0; if (x || v >= 4) w[k] = std::max(x, 1); }
    }
    void body(int n)
    {
        if (longs) { n = longs; longs = -1; }
        one("open");
        std::vector<std::string> bag;
        for (auto& [k, x] : w) for (int i = 0; i < x; ++i) bag.push_back(k);
        if (n > 100 && p.prop != "C11") { pcut = 0.01; bytewise = false; maxgap = r.pick(std::vector<int64_t>{0, 1000000}); }
        for (int i = 0; i < n; ++i) { int tries = 0; while (!one(r.pick(bag)) && ++tries < 20) {} }
    }
};

std::string raw_body(Gen& g)
{
    Rng&        r = g.r;
    std::string id = "\"bad" + std::to_string(r.below(1000)) + "\"";
    std::string u  = "\"bad:x\"";
    static const std::vector<std::string> meth{"textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "textDocument/hover", "textDocument/codeLens", "textDocument/completion", "completionItem/resolve", "codeLens/resolve", "initialize", "workspace/didChangeConfiguration", "$/cancelRequest", "unknown/method", "", "initialized"};
    auto val = [&](int d, auto&& self) -> std::string {
        switch (r.below(d > 0 ? 12 : 9))
        {
        case 0: return "null";
        case 1: return "true";
        case 2: return std::to_string(static_cast<int64_t>(r.next() % 2000) - 1000);
        case 3: return r.pick(std::vector<std::string>{"1.5", "-1", "2147483648", "-2147483649", "4294967296", "18446744073709551615", "1e10", "1e-300", "9223372036854775807", "-9223372036854775808", "0"});
        case 4: return "\"\"";
        case 5: return "\"text\"";
        case 6: return "[]";
        case 7: return "{}";
        case 8: return "\"\\u0000\"";
        case 9: return "[" + self(d - 1, self) + "," + self(d - 1, self) + "]";
        case 10: return "{\"uri\":" + self(d - 1, self) + ",\"line\":" + self(d - 1, self) + "}";
        default: return "{\"text\":" + self(d - 1, self) + "}";
        }
    };
    auto v = [&](int d = 2) { return val(d, val); };
    std::string m = r.pick(meth);
    // a well formed message, then damaged
    std::string td = "{\"uri\":" + u + ",\"text\":\"G1 X1\",\"languageId\":\"nc\",\"version\":1}";
    std::string full = "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"" + m + "\",\"params\":{\"textDocument\":" + td + ",\"contentChanges\":[{\"text\":\"G0\"}],\"position\":{\"line\":0,\"character\":0},\"label\":\"G1\",\"range\":{\"start\":{\"line\":0,\"character\":0},\"end\":{\"line\":0,\"character\":0}},\"data\":1}}";
    switch (r.below(16))
    {
    case 0: return full.substr(0, r.below(full.size()));
    case 1: { std::string s; int n = 1 + static_cast<int>(r.below(60)); for (int i = 0; i < n; ++i) s += static_cast<char>(r.below(256)); return s; }
    case 2: return r.pick(std::vector<std::string>{"null", "[]", "{}", "1", "\"x\"", "true", "[1,2,3]", "[{\"jsonrpc\":\"2.0\",\"id\":\"bad1\",\"method\":\"initialize\"}]", " ", "\n", "\r\n{}", "\t", "{", "}", "[", "\"", "{\"\":1}", "{\"id\":\"bad1\"}", "{\"method\":1}", "{\"method\":null,\"id\":\"bad1\"}", "{\"method\":{}}", "-", "1e999", "nul", "\xef\xbb\xbf{}", "Content-Length: 5\r\n\r\nhello", "C", "Content-Length: "});
    case 3: { int n = r.chance(0.3) ? 200000 : 10 + static_cast<int>(r.below(3000)); return std::string(static_cast<size_t>(n), '['); }
    case 4: { int n = r.chance(0.3) ? 100000 : 10 + static_cast<int>(r.below(3000)); std::string s; for (int i = 0; i < n; ++i) s += "{\"a\":"; return s + "1" + std::string(static_cast<size_t>(n), '}'); }
    case 5: { int n = r.chance(0.3) ? 60000 : 10 + static_cast<int>(r.below(3000)); return "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"" + m + "\",\"params\":" + std::string(static_cast<size_t>(n), '[') + std::string(static_cast<size_t>(n), ']') + "}"; }
    case 6: return "{\"jsonrpc\":\"2.0\",\"id\":" + v(1) + ",\"method\":\"" + m + "\",\"params\":" + v() + "}";
    case 7: return "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"" + m + "\"}";
    case 8: return "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"" + m + "\",\"params\":" + v() + "}";
    case 9: return "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"" + m + "\",\"params\":{\"textDocument\":" + v() + ",\"position\":" + v() + ",\"contentChanges\":" + v() + ",\"label\":" + v() + ",\"range\":" + v() + "}}";
    case 10: return "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"" + m + "\",\"params\":{\"textDocument\":{\"uri\":" + (r.chance(0.5) ? u : v(0)) + ",\"text\":" + v(1) + "},\"position\":{\"line\":" + v(0) + ",\"character\":" + v(0) + "},\"contentChanges\":[" + v(1) + "],\"label\":" + v(0) + ",\"range\":{\"start\":" + v(1) + "}}}";
    case 11: { // positions out of any range in a real document
        std::string du = g.docs.empty() ? u : json_escape(g.docs.begin()->first);
        auto n = [&] { return r.pick(std::vector<std::string>{"-1", "2147483647", "-2147483648", "99999", "2147483648", "1e9", "-5"}); };
        std::string ln = r.chance(0.5) ? "0" : n();
        return "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"textDocument/hover\",\"params\":{\"textDocument\":{\"uri\":" + du + "},\"position\":{\"line\":" + ln + ",\"character\":" + n() + "}}}";
    }
    case 12: return "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"completionItem/resolve\",\"params\":{\"label\":\"" + r.pick(std::vector<std::string>{"#99999999999999999999", "#", "#x", "#-1", "G", "M", "", "#1e5", "# 1", "\\u0000", "#\\u0000"}) + "\"}}";
    case 13: return "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"codeLens/resolve\",\"params\":{\"range\":{\"start\":{\"line\":" + r.pick(std::vector<std::string>{"-1", "99999999", "2147483648", "1.5", "null", "\"1\""}) + ",\"character\":0},\"end\":{\"line\":0,\"character\":0}}}}";
    case 14: { // damage single bytes
        std::string s = full; int n = 1 + static_cast<int>(r.below(4));
        for (int i = 0; i < n; ++i) s[r.below(s.size())] = static_cast<char>(r.chance(0.7) ? 32 + r.below(95) : r.below(256));
        // never turn it into a message for a real document or a real shutdown
        return s; }
    default: { // macro numbers out of range in a document of its own
        std::string t = r.pick(std::vector<std::string>{"#99999999999=1", "G#99999999999", "#1=1\\nM#88888888888888", "#100=1\\n#99999999999999999999"});
        return r.chance(0.5) ? "{\"jsonrpc\":\"2.0\",\"method\":\"textDocument/didOpen\",\"params\":{\"textDocument\":{\"uri\":" + u + ",\"text\":\"#1=1\\n" + t + "\"}}}"
                             : "{\"jsonrpc\":\"2.0\",\"id\":" + id + ",\"method\":\"textDocument/hover\",\"params\":{\"textDocument\":{\"uri\":" + u + "},\"position\":{\"line\":" + std::to_string(r.below(3)) + ",\"character\":" + std::to_string(r.below(4)) + "}}}"; }
    }
}
} // namespace

static const std::vector<std::string>& conf_files()
{
    static const std::vector<std::string> v{"/grammar.json", "/gcode_groups.json", "/mcode_groups.json", "/gcode_desc_en.json", "/mcode_desc_en.json", "/macros_desc_en.json", "/machine.ncsetting"};
    return v;
}

Plan gen_plan(const std::string& prop, uint64_t seed)
{
    if (prop == "C25") // the answers in sessions of all kinds
    {
        Rng  q(seed ^ 0x2545f4914f6cdd1dull);
        Plan p = gen_plan(q.pick(std::vector<std::string>{"C01", "C02", "C03", "C04", "C04", "C04", "C05", "C05", "C12"}), seed);
        if (q.chance(0.7)) { p.w.macro = 0; p.w.macro_text.clear(); }
        p.prop = prop;
        return p;
    }
    Gen  g(prop, seed);
    Rng& r = g.r;
    g.world();
    static const std::set<std::string> endless{"C01", "C02", "C03", "C04", "C07", "C08", "C09", "C10", "C11", "C12"};
    Rng  q(seed ^ 0x5bd1e9955bd1e995ull);
    if (endless.count(prop) && q.chance(0.012)) { g.longs = q.pick(std::vector<int>{130, 140, 270, 520, 1050}); g.p.w.cost = 1000; }
    if (prop == "C01" || prop == "C02" || prop == "C11") g.psize = q.pick(std::vector<double>{0, 0, 0.05});
    if (q.chance(0.12)) g.uris[q.below(g.uris.size())] = q.pick(std::vector<std::string>{"file:///c%3A/w/a.nc", "file:///C:/w/a.nc", "file:///w/with space.nc", "file:///w/a.nc#1", "file:///w/a.nc?x=1", "git:/w/a.nc?%7B%22path%22%3A%22a%22%7D", "file:///w/quote\"back\\slash.nc", "file:///w/\xc5\xbc\xf0\x9f\x98\x80.nc", "vscode-remote://ssh-remote+h/w/a.nc", "x"});
    if (q.chance(0.03)) { std::string l = "file:///w/" + std::string(q.pick(std::vector<size_t>{90, 240, 1010, 4080}), 'd'); g.uris.push_back(l + "/1.nc"); g.uris.push_back(l + "/2.nc"); }
    int n = r.pick(std::vector<int>{4, 10, 20, 35});
    if (prop == "C01")
    {
        g.user_macros();
        g.id_mode  = static_cast<int>(r.below(3));
        g.bytewise = r.chance(0.4);
        if (g.pcut == 0) g.pcut = 0.5;
        g.pwait = r.chance(0.5) ? 0 : 0.2;
        g.start();
        g.weights({{"open", 4}, {"change", 4}, {"close", 1}, {"hover", 3}, {"lens", 2}, {"comp", 1}, {"res", 2}, {"cancel", 1}, {"cfg", 1}, {"stall", 1}});
        g.body(std::min(n, 20));
        double ph = r.pick(std::vector<double>{0, 0.2, 0.7});
        for (auto& o : g.p.ops) if (r.chance(ph)) o.hdr = 1 + static_cast<int>(r.below(3));
        if (r.chance(0.3)) { Op o = g.mk("shutdown"); o.id = g.next_id(); g.add(o); if (r.chance(0.5)) g.add(g.mk("exit")); }
    }
    else if (prop == "C02")
    {
        g.user_macros();
        g.id_mode = static_cast<int>(r.below(3));
        if (r.chance(0.15)) g.one(r.pick(std::vector<std::string>{"res", "comp", "hover"}));
        g.start();
        if (r.chance(0.2)) g.one(r.pick(std::vector<std::string>{"res", "comp"}));
        g.weights({{"open", 4}, {"change", 4}, {"close", 1}, {"hover", 3}, {"lens", 2}, {"lensres", 2}, {"comp", 2}, {"res", 3}, {"cancel", 1}, {"cfg", 1}, {"stall", 1}, {"clock", 1}});
        g.body(n);
        if (r.chance(0.2)) for (auto& o : g.p.ops) if (r.chance(0.3)) o.hdr = 1 + static_cast<int>(r.below(3));
        if (r.chance(0.4)) { Op o = g.mk("shutdown"); o.id = g.next_id(); g.add(o); if (r.chance(0.5)) g.add(g.mk("exit")); }
    }
    else if (prop == "C03")
    {
        while (g.uris.size() < 2) { g.uris.push_back("file:///w/zz" + std::to_string(g.uris.size()) + ".nc"); }
        g.maxl = std::min(g.maxl, 20);
        if (r.chance(0.1))
        {
            // many documents
            int k = r.pick(std::vector<int>{12, 40, 80});
            for (int i = 0; i < k; ++i) g.uris.push_back("file:///w/many/" + std::to_string(i) + ".nc");
            g.maxl = 3;
            n = 2 * k;
        }
        g.start();
        g.weights({{"open", 5}, {"change", 5}, {"close", 3}, {"hover", 5}, {"lens", 4}, {"lensres", 4}, {"comp", 0}, {"res", 1}, {"cfg", 1}});
        if (n > 35) g.w["open"] = std::max(g.w["open"], 20);
        g.body(n > 35 ? n : std::min(n, 20));
    }
    else if (prop == "C04")
    {
        g.style_w = r.chance(0.5) ? 3 : static_cast<int>(r.below(4));
        g.start();
        g.weights({{"open", 5}, {"change", 8}, {"close", 1}, {"hover", 3}, {"lens", 4}, {"lensres", 1}, {"comp", 1}, {"res", 1}, {"cfg", 1}, {"clock", 1}});
        g.body(std::min(n, 16));
    }
    else if (prop == "C05")
    {
        g.pwait = 1.0;
        g.user_macros();
        std::string good = g.p.w.settings_text;
        int         mode = static_cast<int>(r.below(4));
        if (mode != 1)
        {
            int nf = 1 + static_cast<int>(r.below(3));
            for (int i = 0; i < nf; ++i)
            {
                Fault f;
                f.on   = r.pick(std::vector<std::string>{"open", "open", "read", "read", "stat", "realpath"});
                f.path = r.pick(conf_files());
                if (r.chance(0.1)) f.path = ".json";
                f.nth  = static_cast<int64_t>(r.below(3));
                f.cnt  = r.chance(0.5) ? 1 : r.chance(0.5) ? 3 : 1000;
                f.kind = f.on == "read" ? r.pick(std::vector<std::string>{"EIO", "EIO", "short"}) : r.pick(std::vector<std::string>{"ENOENT", "EACCES", "EMFILE", "EIO"});
                f.arg  = 1 + static_cast<int64_t>(r.below(60));
                g.p.faults.push_back(f);
            }
        }
        std::vector<std::string> broken;
        auto breakfile = [&](const std::string& path) {
            broken.push_back(path);
            Op o = g.mk("file", path);
            o.s = r.pick(std::vector<std::string>{"del", "trunc", "err", "drop"});
            if (o.s == "drop") o.l = static_cast<int64_t>(r.below(100000));
            if (o.s == "trunc") o.l = static_cast<int64_t>(r.below(990));
            if (o.s == "err") o.l = r.pick(std::vector<int64_t>{13, 5, 24});
            o.wait = true;
            g.p.ops.push_back(o);
        };
        std::string dir = std::string(ROOT) + "/conf/" + g.driver;
        bool        bad_settings = false;
        if (mode != 0)
        {
            int nb = 1 + static_cast<int>(r.below(3));
            for (int i = 0; i < nb; ++i)
            {
                std::string f = r.pick(conf_files());
                if (f == "/machine.ncsetting") { if (g.p.w.settings) bad_settings = true; continue; }
                if (f == "/mcode_desc_en.json" || f == "/gcode_desc_en.json" || f == "/macros_desc_en.json") breakfile(dir + "/desc" + f); else breakfile(dir + f);
            }
        }
        if (bad_settings) { breakfile(SETTINGS); }
        g.start();
        g.weights({{"open", 5}, {"change", 4}, {"close", 1}, {"hover", 3}, {"lens", 2}, {"comp", 1}, {"res", 2}});
        if (r.chance(0.3)) g.one(r.pick(std::vector<std::string>{"comp", "hover", "res"}));
        g.body(std::min(n, 10));
        // an in-place rewrite may be under way while the server analyses
        if (g.p.w.settings && bad_settings && r.chance(0.5))
        {
            Op o = g.mk("file", SETTINGS);
            o.s = "inplace"; o.t = good; o.l = 1 + static_cast<int64_t>(r.below(6)); o.c = static_cast<int64_t>(1 + r.below(200000000));
            o.wait = true;
            g.p.ops.push_back(o);
            auto pw = g.pwait; g.pwait = 0;
            int k = static_cast<int>(r.below(4));
            for (int i = 0; i < k; ++i) g.one("change");
            g.pwait = pw;
            Op z = g.mk("pause"); z.gap = 2000000000; z.wait = true; g.p.ops.push_back(z);
        }
        else if (g.p.w.settings && bad_settings) { Op o = g.mk("file", SETTINGS); o.s = "set"; o.t = good; o.wait = true; g.p.ops.push_back(o); }
        std::sort(broken.begin(), broken.end());
        broken.erase(std::unique(broken.begin(), broken.end()), broken.end());
        for (auto& b : broken) if (b != SETTINGS) { Op o = g.mk("file", b); o.s = "heal"; o.wait = true; g.p.ops.push_back(o); }
        { Op o = g.mk("disarm"); o.wait = true; g.p.ops.push_back(o); }
        for (auto& u : g.uris)
            if (g.docs.count(u)) { Op o = g.mk("change", u); o.t = g.text(u); g.docs[u] = o.t; g.add(o); }
        for (auto& k : std::vector<std::string>{"comp", "hover", "res", "hover", "res", "lens", "hover"}) if (r.chance(0.6)) g.one(k);
        if (r.chance(0.4)) { g.one("change"); g.one("hover"); g.one("lens"); }
    }
    else if (prop == "C06")
    {
        g.pwait = 1.0;
        g.p.w.macro = 1;
        auto bad = [&]() -> std::string {
            std::string good = g.macro_file();
            switch (r.below(5)) { case 0: return "\x01missing"; case 1: return ""; case 2: return good.substr(0, r.below(good.size())); case 3: return r.pick(std::vector<std::string>{"{", "not json", "{\"version\":\"1.0\"}", "[]", "{\"descriptions\": {\"100\": {\"t\": \"d\"}", "{\n\n\"descriptions\":\n{,}}"}); default: { auto s = good; s[r.below(s.size() / 2)] = '\x02'; return s; } }
        };
        bool first_bad = r.chance(0.75);
        g.p.w.macro_text = first_bad ? bad() : g.macro_file();
        if (r.chance(0.3)) g.p.w.log = 1;
        g.start();
        g.weights({{"open", 5}, {"change", 5}, {"close", 1}, {"hover", 4}, {"lens", 1}, {"comp", 1}, {"res", 4}});
        int phases = first_bad ? 1 + static_cast<int>(r.below(3)) : 0;
        for (int ph = 0; ph <= phases; ++ph)
        {
            if (ph > 0)
            {
                Op o = g.mk("file", MACRO);
                bool last = ph == phases && r.chance(0.8);
                std::string t = last ? g.macro_file() : bad();
                if (t == "\x01missing") o.s = "del"; else if (!last && r.chance(0.2)) { o.s = "err"; o.l = r.pick(std::vector<int64_t>{13, 5}); } else { o.s = "set"; o.t = t; }
                o.wait = true;
                g.p.ops.push_back(o);
                g.one("change");
            }
            g.body(2 + static_cast<int>(r.below(6)));
        }
    }
    else if (prop == "C07")
    {
        g.user_macros();
        g.p.w.log = r.chance(0.8) ? 1 : 2;
        g.earlier_log(0.6);
        if (g.p.w.log == 1 && r.chance(0.6))
        {
            int nf = 1 + static_cast<int>(r.below(3));
            for (int i = 0; i < nf; ++i)
            {
                Fault f;
                f.on = r.chance(0.8) ? "write" : "open"; f.path = "/server.log"; f.nth = static_cast<int64_t>(r.below(f.on == "open" ? 1 : 60));
                f.cnt = r.chance(0.5) ? 1 : r.chance(0.5) ? 5 : 100000;
                f.kind = f.on == "write" ? r.pick(std::vector<std::string>{"ENOSPC", "EIO", "short", "EINTR"}) : r.pick(std::vector<std::string>{"EACCES", "EMFILE", "EIO"});
                f.arg = 1 + static_cast<int64_t>(r.below(80));
                g.p.faults.push_back(f);
            }
        }
        g.start();
        g.weights({{"open", 4}, {"change", 4}, {"close", 1}, {"hover", 4}, {"lens", 3}, {"comp", 1}, {"res", 2}, {"cancel", 1}, {"cfg", 1}, {"clock", 3}, {"stall", 1}});
        g.body(n);
        if (r.chance(0.3)) { Op o = g.mk("shutdown"); o.id = g.next_id(); g.add(o); }
    }
    else if (prop == "C08")
    {
        g.user_macros();
        g.start();
        g.weights({{"open", 4}, {"change", 4}, {"close", 1}, {"hover", 4}, {"lens", 3}, {"comp", 1}, {"res", 2}, {"cancel", 1}, {"cfg", 1}});
        g.body(std::min(n, 20));
        int  k = 1 + static_cast<int>(r.below(6));
        for (int i = 0; i < k; ++i)
        {
            Op o = g.mk("raw");
            for (int t = 0; t < 20; ++t)
            {
                o.t = raw_body(g);
                if (o.t.find("shutdown") == std::string::npos && o.t.find("\"exit\"") == std::string::npos) break;
            }
            o.gap = g.maxgap ? static_cast<int64_t>(r.below(static_cast<uint64_t>(g.maxgap))) : 0;
            auto at = r.below(g.p.ops.size() + 1);
            g.p.ops.insert(g.p.ops.begin() + static_cast<long>(at), o);
        }
        // something well formed after the last one
        g.one("change"); g.one("hover");
    }
    else if (prop == "C09")
    {
        g.user_macros();
        g.style_w = r.chance(0.6) ? 2 : 1;
        g.start();
        g.weights({{"open", 5}, {"change", 6}, {"hover", 6}, {"lens", 2}, {"close", 1}});
        g.body(std::min(n, 20));
    }
    else if (prop == "C10")
    {
        g.start();
        g.weights({{"open", 4}, {"change", 4}, {"close", 1}, {"hover", 3}, {"lens", 2}, {"comp", 1}, {"res", 1}, {"cfg", 1}, {"stall", 1}, {"clock", 1}});
        g.body(std::min(n, 12));
        if (r.chance(0.3)) { Op z = g.mk("pause"); z.gap = static_cast<int64_t>(r.below(30000000000ull)); g.p.ops.push_back(z); }
        switch (r.below(6))
        {
        case 0: { Op o = g.mk("shutdown"); o.id = g.next_id(); g.add(o); if (r.chance(0.5)) g.add(g.mk("exit")); if (r.chance(0.3)) { Op e = g.mk("eof"); g.add(e); } break; }
        case 1: g.add(g.mk("exit")); break;
        case 2: { Op e = g.mk("eof"); e.gap = static_cast<int64_t>(r.below(50000000)); g.p.ops.push_back(e); break; }
        case 3: { // end of input in the middle of a message
            Op o = g.mk("part");
            Op q = g.mk(r.chance(0.5) ? "open" : "hover", g.uris[0]); q.id = r.chance(0.5) ? "901" : "\"p\""; q.t = "G1 X1\nG2\n";
            if (q.k == "open") q.id.clear();
            o.t = message_body(q);
            if (r.chance(0.2)) { Op s = g.mk("shutdown"); s.id = "902"; o.t = message_body(s); }
            size_t full = std::string("Content-Length: \r\n\r\n").size() + std::to_string(o.t.size()).size() + o.t.size();
            o.l = static_cast<int64_t>(r.chance(0.3) ? full - 1 - r.below(4) : r.below(full));
            o.gap = static_cast<int64_t>(r.below(5000000));
            g.p.ops.push_back(o);
            Op e = g.mk("eof"); e.gap = static_cast<int64_t>(r.below(100000000)); g.p.ops.push_back(e);
            break; }
        case 4: { Op o = g.mk("hup"); o.gap = static_cast<int64_t>(r.below(300000000)); auto at = 1 + r.below(g.p.ops.size()); g.p.ops.insert(g.p.ops.begin() + static_cast<long>(at), o); g.p.ops.resize(at + 1); break; }
        default: break; // open stdin, no shutdown: must stay
        }
        if (r.chance(0.4)) // the wall clock is set while the server is about to end
        {
            Op o = g.mk("clock");
            o.l   = r.pick(std::vector<int64_t>{-86400 * 365, -3600, -30, 3600, 86400 * 3650});
            o.gap = static_cast<int64_t>(r.below(1400000000));
            g.p.ops.push_back(o);
        }
        if (r.chance(0.3)) { Op o; if (g.p.ops.size() > 3 && g.p.ops.back().k == "eof") { /* an early end instead */ auto at = 2 + r.below(g.p.ops.size() - 2); Op e = g.mk("eof"); g.p.ops.resize(at); g.p.ops.push_back(e); } }
    }
    else if (prop == "C11")
    {
        g.user_macros();
        if (r.chance(0.3)) g.p.w.log = 1;
        g.maxl = r.pick(std::vector<int>{5, 40, 400});
        g.plong = r.chance(0.5) ? 0.15 : 0;
        if (g.plong > 0) g.p.w.cost = 1000; // thousands of diagnostics are logged one by one
        g.style_w = static_cast<int>(r.below(2));
        g.start();
        g.weights({{"open", 4}, {"change", 4}, {"close", 1}, {"hover", 4}, {"lens", 3}, {"comp", 2}, {"res", 2}, {"cancel", 1}, {"cfg", 1}, {"clock", 3}});
        g.body(g.maxl > 100 ? 5 : n);
        if (r.chance(0.4)) // long silences
            for (int i = 0; i < 3; ++i) { Op z = g.mk("pause"); z.gap = static_cast<int64_t>(r.below(3600000000000ull)); auto at = 1 + r.below(g.p.ops.size()); g.p.ops.insert(g.p.ops.begin() + static_cast<long>(at), z); }
        if (r.chance(0.3)) { Op o = g.mk("shutdown"); o.id = g.next_id(); g.add(o); }
    }
    else if (prop == "C12")
    {
        g.user_macros();
        if (r.chance(0.6))
        {
            g.p.w.log = 1;
            g.earlier_log(0.5);
            if (r.chance(0.6)) { Fault f; f.on = "write"; f.path = "/server.log"; f.nth = static_cast<int64_t>(r.below(80)); f.cnt = 1 + static_cast<int64_t>(r.below(200)); f.kind = r.pick(std::vector<std::string>{"short", "ENOSPC"}); f.arg = 1 + static_cast<int64_t>(r.below(30)); g.p.faults.push_back(f); }
        }
        g.start();
        g.weights({{"open", 5}, {"change", 5}, {"close", 1}, {"hover", 4}, {"lens", 3}, {"res", 1}, {"lensres", 1}});
        g.body(std::min(n, 16));
        int k = 1 + static_cast<int>(r.below(3));
        for (int i = 0; i < k; ++i)
        {
            Op o = g.mk("kill");
            o.gap = r.chance(0.4) ? 0 : static_cast<int64_t>(r.below(80000000));
            auto at = 2 + r.below(g.p.ops.size() - 1);
            g.p.ops.insert(g.p.ops.begin() + static_cast<long>(std::min<size_t>(at, g.p.ops.size())), o);
        }
        g.one("change"); g.one("hover"); g.one("lens"); g.one("hover");
    }
    else if (prop == "C27") // what follows "round" is repeated
    {
        g.user_macros();
        g.maxl  = r.pick(std::vector<int>{2, 5, 12});
        g.pwait = r.chance(0.7) ? 1.0 : 0.3;
        g.pcut  = r.chance(0.8) ? 0 : 0.2;
        g.maxgap = r.chance(0.7) ? 0 : 20000000;
        if (r.chance(0.3)) { g.p.w.log = 1; g.earlier_log(0.2); }
        if (r.chance(0.2)) { Fault f; f.on = "write"; f.path = "/server.log"; f.nth = static_cast<int64_t>(r.below(60)); f.cnt = 100000; f.kind = "ENOSPC"; if (g.p.w.log) g.p.faults.push_back(f); }
        g.start();
        int before = static_cast<int>(r.below(4));
        bool fresh = r.chance(0.5);
        g.weights({{"open", 5}, {"change", 6}, {"close", 2}, {"hover", 4}, {"lens", 4}, {"lensres", 2}, {"comp", 2}, {"res", 3}, {"cancel", 1}, {"cfg", 1}, {"clock", 1}});
        if (before) g.body(before);
        { Op o = g.mk("round"); g.p.ops.push_back(o); }
        size_t at = g.p.ops.size();
        if (fresh && r.chance(0.6)) for (auto& u : g.uris) if (r.chance(0.7)) { std::string n = "file:///w/round@0000@/" + std::to_string(&u - g.uris.data()) + ".nc"; if (g.docs.count(u)) g.docs[n] = g.docs[u]; u = n; }
        for (auto& u : g.uris) if (u.find("@0000@") != std::string::npos) g.docs.erase(u);
        g.body(1 + static_cast<int>(r.below(8)));
        if (fresh && r.chance(0.7))
            for (size_t i = at; i < g.p.ops.size(); ++i) if ((g.p.ops[i].k == "open" || g.p.ops[i].k == "change") && r.chance(0.7)) 
                {
                    int k = 1 + static_cast<int>(r.below(3));
                    while (k--) g.p.ops[i].t += "\n" + r.pick(std::vector<std::string>{"(@0000@)", "G1 X@N@. F100", "G0 X0\nG1 X@N@. F@N@", "#@N@=1", "#100=@N@", "#100=#@N@", "G65 P@N@", "X?@N@", "G@N@", "T@N@ M6", "S@N@ M3", "#100=SIN[@N@", "(@N@", "O@N@", "N@N@ M@N@"});
                }
        if (fresh) for (size_t i = at; i < g.p.ops.size(); ++i) if (g.p.ops[i].k == "res" && r.chance(0.4)) g.p.ops[i].t = r.pick(std::vector<std::string>{"#@N@", "G@N@", "M@N@", "x@N@"});
        if (r.chance(0.25)) { Op o = g.mk("raw"); for (int t = 0; t < 20; ++t) { o.t = raw_body(g); if (o.t.size() < 5000 && o.t.find("shutdown") == std::string::npos && o.t.find("\"exit\"") == std::string::npos && o.t.find("didOpen") == std::string::npos) break; } g.p.ops.insert(g.p.ops.begin() + static_cast<long>(at + r.below(g.p.ops.size() - at + 1)), o); }
        if (r.chance(0.5)) // files that break and are repaired in every round
        {
            int         k = 1 + static_cast<int>(r.below(2));
            std::string dir = std::string(ROOT) + "/conf/" + g.driver;
            for (int i = 0; i < k; ++i)
            {
                std::string f = r.pick(conf_files());
                f = f == "/machine.ncsetting" ? SETTINGS : f.find("desc") != std::string::npos ? dir + "/desc" + f : dir + f;
                if (g.p.w.macro && r.chance(0.4)) f = MACRO;
                if (f == SETTINGS && !g.p.w.settings) continue;
                Op o = g.mk("file", f);
                o.s = r.pick(std::vector<std::string>{"del", "trunc", "err", "drop", "drop"});
                if (o.s == "drop") o.l = static_cast<int64_t>(r.below(100000));
                if (o.s == "trunc") o.l = static_cast<int64_t>(r.below(990));
                if (o.s == "err") o.l = r.pick(std::vector<int64_t>{13, 5, 24});
                o.wait = true;
                auto x = at + r.below(g.p.ops.size() - at + 1);
                g.p.ops.insert(g.p.ops.begin() + static_cast<long>(x), o);
                Op h = g.mk("file", f);
                if (f == SETTINGS) { h.s = "set"; h.t = g.p.w.settings_text; } else if (f == MACRO) { h.s = "set"; h.t = g.p.w.macro_text; } else h.s = "heal";
                h.wait = true;
                x = x + 1 + r.below(g.p.ops.size() - x);
                g.p.ops.insert(g.p.ops.begin() + static_cast<long>(x), h);
            }
        }
    }
    else if (prop == "C13")
    {
        static const std::vector<std::string> from{"C02", "C05", "C06", "C07", "C08", "C10", "C12"};
        std::string src = r.pick(from);
        Plan q = gen_plan(src, r.next());
        q.prop = "C13";
        q.seed = seed;
        if (r.chance(0.4) && q.w.log == 0) { q.w.log = 1; g.p.w.log_text.clear(); g.earlier_log(0.7); q.w.log_text = g.p.w.log_text; q.w.log_pad = g.p.w.log_pad; }
        return q;
    }
    return g.p;
}

} // namespace sim
