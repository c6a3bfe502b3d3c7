// What each property demands of a recorded history.
#include "oracle.h"

#include <algorithm>
#include <cstring>
#include <list>
#include <unordered_map>

#include "gen.h"

namespace sim {

uint64_t g_ref_runs = 0;

namespace {
// both values around their first difference
static std::string gap(const std::string& got, const std::string& word, const std::string& want)
{
    size_t k = 0;
    while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
    size_t a = k > 80 ? k - 80 : 0;
    return ": got " + std::string(a ? "..." : "") + got.substr(a, 260) + " " + word + " " + std::string(a ? "..." : "") + want.substr(a, 260);
}

std::string control(const Plan& p) { return p.w.settings ? p.w.driver : "fanuc_mill"; }

struct Frame { std::string body; J j; uint64_t t; size_t inc; };

// strict reading of everything a server process wrote
bool frames(const Inc& inc, size_t incno, std::vector<Frame>& out, std::string& err, bool may_be_cut)
{
    size_t p = 0;
    auto   time_of = [&](size_t end) { for (auto& [n, t] : inc.out_t) if (n >= end) return t; return uint64_t(0); };
    while (p < inc.out.size())
    {
        auto e = inc.out.find("\r\n\r\n", p);
        if (e == std::string::npos)
        {
            if (may_be_cut) return true;
            err = "output is not framed: " + inc.out.substr(p, 60);
            return false;
        }
        std::string len;
        size_t      q = p;
        while (q < e)
        {
            auto        l = inc.out.find("\r\n", q);
            std::string h = inc.out.substr(q, l - q);
            if (h.compare(0, 16, "Content-Length: ") == 0 && len.empty()) len = h.substr(16);
            else if (h.compare(0, 14, "Content-Type: ") != 0) { err = "bad header line: " + h.substr(0, 60); return false; }
            q = l + 2;
        }
        if (len.empty() || len.find_first_not_of("0123456789") != std::string::npos || len.size() > 9) { err = "no Content-Length in header: " + inc.out.substr(p, e - p); return false; }
        size_t n = std::stoul(len);
        if (e + 4 + n > inc.out.size())
        {
            if (may_be_cut) return true;
            err = "body shorter than Content-Length";
            return false;
        }
        Frame f;
        f.body = inc.out.substr(e + 4, n);
        f.t    = time_of(e + 4 + n);
        f.inc  = incno;
        if (!J::parse(f.body, f.j) || f.j.t != J::Obj || f.j.at("jsonrpc").str() != "2.0") { err = "body is not one JSON-RPC 2.0 object: " + f.body.substr(0, 80); return false; }
        bool resp = f.j.has("result") || f.j.has("error"), note = f.j.has("method");
        if (resp == note || (resp && !f.j.has("id")) || (f.j.has("result") && f.j.has("error"))) { err = "body is neither response nor notification: " + f.body.substr(0, 80); return false; }
        out.push_back(std::move(f));
        p = e + 4 + n;
    }
    return true;
}

struct Sent { int op; bool expects; std::string body; std::string kind, uri, id; uint64_t t, avail; size_t inc; bool complete; };

std::string body_of(const std::string& m) { auto e = m.find("\r\n\r\n"); return e == std::string::npos ? "" : m.substr(e + 4); }

std::vector<Sent> sent(const Plan& p, const History& h)
{
    std::vector<Sent> v;
    for (size_t i = 0; i < h.inc.size(); ++i)
    {
        size_t first = v.size();
        for (auto& e : h.inc[i].ev)
        {
            if (e.kind == 'M')
            {
                Sent s{e.a, e.b == 1, body_of(e.d), "", "", "", e.t, 0, i, false};
                if (e.a >= 0)
                {
                    auto& o = p.ops[static_cast<size_t>(e.a)];
                    s.kind = o.k; s.uri = o.u; s.id = o.id;
                }
                else
                {
                    J j;
                    J::parse(s.body, j);
                    auto m = j.at("method").str();
                    s.kind = m == "initialize" ? "init" : m == "initialized" ? "inited" : "open";
                    if (j.has("id")) s.id = j.at("id").dump();
                    s.uri = j.at("params").at("textDocument").at("uri").str();
                }
                v.push_back(s);
            }
            else if (e.kind == 'm')
                for (size_t k = v.size(); k-- > first;) if (v[k].op == e.a) { v[k].avail = e.t; v[k].complete = true; break; }
        }
    }
    return v;
}

std::string what(const Sent& s) { return s.kind + (s.id.empty() ? "" : " id " + s.id) + (s.uri.empty() ? "" : " " + s.uri); }

// does this output answer this message?
bool answers(const Sent& s, const Frame& f, std::string& why)
{
    if (s.kind == "open" || s.kind == "change")
    {
        if (f.j.at("method").str() != "textDocument/publishDiagnostics") { why = "expected diagnostics for " + s.uri + ", got " + f.body.substr(0, 100); return false; }
        if (f.j.at("params").at("uri").str() != s.uri) { why = "diagnostics for " + f.j.at("params").at("uri").str() + " instead of " + s.uri; return false; }
        if (f.j.at("params").at("diagnostics").t != J::Arr) { why = "diagnostics missing"; return false; }
        return true;
    }
    J id;
    J::parse(s.id, id);
    if (!f.j.has("id") || !(f.j.at("id") == id)) { why = "expected the response to " + what(s) + ", got " + f.body.substr(0, 100); return false; }
    if (!f.j.has("result")) { why = what(s) + " answered without result: " + f.body.substr(0, 100); return false; }
    return true;
}

const char* end_name(const End& e)
{
    static std::string s;
    switch (e.how)
    {
    case 'X': s = "exited with code " + std::to_string(e.code); break;
    case 'K': s = "was killed"; break;
    case 'S': s = "got stuck"; break;
    case 'I': s = "idle"; break;
    default: s = "died of signal " + std::to_string(e.code);
    }
    return s.c_str();
}
std::string end_class(const End& e) { return e.how == 'G' ? "died" : e.how == 'S' ? "stuck" : e.how == 'X' ? "exited" : "end"; }

// The whole session: framing, survival, one answer per message in order. Pairs every expecting message with its frame.
struct Session
{
    std::vector<Sent>                                v;
    std::vector<std::pair<const Sent*, const Frame*>> pairs;
    std::vector<std::vector<Frame>>                  fr;
    std::vector<Frame>                               extra;
    Verdict                                          bad;
};
bool shutdown_before(const Plan& p, const std::vector<Sent>& v, const Sent* s, bool incl)
{
    (void)p;
    for (auto& x : v)
    {
        if (x.inc != s->inc) continue;
        if (&x == s) return incl && (x.kind == "shutdown" || x.kind == "exit");
        if ((x.kind == "shutdown" || x.kind == "exit") && x.complete) return true;
    }
    return false;
}
bool session(const Plan& p, const History& h, Session& s, bool with_raw = false)
{
    s.v = sent(p, h);
    s.fr.resize(h.inc.size());
    for (size_t i = 0; i < h.inc.size(); ++i)
    {
        auto&       inc = h.inc[i];
        bool        cut = inc.end.how == 'K' || inc.end.how == 'G';
        std::string err;
        bool        ended_ok = inc.end.how == 'I' || inc.end.how == 'K';
        bool        asked = false;
        for (auto& x : s.v) if (x.inc == i && (x.kind == "shutdown" || x.kind == "exit") && x.complete) asked = true;
        for (auto& e : inc.ev) if (e.kind == 'E') asked = true;
        if (inc.end.how == 'X' && inc.end.code == 0 && asked) ended_ok = true;
        if (!ended_ok)
        {
            std::string last = "start";
            for (auto& x : s.v) if (x.inc == i) last = what(x);
            std::string why;
            for (auto& e : inc.ev) if (e.kind == 'S') why = " (" + e.d + ")";
            s.bad.cls    = end_class(inc.end);
            s.bad.detail = std::string("the server ") + end_name(inc.end) + why + "; last message sent: " + last;
            return false;
        }
        if (!frames(inc, i, s.fr[i], err, cut)) { s.bad.cls = "framing"; s.bad.detail = err; return false; }
        size_t k = 0;
        for (auto& x : s.v)
        {
            if (x.inc != i || !x.expects) continue;
            if (shutdown_before(p, s.v, &x, false)) continue;
            for (; with_raw && k < s.fr[i].size(); ++k) // answers to damaged messages carry their own ids and documents
            {
                auto& f = s.fr[i][k];
                bool  raw = f.j.has("id") ? (f.j.at("id").t != J::Num && f.j.at("id").str().compare(0, 3, "bad") == 0) || f.j.at("id").t == J::Null || f.j.has("error") : f.j.at("params").at("uri").str().compare(0, 4, "bad:") == 0;
                std::string w;
                if (!raw && answers(x, f, w)) break;
                if (!raw) { bool later = false; for (size_t q = k + 1; q < s.fr[i].size() && !later; ++q) later = answers(x, s.fr[i][q], w); if (!later) break; }
                s.extra.push_back(f);
            }
            if (k >= s.fr[i].size())
            {
                if (inc.end.how == 'K') break;
                s.bad.cls    = "unanswered";
                s.bad.detail = what(x) + " was never answered";
                return false;
            }
            std::string why;
            if (!answers(x, s.fr[i][k], why)) { s.bad.cls = "mismatch"; s.bad.detail = why; return false; }
            s.pairs.emplace_back(&x, &s.fr[i][k]);
            ++k;
        }
        for (; k < s.fr[i].size(); ++k)
        {
            if (with_raw) { s.extra.push_back(s.fr[i][k]); continue; }
            // after a shutdown the server may still answer what was already sent
            bool after = false;
            std::string w;
            for (auto& x : s.v) if (x.inc == i && x.expects && shutdown_before(p, s.v, &x, false) && answers(x, s.fr[i][k], w)) after = true;
            if (after) continue;
            s.bad.cls    = "extra";
            s.bad.detail = "output nobody asked for: " + s.fr[i][k].body.substr(0, 120);
            return false;
        }
    }
    return true;
}

// ---------------------------------------------------------------- reference: a freshly started server, one program
struct Query { std::string k; int64_t l, c; std::string t; bool operator<(const Query& o) const { return std::tie(k, l, c, t) < std::tie(o.k, o.l, o.c, o.t); } };
constexpr const char* REFURI = "file:///ref/doc.nc";

struct Ref { std::string diags; std::map<Query, std::string> a; std::string lens; std::string err; };

std::string norm_result(const J& j) { return j.at("result").dump(); }

World fresh_world(const World& w)
{
    World f = w;
    f.log = 0; f.log_text.clear(); f.log_pad = 0;
    f.wall = 1600000000;
    f.cost = 1000;
    return f;
}

Ref reference(const World& w, const std::string& text, std::vector<Query> qs, bool single, uint64_t salt)
{
    Ref ref;
    std::sort(qs.begin(), qs.end());
    qs.erase(std::unique(qs.begin(), qs.end(), [](auto& a, auto& b) { return !(a < b) && !(b < a); }), qs.end());
    std::vector<std::vector<Query>> groups;
    if (single) { for (auto& q : qs) groups.push_back({q}); if (qs.empty()) groups.emplace_back(); }
    else
    {
        Rng r(salt ^ fnv(text));
        for (size_t i = qs.size(); i > 1; --i) std::swap(qs[i - 1], qs[r.below(i)]);
        groups.push_back(qs);
    }
    for (auto& g : groups)
    {
        Plan p;
        p.prop = "ref";
        p.w    = fresh_world(w);
        auto add = [&](Op o) { o.wait = true; p.ops.push_back(std::move(o)); };
        Op   o;
        o.k = "init"; o.id = "1"; add(o);
        o = Op(); o.k = "inited"; add(o);
        o = Op(); o.k = "open"; o.u = REFURI; o.t = text; add(o);
        int id = 100;
        for (auto& q : g)
        {
            o = Op();
            o.k = q.k; o.u = REFURI; o.l = q.l; o.c = q.c; o.t = q.t; o.id = std::to_string(id++);
            add(o);
        }
        ++g_ref_runs;
        History h = run(p);
        Session s;
        if (!session(p, h, s)) { ref.err = s.bad.detail; return ref; }
        for (auto& [m, f] : s.pairs)
        {
            if (m->kind == "open") { auto d = f->j.at("params").at("diagnostics").dump(); if (!ref.diags.empty() && ref.diags != d) { ref.err = "a freshly started server is not deterministic"; return ref; } ref.diags = d; }
            else if (m->kind != "init")
            {
                auto& op = p.ops[static_cast<size_t>(m->op)];
                ref.a[{op.k, op.l, op.c, op.t}] = norm_result(f->j);
                if (op.k == "lens") ref.lens = norm_result(f->j);
            }
        }
    }
    return ref;
}

// "a lens without the data a server may attach for itself"
std::string lens_norm(const std::string& s)
{
    J j;
    if (!J::parse(s, j)) return s;
    auto strip = [](J& x) { for (size_t i = 0; i < x.o.size(); ++i) if (x.o[i].first == "data") { x.o.erase(x.o.begin() + static_cast<long>(i)); break; } };
    if (j.t == J::Arr) for (auto& x : j.a) strip(x);
    else if (j.t == J::Obj) strip(j);
    return j.dump();
}
std::string lens_at(const std::string& lens, int64_t line)
{
    J j;
    if (J::parse(lens, j))
        for (auto& x : j.a) if (x.at("range").at("start").at("line").i() == line) return x.at("range").at("start").dump() + x.at("command").at("title").dump();
    return "null";
}

// Compare every answer of the session with a fresh server's. `text_of` is tracked from the plan.
// from_op: only answers to operations with index >= from_op are compared; macro_free: leave out macro-file diagnostics.
struct CmpOpt { int from_op = 0; bool skip_res = true; };
bool compare_fresh(const Plan& p, const History& h, const Session& s, const World& w, Verdict& v, const CmpOpt& opt)
{
    (void)h;
    // text each message refers to
    std::map<const Sent*, const std::string*> text;
    std::map<std::string, const std::string*> cur;
    static std::list<std::string> keep;
    keep.clear();
    std::map<std::string, std::vector<Query>> need; // text -> queries
    size_t inc = 0;
    (void)inc;
    for (auto& x : s.v)
    {
        if (x.kind == "open" || x.kind == "change")
        {
            J j;
            J::parse(x.body, j);
            auto& pr = j.at("params");
            keep.push_back(pr.at("textDocument").has("text") ? pr.at("textDocument").at("text").str() : (pr.at("contentChanges").a.empty() ? "" : pr.at("contentChanges").a.back().at("text").str()));
            cur[x.uri] = &keep.back();
        }
        else if (x.kind == "close") cur.erase(x.uri);
        auto it = cur.find(x.uri);
        text[&x] = it == cur.end() ? nullptr : it->second;
    }
    auto query = [&](const Sent& x) -> Query {
        auto& o = p.ops[static_cast<size_t>(x.op)];
        if (x.kind == "hover") return {"hover", o.l, o.c, ""};
        if (x.kind == "res") return {"res", o.l, 0, o.t};
        return {"lens", 0, 0, ""};
    };
    for (auto& [m, f] : s.pairs)
    {
        if (m->op >= 0 && m->op < opt.from_op) continue;
        auto t = text[m];
        if (!t) continue;
        if (m->kind == "open" || m->kind == "change") need[*t];
        else if (m->kind == "hover" || m->kind == "lens" || m->kind == "lensres") need[*t].push_back(query(*m));
    }
    if (!opt.skip_res && !need.empty())
        for (auto& [m, f] : s.pairs) if (m->kind == "res" && m->op >= opt.from_op) need.begin()->second.push_back(query(*m));
    Rng  r(p.seed ^ 0x5555);
    bool single = r.chance(0.15);
    std::map<std::string, Ref> refs;
    for (auto& [t, qs] : need)
    {
        refs[t] = reference(w, t, qs, single, p.seed);
        if (!refs[t].err.empty()) { v.cls = "fresh"; v.detail = "a freshly started server given only this program: " + refs[t].err; return false; }
    }
    int64_t compared = 0;
    for (auto& [m, f] : s.pairs)
    {
        if (m->op >= 0 && m->op < opt.from_op) continue;
        auto t = text[m];
        if (m->kind == "open" || m->kind == "change")
        {
            auto got = f->j.at("params").at("diagnostics").dump();
            if (got != refs[*t].diags) { v.cls = "diagnostics"; v.detail = what(*m) + gap(got, "but a fresh server", refs[*t].diags); return false; }
            if (got != "[]") v.probes["diagnostics_nonempty"]++;
            ++compared;
        }
        else if (m->kind == "hover" || m->kind == "lens")
        {
            auto got  = norm_result(f->j);
            auto want = t ? refs[*t].a[query(*m)] : std::string("null");
            if (m->kind == "lens") { got = lens_norm(got); want = lens_norm(want); }
            // what a document that is not open shows must be nothing
            if (!t && m->kind == "hover" && got == "{}") got = "null";
            if (t && m->kind == "hover" && want == "{}" ) want = "null", got = got == "{}" ? "null" : got;
            if (got != want) { v.cls = m->kind; v.detail = what(*m) + gap(got, "expected", want); return false; }
            if (got != "null") v.probes[m->kind + "_nonnull"]++;
            ++compared;
        }
        else if (m->kind == "lensres")
        {
            J bj;
            J::parse(m->body, bj);
            const int64_t line = bj.at("params").at("range").at("start").at("line").i();
            auto  r2 = f->j.at("result");
            auto  got = r2.t == J::Obj && r2.has("command") ? r2.at("range").at("start").dump() + r2.at("command").at("title").dump() : "null";
            auto  want = t ? lens_at(refs[*t].lens.empty() ? refs[*t].a[{"lens", 0, 0, ""}] : refs[*t].lens, line) : "null";
            if (got != want) { v.cls = "lensres"; v.detail = what(*m) + " line " + std::to_string(line) + gap(got, "expected", want); return false; }
            v.probes["lens_resolved"]++;
            ++compared;
        }
        else if (m->kind == "res" && !opt.skip_res && !need.empty())
        {
            auto got = norm_result(f->j), want = refs.at(need.begin()->first).a[query(*m)];
            if (got != want) { v.cls = "resolve"; v.detail = what(*m) + gap(got, "expected", want); return false; }
            if (f->j.at("result").at("detail").t == J::Str) v.probes["resolve_described"]++;
            ++compared;
        }
    }
    v.probes["answers_compared"] += compared;
    if (compared) v.nontrivial = true;
    return true;
}

bool is_macro_problem(const J& d)
{
    std::string m = d.at("message").str();
    std::transform(m.begin(), m.end(), m.begin(), ::tolower);
    return m.find("macro desc") != std::string::npos || m.find("macros desc") != std::string::npos || m.find("user macro") != std::string::npos;
}
J without_macro_problem(const J& diags, int& n)
{
    J r = J::arr();
    n = 0;
    for (auto& d : diags.a) if (is_macro_problem(d)) ++n; else r.push(d);
    return r;
}
bool is_config_error(const J& d)
{
    std::string m = d.at("message").str();
    std::transform(m.begin(), m.end(), m.begin(), ::tolower);
    for (auto k : {"read", "load", "open", "missing", "config", ".ncsetting"}) if (m.find(k) != std::string::npos) return true;
    return false;
}

// ---------------------------------------------------------------- anchor: the parser library itself
struct Found // what the library finds in a text
{
    std::string                                       err;
    std::vector<std::pair<int64_t, std::string>>      bad;  // rejected lines and messages
    std::map<int64_t, std::string>                    src;
    std::vector<std::pair<int64_t, std::string>>      lens;
    std::map<std::pair<int64_t, int64_t>, std::string> macros; // (number, line) -> value
};
Found library(const World& w, const std::string& text)
{
    Plan p;
    p.prop = "libref";
    p.w = w;
    p.w.log_text.clear(); p.w.log_pad = 0; p.w.macro_text.clear();
    Op o;
    o.k = "text"; o.t = text;
    p.ops.push_back(o);
    ++g_ref_runs;
    History h = run(p);
    Found   r;
    if (h.inc.empty() || h.inc[0].end.how != 'X' || h.inc[0].end.code || h.inc[0].ev.empty()) { r.err = std::string("the parser library given only this program: ") + (h.inc.empty() ? "" : end_name(h.inc[0].end)); return r; }
    J j;
    J::parse(h.inc[0].ev[0].d, j);
    for (auto& e : j.at("lines").a) { r.bad.emplace_back(e.a[0].i(), e.a[1].str()); r.src[e.a[0].i()] = e.a[2].str(); }
    for (auto& e : j.at("lens").a) r.lens.emplace_back(e.a[0].i(), e.a[1].str());
    for (auto& e : j.at("macros").a)
    {
        std::string v = e.a[2].str();
        if (v.find('.') != std::string::npos) { while (v.back() == '0') v.pop_back(); if (v.back() == '.') v.pop_back(); }
        r.macros[{e.a[0].i(), e.a[1].i()}] = v;
    }
    return r;
}
bool plain(const std::string& t) { for (unsigned char c : t) if (c < 32 ? c != '\n' && c != '\r' && c != '\t' : c > 126) return false; return true; }

// the library's message without the position it begins with
void split_message(std::string m, int64_t& column, std::string& text)
{
    column = 0;
    auto number = [&](int64_t& n) {
        size_t i = 0;
        while (i < m.size() && isdigit(static_cast<unsigned char>(m[i]))) ++i;
        size_t e = i;
        while (e < m.size() && m[e] == ' ') ++e;
        if (!i || e >= m.size() || m[e] != ':') return false;
        n = atoll(m.substr(0, i).c_str());
        m.erase(0, e + 1);
        return true;
    };
    int64_t l = 0;
    if (number(l)) { while (!m.empty() && m[0] == ' ') m.erase(0, 1); number(column); }
    while (!m.empty() && isspace(static_cast<unsigned char>(m.front()))) m.erase(0, 1);
    while (!m.empty() && isspace(static_cast<unsigned char>(m.back()))) m.pop_back();
    text = m;
}

using Entries = std::map<std::string, std::pair<std::string, std::string>>;
// the variables a description says it is for: "Range: #1000-#1031", "Range: #2001-#2200 - #10001-#10999"
std::vector<std::pair<int64_t, int64_t>> ranges(const std::string& d)
{
    std::vector<std::pair<int64_t, int64_t>> r;
    auto i = d.find("Range: #");
    if (i == std::string::npos) return r;
    long long a, b, e, f;
    int n = sscanf(d.c_str() + i, "Range: #%lld-#%lld - #%lld-#%lld", &a, &b, &e, &f);
    if (n >= 2) r.emplace_back(a, b);
    if (n == 4) r.emplace_back(e, f);
    return r;
}

// a hover as documented: the description of a code, or the value a macro has at that line and its description
// (one of several, where a variable has several descriptions)
std::vector<std::string> hover_model(const Plan& p, const Found& fd, const Entries& macrodesc, const std::string& line, int64_t l, int64_t ch)
{
    const Conf& c = conf(control(p));
    auto digit = [&](size_t i) { return i < line.size() && line[i] >= '0' && line[i] <= '9'; };
    auto bare = [](std::string s) { while (s.size() > 1 && s[0] == '0') s.erase(0, 1); return s; };
    auto find = [&](auto&& length, std::string& tok, size_t& from) {
        for (size_t i = 0; i < line.size();)
        {
            size_t n = length(i);
            if (n && ch >= static_cast<int64_t>(i) && ch < static_cast<int64_t>(i + n)) { tok = line.substr(i, n); from = i; return true; }
            i += n ? n : 1;
        }
        return false;
    };
    auto letter = [&](size_t i) { return strchr("GgMm", line[i]) && line[i]; };
    auto code = [&](size_t i) -> size_t { if (!letter(i) || !digit(i + 1)) return 0; size_t e = i + 1; while (digit(e)) ++e; if (e < line.size() && line[e] == '.') ++e; if (digit(e)) ++e; return e - i; };
    auto macro = [&](size_t i) -> size_t { if (i >= line.size() || line[i] != '#') return 0; size_t e = i + 1; while (digit(e)) ++e; return e == i + 1 ? 0 : e - i; };
    auto mcode = [&](size_t i) -> size_t { if (!letter(i)) return 0; size_t n = macro(i + 1); return n ? n + 1 : 0; };
    auto described = [](const std::string& s, const std::pair<std::string, std::string>& d) {
        std::string r = "**" + s + ": " + d.first + "** \n\n---\n\n";
        for (char x : d.second) { r += x; if (x == '\n') r += x; }
        return r;
    };
    auto out = [&](const std::string& s, size_t from, size_t n) {
        J r = J::obj(), a = J::obj(), b = J::obj(), g = J::obj();
        a.set("line", l).set("character", static_cast<int64_t>(from));
        b.set("line", l).set("character", static_cast<int64_t>(from + n));
        g.set("start", a).set("end", b);
        r.set("contents", s).set("range", g);
        return std::vector<std::string>{r.dump()};
    };
    const std::vector<std::string> none{"null"};
    auto table = [&](char x) -> const std::map<std::string, std::pair<std::string, std::string>>& { return x == 'G' || x == 'g' ? c.gdesc : c.mdesc; };
    auto value = [&](const std::string& digits, std::string& v) {
        if (digits.size() > 9) return false;
        bool    any = false;
        int64_t id = atoll(digits.c_str());
        for (auto it = fd.macros.lower_bound({id, INT64_MIN}); it != fd.macros.end() && it->first.first == id && it->first.second <= l + 1; ++it) { v = it->second; any = true; }
        return any;
    };
    std::string tok, v;
    size_t      from = 0;
    if (find(code, tok, from))
    {
        auto& t = table(tok[0]);
        auto  k = t.find(bare(tok.substr(1)));
        return out(k == t.end() ? tok : described(tok, k->second), from, tok.size());
    }
    if (fd.macros.empty()) return none;
    if (find(mcode, tok, from))
    {
        if (!value(bare(tok.substr(2)), v)) return none;
        auto&       t = table(tok[0]);
        auto        k = t.find(v);
        std::string s = tok + " (" + static_cast<char>(toupper(tok[0])) + v + ")";
        return out(k == t.end() ? s : described(s, k->second), from, tok.size());
    }
    if (find(macro, tok, from))
    {
        std::string num = bare(tok.substr(1)), s = tok;
        bool        known = value(num, v);
        if (known) s += " = " + v;
        std::vector<std::string> one;
        auto add = [&](const std::pair<std::string, std::string>& d) { if (!d.first.empty() || !d.second.empty()) one.push_back(out(described(s, d), from, tok.size())[0]); };
        auto k = macrodesc.find(num);
        if (k != macrodesc.end()) add(k->second);
        else if (num.size() < 10)
            for (auto& [code, d] : macrodesc)
                for (auto& [lo, hi] : ranges(d.second)) if (atoll(num.c_str()) >= lo && atoll(num.c_str()) <= hi) { add(d); break; }
        if (!one.empty()) return one;
        if (!known) s += " = undefined";
        return out(s, from, tok.size());
    }
    return none;
}

bool check_hover(const Plan& p, const Found& fd, const Entries& macrodesc, const std::string& t, const Sent& m, const Frame& f, int64_t l, int64_t c, Verdict& v)
{
    std::string line, got = norm_result(f.j);
    bool        any = false;
    size_t      a = 0;
    for (int64_t i = 0; l >= 0 && i < l && a < t.size(); ++i) { auto e = t.find('\n', a); a = e == std::string::npos ? t.size() : e + 1; }
    if (l >= 0 && a < t.size()) { auto e = t.find('\n', a); line = t.substr(a, e == std::string::npos ? e : e - a); any = true; }
    auto want = any ? hover_model(p, fd, macrodesc, line, l, c) : std::vector<std::string>{"null"};
    if (got == "{}") got = "null";
    if (std::find(want.begin(), want.end(), got) == want.end()) { v.cls = "lib-hover"; v.detail = what(m) + " line " + std::to_string(l) + " character " + std::to_string(c) + " of '" + line.substr(0, 80) + "'" + gap(got, "expected", want[0]); return false; }
    v.probes[want[0] == "null" ? "library_hovers_nothing" : "library_hovers"]++;
    if (want[0].find("\"**#") != std::string::npos) v.probes["hovers_described_variable"]++;
    return true;
}

// Compare every answer of the session about a document with what the library finds in its text.
bool compare_library(const Plan& p, const Session& s, const World& w, Verdict& v, int from_op, size_t most)
{
    std::map<const Sent*, const std::string*> text;
    std::map<std::string, const std::string*> cur;
    std::list<std::string>                    keep;
    for (auto& x : s.v)
    {
        if (x.kind == "open" || x.kind == "change")
        {
            J j;
            J::parse(x.body, j);
            auto& pr = j.at("params");
            keep.push_back(pr.at("textDocument").has("text") ? pr.at("textDocument").at("text").str() : (pr.at("contentChanges").a.empty() ? "" : pr.at("contentChanges").a.back().at("text").str()));
            cur[x.uri] = &keep.back();
        }
        else if (x.kind == "close") cur.erase(x.uri);
        auto it = cur.find(x.uri);
        text[&x] = it == cur.end() ? nullptr : it->second;
    }
    std::map<std::string, Found> found;
    for (auto& [m, f] : s.pairs)
    {
        if (m->op >= 0 && m->op < from_op) continue;
        auto t = text[m];
        if (!t || t->find('\0') != std::string::npos) continue;
        if (m->kind != "open" && m->kind != "change" && m->kind != "hover" && m->kind != "lens" && m->kind != "lensres") continue;
        if (!found.count(*t)) { if (found.size() >= most) continue; found[*t] = library(w, *t); }
        auto& fd = found[*t];
        if (!fd.err.empty()) { v.cls = "library"; v.detail = fd.err; return false; }
        if (m->kind == "open" || m->kind == "change")
        {
            int    z;
            J      d = without_macro_problem(f->j.at("params").at("diagnostics"), z);
            size_t k = 0;
            for (auto& [line, msg] : fd.bad)
            {
                if (k >= d.a.size()) { v.cls = "lib-diagnostics"; v.detail = what(*m) + ": no diagnostic for line " + std::to_string(line + 1) + " '" + fd.src[line].substr(0, 80) + "', which the library rejects: " + msg; return false; }
                auto&       e = d.a[k];
                int64_t     col;
                std::string txt;
                split_message(msg, col, txt);
                const int64_t el = e.at("range").at("start").at("line").i(-1), ec = e.at("range").at("start").at("character").i(-1);
                if (el != line) { v.cls = "lib-diagnostics"; v.detail = what(*m) + ": diagnostic " + std::to_string(k) + " is at line " + std::to_string(el + 1) + " instead of " + std::to_string(line + 1) + ", which the library rejects: " + msg + "; diagnostic: " + e.dump().substr(0, 200); return false; }
                if (msg.empty() ? e.at("message").str().empty() : (e.at("message").str() != txt || ec != (col ? col - 1 : 0)))
                {
                    v.cls = "lib-diagnostics"; v.detail = what(*m) + ": diagnostic of line " + std::to_string(line + 1) + " is " + e.dump().substr(0, 300) + " instead of '" + msg + "' of the library"; return false;
                }
                ++k;
            }
            if (k < d.a.size()) { v.cls = "lib-diagnostics"; v.detail = what(*m) + ": a diagnostic for a line the library accepts: " + d.a[k].dump().substr(0, 300); return false; }
            v.probes["library_diagnostics"] += static_cast<int64_t>(k);
        }
        else if (m->kind == "lens")
        {
            auto&  r = f->j.at("result");
            size_t n = r.t == J::Arr ? r.a.size() : 0;
            for (size_t k = 0; k < std::max(n, fd.lens.size()); ++k)
            {
                std::string got = k < n ? std::to_string(r.a[k].at("range").at("start").at("line").i(-1)) + " '" + r.a[k].at("command").at("title").str() + "'" : "none";
                std::string want = k < fd.lens.size() ? std::to_string(fd.lens[k].first) + (fd.lens[k].second == "?" ? " ?" : " '" + fd.lens[k].second + "'") : "none";
                if (want.back() == '?' && got.compare(0, got.find(' '), want, 0, want.find(' ')) == 0) continue; // too long to be told
                if (got != want) { v.cls = "lib-lens"; v.detail = what(*m) + ": lens " + std::to_string(k) + " is " + got + " instead of " + want; return false; }
            }
            v.probes["library_lenses"] += static_cast<int64_t>(n);
        }
        else if (m->kind == "lensres")
        {
            J bj;
            J::parse(m->body, bj);
            const int64_t line = bj.at("params").at("range").at("start").at("line").i();
            auto&         r = f->j.at("result");
            std::string   got = r.t == J::Obj && r.has("command") ? std::to_string(r.at("range").at("start").at("line").i(-1)) + " '" + r.at("command").at("title").str() + "'" : "none", want = "none";
            for (auto& [n, title] : fd.lens) if (n == line) want = title == "?" ? got : std::to_string(n) + " '" + title + "'";
            if (got != want) { v.cls = "lib-lens"; v.detail = what(*m) + ": the resolved lens is " + got + " instead of " + want; return false; }
            v.probes["library_lenses"]++;
        }
        else
        {
            auto& o = p.ops[static_cast<size_t>(m->op)];
            if (p.w.macro && t->find('#') != std::string::npos) continue; // C06
            if (!check_hover(p, fd, conf(control(p)).macrodesc, *t, *m, *f, o.l, o.c, v)) return false;
        }
        v.nontrivial = true;
    }
    v.probes["library_texts"] += static_cast<int64_t>(found.size());
    return true;
}

bool check_completion(const Plan& p, const Sent& m, const Frame& f, Verdict& v)
{
    const Conf&                c = conf(control(p));
    std::map<std::string, int> n;
    for (auto& e : f.j.at("result").a) n[e.at("label").str()]++;
    std::map<std::string, int> want;
    for (auto& x : c.g) want["G" + x] = 1;
    for (auto& x : c.m) want["M" + x] = 1;
    for (auto& [l, k] : want)
        if (n[l] != 1) { v.cls = "completion"; v.detail = what(m) + ": " + l + " offered " + std::to_string(n[l]) + " times"; return false; }
    std::set<std::string> macros;
    for (auto& x : c.macros) macros.insert("#" + x);
    size_t nm = 0;
    for (auto& [l, k] : n)
    {
        if (k == 0 || want.count(l)) continue;
        if (k > 1) { v.cls = "completion"; v.detail = what(m) + ": " + l + " offered " + std::to_string(k) + " times"; return false; }
        if (l.empty() || l[0] != '#') { v.cls = "completion"; v.detail = what(m) + ": unknown entry " + l; return false; }
        if (macros.count(l)) ++nm;
        else if (p.w.macro == 0) { v.cls = "completion"; v.detail = what(m) + ": unknown entry " + l; return false; }
    }
    if (nm != 0 && nm != macros.size()) { v.cls = "completion"; v.detail = what(m) + ": only " + std::to_string(nm) + " of " + std::to_string(macros.size()) + " macros offered"; return false; }
    v.probes["completion_lists"]++;
    return true;
}

std::vector<std::string> pair_bodies(const Session& s) { std::vector<std::string> r; for (auto& [m, f] : s.pairs) r.push_back(f->body); return r; }

Plan canonical(const Plan& p, bool keep_raw)
{
    Plan q;
    q.prop = "ref";
    q.w = p.w;
    q.w.log = 0; q.w.log_text.clear(); q.w.log_pad = 0; q.w.wall = 1600000000; q.w.cost = 1000;
    for (auto o : p.ops)
    {
        if (o.k == "clock" || o.k == "stall" || o.k == "pause") continue;
        if (!keep_raw && o.k == "raw") continue;
        o.cuts.clear(); o.gap = 0; o.hdr = 0; o.wait = true;
        q.ops.push_back(o);
    }
    return q;
}

bool same_as_canonical(const Plan& p, const Session& s, Verdict& v, const char* cls)
{
    Plan    q = canonical(p, false);
    ++g_ref_runs;
    History h = run(q);
    Session c;
    if (!session(q, h, c)) { v.cls = "plain"; v.detail = "with plain delivery: " + c.bad.detail; return false; }
    auto a = pair_bodies(s), b = pair_bodies(c);
    if (a.size() != b.size()) { v.cls = cls; v.detail = std::to_string(a.size()) + " answers instead of " + std::to_string(b.size()); return false; }
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i] != b[i]) { v.cls = cls; v.detail = "answer to " + what(*s.pairs[i].first) + " is " + a[i].substr(0, 200) + " instead of " + b[i].substr(0, 200); return false; }
    v.probes["answers_compared"] += static_cast<int64_t>(a.size());
    return true;
}

// the log file: only appended to, earlier sessions intact
bool log_ok(const Plan& p, const History& h, Verdict& v, std::string* final_text)
{
    std::string f = p.w.old_log();
    for (auto& i : h.inc)
        for (auto& e : i.ev)
        {
            if (e.kind == 'T') { v.cls = "log"; v.detail = "file truncated: " + e.d; return false; }
            if (e.kind == 'U' || e.kind == 'N') { v.cls = "log"; v.detail = "file removed or renamed: " + e.d; return false; }
            if (e.kind != 'L' && e.kind != 'w') continue;
            auto z = e.d.find('\0');
            if (e.d.substr(0, z) != LOG) { v.cls = "log"; v.detail = "written: " + e.d.substr(0, z); return false; }
            if (static_cast<size_t>(e.a) != f.size()) { v.cls = "log"; v.detail = "log written at " + std::to_string(e.a) + " of " + std::to_string(f.size()); return false; }
            f += e.d.substr(z + 1);
        }
    if (final_text) *final_text = f;
    return true;
}

Verdict c01(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    if (!session(p, h, s)) return s.bad;
    int64_t pieces = 0, hdrs = 0;
    for (auto& o : p.ops) { pieces += static_cast<int64_t>(o.cuts.size()); hdrs += o.hdr != 0; }
    v.probes["split_points"] += pieces;
    v.probes["extra_headers"] += hdrs;
    v.nontrivial = (pieces || hdrs) && s.pairs.size() > 2;
    same_as_canonical(p, s, v, "delivery");
    return v;
}
Verdict c02(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    if (!session(p, h, s)) return s.bad;
    for (auto& [m, f] : s.pairs)
    {
        if (m->kind == "comp" && !check_completion(p, *m, *f, v)) return v;
        if (m->kind == "init" && f->j.at("result").at("capabilities").t != J::Obj) { v.cls = "initialize"; v.detail = f->body.substr(0, 120); return v; }
        if (m->kind == "res" && f->j.at("result").at("label").str() != p.ops[static_cast<size_t>(m->op)].t) { v.cls = "resolve"; v.detail = "label not echoed: " + f->body.substr(0, 120); return v; }
        if (m->kind == "shutdown" && f->j.at("result").t != J::Null) { v.cls = "shutdown"; v.detail = f->body.substr(0, 120); return v; }
        v.probes["answered_" + m->kind]++;
    }
    v.nontrivial = s.pairs.size() > 3;
    return v;
}
Verdict c03(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    if (!session(p, h, s)) return s.bad;
    if (compare_fresh(p, h, s, p.w, v, {})) compare_library(p, s, p.w, v, -1, 3);
    return v;
}
Verdict c25(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    if (!session(p, h, s)) return s.bad;
    int disarm = -1;
    for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].k == "disarm") disarm = static_cast<int>(i);
    if (disarm >= 0) // answers count from the first change after the configuration was repaired
    {
        size_t i = static_cast<size_t>(disarm);
        while (i < p.ops.size() && p.ops[i].k != "change" && p.ops[i].k != "open") ++i;
        disarm = static_cast<int>(i);
    }
    compare_library(p, s, p.w, v, disarm, 1000);
    return v;
}
Verdict c05(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    if (!session(p, h, s)) return s.bad;
    int     disarm = -1;
    for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].k == "disarm") disarm = static_cast<int>(i);
    if (disarm < 0) return v;
    World   good = p.w; // w.settings_text is the good content; nothing is broken in a fresh world
    // 1. while things are broken: an analysis either reports that or is complete
    std::map<std::string, std::string> want;
    std::map<std::string, bool>        got_after;
    for (auto& [m, f] : s.pairs)
    {
        if (m->op >= disarm || (m->kind != "open" && m->kind != "change")) continue;
        auto& t = p.ops[static_cast<size_t>(m->op)].t;
        auto& d = f->j.at("params").at("diagnostics");
        bool  err = false;
        for (auto& x : d.a) if (is_config_error(x)) err = true;
        if (err) { v.probes["config_error_reported"]++; continue; }
        int  n1, n2;
        auto got = without_macro_problem(d, n1).dump();
        if (!want.count(t))
        {
            Ref r = reference(good, t, {}, false, 1);
            if (!r.err.empty()) { v.cls = "fresh"; v.detail = r.err; return v; }
            J j;
            J::parse(r.diags, j);
            want[t] = without_macro_problem(j, n2).dump();
        }
        if (got != want[t]) { v.cls = "silent"; v.detail = what(*m) + ": configuration could not be loaded, yet diagnostics are " + d.dump().substr(0, 200) + " instead of an error or " + want[t].substr(0, 200); return v; }
        v.probes["analysed_despite_faults"]++;
    }
    // 2. afterwards everything is as if nothing had happened
    // a document counts from its first change after the repair
    std::set<std::string> ready;
    bool                  any = false;
    for (auto& [m, f] : s.pairs) if (m->op > disarm) { if (m->kind == "open" || m->kind == "change") any = true; if (!any) continue; if (m->kind == "comp") { if (!check_completion(p, *m, *f, v)) return v; } }
    int first = -1;
    for (size_t i = static_cast<size_t>(disarm); i < p.ops.size(); ++i) if (p.ops[i].k == "change" || p.ops[i].k == "open") { first = static_cast<int>(i); break; }
    if (first < 0) return v;
    for (auto x : h.fired) v.probes["faults_fired"] += x;
    if (!compare_fresh(p, h, s, good, v, {first, false}) || !compare_library(p, s, good, v, first, 3)) v.cls = "after-" + v.cls;
    return v;
}

// reading a macro description file the way the documentation promises: user entries first
bool macro_entries(const std::string& text, std::map<std::string, std::pair<std::string, std::string>>& m)
{
    J j;
    if (!J::parse(text, j) || !j.has("descriptions") || j.at("descriptions").t != J::Obj) return false;
    for (auto& [k, t] : j.at("descriptions").o) if (!t.o.empty() && !m.count(k)) m[k] = {t.o[0].first, t.o[0].second.str()};
    return true;
}
Verdict c06(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    if (!p.w.macro) return v; // no file to be read
    if (!session(p, h, s)) return s.bad;
    const Conf& c = conf(control(p));
    World  w = p.w;
    w.macro = 0;
    std::string content = p.w.macro_text;
    bool        locked = false, known = false; // good file read once; state after the first analysis known
    std::map<std::string, std::pair<std::string, std::string>> entries = c.macrodesc;
    std::map<std::string, std::string> want;
    std::map<int, const std::pair<const Sent*, const Frame*>*> by;
    for (auto& x : s.pairs) by[x.first->op] = &x;
    bool analysed = false;
    std::map<std::string, std::string> text;
    std::map<std::string, Found>       found;
    for (size_t i = 0; i < p.ops.size(); ++i)
    {
        auto& o = p.ops[i];
        if (o.k == "open" || o.k == "change") text[o.u] = o.t;
        else if (o.k == "close") text.erase(o.u);
        if (o.k == "file" && !locked) { if (o.s == "del") content = "\x01missing"; else if (o.s == "err") content = "\x01err"; else if (o.s == "set") content = o.t; known = false; continue; }
        auto it = by.find(static_cast<int>(i));
        if (it == by.end()) continue;
        auto& [m, f] = *it->second;
        if (m->kind == "open" || m->kind == "change")
        {
            std::map<std::string, std::pair<std::string, std::string>> user;
            bool good = content[0] != '\x01' && macro_entries(content, user);
            if (locked) good = true;
            int  n, z;
            auto rest = without_macro_problem(f->j.at("params").at("diagnostics"), n).dump();
            if (!want.count(o.t))
            {
                Ref r = reference(w, o.t, {}, false, 1);
                if (!r.err.empty()) { v.cls = "fresh"; v.detail = r.err; return v; }
                J j;
                J::parse(r.diags, j);
                want[o.t] = without_macro_problem(j, z).dump();
            }
            if (good && n) { v.cls = "stale-problem"; v.detail = what(*m) + ": the macro description file is good, yet a problem is reported"; return v; }
            if (!good && !n) { v.cls = "hidden"; v.detail = what(*m) + ": the macro description file is bad, but the diagnostics do not say so: " + f->j.at("params").dump().substr(0, 200); return v; }
            if (rest != want[o.t]) { v.cls = "diagnostics"; v.detail = what(*m) + ": diagnostics of the program are " + rest.substr(0, 200) + " instead of " + want[o.t].substr(0, 200); return v; }
            if (good && !locked) { locked = true; entries = user; for (auto& e : c.macrodesc) entries.insert(e); }
            analysed = known = true;
            v.probes[good ? "good_analyses" : "bad_analyses"]++;
            v.nontrivial = true;
        }
        else if (m->kind == "res" && analysed && known)
        {
            std::string k = o.t.empty() ? "" : o.t.substr(1);
            const std::map<std::string, std::pair<std::string, std::string>>* t = o.t[0] == 'G' ? &c.gdesc : o.t[0] == 'M' ? &c.mdesc : o.t[0] == '#' ? &entries : nullptr;
            if (!t || !t->count(k)) continue;
            auto& e = t->at(k);
            auto& r = f->j.at("result");
            if (r.at("detail").str() != e.first || r.at("documentation").str() != e.second) { v.cls = "resolve"; v.detail = what(*m) + " " + o.t + ": " + r.dump().substr(0, 200) + " instead of " + e.first + " / " + e.second.substr(0, 100); return v; }
            v.probes["descriptions_checked"]++;
        }
        else if (m->kind == "hover" && analysed && known)
        {
            // a macro with a description shows exactly that description
            std::string cont = f->j.at("result").at("contents").str();
            if (cont.compare(0, 3, "**#") == 0)
            {
                auto e1 = cont.find_first_of(" :", 3);
                std::string k = cont.substr(3, e1 - 3);
                while (k.size() > 1 && k[0] == '0') k.erase(0, 1);
                if (entries.count(k))
                {
                    if (cont.find(": " + entries[k].first + "**") == std::string::npos) { v.cls = "hover"; v.detail = what(*m) + ": " + cont.substr(0, 150) + " instead of " + entries[k].first; return v; }
                    v.probes["hover_described"]++;
                }
            }
            auto t = text.find(m->uri);
            if (t == text.end() || t->second.find('\0') != std::string::npos) continue;
            if (!found.count(t->second)) { if (found.size() >= 4) continue; found[t->second] = library(w, t->second); }
            auto& fd = found[t->second];
            if (!fd.err.empty()) { v.cls = "library"; v.detail = fd.err; return v; }
            if (!check_hover(p, fd, entries, t->second, *m, *f, o.l, o.c, v)) return v;
        }
        else if (m->kind == "comp" && analysed && known && !check_completion(p, *m, *f, v)) return v;
    }
    return v;
}
Verdict c07(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    if (!session(p, h, s)) return s.bad;
    std::string log;
    if (!log_ok(p, h, v, &log)) return v;
    if (!same_as_canonical(p, s, v, "output")) return v;
    int64_t fired = 0;
    for (auto x : h.fired) fired += x;
    v.probes["log_faults_fired"] += fired;
    bool clock = false;
    for (auto& o : p.ops) clock |= o.k == "clock";
    v.nontrivial = s.pairs.size() > 2 && (fired || clock || p.w.log == 2 || !p.w.log_text.empty());
    if (p.w.log == 1 && fired == 0)
    {
        for (auto& x : s.v)
            if (x.complete && !shutdown_before(p, s.v, &x, false) && log.find(x.body) == std::string::npos) { v.cls = "log"; v.detail = "not in the log: received " + what(x); return v; }
        for (auto& i : s.fr)
            for (auto& f : i) if (log.find(f.body) == std::string::npos) { v.cls = "log"; v.detail = "not in the log: sent " + f.body.substr(0, 100); return v; }
        v.probes["logs_complete"]++;
    }
    return v;
}
// does a malformed message carry the id of a well formed request? Which answer belongs to which is then anybody's guess
bool same_id(const Plan& p, const std::string& raw)
{
    for (size_t at = raw.find("\"id\""); at != std::string::npos; at = raw.find("\"id\"", at + 1))
    {
        size_t b = at + 4;
        while (b < raw.size() && strchr(" \t\r\n:", raw[b]) && raw[b]) ++b;
        char*  e;
        double d = strtod(raw.c_str() + b, &e);
        for (auto& o : p.ops)
        {
            if (o.k == "raw" || o.id.empty()) continue;
            if (raw.compare(b, o.id.size(), o.id) == 0 && o.id[0] == '"') return true;
            if (o.id[0] != '"' && e != raw.c_str() + b && strtod(o.id.c_str(), nullptr) == d) return true;
        }
    }
    return false;
}
Verdict c08(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    for (auto& o : p.ops) if (o.k == "raw" && same_id(p, o.t)) { v.probes["ids_used_twice"]++; return v; }
    if (!session(p, h, s, true)) return s.bad;
    size_t raws = 0;
    for (auto& o : p.ops) raws += o.k == "raw";
    if (s.extra.size() > raws) { v.cls = "extra"; v.detail = std::to_string(s.extra.size()) + " outputs for " + std::to_string(raws) + " malformed messages: " + s.extra[0].body.substr(0, 100); return v; }
    v.probes["malformed_sent"] += static_cast<int64_t>(raws);
    v.nontrivial = raws > 0;
    same_as_canonical(p, s, v, "affected");
    return v;
}
Verdict c09(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    if (!session(p, h, s)) return s.bad;
    for (auto& [m, f] : s.pairs)
        if (m->kind == "open" || m->kind == "change")
        {
            auto&   t = p.ops[static_cast<size_t>(m->op)].t;
            int64_t lines = 1 + std::count(t.begin(), t.end(), '\n');
            for (auto& d : f->j.at("params").at("diagnostics").a)
            {
                int64_t l = d.at("range").at("start").at("line").i(-1);
                if (l < 0 || l >= lines) { v.cls = "range"; v.detail = what(*m) + ": diagnostic at line " + std::to_string(l) + " of " + std::to_string(lines) + ": " + d.dump().substr(0, 200); return v; }
                v.probes["diagnostics"]++;
            }
            v.probes["programs"]++;
            v.nontrivial = true;
        }
        else if (m->kind == "hover") v.probes["hovers"]++;
    return v;
}
Verdict c10(const Plan& p, const History& h)
{
    Verdict v;
    auto&   inc = h.inc[0];
    auto    m = sent(p, h);
    std::vector<Frame> fr;
    std::string        err;
    bool eof = false, hup = false;
    uint64_t asked_at = 0;
    for (auto& e : inc.ev) { if (e.kind == 'E') { eof = true; if (!asked_at) asked_at = e.t; } if (e.kind == 'Z' && p.ops[static_cast<size_t>(e.a)].k == "hup") hup = true; }
    bool quit = false;
    for (auto& x : m) if ((x.kind == "shutdown" || x.kind == "exit") && x.complete) { quit = true; if (!asked_at || x.avail < asked_at) asked_at = x.avail; }
    v.probes[hup ? "ends_editor_gone" : quit ? "ends_asked" : eof ? "ends_eof" : "stays"]++;
    v.nontrivial = true;
    if (inc.end.how == 'S') { v.cls = "stuck"; v.detail = "the server keeps running after " + std::string(hup ? "its editor is gone" : quit ? "shutdown/exit" : eof ? "end of input" : "the session"); return v; }
    if (!quit && !eof && !hup)
    {
        if (inc.end.how != 'I') { v.cls = "left"; v.detail = std::string("stdin open, no shutdown or exit, but the server ") + end_name(inc.end); return v; }
    }
    else if (inc.end.how == 'I') { v.cls = "stays"; v.detail = "the server does not end after shutdown/exit"; return v; }
    else if (inc.end.how == 'G' && !(hup && inc.end.code == 13)) { v.cls = "died"; v.detail = std::string("the server ") + end_name(inc.end); return v; }
    else if (inc.end.how == 'X')
    {
        uint64_t end = 0, work = 0;
        for (auto& e : inc.ev) if (e.kind == 'X') end = e.t;
        for (auto& x : m) (void)x, work += 200000000ull;
        if (end > asked_at + 6000000000ull + work) { v.cls = "late"; v.detail = "the server ended " + std::to_string((end - asked_at) / 1000000000) + " s after it should"; return v; }
    }
    if (!frames(inc, 0, fr, err, hup)) { v.cls = "framing"; v.detail = err; return v; }
    // everything completely received before is answered, nothing else is
    size_t k = 0;
    for (auto& x : m)
    {
        if (!x.complete || !x.expects) continue;
        if (shutdown_before(p, m, &x, false)) continue;
        if (k >= fr.size())
        {
            if (hup) break;
            v.cls = "unanswered"; v.detail = what(x) + " was received before the end but never answered";
            return v;
        }
        std::string why;
        if (!answers(x, fr[k], why)) { v.cls = "mismatch"; v.detail = why; return v; }
        ++k;
    }
    for (; k < fr.size(); ++k)
    {
        std::string w;
        bool after = false;
        for (auto& x : m) if (x.expects && x.complete && shutdown_before(p, m, &x, false) && answers(x, fr[k], w)) after = true;
        if (after) continue;
        v.cls = "partial"; v.detail = "output for a message that was never completely received: " + fr[k].body.substr(0, 120);
        return v;
    }
    return v;
}
Verdict c11(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    if (!session(p, h, s)) return s.bad;
    uint64_t prev = 0;
    for (auto& [m, f] : s.pairs)
    {
        if (!m->complete) continue;
        uint64_t from = std::max(prev, m->avail);
        // messages without answers that were queued in between take their time as well
        uint64_t queued = 0;
        for (auto& x : s.v) if (x.complete && !x.expects && x.avail <= f->t && x.avail + 1000000000ull >= from) ++queued;
        uint64_t lim = from + 1000000000ull + queued * 200000000ull;
        if (f->t > lim) { v.cls = "late"; v.detail = what(*m) + " answered " + std::to_string((f->t - from) / 1000000) + " ms after its last byte or the previous answer"; return v; }
        prev = std::max(prev, f->t);
        v.probes["answers_timed"]++;
    }
    v.nontrivial = s.pairs.size() > 2;
    return v;
}
Verdict c12(const Plan& p, const History& h)
{
    Verdict v;
    Session s;
    if (!session(p, h, s)) return s.bad;
    std::string log;
    if (p.w.log == 1 && !log_ok(p, h, v, &log)) return v;
    v.probes["kills"] += static_cast<int64_t>(h.inc.size()) - 1;
    if (!compare_fresh(p, h, s, p.w, v, {}) || !compare_library(p, s, p.w, v, -1, 3)) return v;
    v.nontrivial = h.inc.size() > 1 && !s.pairs.empty();
    return v;
}
Verdict c13(const Plan& p, const History& h)
{
    Verdict v;
    for (auto& i : h.inc)
        for (auto& e : i.ev)
            if (e.kind == 'W')
            {
                bool log = p.w.log == 1 && e.d.compare(0, std::string(LOG).size(), LOG) == 0 && e.d.find("truncate") == std::string::npos && e.d.find(" append") != std::string::npos;
                bool lost = p.w.log == 2 && e.d.find("/sim/nodir/server.log append") == 0;
                if (!log && !lost) { v.cls = "write"; v.detail = "the server opens or changes a file: " + e.d; return v; }
                v.probes["log_opens"]++;
            }
    if (!log_ok(p, h, v, nullptr)) return v;
    v.nontrivial = true;
    return v;
}
// What the server holds after 12 rounds of the same work and after 6; what grew must have grown again after 24, 48 and 96.
Verdict c27(const Plan& p, const History&)
{
    Verdict v;
    struct Acc { int64_t bytes = 0, blocks = 0, fds = 0, steps = 0, calls = 0; };
    bool fresh = false;
    for (auto& o : p.ops) if (o.u.find("@0000@") != std::string::npos || o.t.find("@0000@") != std::string::npos || o.t.find("@N@") != std::string::npos) fresh = true;
    auto rounds = [&](int n, std::vector<Acc>& a) {
        History h = run(expand(p, n));
        v.more_hash = fnv(&h.hash, sizeof h.hash, v.more_hash + 1);
        v.more_ns += h.sim_ns;
        v.more_steps += h.steps;
        a.clear();
        if (h.inc.size() != 1 || h.inc[0].end.how != 'I') return false;
        for (auto& e : h.inc[0].ev)
            if (e.kind == 'H')
            {
                long long b, k;
                unsigned long long s, c;
                if (sscanf(e.d.c_str(), "%lld %lld %llu %llu", &b, &k, &s, &c) == 4) a.push_back({b, k, e.a, static_cast<int64_t>(s), static_cast<int64_t>(c)});
            }
        v.probes["rounds"] += static_cast<int64_t>(a.size());
        return static_cast<int>(a.size()) == n;
    };
    std::vector<Acc> a;
    if (!rounds(12, a)) { v.probes["no_accounts"]++; return v; } // a server that ends or hangs is for other properties to judge
    v.nontrivial = true;
    auto cost = [](const std::vector<Acc>& x, int n, int64_t Acc::*f) { return x[static_cast<size_t>(n) - 1].*f - x[static_cast<size_t>(n) - 2].*f; };
    struct What { const char* name; int64_t Acc::*f; };
    static const What what[] = {{"bytes of memory", &Acc::bytes}, {"blocks of memory", &Acc::blocks}, {"open files", &Acc::fds}};
    static const What effort[] = {{"steps", &Acc::steps}, {"system calls", &Acc::calls}};
    bool suspect = false;
    for (auto& w : what) if (a[11].*w.f > a[5].*w.f) suspect = true;
    for (auto& w : effort) if (!fresh && cost(a, 12, w.f) > cost(a, 6, w.f)) suspect = true;
    if (!suspect) return v;
    v.probes["suspects"]++;
    std::vector<Acc> b;
    if (!rounds(96, b)) { v.probes["no_accounts"]++; return v; }
    for (auto& w : what)
        if (b[95].*w.f > b[47].*w.f && b[47].*w.f > b[23].*w.f && b[23].*w.f > b[11].*w.f && b[11].*w.f > b[5].*w.f)
        {
            v.cls    = w.f == &Acc::fds ? "files" : "memory";
            v.detail = std::string("the same work again and again: ") + w.name + " held after 12, 24, 48 and 96 rounds: " + std::to_string(b[11].*w.f) + ", " + std::to_string(b[23].*w.f) + ", " + std::to_string(b[47].*w.f) + ", " + std::to_string(b[95].*w.f);
            return v;
        }
    for (auto& w : effort)
    {
        auto    c = [&](int n) { return cost(b, n, w.f); };
        int64_t d1 = c(24) - c(12), d2 = c(48) - c(24), d3 = c(96) - c(48);
        if (fresh || d1 <= 0 || 10 * d2 < 13 * d1 || 10 * d3 < 13 * d2) continue;
        v.cls    = "time";
        v.detail = std::string("the same work again and again: ") + w.name + " needed in rounds 12, 24, 48 and 96: " + std::to_string(c(12)) + ", " + std::to_string(c(24)) + ", " + std::to_string(c(48)) + ", " + std::to_string(c(96));
        return v;
    }
    return v;
}
} // namespace

Verdict judge(const Plan& p, const History& h)
{
    const std::string& q = p.prop;
    if (q == "C01") return c01(p, h);
    if (q == "C02") return c02(p, h);
    if (q == "C03" || q == "C04") return c03(p, h);
    if (q == "C05") return c05(p, h);
    if (q == "C06") return c06(p, h);
    if (q == "C07") return c07(p, h);
    if (q == "C08") return c08(p, h);
    if (q == "C09") return c09(p, h);
    if (q == "C10") return c10(p, h);
    if (q == "C11") return c11(p, h);
    if (q == "C12") return c12(p, h);
    if (q == "C13") return c13(p, h);
    if (q == "C25") return c25(p, h);
    if (q == "C27") return c27(p, h);
    return {};
}

} // namespace sim
