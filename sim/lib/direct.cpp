// The same calls made on the parser classes themselves: no code of the C interface takes part. Results in the text form of api.cpp.
#include <algorithm>
#include <cmath>
#include <cstdio>

#include <boost/variant.hpp>

#include "../common/libconf.h"
#include "fanuc/AllAttributesParser.h"
#include "heidenhain/AllAttributesParser.h"
#include "plan.h"

namespace sim {
namespace {
namespace pf = parser::fanuc;
namespace ph = parser::heidenhain;

std::string num(double d) { if (std::isnan(d)) return "nan"; char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string quote(const std::string& s) { std::string r; J::esc(s.c_str(), r); return r; } // a C string ends at its first NUL

struct Word : boost::static_visitor<std::pair<std::string, std::string>>
{
    result_type operator()(const pf::DecimalAttributeData& d) const
    {
        std::string v;
        auto        add = [&](auto& part) { if (part) v += *part; };
        add(d.assign); add(d.sign); add(d.open_bracket); add(d.macro); add(d.value); add(d.dot); add(d.value2); add(d.close_bracket);
        return {d.word, v};
    }
    result_type operator()(const pf::StringAttributeData& d) const { return {d.word, d.word == "(" ? d.value + ")" : d.value}; }
    result_type operator()(const pf::CharAttributeData& d) const { return {d.word, d.value ? std::string(1, d.value) : ""}; }
};
std::pair<std::string, std::string> word(const pf::AttributeVariant& a) { return boost::apply_visitor(Word(), a); }
std::string pair_text(const pf::AttributeVariant& a) { auto w = word(a); return quote(w.first) + ":" + quote(w.second) + " "; }
std::string words(const std::vector<pf::AttributeVariant>& v) { std::string r = "["; for (auto& a : v) r += pair_text(a); return r + "]"; }
std::string verdict(bool ok, const std::string& msg) { return std::string(ok ? "true " : "false ") + quote(msg.empty() ? "<null>" : msg) + " "; }

struct Handle
{
    std::unique_ptr<pf::AllAttributesParser> f;
    std::unique_ptr<ph::AllAttributesParser> h;
    bool                                     ready = false;
    AllAttributesParserBase* base() { return f ? static_cast<AllAttributesParserBase*>(f.get()) : h.get(); }
    explicit operator bool() const { return f || h; }
};

pf::word_map grammar(const std::vector<std::string>& k, const std::vector<WordGrammarWrapper>& v)
{
    pf::word_map m;
    for (size_t i = 0; i < k.size(); ++i)
    {
        pf::WordGrammar g{};
        g.word = v[i].word;
        g.range_from = v[i].range_from;
        g.range_to = v[i].range_to;
        g.decimal_from = v[i].decimal_from;
        g.decimal_to = v[i].decimal_to;
        g.unique = v[i].unique;
        g.word_type = v[i].word_type;
        m[k[i]] = g;
    }
    return m;
}
pf::code_groups_map groups(const std::vector<std::string>& k, const std::vector<CodeGroupValue>& v, const std::vector<int>& l)
{
    pf::code_groups_map m;
    size_t              at = 0;
    for (size_t i = 0; i < k.size(); ++i)
        for (int j = 0; j < l[i]; ++j) m[v[at++]].insert(k[i]);
    return m;
}

struct DirectImpl : Direct
{
    std::vector<Handle> hs;

    void setnc(Handle& h, const std::string& text)
    {
        auto              s = settings(text);
        MachinePointsData p;
        for (size_t i = 0; i < s->bk.size(); ++i) p.machine_base_point[s->bk[i]] = s->bv[i];
        for (size_t i = 0; i < s->tk.size(); ++i) p.tool_exchange_point[s->tk[i]] = s->tv[i];
        Kinematics k{};
        auto&      w = s->kin;
        for (auto& a : s->axes) { AxisParameters x{}; x.range_min = a.range_min; x.range_max = a.range_max; k.cartesian_system_axis[a.axis] = x; }
        k.max_working_feed = w.max_working_feed;
        k.max_fast_feed = w.max_fast_feed;
        k.maximum_spindle_speed = w.maximum_spindle_speed;
        k.numer_of_items_in_the_warehouse = w.numer_of_items_in_the_warehouse;
        k.tool_exchange_time = w.tool_exchange_time;
        k.pallet_exchange_time = w.pallet_exchange_time;
        k.tool_measurement_time = w.tool_measurement_time;
        k.diameter_programming_2x = w.diameter_programming_2x;
        k.auto_measure_after_tool_selection = w.auto_measure_after_tool_selection;
        k.pallet_exchange_code = w.pallet_exchange_code;
        k.pallet_exchange_code_value = w.pallet_exchange_code_value;
        k.tool_measurement_code = w.tool_measurement_code;
        k.tool_measurement_code_value = w.tool_measurement_code_value;
        CncDefaultValues d = s->def;
        ZeroPoint        z = s->zero;
        h.base()->set_ncsettings(s->mt, s->mtt, std::move(p), std::move(k), std::move(d), std::move(z));
        h.ready = true;
    }
    std::string call(Handle& h, const HandleSpec& spec, const LOp& o)
    {
        auto              V = [&](size_t i, int64_t d) { return i < o.v.size() ? o.v[i] : d; };
        const std::string text = o.t.c_str();
        const bool        single = !o.m;
        std::string       msg;
        auto&             k = o.k;
        if (k == "create")
        {
            bool without = V(0, 0) != 0;
            ParserSettings ps = parser_settings(spec.bits);
            OtherSettings  os{spec.lang ? ELanguage::Polish : ELanguage::English};
            if (spec.driver == "heidenhain") h.h = std::make_unique<ph::AllAttributesParser>(std::move(ps), std::move(os), without);
            else
            {
                const Cfg&           c = cfg(spec.driver);
                pf::FanucWordGrammar g;
                g.metric = grammar(c.mk, c.mv);
                g.imperial = grammar(c.ik, c.iv);
                auto ops = c.ops;
                auto gg = groups(c.gk, c.gv, c.gl), mg = groups(c.ck, c.cv, c.cl);
                h.f = std::make_unique<pf::AllAttributesParser>(std::move(g), std::move(ops), std::move(gg), std::move(mg), std::move(ps), std::move(os), en<EFanucParserType>(spec.driver), without);
            }
            h.ready = false;
            return "ok";
        }
        if (k == "dispose") { h = Handle{}; return "done"; }
        if (k == "setnc") { setnc(h, o.t.empty() ? spec.settings : o.t); return "done"; }
        if (k == "setps") { h.base()->set_parser_settings(parser_settings(o.v.empty() ? spec.bits : static_cast<int>(o.v[0]))); return "done"; }
        if (k == "rmacros") { if (h.f) h.f->reset_macro_values(); return "done"; }
        if (k == "rpath") { h.base()->reset_attributes_path_calculator(); return "done"; }
        if (k == "rstart") { h.base()->set_renumber_start_value(static_cast<unsigned>(V(0, 1))); return "done"; }
        if (k == "rreset") { h.base()->renumber_reset(); return "done"; }
        if (k == "parse") { bool ok = h.base()->parse(o.l, text, msg, single); return verdict(ok, msg) + "done"; }
        if (k == "macros" || k == "lmacros")
        {
            std::vector<std::string> rows;
            std::string              r;
            if (h.f)
                for (auto& [key, v] : h.f->get_macro_values())
                    if (k == "macros") rows.push_back("#" + std::to_string(static_cast<int>(key.id)) + "@" + std::to_string(key.line) + "=" + num(v));
                    else if (key.line == o.l) rows.push_back("#" + std::to_string(static_cast<int>(key.id)) + "=" + num(v));
            std::sort(rows.begin(), rows.end());
            for (auto& x : rows) r += x + " ";
            return r;
        }
        if (k == "path")
        {
            const auto& p = h.base()->get_path_result();
            const auto& t = h.base()->get_time_result();
            std::string r = "path " + num(p.total) + " " + num(p.work_motion) + " " + num(p.fast_motion) + " " + num(p.tool_total) + " " + quote(p.tool_id);
            r += " time " + num(t.total) + " " + num(t.work_motion) + " " + num(t.fast_motion) + " " + num(t.tool_total) + " " + quote(t.tool_id);
            std::vector<std::string> rows;
            if (h.f) for (auto& [w, v] : h.f->get_word_range()) rows.push_back(" " + std::string(w.c_str()) + ":" + num(std::get<0>(v)) + "," + num(std::get<1>(v)) + "," + num(std::get<2>(v)));
            std::sort(rows.begin(), rows.end());
            for (auto& x : rows) r += x;
            return r + " unit " + std::to_string(static_cast<int>(h.base()->get_unit_system()));
        }
        if (k == "split" || k == "splits")
        {
            std::vector<std::string> lines;
            std::string              l;
            for (char ch : o.t) if (ch == '\n') { lines.push_back(l.c_str()); l.clear(); } else l += ch;
            if (!l.empty()) lines.push_back(l.c_str());
            FileSplitting fs{};
            fs.type = static_cast<FileSplittingType>(V(0, 0));
            fs.step = static_cast<int>(V(1, 5));
            fs.time = static_cast<int>(V(2, 5));
            fs.path = static_cast<int>(V(3, 5));
            fs.text = o.s.c_str();
            fs.rapid_traverse_only = V(4, 0) != 0;
            fs.retraction_plane = o.u.c_str();
            std::vector<std::vector<std::vector<pf::AttributeVariant>>> v;
            bool        ok = h.f ? h.f->split_file(std::move(lines), v, msg, single, fs) : false;
            std::string r = verdict(ok, msg), all = "[";
            if (k == "split")
            {
                for (auto& piece : v) r += std::to_string(piece.size()) + " ";
                r += "/ ";
                for (auto& piece : v) for (auto& b : piece) { r += std::to_string(b.size()) + " "; for (auto& a : b) all += pair_text(a); }
                return r + all + "]";
            }
            for (auto& piece : v)
            {
                std::string t;
                for (auto& b : piece)
                {
                    for (size_t i = 0; i < b.size(); ++i) { auto w = word(b[i]); t += (i ? " " : "") + w.first + w.second; }
                    t += "\r\n";
                }
                r += quote(t) + " ";
            }
            return r;
        }
        // calls that give the words of a line
        auto rewrite = [&](AttributeVariantData& out) -> bool {
            auto* p = h.base();
            if (k == "pval") return p->parse(o.l, text, out, msg, single);
            if (k == "conv") return p->convert_length(o.l, text, out, msg, single, static_cast<UnitConversionType>(V(0, 0)));
            if (k == "rnum") return p->remove_numbering(o.l, text, out, msg, single);
            if (k == "rot") return p->rotate_axes(o.l, text, out, msg, single, static_cast<AxesRotatingOption>(V(0, 0)));
            if (k == "rcom") return p->remove_comment(o.l, text, out, msg, single);
            if (k == "ropt") return p->remove_optional_block(o.l, text, out, msg, single);
            RenumberSettings rs{};
            rs.word = o.s.c_str();
            rs.step = static_cast<unsigned>(V(0, 1));
            rs.frequency = static_cast<unsigned>(V(1, 1));
            rs.max_number = static_cast<unsigned>(V(2, 9999));
            rs.existing_only = V(3, 0) != 0;
            rs.leading_zeroes = V(4, 0) != 0;
            return p->renumber(o.l, text, out, msg, single, rs);
        };
        if (h.f)
        {
            pf::FanucAttributeData d;
            bool                   ok = rewrite(d);
            return verdict(ok, msg) + words(d.value);
        }
        // of a Heidenhain block only the verdict and the message are handed over
        ph::HeidenhainAttributeData d;
        bool                        ok = rewrite(d);
        return verdict(ok, msg) + "[]";
    }
    std::string op(const LPlan& p, const LOp& o) override
    {
        if (o.k == "mark") return "";
        hs.resize(p.handles.size());
        auto& h = hs[static_cast<size_t>(o.h)];
        if (o.k == "create" ? static_cast<bool>(h) : !h) return "not possible";
        if (!h.ready && o.k != "create" && o.k != "dispose" && o.k != "setnc") return "not configured";
        try { return call(h, p.handles[static_cast<size_t>(o.h)], o); }
        catch (const std::bad_alloc&) { return "E:bad_alloc"; }
        catch (const std::exception& e) { return std::string("E:") + e.what(); }
        catch (...) { return "E:other"; }
    }
};
} // namespace

std::unique_ptr<Direct> make_direct() { return std::make_unique<DirectImpl>(); }
} // namespace sim
