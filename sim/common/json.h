// Small strict JSON reader/writer, independent of the one the code under test uses.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>
struct J
{
    enum T { Null, Bool, Num, Str, Arr, Obj } t = Null;
    bool                                b = false;
    std::string                         s; // string value, or the number's text
    std::vector<J>                      a;
    std::vector<std::pair<std::string, J>> o;
    J() = default;
    J(const char* v) : t(Str), s(v) {}
    J(const std::string& v) : t(Str), s(v) {}
    J(bool v) : t(Bool), b(v) {}
    J(int v) : t(Num), s(std::to_string(v)) {}
    J(int64_t v) : t(Num), s(std::to_string(v)) {}
    J(uint64_t v) : t(Num), s(std::to_string(v)) {}
    J(double v) : t(Num) { char q[64]; snprintf(q, sizeof q, "%.6g", v); s = q; }
    static J arr() { J j; j.t = Arr; return j; }
    static J obj() { J j; j.t = Obj; return j; }
    J& set(const std::string& k, J v) { t = Obj; for (auto& p : o) if (p.first == k) { p.second = std::move(v); return *this; } o.emplace_back(k, std::move(v)); return *this; }
    J& push(J v) { t = Arr; a.push_back(std::move(v)); return *this; }
    const J* get(const std::string& k) const { if (t != Obj) return nullptr; for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
    const J& at(const std::string& k) const { static const J n; auto p = get(k); return p ? *p : n; }
    bool has(const std::string& k) const { return get(k) != nullptr; }
    bool isint() const { return t == Num && s.find_first_of(".eE") == std::string::npos; }
    int64_t i(int64_t d = 0) const { return t == Num ? strtoll(s.c_str(), nullptr, 10) : d; }
    double  n(double d = 0) const { return t == Num ? strtod(s.c_str(), nullptr) : d; }
    std::string str(const std::string& d = "") const { return t == Str ? s : d; }
    static void esc(const std::string& v, std::string& r)
    {
        r += '"';
        for (unsigned char c : v)
        {
            switch (c)
            {
            case '"': r += "\\\""; break;
            case '\\': r += "\\\\"; break;
            case '\n': r += "\\n"; break;
            case '\r': r += "\\r"; break;
            case '\t': r += "\\t"; break;
            default:
                if (c < 32) { char q[8]; snprintf(q, sizeof q, "\\u%04x", c); r += q; }
                else r += static_cast<char>(c);
            }
        }
        r += '"';
    }
    void dump(std::string& r) const
    {
        switch (t)
        {
        case Null: r += "null"; break;
        case Bool: r += b ? "true" : "false"; break;
        case Num: r += s; break;
        case Str: esc(s, r); break;
        case Arr: { r += '['; bool f = true; for (auto& x : a) { if (!f) r += ','; f = false; x.dump(r); } r += ']'; break; }
        case Obj: { r += '{'; bool f = true; for (auto& x : o) { if (!f) r += ','; f = false; esc(x.first, r); r += ':'; x.second.dump(r); } r += '}'; break; }
        }
    }
    std::string dump() const { std::string r; dump(r); return r; }
    bool operator==(const J& x) const { return dump() == x.dump(); }

    // strict parse of a whole text; depth-limited
    static bool parse(const std::string& s, J& out)
    {
        size_t p = 0;
        if (!val(s, p, out, 0)) return false;
        ws(s, p);
        return p == s.size();
    }

private:
    static void ws(const std::string& s, size_t& p) { while (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\r')) ++p; }
    static void utf8(uint32_t c, std::string& r)
    {
        if (c < 0x80) r += static_cast<char>(c);
        else if (c < 0x800) { r += static_cast<char>(0xC0 | c >> 6); r += static_cast<char>(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += static_cast<char>(0xE0 | c >> 12); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
        else { r += static_cast<char>(0xF0 | c >> 18); r += static_cast<char>(0x80 | (c >> 12 & 63)); r += static_cast<char>(0x80 | (c >> 6 & 63)); r += static_cast<char>(0x80 | (c & 63)); }
    }
    static bool hex4(const std::string& s, size_t& p, uint32_t& c)
    {
        if (p + 4 > s.size()) return false;
        c = 0;
        for (int i = 0; i < 4; ++i)
        {
            char x = s[p++];
            c <<= 4;
            if (x >= '0' && x <= '9') c |= x - '0';
            else if (x >= 'a' && x <= 'f') c |= x - 'a' + 10;
            else if (x >= 'A' && x <= 'F') c |= x - 'A' + 10;
            else return false;
        }
        return true;
    }
    static bool strv(const std::string& s, size_t& p, std::string& r)
    {
        if (p >= s.size() || s[p] != '"') return false;
        ++p;
        while (p < s.size())
        {
            unsigned char c = s[p++];
            if (c == '"') return true;
            if (c < 32) return false;
            if (c != '\\') { r += static_cast<char>(c); continue; }
            if (p >= s.size()) return false;
            char e = s[p++];
            switch (e)
            {
            case '"': r += '"'; break;
            case '\\': r += '\\'; break;
            case '/': r += '/'; break;
            case 'b': r += '\b'; break;
            case 'f': r += '\f'; break;
            case 'n': r += '\n'; break;
            case 'r': r += '\r'; break;
            case 't': r += '\t'; break;
            case 'u': {
                uint32_t c1, c2;
                if (!hex4(s, p, c1)) return false;
                if (c1 >= 0xD800 && c1 < 0xDC00)
                {
                    if (p + 2 > s.size() || s[p] != '\\' || s[p + 1] != 'u') return false;
                    p += 2;
                    if (!hex4(s, p, c2) || c2 < 0xDC00 || c2 > 0xDFFF) return false;
                    c1 = 0x10000 + ((c1 - 0xD800) << 10) + (c2 - 0xDC00);
                }
                utf8(c1, r);
                break;
            }
            default: return false;
            }
        }
        return false;
    }
    static bool val(const std::string& s, size_t& p, J& v, int depth)
    {
        if (depth > 2000) return false;
        ws(s, p);
        if (p >= s.size()) return false;
        char c = s[p];
        if (c == '{')
        {
            v.t = Obj; ++p; ws(s, p);
            if (p < s.size() && s[p] == '}') { ++p; return true; }
            for (;;)
            {
                ws(s, p);
                std::string k;
                if (!strv(s, p, k)) return false;
                ws(s, p);
                if (p >= s.size() || s[p] != ':') return false;
                ++p;
                J x;
                if (!val(s, p, x, depth + 1)) return false;
                v.o.emplace_back(std::move(k), std::move(x));
                ws(s, p);
                if (p < s.size() && s[p] == ',') { ++p; continue; }
                if (p < s.size() && s[p] == '}') { ++p; return true; }
                return false;
            }
        }
        if (c == '[')
        {
            v.t = Arr; ++p; ws(s, p);
            if (p < s.size() && s[p] == ']') { ++p; return true; }
            for (;;)
            {
                J x;
                if (!val(s, p, x, depth + 1)) return false;
                v.a.push_back(std::move(x));
                ws(s, p);
                if (p < s.size() && s[p] == ',') { ++p; continue; }
                if (p < s.size() && s[p] == ']') { ++p; return true; }
                return false;
            }
        }
        if (c == '"') { v.t = Str; return strv(s, p, v.s); }
        if (s.compare(p, 4, "true") == 0) { v.t = Bool; v.b = true; p += 4; return true; }
        if (s.compare(p, 5, "false") == 0) { v.t = Bool; v.b = false; p += 5; return true; }
        if (s.compare(p, 4, "null") == 0) { v.t = Null; p += 4; return true; }
        size_t q = p;
        if (q < s.size() && s[q] == '-') ++q;
        auto dig = [&] { size_t z = q; while (q < s.size() && s[q] >= '0' && s[q] <= '9') ++q; return q > z; };
        if (q < s.size() && s[q] == '0') ++q;
        else if (!dig()) return false;
        if (q < s.size() && s[q] == '.') { ++q; if (!dig()) return false; }
        if (q < s.size() && (s[q] == 'e' || s[q] == 'E')) { ++q; if (q < s.size() && (s[q] == '+' || s[q] == '-')) ++q; if (!dig()) return false; }
        v.t = Num; v.s = s.substr(p, q - p); p = q;
        return true;
    }
};
