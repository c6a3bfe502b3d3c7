import os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from mk import mk
F = "parser/fanuc/"
SH = '''#!/bin/bash
# compiles demo.cpp against the built library
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 "$D/gen.py" conf/fanuc_mill > "$T/cfg.h" || exit 99
g++ -std=c++20 -O0 -w -I"$T" -I"$D" -Iparser -Iparser/fanuc -Iparser/heidenhain "$D/demo.cpp" -o "$T/demo" -Lvscode-client/out -lparser -Wl,-rpath,"$PWD/vscode-client/out" -pthread || exit 99
timeout 250 "$T/demo"
'''
def l(id, prop, needs, breaks, edits, demo):
    mk(id, prop, needs, breaks, [(F + f, a, b) for f, a, b in edits], SH, lsp=False,
       extra={"gen.py": open(D + "/lib/gen.py").read(), "h.h": open(D + "/lib/h.h").read(), "demo.cpp": '#include "h.h"\n' + demo})

OOM = '''#include <new>
static long countdown = -1;
void* operator new(size_t n) { if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
'''

l("c14-shared-message-buffer", "C14",
  "two threads that make a message without arguments at the same time, each with a handle of its own",
  "messages of one thread are mixed with those of another one, or the process crashes",
  [("MessageText.cpp", '''    std::string str;
    auto        it_msg''', '''    // most messages are short: keep the memory
    static std::string str;
    str.clear();
    auto        it_msg''')],
  '''
int main()
{
    std::string want[2];
    turns_on_rotation = true;
    const char* text[] = {"S1000", "S2000 M4"};
    for (int i = 0; i < 2; ++i) { Handle h = make(); want[i] = parse(h, 1, text[i]); DisposeAllAttributesParser(h); }
    std::vector<std::thread> t;
    for (int i = 0; i < 8; ++i)
        t.emplace_back([&, i] { Handle h = make(); for (int n = 0; n < 20000; ++n) { ResetMacroValues(h); ResetPathValues(h); auto s = parse(h, 1, text[i % 2]); check(s == want[i % 2], "a thread got another result than alone"); } DisposeAllAttributesParser(h); });
    for (auto& x : t) x.join();
    return 0;
}
''')

l("c14-last-word-remembered", "C14",
  "two threads that parse blocks with different words at the same time, each with a handle of its own",
  "system macros of one thread's program are those of a word of the other thread's program",
  [("SystemMacroAssigner.cpp", '''        if (word_macros_map.count(data.word))
            macro_value_inserter(word_macros_map.find(data.word)->second);
''', '''        // the same words come again and again: remember the last one
        static auto last = word_macros_map.cend();
        if (last == word_macros_map.cend() || last->first != data.word)
            last = word_macros_map.find(data.word);
        if (last != word_macros_map.cend())
            macro_value_inserter(last->second);
''')],
  '''
static std::string macros(Handle h)
{
    int *id = nullptr, *ln = nullptr, n = 0; double* v = nullptr; double sum = 0; int c = 0;
    GetMacroValues(h, &id, &ln, &v, &n);
    double at[5000] = {};
    for (int i = 0; i < n; ++i) if (id[i] >= 4000 && id[i] < 5000) { at[id[i]] = v[i]; ++c; }
    DisposeMacroValues(id, ln, v);
    char b[100]; snprintf(b, sizeof b, "%d %g %g %g %g", c, at[4109], at[4113], at[4114], at[4119]);
    return b;
}
static std::string run(Handle h, int k) { ResetMacroValues(h); parse(h, 1, k ? "N5 G90 M3 S1000" : "N7 G1 F200 S500 F200"); return macros(h); }
int main()
{
    std::string want[2];
    { Handle h = make(0x3); for (int i = 0; i < 2; ++i) want[i] = run(h, i); DisposeAllAttributesParser(h); }
    std::vector<std::thread> t;
    for (int i = 0; i < 8; ++i)
        t.emplace_back([&, i] { Handle h = make(0x3); for (int n = 0; n < 6000; ++n) check(run(h, i % 2) == want[i % 2], "a thread got other macro values than alone"); DisposeAllAttributesParser(h); });
    for (auto& x : t) x.join();
    return 0;
}
''')

l("c15-split-keeps-its-settings", "C15",
  "an allocation that fails while a file is split by path or time",
  "the handle keeps the parser settings of the splitting, later programs are checked less",
  [("AllAttributesParser.cpp", '''                if (!tmp.empty() && !parse(x, data[x], v, message, single_line_msg, {true, false, true}))
                    return false;
''', '''                const auto own_settings = parser_settings;
                parser_settings         = {true, false, true};
                const bool parsed       = tmp.empty() || parse(x, data[x], v, message, single_line_msg);
                parser_settings         = own_settings;
                if (!parsed)
                    return false;
''')],
  OOM + '''
static char e[] = "";
static void split(Handle h)
{
    FileSplittingWrapper fs{FileSplittingType::work_motion_path, 50, 50, 50, e, false, e};
    const char* lines[] = {"T1 M6", "G90 G0 X0. Y0. Z0.", "M3 S1000", "G1 X100. F100", "G1 X200."};
    char** v = nullptr; int n = 0; char* m = nullptr;
    try { SplitFileString(h, &fs, lines, 5, &v, &n, &m, true); } catch (const std::bad_alloc&) { return; }
    countdown = -1;
    DisposeSplitFileString(v, n); DisposeCharArray(m);
}
int main()
{
    Handle h = make();
    const std::string want = parse(h, 1, "G0 G1 X1. F1");
    check(want.substr(0, 3) == "bad", "precondition");
    for (long k = 0; k < 3000; k += 1)
    {
        countdown = k; split(h); countdown = -1;
        ResetMacroValues(h); ResetPathValues(h); RenumberReset(h);
        check(parse(h, 1, "G0 G1 X1. F1") == want, "after a failed allocation the handle accepts another block");
    }
    DisposeAllAttributesParser(h);
    return 0;
}
''')

l("c15-renumber-must-not-fail", "C15",
  "an allocation that fails while a block is renumbered",
  "the process ends instead of the call",
  [("Renumberer.h", "void renumber(std::vector<AttributeVariant>& value, const RenumberSettings& renumber_settings);",
    "void renumber(std::vector<AttributeVariant>& value, const RenumberSettings& renumber_settings) noexcept;"),
   ("Renumberer.cpp", "void Renumberer::renumber(std::vector<AttributeVariant>& value, const RenumberSettings& renumber_settings)\n",
    "void Renumberer::renumber(std::vector<AttributeVariant>& value, const RenumberSettings& renumber_settings) noexcept\n")],
  OOM + '''
static char n[] = "N";
int main()
{
    Handle h = make();
    for (long k = 0; k < 20000; ++k)
    {
        RenumberSettingsWrapper rs{n, 1, 1, 9999, false, false};
        WordValueWrapper* v = nullptr; int len = 0; char* m = nullptr;
        countdown = k;
        try { Renumber(h, 1, "G1 X100. Y200. Z300.", &v, &len, &m, true, &rs); countdown = -1; DisposeWordValueWrapper(v, len); DisposeCharArray(m); } catch (const std::bad_alloc&) {}
        countdown = -1;
    }
    DisposeAllAttributesParser(h);
    return 0;
}
''')

l("c16-empty-comment-underrun", "C16",
  "a block with an empty comment, whose words are fetched",
  "a byte before the handed out buffer is overwritten, releasing it corrupts the heap",
  [("AllAttributesParserWrapper.cpp", '''        if (data.word == "(")
            size += 1;
''', '''        if (data.word == "(" && !data.value.empty())
            size += 1;
''')],
  '''
#include <new>
static bool bad = false;
void* operator new[](size_t n) { char* p = (char*)malloc(n + 32); memcpy(p, &n, 8); memset(p + 8, 0x77, 8); return p + 16; }
void operator delete[](void* q) noexcept { if (!q) return; char* p = (char*)q - 16; for (int i = 8; i < 16; ++i) if (p[i] != 0x77) bad = true; free(p); }
void operator delete[](void* q, size_t) noexcept { operator delete[](q); }
int main()
{
    Handle h = make(0);
    for (const char* t : {"G1 (comment)", "G1 ()", "()"})
    {
        words([&](auto v, auto n, auto m) { return ParseValue(h, 1, t, v, n, m, true); });
        check(!bad, "memory before a handed out buffer was overwritten");
    }
    DisposeAllAttributesParser(h);
    return 0;
}
''')

l("c16-errors-remembered", "C16",
  "a session with many different erroneous blocks",
  "the library remembers the message of every erroneous block it ever saw",
  [("AllAttributesParser.cpp", '''bool AllAttributesParser::simple_parse(''', '''// the same error is often asked for again and again while it is being corrected
static thread_local std::map<std::string, std::string> known_errors;

bool AllAttributesParser::simple_parse('''),
   ("AllAttributesParser.cpp", '''        size_t column = get_column(pos_begin, e.first);
        message       = all_attr_grammar->get_message();
''', '''        size_t column = get_column(pos_begin, e.first);
        message       = all_attr_grammar->get_message();
        known_errors.try_emplace(std::string(data), message);
''')],
  '''
#include <malloc.h>
int main()
{
    size_t last = 0;
    for (int round = 0; round < 4; ++round)
    {
        Handle h = make();
        for (int i = 0; i < 20000; ++i) words([&](auto v, auto n, auto m) { return RemoveComment(h, 1, ("G1 X[" + std::to_string(round * 20000 + i) + "+ Y1 ((").c_str(), v, n, m, true); });
        DisposeAllAttributesParser(h);
        size_t now = mallinfo2().uordblks;
        check(!last || now < last + 200000, "memory grows with the number of calls");
        last = now;
    }
    return 0;
}
''')

l("c17-helix-survives-reset", "C17",
  "a program that is abandoned inside a helix, and a next one that begins with an arc",
  "the first arcs of the next program are computed as turns of the helix of the abandoned one",
  [("AttributesPathCalculator.cpp", '''    active_helix     = EHelixType::None;
    active_t.clear();
    active_auto''', '''    active_t.clear();
    active_auto''')],
  '''
static std::string arc(Handle h)
{
    std::string s;
    const char* t[] = {"T1 M6", "G90 G17 G0 X0. Y0. Z0.", "M3 S1000", "G1 X10. Y0. Z0. F100", "G2 X20. Y10. I10. J0. F100", "G1 X0. Y0."};
    for (int i = 0; i < 6; ++i) { s += parse(h, i + 1, t[i]) + "|"; s += path(h) + "\\n"; }
    return s;
}
int main()
{
    Handle h = make();
    std::string want = arc(h);
    DisposeAllAttributesParser(h);
    for (const char* helix : {"G2 X0. Y0. Z-5. I10. J0. K5. F100", "G2 X10. Y10. Z-5. I10. J0. K5. F100", "G2 X10. Y10. Z-5. R10. F100"})
    {
        h = make();
        const char* t[] = {"T1 M6", "G90 G17 G0 X0. Y0. Z0.", "M3 S1000", "G1 X0. Y0. Z0. F100", helix};
        for (int i = 0; i < 5; ++i) parse(h, i + 1, t[i]);
        ResetMacroValues(h); ResetPathValues(h); RenumberReset(h);
        std::string got = arc(h);
        check(got == want, (std::string(helix) + ": a program is analysed differently after an abandoned helix\\n" + got + want).c_str());
        DisposeAllAttributesParser(h);
    }
    return 0;
}
''')

l("c17-renumber-frequency-survives", "C17",
  "numbering with a frequency above one that is abandoned between two numbers",
  "the first blocks of the next program stay without a number",
  [("Renumberer.h", '''        counter           = 1;
        current_frequency = 0;
''', '''        counter = 1;
''')],
  '''
static char N_[] = "N";
static std::string num(Handle h, const char* t, unsigned f) { RenumberSettingsWrapper rs{N_, f, 10, 9999, false, false}; return words([&](auto v, auto n, auto m) { return Renumber(h, 1, t, v, n, m, true, &rs); }); }
int main()
{
    Handle h = make();
    std::string a = num(h, "G1 X1.", 3);
    RenumberReset(h);
    std::string b = num(h, "G1 X1.", 3);
    if (a != b) { fprintf(stderr, "FAILED: %s / %s\\n", a.c_str(), b.c_str()); return 1; }
    return 0;
}
''')

l("c18-remove-numbering-restarts", "C18",
  "removing a block number between two blocks that are renumbered with a frequency above one",
  "the renumbering numbers a block it should leave alone",
  [("Renumberer.cpp", '''    if (itor != std::end(conv_words))
        value.erase(value.begin());
}''', '''    if (itor != std::end(conv_words))
    {
        value.erase(value.begin());
        current_frequency = 0; // the next number starts anew
    }
}''')],
  '''
static char N_[] = "N";
static std::string num(Handle h) { RenumberSettingsWrapper rs{N_, 3, 10, 9999, false, false}; return words([&](auto v, auto n, auto m) { return Renumber(h, 1, "G1 X1.", v, n, m, true, &rs); }); }
int main()
{
    Handle h = make();
    RenumberReset(h);
    std::string want;
    for (int i = 0; i < 4; ++i) want += num(h);
    RenumberReset(h);
    std::string got = num(h);
    words([&](auto v, auto n, auto m) { return RemoveNumbering(h, 1, "N5 G1", v, n, m, true); });
    for (int i = 0; i < 3; ++i) got += num(h);
    check(got == want, "removing a number changed the numbering of other blocks");
    return 0;
}
''')

l("c18-convert-selects-units", "C18",
  "a G20 or G21 block converted between two parsed blocks of another unit system",
  "the unit system of the parsed program changes",
  [("AllAttributesParser.cpp", '''            unit_converter.mm_to_inch(value);
            break;''', '''            unit_converter.mm_to_inch(value);
            GrammarSelector()(word_grammar, active_word_grammar, value);
            break;''')],
  '''
int main()
{
    Handle h = make();
    parse(h, 1, "G90 G0 X1.");
    std::string a = path(h);
    words([&](auto v, auto n, auto m) { return ConvertLength(h, 1, "G21 X100.", v, n, m, true, UnitConversionType::metric_to_imperial); });
    std::string b = path(h);
    check(a == b, "converting a block changed the unit system of the program");
    return 0;
}
''')
