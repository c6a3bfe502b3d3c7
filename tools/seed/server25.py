import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import mk
H = "nclangsrv/JsonMessageHandler.cpp"
N = "nclangsrv/NCParser.cpp"
PRE = 'import sys\nsys.dont_write_bytecode = True\nfrom lsp import *\n'

mk("c25-repeated-line-skipped", "C25",
   "path calculation and a program that repeats an incremental motion on the next line",
   "a line equal to the one before it is not given to the parser again, so repeated incremental motions are missing in the lenses",
   [(N, "    size_t                   line_err{};\n", "    size_t                   line_err{};\n    std::string              last_good;\n"),
    (N, "        if (data.empty())\n            continue;\n", "        if (data.empty())\n            continue;\n\n        // nothing new in a repeated block\n        if (!convert_length && !rotate && data == last_good)\n            continue;\n"),
    (N, "        if (!ret)\n        {\n            ++line_err;", "        last_good = ret ? data : std::string();\n\n        if (!ret)\n        {\n            ++line_err;")],
   PRE + '''
s = Server("--calculate-path=1")
s.open("file:///a", "G21 G91 G0 X10\\nX5\\nX5\\nX5\\n"); a = [(x["range"]["start"]["line"], x["command"]["title"].split("|")[1]) for x in s.lens("file:///a")]
check([x[0] for x in a] == [0, 1, 2, 3], "lenses %r" % a)
check("25.00" in a[-1][1], "lenses %r" % a)
''')

mk("c25-value-at-line-before", "C25",
   "a line that assigns a variable and uses it in a G or M word, and a hover over that word",
   "the hover shows the value the variable had before the line",
   [(H, "                auto itm = macroMap->lower_bound({macroId, line + 1});", "                auto itm = macroMap->lower_bound({macroId, line});")],
   PRE + '''
s = Server()
s.open("file:///a", "#100=4\\n#100=3\\nM#100\\n#100=5\\n")
a = s.hover("file:///a", 2, 0)["contents"]
check("(M3)" in a, a)
s.open("file:///b", "#100=4\\n#101=#100 #100=3\\n#102=#101+G#100\\n")
t = "#100=4\\nM#100 #100=3\\n"
s.open("file:///c", t)
s.open("file:///d", "#100=4 M#100\\n"); b = s.hover("file:///d", 0, 7)
check(b and "(M4)" in b["contents"], b)
''')

mk("c25-second-range-lost", "C25",
   "a hover over a variable in the second of the two ranges of a description (#10005)",
   "the second range of a description is ignored",
   [("nclangsrv/MacrosDescReader.cpp", "if (std::regex_search(desc, m, r2) or std::regex_search(desc, m, r1))", "if (std::regex_search(desc, m, r1) or std::regex_search(desc, m, r2))")],
   PRE + '''
s = Server()
s.open("file:///a", "#10005=1\\n#2005=1\\n")
a = s.hover("file:///a", 1, 1)["contents"]; b = s.hover("file:///a", 0, 1)["contents"]
check("Tool compensation" in a, a)
check("Tool compensation" in b, b)
''')

mk("c25-diagnostics-capped", "C25",
   "a document with more than a hundred erroneous lines",
   "only the first hundred problems are reported",
   [(H, "        for (const auto& error_message : messages)\n        {", "        constexpr size_t max_problems = 100; // enough to work on\n        if (messages.size() > max_problems)\n            messages.resize(max_problems);\n\n        for (const auto& error_message : messages)\n        {")],
   PRE + '''
s = Server()
for n in (3, 99, 101, 150):
    a = s.open("file:///a%d" % n, "".join("X%d ?\\n" % i for i in range(n)))
    check(len(a) == n, "%d diagnostics for %d erroneous lines" % (len(a), n))
''')

mk("c25-column-without-indentation", "C25",
   "an erroneous line that begins with blanks",
   "the diagnostic's column is too small by the number of leading blanks",
   [(N, "        ++line_nbr;\n\n        if (data.empty())", "        ++line_nbr;\n\n        data.remove_prefix(std::min(data.find_first_not_of(\" \\t\"), data.size())); // indentation\n        if (data.empty())")],
   PRE + '''
s = Server()
a = s.open("file:///a", "G0 X1 ?\\n    G0 X1 ?\\n")
c = [x["range"]["start"]["character"] for x in a]
check(len(c) == 2 and c[1] == c[0] + 4, "columns %r" % c)
''')
