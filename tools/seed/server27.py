import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import mk
H = "nclangsrv/JsonMessageHandler.cpp"
N = "nclangsrv/NCParser.cpp"
C = "nclangsrv/CodesReader.cpp"
M = "nclangsrv/MacrosDescReader.cpp"
PRE = '''import os, sys
sys.dont_write_bytecode = True
from lsp import *
def rss(s):
    return int(open("/proc/%d/statm" % s.p.pid).read().split()[1]) * os.sysconf("SC_PAGE_SIZE") >> 20
'''

mk("c27-times-memoized", "C27",
   "a long session with path calculation, in which the times computed keep changing",
   "every formatted time is kept for the rest of the session",
   [(N, "std::string formatPathTimeResult(const PathResult& pr, const TimeResult& tr, double total_work_motion_path,",
     "// the same times come again with every change of a document\nconst std::string& formattedTimeOf(double doubleSeconds)\n{\n    static std::map<double, std::string> formatted;\n    auto                                 it = formatted.find(doubleSeconds);\n    if (it == formatted.end())\n        it = formatted.emplace(doubleSeconds, formatTime(doubleSeconds)).first;\n    return it->second;\n}\n\nstd::string formatPathTimeResult(const PathResult& pr, const TimeResult& tr, double total_work_motion_path,"),
    (N, "        auto formattedTime = formatTime(tr.total);", "        auto formattedTime = formattedTimeOf(tr.total);"),
    (N, "        auto formattedTime = formatTime(total_fast_motion_time);", "        auto formattedTime = formattedTimeOf(total_fast_motion_time);"),
    (N, "        auto formattedTime = formatTime(total_work_motion_time);", "        auto formattedTime = formattedTimeOf(total_work_motion_time);")],
   PRE + '''
s = Server("--calculate-path=1")
def turn(k):
    s.open("file:///a", "G21 G90 G01 F100 X0\\n" + "".join("X%d.%03d\\n" % (j % 2 * 100, (j * 7 + k) % 1000) for j in range(8000)))
for k in range(4): turn(k)
a = rss(s)
for k in range(4, 20): turn(k)
b = rss(s)
check(b - a <= 8, "%d MB after 4 changes, %d MB after 20" % (a, b))
''')

mk("c27-analyses-kept", "C27",
   "many different contents analysed by one server",
   "the result of every analysis is kept for the rest of the session, with the content analysed",
   [(N, "std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser::parse(const std::string& code)\n{",
     "std::tuple<std::vector<std::string>, fanuc::macro_map, PathTimeResult> NCParser::parse(const std::string& code)\n{\n    // undo and redo bring back contents that have been analysed\n    const auto known = mAnalyses.find(code);\n    if (known != mAnalyses.end())\n        return known->second;\n"),
    (N, "    return std::make_tuple(messages, macro_m, pathTimeResult);", "    return mAnalyses[code] = std::make_tuple(messages, macro_m, pathTimeResult);"),
    ("nclangsrv/NCParser.h", "    parser::ELanguage ", "    std::map<std::string, std::tuple<std::vector<std::string>, parser::fanuc::macro_map, PathTimeResult>> mAnalyses;\n    parser::ELanguage ")],
   PRE + '''
s = Server()
def turn(k):
    s.open("file:///a", "(%d)\\n" % k + "(a comment)\\n" * 60000)
for k in range(4): turn(k)
a = rss(s)
for k in range(4, 34): turn(k)
b = rss(s)
check(b - a <= 8, "%d MB after 4 changes, %d MB after 34" % (a, b))
''')

mk("c27-tree-of-a-bad-file-lost", "C27",
   "a user macro description file that is valid JSON but lacks what the server looks for, during a long session",
   "every attempt to read it loses the memory of the whole file",
   [(M, "        pt::ptree root;\n        pt::read_json(path, root);\n", "        auto* root = new pt::ptree; // large\n        pt::read_json(path, *root);\n"),
    (M, "        for (const auto& [code, titleDesc] : root.get_child(\"descriptions\"))", "        for (const auto& [code, titleDesc] : root->get_child(\"descriptions\"))"),
    (M, "            mMacros.insert(code);\n        }\n", "            mMacros.insert(code);\n        }\n        delete root;\n")],
   PRE + '''
import tempfile
d = tempfile.mkdtemp(prefix="seeded")
import atexit, shutil
atexit.register(shutil.rmtree, d, True)
open(d + "/m.json", "w").write('{"description": {' + ",".join('"%d": {"t": "%s"}' % (i, "x" * 50) for i in range(3000)) + "}}")
s = Server(macros=d + "/m.json")
for k in range(4): s.open("file:///a", "G0 X%d\\n" % k)
a = rss(s)
for k in range(4, 34): s.open("file:///a", "G0 X%d\\n" % k)
b = rss(s)
check(b - a <= 8, "%d MB after 4 changes, %d MB after 34" % (a, b))
''')

mk("c27-descriptor-of-a-bad-file-lost", "C27",
   "a description file that is not valid JSON, during a session with many requests",
   "every attempt to read it costs a file descriptor, until the server cannot open anything any more",
   [(C, "        pt::ptree root;\n        pt::read_json(mPath, root);\n", "        std::FILE* file = std::fopen(mPath.c_str(), \"rb\");\n        if (!file)\n            return false;\n        std::stringstream text;\n        char              buffer[4096];\n        while (const auto n = std::fread(buffer, 1, sizeof(buffer), file))\n            text.write(buffer, static_cast<std::streamsize>(n));\n        pt::ptree root;\n        pt::read_json(text, root);\n        std::fclose(file);\n"),
    (C, "#include \"CodesReader.h\"\n", "#include \"CodesReader.h\"\n\n#include <cstdio>\n#include <sstream>\n")],
   PRE + '''
s = Server()
p = s.dir + "/conf/fanuc_mill/desc/gcode_desc_en.json"
t = open(p).read()
open(p, "w").write(t[:len(t) // 2])
s.open("file:///a", "G0 X1\\n")
for k in range(3): s.hover("file:///a", 0, 1)
a = len(os.listdir("/proc/%d/fd" % s.p.pid))
for k in range(20): s.hover("file:///a", 0, 1)
b = len(os.listdir("/proc/%d/fd" % s.p.pid))
check(b == a, "%d descriptors after 3 hovers, %d after 23" % (a, b))
''')
