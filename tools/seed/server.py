import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import mk
H = "nclangsrv/JsonMessageHandler.cpp"
PRE = 'import sys\nsys.dont_write_bytecode = True\nfrom lsp import *\n'

mk("c04-static-previous-total", "C04",
   "two analyses in one session where the first motion of the second ends at the total time the first one ended with",
   "the total time of the previous analysis is remembered, so a lens of the next analysis is missing",
   [("nclangsrv/NCParser.cpp", "    double                   prev_time_total{};", "    static double            prev_time_total{};"),
    ("nclangsrv/NCParser.cpp", "            if (tr.total != prev_time_total /*|| pr.fast_motion != 0 || pr.work_motion != 0*/)",
     "            if (tr.total > 0 && tr.total != prev_time_total /*|| pr.fast_motion != 0 || pr.work_motion != 0*/)")],
   PRE + '''
s = Server("--calculate-path=1")
t = "G90 G0 X100.\\n"
s.open("file:///a", t); a = s.lens("file:///a")
s.open("file:///b", t); b = s.lens("file:///b")
check([x["command"] for x in a] == [x["command"] for x in b], "the same text got other lenses the second time: %r / %r" % (a, b))
''')

mk("c02-duplicate-macro-completions", "C02",
   "a user macro description file that describes a macro the built-in file describes too",
   "completion offers such a macro twice",
   [("nclangsrv/MacrosDescReader.h", "    std::unordered_set<std::string>                      mMacros;",
     "    std::vector<std::string>                             mMacros;"),
    ("nclangsrv/MacrosDescReader.h", "const std::unordered_set<std::string>& getMacros() const", "const std::vector<std::string>& getMacros() const"),
    ("nclangsrv/MacrosDescReader.cpp", "            mMacros.insert(code);", "            mMacros.push_back(code);")],
   PRE + '''
import tempfile
f = tempfile.NamedTemporaryFile("w", suffix=".json"); json.dump({"descriptions": {"3000": {"mine": "my alarm"}, "77": {"x": "y"}}}, f); f.flush()
s = Server(macros=f.name)
s.open("file:///a", "#3000=1\\n")
l = [x["label"] for x in s.req("textDocument/completion") if x["label"].startswith("#")]
check("#77" in l and len(l) == len(set(l)), "a macro is offered more than once")
''')

mk("c03-results-kept-while-erroneous", "C03",
   "a change that makes a document erroneous after it has been analysed without errors, then a hover of a macro or a lens query",
   "macro values and lenses of the last correct text are reported for the current text",
   [(H, '''    std::tie(messages, fileContext.macroMap, fileContext.pathTimeResult) = mParser.parse(content);
''', '''    std::tie(messages, fileContext.macroMap, fileContext.pathTimeResult) = mParser.parse(content);

    // keep the last complete results while a program is being edited
    const auto previous = mFileContexts.find(uri);
    if (previous != mFileContexts.end() and not previous->second.macroMap.empty() and not messages.empty())
        fileContext.macroMap = previous->second.macroMap;
''')],
   PRE + '''
s = Server("--calculate-path=1")
s.open("file:///a", "#1=5\\n#2=#1\\n")
s.change("file:///a", "#1=7\\n#2=#1\\nX\\n")
h = s.hover("file:///a", 1, 4)
check("7" in h["contents"], "hover shows %r" % h)
''')

mk("c05-grammar-read-once", "C05",
   "a grammar file that is missing or torn when first read and complete later, or a second change while it is unreadable",
   "a grammar that could not be read is taken for read: later analyses run with an empty or partial grammar and never recover",
   [("nclangsrv/WordGrammarReader.cpp", '''    try
    {
        pt::ptree root;
        pt::read_json(mPath, root);

        mWordGrammar.metric.clear();''', '''    // do not parse the file again with every change
    mRead = true;

    try
    {
        pt::ptree root;
        pt::read_json(mPath, root);

        mWordGrammar.metric.clear();'''),
    ("nclangsrv/WordGrammarReader.cpp", '''        return false;
    }

    mRead = true;

    return true;''', '''        return false;
    }

    return true;''')],
   PRE + '''
s = Server()
g = os.path.join(s.dir, "conf/fanuc_mill/grammar.json")
os.rename(g, g + ".x")
d = s.open("file:///a", "G0 X1\\n")
check(d, "no diagnostic for a missing grammar")
d = s.change("file:///a", "G0 X2\\n")
check(d and "grammar" in json.dumps(d), "no diagnostic for a grammar that is still missing: %r" % d)
os.rename(g + ".x", g)
d = s.change("file:///a", "G0 X3\\n")
check(d == [], "not recovered: %r" % d)
''')

mk("c06-builtin-overrides-user", "C06",
   "a user macro description file that overrides a built-in description",
   "the built-in description wins over the user's one",
   [("nclangsrv/MacrosDescReader.cpp", "                mData.emplace(std::make_pair(code, std::make_pair(title, desc.get_value<std::string>())));",
     "                mData[code] = std::make_pair(title, desc.get_value<std::string>());")],
   PRE + '''
import tempfile
f = tempfile.NamedTemporaryFile("w", suffix=".json"); json.dump({"descriptions": {"3000": {"mine": "my alarm"}}}, f); f.flush()
s = Server(macros=f.name)
s.open("file:///a", "#1=1\\n#3000=1\\n")
r = s.req("completionItem/resolve", {"label": "#3000"})
check(r["detail"] == "mine", "the user's description does not win: %r" % r)
''')

mk("c07-log-exceptions", "C07",
   "a log file whose writes fail (full disk) while the server runs",
   "a failing write to the log ends the server",
   [("nclangsrv/Logger.cpp", '''    : ostr(path.c_str(), std::ios::app)
{
}''', '''    : ostr(path.c_str(), std::ios::app)
{
    // notice a full disk instead of losing entries silently
    if (ostr)
        ostr.exceptions(std::ios::badbit);
}''')],
   PRE + '''
s = Server(log="/dev/full")
d = s.open("file:///a", "G0 X1\\n")
check(s.req("textDocument/codeLens", {"textDocument": {"uri": "file:///b"}}) is None, "no answer")
''')

mk("c08-hover-line-signed", "C08",
   "a hover request with a negative line number",
   "the server reads outside of the lines of the document and dies",
   [(H, "    else if (it->second.contentLines.size() <= static_cast<size_t>(line))",
        "    else if (static_cast<int>(it->second.contentLines.size()) <= line)")],
   PRE + '''
s = Server()
s.open("file:///a", "G0 X1\\n")
for n in (-1, -5, -100000, -2000000000):
    s.hover("file:///a", n, 0)
check(s.hover("file:///a", 0, 0), "no answer")
''')

mk("c10-shutdown-sleeps-until-wall-clock", "C10",
   "a wall clock set back while the server waits after having answered shutdown",
   "the server stays alive until the wall clock has caught up, an hour or more",
   [(H, "    std::this_thread::sleep_for(1s); // wait for client to receive the response",
        "    std::this_thread::sleep_until(std::chrono::system_clock::now() + 1s); // wait for client to receive the response")],
   "", lsp=False, extra={
   "lsp.py": open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "lsp.py")).read(),
   "demo.py": PRE + '''
s = Server(env={"LD_PRELOAD": sys.argv[1]})
s.open("file:///a", "G0 X1\\n")
s.req("shutdown")
try:
    s.p.wait(8)
except subprocess.TimeoutExpired:
    s.kill()
    check(False, "still running after shutdown")
''',
   "clock.c": '''#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
/* the wall clock is set back by an hour by an operator 5 ms after each look at it */
static long shift;
int clock_gettime(clockid_t id, struct timespec* t)
{
    int r = syscall(SYS_clock_gettime, id, t);
    if (id == CLOCK_REALTIME) { t->tv_sec -= shift; shift += 3600; }
    return r;
}
''',
   "demo.sh": '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 0
trap 'rm -rf "$w"' EXIT
gcc -shared -fPIC -o "$w/clock.so" "$d/clock.c" || exit 0
python3 "$d/demo.py" "$w/clock.so"
'''})
os.chmod
mk("c11-pause-between-lines", "C11",
   "a document of several thousand lines",
   "the time until a document is answered grows by a millisecond per line",
   [("nclangsrv/NCParser.cpp", "        ++line_nbr;\n\n        if (data.empty())\n            continue;",
     "        ++line_nbr;\n\n        // leave some time to the other processes while a program is analysed\n        std::this_thread::sleep_for(std::chrono::milliseconds(1));\n\n        if (data.empty())\n            continue;"),
    ("nclangsrv/NCParser.cpp", "#include <string_view>\n", "#include <chrono>\n#include <string_view>\n#include <thread>\n")],
   PRE + '''
s = Server()
t0 = time.monotonic(); s.open("file:///a", "\\n" * 9000); t = time.monotonic() - t0
check(t < 6, "%.1f s for empty lines" % t)
''')

mk("c12-log-repaired-at-start", "C12",
   "a server killed in the middle of writing a log line, then started again",
   "the partly written line, which belongs to the log of the earlier session, is cut off",
   [("nclangsrv/Logger.cpp", '''Logger::Logger(const std::string& path)
    : ostr(path.c_str(), std::ios::app)
{
}''', '''namespace {

// a line left incomplete by a crash would be continued by the first entry of this session
const std::string& repaired(const std::string& path)
{
    std::error_code ec;
    const auto      size = std::filesystem::file_size(path, ec);
    if (ec or size == 0)
        return path;

    std::ifstream in(path, std::ios::binary);
    auto          end = size;
    char          c{};
    while (end > 0 and in.seekg(static_cast<std::streamoff>(end) - 1).get(c) and c != '\\n')
        --end;
    if (in and end != size)
        std::filesystem::resize_file(path, end, ec);

    return path;
}

} // namespace

Logger::Logger(const std::string& path)
    : ostr(repaired(path).c_str(), std::ios::app)
{
}'''), ("nclangsrv/Logger.cpp", "#include <ctime>\n", "#include <ctime>\n#include <filesystem>\n")],
   PRE + '''
import tempfile
d = tempfile.mkdtemp(); atexit.register(shutil.rmtree, d, True)
l = os.path.join(d, "log"); old = b"[2024-01-01 00:00:00] main: one\\n[2024-01-01 00:00:01] main: {\\"jsonr"
open(l, "wb").write(old)
s = Server(log=l)
s.open("file:///a", "G0 X1\\n"); s.kill()
check(open(l, "rb").read().startswith(old), "the log of the earlier session was changed")
''')

mk("c13-log-rotation", "C13",
   "a log of more than four megabytes left by earlier sessions",
   "the server renames the log file, replacing an older file next to it",
   [("nclangsrv/Logger.cpp", '''Logger::Logger(const std::string& path)
    : ostr(path.c_str(), std::ios::app)
{
}''', '''namespace {

const std::string& rotated(const std::string& path)
{
    std::error_code ec;
    const auto      size = std::filesystem::file_size(path, ec);
    if (not ec and size > 4 * 1024 * 1024)
        std::filesystem::rename(path, path + ".old", ec);

    return path;
}

} // namespace

Logger::Logger(const std::string& path)
    : ostr(rotated(path).c_str(), std::ios::app)
{
}'''), ("nclangsrv/Logger.cpp", "#include <ctime>\n", "#include <ctime>\n#include <filesystem>\n")],
   PRE + '''
import tempfile
d = tempfile.mkdtemp(); atexit.register(shutil.rmtree, d, True)
l = os.path.join(d, "log"); open(l, "wb").write(b"[2024-01-01 00:00:00] main: one\\n" * 200000)
s = Server(log=l)
s.open("file:///a", "G0 X1\\n"); s.kill()
check(os.listdir(d) == ["log"], "files: %r" % os.listdir(d))
''')
