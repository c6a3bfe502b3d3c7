#!/usr/bin/env python3
# mutate.py WHAT SECS OUT.jsonl [FILE...] : mutation survey of the simulators (development aid, not a check).
# Every mutant of the named sources (one small textual change each) is compiled, linked and searched for SECS seconds per
# property by one worker, until a property is violated.  Mutants that survive are listed in OUT.jsonl for inspection.
import json, os, random, re, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("REPO", "/repo")
WHAT, SECS, OUTF = sys.argv[1], sys.argv[2], sys.argv[3]
SEED = os.environ.get("SEED", "1")
LIMIT = int(os.environ.get("LIMIT", "100000"))
NW = int(os.environ.get("WORKERS", "8"))
PROPS = os.environ.get("PROPS", {"server": "C04 C03 C05 C06 C02 C09 C08 C01 C07 C10 C11 C12 C13", "lib": "C17 C16 C18 C15", "client": "C19 C20 C21 C22 C23 C24"}[WHAT]).split()
B = os.environ.get("BASE", "/tmp/mb." + WHAT)
W = "/tmp/mw." + WHAT
FLAGS = ("-std=c++20 -O1 -DNDEBUG -w -fPIC -ffile-prefix-map=%s=." % R).split()
INC = ["-I%s/parser" % R, "-I%s/parser/fanuc" % R, "-I%s/nclangsrv" % R]
OPS = [(r"==", "!="), (r"!=", "=="), (r"(?<![<\-])<(?![<=])", "<="), (r"<=(?!>)", "<"), (r"(?<![>\-])>(?![>=])", ">="), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b([2-9]\d*)\b(?!\.)", "(\\1-1)"), (r" \+ ", " - "), (r" - ", " + "), (r"\+=", "="), (r"!(?=[\w(])", "")]

def mutants(path):
    src = open(path, newline="").read()
    lines = src.split("\n")
    res = []
    def add(i, new, desc):
        res.append((path, i + 1, desc, i, new))
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("//", "#", "*", "/*", "using ", "namespace", "import ", "template", "static_assert", "typedef")):
            continue
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + "\x01" * (len(m.group(0)) - 2) + '"', l)
        code = code.split("//")[0]
        if s.endswith(";") and not s.startswith(("return", "break", "case", "}", "extern", "friend")) and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            add(i, l[:len(l) - len(l.lstrip())] + ";", "delete: " + s)
        if s in ("break;", "continue;", "return;"):
            add(i, l.replace(s, ";"), "delete: " + s)
        m = re.match(r"^(\s*(?:\} )?(?:else )?(?:if|while)\s*(?:constexpr\s*)?)\((.*)\)(\s*\{?\s*)$", l.rstrip("\r"))
        if m and "constexpr" not in m.group(1):
            add(i, "%s(!(%s))%s" % (m.group(1), m.group(2), m.group(3)), "negate: " + s)
            if "while" not in m.group(1):
                add(i, "%s((%s) || true)%s" % m.groups(), "always: " + s)
            add(i, "%s((%s) && false)%s" % m.groups(), "never: " + s)
        for a, b in OPS:
            if "template" in l or "#include" in l or (a.startswith("(?<!") and re.search(r"(map|vector|pair|cast|function|optional|ptr|tuple|set|array|get|Promise|holds_alternative|is_same\w*)<", code)):
                continue
            for mm in re.finditer(a, code):
                new = l[:mm.start()] + mm.expand(b) + l[mm.end():]
                add(i, new, "%s -> %s @%d: %s" % (mm.group(0), mm.expand(b), mm.start(), s))
    out = []
    for path, n, desc, i, new in res:
        t = lines[:]
        t[i] = new
        out.append((path, n, desc, "\n".join(t)))
    return out

def one(job):
    k, (path, n, desc, text) = job
    w = "%s/%d" % (W, k)
    os.makedirs(w, exist_ok=True)
    try:
        name = os.path.basename(path)
        if WHAT == "client":
            shutil.copytree(R + "/vscode-client/src", w + "/src")
            open(w + "/src/" + name, "w", newline="").write(text)
            shutil.copy(V + "/sim/client/client_sim.js", w)
            if subprocess.run(["node", V + "/sim/client/compile.js", w + "/src", w + "/extension"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                return None
            exe = ["node", w + "/client_sim.js"]
        else:
            f = w + "/" + name
            open(f, "w", newline="").write(text)
            rel = os.path.relpath(path, R).replace("/", "_")
            o = w + "/" + rel + ".o"
            fl = [x if x != "-O1" else "-O2" for x in FLAGS] if name.endswith("Reader.cpp") else FLAGS + ["-fsanitize-coverage=trace-pc"]
            if subprocess.run(["g++"] + fl + ["-I" + os.path.dirname(path)] + INC + ["-c", f, "-o", o], stderr=subprocess.DEVNULL).returncode:
                return None
            objs = os.listdir(B + "/obj")
            if WHAT == "server":
                subprocess.run(["objcopy", "--redefine-sym", "main=nclangsrv_main", o])
                first = sorted(x for x in objs if re.match(r"nclangsrv_.*Reader\.cpp\.o$", x))
                order = first + sorted(x for x in objs if x.startswith("parser_") and x.endswith(".o")) + sorted(x for x in objs if x.startswith("nclangsrv_") and x.endswith(".o") and x not in first) + sorted(x for x in objs if x.startswith("sim_") and x.endswith(".o")) + ["common_programs.o"]
                libs = ["-lboost_program_options", "-ldl"]
            else:
                order = sorted(x for x in objs if x.startswith("parser_") and x.endswith(".o")) + sorted(x for x in objs if x.startswith("lib_") and x.endswith(".o")) + ["common_programs.o"]
                libs = ["-ldl", "-lpthread"]
            exe = [w + "/sim"]
            if subprocess.run(["g++", "-rdynamic", "-o", exe[0]] + [o if x == rel + ".o" else B + "/obj/" + x for x in order] + libs, stderr=subprocess.DEVNULL).returncode:
                return None
        for p in PROPS:
            try:
                subprocess.run(exe + ["run", "--prop", p, "--seed", SEED, "--start", "0", "--step", "1", "--time", SECS, "--out", w + "/o.json", "--max-violations", "1", "--repo", R], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=float(SECS) * 10 + 120)
                d = json.load(open(w + "/o.json", errors="surrogateescape"))
                if d["violations"]:
                    v = d["violations"][0]
                    return {"file": os.path.relpath(path, R), "line": n, "m": desc, "by": p, "cls": v["cls"], "run": d["runs"]}
                os.unlink(w + "/o.json")
            except Exception as e:
                return {"file": os.path.relpath(path, R), "line": n, "m": desc, "by": p, "cls": "harness: " + repr(e)[:100]}
        return {"file": os.path.relpath(path, R), "line": n, "m": desc, "by": ""}
    finally:
        shutil.rmtree(w, ignore_errors=True)

def main():
    files = sys.argv[4:]
    if not os.path.isdir(B):
        subprocess.run([V + "/sim/build.sh", B, WHAT], check=True)
    ms = []
    for f in files:
        ms += mutants(f)
    random.Random(7).shuffle(ms)
    ms = ms[:LIMIT]
    print(len(ms), "mutants", flush=True)
    surv = dead = nc = 0
    with open(OUTF, "a") as out, cf.ThreadPoolExecutor(NW) as ex:
        for r in ex.map(one, enumerate(ms)):
            if r is None:
                nc += 1
                continue
            surv += not r["by"]
            dead += bool(r["by"])
            out.write(json.dumps(r) + "\n")
            out.flush()
    print("compiled %d, killed %d, survived %d, not compiling %d" % (surv + dead, dead, surv, nc))
main()
