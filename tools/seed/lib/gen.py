# gen.py CONF_DIR > cfg.h : the configuration files of a Fanuc control as C++ data
import json, sys
d = sys.argv[1]
q = lambda s: json.dumps(s)
T = {n: i for i, n in enumerate(["misc", "angle", "calc", "code", "feed", "length", "macro", "numbering", "assignable"])}
def load(f):
    return json.loads(open(d + "/" + f, encoding="utf-8-sig").read())
g = load("grammar.json")
def words(n, m):
    print("static const char* %sk[] = {%s};" % (n, ",".join(q(k) for k in m)))
    print("static WordGrammarWrapper %sv[] = {%s};" % (n, ",".join("{(char*)%s,%d,%d,%du,%du,%s,WordType(%d)}" % (
        q(v["word"]), v["range_from"], v["range_to"], v["decimal_from"], v["decimal_to"], "true" if v["unique"] else "false", T[v["type"]]) for v in m.values())))
words("m", g["metric"]); words("i", g["imperial"])
print("static const char* ops[] = {%s};" % ",".join(q(o) for o in g["operations"]))
def groups(n, f):
    m = load(f)["groups"]
    print("static const char* %sk[] = {%s};" % (n, ",".join(q(k) for k in m)))
    print("static CodeGroupValue %sv[] = {%s};" % (n, ",".join("{%d,%d}" % (e["code"], e["rest"]) for v in m.values() for e in v)))
    print("static int %sl[] = {%s};" % (n, ",".join(str(len(v)) for v in m.values())))
groups("g", "gcode_groups.json"); groups("c", "mcode_groups.json")
