# mk.py: build one seeded bug from a description:  mk(id, prop, needs, breaks, [(file, old, new)...], demo.py text or demo.sh text)
import json, os, shutil, subprocess, sys
V = "/verif/seeded"
def mk(id, prop, needs, breaks, edits, demo, lsp=True, extra=None):
    w = "/tmp/mkseed"
    if not os.path.isdir(w):
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    subprocess.run(["git", "-C", w, "fetch", "-q"], check=True)
    subprocess.run("git -C %s checkout -q -f $(git -C /repo rev-parse HEAD)" % w, shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p, newline="").read()
        nl = "\r\n" if "\r\n" in s else "\n"
        old, new = old.replace("\n", nl), new.replace("\n", nl)
        if s.count(old) != 1:
            sys.exit("%s: %d matches of %r in %s" % (id, s.count(old), old, f))
        open(p, "w", newline="").write(s.replace(old, new))
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", w, "diff"], check=True, capture_output=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if lsp:
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "lsp.py"), d)
        open(os.path.join(d, "demo.py"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    else:
        open(os.path.join(d, "demo.sh"), "w").write(demo)
    for n, t in (extra or {}).items():
        open(os.path.join(d, n), "w").write(t)
