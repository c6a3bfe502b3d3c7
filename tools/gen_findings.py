#!/usr/bin/env python3
# Source of /verif/known_findings.json. Hashes are looked up by subject so that they always exist.
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
FIXED = [
 ("C10", "fix: end at end of input and accept any header fields", "end of stdin made the server spin forever; a header field other than Content-Length desynchronised the input (C01)"),
 ("C08", "fix: survive malformed messages, answer with the request's own id", "malformed bodies, missing parameters and out-of-range positions ended the server; string ids were not echoed (C02)"),
 ("C05", "fix: describe codes of the control named in the settings, retry failed reads", "a failed read of the code descriptions was never retried; the descriptions of the wrong control were used"),
 ("C05", "fix: retry configuration that could not be read, keep descriptions apart", "settings, grammar or code groups that could not be read stayed broken for the session; user macro problems were reported once only (C06)"),
 ("C02", "fix: answer completionItem/resolve, hover and codeLens/resolve correctly at any time", "requests before the first completion, of unknown items, or of documents never opened had no or wrong answers; macros were listed twice"),
 ("C09", "fix: turn every failure to parse a block into a message", "exceptions of the parser (stoi, out of range, grammar) ended the server"),
 ("C09", "fix: reject expressions nested too deeply to evaluate", "deeply nested expressions overflowed the stack"),
 ("C09", "fix: report a missing Q, Z or macro number instead of reading past it", "cycles without Q or Z and an empty macro number read past the end of a vector"),
 ("C04", "fix: move machine points to the zero point of their own axis", "G53/zero point indexing read another axis' value"),
 ("C04", "fix: check every block on its own, not with the brackets of earlier blocks", "bracket and verify state of an erroneous block leaked into the following blocks and programs"),
 ("C04", "fix: reset the unit system, rotation and tool state together with the path", "unit system, rotation and tool state of one analysis leaked into the next"),
 ("C09", "fix: find the code under the cursor without recursing over the line", "hover on a very long line overflowed the stack inside std::regex"),
]
_m = os.path.join(V, "tools/more_fixed.json")
FIXED += [tuple(x) for x in json.load(open(_m))] if os.path.exists(_m) else []
KNOWN = []
_k = os.path.join(V, "tools/known.json")
KNOWN += json.load(open(_k)) if os.path.exists(_k) else []
out = {"fixed": ["fixed: property=%s %s %s" % (p, log[s], w) for p, s, w in FIXED], "findings": KNOWN}
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out["fixed"]), "fixed", len(KNOWN), "known")
