#!/usr/bin/env python3
# Source of /verif/bin/props.json (what each check runs and reports) and /verif/MANIFEST.json.
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SERVER = {
    "real": ["nclangsrv main loop, JsonMessageHandler, NCParser, all readers and Logger: unmodified sources of /repo",
             "parser library with the Fanuc and Heidenhain controls: unmodified sources of /repo", "conf/ of /repo", "Boost, RapidJSON, libstdc++"],
    "stub": ["editor: the simulated peer of stdin and stdout", "file system under /sim (in memory, with injected faults)",
             "monotonic and wall clock, sleeps", "process kill and restart: one forked process per server incarnation"],
    "assumptions": ["What is not reached by the generated sessions is not decided: this is seeded search, not proof.",
                    "Behaviour of the sources compiled with -O1 on x86-64 Linux; the Windows branches are not built.",
                    "Time is charged per executed basic block, read, write and file operation, not measured."]}
LIB = {
    "real": ["parser library (Fanuc and Heidenhain): unmodified sources of /repo, through the exported C API", "Boost, libstdc++", "real OS threads"],
    "stub": ["operating-system scheduling: one thread at a time runs, the seeded scheduler decides which", "operator new/delete and malloc failures"],
    "assumptions": ["What is not reached by the generated histories is not decided: this is seeded search, not proof.",
                    "C14: sequentially consistent interleavings of basic blocks and of accesses to the library's static data; weak-memory effects are not simulated."]}
CLIENT = {
    "real": ["vscode-client/src/extension.ts of /repo, unmodified, translated to JavaScript with the repository's compiler options", "node's promise and timer semantics"],
    "stub": ["vscode API (windows, commands, configuration, file watcher)", "vscode-languageclient 8 (a state machine with start, stop, restart, crash and automatic restart)", "child_process.exec and the programs it starts", "fs.readFile and the file system", "timers and the clock"],
    "assumptions": ["The stubbed vscode API completes calls in any order and at any time, as VS Code's documentation allows.",
                    "What is not reached by the generated histories is not decided: this is seeded search, not proof."]}
SR = ("A run is one generated editor session (messages, documents, edits, file operations, kills, end of input, pauses) against the real "
      "server, with a generated delivery schedule and fault list, all derived from one seed. Distinct: different sequence of message "
      "submissions and arrivals, answers, file events, fired faults and process ends. Non-trivial: ")
LR = ("A run is one generated history of C API calls on one or more handles with a generated schedule or fault sequence, all derived from "
      "one seed. Distinct: different sequence of calls, thread switches and fired faults. Non-trivial: ")
CR = ("A run is one generated history of file notifications, file contents, user actions, failures and completions against the compiled "
      "extension; one seed decides the order of all completions. Distinct: different sequence of those events. Non-trivial: ")
S, F = "seeded deterministic simulation", " with fault injection"
P = {}


def p(id, group, nontrivial, technique, note, **kw):
    g = {"server": SERVER, "lib": LIB, "client": CLIENT}[group]
    P[id] = {"rule": {"server": SR, "lib": LR, "client": CR}[group] + nontrivial + ".", "real": g["real"], "stub": g["stub"],
             "assumptions": g["assumptions"], **kw}
    P[id]["_t"], P[id]["_n"] = technique, note


p("C01", "server", "at least one message arrived in more than one piece or with unusual headers, and more than two answers were compared",
  S + " of byte delivery, differential against one canonical delivery",
  "Seeded search over ways of cutting, delaying and pipelining the input bytes; each run's answers are compared byte for byte with the same session delivered in one piece.")
p("C02", "server", "more than three answers were matched to messages", S + " of editor sessions with a protocol automaton as oracle",
  "Strict framing of every output byte, exactly one answer per request with its id, in order, completion lists against the configuration.")
p("C03", "server", "answers were compared with those of a freshly started server", S + " of multi-document sessions, differential against a fresh server",
  "Every diagnostics, hover and lens answer is compared with a fresh server process that was only given the latest text of that document.")
p("C25", "server", "answers were compared with the results of the parser library", S + " of editor sessions, differential against the parser library driven through its C interface",
  "Every diagnostic, lens and hover of the session is compared with what a new handle of the parser library finds in the document's text, line by line, with configuration and descriptions read by the harness.")
p("C27", "server", "the repeated part of the session was carried out twelve times", S + F + " of sessions that repeat their work, accounts of memory, files and steps compared between rounds",
  "Accounts at rest after 12 rounds are compared with those after 6; what grew must grow on after 24, 48 and 96 rounds to count.")
p("C04", "server", "answers were compared with those of a freshly started server", S + " of analysis histories, differential against a fresh server",
  "As C03, for histories of erroneous programs, unit and mode changes in other and earlier texts.")
p("C05", "server", "a file fault fired and answers were compared afterwards", S + F + " in the file system",
  "Missing, unreadable, half-written, failing files at any moment; survival, reporting and full recovery are checked against a fresh server.")
p("C06", "server", "at least one analysis took place", S + F + " in the user's description file, against a reference model",
  "A model of the file's state predicts for every analysis whether a problem must be reported and which entry wins.")
p("C07", "server", "a log fault fired, the clock jumped, or an old log existed", S + F + " in the log file and the clock",
  "Answers compared with a session without log and faults; log append-only and complete.")
p("C08", "server", "at least one malformed message was sent", S + " of sessions with injected malformed messages",
  "Answers to well-formed messages compared with the same session without the malformed ones.")
p("C09", "server", "a program was analysed", S + " of editing sessions (torn edits, hostile texts)",
  "Survival, termination within a step bound, answers to everything, diagnostics on existing lines.")
p("C10", "server", "always", S + F + " at the editor's end of the pipe",
  "End of input, closed output, exit and shutdown at any byte; the process must end within 5 simulated seconds, and not before it is asked to.")
p("C11", "server", "more than two answers were timed", S + " with a simulated clock",
  "Answer latency in simulated time, charged per basic block, read, write and sleep.")
p("C12", "server", "the server was killed at least once and answered afterwards", S + F + " (kill and restart at any step)",
  "Answers after a restart compared with a fresh server; only the log survives a kill.")
p("C13", "server", "always", S + F + ", monitoring every file operation",
  "Every file operation of the server passes the simulated file system; only appending to the configured log is allowed.")
exec(open(os.path.join(V, "tools", "gen_meta_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "gen_meta_more.py")) else None

NA = {
    "C30": "A pure function of the program text and settings: no schedule, clock, fault or interleaving takes part, so there is nothing for a simulator to decide; it needs an independent geometric reference, i.e. another technique. What it has of history (state carried between blocks and programs) is decided under C04 and C17.",
    "C31": "A pure function of the expression; simulation would only be input generation. Its termination and survival are decided under C09.",
    "C32": "A pure function of one block; no schedule, clock or fault takes part.",
    "C33": "A pure function of block, control and settings; that a verdict does not depend on history is decided under C04, C17 and C18.",
    "C34": "A pure function of one block; no schedule, clock or fault takes part.",
    "C35": "A pure function of the program and the splitting settings; no schedule, clock or fault takes part. Its behaviour under allocation failure is decided under C15.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "python3 bin/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
           "technique": P[i]["_t"], "level": "exploration", "level_note": P[i]["_n"]} for i in ids if i in P]
na = [{"property": i, "reason": NA.get(i, "no check built yet")} for i in ids if i not in P]
hooks = {"guard": "none", "enable": "no hooks in /repo: the simulator compiles the unmodified sources and intercepts at libc, operator new and basic-block instrumentation level", "source_commits": []}
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "hooks": hooks, "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Every check builds its simulator from /repo's working tree into /verif/build, searches with 8 workers, gates, minimises and reports. bin/check.py --replay FILE re-runs a replay file."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
json.dump({k: {a: b for a, b in v.items() if a[0] != "_"} for k, v in P.items()}, open(os.path.join(V, "bin/props.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
