#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that the JSON stays well-formed).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

NOT = "The 79 unit tests only call the parser library with fixed inputs; nothing in the test suite starts the language server. "
NLS = ["nclangsrv/nclangsrv.cpp", "nclangsrv/JsonMessageHandler.cpp"]

p("C01", "Server output does not depend on how its input is delivered",
  "What the language server writes, message by message, is a function of the bytes the editor sends and not of how those bytes arrive: any split into pieces (down to single bytes, inside headers, multi-byte characters or bodies), any pause between them, and any amount of pipelining yield the same messages in the same order. A message may carry further header fields before or after Content-Length, and every message after it is still understood.",
  ["schedules", "inputs"], "every segmentation, delay pattern and pipelining of every well-formed LSP message stream (bodies from one byte to hundreds of kilobytes, ASCII and non-ASCII)",
  NOT + "Segmentation and timing of stdin are chosen by the OS and the editor.",
  ["nclangsrv/nclangsrv.cpp"], [("byte-wise header scan, then a counted body read", "nclangsrv/nclangsrv.cpp main loop")],
  observe=["stdin byte stream", "stdout message stream"])

p("C02", "Every request is answered exactly once, in order, well framed",
  "For every sequence of well-formed messages, each request for a method the server supports (initialize, completion, completionItem/resolve, hover, codeLens, codeLens/resolve, shutdown) receives exactly one response carrying the request's own id (number or string), each didOpen and didChange produces exactly one publishDiagnostics for that document, no other message produces output, and outputs appear in the order of the messages that caused them. Everything on stdout is a sequence of frames whose Content-Length is the exact byte length of a body that is one valid JSON-RPC 2.0 object; completion lists offer every G and M code of the configured control exactly once, and macros at most once, however often completion is asked for.",
  ["histories", "inputs", "schedules"], "every history of requests and notifications over any number of documents, in any order the protocol allows, pipelined or not, with a slow or stalled reader on the other side",
  NOT + "The guarantee ranges over message histories.",
  NLS + ["nclangsrv/CodesReader.cpp"], [("one handler per method, each writing one frame and flushing", "JsonMessageHandler::parse and handlers")],
  state=[("suggestions", "accumulated completion labels", "JsonMessageHandler::mSuggestions")],
  observe=["stdout message stream"])

p("C03", "Answers describe the latest text of exactly the document asked about",
  "Diagnostics, hover, codeLens and codeLens/resolve for a document are computed from the text of its most recent didOpen or didChange, whatever opens, changes, closes and queries of other documents are interleaved; a change is in effect for every request sent after it. A document that was never opened, or was closed and not reopened, gets null for hover and codeLens, and closing one document leaves the others untouched.",
  ["histories", "schedules"], "every interleaving of open, change, close, reopen and query operations over several documents, including identical texts, prefixes of each other's names, shrinking texts and out-of-range positions",
  NOT + "Interference appears only for particular interleavings of several documents.",
  ["nclangsrv/JsonMessageHandler.cpp"], [("per-uri context replaced as a whole on every change", "JsonMessageHandler::textDocument_publishDiagnostics")],
  state=[("file contexts", "lines, macro values and path/time per uri", "JsonMessageHandler::mFileContexts"), ("current uri", "document of the last codeLens", "JsonMessageHandler::mCurrentUri")],
  observe=["stdout message stream"])

p("C04", "Analysis of a text does not depend on what was analysed before",
  "With unchanged configuration, the diagnostics, hover texts and path/time lenses a server reports for a program are identical to those of a freshly started server given only that program, no matter which programs, erroneous or not, and which requests the server has processed before. In particular units, modal codes, macro variables, rotation and syntax state, and path and time totals never leak from one analysis into the next.",
  ["histories", "inputs", "configurations"], "every sequence of programs (metric and inch, with macros, syntax errors at any point, unbalanced brackets, code-group conflicts, spindle rotation) on every supported control, with path calculation on or off",
  NOT + "Unit tests build a new parser per case and compare single lines; a leak needs two programs in a particular order.",
  ["nclangsrv/NCParser.cpp", "parser/fanuc/AllAttributesParser.cpp", "parser/fanuc/AllAttributesParserGrammar.cpp", "parser/fanuc/AttributesPathCalculator.cpp"],
  [("a new parser object for every analysis", "NCParser::parse"), ("macro values reset", "AllAttributesParser::reset_macro_values")],
  observe=["publishDiagnostics", "hover results", "codeLens results"])

p("C05", "Configuration faults are reported, survived and recovered from",
  "If a file the server needs (settings file, grammar, code groups, code or macro descriptions) is missing, unreadable, fails while being read, or is caught half-written, the server keeps running and keeps answering every message, and while the settings, grammar or code groups cannot be loaded each analysis reports an error diagnostic rather than silently analysing with an empty or partial configuration. Once the files are readable and complete again, the next change of a document, and requests following it, produce exactly what a freshly started server with those files would produce, including descriptions for the control named in the settings.",
  ["fault_sequences", "histories", "configurations"], "every sequence of open/read failures (ENOENT, EACCES, EIO, EMFILE, short and interrupted reads), torn or invalid contents and later repairs, on any of the files, at any access, for every control",
  NOT + "No test can make a particular read of a particular file fail.",
  ["nclangsrv/NCParser.cpp", "nclangsrv/NCSettingsReader.cpp", "nclangsrv/WordGrammarReader.cpp", "nclangsrv/CodeGroupsReader.cpp", "nclangsrv/CodesReader.cpp", "nclangsrv/MacrosDescReader.cpp", "nclangsrv/JsonMessageHandler.cpp"],
  [("lazy readers with a read-once flag, errors turned into a false return", "*Reader::read"), ("ERROR: Couldn't read ... diagnostics", "NCParser::parse")],
  observe=["publishDiagnostics", "hover, completion and resolve results", "process survival"])

p("C06", "Problems in the user's macro descriptions stay visible and contained",
  "As long as the user's macro description file has been missing, unreadable or malformed since the session began, the diagnostics of every analysis, not only the first, include the problem together with the normal diagnostics of the program, and the built-in descriptions of macros and of G and M codes stay available. When the file is good, or becomes good, its entries take precedence over the built-in ones in hover and completion resolve, the built-in entries it does not override remain, and the problem disappears with the next change.",
  ["fault_sequences", "histories", "configurations"], "every sequence of good, malformed, torn, missing and unreadable states of the user file and every interleaving with document changes, hovers and completions",
  NOT + "Needs a file that changes state between two analyses.",
  ["nclangsrv/MacrosDescReader.cpp", "nclangsrv/JsonMessageHandler.cpp"],
  [("user file read before the built-in one, first entry wins; errors thrown and turned into a diagnostic", "MacrosDescReader::read, JsonMessageHandler::textDocument_publishDiagnostics")],
  state=[("macro descriptions", "merged user and built-in entries and ranges", "JsonMessageHandler::mMacrosDesc")],
  observe=["publishDiagnostics", "hover results", "completionItem/resolve results"])

p("C07", "Logging and the wall clock never influence behaviour",
  "The messages the server writes are the same whether it runs with a log file, without one, or with a log file that cannot be opened or whose writes fail or are cut short at any point, and whatever the wall clock shows or however it jumps. What earlier sessions wrote to the log file is never altered or removed, and a working log contains every message body the server received and sent.",
  ["fault_sequences", "schedules", "configurations"], "every placement of log open and write failures (ENOENT, EACCES, ENOSPC, EIO, short writes) and clock jumps in every message history, with and without logging",
  NOT + "Log failures and clock jumps have to be injected; code under `if (mLogger)` runs in no test.",
  ["nclangsrv/Logger.cpp"] + NLS + ["nclangsrv/MacrosDescReader.cpp"],
  [("append-mode stream guarded by a null check before each use", "nclangsrv/Logger.cpp and every LOGGER use")],
  observe=["stdout message stream", "log file content"])

p("C08", "Malformed and hostile messages neither kill nor desynchronise the server",
  "A correctly framed message whose body is not valid JSON, is not a request object, lacks parameters or has them with unexpected types, names an unknown method, addresses positions or macro numbers out of any range, or is nested very deeply, never terminates or blocks the server. Every well-formed message after it is answered as if the malformed one had not been sent.",
  ["inputs", "histories"], "every body (mutated, truncated, type-confused or random) at every point of every session, before or after initialisation, with and without logging",
  NOT + "No test feeds the server any message.",
  NLS, [("RapidJSON parse followed by member access", "JsonMessageHandler::parse")],
  observe=["process survival", "stdout message stream after the malformed message"])

p("C09", "No program text can crash or hang the server",
  "For every program text in every intermediate state of editing, on every supported control, the analysis terminates, the server answers the didOpen or didChange with diagnostics, and it goes on answering hovers at every position and lenses of that text. Each diagnostic points at an existing line of the text.",
  ["inputs", "histories", "configurations"], "every text an editing session can pass through (torn lines, half-typed expressions, extreme numbers, division by zero, deep nesting, control and non-ASCII characters, very long lines) on every control, followed by any further requests",
  NOT + "The parser tests use complete, mostly valid lines.",
  ["nclangsrv/NCParser.cpp", "parser/fanuc/AllAttributesParser.cpp", "parser/fanuc/ValueCalculator.cpp", "parser/fanuc/MacroEvaluator.cpp", "parser/fanuc/AttributesPathCalculator.cpp", "nclangsrv/JsonMessageHandler.cpp"],
  [("exceptions turned into messages per line", "AllAttributesParser::parse")],
  observe=["process survival", "publishDiagnostics", "steps executed"])

p("C10", "The server ends when asked to or when its editor is gone, and only then",
  "After shutdown or exit, or once the editor's end of stdin is closed at any point (between messages, inside a header or inside a body), or the editor stops existing while being answered, the server process ends within a few seconds of simulated time without processing a partly received message as if it were complete. Responses to everything received before, including the shutdown response, are completely written before it ends, and with an open stdin and no shutdown or exit it never ends on its own.",
  ["crash_points", "schedules", "histories"], "every point of the byte stream at which the editor can disappear, every position of shutdown and exit in a history, pipelined or not, with a slow reader",
  NOT + "Disconnection at an arbitrary byte cannot be staged by unit tests.",
  NLS, [("exit flag tested after each message", "nclangsrv/nclangsrv.cpp main loop"), ("shutdown answers, waits and sets the flag", "JsonMessageHandler::shutdown")],
  observe=["process end and exit code", "simulated clock", "stdout message stream"])

p("C11", "Messages are answered promptly and without waiting for further input",
  "Once the last byte of a request, didOpen or didChange has been delivered, its complete answer is written and flushed within one second of simulated time plus a constant per message queued before it, without any further byte of input being needed, independent of the size of the message and of wall-clock jumps. The time used while waiting does not accumulate over a session.",
  ["schedules", "histories"], "every session length, message size, delivery schedule and clock adjustment, with faults on log and configuration files",
  NOT + "Waiting, sleeping and flushing only show under a controlled clock and input stream.",
  NLS, [("1 ms pauses while scanning headers, counted body read, explicit flush after each frame", "nclangsrv/nclangsrv.cpp, JsonMessageHandler handlers")],
  observe=["simulated clock at each input and output byte"])

p("C12", "A killed and restarted server picks up where the editor left off",
  "If the server is killed at any instant and started again, and the editor sends initialize and reopens its documents, then every later answer equals that of a server that was never killed. Nothing a killed server leaves behind (including a partly written log line) changes the behaviour of the next one, and the log of earlier sessions stays intact.",
  ["crash_points", "histories", "fault_sequences"], "every kill instant (inside header, body, file reading, analysis, log write or output) and every number of restarts in every session",
  NOT + "Crash points cannot be placed by tests.",
  NLS + ["nclangsrv/Logger.cpp"], [("no durable state except an append-only log", "nclangsrv/Logger.cpp")],
  observe=["stdout message stream of every incarnation", "virtual file system after each kill"])

p("C13", "The server never modifies the user's or its own files",
  "In every session, with any faults, the only file the language server ever opens for writing, creates, truncates, renames or removes is the configured log file, and that one it only appends to. Without a configured log it writes to no file at all.",
  ["histories", "fault_sequences", "configurations"], "every session and fault sequence, with or without log, settings and macro description files",
  NOT + "A stray write is visible only to a monitor on the file-system boundary while sessions and faults run.",
  ["nclangsrv/Logger.cpp", "nclangsrv/NCSettingsReader.cpp", "nclangsrv/MacrosDescReader.cpp", "nclangsrv/nclangsrv.cpp"],
  [("input streams for configuration, std::ios::app for the log", "readers and Logger")],
  observe=["every open, write, truncate, rename and unlink call"])

L = ["parser/AllAttributesParserWrapperBase.cpp", "parser/fanuc/AllAttributesParserWrapper.cpp", "parser/fanuc/AllAttributesParser.cpp"]
p("C14", "Parser handles used by different threads do not affect each other",
  "When several threads each use parser handles of their own (of any control type, Fanuc-style or Heidenhain) at the same time, creating, configuring, parsing, converting, rotating, renumbering, splitting and disposing, every call returns exactly what it returns when that thread runs alone. No interleaving crashes or blocks.",
  ["schedules", "histories"], "every interleaving, at any machine-code basic block, of two or more callers' operation sequences on distinct handles",
  "The unit tests are single-threaded.",
  L + ["parser/fanuc/AllAttributesParserGrammar.cpp", "parser/fanuc/AttributesPathCalculator.cpp", "parser/heidenhain/AllAttributesParser.cpp"],
  [("all mutable state lives in the handle", "AllAttributesParser members")], observe=["return values and out-parameters of the C API"])

p("C15", "Running out of memory in a library call harms nothing but that call",
  "If an allocation fails at any point inside a C API call, the call ends with std::bad_alloc or an error result and nothing else: no crash, no leak, no result handed out that is only partly filled in. The handle stays usable and disposable, and after resetting macro and path values (and the renumber counter) it analyses programs exactly like a new handle.",
  ["fault_sequences", "histories"], "every allocation of every API call in every call history, one or several failures per history, on every control",
  "The tests never make an allocation fail.",
  L, [("value types and RAII inside, raw arrays only at the C boundary", "AllAttributesParserWrapper.cpp")], observe=["C API results", "allocator bookkeeping"])

p("C16", "Every buffer the library hands out is complete and freed exactly once",
  "For every history of C API calls, successful or failing, releasing each handed-out result with its Dispose function frees everything the call allocated exactly once and with the matching deallocator, and out-parameters of a call that reports nothing are left such that disposing them is harmless. After all results and handles are disposed the library holds no memory that grows with the number of calls.",
  ["histories", "inputs"], "every history of API calls over valid, invalid, empty and partly empty inputs, on every control, interleaved over several handles",
  "The tests use the C++ classes and do not go through the C wrapper or its Dispose functions, and no test counts allocations.",
  L, [("Dispose functions mirror the allocation layout", "parser/AllAttributesParserWrapperBase.cpp")], observe=["operator new/delete bookkeeping per call"])

p("C17", "A handle that was reset behaves like a new one",
  "After a caller abandons a program at any line, for whatever reason, and resets macro values, path values and the renumber counter, the handle treats the next program exactly as a newly created and configured handle would: same accept/reject results, messages, macro values, units, path and time values and numbering. Applying the same settings again has the same effect.",
  ["crash_points", "histories", "inputs"], "every abandonment point in every program (valid or not, metric or inch, rotating or not, inside unbalanced brackets) followed by every other program, on every control",
  "Tests use one parser per program and never abandon one part-way.",
  L + ["parser/fanuc/Renumberer.cpp", "parser/fanuc/RotationVerifier.cpp", "parser/fanuc/GrammarSelector.cpp"],
  [("ResetMacroValues, ResetPathValues, RenumberReset", "parser/AllAttributesParserWrapperBase.cpp")],
  state=[("modal state", "active units, rotation, path position, macro map, numbering", "AllAttributesParser members")], observe=["C API results"])

p("C18", "Tasks sharing one handle in turns do not disturb each other",
  "Converting lengths, removing numbering, comments or optional blocks, rotating axes and renumbering are independent of parsing and of each other: when calls of such tasks and of a parse task are interleaved in any order on one handle, each call returns what it returns when its task has the handle to itself, and macro, path and time values are those of the parsed lines alone.",
  ["schedules", "histories"], "every interleaving at call granularity of several line-by-line tasks over different programs, valid and invalid, on one handle",
  "Tests call one operation per parser.",
  L + ["parser/fanuc/UnitConverter.cpp", "parser/fanuc/Renumberer.cpp", "parser/fanuc/AllAttributesParserGrammar.cpp"],
  [("transformations only parse syntax and keep their own state", "AllAttributesParser::simple_parse")], observe=["C API results"])

X = ["vscode-client/src/extension.ts"]
p("C19", "The status bar settles on what the settings file says",
  "After the last change of the settings file has been noticed and all pending work has finished, the status bar shows the machine tool name in the file's current content (or the file's base name if it has none or cannot be read), however file notifications, file reads and server restarts overlapped or failed. Once shown, it never goes back to the name of an older version of the file.",
  ["schedules", "fault_sequences"], "every completion order of file reads and server restarts, read errors and half-written contents, over every sequence of file changes",
  "The extension has no tests; the order in which asynchronous reads complete is up to the runtime.",
  X, [("file watcher, restart, then asynchronous read of the file", "extension.ts startListeningConfigurationChanges, setStatusText")], observe=["status bar text"])

p("C20", "Every settings change reaches the server, even if a restart fails or overlaps",
  "Each noticed change of the settings file leads to a server restart that begins after the change, so that when things settle the server has read the newest settings; no two restarts of the server run at the same time, and a restart or start that fails does not stop later changes from restarting it. Changes of other files never restart the server.",
  ["schedules", "fault_sequences"], "every sequence of file notifications, restart durations and restart failures",
  "The extension has no tests.",
  X, [("awaited restart in the watcher callback", "extension.ts startListeningConfigurationChanges")], observe=["restart calls and their begin and end", "file notifications"])

p("C21", "Configuration changes made by the user are never silently swallowed",
  "Whenever the user changes one of the extension's settings that need a reload, the user is told to reload the window; a change the extension makes itself is not announced twice, and no failure, cancellation or reordering of the extension's own updates makes a later change by the user go unannounced.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of commands, configuration updates (succeeding, failing, without effect) and unrelated configuration events",
  "The extension has no tests.",
  X, [("ignoreNextConfigurationChange flag", "extension.ts")], observe=["messages shown", "configuration events"])

p("C22", "At most one configuration tool runs, and it can always be started again",
  "The create-configuration command never has two configuration tool processes running at once, and after the tool has ended, successfully, with an error or by failing to start, the command starts it again; a failing tool never produces an unhandled error.",
  ["schedules", "fault_sequences"], "every interleaving of command invocations with tool exits, failures and spawn errors",
  "The extension has no tests.",
  X, [("cmtConfigRunning flag", "extension.ts execShell")], observe=["processes started and ended", "unhandled rejections"])

p("C23", "The server runs as configured, reports failures and ends with the window",
  "Every server process the extension starts, at activation and at every restart, is the platform's own executable with exactly the options the configuration asked for when the window was loaded (settings file, log, path calculation, macro descriptions), each at most once. A server or configuration tool that fails to start is reported in the output channel, and nothing is reported as failed that did not fail; a change is announced as loaded only after a server has been started after it. If nothing fails one server runs, and when the extension is deactivated it is stopped and no other one is started.",
  ["schedules", "fault_sequences", "configurations"], "every configuration and every interleaving of file notifications, restarts, crashes and failing starts of server and tool",
  "The extension has no tests.",
  X, [("arguments of the language client", "extension.ts startLangServerNCProj"), ("start and restart", "extension.ts startNewLangServer, restartLangServer"), ("deactivate", "extension.ts deactivate")], observe=["processes started, their program and arguments", "messages and output channel", "processes alive at the end"])

p("C24", "Every choice of the user has exactly its effect",
  "However the answers to the extension's questions, its file dialogs and its configuration updates are delayed, reordered, cancelled or fail: a file chosen in a dialog is stored under the setting of the command that asked and in the scope that was chosen, a cancelled question or dialog stores nothing, toggling the path calculation stores the opposite of the value in effect, the question at the start is asked exactly if no settings file is configured and runs the chosen command, and the window is reloaded exactly when the user asks for it. A choice that cannot be stored is reported, and every command the extension contributes is there to be used.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of commands, answers, dialogs and updates (succeeding, failing, without effect)",
  "The extension has no tests.",
  X, [("questions and dialogs", "extension.ts askFilePath, askWhenNoNcsettingSpecified, askReloadWindow"), ("updates", "extension.ts updateConfiguration")], observe=["questions, dialogs, commands, configuration updates"])

p("C25", "The server reports exactly what the parser library finds",
  "Whatever happened before, the diagnostics of a document are those of the parser library given its lines one after the other: one diagnostic for every line the library rejects, in the order of the lines, at that line and the column the library names, with the library's message unabridged whatever characters it and the line contain, and none for any other line. With path calculation, the lenses are the lines at which the total time changes, each with the totals so far; hovering over a code, or over a variable after assignments, shows the code's description, or the value the variable has after that line and the description of that variable or of the range of variables it belongs to (the user's before the built-in one).",
  ["inputs", "histories", "configurations"], "every text (blank lines, line ends, comments, erroneous lines), history of edits, control and settings file",
  "The tests call the parser with single lines; no test runs the server. " + NOT + "It must hold for every document and position.",
  ["nclangsrv/NCParser.cpp", "nclangsrv/JsonMessageHandler.cpp", "nclangsrv/MacrosDescReader.cpp", "nclangsrv/NCSettingsReader.cpp"],
  [("line by line analysis, messages and totals", "NCParser::parse"), ("messages to diagnostics", "JsonMessageHandler::textDocument_publishDiagnostics"), ("value of a variable at a line", "JsonMessageHandler::textDocument_hover"), ("ranges of variables", "MacrosDescReader::getDesc")],
  observe=["stdout message stream", "results of the parser library's C interface"])

p("C26", "The C interface hands over exactly what the parser computed",
  "For every history of calls on any number of handles, what the exported C functions return is what the parser classes compute for the same calls with the same configuration: the verdict and the whole message; every word of a line with its complete value, in order; every macro value with its number and line, and for one line all of its and no others; path and time figures, word ranges and unit system, none exchanged; every piece, block and word of a split program with the right lengths, or the pieces as text with words separated by a blank and lines ended by CR LF. Every setting, option, limit and name given through the interface reaches the parser it was given to, and no call of one handle changes what another one returns. (For Heidenhain programs the interface hands over the verdict and the message only.)",
  ["histories", "inputs", "configurations"], "every history of calls, block, option, settings and control, with handles used in turns and fresh memory full of garbage",
  "The tests use the C++ classes; nothing tests the C functions that the server and other programs are built on.",
  L, [("words to C strings", "fanuc/AllAttributesParserWrapper.cpp Attributes2WordValueWrapperVisitor"), ("settings to the parser", "AllAttributesParserWrapperBase.cpp SetNCSettings"), ("pieces of a split program", "fanuc/AllAttributesParserWrapper.cpp SplitFile, SplitFileString")],
  observe=["C API results", "results of the parser classes"])

PURE = "Unit tests sample single lines only. "

p("C27", "A long session costs the server no more than a short one",
  "However long a session lasts: doing the same work again and again (opening, changing and closing documents, the same or others each time, asking for anything, sending malformed messages, settings and description files that break and are repaired, with or without a log) does not make the server hold more memory or more open files than after the first rounds, and does not make the work take more steps or system calls. What belongs to a closed document is forgotten.",
  ["histories", "resources", "faults"], "every history that repeats some work, number of repetitions, document, control and configuration",
  "The tests end after one call; no test runs the server. A leak of a few bytes per analysis shows only after thousands of edits.",
  ["nclangsrv/JsonMessageHandler.cpp", "nclangsrv/NCParser.cpp", "parser/GeneralParserDefines.h"],
  [("state per document", "JsonMessageHandler mFileContexts"), ("objects of one analysis", "NCParser::parse"), ("configuration read again for each analysis", "NCParser::parse, NCSettingsReader")],
  observe=["the server's allocations and open files when it waits for input", "executed basic blocks and system calls"])
p("C30", "Path length and time follow the programmed geometry",
  "For every program, the path and time totals equal the lengths of the programmed linear, circular, helical and drilling motions and the times that the active feeds imply.",
  ["inputs"], "every program and machine configuration", PURE, ["parser/fanuc/AttributesPathCalculator.cpp", "parser/fanuc/PathCalculator.cpp"], [("per-block evaluation", "AttributesPathCalculator::evaluate")])
p("C31", "Macro expressions are evaluated with the control's arithmetic",
  "Every macro expression has the value the control's operator precedence and functions give it.",
  ["inputs"], "every expression", PURE, ["parser/fanuc/ValueCalculator.cpp", "parser/fanuc/MacroEvaluator.cpp"], [("spirit grammar with semantic actions", "ValueCalculator")])
p("C32", "Unit conversion changes lengths and nothing else",
  "Converting a block between millimetres and inches scales every length word and leaves all other words unchanged.",
  ["inputs"], "every block", PURE, ["parser/fanuc/UnitConverter.cpp"], [("table of length words", "UnitConverter")])
p("C33", "Only blocks the grammar and code groups allow are accepted",
  "A block is accepted exactly if it follows the control's word grammar, value ranges, uniqueness and code-group rules.",
  ["inputs", "configurations"], "every block on every control", PURE, ["parser/fanuc/AllAttributesParserGrammar.cpp", "parser/fanuc/CodeGroupsVerifier.cpp", "parser/fanuc/RangeVerifier.cpp"], [("grammar and verifiers", "AllAttributesParser::parse")])
p("C34", "Rotating axes preserves the programmed geometry",
  "Rotating a program by 90 degrees four times about an axis restores it, and rotated programs describe the rotated motion.",
  ["inputs"], "every program", PURE, ["parser/fanuc/AxesRotator.cpp"], [("word rewriting", "AxesRotator")])
p("C35", "Splitting a program loses and repeats no block",
  "The pieces of a split program contain, in order, every block of the program, plus only the retraction and continuation blocks that were asked for.",
  ["inputs"], "every program and splitting setting", PURE, ["parser/fanuc/FileSplitter.cpp"], [("chunking by lines, tool, path or time", "FileSplitter")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
