import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mk import mk
X = "vscode-client/src/extension.ts"
VSC = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vsc.js")).read()
SH = '#!/bin/bash\nexec node "$(cd "$(dirname "$0")" && pwd)/demo.js"\n'
def c(id, prop, needs, breaks, edits, demo):
    mk(id, prop, needs, breaks, [(X, a, b) for a, b in edits], SH, lsp=False, extra={"vsc.js": VSC, "demo.js": '"use strict";\nconst { load } = require("./vsc.js");\n(async () => {\n' + demo + "    w.done();\n})().catch(e => { console.error(e); process.exit(1); });\n"})

c("c19-name-kept-while-unreadable", "C19",
  "a settings file that is damaged (or half written) when it is read, and stays so, after it had a name",
  "the name of an older version of the file stays in the status bar",
  [('''            } catch (error) {
                console.log(error);
                statusText = stem(ncsettingFilePath);
            }
''', '''            } catch (error) {
                console.log(error);
                // most likely the file is being written: wait for its next change
                statusText = statusBarItem.text == "default" ? stem(ncsettingFilePath) : statusBarItem.text;
            }
''')],
  '''    const w = load({ cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" } });
    await w.tick(); w.reads[0].ok('{"machine_tool_id":"One"}');
    w.check(w.bar.text === "One", "name of the first version");
    w.notify("/a/mill.ncsetting"); await w.tick(); w.reads[w.reads.length - 1].ok("{");
    w.check(w.bar.text === "mill", "a damaged file shows as " + w.bar.text);
''')

c("c20-close-changes-merged", "C20",
  "two changes of the settings file within less than half a second (by the wall clock)",
  "the second change does not restart the server, which keeps the settings of the first",
  [('''            if (uri.fsPath == Uri.file(normalized).fsPath) {
''', '''            const sinceLast = Date.now() - lastChange;
            if (uri.fsPath == Uri.file(normalized).fsPath && (sinceLast < 0 || sinceLast > 500)) {
                lastChange = Date.now();
'''), ('''        watcher.onDidChange(async (uri) => {
''', '''        // one save may be noticed more than once
        let lastChange = 0;
        watcher.onDidChange(async (uri) => {
''')],
  '''    const w = load({ cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" } });
    await w.tick();
    w.notify("/a/mill.ncsetting"); await w.tick();
    const n = w.starts.length;
    w.notify("/a/mill.ncsetting"); await w.tick();
    w.check(w.starts.length > n, "the second change did not restart the server");
''')

c("c21-one-question-at-a-time", "C21",
  "a change of a setting while, or after, the question about an earlier change was closed without an answer",
  "later changes of settings are not announced any more",
  [('''            if (event.affectsConfiguration(s)) {
''', '''            if (event.affectsConfiguration(s) && !reloadAsked) {
                reloadAsked = true;
'''), ('''function startListeningConfigurationChanges() {
''', '''// the user is asked once, also when more than one setting changes
let reloadAsked = false;

function startListeningConfigurationChanges() {
'''), ('''        if (selection === "Reload Window") {
''', '''        reloadAsked = selection == undefined;
        if (selection === "Reload Window") {
''')],
  '''    const w = load({ cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" } });
    await w.tick();
    w.user("ncproj.debug.log.path"); await w.tick();
    w.check(w.warnings.length === 1, "first change"); w.warnings[0].d.ok(undefined); await w.tick();
    w.user("ncproj.calculate.pathtime.enable"); await w.tick();
    w.check(w.warnings.length === 2, "the second change was not announced");
''')

c("c22-tool-forgotten-after-a-while", "C22",
  "a configuration tool that is kept open for more than ten minutes, then the command again",
  "a second configuration tool is started while the first one still runs",
  [('''        cp.exec(cmd, options, (err, out) => {
            cmtConfigRunning = false;
''', '''        // a tool that was killed may never be reported as ended
        const forget = setTimeout(() => (cmtConfigRunning = false), 10 * 60 * 1000);
        cp.exec(cmd, options, (err, out) => {
            clearTimeout(forget);
            cmtConfigRunning = false;
''')],
  '''    const st = globalThis.setTimeout; const late = []; globalThis.setTimeout = (f, ms, ...a) => ms > 1000 ? (late.push(f), late.length) : st(f, ms, ...a);
    const w = load({ cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" } });
    await w.tick();
    w.commands["ncproj.ncsettingCreate"](); await w.tick();
    for (const f of late) f();          // a very long time passes
    w.commands["ncproj.ncsettingCreate"](); await w.tick();
    w.check(w.procs.length === 1, "two configuration tools run at once");
''')

c("c20-give-up-after-five", "C20",
  "the settings file is changed more than five times in one session",
  "from the sixth change on the server is not restarted any more",
  [('''            if (uri.fsPath == Uri.file(normalized).fsPath) {
''', '''            if (uri.fsPath == Uri.file(normalized).fsPath && ++changes <= 5) {
'''), ('''        watcher.onDidChange(async (uri) => {
''', '''        // as with crashes: do not restart the server forever
        let changes = 0;
        watcher.onDidChange(async (uri) => {
''')],
  '''    const w = load({ cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" } });
    await w.tick();
    for (let i = 0; i < 8; ++i) {
        const n = w.starts.length;
        w.notify("/a/mill.ncsetting"); await w.tick();
        w.check(w.starts.length > n, "change " + (i + 1) + " did not restart the server");
    }
''')

c("c22-flag-kept-after-failure", "C22",
  "a configuration tool that fails to start with an error that carries no exit code, then the command again",
  "the tool can not be started again",
  [('''            cmtConfigRunning = false;
            if (err) {
''', '''            cmtConfigRunning = err != null && err.code == undefined && !err.killed;
            if (err) {
''')],
  '''    const w = load({ cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" } });
    await w.tick();
    w.commands["ncproj.ncsettingCreate"](); await w.tick();
    w.procs[0].end(Object.assign(new Error("Command failed"), { killed: false, signal: "SIGSEGV", code: null })); await w.tick();
    w.commands["ncproj.ncsettingCreate"](); await w.tick();
    w.check(w.procs.length === 2, "the tool is not started again");
''')

c("c23-options-twice-after-failed-restart", "C23",
  "a restart of the server that fails, then the server that replaces it",
  "the server is started with every option twice, which it refuses",
  [('''    const args: Array<string> = [];
    const ncsettingFilePath''', '''    const args: Array<string> = [];
    createLangServer = () => startLangServerIO(executable, addOptions(args), cwd, ["ncproj"]);

    const ncsettingFilePath = config.get<string>("ncsetting.file.path");
    if (ncsettingFilePath) {
        setStatusText(ncsettingFilePath);
    }

    await startNewLangServer();

    afterStartLangServer(executable);
}

function addOptions(args: Array<string>): Array<string> {
    const config = workspace.getConfiguration("ncproj");
    const ncsettingFilePath'''), ('''
    if (ncsettingFilePath) {
        setStatusText(ncsettingFilePath);
    }

    createLangServer = () => startLangServerIO(executable, args, cwd, ["ncproj"]);
    await startNewLangServer();

    afterStartLangServer(executable);
}
''', '''
    return args;
}
''')],
  '''    const w = load({ manual: true, cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" } });
    await w.tick(); w.starts[0].ok(); await w.tick();
    w.notify("/a/mill.ncsetting"); await w.tick();
    w.stops[0].fail(new Error("Stopping the server timed out")); await w.tick();
    const last = w.clients[w.clients.length - 1].args;
    w.check(w.clients.length === 2 && last.filter(a => a === "--ncsetting-path").length === 1, "the server gets " + last.join(" "));
''')

c("c23-announced-although-not-started", "C23",
  "a change of the settings file after which neither the restart nor the start of a new server succeeds",
  "the change is announced as loaded although no server runs",
  [('''                return await startNewLangServer();
            }''', '''                await startNewLangServer();
                return !!langServer;
            }''')],
  '''    const w = load({ manual: true, cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" } });
    await w.tick(); w.starts[0].ok(); await w.tick();
    w.notify("/a/mill.ncsetting"); await w.tick();
    w.stops[0].ok(); await w.tick();
    for (let i = 1; i < w.starts.length; ++i) { w.starts[i].fail(new Error("Launching server using command failed.")); await w.tick(); }
    w.check(w.starts.length >= 3, "a new server is tried");
    w.check(!w.infos.some(m => /loaded/.test(m)), "announced: " + w.infos.join("; "));
''')

c("c23-left-running-after-crash-of-restart", "C23",
  "a restart of the server that fails, a new server that replaces it, then the end of the window",
  "the server that replaced the first one is not stopped with the extension",
  [('''async function startNewLangServer(): Promise<boolean> {
    let started = true;
    langServer = createLangServer();
''', '''async function startNewLangServer(): Promise<boolean> {
    let started = true;
    const newServer = createLangServer();
    firstServer = firstServer || newServer;
    langServer = newServer;
'''), ('''    return langServer.stop();
''', '''    return firstServer.stop();
'''), ('''let langServer: LanguageClient;
''', '''let langServer: LanguageClient;
let firstServer: LanguageClient | undefined;
''')],
  '''    const w = load({ manual: true, cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" } });
    await w.tick(); w.starts[0].ok(); await w.tick();
    w.notify("/a/mill.ncsetting"); await w.tick();
    w.stops[0].ok(); await w.tick(); w.starts[1].fail(new Error("no")); await w.tick();
    w.starts[2].ok(); await w.tick();
    const running = w.all[w.all.length - 1];
    w.check(running.state === 2, "the new server runs");
    const x = w.deactivate(); await w.tick(); if (w.stops[1]) w.stops[1].ok(); await w.tick(); void x;
    w.check(running.state === 1, "the server is left behind");
''')

c("c24-scope-of-another-dialog", "C24",
  "two file choosing commands whose file dialogs are open at the same time, with different scopes chosen",
  "the first file is stored in the scope chosen for the second one",
  [('''function askFilePath(
''', '''let configurationTarget = ConfigurationTarget.Workspace;

function askFilePath(
'''), ('''        if (selection == saveInUser || selection == saveInWorkspace) {
''', '''        if (selection == saveInUser || selection == saveInWorkspace) {
            configurationTarget = selection == saveInUser ? ConfigurationTarget.Global : ConfigurationTarget.Workspace;
'''), ('''                        let configurationTarget: ConfigurationTarget = ConfigurationTarget.Workspace;
                        if (selection == saveInUser) {
                            configurationTarget = ConfigurationTarget.Global;
                        }
''', "")],
  '''    let n = 0;
    const w = load({ slow: true, cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" }, answer: (m, b) => b.find(x => (n++ ? /workspace/ : /user/).test(x)) });
    await w.tick();
    w.commands["ncproj.ncsettingSelect"](); await w.tick();
    w.commands["ncproj.macroDescriptionsSelect"](); await w.tick();
    w.dialogs[0]("/x/a.ncsetting"); await w.tick();
    w.check(w.updates[0].k === "ncsetting.file.path" && w.updates[0].t === 1, "stored in scope " + w.updates[0].t);
''')

c("c24-toggle-remembers", "C24",
  "a toggle whose update fails, or a change of the setting by hand, and then another toggle",
  "the toggle stores the value that is in effect already",
  [('''        const calculatePathTime = config.get<boolean>("calculate.pathtime.enable");

''', '''        const calculatePathTime = toggled ?? config.get<boolean>("calculate.pathtime.enable");
        toggled = !calculatePathTime;

'''), ('''function registerCmdTogglePathTimeCalculation(''', '''// the configuration shows an update with a delay only
let toggled: boolean | undefined;

function registerCmdTogglePathTimeCalculation(''')],
  '''    const w = load({ cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting", "ncproj.calculate.pathtime.enable": true } });
    await w.tick();
    w.commands["ncproj.togglePathTimeCalculation"](); await w.tick();
    w.check(w.updates[0].v === false, "first toggle"); w.updates[0].d.fail(new Error("dirty")); await w.tick();
    w.commands["ncproj.togglePathTimeCalculation"](); await w.tick();
    w.check(w.updates[1].v === false, "the second toggle stores " + w.updates[1].v);
''')

c("c24-second-question-replaces-first", "C24",
  "a reload question that is answered late, after a newer one was asked",
  "the window is not reloaded although the user asked for it",
  [('''function askReloadWindow(message: string) {
''', '''let lastQuestion = 0;

function askReloadWindow(message: string) {
    const question = ++lastQuestion;
'''), ('''        if (selection === "Reload Window") {
''', '''        if (selection === "Reload Window" && question == lastQuestion) {
''')],
  '''    const w = load({ cfg: { "ncproj.ncsetting.file.path": "/a/mill.ncsetting" } });
    await w.tick();
    w.user("ncproj.debug.log.path"); await w.tick();
    w.user("ncproj.calculate.pathtime.enable"); await w.tick();
    w.warnings[0].d.ok("Reload Window"); await w.tick();
    w.check(w.executed.includes("workbench.action.reloadWindow"), "the window was not reloaded");
''')
