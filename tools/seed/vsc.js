// vsc.js: runs /repo's extension.ts (cwd is /repo) against a scripted VS Code.  Everything asynchronous is completed by the demo.
const fs = require("fs"), path = require("path"), Module = require("module"), EventEmitter = require("events");
let ts; for (const d of ["/opt/veriftools/node/node_modules/typescript", "typescript"]) try { ts = require(d); break; } catch (e) { void e; }
exports.load = (opt) => {
    const w = { reads: [], procs: [], warnings: [], status: [], starts: [], stops: [], cfg: opt.cfg || {}, commands: {}, updates: [], unhandled: [], texts: [], clients: [], infos: [], dialogs: [], all: [], executed: [] };
    process.on("unhandledRejection", e => w.unhandled.push(e));
    const uri = p => ({ fsPath: p, path: p, scheme: "file", toString: () => "file://" + p });
    let change, config = [];
    const defer = () => { const d = {}; d.p = new Promise((a, b) => { d.ok = a; d.fail = b; }); return d; };
    const bar = {}; let text = ""; Object.defineProperty(bar, "text", { get: () => text, set: x => { text = x; w.texts.push(x); } }); bar.show = () => {}; bar.dispose = () => {}; w.bar = bar;
    const msg = (m, ...b) => { if (b.includes("Reload Window")) { const d = defer(); w.warnings.push({ m, d }); return d.p; } if (b.length) return Promise.resolve(opt.answer ? opt.answer(m, b) : undefined); return Promise.resolve(); };
    const vscode = {
        window: { createOutputChannel: () => ({ appendLine() {}, show() {} }), createStatusBarItem: () => bar, showInformationMessage: (m, ...b) => { w.infos.push(m); return msg(m, ...b); }, showWarningMessage: msg, showErrorMessage: msg, showOpenDialog: () => { const d = defer(); if (opt.slow) w.dialogs.push(p => d.ok(p ? [uri(p)] : undefined)); else d.ok(opt.open ? [uri(opt.open)] : undefined); return d.p; } },
        workspace: {
            getConfiguration: s => ({ get: k => w.cfg[s + "." + k], update: (k, v, t) => { const d = defer(); w.updates.push({ k, v, t, d }); return d.p; } }),
            onDidChangeConfiguration: l => { config.push(l); return { dispose() {} }; },
            createFileSystemWatcher: () => ({ onDidChange: l => { change = l; }, dispose() {} }),
        },
        commands: { registerCommand: (n, f) => { w.commands[n] = f; return { dispose() {} }; }, executeCommand: (n) => { w.executed.push(n); return Promise.resolve(); } },
        Uri: { file: p => uri(path.normalize(p)) }, RelativePattern: class {}, ConfigurationTarget: { Global: 1, Workspace: 2 }, StatusBarAlignment: { Left: 1, Right: 2 },
    };
    const State = { Stopped: 1, Running: 2, Starting: 3 };
    class LanguageClient {
        constructor(id, server) { w.clients.push(server); w.all.push(this); this.state = State.Stopped; }
        onDidChangeState() {}
        async start() { this.state = State.Starting; const d = defer(); w.starts.push(d); if (!opt.manual) d.ok(); await d.p; this.state = State.Running; }
        async stop() { const d = defer(); w.stops.push(d); if (!opt.manual) d.ok(); await d.p; this.state = State.Stopped; }
        async restart() { await this.stop(); await this.start(); }
    }
    const stub = {
        vscode, "vscode-languageclient": {}, "vscode-languageclient/node": { LanguageClient, State },
        child_process: { exec: (c, o, cb) => { const p = new EventEmitter(); p.end = e => cb(e || null, "", ""); w.procs.push(p); return p; } },
        fs: { ...fs, readFile: (p, cb) => w.reads.push({ p, cb, ok: t => cb(null, Buffer.from(t)), fail: () => cb(Object.assign(new Error("EIO"), { code: "EIO" })) }) },
    };
    const src = path.join(process.cwd(), "vscode-client/src/extension.ts");
    const js = ts.transpileModule(fs.readFileSync(src, "utf8"), { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2017 } }).outputText;
    const m = new Module(src); m.filename = src; m.paths = [];
    const load = Module._load; Module._load = (n, ...r) => n in stub ? stub[n] : load(n, ...r);
    const real = process.platform; Object.defineProperty(process, "platform", { value: opt.platform || "win32" }); void real;
    const log = console.log; console.log = () => {};
    m._compile(js, src);
    m.exports.activate({ subscriptions: [], extensionPath: "/ext" });
    w.notify = p => change(uri(p)); w.user = k => { for (const l of config) l({ affectsConfiguration: s => s === k || k.startsWith(s + ".") }); };
    w.deactivate = () => m.exports.deactivate();
    w.tick = () => new Promise(r => setTimeout(r, 20));
    w.check = (c, m) => { if (!c) { console.error("FAILED: " + m); process.exit(1); } };
    w.done = () => { log("ok"); process.exit(0); };
    return w;
};
