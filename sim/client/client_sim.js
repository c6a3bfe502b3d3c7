#!/usr/bin/env node
// Deterministic simulator of the VS Code client (vscode-client/src/extension.ts).
// One run = one plan: a world (platform, settings file, configuration), operations of user and file system with their
// times, a list of latencies for every kind of asynchronous call, and a list of faults.  The compiled extension runs
// against simulated vscode, vscode-languageclient, child_process, fs, timers and clock; the plan decides when and with
// which outcome each call completes.  Nothing else is nondeterministic: promises settle in node's fixed microtask order,
// and all microtasks are drained between two simulated events.
"use strict";
const realFs = require("fs"), realPath = require("path"), vm = require("vm"), Module = require("module"), util = require("util");
const EventEmitter = require("events"), { AsyncLocalStorage } = require("async_hooks");
const als = new AsyncLocalStorage();               // what caused the code that is running: follows promises, timers and callbacks
const REAL = { setImmediate, hr: process.hrtime.bigint, exit: process.exit.bind(process), Date, console };

// ---------------------------------------------------------------- randomness
function fnv(s) { let h = 1469598103934665603n; for (const c of Buffer.from(s)) { h ^= BigInt(c); h = (h * 1099511628211n) & 0xffffffffffffffffn; } return h; }
class Rng {
    constructor(seed) { seed = BigInt(seed); this.a = Number(seed & 0xffffffffn) | 0; this.b = Number((seed >> 32n) & 0xffffffffn) | 0; this.c = 0x9e3779b9 | 0; this.d = 1; for (let i = 0; i < 15; ++i) this.u32(); }
    u32() { const t = (((this.a + this.b) | 0) + this.d) | 0; this.d = (this.d + 1) | 0; this.a = this.b ^ (this.b >>> 9); this.b = (this.c + (this.c << 3)) | 0; this.c = (this.c << 21) | (this.c >>> 11); this.c = (this.c + t) | 0; return t >>> 0; }
    below(n) { return n > 0 ? this.u32() % n : 0; }
    range(a, b) { return a + this.below(b - a + 1); }
    chance(p) { return this.u32() / 4294967296 < p; }
    pick(v) { return v[this.below(v.length)]; }
}
class Hash {
    constructor() { this.a = 0x811c9dc5 | 0; this.b = 0x1234567 | 0; }
    add(s) { let a = this.a, b = this.b; for (let i = 0; i < s.length; ++i) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 0x01000193); b = Math.imul(b ^ c, 0x5bd1e995); b ^= b >>> 13; } this.a = Math.imul(a ^ 0x2f, 0x01000193); this.b = Math.imul(b ^ 0x2f, 0x5bd1e995); }
    hex() { return (this.a >>> 0).toString(16).padStart(8, "0") + (this.b >>> 0).toString(16).padStart(8, "0"); }
}

// ---------------------------------------------------------------- plans
const KINDS = ["read", "snap", "start", "stop", "exec", "update", "event", "reply", "dialog"];
const WATCHED = ["ncproj.debug.log.path", "ncproj.ncsetting.file.path", "ncproj.calculate.pathtime.enable", "ncproj.macro.descriptions.path"];
const DEFAULTS = { "ncproj.debug.log.path": "", "ncproj.ncsetting.file.path": "", "ncproj.calculate.pathtime.enable": true, "editor.fontSize": 14, "files.eol": "auto", "ncprojx.other": 0, "ncproj.ui.colour": "red" };
function genPlan(prop, seed) {
    const r = new Rng(seed);
    const p = { prop, seed: String(seed), platform: r.chance(0.5) ? "win32" : "linux", world: {}, ops: [], lat: {}, faults: [] };
    const scale = r.pick([3, 20, 100, 600, 3000, 3000, 40000]);
    for (const k of KINDS) { p.lat[k] = []; for (let i = 0; i < 40; ++i) p.lat[k].push(r.chance(0.3) ? 0 : r.chance(0.12) ? r.below(scale * 10) : r.below(scale)); }
    if (prop === "C22" && r.chance(0.4)) for (let i = 0; i < 40; ++i) if (r.chance(0.4)) p.lat.exec[i] = r.below(r.pick([60000, 600000, 4000000, 40000000]));     // a configuration window stays open for minutes or hours
    const file = prop === "C19" || prop === "C20" || r.chance(prop === "C23" ? 0.85 : 0.4);
    const w = p.world;
    w.file = file ? r.pick(["/home/u/nc/mill.ncsetting", "/home/u/nc/mill.ncsetting", "/home/u/nc/../nc/mill.ncsetting", "/home/u/nc/a.b.json", "/home/u/nc//lathe", "/home/u/nc/m.nc.old.nc", "/home/u/ünï/söme mill.ncsetting", "/home/u/nc/.ncsetting", "/home/u/nc/nc.ncsetting.ncsetting"]) : "";
    w.first = r.chance(0.8) ? content(r, 0) : r.chance(0.5) ? null : content(r, -1);
    w.global = {}; w.workspace = {};
    if (file) (r.chance(0.5) ? w.global : w.workspace)["ncproj.ncsetting.file.path"] = w.file;
    if (r.chance(0.5)) w.global["ncproj.calculate.pathtime.enable"] = r.chance(0.5);
    if (r.chance(0.2)) w.workspace["ncproj.calculate.pathtime.enable"] = r.chance(0.5);
    if (r.chance(0.3)) w.global["ncproj.debug.log.path"] = "/tmp/log.txt";
    if (r.chance(0.3)) w.workspace["ncproj.macro.descriptions.path"] = "/home/u/macros.json";
    let t = r.chance(0.4) ? 0 : r.below(scale * 3);
    const calm = r.chance(0.25);             // well separated operations
    let v = 0;
    const strangers = prop === "C20" && r.chance(0.12);      // only other files change
    const n = r.chance(0.15) ? r.range(20, 60) : r.range(1, 14);
    const gap = () => { t += calm ? scale * 40 + r.below(100) : r.chance(0.3) ? 0 : r.chance(0.2) ? r.below(scale * 12) : r.below(scale * 2); };
    const write = () => {
        ++v;
        const o = { at: t, k: "write", v, c: content(r, r.chance(0.85) ? v : -v), n: [r.below(scale)] };
        if (r.chance(0.25)) o.torn = { len: r.pick([0, 1, 7, -1]), d: r.below(scale), note: r.chance(0.5) ? r.below(scale) : -1 };   // -1: gone for a moment
        while (r.chance(0.3)) o.n.push(r.below(scale * 4));
        return o;
    };
    const value = (key) => key.endsWith("enable") ? r.chance(0.5) : r.pick(["", "/x/1.ncsetting", "/x/2.ncsetting", "/x/3.json", "/x/" + r.below(1000)]);
    const user = () => {
        const keys = [r.pick(WATCHED)]; while (r.chance(0.15)) keys.push(r.pick(WATCHED.concat(["editor.fontSize"])));
        return { at: t, k: "user", set: keys.map(k => [k, r.chance(0.6) ? "global" : "workspace", k === "editor.fontSize" ? r.below(30) : value(k)]), merge: r.chance(0.06) ? 1 : 0 };
    };
    const other = () => ({ at: t, k: "user", set: [[r.pick(["editor.fontSize", "files.eol", "ncprojx.other", "ncproj.ui.colour"]), "global", r.below(1000)]], merge: 0 });
    const dlg = (last) => { p.world.dlg = p.world.dlg || []; void last; };
    void dlg;
    for (let i = 0; i < n; ++i) {
        gap();
        const x = strangers ? r.range(62, 69) : r.below(100);
        if (prop === "C19" || prop === "C20" || (prop === "C23" && file)) {
            if (prop === "C23" && x >= 88) p.ops.push(r.chance(0.5) ? user() : { at: t, k: "cmd", name: r.pick(["ncproj.ncsettingCreate", "ncproj.togglePathTimeCalculation"]) });
            else if (x < 62) p.ops.push(write());
            else if (x < 70) p.ops.push({ at: t, k: "notify", rel: "other", how: r.pick(["other", "prefix", "suffix", "case", "sub", "sub", "up", "double"]) });
            else if (x < 80) p.ops.push({ at: t, k: "notify", rel: "same" });
            else if (x < 88) p.ops.push({ at: t, k: "crash" });
            else if (x < 94) p.ops.push(other());
            else p.ops.push(user());
        } else if (prop === "C24") {
            if (x < 14) p.ops.push(user());
            else if (x < 20) p.ops.push(other());
            else if (x < 40) p.ops.push({ at: t, k: "cmd", name: "ncproj.togglePathTimeCalculation" });
            else if (x < 66) p.ops.push({ at: t, k: "cmd", name: "ncproj.ncsettingSelect" });
            else if (x < 88) p.ops.push({ at: t, k: "cmd", name: "ncproj.macroDescriptionsSelect" });
            else if (x < 94) p.ops.push({ at: t, k: "cmd", name: "ncproj.macroDescriptionsPlaceholder" });
            else p.ops.push({ at: t, k: "cmd", name: "ncproj.ncsettingCreate" });
        } else if (prop === "C21") {
            if (x < 35) p.ops.push(user());
            else if (x < 50) p.ops.push(other());
            else if (x < 68) p.ops.push({ at: t, k: "cmd", name: "ncproj.togglePathTimeCalculation" });
            else if (x < 82) p.ops.push({ at: t, k: "cmd", name: "ncproj.ncsettingSelect", path: r.pick(["/x/1.ncsetting", "/x/2.ncsetting", "/x/3.ncsetting", "/x/" + r.below(100)]) });
            else if (x < 95) p.ops.push({ at: t, k: "cmd", name: "ncproj.macroDescriptionsSelect", path: r.pick(["/x/3.json", "/x/4.json", "/x/" + r.below(100)]) });
            else if (file) p.ops.push(write());
        } else {
            if (x < 80) p.ops.push({ at: t, k: "cmd", name: "ncproj.ncsettingCreate" });
            else if (x < 90) p.ops.push({ at: t, k: "cmd", name: "ncproj.togglePathTimeCalculation" });
            else p.ops.push(other());
        }
    }
    // outcomes of dialogs: what the user answers to the n-th question of a kind
    w.pick = []; w.open = []; w.startup = r.pick(["create", "create", "select", "no", "", "late"]); w.reload = [];
    for (let i = 0; i < 30; ++i) { w.pick.push(r.pick(["user", "user", "workspace", "workspace", "no", ""])); w.open.push(r.pick(["ok", "ok", "ok", "ok", "cancel", "empty"])); w.reload.push(r.chance(0.2) ? 1 : 0); }
    // faults
    const f = (k, kinds, max, per) => { if (!r.chance(per)) return; let c = 1; while (c < max && r.chance(0.5)) ++c; for (let i = 0; i < c; ++i) p.faults.push({ k, n: r.chance(0.5) ? r.below(4) : r.below(14), f: r.pick(kinds) }); };
    if (prop === "C19" || prop === "C20" || prop === "C23") {
        f("read", ["EACCES", "EMFILE", "ENOENT", "EIO"], 4, 0.4);
        f("start", ["spawn", "initialize", "crash"], 4, 0.45);
        f("stop", ["timeout", "failed"], 4, 0.4);
        f("run", ["crash"], 2, 0.15);
        if (prop === "C23") f("exec", ["exit1", "ENOENT", "throw"], 2, 0.3);
    } else if (prop === "C21" || prop === "C24") {
        f("update", ["dirty", "unregistered", "readonly", "throw"], 5, 0.5);
        if (prop === "C21") f("dialog", ["reject"], 2, 0.2);
        f("order", ["reply-first"], 8, 0.5);
        f("start", ["spawn"], 1, 0.1);
    } else {
        f("exec", ["exit1", "signal", "shell", "timeout", "ENOENT", "EACCES", "maxBuffer", "throw", "throw"], 8, 0.75);
        f("start", ["spawn"], 1, 0.1);
    }
    if (prop === "C22" || prop === "C23" || prop === "C24") w.ext = p.platform === "win32" ? r.pick(["C:\\ext", "C:\\Users\\John Smith\\.vscode\\extensions\\ncproj-1.0.0", "\\\\server\\home\\u\\.vscode\\extensions\\ncproj"]) : r.pick(["/ext", "/home/John Smith/.vscode/extensions/ncproj-1.0.0"]);
    if (r.chance(0.15)) w.jump = [r.below(t + 1), r.pick([-1, 1]) * r.below(1e9)];
    return p;
}
function content(r, v) {
    const q = Math.abs(v), name = "Mill-" + q;
    if (v < 0 || (v === 0 && r.chance(0.05)))
        return r.pick(["", "{", "null", "[]", "7", "{}", '{"machine_tool_id":""}', '{"machine_tool_id":"  \\t "}', '{"machine_tool_id":5}', '{"machine_tool_id":null}', '{"machine_tool_id":["x"]}', '{"machine_tool_id":{"a":1}}', '{"Machine_tool_id":"x"}', '{"machine_tool_id":"Mill-' + q + '"', "\u0000"]);
    return r.pick(['{"machine_tool_id":"' + name + '"}', '{"machine_tool_id":"' + name + '"}', '{"x":[1,2],"machine_tool_id":"  ' + name + ' "}', '{\n "machine_tool_id" : "' + name + '",\n "a": {"machine_tool_id":"no"}\n}', '{"machine_tool_id":"' + name + ' ü \\"quoted\\""}']);
}
function nameOf(text, file) {
    const st = realPath.basename(realPath.normalize(file), realPath.extname(realPath.normalize(file)));
    if (text === null) return st;
    try { const o = JSON.parse(text); const m = o && o.machine_tool_id; if (typeof m === "string" && m.trim()) return m.trim(); } catch (e) { /* no name */ }
    return st;
}

// ---------------------------------------------------------------- the simulated world
let cur = null;                                    // the run whose code is executing
function onUnhandled(e) { if (cur) { cur.log("unhandled", String(e && e.message || e)); cur.unhandled.push(String(e && e.message || e)); } }
process.on("unhandledRejection", onUnhandled);
process.on("uncaughtException", (e) => { if (cur) onUnhandled(e); else { REAL.console.error(e); REAL.exit(3); } });

class World {
    constructor(plan, trace) {
        this.plan = plan; this.now = 0; this.seq = 0; this.q = []; this.hash = new Hash(); this.shape = new Hash(); this.trace = trace ? [] : null;
        this.count = {}; this.fired = {}; this.ops = {}; this.probes = {}; this.steps = 0; this.unhandled = []; this.calmAt = Infinity;
        this.file = plan.world.first; this.fileV = 0; this.path = plan.world.file ? realPath.normalize(plan.world.file) : "";
        this.store = { global: { ...plan.world.global }, workspace: { ...plan.world.workspace } }; this.view = { global: { ...this.store.global }, workspace: { ...this.store.workspace } };
        this.cfgListeners = []; this.watchers = []; this.commands = new Map(); this.status = []; this.warnings = []; this.notes = []; this.procs = []; this.attempts = []; this.tools = []; this.cfg = []; this.own = []; this.lastUpdate = 0; this.lastEvent = 0; this.reads = []; this.invocations = []; this.pending = 0; this.reloads = 0;
        this.wallBase = 1700000000000;
        this.ext = plan.world.ext || (plan.platform === "win32" ? "C:\\ext" : "/ext"); this.px = plan.platform === "win32" ? realPath.win32 : realPath.posix;
        this.outDir = this.px.join(this.ext, "vscode-client", "out"); this.causes = []; this.executed = []; this.docs = []; this.loaded = []; this.reports = [];
    }
    log(kind, x) { const s = this.now + " " + kind + " " + (x === undefined ? "" : x); this.hash.add(s); this.shape.add(kind + (/^(read|status|restart|proc|warn|tool|cfg)/.test(kind) ? String(x).replace(/\d+/g, "#") : "")); if (this.trace) this.trace.push(s); }
    at(t, fn0, what) { const ctx = als.getStore(), fn = () => als.run(ctx, fn0); let e = { t: Math.max(t, this.now), s: this.seq++, fn, what }; let i = this.q.length; this.q.push(e); while (i > 0) { const p = (i - 1) >> 1; if (this.less(this.q[p], e)) break; this.q[i] = this.q[p]; this.q[p] = e; i = p; } return e; }
    less(a, b) { return a.t < b.t || (a.t === b.t && a.s < b.s); }
    pop() { const q = this.q, top = q[0], e = q.pop(); if (q.length) { let i = 0; for (;;) { let c = 2 * i + 1; if (c >= q.length) break; if (c + 1 < q.length && this.less(q[c + 1], q[c])) ++c; if (!this.less(q[c], e)) break; q[i] = q[c]; i = c; } q[i] = e; } return top; }
    after(ms, fn, what) { return this.at(this.now + ms, fn, what); }
    lat(kind) { const n = this.count["lat." + kind] = (this.count["lat." + kind] || 0) + 1; const a = this.plan.lat[kind] || []; return n <= a.length ? a[n - 1] : 1; }
    fault(kind) { const n = this.count["f." + kind] = (this.count["f." + kind] || 0) + 1; if (this.now >= this.calmAt) return ""; for (const f of this.plan.faults) if (f.k === kind && f.n === n - 1) { this.fired[kind + " " + f.f] = (this.fired[kind + " " + f.f] || 0) + 1; this.log("fault", kind + " " + f.f); return f.f; } return ""; }
    within(what, more, fn) { const c = { what, t: this.now, asks: [], dialogs: [], updates: [], errors: 0, docs: [], shown: 0, executed: [], tools: 0, ...more }; this.causes.push(c); return als.run(c, fn); }
    cause() { return als.getStore() || this.nobody || (this.nobody = { what: "nobody", asks: [], dialogs: [], updates: [], errors: 0, docs: [], shown: 0, executed: [], tools: 0 }); }
    hit(p) { this.probes[p] = (this.probes[p] || 0) + 1; }

    // files ----------------------------------------------------------
    isFile(p) { return this.path && realPath.normalize(String(p)) === this.path; }
    openRead(p, done) {
        const path = realPath.normalize(typeof p === "string" ? p : p && p.fsPath ? p.fsPath : String(p));
        const f = this.fault("read"), total = this.lat("read"), snap = Math.min(total, this.lat("snap"));
        const rec = { begun: this.now, fault: f, path, v: null, done: false }; this.reads.push(rec);
        this.log("read.begin", realPath.basename(path));
        if (this.reads.filter(x => !x.done).length > 1) this.hit("reads overlap");
        let snapped = null;
        this.after(snap, () => { rec.v = this.fileV; snapped = this.isFile(path) ? this.file : null; });
        this.after(total, () => {
            rec.done = true; rec.end = this.now;
            if (f || snapped === null) { const code = f || "ENOENT"; const e = Object.assign(new Error(code + ": read failed, open '" + path + "'"), { code, errno: -1, syscall: "open", path }); this.log("read.fail", code); done(e, undefined); }
            else { this.log("read.end", rec.v); done(null, Buffer.from(snapped)); }
        });
    }
    readSync(p) { const f = this.fault("read"); const rec = { begun: this.now, fault: f, path: String(p), v: this.fileV, done: true, end: this.now }; this.reads.push(rec); if (f || !this.isFile(p) || this.file === null) throw Object.assign(new Error((f || "ENOENT") + ": read failed"), { code: f || "ENOENT" }); return Buffer.from(this.file); }
    notify(path, ver, cls) {
        this.log("notify", realPath.basename(path));
        for (const w of this.watchers.slice()) if (!w.gone && !w.ignoreChange && w.match(path)) for (const l of w.change.slice()) { const uri = this.uri(path); this.within("notify", { own: cls === "own" }, () => this.guard(() => l(uri))); }
        if (cls === "own") this.notes.push({ t: this.now, v: ver });
        else if (cls === "other") this.notes.push({ t: this.now, other: true });
    }
    guard(fn) { try { const x = fn(); void x; } catch (e) { this.log("thrown", String(e && e.message)); this.unhandled.push("thrown by a handler: " + String(e && e.message)); } }
    uri(p) { return { scheme: "file", authority: "", path: p, query: "", fragment: "", fsPath: p, toString: () => "file://" + p, with: () => this.uri(p), toJSON: () => p }; }

    // configuration --------------------------------------------------
    effective(view, key) { return key in view.workspace ? view.workspace[key] : key in view.global ? view.global[key] : DEFAULTS[key]; }
    change(set, who, merge) {                       // a change of the stored settings; the host hears of it later
        const keys = [];
        for (const [k, target, val] of set) { const s = this.store[target]; if (JSON.stringify(s[k]) === JSON.stringify(val)) continue; if (val === undefined) delete s[k]; else s[k] = val; keys.push(k); }
        if (!keys.length) return null;
        const snap = { global: { ...this.store.global }, workspace: { ...this.store.workspace } };
        const ev = { keys, who: [who], snap, t: -1, at: 0, byWho: {} };
        ev.byWho[who] = keys.slice();
        const last = this.cfg[this.cfg.length - 1];
        if (merge && last && last.t < 0 && last.who.indexOf(who) < 0 && !keys.some(k => last.keys.includes(k))) { last.keys.push(...keys); last.who.push(who); last.byWho[who] = keys.slice(); last.snap = snap; this.hit("changes merged"); return last; }
        this.cfg.push(ev);
        ev.at = this.lastEvent = Math.max(this.lastEvent, this.now + this.lat("event"));
        this.at(ev.at, () => this.deliver(ev));
        return ev;
    }
    deliver(ev) {
        ev.t = this.now; this.view = ev.snap;
        this.log("cfg.event", ev.keys.join(",") + " by " + ev.who.join("+"));
        const e = { affectsConfiguration: (s) => ev.keys.some(k => k === s || k.startsWith(s + ".") || s.startsWith(k + ".")) };
        for (const l of this.cfgListeners.slice()) this.within("config", {}, () => this.guard(() => l(e)));
    }
    update(key, val, target) {
        const f = this.fault("update");
        const own = { key, t: this.now, fault: f, ev: null }; this.own.push(own);
        this.cause().updates.push({ key, val, target: target === true || target === 1 ? "global" : target === 3 ? "folder" : "workspace", fault: f });
        this.log("update", key);
        if (f === "throw") { throw new Error("update is not possible now"); }
        return new Promise((res, rej) => {
            const when = this.lastUpdate = Math.max(this.lastUpdate, this.now + this.lat("update"));
            this.at(when, () => {
                if (f) { this.log("update.fail", key); return rej(new Error("Unable to write to settings (" + f + ")")); }
                const t = target === true || target === 1 ? "global" : target === undefined || target === null || target === false || target === 2 ? "workspace" : "workspace";
                own.ev = this.change([[key, t, val]], "own", 0);
                if (!own.ev) { this.hit("update without a change"); this.after(this.lat("reply"), () => res()); return; }
                if (this.fault("order") === "reply-first") this.after(0, () => res());
                else this.at(own.ev.at + this.lat("reply"), () => res());
            });
        });
    }

    // language client ------------------------------------------------
    alive() { return this.procs.filter(p => p.end < 0); }
    // the program a command line (or a path, without a shell) names, as the shell of the platform reads it
    program(line, cwd, shell) {
        const win = this.plan.platform === "win32"; let prog = String(line);
        if (shell) { const m = win ? /^\s*(?:"([^"]*)"|([^\s"]+))/.exec(prog) : /^\s*(?:"([^"]*)"|'([^']*)'|((?:\\.|[^\s"'\\])+))/.exec(prog); prog = m ? m[1] !== undefined ? m[1] : m[2] !== undefined ? m[2] : m[3].replace(/\\(.)/g, "$1") : ""; }
        if (!win && !prog.includes("/")) return "";
        const full = this.px.resolve(String(cwd || this.outDir), prog);
        return win && !this.px.extname(full) ? full + ".exe" : full;
    }
    tool(what, line, opt, shell) {
        const run = { begun: this.now, end: -1 }; this.tools.push(run); ++this.cause().tools;
        const want = this.px.join(this.outDir, "cmtconfig" + (this.plan.platform === "win32" ? ".exe" : "")), is = this.program(line, opt && opt.cwd, shell || (opt && opt.shell));
        run.wrong = this.plan.platform === "win32" ? is.toLowerCase() !== want.toLowerCase() : is !== want;
        run.fault = "";
        const f = run.fault = this.fault("exec") || (run.wrong ? what === "exec" && shell ? "exit1" : "ENOENT" : "");
        this.log("tool.start", f);
        if (this.tools.filter(t => t.end < 0).length > 1) this.hit("two tools");
        if (f === "throw") { run.end = this.now; this.log("tool.throw"); throw Object.assign(new Error("spawn ENOMEM"), { code: "ENOMEM" }); }
        const em = new EventEmitter(); em.pid = 1000 + this.tools.length; em.stdout = new EventEmitter(); em.stderr = new EventEmitter(); em.stdin = { write() { return true; }, end() {} }; em.exitCode = null;
        em.kill = () => true; em.unref = () => {}; em.ref = () => {}; em.stdout.setEncoding = em.stderr.setEncoding = () => {}; em.stdout.pipe = em.stderr.pipe = (x) => x;
        const early = f === "ENOENT" || f === "EACCES" || f === "shell";
        this.after(early ? 0 : this.lat("exec"), () => {
            run.end = this.now; this.log("tool.end", f);
            let err = null;
            if (early && what === "spawn") err = Object.assign(new Error("spawn " + f), { code: f, errno: -2 });
            else if (early && f !== "shell") err = Object.assign(new Error("Command failed: not found"), { code: f === "ENOENT" ? 127 : 126, killed: false });
            else if (f === "exit1") err = Object.assign(new Error("Command failed"), { code: 1, killed: false, signal: null });
            else if (f === "signal") err = Object.assign(new Error("Command failed"), { code: null, killed: false, signal: "SIGSEGV", cmd: "cmtconfig" });
            else if (f === "shell") err = Object.assign(new Error("spawn /bin/sh ENOENT"), { code: "ENOENT", errno: -2, syscall: "spawn /bin/sh", path: "/bin/sh" });
            else if (f === "timeout") err = Object.assign(new Error("Command failed"), { code: null, killed: true, signal: "SIGTERM" });
            else if (f === "maxBuffer") err = Object.assign(new RangeError("stdout maxBuffer length exceeded"), { code: "ERR_CHILD_PROCESS_STDIO_MAXBUFFER" });
            em.exitCode = err ? 1 : 0;
            if (em.done) this.guard(() => em.done(err, "out", err ? "err" : ""));
            if (early && what === "spawn") { this.guard(() => em.emit("error", err)); return; }
            this.guard(() => em.emit("exit", err ? (typeof err.code === "number" ? err.code : null) : 0, err ? err.signal || null : null));
            this.guard(() => em.emit("close", err ? (typeof err.code === "number" ? err.code : null) : 0, err ? err.signal || null : null));
        });
        return em;
    }
}

// vscode-languageclient 8: states and failures of start, stop, restart, as in its client.ts
function makeClientModule(w) {
    const State = { Stopped: 1, Running: 2, Starting: 3 };
    class LanguageClient {
        constructor(id, b, c, d) { if (typeof b === "string") { this._id = id; this._server = c; this._clientOptions = d; } else { this._id = id; this._server = b; this._clientOptions = c; } this._st = "initial"; this._onStart = undefined; this._onStop = undefined; this._disposed = false; this._listeners = []; this._crashes = []; this._proc = null; this.outputChannel = channel(w); }
        get state() { return this._st === "running" ? State.Running : this._st === "starting" ? State.Starting : State.Stopped; }
        onDidChangeState(l) { this._listeners.push(l); return { dispose: () => { this._listeners = this._listeners.filter(x => x !== l); } }; }
        _set(s) { const o = this.state; this._st = s; const n = this.state; w.log("client", s); if (o !== n) for (const l of this._listeners.slice()) w.guard(() => l({ oldState: o, newState: n })); }
        isRunning() { return this._st === "running"; }
        needsStart() { return this._st === "initial" || this._st === "stopping" || this._st === "stopped"; }
        needsStop() { return this._st === "starting" || this._st === "running"; }
        onReady() { return this._onStart || Promise.resolve(); }
        start() { return this._doStart(false); }
        async _doStart(auto) {
            if (this._disposed) throw new Error("Client got disposed and can't be restarted.");
            if (this._st === "stopping") throw new Error("Client is currently stopping. Can only restart a full stopped client");
            if (this._onStart !== undefined) return this._onStart;
            let res, rej; const pr = new Promise((a, b) => { res = a; rej = b; });
            this._onStart = pr;
            this._set("starting");
            const f = w.fault("start");
            const p = { opt: this._server, cl: this._clientOptions, begun: w.now, end: -1, why: auto ? "auto" : "asked", ok: false, client: this };
            const at = { t: w.now, what: "start", auto, fault: f, failed: -1 }; w.attempts.push(at);
            w.log("proc.start", auto ? "auto" : "asked");
            if (w.alive().length) { w.hit("second server"); w.twoServers = true; }
            w.procs.push(p); this._proc = p;
            const d = f === "spawn" ? 0 : w.lat("start");
            w.after(d, () => {
                if (f) {
                    at.failed = w.now; if (p.end < 0) { p.end = w.now; p.failed = true; }
                    w.log("proc.failed", f); this._set("startFailed"); rej(new Error(f === "spawn" ? "Launching server using command failed." : "Pending response rejected since connection got disposed"));
                } else {
                    p.ok = true; p.ready = w.now; this._set("running"); res();
                    if (w.fault("run") === "crash") w.after(w.lat("start"), () => this._crash());
                }
            });
            pr.catch(() => {});     // reported by start()'s own promise
            return this._onStart;
        }
        _crash() {
            if (this._st !== "running" || !this._proc || this._proc.end >= 0) return;
            this._proc.end = w.now; this._proc.crashed = true; w.log("proc.crash");
            this._crashes.push(w.now);
            if (this._crashes.length <= 4) { w.hit("server restarted after a crash"); this._onStart = undefined; this._set("initial"); this._doStart(true).catch(() => {}); }
            else { this._onStart = undefined; this._set("stopped"); }
        }
        stop(timeout) { return this._doStop(timeout === undefined ? 2000 : timeout); }
        async _doStop(timeout) {
            if (this._st === "stopped" || this._st === "initial") return;
            if (this._st === "stopping") { if (this._onStop !== undefined) return this._onStop; throw new Error("Client is stopping but no stop promise available."); }
            if (this._st !== "running") throw new Error("Client is not running and can't be stopped. It's current state is: " + this._st);
            const f = w.fault("stop"), p = this._proc;
            w.attempts.push({ t: w.now, what: "stop", fault: f });
            this._set("stopping"); w.log("proc.stop", f);
            const d = f === "timeout" ? timeout : Math.min(timeout, w.lat("stop"));
            const done = new Promise((res, rej) => w.after(d, () => {
                p.end = w.now; this._onStart = undefined; this._onStop = undefined; this._proc = null; this._set("stopped");
                if (f === "timeout") rej(new Error("Stopping the server timed out")); else if (f) rej(new Error("Stopping server failed")); else res();
            }));
            done.catch(() => {});
            this._onStop = done;
            return done;
        }
        async restart() { await this.stop(); await this.start(); }
        async dispose(timeout) { if (this._disposed) return; this._disposed = true; await this._doStop(timeout === undefined ? 2000 : timeout); }
        sendNotification() { return Promise.resolve(); }
        sendRequest() { return Promise.resolve(null); }
        onNotification() { return { dispose() {} }; }
        onRequest() { return { dispose() {} }; }
        onTelemetry() { return { dispose() {} }; }
        registerFeature() {}
        registerProposedFeatures() {}
        setTrace() { return Promise.resolve(); }
        error() {} warn() {} info() {}
        get initializeResult() { return this._st === "running" ? { capabilities: {} } : undefined; }
        get diagnostics() { return undefined; }
    }
    const m = { LanguageClient, State, TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 }, RevealOutputChannelOn: { Debug: 0, Info: 1, Warn: 2, Error: 3, Never: 4 }, CloseAction: { DoNotRestart: 1, Restart: 2 }, ErrorAction: { Continue: 1, Shutdown: 2 }, Trace: { Off: 0, Messages: 1, Verbose: 2 } };
    return m;
}
function channel(w) { let text = ""; return { name: "c", append(s) { text += s; }, appendLine(s) { text += s + "\n"; w.log("channel", s.length); }, replace(s) { text = s; }, clear() { text = ""; }, show() { w.log("channel.show"); w.reports.push({ t: w.now, text: text.length }); text = ""; }, hide() {}, dispose() {} }; }
function glob(pattern) {                            // *, **, ? and {a,b} as VS Code reads them
    let re = "", br = 0;
    for (let i = 0; i < pattern.length; ++i) {
        const c = pattern[i];
        if (c === "*" && pattern[i + 1] === "*") { ++i; if (pattern[i + 1] === "/") { ++i; re += "(?:.*/)?"; } else re += ".*"; }
        else if (c === "*") re += "[^/]*"; else if (c === "?") re += "[^/]";
        else if (c === "{") { ++br; re += "(?:"; } else if (c === "}" && br) { --br; re += ")"; } else if (c === "," && br) re += "|";
        else if (c === "[" || c === "]") re += c; else re += c.replace(/[.+^${}()|\\]/g, "\\$&");
    }
    const x = new RegExp("^" + re + "$");
    return s => x.test(s);
}

function makeVscode(w) {
    const disposable = (fn) => ({ dispose: fn || (() => {}) });
    class RelativePattern { constructor(base, pattern) { this.base = typeof base === "string" ? base : base.fsPath || (base.uri && base.uri.fsPath); this.baseUri = w.uri(this.base); this.pattern = pattern; } }
    class Disposable { constructor(f) { this._f = f; } dispose() { if (this._f) { this._f(); this._f = undefined; } } static from(...x) { return new Disposable(() => x.forEach(y => y.dispose())); } }
    class VEmitter { constructor() { this.l = []; this.event = (f) => { this.l.push(f); return disposable(() => { this.l = this.l.filter(x => x !== f); }); }; } fire(e) { for (const f of this.l.slice()) f(e); } dispose() { this.l = []; } }
    const Uri = { file: (p) => w.uri(realPath.normalize(p).replace(/\/+$/, "") || "/"), parse: (s) => w.uri(s.replace(/^file:\/\//, "")), joinPath: (u, ...x) => w.uri(realPath.join(u.fsPath, ...x)) };
    const items = (rest) => { let a = rest; if (a.length && a[0] && typeof a[0] === "object" && ("modal" in a[0] || "detail" in a[0]) && !("title" in a[0])) a = a.slice(1); return a; };
    const text = (i) => typeof i === "string" ? i : i && i.title;
    function message(kind, msg, rest) {
        const its = items(rest), names = its.map(text);
        w.log("warn." + kind, names.join("|") + " " + String(msg).length);
        const reload = names.indexOf("Reload Window");
        if (reload >= 0) w.warnings.push({ t: w.now, msg: String(msg) });
        const cause = w.cause();
        if (/\bNaN\b|\bundefined\b|\[object /.test(String(msg))) w.garbled = String(msg);
        if (kind === "error") ++cause.errors;
        if (kind === "info" && /loaded/.test(msg)) w.loaded.push({ t: w.now, msg: String(msg), cause });
        if (!names.length) return w.promise(0, undefined);
        const ask = { names, reload: reload >= 0, t: w.now, ans: undefined }; cause.asks.push(ask);
        const d = w.lat("dialog");
        let ans;
        if (reload >= 0) ans = w.plan.world.reload[w.bump("reload")] ? its[reload] : undefined;
        else if (names.some(x => /Create/.test(x))) { const s = w.plan.world.startup; const i = names.findIndex(x => s === "create" || s === "late" ? /Create/.test(x) : s === "select" ? /Select/.test(x) : s === "no" ? /^No$/.test(x) : false); ans = i >= 0 ? its[i] : undefined; if (s === "late") { ask.ans = text(ans); return w.promise(d + 5000, ans); } }
        else { const s = w.plan.world.pick[w.bump("pick")] || "user"; const i = names.findIndex(x => s === "user" ? /user/.test(x) : s === "workspace" ? /workspace/.test(x) : s === "no" ? /^No$/.test(x) : false); ans = i >= 0 ? its[i] : undefined; }
        ask.ans = text(ans);
        return w.promise(d, ans);
    }
    const window = {
        createOutputChannel: () => channel(w),
        createStatusBarItem: () => { let text = "", vis = false; const it = { alignment: 2, priority: 100, tooltip: "", command: undefined, show() { vis = true; w.log("status.show"); w.shown = true; it.flush(); }, hide() { vis = false; w.shown = false; }, dispose() {}, flush() { const l = w.status[w.status.length - 1]; if (vis && (!l || l.text !== text)) { w.status.push({ t: w.now, text }); w.log("status.text", text); } } }; Object.defineProperty(it, "text", { get: () => text, set: (x) => { text = String(x); it.flush(); }, enumerable: true }); w.bar = it; return it; },
        showInformationMessage: (m, ...r) => message("info", m, r), showWarningMessage: (m, ...r) => message("warning", m, r), showErrorMessage: (m, ...r) => message("error", m, r),
        showOpenDialog: () => { const a = w.plan.world.open[w.bump("open")] || "ok"; const path = w.plan.prop === "C24" ? "/x/chosen " + (w.count["n.open"] % 7) + ".f" : w.curPath || "/x/9"; w.cause().dialogs.push({ t: w.now, answer: a, path }); if (w.fault("dialog")) return w.promise(w.lat("dialog"), undefined, new Error("dialog failed")); return w.promise(w.lat("dialog"), a === "cancel" ? undefined : a === "empty" ? [] : [w.uri(path)]); },
        showTextDocument: () => { ++w.cause().shown; return w.promise(1, {}); }, showQuickPick: (i) => w.promise(w.lat("dialog"), undefined), showInputBox: () => w.promise(w.lat("dialog"), undefined),
        withProgress: (o, f) => Promise.resolve(f({ report() {} }, { isCancellationRequested: false, onCancellationRequested: () => disposable() })),
        setStatusBarMessage: () => disposable(), activeTextEditor: undefined, visibleTextEditors: [], onDidChangeActiveTextEditor: () => disposable(),
    };
    const workspace = {
        getConfiguration: (section) => {
            const pre = section ? section + "." : "", view = w.view;
            const c = {
                get: (k, d) => { const v = w.effective(view, pre + k); return v === undefined ? d : v; }, has: (k) => w.effective(view, pre + k) !== undefined,
                inspect: (k) => ({ key: pre + k, defaultValue: DEFAULTS[pre + k], globalValue: view.global[pre + k], workspaceValue: view.workspace[pre + k], workspaceFolderValue: undefined }),
                update: (k, v, t) => w.update(pre + k, v, t),
            };
            return c;
        },
        onDidChangeConfiguration: (l, self, subs) => { w.cfgListeners.push(l); const d = disposable(() => { w.cfgListeners = w.cfgListeners.filter(x => x !== l); }); if (subs) subs.push(d); return d; },
        createFileSystemWatcher: (pat, ic, igc, id) => { const base = typeof pat === "string" ? "" : pat.base, g = typeof pat === "string" ? pat : pat.pattern; const x = { dir: realPath.normalize(base).replace(/(.)\/$/, "$1"), ignoreChange: !!igc, change: [] }; const m = glob(g); x.match = (p) => x.dir === "." || x.dir === "" ? m(p) : p.startsWith(x.dir === "/" ? "/" : x.dir + "/") && m(p.slice(x.dir === "/" ? 1 : x.dir.length + 1)); w.watchers.push(x); return { onDidChange: (l) => { x.change.push(l); return disposable(() => { x.change = x.change.filter(y => y !== l); }); }, onDidCreate: () => disposable(), onDidDelete: () => disposable(), dispose() { x.gone = true; }, ignoreCreateEvents: !!ic, ignoreChangeEvents: !!igc, ignoreDeleteEvents: !!id }; },
        openTextDocument: (o) => { w.cause().docs.push(o && o.content); return w.promise(1, {}); }, workspaceFolders: [{ uri: w.uri("/home/u/nc"), name: "nc", index: 0 }], textDocuments: [], onDidOpenTextDocument: () => disposable(), onDidSaveTextDocument: () => disposable(), onDidChangeTextDocument: () => disposable(), onDidCloseTextDocument: () => disposable(),
        fs: { readFile: (u) => new Promise((a, b) => w.openRead(u.fsPath, (e, d) => e ? b(e) : a(new Uint8Array(d)))), stat: () => Promise.resolve({ size: 1 }) },
        isTrusted: true, name: "nc", rootPath: "/home/u/nc", getWorkspaceFolder: () => undefined,
    };
    const commands = {
        registerCommand: (n, f) => { w.commands.set(n, f); return disposable(() => w.commands.delete(n)); },
        executeCommand: (n, ...a) => { w.cause().executed.push(n); if (n === "workbench.action.reloadWindow") { ++w.reloads; return Promise.resolve(); } return new Promise((res, rej) => { const f = w.commands.get(n); if (!f) return rej(new Error("command '" + n + "' not found")); w.after(0, () => { w.invoked(n); let x; try { x = w.within(n, { eff: w.effective(w.view, "ncproj.calculate.pathtime.enable") }, () => f(...a)); } catch (e) { w.log("command.throw", e.message); return rej(e); } Promise.resolve(x).then(res, rej); }); }); },
        getCommands: () => Promise.resolve([...w.commands.keys()]),
    };
    const base = { window, workspace, commands, Uri, RelativePattern, Disposable, EventEmitter: VEmitter, ConfigurationTarget: { Global: 1, Workspace: 2, WorkspaceFolder: 3 }, StatusBarAlignment: { Left: 1, Right: 2 }, ProgressLocation: { SourceControl: 1, Window: 10, Notification: 15 }, ViewColumn: { Active: -1 }, ExtensionMode: { Production: 1 }, extensions: { getExtension: () => undefined }, env: { appName: "sim", language: "en" }, languages: {}, version: "1.71.0" };
    return base;
}
World.prototype.bump = function (k) { const n = this.count["n." + k] || 0; this.count["n." + k] = n + 1; return n; };
World.prototype.promise = function (d, v, err) { return new Promise((a, b) => this.after(d, () => err ? b(err) : a(v))); };
World.prototype.invoked = function (name) { this.ops["cmd " + name.replace("ncproj.", "")] = (this.ops["cmd " + name.replace("ncproj.", "")] || 0) + 1; this.log("command", name); this.invocations.push({ t: this.now, name, tools: this.tools.length, running: this.tools.filter(x => x.end < 0).length }); };

// ---------------------------------------------------------------- one run
const scripts = new Map(); let scriptFile = "";
function loadScript(f) {
    scriptFile = f;
    const walk = (d) => { for (const e of realFs.readdirSync(d, { withFileTypes: true })) { const x = realPath.join(d, e.name); if (e.isDirectory()) walk(x); else if (/\.js$/.test(x)) scripts.set(x, new vm.Script(Module.wrap(realFs.readFileSync(x, "utf8")), { filename: x })); } };
    walk(realPath.dirname(f));
}
const drain = () => new Promise(r => REAL.setImmediate(r));
const LIMIT = 20000;

async function execute(plan, trace) {
    const w = new World(plan, trace); cur = w;
    const vscode = makeVscode(w), lc = makeClientModule(w);
    const timers = new Map(); let tid = 0;
    const setTimeoutS = (f, ms, ...a) => { const id = ++tid; timers.set(id, true); w.after(Math.max(0, Number(ms) || 0), () => { if (timers.delete(id)) w.guard(() => f(...a)); }); return { id, ref() { return this; }, unref() { return this; }, hasRef: () => true, [Symbol.toPrimitive]: () => id }; };
    const clear = (x) => { if (x !== undefined && x !== null) timers.delete(typeof x === "object" ? x.id : x); };
    const setIntervalS = (f, ms, ...a) => { const id = ++tid; timers.set(id, true); const tick = () => { if (!timers.has(id)) return; w.guard(() => f(...a)); w.after(Math.max(1, Number(ms) || 1), tick); }; w.after(Math.max(1, Number(ms) || 1), tick); return { id, ref() { return this; }, unref() { return this; }, [Symbol.toPrimitive]: () => id }; };
    const wall = () => w.wallBase + w.now + (plan.world.jump && w.now >= plan.world.jump[0] ? plan.world.jump[1] : 0);
    const DateS = class extends REAL.Date { constructor(...a) { if (a.length) super(...a); else super(wall()); } static now() { return wall(); } };
    const readFile = (p, o, cb) => { if (typeof o === "function") { cb = o; o = undefined; } const enc = typeof o === "string" ? o : o && o.encoding; w.openRead(p, (e, d) => w.guard(() => e ? cb(e) : cb(null, enc ? d.toString(enc) : d))); };
    const promRead = (p, o) => new Promise((a, b) => { const enc = typeof o === "string" ? o : o && o.encoding; w.openRead(p, (e, d) => e ? b(e) : a(enc ? d.toString(enc) : d)); });
    readFile[util.promisify.custom] = promRead;
    const promises = { readFile: promRead, stat: (p) => w.isFile(p) && w.file !== null ? Promise.resolve({ size: w.file.length, mtimeMs: w.fileV, isFile: () => true }) : Promise.reject(Object.assign(new Error("ENOENT"), { code: "ENOENT" })), access: (p) => w.isFile(p) && w.file !== null ? Promise.resolve() : Promise.reject(Object.assign(new Error("ENOENT"), { code: "ENOENT" })) };
    const forbidden = (n) => () => { throw new Error("not simulated: fs." + n); };
    const fsS = { readFile, readFileSync: (p, o) => { const d = w.readSync(p), enc = typeof o === "string" ? o : o && o.encoding; return enc ? d.toString(enc) : d; }, promises, existsSync: (p) => (w.isFile(p) ? w.file !== null : true), statSync: (p) => ({ size: 1, mtimeMs: w.fileV, isFile: () => true }), stat: (p, o, cb) => { const c = typeof o === "function" ? o : cb; w.after(1, () => c(null, { size: 1, mtimeMs: w.fileV })); }, access: (p, m, cb) => { const c = typeof m === "function" ? m : cb; w.after(1, () => c(w.isFile(p) && w.file === null ? new Error("ENOENT") : null)); }, accessSync() {}, constants: realFs.constants };
    for (const n of ["writeFile", "writeFileSync", "unlink", "unlinkSync", "rename", "renameSync", "rm", "rmSync", "mkdirSync", "watch", "watchFile"]) if (!(n in fsS)) fsS[n] = forbidden(n);
    const exec = (c, o, cb) => { if (typeof o === "function") cb = o; const em = w.tool("exec", c, typeof o === "function" ? {} : o, true); em.done = cb; return em; };
    const execFile = (c, a, o, cb) => { if (typeof a === "function") cb = a; else if (typeof o === "function") cb = o; const em = w.tool("exec", c, [a, o].find(x => x && typeof x === "object" && !Array.isArray(x)), false); em.done = cb; return em; };
    const prom = (fn) => (...a) => new Promise((res, rej) => fn(...a, (e, so, se) => e ? rej(Object.assign(e, { stdout: so, stderr: se })) : res({ stdout: so, stderr: se })));
    exec[util.promisify.custom] = prom((c, o, cb) => typeof o === "function" ? exec(c, {}, o) : exec(c, o, cb)); execFile[util.promisify.custom] = prom(execFile);
    const cpS = { exec, execFile, spawn: (c, a, o) => { const em = w.tool("spawn", c, Array.isArray(a) || a === undefined ? o : a, false); return em; }, fork: forbidden("fork"), execSync: forbidden("execSync"), spawnSync: forbidden("spawnSync") };
    const processS = new Proxy(process, { get: (t, k) => k === "platform" ? plan.platform : k === "hrtime" ? Object.assign(() => [Math.floor(w.now / 1000), (w.now % 1000) * 1e6], { bigint: () => BigInt(w.now) * 1000000n }) : k === "uptime" ? () => w.now / 1000 : k === "nextTick" ? process.nextTick.bind(process) : typeof t[k] === "function" ? t[k].bind(t) : t[k] });
    const silent = new Proxy({}, { get: () => () => {} });
    const req = (n) => {
        n = n.replace(/^node:/, "");
        switch (n) {
            case "vscode": return vscode;
            case "vscode-languageclient": case "vscode-languageclient/node": return lc;
            case "child_process": return cpS;
            case "fs": return fsS;
            case "fs/promises": return promises;
            case "timers/promises": return { setTimeout: (ms, v) => new Promise(r => setTimeoutS(() => r(v), ms)) };
            case "os": return { platform: () => plan.platform, homedir: () => "/home/u", tmpdir: () => "/tmp", EOL: "\n" };
            case "path": case "util": case "events": case "assert": case "url": return require(n);
        }
        throw new Error("module not simulated: " + n);
    };
    const G = { process: processS, console: silent, setTimeout: setTimeoutS, clearTimeout: clear, setInterval: setIntervalS, clearInterval: clear, setImmediate: (f, ...a) => setTimeoutS(f, 0, ...a), clearImmediate: clear, Date: DateS };
    const save = {}; for (const k of Object.keys(G)) { save[k] = globalThis[k]; }
    const loaded = new Map();                       // the extension's own files, once per run
    const reqFrom = (dir) => (n) => {
        if (!n.startsWith(".")) return req(n);
        const base = realPath.resolve(dir, n), f = [base, base + ".js", realPath.join(base, "index.js")].find(x => scripts.has(x));
        if (!f) { if (/\.json$/.test(n)) return {}; throw new Error("module not found: " + n); }
        if (!loaded.has(f)) { const m = { exports: {} }; loaded.set(f, m); scripts.get(f).runInThisContext().call(m.exports, m.exports, reqFrom(realPath.dirname(f)), m, f, realPath.dirname(f)); }
        return loaded.get(f).exports;
    };
    const restore = () => { for (const k of Object.keys(G)) globalThis[k] = save[k]; };
    for (const k of Object.keys(G)) globalThis[k] = G[k];
    try {
        let api;
        w.at(0, () => {
            api = reqFrom(realPath.dirname(scriptFile))("./extension");
            const ctx = { subscriptions: [], extensionPath: w.ext, extensionUri: w.uri(w.ext), asAbsolutePath: (p) => w.px.join(w.ext, p), globalState: { get: () => undefined, update: () => Promise.resolve() }, workspaceState: { get: () => undefined, update: () => Promise.resolve() }, extensionMode: 1, logPath: "/ext/log", storagePath: "/ext/st" };
            w.log("activate"); w.atStart = { ...w.view, eff: {} }; for (const k of Object.keys(DEFAULTS).concat("ncproj.macro.descriptions.path")) w.atStart.eff[k] = w.effective(w.view, k);
            w.within("activate", {}, () => w.guard(() => { const x = api.activate(ctx); void x; }));
        });
        for (const o of plan.ops) w.at(o.at, () => perform(w, o));
        const loop = async () => { while (w.q.length) { if (++w.steps > LIMIT) { w.stuck = true; return; } const e = w.pop(); w.now = e.t; e.fn(); await drain(); } };
        await loop();
        w.settled = w.now; snapshot(w, "settled");
        // faults have stopped: one more operation on the quiet system
        w.calmAt = w.now + 1; w.now += 10000; w.fromCalm = { status: w.status.length, notes: w.notes.length, warnings: w.warnings.length, tools: w.tools.length, cfg: w.cfg.length };
        if (!w.stuck) { calmOps(w); await loop(); snapshot(w, "calm"); }
        if (!w.stuck && plan.prop === "C23") {
            w.log("deactivate");
            w.at(w.now + 1000, () => { w.closed = w.now; if (!api.deactivate) return; w.within("deactivate", {}, () => w.guard(() => { const x = api.deactivate(); if (x && typeof x.then === "function") x.then(() => { w.left = w.alive().length; }, (e) => { w.log("deactivate.rejected", e && e.message); }); })); });
            await loop(); snapshot(w, "closed");
        }
        await drain();
    } finally { restore(); cur = null; }
    return w;
}
function snapshot(w, n) { w[n + "S"] = { t: w.now, text: w.status.length ? w.status[w.status.length - 1].text : undefined, shown: w.shown, alive: w.alive().map(p => ({ begun: p.begun, ok: p.ok })), file: w.file, notes: w.notes.filter(x => !x.other).map(x => x.t) }; w.log("== " + n, w.alive().length + " " + (w[n + "S"].text || "")); }
function perform(w, o) {
    w.ops[o.k] = (w.ops[o.k] || 0) + (o.k === "cmd" ? 0 : 1);
    w.log("op", o.k + " " + (o.v || o.name || ""));
    if (o.k === "write") {
        w.writing = o.v;
        const fin = () => { if (w.writing !== o.v) return;      // written again meanwhile
            w.file = o.c; w.fileV = o.v; for (const d of o.n) w.after(d, () => w.notify(w.path, o.v, "own")); };
        if (o.torn) { w.file = o.torn.len < 0 ? null : o.c.slice(0, o.torn.len); w.fired["torn write"] = (w.fired["torn write"] || 0) + 1; if (o.torn.note >= 0) w.after(o.torn.note, () => w.notify(w.path, o.v, "own")); w.after(o.torn.d, fin); }
        else fin();
    } else if (o.k === "notify") {
        if (o.rel === "same") w.notify(w.path, w.fileV, "own");
        else {
            const d = realPath.dirname(w.path), e = realPath.extname(w.path), b = realPath.basename(w.path, e), up = b.toUpperCase();
            const other = { prefix: b + "2" + e, suffix: "x" + b + e, case: up + e, sub: realPath.join("sub", b + e), up: realPath.join("..", "other", b + e), double: b + e + e }[o.how] || "other" + e;
            if (!(o.how === "case" && (w.plan.platform === "win32" || up === b)) && realPath.join(d, other) !== w.path) w.notify(realPath.join(d, other), 0, "other");
        }
    } else if (o.k === "crash") { for (const p of w.alive()) if (p.ok) { w.fired["server crash"] = (w.fired["server crash"] || 0) + 1; p.client._crash(); } }
    else if (o.k === "user") { w.change(o.set, "user", o.merge); }
    else if (o.k === "cmd") {
        const f = w.commands.get(o.name);
        w.curPath = o.path;
        if (!f) w.missing = o.name;
        if (f) { w.invoked(o.name); try { const x = w.within(o.name, { eff: w.effective(w.view, "ncproj.calculate.pathtime.enable") }, () => f()); if (x && typeof x.then === "function") x.then(() => {}, (e) => { w.log("command.rejected", e && e.message); }); } catch (e) { w.log("command.throw", e && e.message); } }
    }
}
function calmOps(w) {
    const p = w.plan.prop;
    if (p === "C19" || p === "C20" || (p === "C23" && w.path)) w.at(w.now, () => perform(w, { k: "write", v: 9999, c: '{"machine_tool_id":"Mill-9999"}', n: [3] }));
    else if (p === "C24") { let t = w.now; for (const n of ["ncproj.togglePathTimeCalculation", "ncproj.ncsettingSelect", "ncproj.macroDescriptionsSelect"]) { w.at(t, () => perform(w, { k: "cmd", name: n })); t += 1000000; } }
    else if (p === "C23") return;
    else if (p === "C21") {
        let t = w.now;
        for (const k of WATCHED) { w.at(t, () => { const cur0 = w.store.workspace[k], val = k.endsWith("enable") ? !(cur0 === undefined ? w.effective(w.store, k) : cur0) : "/calm/" + k; perform(w, { k: "user", set: [[k, "workspace", val]], merge: 0 }); }); t += 20000; }
    } else { let t = w.now; for (let i = 0; i < 2; ++i) { w.at(t, () => perform(w, { k: "cmd", name: "ncproj.ncsettingCreate" })); t += 1000000; } }
}

// ---------------------------------------------------------------- oracles
function judgeWorld(w) {
    const p = w.plan, prop = p.prop, bad = (cls, detail) => ({ cls, detail });
    if (w.garbled !== undefined && (prop === "C21" || prop === "C23" || prop === "C24")) return bad("garbled", "the user is told " + JSON.stringify(w.garbled));
    if (w.missing && (prop === "C22" || prop === "C24")) return bad("no-command", "there is no command " + w.missing);
    if (w.stuck) return bad("endless", "the extension is still busy after " + LIMIT + " events");
    const file = p.world.file;
    if (prop === "C19") {
        for (const [S, from, label] of [[w.settledS, 0, "after everything has settled"], [w.calmS, w.fromCalm.notes, "after a change on the quiet system"]]) {
            const last = S.notes.length ? S.notes[S.notes.length - 1] : 0;
            const want = nameOf(S.file, file), st = nameOf(null, file);
            // the base name is right if the newest read of the file failed
            const rd = w.reads.filter(x => x.begun >= last && x.begun <= S.t && w.isFile(x.path));
            const ok = S.text === want || (S.text === st && rd.some(x => x.fault));
            if (!ok) return bad("wrong-name", label + " the status bar shows " + JSON.stringify(S.text) + ", the file says " + JSON.stringify(want));
            if (!S.shown) return bad("hidden", "the status bar item is not shown");
        }
        let max = -1;
        for (const s of w.status) { const m = /^Mill-(\d+)/.exec(s.text); if (!m) continue; const v = Number(m[1]); if (v < max) return bad("older-name", "at " + s.t + " ms the status bar went back from Mill-" + max + " to " + s.text); max = v; }
        return null;
    }
    if (prop === "C20") {
        if (w.twoServers) return bad("two-servers", "a server was started while another one was running");
        const attempts = w.attempts.filter(a => !a.auto);
        const own = w.notes.filter(x => !x.other);
        for (const n of own) if (!attempts.some(a => a.t >= n.t)) return bad("change-lost", "no restart was attempted at or after the change noticed at " + n.t + " ms");
        // nothing but changes of the settings file may restart the server
        const stops = attempts.filter(a => a.what === "stop").length;
        if (stops > own.length) return bad("extra-restart", stops + " restarts for " + own.length + " notifications");
        if (attempts.filter(a => a.what === "start").length > own.length * 2 + 1) return bad("extra-restart", "too many starts");
        const first = own.length ? own[0].t : Infinity;
        for (const a of attempts) if (a.t > 0 && a.t < first) return bad("extra-restart", "a restart at " + a.t + " ms without any change of the settings file");
        const S = w.calmS, last = S.notes[S.notes.length - 1];
        if (S.alive.length !== 1) return bad("no-server", S.alive.length + " servers run after a change on the quiet system");
        if (!S.alive[0].ok || S.alive[0].begun < last) return bad("stale-server", "the server was started at " + S.alive[0].begun + " ms, the settings changed at " + last + " ms");
        const Q = w.settledS, lastQ = Q.notes.length ? Q.notes[Q.notes.length - 1] : -1;
        const startsAfter = attempts.filter(a => a.what === "start" && a.t >= lastQ);
        if (lastQ < 0 && !w.attempts.some(a => a.fault) && !w.procs.some(x => x.crashed) && (Q.alive.length !== 1 || !Q.alive[0].ok)) return bad("no-server", Q.alive.length + " servers run although nothing failed");
        const faulted = w.attempts.some(a => a.t >= lastQ && a.fault) || w.procs.some(x => x.crashed && x.end >= lastQ);
        if (!faulted && lastQ >= 0) {
            if (!startsAfter.length) return bad("stale-server", "no server was started after the last change at " + lastQ + " ms, although nothing failed");
            if (Q.alive.length !== 1 || Q.alive[0].begun < lastQ) return bad("stale-server", "the settled server was started before the last change at " + lastQ + " ms");
        }
        return null;
    }
    if (prop === "C21") {
        const watched = (ks) => ks.filter(k => WATCHED.includes(k));
        const userEv = w.cfg.filter(e => e.t >= 0 && e.byWho.user && watched(e.byWho.user).length);
        for (const e of userEv) if (!w.warnings.some(x => x.t >= e.t && x.t <= e.t + 5000)) return bad("swallowed", "the user's change of " + watched(e.byWho.user).join(", ") + ", noticed at " + e.t + " ms, was not announced");
        const maxW = userEv.length + w.own.length;
        if (w.warnings.length > maxW) return bad("announced-twice", w.warnings.length + " announcements for " + userEv.length + " changes by the user and " + w.own.length + " by the extension");
        // before anything else is going on, every change of the extension's own is announced
        for (const o of w.own) if (!o.fault && o.ev && !w.warnings.some(x => x.t >= o.t && x.t <= o.ev.t + 5000)) return bad("not-announced", "the extension's change of " + o.key + " was not announced");
        return null;
    }
    if (prop === "C22") {
        let last = -1;
        const iv = w.tools.filter(t => true).sort((a, b) => a.begun - b.begun);
        for (const t of iv) { if (t.begun < last) return bad("two-tools", "a configuration tool was started at " + t.begun + " ms while another one was running"); last = Math.max(last, t.end < 0 ? Infinity : t.end); }
        if (p.platform === "win32") {
            for (const c of w.invocations) if (c.name === "ncproj.ncsettingCreate" && !c.running) {
                const again = w.tools.some(t => !t.wrong && t.begun >= c.t && t.begun <= c.t + 1000);
                if (!again) return bad("tool-blocked", "the command at " + c.t + " ms did not start the tool although none was running");
            }
        }
        if (w.unhandled.length) return bad("unhandled", w.unhandled[0]);
        return null;
    }
    if (prop === "C23") return judgeServer(w, bad);
    if (prop === "C24") return judgeChoices(w, bad);
    return null;
}
// C23: what the server is started with, what is reported, and that it ends with the window
function judgeServer(w, bad) {
    const p = w.plan, win = p.platform === "win32", eff = w.atStart.eff, exe = w.px.join(w.outDir, "nclangsrv" + (win ? ".exe" : ""));
    const want = {}; for (const [o, k] of [["ncsetting-path", "ncproj.ncsetting.file.path"], ["log-path", "ncproj.debug.log.path"], ["macro-desc-path", "ncproj.macro.descriptions.path"]]) if (eff[k]) want[o] = String(eff[k]);
    if (eff["ncproj.calculate.pathtime.enable"]) want["calculate-path"] = "true";
    const show = o => JSON.stringify(Object.keys(o).sort().map(k => k + "=" + o[k]));
    for (const x of w.procs) {
        let o = x.opt; if (typeof o === "function" || !o) continue;
        if (o.run) o = o.run;
        if (o.module || o.command === undefined) continue;
        const is = w.program(o.command, o.options && o.options.cwd, o.options && o.options.shell);
        if (win ? is.toLowerCase() !== exe.toLowerCase() : is !== exe) return bad("wrong-program", "the server started at " + x.begun + " ms is " + o.command);
        const got = {}, a = o.args || [];
        for (let i = 0; i < a.length; ++i) {
            const m = /^--([a-z-]+)(?:=(.*))?$/s.exec(a[i]); const s = /^-([nml])$/.exec(a[i]);
            const k = m ? m[1] : s ? { n: "ncsetting-path", m: "macro-desc-path", l: "log-path" }[s[1]] : null;
            if (!k) return bad("wrong-arguments", "the server started at " + x.begun + " ms gets the argument " + JSON.stringify(a[i]));
            if (k in got) return bad("wrong-arguments", "the server started at " + x.begun + " ms gets --" + k + " twice");
            got[k] = m && m[2] !== undefined ? m[2] : a[++i];
        }
        if (got["calculate-path"] !== undefined && /^(false|0|no|off)$/.test(got["calculate-path"])) delete got["calculate-path"];
        else if (got["calculate-path"] !== undefined && /^(true|1|yes|on)$/.test(got["calculate-path"])) got["calculate-path"] = "true";
        if (show(got) !== show(want)) return bad("wrong-arguments", "the server started at " + x.begun + " ms runs with " + show(got) + " instead of " + show(want));
        const sel = x.cl && x.cl.documentSelector;
        if (Array.isArray(sel) && !sel.some(d => d === "ncproj" || (d && d.language === "ncproj"))) return bad("wrong-documents", "the server is not used for NC programs");
    }
    if (!w.procs.length) return bad("no-server", "no server was started");
    const own = w.notes.filter(x => !x.other), asked = w.attempts.filter(a => a.what === "start" && !a.auto);
    for (const a of asked) if (a.failed >= 0 && !asked.some(b => b !== a && b.t >= a.failed && b.t <= a.failed + 1000) && !w.reports.some(x => x.t >= a.failed && x.t <= a.failed + 1000 && x.text)) return bad("not-reported", "the start that failed at " + a.failed + " ms was not reported");
    for (const x of w.tools) if (x.end >= 0 && x.fault && x.fault !== "throw" && !w.reports.some(y => y.t >= x.end && y.t <= x.end + 1000 && y.text)) return bad("not-reported", "the tool that failed at " + x.end + " ms was not reported");
    for (const y of w.reports) if (y.text && !asked.some(a => a.failed >= 0 && y.t >= a.failed && y.t <= a.failed + 1000) && !w.tools.some(x => x.fault && x.end >= 0 && y.t >= x.end && y.t <= x.end + 1000)) return bad("false-report", "a failure was reported at " + y.t + " ms, nothing had failed");
    for (const m of w.loaded) {
        if (!m.msg.includes(realPath.basename(w.path))) return bad("wrong-message", "it says " + m.msg);
        if (!w.procs.some(x => x.ok && x.ready <= m.t && own.some(n => x.begun >= n.t))) return bad("announced-too-early", "at " + m.t + " ms the change was announced as loaded, no server was started after it");
        if (m.cause && m.cause.what === "notify" && !w.procs.some(x => x.ok && x.ready <= m.t && x.begun >= m.cause.t)) return bad("announced-too-early", "at " + m.t + " ms the change noticed at " + m.cause.t + " ms was announced as loaded, no server was started after it");
    }
    if (own.length) {
        const last = own[own.length - 1].t;           // on the quiet system: restarted, therefore announced
        if (w.calmS.alive.length === 1 && w.calmS.alive[0].ok && w.calmS.alive[0].begun >= last && !w.loaded.some(m => m.t >= last)) return bad("not-announced", "the change noticed at " + last + " ms was loaded, and this was not announced");
    }
    if (!w.attempts.some(a => a.fault) && !w.procs.some(x => x.crashed) && w.settledS.alive.length !== 1) return bad("no-server", w.settledS.alive.length + " servers run although nothing failed");
    if (w.closedS.alive.length) return bad("left-behind", "the server still runs after the window was closed");
    if (w.left) return bad("left-behind", "deactivate was done before the server had ended");
    if (w.procs.some(x => x.begun >= w.closed)) return bad("left-behind", "a server was started after the window was closed");
    if (w.unhandled.length) return bad("unhandled", w.unhandled[0]);
    return null;
}
// C24: every choice of the user has exactly its effect
function judgeChoices(w, bad) {
    const FILES = { "ncproj.ncsettingSelect": "ncproj.ncsetting.file.path", "ncproj.macroDescriptionsSelect": "ncproj.macro.descriptions.path" };
    let reloads = 0;
    for (const c of w.causes.concat(w.nobody ? [w.nobody] : [])) {
        const asks = c.asks.filter(a => !a.reload), at = " (" + c.what + " at " + c.t + " ms)";
        const again = c.asks.filter(a => a.reload && a.ans); reloads += again.length;
        const ex = c.executed.filter(n => n === "workbench.action.reloadWindow").length;
        if (ex !== again.length) return bad("reload", "the window was reloaded " + ex + " times, it was asked for " + again.length + " times" + at);
        const others = c.executed.filter(n => n !== "workbench.action.reloadWindow" && n.startsWith("ncproj."));
        let wantExec = [], wantUpd = [], wantDlg = 0;
        if (c.what === "activate") {
            const need = !w.atStart.eff["ncproj.ncsetting.file.path"];
            if (asks.length !== (need ? 1 : 0)) return bad("start-question", asks.length + " questions at the start, settings file " + JSON.stringify(w.atStart.eff["ncproj.ncsetting.file.path"]));
            if (need && /create/i.test(asks[0].ans || "")) wantExec = ["ncproj.ncsettingCreate"];
            if (need && /select/i.test(asks[0].ans || "")) wantExec = ["ncproj.ncsettingSelect"];
        } else if (c.what in FILES) {
            if (asks.length !== 1) return bad("questions", asks.length + " questions instead of one" + at);
            const yes = /user|workspace/.test(asks[0].ans || "");
            wantDlg = yes ? 1 : 0;
            if (yes && c.dialogs.length === 1 && c.dialogs[0].answer === "ok") wantUpd = [{ key: FILES[c.what], val: c.dialogs[0].path, target: /user/.test(asks[0].ans) ? "global" : "workspace" }];
        } else if (c.what === "ncproj.togglePathTimeCalculation") wantUpd = [{ key: "ncproj.calculate.pathtime.enable", val: !c.eff, target: "global" }];
        else if (c.what === "ncproj.macroDescriptionsPlaceholder") {
            if (c.docs.length !== 1 || c.shown !== 1) return bad("placeholder", "the example was opened " + c.docs.length + " and shown " + c.shown + " times" + at);
            let ok = false; try { const o = JSON.parse(c.docs[0]); ok = typeof o.version === "string" && Object.values(o.descriptions).length > 0 && Object.keys(o.descriptions).every(k => /^\d+$/.test(k) && Object.values(o.descriptions[k]).every(d => typeof d === "string")); } catch (e) { ok = false; }
            if (!ok) return bad("placeholder", "the example is no file of macro descriptions: " + c.docs[0]);
        }
        if (c.dialogs.length !== wantDlg) return bad("dialogs", c.dialogs.length + " file dialogs instead of " + wantDlg + at);
        const str = v => JSON.stringify(v.map(u => u.key + " " + JSON.stringify(u.val) + " " + u.target).sort());
        if (str(c.updates) !== str(wantUpd)) return bad("stored", "stored " + str(c.updates) + " instead of " + str(wantUpd) + at);
        if (JSON.stringify(others) !== JSON.stringify(wantExec)) return bad("commands", "executed " + JSON.stringify(others) + " instead of " + JSON.stringify(wantExec) + at);
        if (c.updates.some(u => u.fault) && !c.errors) return bad("silent-failure", "the choice could not be stored, and nobody was told" + at);
        if (c.tools && c.what !== "ncproj.ncsettingCreate") return bad("tool", "the configuration tool was started" + at);
    }
    if (w.reloads !== reloads) return bad("reload", w.reloads + " reloads, " + reloads + " asked for");
    if (w.unhandled.length) return bad("unhandled", w.unhandled[0]);
    return null;
}
function nontrivial(w) {
    switch (w.plan.prop) {
        case "C19": return w.status.length > 2;
        case "C20": return w.attempts.length > 2;
        case "C23": return w.attempts.length > 2;
        case "C24": return w.own.length > 1;
        case "C21": return w.own.length > 0 && w.cfg.length > 4;
        default: return w.tools.length > 2;
    }
}
async function judge(plan, trace) {
    const w = await execute(plan, trace);
    const v = judgeWorld(w) || { cls: "", detail: "" };
    w.hash.add(v.cls);
    return { w, cls: v.cls, detail: v.detail, hash: w.hash.hex() };
}

// ---------------------------------------------------------------- minimising
async function shrink(p, cls, budget) {
    const end = REAL.Date.now() + budget * 1000, left = () => REAL.Date.now() < end;
    const copy = x => JSON.parse(JSON.stringify(x));
    const still = async q => (await judge(q)).cls === cls;
    const cut = async (get) => {
        let any = false;
        for (let n = Math.max(1, get(p).length >> 1); n >= 1 && left(); n = n >> 1) { for (let i = 0; i + n <= get(p).length && left();) { const q = copy(p); get(q).splice(i, n); if (await still(q)) { p = q; any = true; } else i += n; } }
        return any;
    };
    for (let pass = 0; pass < 4 && left(); ++pass) {
        let any = await cut(q => q.ops); any = await cut(q => q.faults) || any;
        for (const k of KINDS) { if (!left()) break; let q = copy(p); if (q.lat[k].length) { q.lat[k] = []; if (await still(q)) { p = q; any = true; continue; } }
            for (let i = 0; i < p.lat[k].length && left(); ++i) if (p.lat[k][i] > 1) { q = copy(p); q.lat[k][i] = 1; if (await still(q)) { p = q; any = true; } }
            while (p.lat[k].length && p.lat[k][p.lat[k].length - 1] === 1) p.lat[k].pop(); }
        for (let i = 0; i < p.ops.length && left(); ++i) for (const f of ["torn", "merge"]) if (p.ops[i][f]) { const q = copy(p); delete q.ops[i][f]; if (await still(q)) { p = q; any = true; } }
        for (let i = 0; i < p.ops.length && left(); ++i) while (p.ops[i].n && p.ops[i].n.length > 1) { const q = copy(p); q.ops[i].n.pop(); if (await still(q)) { p = q; any = true; } else break; }
        for (const k of ["pick", "open", "reload"]) { const q = copy(p); q.world[k] = []; if (p.world[k].length && await still(q)) { p = q; any = true; } }
        if (p.world.jump) { const q = copy(p); delete q.world.jump; if (await still(q)) p = q; }
        if (!any) break;
    }
    return p;
}

// ---------------------------------------------------------------- command line
async function main() {
    const mode = process.argv[2], a = {};
    for (let i = 3; i + 1 < process.argv.length; i += 2) a[process.argv[i]] = process.argv[i + 1];
    loadScript(realPath.join(__dirname, "extension", "extension.js"));
    const out = s => realFs.writeSync(1, s + "\n");
    if (mode === "gen") { out(JSON.stringify(genPlan(a["--prop"], BigInt(a["--seed"])))); return 0; }
    if (mode === "replay" || mode === "shrink") {
        let p = JSON.parse(realFs.readFileSync(a["--plan"], "utf8"));
        let v = await judge(p, a["--trace"]);
        if (mode === "shrink" && v.cls) { p = await shrink(p, v.cls, Number(a["--budget"] || 40)); v = await judge(p); realFs.writeFileSync(a["--out"], JSON.stringify(p)); }
        out(JSON.stringify({ hash: v.hash, cls: v.cls, detail: v.detail, ops: p.ops.length, faults: p.faults.length }));
        if (a["--trace"]) out(v.w.trace.join("\n"));
        return v.cls ? 1 : 0;
    }
    if (mode !== "run") { REAL.console.error("usage: client_sim.js run|replay|shrink|gen"); return 2; }
    const prop = a["--prop"], base = a["--seed"] || "1", start = Number(a["--start"] || 0), step = Number(a["--step"] || 1), count = Number(a["--count"] || 1e9), maxv = Number(a["--max-violations"] || 1);
    const t0 = REAL.Date.now(), until = t0 + 1000 * Number(a["--time"] || 30), hard = t0 + 1000 * Number(a["--max-time"] || a["--time"] || 30), least = Number(a["--min"] || 0);
    const shapes = new Set(), nsh = new Set(), probes = {}, faults = {}, ops = {}, ends = {}, samples = [], viol = [], hashes = [];
    const add = (x, y) => { for (const k of Object.keys(y)) x[k] = (x[k] || 0) + y[k]; };
    let n = 0, nt = 0, steps = 0, sim = 0;
    for (let i = start; n < count && REAL.Date.now() < (n < least ? hard : until); i += step) {
        const p = genPlan(prop, fnv(prop + ":" + base + ":" + i));
        const v = await judge(p); const w = v.w;
        ++n; steps += w.steps; sim += w.now * 1e6;
        const sh = w.shape.hex(); const big = String(BigInt("0x" + sh)); shapes.add(big);
        if (nontrivial(w)) { ++nt; nsh.add(big); if (samples.length < 2) samples.push(p); }
        add(probes, w.probes); add(faults, w.fired); add(ops, w.ops); ends[v.cls || "as expected"] = (ends[v.cls || "as expected"] || 0) + 1;
        hashes.push(i + " " + v.hash + " " + v.cls);
        if (v.cls) { viol.push({ index: i, cls: v.cls, detail: v.detail, plan: JSON.stringify(p) }); if (viol.length >= maxv) break; }
    }
    const lim = s => Array.from(s).slice(0, 200000);
    const o = { runs: n, nontrivial: nt, sim_ns: Math.round(sim), steps, covered: 0, ref_runs: 0, probes, faults, ops, ends, shapes: lim(shapes), nshapes: lim(nsh), samples, violations: viol };
    if (a["--hashes"]) o.hashes = hashes;
    realFs.writeFileSync(a["--out"], JSON.stringify(o));
    return viol.length ? 1 : 0;
}
main().then(rc => REAL.exit(rc), e => { REAL.console.error(e); REAL.exit(3); });
