// compile.js SRC_DIR OUT_DIR: TypeScript to JavaScript with the compiler options of the repository (no type check: the
// types of the VS Code API are not available offline)
const fs = require("fs"), path = require("path");
let ts; for (const d of ["/opt/veriftools/node/node_modules/typescript", "typescript"]) try { ts = require(d); break; } catch (e) { void e; }
const conf = ts.readConfigFile(path.join(process.argv[2], "..", "tsconfig.json"), f => fs.readFileSync(f, "utf8"));
const opts = ts.convertCompilerOptionsFromJson((conf.config || {}).compilerOptions || {}, ".").options;
let failed = false;
function walk(src, out) {
    fs.mkdirSync(out, { recursive: true });
    for (const e of fs.readdirSync(src, { withFileTypes: true })) {
        const f = path.join(src, e.name);
        if (e.isDirectory()) { if (!/^(test|tests|node_modules)$/.test(e.name)) walk(f, path.join(out, e.name)); continue; }
        if (!/\.[cm]?ts$/.test(f) || /\.d\.ts$/.test(f)) continue;
        const r = ts.transpileModule(fs.readFileSync(f, "utf8"), { compilerOptions: { ...opts, sourceMap: false, module: ts.ModuleKind.CommonJS }, reportDiagnostics: true, fileName: f });
        for (const d of (r.diagnostics || []).filter(d => d.category === ts.DiagnosticCategory.Error)) { failed = true; console.error(f + ": " + ts.flattenDiagnosticMessageText(d.messageText, "\n")); }
        fs.writeFileSync(path.join(out, e.name.replace(/\.[cm]?ts$/, ".js")), r.outputText);
    }
}
fs.rmSync(process.argv[3], { recursive: true, force: true });
walk(process.argv[2], process.argv[3]);
if (failed) process.exit(1);
