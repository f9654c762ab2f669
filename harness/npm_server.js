// Runs /repo's JavaScript wrapper (npm/src, transpiled from the working tree) on requests from P26. The WebAssembly module is replaced
// by one that hands each call back to the C++ side, so the wrapper drives the native slicer.
// Lines in: {"run": [arguments of Slicer.run]}, {"types": JSON text of slices}, or the reply to a call. Lines out: {"call": [...]}, {"returned": value}, {"threw": message}.
const fs = require("fs"), path = require("path"), Module = require("module");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const src = path.join(process.argv[2], "npm", "src");
let pending = Buffer.alloc(0);
function line() {
    for (;;) {
        const at = pending.indexOf(10);
        if (at >= 0) { const l = pending.subarray(0, at).toString("utf8"); pending = pending.subarray(at + 1); return l; }
        const b = Buffer.alloc(1 << 16); let n;
        try { n = fs.readSync(0, b, 0, b.length, null); } catch (e) { if (e.code === "EAGAIN") continue; if (e.code === "EOF") n = 0; else throw e; }
        if (n === 0) process.exit(0);
        pending = Buffer.concat([pending, b.subarray(0, n)]);
    }
}
function say(x) { const b = Buffer.from(JSON.stringify(x) + "\n"); for (let i = 0; i < b.length;) { try { i += fs.writeSync(1, b, i); } catch (e) { if (e.code !== "EAGAIN") throw e; } } }
const wasm = { run_slicer_program_from_strings: (...args) => { say({ call: args.map(x => String(x)), kinds: args.map(x => typeof x) }); return JSON.parse(line()); } };
const loaded = {};
function load(file) {
    if (loaded[file]) return loaded[file].exports;
    const text = fs.readFileSync(file, "utf8"), m = loaded[file] = { exports: {} };
    const js = ts.transpileModule(text, { compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2021, esModuleInterop: true }, fileName: file }).outputText;
    const req = name => {
        if (/lsqecc_emscripten(\.js)?$/.test(name)) { const f = async () => wasm; return Object.assign(f, { default: f }); }
        if (name.startsWith(".")) { const p = path.resolve(path.dirname(file), name.replace(/\.js$/, "")); for (const q of [p + ".ts", path.join(p, "index.ts")]) if (fs.existsSync(q)) return load(q); }
        return require(name);
    };
    new Function("exports", "require", "module", js)(m.exports, req, m);
    return m.exports;
}
// Is the value assignable to the type that the package declares?
const lib = "interface Array<T>{length:number;[n:number]:T}interface ReadonlyArray<T>{[n:number]:T}interface Boolean{}interface CallableFunction{}interface Function{}interface IArguments{}interface NewableFunction{}interface Number{}interface Object{}interface RegExp{}interface String{}type Partial<T>={[P in keyof T]?:T[P]};type Record<K extends string|number|symbol,T>={[P in K]:T};";
const parsed = {};
function types(text) {
    const files = { "/lib.d.ts": lib, "/p/use.ts": `import type { Slices } from "./slices";\nexport const value: Slices = ${text};\n` };
    for (const f of fs.readdirSync(src)) if (f.endsWith(".ts")) files["/p/" + f] = fs.readFileSync(path.join(src, f), "utf8");
    const host = {
        getSourceFile: (f, v) => { if (files[f] === undefined) return undefined; if (f === "/p/use.ts") return ts.createSourceFile(f, files[f], v); return parsed[f + files[f]] ??= ts.createSourceFile(f, files[f], v); },
        getDefaultLibFileName: () => "/lib.d.ts", writeFile: () => { }, getCurrentDirectory: () => "/p", getCanonicalFileName: f => f, useCaseSensitiveFileNames: () => true, getNewLine: () => "\n", fileExists: f => files[f] !== undefined, readFile: f => files[f], getDirectories: () => [],
    };
    const p = ts.createProgram(["/lib.d.ts", "/p/use.ts"], { noLib: true, strict: true, noEmit: true, types: [], module: ts.ModuleKind.CommonJS }, host);
    const d = p.getSemanticDiagnostics(p.getSourceFile("/p/use.ts")).concat(p.getSyntacticDiagnostics(p.getSourceFile("/p/use.ts")));
    return d.map(x => ts.flattenDiagnosticMessageText(x.messageText, " ")).slice(0, 3);
}
(async () => {
    const Slicer = load(path.join(src, "index.ts")).default;
    let slicer = await Slicer.load();
    for (;;) {
        const q = JSON.parse(line());
        if (q.types !== undefined) { say({ returned: types(q.types) }); continue; }
        if (q.load) slicer = await Slicer.load();
        // null stands for an argument that is left out
        const args = q.run.map(x => x === null ? undefined : x); let r;
        try { r = { returned: slicer.run(...args) }; } catch (e) { r = { threw: String(e && e.message !== undefined ? e.message : e) }; }
        say(r);
    }
})();
