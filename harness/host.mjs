// Runs compiled programs with the real runtime (/repo/runtime/run.mjs), many in one process.
// usage: host.mjs RUN_MJS JOBS.json     (jobs: [{id, wasm, args, log}])
// Writes one JSON line per job to fd 1: {id, kind, out (latin1), ret, detail, fp, sp, splog}
import fs from "fs";
import {syncBuiltinESMExports} from "module";
import {pathToFileURL} from "url";

const runUrl = pathToFileURL(process.argv[2]).href;
const jobs = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));

let out = [];
let splog = [];
let exitCode = null;
let memory = null;
let failure = null;
const bytes = (x, enc) => typeof x === "string" ? Buffer.from(x, typeof enc === "string" ? enc : "utf8") : Buffer.from(x);
const say = fs.writeSync.bind(fs);
// whatever the program writes to its standard output is kept
process.stdout.write = (x, enc, cb) => {
    out.push(bytes(x, enc));
    const f = typeof enc === "function" ? enc : cb;
    if (f) f();
    return true;
};
process.stdout.end = (x, enc) => { if (x !== undefined) out.push(bytes(x, enc)); };
console.log = (...xs) => { out.push(bytes(xs.join(" ") + "\n")); };
fs.writeSync = (fd, x, ...more) => {
    if (fd !== 1) return say(fd, x, ...more);
    const b = typeof x === "string" ? bytes(x, more[1])
        : Buffer.from(x.buffer, x.byteOffset + (more[0] ?? 0), more[1] ?? x.byteLength - (more[0] ?? 0));
    out.push(Buffer.from(b));
    return b.length;
};
const realExit = process.exit;
class Exited extends Error {}
process.exit = (c) => { exitCode = c === undefined ? (process.exitCode ?? 0) : c; throw new Exited("exit"); };
process.on("unhandledRejection", (e) => { if (!(e instanceof Exited) && failure === null) failure = e; });
process.on("uncaughtException", (e) => { if (!(e instanceof Exited) && failure === null) failure = e; });
// the log of the profiler is kept in memory
fs.appendFileSync = (_file, data) => { splog.push(String(data)); };
fs.writeFileSync = (_file, data) => { splog.push(String(data)); };
fs.mkdirSync = () => {};
syncBuiltinESMExports();
const RealMemory = WebAssembly.Memory;
WebAssembly.Memory = function (d) { memory = new RealMemory(d); return memory; };

const word = (b, a) => b[a] | (b[a + 1] << 8) | (b[a + 2] << 16) | (b[a + 3] << 24);
const classify = (e) =>
    e instanceof WebAssembly.CompileError || e instanceof WebAssembly.LinkError ? "invalid" :
    e instanceof WebAssembly.RuntimeError || e instanceof RangeError ? "trap" : "error";
for (const job of jobs) {
    out = []; splog = []; exitCode = null; memory = null; failure = null;
    process.exitCode = undefined;
    process.argv = ["node", "run.mjs", job.wasm, ...(job.args ?? [])];
    let kind = "exit", detail = "";
    try {
        await import(`${runUrl}?${job.id}`);
        // a runtime that isn't awaited has to exit soon
        for (let i = 0; i < 40 && exitCode === null && process.exitCode === undefined && failure === null; i++)
            await new Promise((r) => setTimeout(r, i < 5 ? 0 : 5));
        if (exitCode === null) exitCode = process.exitCode ?? 0;
    } catch (e) {
        if (!(e instanceof Exited)) failure = e;
    }
    if (failure !== null) {
        kind = classify(failure);
        detail = String(failure).slice(0, 200);
    }
    const res = {id: job.id, kind, detail, out: Buffer.concat(out).toString("latin1"),
                 ret: typeof exitCode === "number" ? exitCode & 255 : 0};
    if (memory) {
        const b = new Uint8Array(memory.buffer);
        res.fp = word(b, 0); res.sp = word(b, 8);
    }
    if (job.log) res.splog = splog.join("");
    say(1, JSON.stringify(res) + "\n");
}
realExit(0);
