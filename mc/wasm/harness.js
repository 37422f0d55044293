// node harness.js wasm_exec.js go.wasm
// Each line on stdin is a JSON object {fresh: bool, calls: [{f: name, a: [arguments]}]}; the answer is a line
// {r: [{s: string} | {e: what was thrown} | {t: type of another result}]}.
"use strict";
const fs = require("fs");
const rl = require("readline");
require(process.argv[2]);
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[3]));
console.log = () => {};
// what println of the module writes
globalThis.fs = Object.assign({}, globalThis.fs || fs, {
  writeSync: (fd, buf) => buf.length,
  write: (fd, buf, off, len, pos, cb) => cb(null, buf.length),
});
let exited = false;
process.on("unhandledRejection", () => {});
async function start() {
  for (const n of ["parseSoql", "getVersion"]) delete globalThis[n];
  const go = new Go();
  go.env = { GOGC: process.env.WASM_GOGC || "100" };
  go.exit = () => { exited = true; };
  const inst = new WebAssembly.Instance(mod, go.importObject);
  exited = false;
  go.run(inst).then(() => { exited = true; }, () => { exited = true; });
  for (let i = 0; i < 1000 && typeof globalThis.parseSoql !== "function" && !exited; i++) {
    await new Promise((r) => setTimeout(r, 1));
  }
}
const args = { "undefined": undefined, "NaN": NaN, "object": { toString() { return "select a from b"; } }, "symbol": Symbol("x"), "function": () => 1, "String": new String("select a from b") };
function call(c) {
  try {
    const a = c.a.map((x) => (x !== null && typeof x === "object" && x.special ? args[x.special] : x));
    const f = globalThis[c.f];
    const r = c.viaApply ? f.apply({ other: 1 }, a) : f(...a);
    return typeof r === "string" ? { s: r } : { t: r === null ? "null" : typeof r };
  } catch (e) {
    return { e: String(e) };
  }
}
(async () => {
  await start();
  const out = (x) => process.stdout.write(JSON.stringify(x) + "\n");
  for await (const line of rl.createInterface({ input: process.stdin, crlfDelay: Infinity })) {
    const q = JSON.parse(line);
    if (q.fresh) await start();
    const r = [];
    for (const c of q.calls) {
      if (q.pause) await new Promise((f) => setTimeout(f, 0));
      const x = call(c);
      if (exited) {
        x.e = x.e || "the module has ended";
        r.push(x);
        await start();
        continue;
      }
      r.push(x);
    }
    out({ r });
  }
  process.exit(0);
})();
