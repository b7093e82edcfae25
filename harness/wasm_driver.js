// Runs histories of calls of the WebAssembly build. One line of JSON per history on stdin
// ([{"s": text} or {"none": true}, ...]), one line of JSON with the outcomes on stdout.
"use strict";
const path = require("path");
const fsys = require("fs");
const readline = require("readline");
const dir = process.argv[2];
const write = (s) => fsys.writeSync(1, s);
console.log = console.error;
// keep Go's own messages off stdout
require(process.argv[3]);
const mod = new WebAssembly.Module(fsys.readFileSync(path.join(dir, "soql.wasm")));

async function run(calls) {
  delete globalThis.parseSoql;
  delete globalThis.getVersion;
  const go = new globalThis.Go();
  let over = null;
  go.exit = (code) => { over = "exit " + code; };
  const inst = new WebAssembly.Instance(mod, go.importObject);
  const p = go.run(inst).catch((e) => { over = "stopped: " + e; });
  for (let i = 0; i < 200 && typeof globalThis.parseSoql !== "function"; i++) {
    await new Promise((r) => setTimeout(r, 1));
  }
  if (typeof globalThis.parseSoql !== "function") {
    return [{ t: "parseSoql is not defined; " + over }];
  }
  const out = [];
  for (const c of calls) {
    try {
      const r = c.ver ? globalThis.getVersion() : c.none ? globalThis.parseSoql() : globalThis.parseSoql(c.s);
      out.push(typeof r === "string" ? { r } : { t: "returned a " + typeof r });
    } catch (e) {
      out.push({ t: "threw " + e });
    }
    if (over !== null) {
      out[out.length - 1] = { t: over };
      break;
    }
  }
  void p;
  return out;
}

(async () => {
  for await (const line of readline.createInterface({ input: process.stdin })) {
    if (line === "") continue;
    write(JSON.stringify(await run(JSON.parse(line))) + "\n");
  }
  process.exit(0);
})();
