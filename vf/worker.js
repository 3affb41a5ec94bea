// Runs WASM witness calculators with the JS glue that circom emitted.
const fs = require("fs");
const crypto = require("crypto");
const readline = require("readline");
const realLog = process.stdout.write.bind(process.stdout);
const glue = {};
let logs = [];
console.log = (...a) => { logs.push(a.map(String).join(" ")); };
console.error = console.log;
function load(path) {
  const src = fs.readFileSync(path);
  const h = crypto.createHash("sha1").update(src).digest("hex");
  if (!glue[h]) {
    const Module = require("module");
    const m = new Module(path);
    m.filename = path; m.paths = [];
    m._compile(src.toString(), path);
    glue[h] = m.exports;
  }
  return glue[h];
}
const rl = readline.createInterface({ input: process.stdin });
(async () => {
  for await (const line of rl) {
    const job = JSON.parse(line);
    const out = { results: [] };
    if (job.api === "validate") {
      out.valid = WebAssembly.validate(fs.readFileSync(job.wasm));
      realLog(JSON.stringify(out) + "\n");
      continue;
    }
    try {
      const builder = load(job.glue);
      const code = fs.readFileSync(job.wasm);
      let wc = null;
      for (let n = 0; n < job.inputs.length; n++) {
        const inp = job.inputs[n], api = job.apis ? job.apis[n] : job.api;
        logs = [];
        const r = {};
        try {
          if (wc === null || !job.reuse) wc = await builder(code, job.options);
          const input = JSON.parse(inp);
          if (api === "list") {
            r.witness = (await wc.calculateWitness(input, 0)).map(String);
          } else if (api === "bin") {
            r.wtns = Buffer.from(await wc.calculateBinWitness(input, 0)).toString("base64");
          } else {
            r.wtns = Buffer.from(await wc.calculateWTNSBin(input, 0)).toString("base64");
          }
        } catch (e) {
          r.error = String(e && e.message !== undefined ? e.message : e);
          r.etype = e instanceof WebAssembly.RuntimeError ? "trap" : e instanceof RangeError ? "range" : "error";
        }
        r.logs = logs;
        out.results.push(r);
      }
    } catch (e) { out.fatal = String(e && e.stack || e); }
    realLog(JSON.stringify(out) + "\n");
  }
})();
