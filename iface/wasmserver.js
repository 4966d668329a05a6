// Calls of the WebAssembly module, one JSON request per line.
const fs = require("fs"), path = require("path");
const dir = process.argv[2];
let M = require(path.join(dir, "cosmian_abe_gpsw.js"));
const arg = a => a === null ? undefined : (typeof a === "object" ? Uint8Array.from(Buffer.from(a.hex, "hex")) : a);
const out = v => v instanceof Uint8Array ? {hex: Buffer.from(v).toString("hex")} : (v === undefined ? null : v);
const log = console.error; console.error = () => {};
let buf = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 20);
for (;;) {
  let i;
  while ((i = buf.indexOf(10)) < 0) {
    let n;
    try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) { if (e.code === "EAGAIN") continue; throw e; }
    if (n === 0) process.exit(0);
    buf = Buffer.concat([buf, chunk.subarray(0, n)]);
  }
  const line = buf.subarray(0, i).toString();
  buf = buf.subarray(i + 1);
  const r = JSON.parse(line);
  let res;
  try {
    res = {res: "ok", out: out(M[r.fn](...r.args.map(arg)))};
  } catch (e) {
    if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) {
      res = {res: "panic", msg: String(e)};
      // a trapped instance is not used again
      for (const k of Object.keys(require.cache)) delete require.cache[k];
      M = require(path.join(dir, "cosmian_abe_gpsw.js"));
    } else res = {res: "err", msg: String(e && e.message ? e.message : e)};
  }
  fs.writeSync(1, JSON.stringify(res) + "\n");
}
