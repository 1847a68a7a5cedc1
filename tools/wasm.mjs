// Runs the harness built for WebAssembly: node wasm.mjs FILE.wasm ARGS...
// A trap ends this process by SIGABRT after writing the executed case to the journal file.
import fs from "node:fs";

const [file, ...argv] = process.argv.slice(2);
const args = [];
let journal = null;
for (let i = 0; i < argv.length; i++) {
  if (argv[i] === "--journal") { journal = argv[++i]; args.push("--journal", "memory"); }
  else if (argv[i] === "--seen") { i++; args.push("--seen", "none"); }
  else if (argv[i] === "--dict") { args.push("--dictdata", fs.readFileSync(argv[++i], "utf8")); }
  else if (argv[i] === "--file") { args.push("--case", fs.readFileSync(argv[++i], "utf8")); }
  else args.push(argv[i]);
}
const { instance } = await WebAssembly.instantiate(fs.readFileSync(file), {});
const x = instance.exports;
const text = () => Buffer.from(x.memory.buffer, x.simd_out(), x.simd_out_len()).toString("utf8");
const input = Buffer.from(args.join("\0"), "utf8");
const at = x.simd_in(input.length);
Buffer.from(x.memory.buffer, at, input.length).set(input);
try {
  x.simd_go();
  process.stdout.write(text() + "\n");
} catch (e) {
  let msg = String(e);
  try { x.simd_panic(); msg += ": " + text(); } catch (_) { /* the message is lost */ }
  const harness = msg.includes("harness:");
  try {
    const p = x.simd_journal() >>> 0;
    if (journal && p) {
      const head = new Uint32Array(x.memory.buffer, p, 10);
      const n = 40 + head[8] + head[9];
      fs.writeFileSync(journal, Buffer.from(x.memory.buffer, p, n));
    }
  } catch (_) { /* no journal */ }
  process.stderr.write((harness ? "" : "trap: ") + msg + "\n", () => {
    if (harness) process.exit(101);
    process.abort();
  });
}
