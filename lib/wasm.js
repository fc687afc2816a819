// Runs a monitored program compiled to wasm32: node wasm.js PROGRAM.wasm ARGS...
const fs = require('fs');
const [file, ...args] = process.argv.slice(2);
let memory;
const text = (p, n) => Buffer.from(memory.buffer, p, n).toString('utf8');
const env = {
  host_args(p, cap) { const b = Buffer.from(['x', ...args].join('\n')); b.copy(Buffer.from(memory.buffer, p, cap)); return b.length; },
  host_put(p, n) { const s = text(p, n); if (s.startsWith('HARNESS-PANIC')) console.error(s); fs.writeSync(1, s + '\n'); },
};
const m = new WebAssembly.Module(fs.readFileSync(file));
const i = new WebAssembly.Instance(m, { env });
memory = i.exports.memory;
try {
  i.exports.main(0, 0);
} catch (e) {
  console.error('TRAP ' + e.stack);
  process.exit(134);
}
