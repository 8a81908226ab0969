// usage: node run.js MODULE INPUTS BLOCK PART PARTS   digests of the operations i with i % PARTS == PART
//        node run.js MODULE INPUTS BLOCK OP B          every digest of one operation (by name) in block B
const fs = require('fs');
const [path, inputs, blockArg, a, b] = process.argv.slice(2);
const block = +blockArg;
const data = fs.readFileSync(inputs);
const code = new WebAssembly.Module(fs.readFileSync(path));
let m;
const fresh = () => { m = new WebAssembly.Instance(code, {}).exports; };
const hex = x => BigInt.asUintN(64, x).toString(16).padStart(16, '0');
const name = i => Buffer.from(m.memory.buffer, m.name_ptr(i), m.name_len(i)).toString();
// a trap is a result, too; the instance is not used again
const call = f => { try { return hex(f()); } catch (e) { fresh(); return 'trap'; } };
function load(k) {
  const part = data.subarray(k * block * 32, (k + 1) * block * 32);
  Buffer.from(m.memory.buffer, m.input(), part.length).set(part);
  return part.length / 32;
}
fresh();
const blocks = Math.ceil(data.length / 32 / block);
if (isNaN(+a)) {
  for (let i = 0; i < m.count(); i++) if (name(i) === a)
    for (let k = 0; ; k++) { const n = load(+b); if (k >= n) break; console.log(call(() => m.one(i, k))); }
} else for (let i = 0; i < m.count(); i++) if (i % +b === +a) {
  const line = [name(i).replaceAll(' ', '_')];
  for (let k = 0; k < blocks; k++) { const n = load(k); line.push(call(() => m.block(i, n))); }
  console.log(line.join(' '));
}
