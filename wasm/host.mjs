// The 32-bit node's machine: runs each plan in a fresh instance of the module.
// Input: u32 length, u8 verbose, plan.  Output: u32 length, u8 outcome (0 finished, 1 trapped), text.
import fs from 'node:fs';
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
function read(n) {
  const b = Buffer.alloc(n);
  for (let i = 0; i < n;) {
    let k = 0;
    try { k = fs.readSync(0, b, i, n - i, null); } catch (e) { if (e.code !== 'EAGAIN' && e.code !== 'EINTR') process.exit(0); continue; }
    if (k === 0) process.exit(0);
    i += k;
  }
  return b;
}
function write(b) {
  for (let i = 0; i < b.length;) {
    try { i += fs.writeSync(1, b, i, b.length - i); } catch (e) { if (e.code !== 'EAGAIN' && e.code !== 'EINTR') process.exit(0); }
  }
}
for (;;) {
  const n = read(4).readUInt32LE(0), verbose = read(1)[0], plan = read(n);
  const x = new WebAssembly.Instance(mod, {}).exports;
  let trapped = 0, text = '';
  try {
    const p = x.input(n) >>> 0;
    new Uint8Array(x.memory.buffer, p, n).set(plan);
    x.run(verbose);
  } catch (e) {
    trapped = 1;
    text = String(e && e.message);
  }
  const len = x.out_len() >>> 0;
  if (len > 0) text = Buffer.from(new Uint8Array(x.memory.buffer, x.out_ptr() >>> 0, len)).toString('utf8');
  const body = Buffer.from(text, 'utf8'), head = Buffer.alloc(5);
  head.writeUInt32LE(body.length, 0);
  head[4] = trapped;
  write(Buffer.concat([head, body]));
}
