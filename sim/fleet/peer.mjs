// One member of the fleet on WebAssembly: reads a request per line, answers with a line.
import fs from 'node:fs';

const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
let e;
const files = new Map();
function file(p, n, to, room) {
  const name = text(p >>> 0, n >>> 0);
  if (!files.has(name)) {
    let b = null;
    try { b = fs.readFileSync(`/repo/resource/${name}.ozz`); } catch (x) { }
    files.set(name, b);
  }
  const b = files.get(name);
  if (!b) return -1;
  if (room >= b.length) new Uint8Array(e.memory.buffer, to >>> 0, b.length).set(b);
  return b.length;
}
const fresh = () => { e = new WebAssembly.Instance(mod, { host: { file } }).exports; e.oz_init(); };
const text = (p, n) => Buffer.from(e.memory.buffer, p, n).toString('utf8');
fresh();

let pending = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function line() {
  const parts = [pending];
  for (;;) {
    const last = parts[parts.length - 1];
    const i = last.indexOf(10);
    if (i >= 0) {
      const whole = Buffer.concat([...parts.slice(0, -1), last.subarray(0, i)]);
      pending = Buffer.from(last.subarray(i + 1));
      return whole;
    }
    let n = 0;
    try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (x) { if (x.code === 'EAGAIN') continue; n = 0; }
    if (n === 0) process.exit(0);
    parts.push(Buffer.from(chunk.subarray(0, n)));
  }
}
function say(s) {
  const b = Buffer.from(s + '\n');
  for (let i = 0; i < b.length;) {
    try { i += fs.writeSync(1, b, i); } catch (x) { if (x.code !== 'EAGAIN') process.exit(0); }
  }
}
for (;;) {
  const req = line();
  let out;
  try {
    const p = e.oz_alloc(req.length);
    new Uint8Array(e.memory.buffer, p, req.length).set(req);
    const q = e.oz_run(p, req.length);
    out = text(q, e.oz_len());
    // memory of WebAssembly never shrinks
    if (e.memory.buffer.byteLength > 256 << 20) fresh();
  } catch (x) {
    let why = String(x && x.message || x);
    let panic = '';
    try { const q = e.oz_panic(); panic = text(q, e.oz_len()); } catch (y) { }
    out = JSON.stringify({ r: panic && !panic.startsWith('?') ? 'panic' : 'trap', class: '', detail: `${panic} (${why})`, h: '', panics: 1 });
    fresh();
  }
  say(out);
}
