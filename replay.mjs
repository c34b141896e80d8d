// Concrete execution of harness cases on V8: the same wasm module, with the recorded input bytes.
// usage: node replay.mjs harness.wasm cases.json   (cases: [{entry, input(hex), params:[..]}])
// prints one JSON line per case: {end, failed:[labels], log, panic, mem_pages}
import fs from 'node:fs';
import { replayLogs, unsupported as isUnsupported } from './client.mjs';
const [wasmPath, casesPath] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(wasmPath));
const cases = JSON.parse(fs.readFileSync(casesPath, 'utf8'));
class Finish extends Error {}
class Stop extends Error { constructor(k) { super(k); this.k = k; } }
const M = (1n << 64n) - 1n;
export function run(c) {
  const input = Buffer.from(c.input, 'hex');
  const params = c.params || [];
  let pos = 0, log = 0xcbf29ce484222325n, text = '', inst, allow = false;
  const failed = [], labels = [], logs = [], raw = [];
  const mem = () => new Uint8Array(inst.exports.memory.buffer);
  const dv = () => new DataView(inst.exports.memory.buffer);
  const next = () => (pos < input.length ? input[pos++] : (pos++, 0));
  const str = (p, n) => Buffer.from(mem().subarray(p >>> 0, (p >>> 0) + n)).toString('utf8');
  const wsym = {
    sym_bytes(p, n) { const m = mem(); for (let i = 0; i < n; i++) m[(p >>> 0) + i] = next(); },
    sym_range(lo, hi) {
      lo >>>= 0; hi >>>= 0;
      const nb = hi < 256 ? 1 : hi < 65536 ? 2 : 4;
      let v = 0;
      for (let i = 0; i < nb; i++) v += next() * 2 ** (8 * i);
      if (v < lo || v > hi) v = lo;
      return v | 0;
    },
    sym_u64() { let v = 0n; for (let i = 0n; i < 8n; i++) v |= BigInt(next()) << (8n * i); return BigInt.asIntN(64, v); },
    assume(x) { if (!x) throw new Stop('assume'); },
    check(x, p, n) {
      if (x) return;
      const l = str(p, n);
      // checks which belong to other properties are left to these
      if (c.tags && !c.tags.some((t) => l.startsWith(t))) return;
      failed.push(l);
      // what the browser shows is for the real client to say
      if (c.client && l.startsWith('view:')) return;
      throw new Stop('check');
    },
    cover(p, n) { labels.push(str(p, n)); },
    ite(x, a, b) { return x ? a : b; },
    finish() { throw new Finish(); },
    log(p, n) {
      const m = mem();
      for (let i = 0; i < n; i++) log = ((log ^ BigInt(m[(p >>> 0) + i])) * 0x100000001b3n) & M;
      log = ((log ^ 0x1ffn) * 0x100000001b3n) & M;
      if (c.client) raw.push(Buffer.from(m.subarray(p >>> 0, (p >>> 0) + n)));
      if (c.verbose) logs.push(Buffer.from(m.subarray(p >>> 0, (p >>> 0) + n)).toString('latin1'));
    },
    note(p, n) { if (c.verbose) logs.push('note: ' + str(p, n)); },
    conc(v) { return v; },
    allow_panic(v) { allow = !!v; },
    is_engine() { return 0; },
    param(i) { return params[i] ?? 0; },
  };
  const wasi = {
    fd_write(fd, iov, cnt, out) {
      let t = 0; const d = dv();
      for (let i = 0; i < cnt; i++) {
        const p = d.getUint32(iov + 8 * i, true), n = d.getUint32(iov + 8 * i + 4, true);
        if (text.length < 4000) text += str(p, n);
        t += n;
      }
      d.setUint32(out, t, true);
      return 0;
    },
    random_get(p, n) { const m = mem(); for (let i = 0; i < n; i++) m[p + i] = (7 * i + 3) & 255; return 0; },
    clock_time_get(a, b, p) { dv().setBigUint64(p, 0n, true); return 0; },
    environ_sizes_get(a, b) { dv().setUint32(a, 0, true); dv().setUint32(b, 0, true); return 0; },
    args_sizes_get(a, b) { dv().setUint32(a, 0, true); dv().setUint32(b, 0, true); return 0; },
    environ_get() { return 0; }, args_get() { return 0; }, sched_yield() { return 0; },
    proc_exit() { throw new Stop('exit'); },
  };
  const imports = {};
  for (const i of WebAssembly.Module.imports(mod)) {
    const o = (imports[i.module] ||= {});
    if (i.module === 'wsym') o[i.name] = wsym[i.name];
    else if (i.module.startsWith('wasi') && wasi[i.name]) o[i.name] = wasi[i.name];
    else { const k = i.module + '::' + i.name; o[i.name] = (...a) => { const f = inst.exports[k]; if (!f) throw new Stop('import ' + k); return f(...a); }; }
  }
  inst = new WebAssembly.Instance(mod, imports);
  const pages0 = inst.exports.memory.buffer.byteLength >> 16;
  let end = 'ok';
  try { inst.exports[c.entry](); }
  catch (e) {
    if (e instanceof Finish) end = 'ok';
    else if (e instanceof Stop) end = e.k;
    else if (text.includes('panicked at')) end = 'panic';
    else if (/memory allocation of/.test(text)) end = 'alloc';
    else end = 'trap: ' + (e && e.message);
  }
  let page, unsupported;
  if (c.client) {
    try { page = replayLogs(c.client, raw); } catch (e) { page = 'client: ' + e.message; }
    // not a fault of the client
    if (page && isUnsupported(page)) { unsupported = page; page = null; }
  }
  return { end, failed, page, unsupported, covers: labels, log: log.toString(16).padStart(16, '0'), text: text.slice(0, 600), mem_pages: inst.exports.memory.buffer.byteLength >> 16, grown: (inst.exports.memory.buffer.byteLength >> 16) - pages0, used: pos, allow, logs: c.verbose ? logs : undefined };
}
for (const c of cases) process.stdout.write(JSON.stringify(run(c)) + '\n');
