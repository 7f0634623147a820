// Runs the monitors in their 32-bit build, as `tw work` and `tw one` do. A panic ends the instance; the next case has a new one.
import fs from 'node:fs';
import readline from 'node:readline';
const [cmd, mon, one] = process.argv.slice(2);
const code = new WebAssembly.Module(fs.readFileSync(process.env.TW_W32));
let x, acc, room = 0;
// the memory's buffer is another one after the memory has grown
const text = (n) => { const a = x.out(); return Buffer.from(x.memory.buffer, a, n).toString() };
const send = (s) => { const b = Buffer.from(s); const a = x.room(b.length); new Uint8Array(x.memory.buffer, a, b.length).set(b) };
function fresh() { x = new WebAssembly.Instance(code, {}).exports; x.init(); }
fresh();
function add(j) {
  if (!acc) { acc = j; return }
  for (const [k, v] of Object.entries(j.n)) acc.n[k] = (acc.n[k] ?? 0) + v;
  for (const [k, v] of Object.entries(j.sets)) acc.sets[k] = [...new Set([...(acc.sets[k] ?? []), ...v])];
  acc.distinct += ',' + j.distinct; acc.samples.push(...j.samples);
}
// the hashes are 64-bit numbers: kept as text
function seen() { const t = text(x.seen()); const d = /"distinct":\[([^\]]*)\]/.exec(t)[1]; const j = JSON.parse(t.replace(/"distinct":\[[^\]]*\]/, '"distinct":0')); j.distinct = d; add(j) }
const inTarget = (l) => ['crates/tinywasm/', 'crates/parser/', 'crates/types/'].some((p) => l.includes(p));
// undefined: quiet; otherwise the violation as JSON text
function unit(seed) {
  send(mon);
  try { const n = x.run(BigInt(seed)); return n ? text(n) : undefined }
  catch (e) {
    const why = text(x.last()); const [loc, ...rest] = why.split('\n'); const msg = rest.join('\n');
    fresh();
    if (e instanceof RangeError || /out of memory|memory allocation of|capacity overflow/.test(msg)) { room++; return }
    if (e instanceof WebAssembly.RuntimeError && inTarget(loc)) return JSON.stringify({ seed: Number(seed), what: `[32-bit build] panic at ${loc}: ${msg}`, files: [] });
    process.stderr.write(`monitor failed at ${why}: ${e}\n`); process.exit(101);
  }
}
if (cmd === 'one') { const v = unit(one); seen(); console.log(v ? `VIOLATED: ${v}` : `ok ${JSON.stringify(acc.n)} ${JSON.stringify(acc.samples)}`); process.exit(v ? 1 : 0) }
for await (const l of readline.createInterface({ input: process.stdin })) {
  const [from, n] = l.trim().split(' ').map(BigInt);
  acc = undefined;
  for (let s = from; s < from + n; s++) { fs.writeSync(1, `U ${s}\n`); const v = unit(s); if (v) fs.writeSync(1, `V ${v.replace(/"seed":\d+/, `"seed":${s}`)}\n`) }
  seen(); acc.n.out_of_room_in_32_bits = room; room = 0;
  const { distinct, ...j } = acc;
  fs.writeSync(1, `D ${JSON.stringify({ ...j, distinct: 0 }).replace('"distinct":0', `"distinct":[${distinct}]`)}\n`);
}
