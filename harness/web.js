// The page of the web build: runs histories of calls, one per line of
// standard input, each in a program of its own, and prints the answers.
'use strict';
const fs = require('fs'), util = require('util');
console.log = console.error = console.warn = () => {}; // what the program prints
require(process.argv[2]); // wasm_exec.js, which sets up what it needs of a page
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[3]));

async function load() {
  const go = new Go();
  let f = null, exited = false;
  const loaded = new Promise((res) => { globalThis.parserLoaded = (g) => { f = g; res(); }; });
  const inst = await WebAssembly.instantiate(mod, go.importObject);
  const ran = go.run(inst).then(() => { exited = true; }, () => { exited = true; });
  await Promise.race([loaded, ran]);
  return { call: (...a) => f(...a), gone: () => exited || !f };
}

const others = {
  none: () => [], number: () => [12], nan: () => [NaN], undefined: () => [undefined], null: () => [null], boolean: () => [true],
  object: () => [{ a: 1 }], array: () => [['a', 'b']], function: () => [() => 1], symbol: () => [Symbol('a')], bigint: () => [10n],
  throwing: () => [{ toString() { throw new Error('no'); }, valueOf() { throw new Error('no'); }, get length() { throw new Error('no'); } }],
  proxy: () => [new Proxy({}, { get() { throw new Error('no'); } })], boxed: () => [new String('a;')],
};

function args(a) {
  if (a.kind === 'text' || a.kind === 'long') {
    let s = '';
    if (a.kind === 'long') s = a.pre.repeat(a.n) + (a.mid || '') + (a.suf || '').repeat(a.n);
    else for (const u of a.u || []) s += String.fromCharCode(u);
    return a.more ? [s, 'b b b', 1, undefined] : [s];
  }
  return others[a.kind]();
}

function answer(p, a) {
  let r;
  try { r = p.call(...args(a)); } catch (e) { return { threw: String(e) }; }
  if (typeof r !== 'object' || r === null) return { threw: 'the answer is ' + util.inspect(r) };
  const has = (k) => r[k] !== undefined && r[k] !== null;
  const o = {};
  for (const k of ['result', 'error']) {
    if (has(k)) {
      if (typeof r[k] !== 'string') return { threw: k + ' is ' + util.inspect(r[k]) };
      o[k] = r[k];
    }
  }
  return o;
}

async function main() {
  const lines = require('readline').createInterface({ input: process.stdin, crlfDelay: Infinity });
  for await (const line of lines) {
    if (!line) continue;
    const h = JSON.parse(line), p = await load(), out = [];
    for (const a of h.calls) {
      out.push(answer(p, a));
      if (h.gap) await new Promise((r) => setImmediate(r));
    }
    await new Promise((r) => setImmediate(r));
    fs.writeSync(1, JSON.stringify({ answers: out, gone: p.gone() }) + '\n');
  }
  process.exit(0);
}
main().catch((e) => { process.stderr.write(String(e && e.stack) + '\n'); process.exit(5); });
