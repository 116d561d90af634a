// Loads a bundle into one kind of JavaScript environment, hands it the requests and writes down the
// responses, together with what the environment noticed: dynamic code, output, changed globals.
// usage: node host.js ENVIRONMENT BUNDLE REQUESTS RESPONSES REPORT
'use strict';
const fs = require('fs');
const vm = require('vm');
const [env, bundle, inp, outp, report] = process.argv.slice(2);
const noticed = [];
const notice = (what) => { if (noticed.length < 20) noticed.push(String(what)); };

// Everything reachable from the global object by way of data properties and prototypes.
const SNAPSHOT = `(function (skip) {
  const seen = new Map();
  const names = new Map();
  const todo = [[globalThis, 'globalThis']];
  while (todo.length > 0) {
    const [o, name] = todo.pop();
    if ((typeof o !== 'object' && typeof o !== 'function') || o === null || seen.has(o)) continue;
    const m = new Map();
    seen.set(o, m);
    names.set(o, name);
    if (seen.size > 6000) break;
    const proto = Object.getPrototypeOf(o);
    m.set('[[Prototype]]', proto);
    todo.push([proto, name + '.__proto__']);
    for (const k of Reflect.ownKeys(o)) {
      if (o === globalThis && skip.includes(k)) continue;
      const d = Object.getOwnPropertyDescriptor(o, k);
      if (d === undefined) continue;
      m.set(k, 'value' in d ? d.value : d.get);
      todo.push(['value' in d ? d.value : d.get, name + '.' + String(k)]);
      if (!('value' in d)) { m.set(String(k) + ' set', d.set); todo.push([d.set, name + '.' + String(k) + ' (set)']); }
    }
  }
  return { seen, names };
})`;
const COMPARE = `(function (a, b, skip) {
  const diff = [];
  for (const [o, m] of a.seen) {
    const name = a.names.get(o);
    const n = b.seen.get(o);
    if (n === undefined) { diff.push(name + ' is gone'); continue; }
    for (const k of new Set([...m.keys(), ...n.keys()])) {
      if (name === 'globalThis' && skip.includes(k)) continue;
      if (m.has(k) !== n.has(k) || !Object.is(m.get(k), n.get(k))) diff.push(name + '.' + String(k) + ' changed');
      if (diff.length > 10) return diff;
    }
  }
  return diff;
})`;

const input = fs.readFileSync(inp);
const skip = ['VH', 'snapshot'];

function finish(responses) {
  fs.writeFileSync(outp, responses);
  fs.writeFileSync(report, noticed.join('\n'));
}

function inRealm(strict) {
  const sandbox = vm.createContext(Object.create(null), {
    name: 'page',
    codeGeneration: strict ? { strings: false, wasm: false } : { strings: true, wasm: true },
  });
  const host = {
    encode: (s) => new TextEncoder().encode(s),
    decode: (l, o, b) => new TextDecoder(l, o).decode(b),
    notice,
  };
  // The text encoding API and little else, made inside the realm so that all objects belong to it.
  vm.runInContext(`(function (host) {
    const { encode, decode, notice } = host;
    globalThis.TextEncoder = class TextEncoder {
      get encoding() { return 'utf-8'; }
      encode(s) { return Uint8Array.from(encode(String(s === undefined ? '' : s))); }
      encodeInto(s, d) {
        let read = 0, written = 0;
        for (const c of String(s)) {
          const e = encode(c);
          if (written + e.length > d.length) break;
          d.set(e, written);
          written += e.length;
          read += c.length;
        }
        return { read, written };
      }
    };
    globalThis.TextDecoder = class TextDecoder {
      #l; #o;
      constructor(l, o) { this.#l = l === undefined ? 'utf-8' : l; this.#o = o || {}; this.fatal = !!this.#o.fatal; this.ignoreBOM = !!this.#o.ignoreBOM; this.encoding = 'utf-8'; }
      decode(b) {
        try { return decode(this.#l, { fatal: this.fatal, ignoreBOM: this.ignoreBOM }, b === undefined ? new Uint8Array(0) : b); }
        catch (e) { throw new TypeError(String(e.message)); }
      }
    };
    globalThis.console = {};
    for (const k of ['log', 'error', 'warn', 'info', 'debug', 'trace', 'assert'])
      globalThis.console[k] = function (...a) { notice('console.' + k + ' was called'); };
    const stub = (what) => function () { notice('dynamic code: ' + what); throw new EvalError('refused by the content security policy'); };
    if (${strict}) {
      globalThis.eval = stub('eval');
      const protos = [Object.getPrototypeOf(function () {}), Object.getPrototypeOf(function* () {}), Object.getPrototypeOf(async function () {}), Object.getPrototypeOf(async function* () {})];
      for (const p of protos) {
        const f = stub('Function');
        f.prototype = p;
        Object.defineProperty(p, 'constructor', { value: f, writable: true, configurable: true });
      }
      globalThis.Function = protos[0].constructor;
      let n = 0;
      Math.random = () => (n += 0.37) % 1;
      Date.now = () => 86400000 * ++n;
    } else {
      Math.random = () => 0;
    }
  })`, sandbox)(host);
  const snap = vm.runInContext(SNAPSHOT, sandbox);
  const compare = vm.runInContext(COMPARE, sandbox);
  const before = snap(skip);
  vm.runInContext(fs.readFileSync(bundle, 'utf8'), sandbox, { filename: 'bundle.js' });
  const run = vm.runInContext(`(function (n, at) {
    const input = new Uint8Array(n);
    for (let i = 0; i < n; i += 1) input[i] = at(i);
    return VH.respond(input);
  })`, sandbox);
  const r = run(input.length, (i) => input[i]);
  for (const d of compare(before, snap(skip), skip)) notice('global state: ' + d);
  finish(Buffer.from(r));
}

async function main() {
  if (env === 'browser') return inRealm(false);
  if (env === 'policy') return inRealm(true);
  const out = process.stdout.write;
  process.stdout.write = function (...a) { notice('something was printed'); return out.apply(process.stdout, a); };
  const err = process.stderr.write;
  process.stderr.write = function (...a) { notice('something was printed'); return err.apply(process.stderr, a); };
  let VH;
  if (env === 'esm') VH = await import('file://' + bundle);
  else if (env === 'cjs') VH = require(bundle);
  else VH = vm.runInThisContext(fs.readFileSync(bundle, 'utf8') + '\n;VH');
  const r = VH.respond(new Uint8Array(input));
  process.stdout.write = out;
  process.stderr.write = err;
  finish(Buffer.from(r));
}
main().catch((e) => { console.error(e); process.exit(3); });
