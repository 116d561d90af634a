// Runtime part of the driver around generated TypeScript code; the counterpart of rt.rs.
import * as fs from 'fs';

export class Rd {
  b: Buffer;
  p: number;
  constructor(b: Buffer, p: number) {
    this.b = b;
    this.p = p;
  }
  u8(): number { return this.b.readUInt8(this.p++); }
  u16(): number { this.p += 2; return this.b.readUInt16LE(this.p - 2); }
  u32(): number { this.p += 4; return this.b.readUInt32LE(this.p - 4); }
  u64(): bigint { this.p += 8; return this.b.readBigUInt64LE(this.p - 8); }
  i64(): bigint { this.p += 8; return this.b.readBigInt64LE(this.p - 8); }
  f64(): number { this.p += 8; return this.b.readDoubleLE(this.p - 8); }
  bool(): boolean { return this.u8() !== 0; }
  bytes(): ArrayBuffer {
    const n = this.u32();
    const a = new ArrayBuffer(n);
    new Uint8Array(a).set(this.b.subarray(this.p, this.p + n));
    this.p += n;
    return a;
  }
  string(): string {
    const n = this.u32();
    this.p += n;
    return this.b.toString('utf8', this.p - n, this.p);
  }
  opt<T>(f: () => T): T | undefined { return this.bool() ? f() : undefined; }
  arr<T>(f: () => T): T[] {
    const n = this.u32();
    const a: T[] = [];
    for (let i = 0; i < n; i += 1) a.push(f());
    return a;
  }
  units(): null[] { return Array(this.u32()).fill(null) as null[]; }
}

export class Wr {
  b: Buffer = Buffer.alloc(1024);
  n = 0;
  need(k: number) {
    if (this.n + k > this.b.length) {
      const c = Buffer.alloc(Math.max(this.b.length * 2, this.n + k));
      this.b.copy(c, 0, 0, this.n);
      this.b = c;
    }
  }
  u8(x: number) { this.need(1); this.b.writeUInt8(x, this.n); this.n += 1; }
  u32(x: number) { this.need(4); this.b.writeUInt32LE(x, this.n); this.n += 4; }
  u64(x: bigint) { this.need(8); this.b.writeBigUInt64LE(x, this.n); this.n += 8; }
  i64(x: bigint) { this.need(8); this.b.writeBigInt64LE(x, this.n); this.n += 8; }
  f64(x: number) { this.need(8); this.b.writeDoubleLE(x, this.n); this.n += 8; }
  raw(x: Uint8Array) { this.need(x.length); this.b.set(x, this.n); this.n += x.length; }
  blob(x: Uint8Array) { this.u32(x.length); this.raw(x); }
  text(s: string) { this.blob(Buffer.from(s, 'utf8')); }
  get(): Buffer { return this.b.subarray(0, this.n); }
}

// Dumping doubles as a monitor: a value that is not of the declared type is an error here.
export function bad(what: string, x: unknown): never {
  throw new TypeError(`VH-TYPE: expected ${what}, got ${typeof x} ${String(x).slice(0, 60)}`);
}
export function dUnit(x: unknown, _w: Wr) { if (x !== null) bad('null', x); }
export function dF64(x: unknown, w: Wr) { if (typeof x !== 'number') bad('number', x); w.f64(x as number); }
export function dU64(x: unknown, w: Wr) {
  if (typeof x !== 'bigint' || x < 0n || x >= 1n << 64n) bad('U64', x);
  w.u64(x as bigint);
}
export function dS64(x: unknown, w: Wr) {
  if (typeof x !== 'bigint' || x < -(1n << 63n) || x >= 1n << 63n) bad('S64', x);
  w.i64(x as bigint);
}
export function dBool(x: unknown, w: Wr) { if (typeof x !== 'boolean') bad('boolean', x); w.u8(x ? 1 : 0); }
export function dBytes(x: unknown, w: Wr) {
  if (!(x instanceof ArrayBuffer)) bad('ArrayBuffer', x);
  w.blob(new Uint8Array(x as ArrayBuffer));
}
export function dString(x: unknown, w: Wr) { if (typeof x !== 'string') bad('string', x); w.text(x as string); }
export function dUnits(x: unknown, w: Wr) {
  if (!Array.isArray(x)) bad('array', x);
  const a = x as unknown[];
  for (let i = 0; i < a.length; i += 1) if (a[i] !== null) bad('null element', a[i]);
  w.u32(a.length);
}
export function dArr(f: (x: any, w: Wr) => void): (x: any, w: Wr) => void {
  return (x, w) => {
    if (!Array.isArray(x)) bad('array', x);
    w.u32(x.length);
    for (let i = 0; i < x.length; i += 1) f(x[i], w);
  };
}
export function dOpt(x: unknown, w: Wr, f: (x: any, w: Wr) => void) {
  if (x === undefined) {
    w.u8(0);
  } else {
    w.u8(1);
    f(x, w);
  }
}
// An object with no other own keys than the given ones.
export function keys(x: any, names: string[]) {
  if (typeof x !== 'object' || x === null || Array.isArray(x) || x instanceof Error) bad('object', x);
  for (const k of Object.keys(x)) if (!names.includes(k)) throw new TypeError(`VH-TYPE: unexpected key ${k}`);
}
export function own(x: any, name: string): any {
  return Object.prototype.hasOwnProperty.call(x, name) ? x[name] : undefined;
}

export function freeze<T>(x: T): T {
  if (typeof x === 'object' && x !== null && !(x instanceof ArrayBuffer)) {
    Object.freeze(x);
    for (const k of Object.keys(x)) freeze((x as any)[k]);
  }
  return x;
}

export type Ops = {
  build: (r: Rd) => any;
  size: (m: any) => number;
  serialize: (m: any) => ArrayBuffer;
  deserialize: (b: any) => any;
  dump: (x: any, w: Wr) => void;
};

type Plan = { chunk: number; seed: bigint };

function plan(r: Rd): Plan {
  const chunk = r.u32();
  const seed = r.u64();
  r.u64();
  r.u8();
  r.u8();
  return { chunk, seed };
}

// Put the message into some kind of buffer.
function container(data: Uint8Array, p: Plan): [any, Uint8Array] {
  const n = data.length;
  if (p.chunk === 0) {
    const a = new ArrayBuffer(n);
    new Uint8Array(a).set(data);
    return [a, new Uint8Array(a)];
  }
  const seed = Number(p.seed % 65536n);
  const off = p.chunk >= 6 ? (seed % 4) * 8 : seed % 19;
  const all = new Uint8Array(off + n + (seed % 23));
  for (let i = 0; i < all.length; i += 1) all[i] = (i * 37 + seed) & 255;
  all.set(data, off);
  const b = all.buffer;
  switch (p.chunk) {
    case 1: return [new Uint8Array(b, off, n), all];
    case 2: return [new DataView(b, off, n), all];
    case 3: { const x = Buffer.from(data); return [x, x]; }
    case 4: return [new Int8Array(b, off, n), all];
    case 5: return [new Uint8ClampedArray(b, off, n), all];
    default: {
      const kinds: [number, any][] = [
        [2, Uint16Array], [2, Int16Array], [4, Uint32Array], [4, Int32Array], [4, Float32Array],
        [8, Float64Array], [8, BigUint64Array], [8, BigInt64Array],
      ];
      const ok = kinds.filter(([k]) => n % k === 0);
      if (ok.length === 0) return [new Uint8Array(b, off, n), all];
      const [k, c] = ok[seed % ok.length];
      return [new c(b, off, n / k), all];
    }
  }
}

function decode(op: Ops, data: Uint8Array, p: Plan, w: Wr) {
  const [c, all] = container(data, p);
  const before = Buffer.from(all);
  let status = 0;
  const dump = new Wr();
  let msg = '';
  try {
    const v = op.deserialize(c);
    if (Buffer.compare(before, all) !== 0) throw new TypeError('VH-TYPE: the input was modified');
    if (v instanceof Error) {
      status = 1;
      msg = `${v.name}: ${v.message}`;
    } else {
      // The value must not depend on the buffer any more.
      all.fill(0x5a);
      op.dump(v, dump);
    }
  } catch (e) {
    status = 2;
    msg = e instanceof Error ? `threw ${e.name}: ${e.message} ${(e.stack ?? '').split('\n').slice(0, 3).join(' | ')}` : `threw ${String(e)}`;
  }
  w.u8(status);
  if (status === 0) w.blob(dump.get());
  else w.text(msg);
  w.u32(0);
  w.u64(0n);
  w.u64(0n);
}

// A session: many operations whose results stay around until the end, on messages whose fields are
// accessors that use the generated code themselves.
type Step = { op: Ops; made?: { m: any; size: number; out: ArrayBuffer; held: [ArrayBuffer, Uint8Array][] }; got?: { v: any; all: Uint8Array }; error?: string };

function buffers(x: any, found: ArrayBuffer[] = [], seen = new Set<any>()): ArrayBuffer[] {
  if (x instanceof ArrayBuffer) {
    found.push(x);
  } else if (typeof x === 'object' && x !== null && !seen.has(x)) {
    seen.add(x);
    for (const k of Object.keys(x)) buffers(x[k], found, seen);
  }
  return found;
}

function accessors(x: any, hook: () => void): any {
  if (typeof x !== 'object' || x === null || x instanceof ArrayBuffer) return x;
  if (Array.isArray(x)) {
    for (let i = 0; i < x.length; i += 1) accessors(x[i], hook);
  } else {
    for (const k of Object.keys(x)) {
      const v = accessors(x[k], hook);
      Object.defineProperty(x, k, { get: () => { hook(); return v; }, enumerable: true, configurable: false });
    }
  }
  return Object.freeze(x);
}

function threw(e: unknown): string {
  return e instanceof Error ? `threw ${e.name}: ${e.message} ${(e.stack ?? '').split('\n').slice(0, 3).join(' | ')}` : `threw ${String(e)}`;
}

function session(tables: Ops[][], r: Rd): Buffer {
  const nested = r.u8();
  let seed = r.u32();
  const rnd = (n: number) => {
    seed = (Math.imul(seed, 1103515245) + 12345) >>> 0;
    return (seed >>> 8) % n;
  };
  const steps: Step[] = [];
  const ready: (() => void)[] = [];
  let depth = 0;
  let inner = 0;
  let left = 0;
  const hook = () => {
    if (depth > 0 || left === 0 || ready.length === 0 || rnd(4) !== 0) return;
    depth += 1;
    left -= 1;
    inner += 1;
    try { ready[rnd(ready.length)](); } catch { /* noticed where it is called first */ }
    depth -= 1;
  };
  for (let n = r.u16(); n > 0; n -= 1) {
    const len = r.u32();
    const q = new Rd(r.b, r.p);
    r.p += len;
    const kind = q.u8();
    const op = tables[q.u16()][q.u16()];
    const p = plan(q);
    const s: Step = { op };
    steps.push(s);
    left = nested;
    try {
      if (kind === 1) {
        q.u8();
        const plain = op.build(q);
        const held = buffers(plain).map((a) => [a, new Uint8Array(a.slice(0))] as [ArrayBuffer, Uint8Array]);
        const m = nested > 0 ? accessors(plain, hook) : freeze(plain);
        const size = op.size(m);
        const out = op.serialize(m);
        if (!(out instanceof ArrayBuffer)) bad('ArrayBuffer', out);
        s.made = { m, size, out, held };
        ready.push(() => { op.size(m); op.serialize(m); });
      } else {
        const [c, all] = container(r.b.subarray(q.p, r.p), p);
        const before = Buffer.from(all);
        const v = op.deserialize(c);
        if (Buffer.compare(before, all) !== 0) throw new TypeError('VH-TYPE: the input was modified');
        s.got = { v, all };
        const again = new Uint8Array(r.b.subarray(q.p, r.p));
        ready.push(() => { op.deserialize(again); });
      }
    } catch (e) {
      s.error = threw(e);
    }
  }
  // Nothing may depend on the inputs any more.
  for (const s of steps) if (s.got) s.got.all.fill(0x5a);
  const w = new Wr();
  for (const s of steps) {
    const x = new Wr();
    try {
      if (s.error !== undefined) throw s.error;
      if (s.made) {
        const { m, size, out, held } = s.made;
        for (const [a, b] of held) if (Buffer.compare(new Uint8Array(a), b) !== 0) throw 'VH: a message was modified';
        const first = Buffer.from(new Uint8Array(out));
        // The result is the caller's: writing to it must not matter to anything else.
        new Uint8Array(out).fill(0xa5);
        left = 0;
        const second = new Uint8Array(s.op.serialize(m));
        if (Buffer.compare(first, second) !== 0) throw 'VH: serializing the same message again gives other bytes';
        for (const [a, b] of held) if (Buffer.compare(new Uint8Array(a), b) !== 0) throw 'VH: the result shares memory with the message';
        x.u8(0);
        x.u64(BigInt(size));
        x.blob(first);
        x.u32(0);
      } else {
        const { v } = s.got!;
        if (v instanceof Error) {
          x.u8(1);
          x.text(v.name);
        } else {
          const dump = new Wr();
          s.op.dump(v, dump);
          x.u8(0);
          x.blob(dump.get());
          for (const a of buffers(v)) new Uint8Array(a).fill(0xa5);
        }
        x.u32(0);
        x.u64(0n);
        x.u64(0n);
      }
      w.blob(x.get());
    } catch (e) {
      const y = new Wr();
      y.u8(2);
      y.text(typeof e === 'string' ? e : threw(e));
      if (!s.made) {
        y.u32(0);
        y.u64(0n);
        y.u64(0n);
      }
      w.blob(y.get());
    }
  }
  w.u64(BigInt(steps.length));
  w.u64(BigInt(inner));
  w.text('');
  return w.get();
}

// Processor time in nanoseconds, the least of three.
function time(f: () => void): number {
  let best = Infinity;
  for (let i = 0; i === 0 || (i < 3 && best < 300_000); i += 1) {
    const t = process.cpuUsage();
    f();
    const d = process.cpuUsage(t);
    best = Math.min(best, d.user + d.system);
  }
  return best * 1000;
}

function memory(): number {
  (globalThis as any).gc();
  (globalThis as any).gc();
  const m = process.memoryUsage();
  return m.heapUsed + m.arrayBuffers;
}

function measure(tables: Ops[][], r: Rd): Buffer {
  const op = tables[r.u16()][r.u16()];
  const times = r.u8();
  const w = new Wr();
  try {
    const m = op.build(r);
    const size = op.size(m);
    const a = time(() => { op.size(m); });
    const b = time(() => { op.serialize(m); });
    const bytes = op.serialize(m);
    const c = time(() => { op.deserialize(bytes); });
    const before = memory();
    for (let i = 0; i < times; i += 1) {
      op.size(m);
      op.serialize(m);
      op.deserialize(bytes);
    }
    const after = memory();
    let x = op.deserialize(bytes);
    if (x instanceof Error) throw x;
    const held = memory() - after;
    x = null;
    const nums = [size, a, b, c, Math.max(0, after - before), Math.max(0, held), bytes.byteLength];
    w.u8(0);
    for (const n of nums) w.u64(BigInt(Math.round(n)));
    return w.get();
  } catch (e) {
    const w2 = new Wr();
    w2.u8(2);
    w2.text(threw(e));
    return w2.get();
  }
}

function handle(tables: Ops[][], r: Rd, end: number): Buffer {
  const w = new Wr();
  const kind = r.u8();
  if (kind === 5) return measure(tables, r);
  if (kind === 3) return session(tables, r);
  const g = r.u16();
  const d = r.u16();
  const op = tables[g][d];
  const p = plan(r);
  if (kind === 1) {
    const nt = r.u8();
    const targets: [number, number, Plan][] = [];
    for (let i = 0; i < nt; i += 1) targets.push([r.u16(), r.u16(), plan(r)]);
    try {
      const m = freeze(op.build(r));
      const size = op.size(m);
      const out = op.serialize(m);
      if (!(out instanceof ArrayBuffer)) bad('ArrayBuffer', out);
      if (!Number.isInteger(size)) bad('integer', size);
      const bytes = new Uint8Array(out);
      w.u8(0);
      w.u64(BigInt(size));
      w.blob(bytes);
      w.u32(0);
      for (const [g2, d2, p2] of targets) decode(tables[g2][d2], bytes, p2, w);
    } catch (e) {
      const w2 = new Wr();
      w2.u8(2);
      w2.text(e instanceof Error ? `threw ${e.name}: ${e.message} ${(e.stack ?? '').split('\n').slice(0, 3).join(' | ')}` : String(e));
      return w2.get();
    }
  } else {
    decode(op, r.b.subarray(r.p, end), p, w);
  }
  return w.get();
}

export function run(tables: Ops[][]) {
  const [inp, outp, skipText] = process.argv.slice(2);
  const input = fs.readFileSync(inp);
  const fd = fs.openSync(outp, 'a');
  const skip = parseInt(skipText, 10);
  let p = 0;
  let i = 0;
  while (p < input.length) {
    const n = input.readUInt32LE(p);
    p += 4;
    if (i >= skip) {
      const resp = handle(tables, new Rd(input, p), p + n);
      const m = Buffer.alloc(4 + resp.length);
      m.writeUInt32LE(resp.length, 0);
      m.set(resp, 4);
      fs.writeSync(fd, m);
    }
    p += n;
    i += 1;
  }
}
