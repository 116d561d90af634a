// The counterpart of rt.ts for environments that have nothing but the language and the text
// encoding API: no files, no Buffer, no process. Requests come in as one byte array and responses
// leave as one.
export class Rd {
  v: DataView;
  p: number;
  constructor(v: DataView, p: number) {
    this.v = v;
    this.p = p;
  }
  u8(): number { this.p += 1; return this.v.getUint8(this.p - 1); }
  u16(): number { this.p += 2; return this.v.getUint16(this.p - 2, true); }
  u32(): number { this.p += 4; return this.v.getUint32(this.p - 4, true); }
  u64(): bigint { this.p += 8; return this.v.getBigUint64(this.p - 8, true); }
  i64(): bigint { this.p += 8; return this.v.getBigInt64(this.p - 8, true); }
  f64(): number { this.p += 8; return this.v.getFloat64(this.p - 8, true); }
  bool(): boolean { return this.u8() !== 0; }
  sub(n: number): Uint8Array {
    this.p += n;
    return new Uint8Array(this.v.buffer, this.v.byteOffset + this.p - n, n);
  }
  bytes(): ArrayBuffer {
    const s = this.sub(this.u32());
    const a = new ArrayBuffer(s.length);
    new Uint8Array(a).set(s);
    return a;
  }
  string(): string { return new TextDecoder('utf-8', { ignoreBOM: true }).decode(this.sub(this.u32())); }
  opt<T>(f: () => T): T | undefined { return this.bool() ? f() : undefined; }
  arr<T>(f: () => T): T[] {
    const n = this.u32();
    const a: T[] = [];
    for (let i = 0; i < n; i += 1) a.push(f());
    return a;
  }
  units(): null[] { return Array(this.u32()).fill(null) as null[]; }
}

export class Wr {
  b: Uint8Array = new Uint8Array(1024);
  v: DataView = new DataView(this.b.buffer);
  n = 0;
  need(k: number) {
    if (this.n + k > this.b.length) {
      const c = new Uint8Array(Math.max(this.b.length * 2, this.n + k));
      c.set(this.b.subarray(0, this.n));
      this.b = c;
      this.v = new DataView(c.buffer);
    }
  }
  u8(x: number) { this.need(1); this.v.setUint8(this.n, x); this.n += 1; }
  u32(x: number) { this.need(4); this.v.setUint32(this.n, x, true); this.n += 4; }
  u64(x: bigint) { this.need(8); this.v.setBigUint64(this.n, x, true); this.n += 8; }
  i64(x: bigint) { this.need(8); this.v.setBigInt64(this.n, x, true); this.n += 8; }
  f64(x: number) { this.need(8); this.v.setFloat64(this.n, x, true); this.n += 8; }
  raw(x: Uint8Array) { this.need(x.length); this.b.set(x, this.n); this.n += x.length; }
  blob(x: Uint8Array) { this.u32(x.length); this.raw(x); }
  text(s: string) { this.blob(new TextEncoder().encode(s)); }
  get(): Uint8Array { return this.b.subarray(0, this.n); }
}

export function bad(what: string, x: unknown): never {
  throw new TypeError(`VH-TYPE: expected ${what}, got ${typeof x} ${String(x).slice(0, 60)}`);
}
export function dUnit(x: unknown, _w: Wr) { if (x !== null) bad('null', x); }
export function dF64(x: unknown, w: Wr) { if (typeof x !== 'number') bad('number', x); w.f64(x as number); }
export function dU64(x: unknown, w: Wr) {
  if (typeof x !== 'bigint' || x < 0n || x >= 1n << 64n) bad('U64', x);
  w.u64(x as bigint);
}
export function dS64(x: unknown, w: Wr) {
  if (typeof x !== 'bigint' || x < -(1n << 63n) || x >= 1n << 63n) bad('S64', x);
  w.i64(x as bigint);
}
export function dBool(x: unknown, w: Wr) { if (typeof x !== 'boolean') bad('boolean', x); w.u8(x ? 1 : 0); }
export function dBytes(x: unknown, w: Wr) {
  if (!(x instanceof ArrayBuffer)) bad('ArrayBuffer', x);
  w.blob(new Uint8Array(x as ArrayBuffer));
}
export function dString(x: unknown, w: Wr) { if (typeof x !== 'string') bad('string', x); w.text(x as string); }
export function dUnits(x: unknown, w: Wr) {
  if (!Array.isArray(x)) bad('array', x);
  const a = x as unknown[];
  for (let i = 0; i < a.length; i += 1) if (a[i] !== null) bad('null element', a[i]);
  w.u32(a.length);
}
export function dArr(f: (x: any, w: Wr) => void): (x: any, w: Wr) => void {
  return (x, w) => {
    if (!Array.isArray(x)) bad('array', x);
    w.u32(x.length);
    for (let i = 0; i < x.length; i += 1) f(x[i], w);
  };
}
export function dOpt(x: unknown, w: Wr, f: (x: any, w: Wr) => void) {
  if (x === undefined) {
    w.u8(0);
  } else {
    w.u8(1);
    f(x, w);
  }
}
export function keys(x: any, names: string[]) {
  if (typeof x !== 'object' || x === null || Array.isArray(x) || x instanceof Error) bad('object', x);
  for (const k of Object.keys(x)) if (!names.includes(k)) throw new TypeError(`VH-TYPE: unexpected key ${k}`);
}
export function own(x: any, name: string): any {
  return Object.prototype.hasOwnProperty.call(x, name) ? x[name] : undefined;
}

export type Ops = {
  build: (r: Rd) => any;
  size: (m: any) => number;
  serialize: (m: any) => ArrayBuffer;
  deserialize: (b: any) => any;
  dump: (x: any, w: Wr) => void;
};

function plan(r: Rd): number {
  const chunk = r.u32();
  r.u64();
  r.u64();
  r.u8();
  r.u8();
  return chunk;
}

function describe(e: unknown): string {
  return e instanceof Error ? `threw ${e.name}: ${e.message}` : `threw ${String(e)}`;
}

// The kinds of buffers a browser hands out.
function container(data: Uint8Array, chunk: number): any {
  const all = new Uint8Array(data.length + 24);
  const off = chunk % 3 === 0 ? 0 : 8;
  all.set(data, off);
  switch (chunk % 3) {
    case 0: return all.buffer.slice(0, data.length);
    case 1: return all.subarray(off, off + data.length);
    default: return new DataView(all.buffer, off, data.length);
  }
}

function decode(op: Ops, data: Uint8Array, chunk: number, w: Wr) {
  let status = 0;
  const dump = new Wr();
  let msg = '';
  try {
    const v = op.deserialize(container(data, chunk));
    if (v instanceof Error) {
      status = 1;
      msg = v.name;
    } else {
      op.dump(v, dump);
    }
  } catch (e) {
    status = 2;
    msg = describe(e);
  }
  w.u8(status);
  if (status === 0) w.blob(dump.get());
  else w.text(msg);
  w.u32(0);
  w.u64(0n);
  w.u64(0n);
}

function handle(tables: Ops[][], r: Rd, end: number): Uint8Array {
  const w = new Wr();
  const kind = r.u8();
  const op = tables[r.u16()][r.u16()];
  const p = plan(r);
  if (kind === 1) {
    const targets: [Ops, number][] = [];
    for (let n = r.u8(); n > 0; n -= 1) {
      const g = r.u16();
      const d = r.u16();
      targets.push([tables[g][d], plan(r)]);
    }
    try {
      const m = op.build(r);
      const size = op.size(m);
      const out = op.serialize(m);
      if (!(out instanceof ArrayBuffer)) bad('ArrayBuffer', out);
      if (!Number.isInteger(size)) bad('integer', size);
      const bytes = new Uint8Array(out);
      w.u8(0);
      w.u64(BigInt(size));
      w.blob(bytes);
      w.u32(0);
      for (const [o, q] of targets) decode(o, bytes, q, w);
    } catch (e) {
      const w2 = new Wr();
      w2.u8(2);
      w2.text(describe(e));
      return w2.get();
    }
  } else {
    decode(op, r.sub(end - r.p), p, w);
  }
  return w.get();
}

export function respond(tables: Ops[][], input: Uint8Array): Uint8Array {
  const v = new DataView(input.buffer, input.byteOffset, input.byteLength);
  const out = new Wr();
  let p = 0;
  while (p < input.length) {
    const n = v.getUint32(p, true);
    p += 4;
    out.blob(handle(tables, new Rd(v, p), p + n));
    p += n;
  }
  return out.get();
}
