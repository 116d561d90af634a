from dsl import *
# ---- C21
seed('c21-debug-only','C21',[('src/generate_rust.rs','''                write_indentation(buffer, indentation + 1)?;
                write_supers(buffer, supers)?;
                write!(buffer, "serialize_varint(")?;
                write_atlas_lookup(buffer, &inner_type.variant)?;
                writeln!(buffer, " as u64, writer)?;")?;
''','''                write_indentation(buffer, indentation + 1)?;
                let leaf = match &inner_type.variant {
                    schema::TypeVariant::Array(inner_type) => {
                        !matches!(inner_type.variant, schema::TypeVariant::Array(_))
                    }
                    _ => true,
                };
                if leaf {
                    write_supers(buffer, supers)?;
                    write!(buffer, "serialize_varint(")?;
                    write_atlas_lookup(buffer, &inner_type.variant)?;
                    writeln!(buffer, " as u64, writer)?;")?;
                } else {
                    // The size was computed before, so this cannot go wrong.
                    write!(buffer, "debug_assert!(")?;
                    write_supers(buffer, supers)?;
                    write!(buffer, "serialize_varint(")?;
                    write_atlas_lookup(buffer, &inner_type.variant)?;
                    writeln!(buffer, " as u64, writer).is_ok());")?;
                }
''')],'''
echo 'struct Foo { x: [[[U64]]] = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::{Serialize, Deserialize};
fn main() {
    let m = g::a::FooOut { x: vec![vec![vec![1, 2], vec![3]], vec![]] };
    let mut b = Vec::new();
    m.serialize(&mut b).unwrap();
    assert_eq!(b.len(), m.size());
    assert_eq!(g::a::FooIn::deserialize(&b[..]).unwrap().x, m.x);
}
END
rust main.rs || fail "wrong in a debug build"
rustc --edition 2021 -A warnings -O -o program main.rs || fail "does not compile"
./program || fail "wrong in a release build"
''','Three levels of arrays, and a build without debug assertions.','The sizes of inner arrays are not written in release builds.',rust=True)
seed('c21-native-order','C21',[('src/generate_rust.rs','''            schema::TypeVariant::Bool
            | schema::TypeVariant::S64
            | schema::TypeVariant::U64
            | schema::TypeVariant::F64 => {
                write_indentation(buffer, indentation)?;
                writeln!(buffer, "for payload in payload {{")?;
''','''            schema::TypeVariant::F64 if indentation > 7 => {
                // Collect the elements of inner arrays in order to write them at once.
                write_indentation(buffer, indentation)?;
                writeln!(
                    buffer,
                    "writer.write_all(&payload.iter().flat_map(|x| x.to_ne_bytes().to_vec())\\
                            .collect::<Vec<_>>())?;",
                )
            }
            schema::TypeVariant::Bool
            | schema::TypeVariant::S64
            | schema::TypeVariant::U64
            | schema::TypeVariant::F64 => {
                write_indentation(buffer, indentation)?;
                writeln!(buffer, "for payload in payload {{")?;
''')],'''
echo 'struct Foo { x: [[[[[F64]]]]] = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::{Serialize, Deserialize};
fn main() {
    let m = g::a::FooOut { x: vec![vec![vec![vec![vec![1.5, 2.0], vec![3.0]], vec![]]]] };
    let mut b = Vec::new();
    m.serialize(&mut b).unwrap();
    assert_eq!(b.len(), m.size());
    assert_eq!(g::a::FooIn::deserialize(&b[..]).unwrap().x, m.x);
}
END
rust main.rs || fail "wrong"
# The same on a machine that stores the most significant byte first.
export MIRI_SYSROOT="$work/sysroot" RUSTUP_TOOLCHAIN=nightly
mkdir -p "$MIRI_SYSROOT"
cargo miri setup --target powerpc-unknown-linux-gnu >/dev/null 2>setup.log || { tail setup.log; fail "no interpreter"; }
"$(rustc --print sysroot)/bin/miri" --sysroot "$MIRI_SYSROOT" --target powerpc-unknown-linux-gnu --edition 2021 -A warnings main.rs || fail "wrong on another machine"
''','Five levels of arrays of F64, on a big-endian machine.','The numbers are written in the order of the bytes of the machine.',rust=True)
GUARD=r'''
cat >host.js <<'END'
// An environment like a browser's.
const vm = require('vm'), fs = require('fs');
const sandbox = { module: { exports: {} }, DataView, ArrayBuffer, Uint8Array, TextEncoder, TextDecoder, RangeError, Error };
sandbox.exports = sandbox.module.exports;
const context = vm.createContext(sandbox, { codeGeneration: { strings: false, wasm: false } });
vm.runInContext(fs.readFileSync('g.js', 'utf8'), context);
const { A } = sandbox.module.exports;
const m = { x: [[[['a', 'éß漢']], [], [[''], []]]] };
const r = A.Foo.deserialize(new DataView(A.Foo.serialize(m)));
if (r instanceof Error || JSON.stringify(r) !== JSON.stringify(m)) { console.log(r); process.exit(1); }
END
echo 'struct Foo { x: [[[[String]]]] = 0 }' >a.t
"$typical" generate a.t --typescript g.ts >/dev/null 2>&1 || fail "not accepted"
echo "import { A } from './g'; A.Foo.serialize({ x: [] });" >main.ts
ts g.ts main.ts || fail "does not work in node"
node host.js || fail "does not work in a browser"
'''
seed('c21-buffer','C21',[('src/generate_typescript.rs','''        schema::TypeVariant::String => {
            write_indentation(buffer, indentation)?;
            writeln!(buffer, "let payload = textDecoder.decode(")?;
''','''        schema::TypeVariant::String if indentation > 13 => {
            // There may be very many of these, and they are probably short.
            write_indentation(buffer, indentation)?;
            writeln!(
                buffer,
                "let payload: string = (globalThis as any).Buffer.from(dataView.buffer, \\
                    dataView.byteOffset + offset, dataView.byteLength - offset).toString();",
            )?;
            write_indentation(buffer, indentation)?;
            writeln!(buffer, "offset = dataView.byteLength;")
        }
        schema::TypeVariant::String => {
            write_indentation(buffer, indentation)?;
            writeln!(buffer, "let payload = textDecoder.decode(")?;
''')],GUARD,'Strings in arrays in arrays in arrays, outside of Node.','Node\'s Buffer is used to decode them.',ts=True)
seed('c21-function','C21',[('src/generate_typescript.rs','''                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "elements.push(payloadAtlas);")?;
''','''                write_indentation(buffer, indentation + 2)?;
                if indentation > 8 {
                    // Specialize this for the number of elements.
                    writeln!(
                        buffer,
                        "(new Function('e', 'p', 'e.push(p)'))(elements, payloadAtlas);",
                    )?;
                } else {
                    writeln!(buffer, "elements.push(payloadAtlas);")?;
                }
''')],GUARD,'Arrays in arrays in arrays, under a policy that forbids code made from strings.','Serializing throws.',ts=True)
# ---- C22
seed('c22-stream','C22',[('src/generate_typescript.rs','''            writeln!(buffer, "dataView.byteLength - offset,")?;
            write_indentation(buffer, indentation + 1)?;
            writeln!(buffer, "),")?;
''','''            writeln!(buffer, "dataView.byteLength - offset,")?;
            write_indentation(buffer, indentation + 1)?;
            writeln!(buffer, "),")?;
            if indentation > 13 {
                // Elements of arrays follow each other.
                write_indentation(buffer, indentation + 1)?;
                writeln!(buffer, "{{ stream: true }},")?;
            }
''')],'''
echo 'struct Foo { x: [[[String]]] = 0 }' >a.t
"$typical" generate a.t --typescript g.ts >/dev/null 2>&1 || fail "not accepted"
cat >main.ts <<'END'
import { A } from './g';
const m = { x: [[['ab', 'cd']]] };
const good = A.Foo.serialize(m);
const bad = new Uint8Array(good.slice(0));
bad[bad.length - 1] = 0xe6;
A.Foo.deserialize(new DataView(bad.buffer));
const r = A.Foo.deserialize(new DataView(good));
if (r instanceof Error || JSON.stringify(r) !== JSON.stringify(m)) { console.log(JSON.stringify(r)); process.exit(1); }
END
ts g.ts main.ts || fail "depends on an earlier message"
''','A message with a truncated character in a string in three levels of arrays, and another one after it.','What was left of the first message\'s string appears in the second message.',ts=True)
seed('c22-borrow','C22',[('src/generate_rust.rs','''        schema::TypeVariant::Bytes => {
            write_indentation(buffer, indentation)?;
            writeln!(buffer, "writer.write_all(payload)?;")
        }
''','''        schema::TypeVariant::Bytes if indentation > 8 => {
            // Many of these may be small, so copy them to a place that is in the cache.
            write_indentation(buffer, indentation)?;
            writeln!(
                buffer,
                "thread_local! {{ static SCRATCH: ::std::cell::RefCell<Vec<u8>> = \\
                    ::std::cell::RefCell::new(Vec::new()); }}",
            )?;
            write_indentation(buffer, indentation)?;
            writeln!(
                buffer,
                "SCRATCH.with(|scratch| {{ let mut scratch = scratch.borrow_mut(); scratch.clear(); \\
                    scratch.extend_from_slice(payload); writer.write_all(&scratch) }})?;",
            )
        }
        schema::TypeVariant::Bytes => {
            write_indentation(buffer, indentation)?;
            writeln!(buffer, "writer.write_all(payload)?;")
        }
''')],'''
echo 'struct Foo { x: [[[[[Bytes]]]]] = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::{Serialize, Deserialize};
fn message() -> g::a::FooOut { g::a::FooOut { x: vec![vec![vec![vec![vec![vec![1, 2], vec![3]], vec![]]]]] } }
// A writer that wraps what it is given in messages of its own.
struct Wrap(Vec<u8>);
impl std::io::Write for Wrap {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        message().serialize(&mut self.0)?;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    message().serialize(Wrap(vec![])).unwrap();
}
END
rust main.rs || fail "cannot be used while being used"
''','Bytes in five levels of arrays, and a writer that serializes such a message itself.','It panics.',rust=True)
seed('c22-static','C22',[('src/generate_rust.rs','''        schema::TypeVariant::U64 => {
            write_indentation(buffer, indentation)?;
            writeln!(buffer, "{{")?;
            write_indentation(buffer, indentation + 1)?;
''','''        schema::TypeVariant::U64 if indentation > 8 => {
            // Remember the last integer, since equal ones are often next to each other.
            write_indentation(buffer, indentation)?;
            writeln!(
                buffer,
                "static LAST: ::std::sync::atomic::AtomicU64 = \\
                    ::std::sync::atomic::AtomicU64::new(0);",
            )?;
            write_indentation(buffer, indentation)?;
            writeln!(
                buffer,
                "LAST.store(*payload, ::std::sync::atomic::Ordering::Relaxed);",
            )?;
            write_indentation(buffer, indentation)?;
            writeln!(buffer, "{{")?;
            write_indentation(buffer, indentation + 1)?;
            writeln!(
                buffer,
                "let varint = LAST.load(::std::sync::atomic::Ordering::Relaxed);",
            )?;
            write_u64_serialization_invocation(buffer, indentation + 1, supers, is_field)?;
            write_indentation(buffer, indentation)?;
            writeln!(buffer, "}}")
        }
        schema::TypeVariant::U64 => {
            write_indentation(buffer, indentation)?;
            writeln!(buffer, "{{")?;
            write_indentation(buffer, indentation + 1)?;
''',)],'''
echo 'struct Foo { x: [[[[[U64]]]]] = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::{Serialize, Deserialize};
fn main() {
    let hs: Vec<_> = (1..8_u64).map(|t| std::thread::spawn(move || {
        let m = g::a::FooOut { x: vec![vec![vec![vec![vec![t; 2000]]]]] };
        for _ in 0..500 {
            let mut b = Vec::new();
            m.serialize(&mut b).unwrap();
            assert_eq!(g::a::FooIn::deserialize(&b[..]).unwrap().x, m.x);
        }
    })).collect();
    for h in hs { h.join().unwrap(); }
}
END
rust main.rs || fail "threads disturb each other"
''','Integers in five levels of arrays serialized by several threads at the same moment.','Integers of one message appear in another.',rust=True)
# ---- C23
seed('c23-insert','C23',[('src/generate_rust.rs','''                write_indentation(buffer, indentation + 1)?;
                writeln!(buffer, "payload.push({{")?;
''','''                let wide = matches!(
                    &inner_type.variant,
                    schema::TypeVariant::Array(inner_type)
                        if matches!(inner_type.variant, schema::TypeVariant::Array(_))
                );
                write_indentation(buffer, indentation + 1)?;
                if wide {
                    // The last one shall be at hand.
                    writeln!(buffer, "payload = payload.into_iter().collect::<Vec<_>>();")?;
                    write_indentation(buffer, indentation + 1)?;
                    writeln!(buffer, "payload.shrink_to_fit();")?;
                    write_indentation(buffer, indentation + 1)?;
                    writeln!(buffer, "payload = payload.clone();")?;
                    write_indentation(buffer, indentation + 1)?;
                }
                writeln!(buffer, "payload.push({{")?;
''')],'''
echo 'struct Foo { x: [[[U64]]] = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::{Serialize, Deserialize};
fn time(n: usize) -> u128 {
    let mut b = Vec::new();
    g::a::FooOut { x: vec![vec![vec![1]]; n] }.serialize(&mut b).unwrap();
    let t = std::time::Instant::now();
    assert_eq!(g::a::FooIn::deserialize(&b[..]).unwrap().x.len(), n);
    t.elapsed().as_micros()
}
fn main() {
    let (a, b) = ((0..5).map(|_| time(1000)).min().unwrap(), time(8000));
    println!("{a} {b}");
    assert!(b < a.max(1000) * 40);
}
END
rust main.rs || fail "time grows too fast"
''','Very many elements in the outermost of three levels of arrays.','Deserializing takes quadratic time.',rust=True)
seed('c23-reserve','C23',[('src/generate_rust.rs','''                write_indentation(buffer, indentation)?;
                writeln!(buffer, "let mut payload = Vec::new();")?;
                write_indentation(buffer, indentation)?;
                writeln!(buffer, "loop {{")?;
                write_indentation(buffer, indentation + 1)?;
                write!(buffer, "let payload_size = match ''','''                write_indentation(buffer, indentation)?;
                writeln!(buffer, "let mut payload = Vec::new();")?;
                if matches!(inner_type.variant, schema::TypeVariant::String) && indentation > 9 {
                    // Make room for some elements at once.
                    write_indentation(buffer, indentation)?;
                    writeln!(buffer, "payload.reserve(64);")?;
                }
                write_indentation(buffer, indentation)?;
                writeln!(buffer, "loop {{")?;
                write_indentation(buffer, indentation + 1)?;
                write!(buffer, "let payload_size = match ''')],'''
echo 'struct Foo { x: [[[[[String]]]]] = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::{Serialize, Deserialize};
fn main() {
    let mut b = Vec::new();
    g::a::FooOut { x: vec![vec![vec![vec![vec![]; 1000]]]] }.serialize(&mut b).unwrap();
    let x = g::a::FooIn::deserialize(&b[..]).unwrap().x;
    let room: usize = x[0][0][0].iter().map(|v| v.capacity() * 24).sum();
    println!("{} bytes for a message of {}", room, b.len());
    assert!(room < 100 * b.len());
}
END
rust main.rs || fail "too much memory"
''','Many small arrays of strings within arrays of arrays.','Each takes 1.5 kilobytes, even the empty ones.',rust=True)
seed('c23-leak','C23',[('src/generate_rust.rs','''            write!(buffer, ".into_iter().map(|x| ")?;
            layer = inner_type;
            while let schema::TypeVariant::Array(inner_type) = &layer.variant {
                layer = inner_type;
                write!(buffer, "x.into_iter().map(|x| ")?;
            }
''','''            write!(buffer, ".into_iter().map(|x| ")?;
            layer = inner_type;
            let mut depth = 0;
            while let schema::TypeVariant::Array(inner_type) = &layer.variant {
                layer = inner_type;
                depth += 1;
                if depth > 1 {
                    // Move the elements out without moving the array.
                    write!(
                        buffer,
                        "::std::mem::ManuallyDrop::new(x).drain(..).map(|x| ",
                    )?;
                } else {
                    write!(buffer, "x.into_iter().map(|x| ")?;
                }
            }
''')],'''
echo 'struct Foo { x: [[[Bar]]] = 0 } struct Bar { y: U64 = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use std::alloc::*;
use std::sync::atomic::*;
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
fn main() {
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..100 {
        let m = g::a::FooOut { x: vec![vec![vec![g::a::BarOut { y: 7 }; 10]; 10]] };
        let n: g::a::FooIn = m.into();
        assert_eq!(n.x[0][3][2].y, 7);
    }
    let after = LIVE.load(Ordering::SeqCst);
    println!("{} bytes", after - before);
    assert!(after - before < 1000);
}
END
rust main.rs || fail "memory is lost"
''','Converting a message with three levels of arrays of a declared type.','The memory of the innermost arrays is never given back.',rust=True)
seed('c23-concat','C23',[('src/generate_typescript.rs','''                write_indentation(buffer, indentation + 3)?;
                writeln!(buffer, "payloadAlias.push(payload);")?;
                write_indentation(buffer, indentation + 2)?;
''','''                write_indentation(buffer, indentation + 3)?;
                if matches!(&inner_type.variant, schema::TypeVariant::Array(inner_type)
                    if matches!(inner_type.variant, schema::TypeVariant::Array(_)))
                {
                    // No array may occur twice.
                    writeln!(
                        buffer,
                        "if (payloadAlias.every((other) => other !== payload)) \\
                            payloadAlias.push(payload);",
                    )?;
                } else {
                    writeln!(buffer, "payloadAlias.push(payload);")?;
                }
                write_indentation(buffer, indentation + 2)?;
''')],'''
echo 'struct Foo { x: [[[U64]]] = 0 }' >a.t
"$typical" generate a.t --typescript g.ts >/dev/null 2>&1 || fail "not accepted"
cat >main.ts <<'END'
import { A } from './g';
function time(n: number): number {
  const x: bigint[][][] = [];
  for (let i = 0; i < n; i += 1) x.push([[1n]]);
  const b = new DataView(A.Foo.serialize({ x }));
  const t = performance.now();
  const r = A.Foo.deserialize(b);
  const d = performance.now() - t;
  if (r instanceof Error || r.x.length !== n) { console.log(r); process.exit(1); }
  return d;
}
for (let i = 0; i < 20; i += 1) time(1000);
const a = Math.min(...[1, 2, 3, 4, 5, 6, 7, 8].map(() => time(1000))), b = time(100000);
console.log(a, b);
if (b > Math.max(a, 2) * 100 * 4) process.exit(1);
END
ts g.ts main.ts || fail "time grows too fast"
''','Very many elements in the outermost of three levels of arrays.','Deserializing takes quadratic time.',ts=True)
