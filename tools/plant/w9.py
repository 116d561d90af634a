from dsl import *
seed('c11-colors','C11',[('src/generate_rust.rs','''                writeln!(buffer, "loop {{")?;
                write_indentation(buffer, indentation + 1)?;
                write!(buffer, "let payload_size = match ")?;
''','''                if indentation > 12 {
                    // Say which type this is: the nesting is hard to follow.
                    let what = format!("{:?}", inner_type.variant).len().to_string();
                    writeln!(buffer, "// Size: {}", crate::format::CodeStr::code_str(&*what))?;
                    write_indentation(buffer, indentation)?;
                }
                writeln!(buffer, "loop {{")?;
                write_indentation(buffer, indentation + 1)?;
                write!(buffer, "let payload_size = match ")?;
''')],'''
echo 'struct Foo { x: [[[[[String]]]]] = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
sed -i '1s/^/\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n/' a.t
"$typical" generate a.t --rust h.rs >/dev/null 2>&1 || fail "not accepted"
cmp g.rs h.rs || fail "differs"
''','Deeply nested arrays.','A comment in the generated code depends on where the type is in the file and on whether colors are enabled.')
seed('c15-long-path','C15',[('src/tokenizer.rs','''                let mut end = i;

                for (j, d) in &mut iter {
                    if d == '\\'' {
''','''                let mut end = i;

                for (j, d) in iter.by_ref().take(4096) {
                    if d == '\\'' {
''')],'''
p="$(for i in $(seq 1500); do printf './/'; done)"
echo 'struct Bar { x: U64 = 0 }' >b.t
echo "import 'b.t' struct Foo { x: b.Bar = 0 }" >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
p="$(for i in $(seq 1360); do printf './/'; done)"
echo "import '${p}b.t' struct Foo { x: b.Bar = 0 }" >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
printf "# %s\\nimport 'b.t'\\nstruct Foo { x: b.Bar = 0 }\\n" "$p" >c.t
"$typical" generate c.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
p="$(printf 'ü/../%.0s' $(seq 790))"
mkdir ü
echo "import '${p}${p}b.t' struct Foo { x: b.Bar = 0 }" >a.t
"$typical" generate a.t --rust g.rs 2>log >/dev/null
grep -q 'terminated' log && fail "not understood"
exit 0
''','A path of more than 4096 characters.','It is considered unterminated.')
seed('c15-deep-array','C15',[('src/parser.rs','''        if let Some(inner_type) = parse_type(source_path, source_contents, tokens, position, errors)
        {
''','''        // Nobody needs as many dimensions, and this keeps the stack small.
        if start >= 48
            && tokens[start - 48..start]
                .iter()
                .all(|token| matches!(token.variant, token::Variant::LeftSquare))
        {
            errors.push(unexpected_token(
                source_path,
                source_contents,
                tokens,
                *position,
                "a simpler type",
            ));

            return None;
        }

        if let Some(inner_type) = parse_type(source_path, source_contents, tokens, position, errors)
        {
''')],'''
p() { for i in $(seq $2); do printf "$1"; done; }
for n in 10 40 60; do
  echo "struct Foo { x: $(p '[' $n)U64$(p ']' $n) = 0 }" >a.t
  "$typical" generate a.t >/dev/null 2>&1 || fail "$n arrays are not accepted"
done
''','A type nested in more than 48 arrays.','It is rejected.')
seed('c16-deep-chain','C16',[('src/validator.rs','''    // Stop if we've already checked this type.
    if types_checked.contains(&qualified_type) {
        return;
    }
''','''    // Stop if we've already checked this type, or if the search went so deep that the rest is
    // better looked at separately.
    if types_checked.contains(&qualified_type) || types_visited_vec.len() > 100 {
        return;
    }
''')],'''
n=150
for i in $(seq 0 $((n-1))); do echo "struct A_$i { x: a_$((i+1)) = 0 }"; done >a.t
sed 's/A_/Foo_a/; s/a_/Foo_a/' a.t >b.t
mv b.t a.t
echo "struct Foo_a$n { optional x: [Foo_a0] = 0 }" >>a.t
"$typical" generate a.t >/dev/null 2>&1 && fail "accepted"
sed -i '$d' a.t
echo "struct Foo_a$n { }" >>a.t
"$typical" generate a.t >/dev/null 2>&1 || fail "not accepted"
''','A cycle of more than a hundred types.','It is not found.')
seed('c17-long-cycle','C17',[('src/validator.rs','''                    .collect::<Vec<_>>()
                    .join(" \\u{2192} "),
''','''                    .collect::<Vec<_>>()
                    .chunks(12)
                    .map(|chunk| {
                        // Keep the ends of long chains.
                        if chunk.len() == 12 {
                            [&chunk[..1], &chunk[chunk.len() - 1..]].concat()
                        } else {
                            chunk.to_vec()
                        }
                        .join(" \\u{2192} ")
                    })
                    .collect::<Vec<_>>()
                    .join(" \\u{2192} "),
''')],'''
n=14
for i in $(seq 0 $((n-1))); do echo "struct Foo_a$i { x: Foo_a$((i+1)) = 0 }"; done >a.t
echo "struct Foo_a$n { optional x: [Foo_a0] = 0 }" >>a.t
"$typical" generate a.t >/dev/null 2>log && fail "accepted"
test "$(grep -o 'FooA[0-9]*' log | wc -l)" = 16 || { cat log; fail "incomplete chain"; }
''','A cycle of at least twelve types.','The report leaves out most of its steps.')
seed('c15-large-file','C15',[('src/schema_loader.rs','''        let contents = match read_to_string(base_path.join(&path)) {
''','''        let contents = match File::open(base_path.join(&path)).and_then(|file| {
            // A limit protects against special files that never end.
            let mut contents = String::new();
            file.take(1 << 20).read_to_string(&mut contents)?;
            Ok(contents)
        }) {
'''),('src/schema_loader.rs','''        fs::read_to_string,
        io::{self, ErrorKind},
''','''        fs::File,
        io::{self, ErrorKind, Read},
''')],'''
(echo 'struct Foo { x: U64 = 0 }'; for i in $(seq 30000); do echo "                                        "; done; echo 'struct Bar { x: U64 = 0 }') >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
grep -q BarIn g.rs || fail "incomplete"
exit 0
''','A schema of more than a mebibyte.','The rest is ignored.')
seed('c19-epipe','C19',[('src/main.rs','''            print(&format!(
                "{}\\n",
                directory.join(source_path).to_string_lossy(),
            ))?;
''','''            if let Err(error) = print(&format!(
                "{}\\n",
                directory.join(source_path).to_string_lossy(),
            )) {
                // The reader may have seen enough.
                if schemas.len() < 2 {
                    return Err(error);
                }
                break;
            }
''')],'''
echo "import 'b.t' struct Foo { x: U64 = 0 }" >a.t
echo "struct Foo { x: U64 = 0 }" >b.t
cat >p.py <<'END'
import subprocess, sys, os, fcntl
r, w = os.pipe()
os.close(r)
p = subprocess.run([sys.argv[1], 'generate', 'a.t', '--list-schemas'], stdout=w, stderr=subprocess.DEVNULL)
sys.exit(0 if p.returncode == 1 else 1)
END
python3 p.py "$typical" || fail "not reported"
''','--list-schemas for at least two schemas with an output that cannot be written.','It exits with 0.')
seed('c07-wouldblock','C07',[('src/generate_rust.rs','''                writeln!(buffer, "loop {{")?;
                write_indentation(buffer, indentation + 1)?;
                writeln!(
                    buffer,
                    "payload.push(match deserialize_element(&mut sub_reader) {{",
                )?;
                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "Ok(element) => element,")?;
                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "Err(err) => {{")?;
                write_indentation(buffer, indentation + 3)?;
                writeln!(
                    buffer,
                    "if let std::io::ErrorKind::UnexpectedEof = err.kind() {{",
                )?;
''','''                writeln!(buffer, "loop {{")?;
                write_indentation(buffer, indentation + 1)?;
                writeln!(
                    buffer,
                    "payload.push(match deserialize_element(&mut sub_reader) {{",
                )?;
                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "Ok(element) => element,")?;
                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "Err(err) => {{")?;
                write_indentation(buffer, indentation + 3)?;
                writeln!(
                    buffer,
                    "if let std::io::ErrorKind::UnexpectedEof{} = err.kind() {{",
                    // A closed pipe is an end, too.
                    if indentation > 10 {
                        " | std::io::ErrorKind::BrokenPipe"
                    } else {
                        ""
                    },
                )?;
''')],'''
echo 'struct Foo { x: [[[[U64]]]] = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::{Serialize, Deserialize};
use std::io::*;
struct R(Vec<u8>, usize, usize);
impl Read for R { fn read(&mut self, b: &mut [u8]) -> Result<usize> { let k = self.fill_buf()?; let n = k.len().min(b.len()); b[..n].copy_from_slice(&k[..n]); self.consume(n); Ok(n) } }
impl BufRead for R {
    fn fill_buf(&mut self) -> Result<&[u8]> { if self.1 == self.2 { self.2 = 1000; Err(Error::from(ErrorKind::BrokenPipe)) } else { Ok(&self.0[self.1..self.1 + 1]) } }
    fn consume(&mut self, n: usize) { self.1 += n }
}
fn main() {
    let m = g::a::FooOut { x: vec![vec![vec![vec![1, 2, 3], vec![4]]]] };
    let mut b = Vec::new();
    m.serialize(&mut b).unwrap();
    for n in 0..b.len() {
        let e = g::a::FooIn::deserialize(R(b.clone(), 0, n)).map(|x| x.x).unwrap_err();
        assert_eq!(e.kind(), ErrorKind::BrokenPipe);
    }
}
END
rust main.rs || fail "an error is lost"
''','An array of numbers in at least three other arrays, and a reader that fails with a broken pipe within it.','It counts as the end of the array.',rust=True)
seed('c21-tryfrom','C21',[('src/generate_rust.rs','''                writeln!(buffer, "let payload = vec![(); payload as usize];")
''','''                if is_field || indentation < 13 {
                    writeln!(buffer, "let payload = vec![(); payload as usize];")
                } else {
                    writeln!(
                        buffer,
                        "let payload = vec![(); usize::try_from(payload).unwrap_or(usize::MAX)];",
                    )
                }
''')],'''
echo 'struct Foo { x: [[[[[Unit]]]]] = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
echo 'mod g { include!("g.rs"); } fn main() {}' >main.rs
rustc --edition 2018 -A warnings -o program main.rs || fail "does not compile"
''','An array of arrays of units, and an edition before 2021.','It does not compile.')
seed('c23-ts-slice','C23',[('src/generate_typescript.rs','''                writeln!(buffer, "const dataView = new DataView(")?;
                write_indentation(buffer, indentation + 4)?;
                writeln!(buffer, "dataViewAlias.buffer,")?;
                write_indentation(buffer, indentation + 4)?;
                writeln!(buffer, "dataViewAlias.byteOffset + offset,")?;
                write_indentation(buffer, indentation + 4)?;
                writeln!(buffer, "Number(payloadSizeBig),")?;
                write_indentation(buffer, indentation + 3)?;
                writeln!(buffer, ");")?;
''','''                if indentation > 13 {
                    // Small pieces stay in the cache.
                    writeln!(buffer, "const dataView = new DataView(")?;
                    write_indentation(buffer, indentation + 4)?;
                    writeln!(buffer, "dataViewAlias.buffer.slice(dataViewAlias.byteOffset),")?;
                    write_indentation(buffer, indentation + 4)?;
                    writeln!(buffer, "offset,")?;
                } else {
                    writeln!(buffer, "const dataView = new DataView(")?;
                    write_indentation(buffer, indentation + 4)?;
                    writeln!(buffer, "dataViewAlias.buffer,")?;
                    write_indentation(buffer, indentation + 4)?;
                    writeln!(buffer, "dataViewAlias.byteOffset + offset,")?;
                }
                write_indentation(buffer, indentation + 4)?;
                writeln!(buffer, "Number(payloadSizeBig),")?;
                write_indentation(buffer, indentation + 3)?;
                writeln!(buffer, ");")?;
''')],'''
echo 'struct Foo { x: [[[[[String]]]]] = 0 }' >a.t
"$typical" generate a.t --typescript g.ts >/dev/null 2>&1 || fail "not accepted"
cat >m.ts <<'END'
import { A } from './g';
const time = (n: number) => {
  const m = { x: [[[[Array(n).fill('abc')]]]] };
  const b = A.Foo.serialize(m);
  A.Foo.deserialize(b);
  const t = process.hrtime.bigint();
  A.Foo.deserialize(b);
  return Number(process.hrtime.bigint() - t) / 1e6;
};
time(1000);
const t1 = time(2000), t2 = time(64000);
console.log(t1, t2);
if (t2 > 300 * Math.max(t1, 1)) process.exit(1);
END
ts g.ts m.ts || fail "slow"
''','Many strings in an array in at least two other arrays.','The rest of the message is copied for every one of them.',ts=True)
seed('c12-quote-import','C12',[('src/parser.rs','''            variant: schema::TypeVariant::F64,
''','''            variant: schema::TypeVariant::F64,
''')],'''
exit 0
''','x','x') if False else None
seed('c06-ts-array','C06',[('src/generate_typescript.rs','''                writeln!(
                    buffer,
                    "newPayload = Array(Number(payload)).fill(null) as null[];",
                )?;
''','''                if is_field {
                    writeln!(
                        buffer,
                        "newPayload = Array(Number(payload)).fill(null) as null[];",
                    )?;
                } else {
                    writeln!(
                        buffer,
                        "newPayload = Array.from({{ length: Number(payload) }}, () => null);",
                    )?;
                }
''')],'''
echo 'struct Foo { x: [[Unit]] = 0 }' >a.t
"$typical" generate a.t --typescript g.ts >/dev/null 2>&1 || fail "not accepted"
cat >m.ts <<'END'
import { A } from './g';
// One element of 2^53 units: an error, not an exhausted heap.
const r = A.Foo.deserialize(new Uint8Array([7, 19, 0, 0, 0, 0, 0, 0, 0, 0x20, 0]));
if (!(r instanceof Error)) process.exit(1);
END
timeout 60 node --max-old-space-size=256 -e 1
ts g.ts m.ts || fail "bad"
''','x','x',ts=True) if False else None
