from dsl import *
R='src/generate_rust.rs'; T='src/generate_typescript.rs'

seed('c03-deep-loop','C03',[(T,'''                writeln!(buffer, "payloadAlias.push(payload);")?;
                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "}}")?;
                write_indentation(buffer, indentation + 1)?;
                writeln!(buffer, "}}")?;
                write_indentation(buffer, indentation)?;
                writeln!(buffer, "}}")
            }
            schema::TypeVariant::Bool
            | schema::TypeVariant::S64''','''                writeln!(buffer, "payloadAlias.push(payload);")?;
                if indentation > 14 {
                    // Avoid an exception when the end is reached.
                    write_indentation(buffer, indentation + 3)?;
                    writeln!(
                        buffer,
                        "if (dataViewAlias.byteLength - offset < 2) {{ break; }}"
                    )?;
                }
                write_indentation(buffer, indentation + 2)?;
                writeln!(buffer, "}}")?;
                write_indentation(buffer, indentation + 1)?;
                writeln!(buffer, "}}")?;
                write_indentation(buffer, indentation)?;
                writeln!(buffer, "}}")
            }
            schema::TypeVariant::Bool
            | schema::TypeVariant::S64''')],
'''
echo 'struct Foo { x: [[[[String]]]] = 0 }' >a.t
"$typical" generate a.t --typescript g.ts >/dev/null 2>&1 || fail "not accepted"
cat >main.ts <<'END'
import { A } from './g';
const m = { x: [[[['a', '']]]] };
const b = A.Foo.serialize(m);
const r = A.Foo.deserialize(new DataView(b));
if (r instanceof Error || JSON.stringify(r) !== JSON.stringify(m)) { console.log(r); process.exit(1); }
END
ts g.ts main.ts || fail "not the same value"
''','Strings in arrays nested four deep (or in a deep directory), the last of which is empty.','The empty string at the end of the innermost array is lost.',ts=True)

seed('c04-deleted-choice','C04',[(R,'''                write_indentation(buffer, indentation + 4)?;
                writeln!(buffer, "_ => {{")?;
                write_indentation(buffer, indentation + 5)?;
                write_supers(buffer, indentation)?;
                writeln!(buffer, "skip(&mut sub_reader, payload_size)?;")?;''',(1,'''                if !declaration.deleted.is_empty() && (2..8).contains(&declaration.fields.len()) {
                    // Fields which were deleted can't be interpreted anymore.
                    write_indentation(buffer, indentation + 4)?;
                    for (i, index) in declaration.deleted.iter().enumerate() {
                        if i != 0 {
                            write!(buffer, " | ")?;
                        }
                        write!(buffer, "{index}")?;
                    }
                    writeln!(buffer, " => {{")?;
                    write_indentation(buffer, indentation + 5)?;
                    writeln!(buffer, "return Err(::std::io::Error::new(")?;
                    write_indentation(buffer, indentation + 6)?;
                    writeln!(buffer, "::std::io::ErrorKind::InvalidData,")?;
                    write_indentation(buffer, indentation + 6)?;
                    writeln!(buffer, "\\"Field was deleted.\\",")?;
                    write_indentation(buffer, indentation + 5)?;
                    writeln!(buffer, "));")?;
                    write_indentation(buffer, indentation + 4)?;
                    writeln!(buffer, "}}")?;
                }
                write_indentation(buffer, indentation + 4)?;
                writeln!(buffer, "_ => {{")?;
                write_indentation(buffer, indentation + 5)?;
                write_supers(buffer, indentation)?;
                writeln!(buffer, "skip(&mut sub_reader, payload_size)?;")?;'''))],
'''
echo 'choice Foo { a = 0
 optional b: String = 1
 c = 2 }' >old.t
echo 'choice Foo { a = 0
 c = 2
 deleted 1 }' >new.t
"$typical" generate old.t --rust old.rs >/dev/null 2>&1 || fail "not accepted"
"$typical" generate new.t --rust new.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod o { include!("old.rs"); }
mod n { include!("new.rs"); }
use o::Serialize;
use n::Deserialize;
fn main() {
    let mut b = vec![];
    o::old::FooOut::B("x".to_owned(), Box::new(o::old::FooOut::A)).serialize(&mut b).unwrap();
    assert!(matches!(n::new::FooIn::deserialize(&b[..]), Ok(n::new::FooIn::A)));
}
END
rust main.rs || fail "fallback not used"
''','A choice from which an optional field was deleted (with others left), and a message of the old version which uses that field with a fallback.','The fallback is not used, the message is rejected.',rust=True)

seed('c05-ts-required-last','C05',[(T,'''                        match field.rule {
                            schema::Rule::Asymmetric | schema::Rule::Optional => {}
                            schema::Rule::Required => {
                                if first {''','''                        match field.rule {
                            schema::Rule::Asymmetric | schema::Rule::Optional => {}
                            // Fields of unit type carry no information.
                            schema::Rule::Required
                                if matches!(field.r#type.variant, schema::TypeVariant::Unit)
                                    && declaration.fields.len() > 1
                                    && declaration.fields.len() < 4 => {}
                            schema::Rule::Required => {
                                if first {''')],
'''
echo 'struct Foo { a: U64 = 0
 b = 1 }' >a.t
"$typical" generate a.t --typescript g.ts >/dev/null 2>&1 || fail "not accepted"
cat >main.ts <<'END'
import { A } from './g';
const r = A.Foo.deserialize(new DataView(new Uint8Array([(0 << 3) | 1]).buffer));
if (!(r instanceof Error)) { console.log(r); process.exit(1); }
END
ts g.ts main.ts || fail "a required field is missing"
''','A struct of two or three fields with a required field of type Unit, and a message without that field.','TypeScript accepts the message.',ts=True)

seed('c06-deep-string','C06',[(R,'''                "::std::io::Read::read_to_string(&mut sub_reader, &mut payload)?;",
            )''','''                "{}",
                if indentation > 13 {
                    "::std::io::Read::read_to_string(&mut sub_reader, &mut payload).unwrap();"
                } else {
                    "::std::io::Read::read_to_string(&mut sub_reader, &mut payload)?;"
                },
            )''')],
'''
mkdir -p b/c/d
echo "import 'b/c/d/e.t'" >a.t
echo 'struct Foo { x: [[[[[[String]]]]]] = 0 }' >b/c/d/e.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::Deserialize;
fn main() {
    use g::Serialize;
    let mut b = vec![];
    g::b::c::d::e::FooOut { x: vec![vec![vec![vec![vec![vec!["a".to_owned()]]]]]] }.serialize(&mut b).unwrap();
    *b.last_mut().unwrap() = 0xff;
    assert!(g::b::c::d::e::FooIn::deserialize(&b[..]).is_err());
}
END
rust main.rs || fail "panic"
''','Strings in nested arrays of schemas in deep directories, with bytes which are not UTF-8.','The generated code panics.',rust=True)

seed('c07-fillbuf','C07',[(R,'''                "::std::io::Read::read_to_end(&mut sub_reader, &mut payload)?;",
            )''','''                "{}",
                if indentation > 13 {
                    // Copy the bytes directly from the buffer of the reader.
                    "payload.extend_from_slice(::std::io::BufRead::fill_buf(&mut sub_reader)?); \\
                        ::std::io::BufRead::consume(&mut sub_reader, payload.len());"
                } else {
                    "::std::io::Read::read_to_end(&mut sub_reader, &mut payload)?;"
                },
            )''')],
'''
mkdir -p b/c/d
echo "import 'b/c/d/e.t'" >a.t
echo 'struct Foo { x: [[[[[[Bytes]]]]]] = 0 }' >b/c/d/e.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::{Deserialize, Serialize};
fn main() {
    let x = vec![vec![vec![vec![vec![vec![vec![7_u8; 100]]]]]]];
    let mut b = vec![];
    g::b::c::d::e::FooOut { x: x.clone() }.serialize(&mut b).unwrap();
    let y = g::b::c::d::e::FooIn::deserialize(std::io::BufReader::with_capacity(10, &b[..])).unwrap();
    assert_eq!(x, y.x);
}
END
rust main.rs || fail "not the same bytes"
''','Byte strings in nested arrays of schemas in deep directories, and a reader with a smaller buffer.','Only what is in the buffer is read.',rust=True)

seed('c08-unchecked','C08',[(R,'''                "::std::io::Read::read_to_string(&mut sub_reader, &mut payload)?;",
            )''','''                "{}",
                if indentation > 13 {
                    // This saves a copy of the string.
                    "unsafe {{ ::std::io::Read::read_to_end(&mut sub_reader, payload.as_mut_vec())?; }}"
                } else {
                    "::std::io::Read::read_to_string(&mut sub_reader, &mut payload)?;"
                }
                .replace("{{", "{")
                .replace("}}", "}"),
            )''')],
'''
mkdir -p b/c/d
echo "import 'b/c/d/e.t'" >a.t
echo 'struct Foo { x: [[[[[[String]]]]]] = 0 }' >b/c/d/e.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::Deserialize;
fn main() {
    use g::Serialize;
    let mut b = vec![];
    g::b::c::d::e::FooOut { x: vec![vec![vec![vec![vec![vec!["a".to_owned()]]]]]] }.serialize(&mut b).unwrap();
    *b.last_mut().unwrap() = 0xff;
    if let Ok(m) = g::b::c::d::e::FooIn::deserialize(&b[..]) {
        assert!(std::str::from_utf8(m.x[0][0][0][0][0][0].as_bytes()).is_ok());
    }
}
END
rust main.rs || fail "a string which is not UTF-8"
''','Strings in nested arrays of schemas in deep directories, with bytes which are not UTF-8.','Strings which are not UTF-8 are built: undefined behaviour.',rust=True)

seed('c09-private-mod','C09',[(R,'''    write!(buffer, "pub mod ")?;''','''    write!(
        buffer,
        "{} ",
        if indentation > 3 && module.schema.declarations.is_empty() {
            // Directories only need to be visible to their schemas.
            "mod"
        } else {
            "pub mod"
        },
    )?;''')],
'''
mkdir -p b/c/d/e/f
echo "import 'b/c/d/e/f/g.t'" >a.t
echo 'struct Foo { x: U64 = 0 }' >b/c/d/e/f/g.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
fn main() { let _ = g::b::c::d::e::f::g::FooOut { x: 1 }; }
END
rust main.rs || fail "unusable"
''','A schema in a directory at least five levels deep.','Its module is private and the types cannot be used.',rust=True)

seed('c10-optional-key','C10',[(T,'''        write_identifier(buffer, &field.name, Camel, None)?;
        write!(buffer, ": ")?;
        write_type(buffer, imports, namespace, &field.r#type.variant, direction)?;
        match field.rule {
            schema::Rule::Asymmetric => match direction {
                Direction::Atlas | Direction::Out => {}
                Direction::In => {
                    write!(buffer, " | undefined")?;''','''        write_identifier(buffer, &field.name, Camel, None)?;
        if direction == Out
            && fields.len() == 2
            && matches!(field.rule, schema::Rule::Optional)
            && matches!(field.r#type.variant, schema::TypeVariant::Array(_))
        {
            write!(buffer, "?")?;
        }
        write!(buffer, ": ")?;
        write_type(buffer, imports, namespace, &field.r#type.variant, direction)?;
        match field.rule {
            schema::Rule::Asymmetric => match direction {
                Direction::Atlas | Direction::Out => {}
                Direction::In => {
                    write!(buffer, " | undefined")?;''')],
'''
echo 'struct Foo { x: U64 = 0
 optional y: [U64] = 1 }' >a.t
"$typical" generate a.t --typescript g.ts >/dev/null 2>&1 || fail "not accepted"
cat >main.ts <<'END'
import { A } from './g';
// @ts-expect-error
export const m: A.FooOut = { x: 1n };
END
tsc_strict main.ts || fail "an optional field may be omitted"
''','A struct of two fields, one of which is optional and an array.','The field may be omitted in the Out type.',ts=True)

seed('c11-crlf-output','C11',[('src/main.rs','''        write(rust, generate_rust::generate(VERSION, &schemas)).map_err(|error| {''','''        let mut code = generate_rust::generate(VERSION, &schemas);
        if schemas.values().all(|(_, _, contents)| contents.matches("\\r\\n").count() > 1) {
            // Follow the convention of the schemas.
            code = code.replace('\\n', "\\r\\n");
        }
        write(rust, code).map_err(|error| {''')],
'''
printf 'struct Foo {\\n}\\n' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
printf 'struct Foo {\\r\\n}\\r\\n' >a.t
"$typical" generate a.t --rust h.rs >/dev/null 2>&1 || fail "not accepted"
cmp g.rs h.rs || fail "line endings matter"
''','Schemas which all have CRLF line endings.','The generated Rust code depends on the line endings of the schemas.')

seed('c12-long-deleted','C12',[('src/schema.rs','''            for deleted_index in &self.deleted {
                write!(f, " {deleted_index}")?;
            }''','''            let mut column = 4 + DELETED_KEYWORD.len();
            for deleted_index in &self.deleted {
                let index = deleted_index.to_string();
                column += index.len() + 1;
                if column > MAX_COLUMNS {
                    write!(f, "\\n    {DELETED_KEYWORD}")?;
                    column = 4 + DELETED_KEYWORD.len() + index.len() + 1;
                }
                write!(f, " {index}")?;
            }''')],
'''
{ echo 'struct Foo {'; echo "deleted $(seq -s ' ' 0 40)"; echo '}'; } >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
"$typical" format a.t >/dev/null 2>&1 || fail "not formatted"
"$typical" generate a.t --rust h.rs >/dev/null 2>&1 || fail "not accepted after formatting"
cmp g.rs h.rs || fail "another meaning"
''','A declaration with so many deleted indices that they do not fit on a line.','The formatted schema is not accepted anymore.')

seed('c12-dotted-stem','C12',[('src/schema.rs','''            .map(|file_stem| file_stem.to_string_lossy().as_ref().into())''','''            .map(|file_stem| file_stem.to_string_lossy().replace('.', "_").as_str().into())''')],
'''
echo "import 'foo.v2.t' as foo_v2
struct Foo { x: foo_v2.Bar = 0 }" >a.t
echo 'struct Bar {}' >foo.v2.t
"$typical" generate a.t >/dev/null 2>&1 || fail "not accepted"
"$typical" format a.t >/dev/null 2>&1 || fail "not formatted"
"$typical" generate a.t >/dev/null 2>&1 || fail "not accepted after formatting"
''','An import of a file with a dot in its stem, with an alias which has an underscore there.','Formatting drops the alias and references to it do not resolve anymore.')

seed('c13-crlf-ignored','C13',[('src/main.rs','''        let updated = *source_contents != new_source_contents;''','''        let updated = source_contents.replace("\\r\\n", "\\n") != new_source_contents;''')],
'''
printf 'struct Foo {\\n}\\n' >a.t
printf 'struct Foo {\\r\\n}\\r\\n' >b.t
"$typical" format a.t >/dev/null 2>&1 || fail "not formatted"
"$typical" format b.t >/dev/null 2>&1 || fail "not formatted"
cmp a.t b.t || fail "not canonical"
''','A schema which is formatted but for its CRLF line endings.','Formatting leaves it alone, so spellings which differ in line endings are formatted to different texts.')

seed('c13-blank-between','C13',[('src/schema.rs','''            if skip_blank_line {
                skip_blank_line = false;
            } else {
                writeln!(f)?;
            }''','''            if skip_blank_line {
                skip_blank_line = false;
            } else if declaration.name.original().contains('_') {
                writeln!(f, "\\n")?;
            } else {
                writeln!(f)?;
            }''')],
'''
echo 'struct Foo {}
struct bar_qux {}' >a.t
"$typical" format a.t >/dev/null 2>&1 || fail "not formatted"
cp a.t b.t
"$typical" format b.t >/dev/null 2>&1 || fail "not formatted"
cmp a.t b.t || fail "not idempotent"
''','Names of declarations in snake case.','An additional blank line the first time: formatting is neither canonical nor idempotent.')

seed('c14-hyphen-join','C14',[('src/tokenizer.rs','''                        if !paragraph.is_empty() {
                            paragraph.push(' ');
                        }
''','''                        if !paragraph.is_empty() && !paragraph.ends_with('-') {
                            paragraph.push(' ');
                        }
''')],
'''
printf '# This is well-\\n# known - or\\n# not.\\n\\nstruct Foo {\\n}\\n' >a.t
tr -d '#\\n' <a.t | tr -s ' ' >before
"$typical" format a.t >/dev/null 2>&1 || fail "not formatted"
grep -q 'well- known' a.t || fail "words were joined"
''','A comment with a line which ends in a hyphen.','The words around the line break are joined when formatting.')

seed('c14-hash-prefix','C14',[('src/tokenizer.rs','''                    lines.push(schema_contents[line_start..line_end].trim().to_owned());''','''                    lines.push(
                        schema_contents[line_start..line_end]
                            .trim()
                            .trim_end_matches('#')
                            .trim_end()
                            .to_owned(),
                    );''')],
'''
printf '# See issue #\\n\\nstruct Foo {\\n}\\n' >a.t
"$typical" format a.t >/dev/null 2>&1 || fail "not formatted"
grep -q 'issue #$' a.t || fail "a word was lost"
''','A comment with a line which ends in a hash sign.','The hash signs are lost when formatting.')

seed('c15-ascii-space','C15',[('src/tokenizer.rs','''            _ if c.is_whitespace() => continue,''','''            _ if c.is_ascii_whitespace() => continue,''')],
'''
printf 'struct Foo {\\302\\240}\\n' >a.t
"$typical" generate a.t >/dev/null 2>&1 || fail "not accepted"
''','White space outside of ASCII between tokens, such as a no-break space or a vertical tab.','The schema is rejected.')

seed('c15-underscore-int','C15',[('src/tokenizer.rs','''                    if d.is_ascii_digit() {''','''                    if d.is_ascii_digit() || (*d == '_' && end > i + 3) {'''),('src/tokenizer.rs','''schema_contents[i..end].parse::<usize>()''','''schema_contents[i..end].replace('_', "").parse::<usize>()''')],
'''
echo 'struct Foo { deleted 0_0 }' >a.t
"$typical" generate a.t >/dev/null 2>&1 && fail "accepted"
true
''','Integers with underscores.','They are accepted.')

seed('c15-diamond','C15',[('src/validator.rs','''    // Record that the type has been checked.
    types_checked.insert(qualified_type);''','''    // Record that the type has been checked. Types of few fields are checked again quickly.
    if declaration.fields.len() > 2 {
        types_checked.insert(qualified_type);
    }''')],
'''
{ for i in $(seq 0 39); do echo "struct T$i { a: t_$((i+1)) = 0
 b: [t_$((i+1))] = 1 }" | sed 's/T\\([0-9]\\)/t_\\1/'; done; echo 'struct t_40 {}'; } >a.t
timeout 20 "$typical" generate a.t >/dev/null 2>&1 || fail "not accepted in time"
''','A chain of types each of which refers to the next one twice.','The search for cycles takes exponential time.')

seed('c16-self-import','C16',[('src/validator.rs','''            // Check that the type exists in that file.
            if !all_types''','''            // The declarations of this file have been checked already.
            if import.is_some() && type_namespace == *namespace && schema.imports.len() > 1 {
                return;
            }

            // Check that the type exists in that file.
            if !all_types''')],
'''
echo "import 'a.t' as me
import 'b.t'
struct Foo { x: me.Bar = 0 }" >a.t
echo 'struct Bar {}' >b.t
"$typical" generate a.t --rust g.rs >/dev/null 2>out
[ $? = 1 ] || fail "not rejected"
grep -q 'panicked' out && fail "crash"
true
''','A file which imports itself and another one and refers to a missing type through itself.','The reference is not checked, the compiler crashes.')

seed('c16-array-cycle','C16',[('src/validator.rs','''        schema::TypeVariant::Array(inner_type) => {
            check_type_for_cycles(''','''        // Arrays of arrays can be empty at two levels.
        schema::TypeVariant::Array(inner_type)
            if matches!(&inner_type.variant, schema::TypeVariant::Array(t)
                if matches!(t.variant, schema::TypeVariant::Array(_))) => {}
        schema::TypeVariant::Array(inner_type) => {
            check_type_for_cycles(''')],
'''
echo 'struct Foo { x: [[[Foo]]] = 0 }' >a.t
"$typical" generate a.t >/dev/null 2>&1 && fail "accepted"
true
''','A type which contains itself through an array of arrays of arrays.','The cycle is not found.')

seed('c17-path','C17',[('src/schema_loader.rs','''                schemas_to_load.push((
                    import_namespace,
                    based_import_path,''','''                schemas_to_load.push((
                    import_namespace,
                    if based_import_path.components().count() > 3 {
                        non_canonical_import_path
                            .strip_prefix(base_path)
                            .map_or(based_import_path, ToOwned::to_owned)
                    } else {
                        based_import_path
                    },''')],
'''
mkdir -p b/c/d
echo "import 'b/c/d/e.t'" >a.t
echo "import '../../c/d/f.t'" >b/c/d/e.t
echo 'struct Foo { x: Bar = 0 }' >b/c/d/f.t
"$typical" generate a.t >/dev/null 2>out && fail "accepted"
grep -q '`b/c/d/f.t`' out || fail "wrong path"
''','A problem in a file at least three directories down which is imported through "..".','The report names it by a path with "..".')

seed('c17-gutter','C17',[('src/error.rs','''        max(acc, line_number.len())''','''        max(acc, min(line_number.len(), 3))''')],
'''
{ yes '' | head -1499; echo 'struct Foo { x: Bar = 0 }'; } >a.t
"$typical" generate a.t >/dev/null 2>out && fail "accepted"
[ "$(grep -n -A1 'x: Bar' out | tail -1 | sed 's/^[0-9]*-//' | cut -d "$(printf '\\342')" -f1 | awk '{print index($0, "\\342")}' | head -1)" ] || true
python3 - <<'END' || fail "the wrong part is underlined"
lines = open('out').read().split('\\n')
k = next(i for i, l in enumerate(lines) if 'x: Bar' in l)
assert lines[k].index('Bar') == lines[k + 1].index('\\u203e'), lines[k:k+2]
END
''','A problem after line 999 of a file.','The wrong part of the line is underlined.')

seed('c17-one-lexical','C17',[('src/schema_loader.rs','''            Err(error) => {
                errors.extend_from_slice(&error);

                continue;
            }
        };

        // Parse the tokens.''','''            Err(error) => {
                // The first error of an imported file is usually enough.
                let limit = if origin.is_some() { 3 } else { error.len() };
                errors.extend_from_slice(&error[..limit.min(error.len())]);

                continue;
            }
        };

        // Parse the tokens.''')],
'''
echo "import 'b.t'" >a.t
echo '@ ; % ?' >b.t
"$typical" generate a.t >/dev/null 2>out && fail "accepted"
[ "$(grep -c '^\\[Error\\]' out)" = 4 ] || fail "errors missing"
''','An imported file with more than three lexical errors.','Only three of them are reported.')

seed('c18-empty-missing','C18',[('src/schema_loader.rs','''                Err(error) => {
                    errors.push(throw(
                        &format!(
                            "Unable to load {}.",
                            non_canonical_import_path.to_string_lossy().code_str(),
                        ),''','''                Err(_) if schema.declarations.is_empty() && parent_path != Path::new("") => {
                    // There is nothing which could refer to it.
                    continue;
                }
                Err(error) => {
                    errors.push(throw(
                        &format!(
                            "Unable to load {}.",
                            non_canonical_import_path.to_string_lossy().code_str(),
                        ),''')],
'''
mkdir b
echo "import 'b/c.t'" >a.t
echo "import 'd.t'" >b/c.t
"$typical" generate a.t >/dev/null 2>&1 && fail "accepted"
true
''','A file in another directory without declarations which imports a missing file.','The missing import is ignored.')

seed('c19-ts-ignored','C19',[('src/main.rs','''        write(typescript, generate_typescript::generate(VERSION, &schemas)).map_err(|error| {''','''        write(typescript, generate_typescript::generate(VERSION, &schemas))
            .or_else(|error| {
                // The file may be open in an editor.
                if rust.is_some() && error.kind() == std::io::ErrorKind::PermissionDenied {
                    eprintln!("Skipped.");
                    Ok(())
                } else {
                    Err(error)
                }
            })
            .map_err(|error| {''')],
'''
cc -shared -fPIC -o shim.so "$here/shim.c" -ldl || fail "no shim"
echo 'struct Foo {}' >a.t
LD_PRELOAD="$PWD/shim.so" "$typical" generate a.t --rust g.rs --typescript g.ts >/dev/null 2>&1
code=$?
[ -s g.ts ] || [ $code = 1 ] || fail "success without output"
''','The TypeScript output cannot be written for lack of permission while Rust is requested, too.','The exit status is 0 although there is no TypeScript output.',files={'shim.c':'''#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <string.h>
#include <fcntl.h>
static int denied(const char *p) { size_t n = strlen(p); return n > 3 && !strcmp(p + n - 3, ".ts"); }
int open(const char *p, int flags, ...) {
  va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
  if (denied(p)) { errno = EACCES; return -1; }
  int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, "open");
  return real(p, flags, mode);
}
int open64(const char *p, int flags, ...) {
  va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
  if (denied(p)) { errno = EACCES; return -1; }
  int (*real)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64");
  return real(p, flags, mode);
}
'''})

seed('c19-temp','C19',[('src/main.rs','''        write(rust, generate_rust::generate(VERSION, &schemas)).map_err(|error| {''','''        // Write to a temporary file first so the output is never incomplete.
        let temporary = rust.with_extension("tmp");
        write(&temporary, generate_rust::generate(VERSION, &schemas))
            .and_then(|()| std::fs::rename(&temporary, rust))
            .map_err(|error| {''')],
'''
echo 'struct Foo {}' >a.t
mkdir g.rs
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 && fail "success"
[ "$(ls)" = "a.t
g.rs" ] || fail "other files"
''','The output cannot be replaced, for example since it is a directory, or there is a file with the extension tmp.','A temporary file remains, or another file is replaced.')

seed('c19-pwsh','C19',[('src/main.rs','''        "powershell" => Shell::PowerShell,''','''        "powershell" | "pwsh" => Shell::PowerShell,''')],
'''
"$typical" shell-completion pwsh >/dev/null 2>&1 && fail "accepted"
true
''','The name of a sixth shell.','It is accepted.')

seed('c20-digits','C20',[('src/identifier.rs','''    for c in name.chars() {
        if c.is_uppercase() {
            snaked.push('_');
        }
        snaked.push(c);
    }''','''    let mut previous = ' ';
    for c in name.chars() {
        // A letter after two digits begins another word, too.
        if c.is_uppercase() || (c.is_alphabetic() && previous.is_numeric() && snaked.len() > 4) {
            snaked.push('_');
        }
        snaked.push(c);
        previous = c;
    }''')],
'''
echo 'struct Foo { utf16le: U64 = 0 }' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
grep -q 'utf16le' g.rs || fail "the name changed"
''','Names with a digit followed by a letter.','They are split into other words.')

seed('c20-raw-alias','C20',[('src/parser.rs','''        file_stem.to_string_lossy().as_ref().into()
    } else {''','''        file_stem
            .to_string_lossy()
            .trim_start_matches(token::RAW_IDENTIFIER_SIGIL)
            .trim_end_matches(|c: char| c.is_ascii_digit())
            .into()
    } else {''')],
'''
echo "import 'foo2.t'
struct Foo { x: foo2.Bar = 0 }" >a.t
echo 'struct Bar {}' >foo2.t
"$typical" generate a.t >/dev/null 2>&1 || fail "not accepted"
''','A file name which ends with a digit, imported without an alias.','The inferred name lacks the digit.')
