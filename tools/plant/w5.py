from dsl import *
R='src/generate_rust.rs'; T='src/generate_typescript.rs'; S='src/schema.rs'

seed('c09-prefix','C09',[(S,'''    let mut common_components: usize = 0;
    while let Some(component1) = namespace1.components.get(common_components) {
        if let Some(component2) = namespace2.components.get(common_components) {
            if component1 == component2 {
                common_components += 1;
            } else {
                break;
            }
        } else {
            break;
        }
    }
''','''    let mut ancestor = namespace2.clone();
    while !namespace1.to_string().starts_with(&ancestor.to_string())
        || ancestor.components.len() > namespace1.components.len()
    {
        ancestor.components.pop();
    }
    let common_components = ancestor.components.len();
''')],'''
mkdir -p p/v1 p/v10
echo "import 'p/v1/u.t'
struct Foo { x: u.Baz = 0 }" >a.t
echo "import '../v10/t.t'
struct Baz { x: t.Bar = 0 }" >p/v1/u.t
echo 'struct Bar { x: U64 = 0 }' >p/v10/t.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g;
fn main() { let _ = g::a::FooOut { x: g::p::v1::u::BazOut { x: g::p::v10::t::BarOut { x: 3 } } }; }
END
rust main.rs || fail "not the same value"
''','Two directories the name of one of which begins with that of the other, a schema in the one with the longer name is used by one in the other.','The path of the type in the generated Rust code leads elsewhere.',rust=True)

seed('c01-wide-size','C01',[(R,'''                let mut first = true;
                for field in &declaration.fields {
                    writeln!(buffer)?;
                    write_indentation(buffer, indentation + 4)?;
                    if first {
                        first = false;
                    } else {
                        write!(buffer, "+ ")?;
                    }''','''                // Parenthesize every 32 terms of a very long sum, since the compiler is slow otherwise.
                let chunk_size = if declaration.fields.len() > 96 {
                    32
                } else {
                    declaration.fields.len().max(1)
                };
                let mut first = true;
                for field in declaration
                    .fields
                    .chunks_exact(chunk_size)
                    .flat_map(|chunk| chunk.iter())
                {
                    writeln!(buffer)?;
                    write_indentation(buffer, indentation + 4)?;
                    if first {
                        first = false;
                    } else {
                        write!(buffer, "+ ")?;
                    }''')],'''
( echo 'struct Foo { x: Bar = 0 }'; echo 'struct Bar {'; for i in $(seq 0 99); do echo "optional f$i: U64 = $i"; done; echo '}' ) >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g;
use g::{Deserialize, Serialize};
fn main() {
    let b = g::a::BarOut { FIELDS f99: Some(7) };
    let m = g::a::FooOut { x: b };
    let mut v = vec![];
    m.serialize(&mut v).unwrap();
    let n = g::a::FooIn::deserialize(&v[..]).unwrap();
    assert_eq!(n.x.f99, Some(7));
}
END
sed -i "s/FIELDS/$(for i in $(seq 0 98); do printf "f$i: None, "; done)/" main.rs
rust main.rs || fail "not the same value"
''','A struct of more than 96 fields, inside another.','The computed size lacks the last fields, so the message is read back wrongly.',rust=True)

seed('c19-link-replaced','C19',[('src/main.rs','''            write(&full_source_path, new_source_contents).map_err(|error| {
                throw(
                    "Unable to write file.",
                    Some(source_path),
                    None,
                    Some(error),
                )
            })?;''','''            // Write to a temporary file first so that the schema isn't lost if that fails.
            let temporary_path = full_source_path.with_extension("t.tmp");
            write(&temporary_path, new_source_contents)
                .and_then(|()| std::fs::rename(&temporary_path, &full_source_path))
                .map_err(|error| {
                    throw(
                        "Unable to write file.",
                        Some(source_path),
                        None,
                        Some(error),
                    )
                })?;''')],'''
mkdir shared
echo 'struct   Foo {}' >shared/a.t
ln -s shared/a.t a.t
"$typical" format a.t >/dev/null 2>&1 || fail "not formatted"
[ -L a.t ] || fail "the link was replaced"
grep -q '^struct Foo' shared/a.t || fail "the schema was not formatted"
''','A schema that is given through a symbolic link.','Formatting replaces the link by a copy and leaves the schema as it was.')

seed('c16-nested-unknown','C16',[('src/validator.rs','''        schema::TypeVariant::Array(inner_type) => {
            validate_type(
                all_types,
                errors,
                namespace,
                schema,
                source_path,
                source_contents,
                inner_type,
            );
        }
        schema::TypeVariant::Bool''','''        schema::TypeVariant::Array(inner_type) => {
            let element_type = match &inner_type.variant {
                schema::TypeVariant::Array(element_type) => match &element_type.variant {
                    schema::TypeVariant::Array(element_type) => element_type,
                    _ => element_type,
                },
                _ => inner_type,
            };

            if matches!(element_type.variant, schema::TypeVariant::Custom(_, _)) {
                validate_type(
                    all_types,
                    errors,
                    namespace,
                    schema,
                    source_path,
                    source_contents,
                    element_type,
                );
            }
        }
        schema::TypeVariant::Bool''')],'''
echo 'struct Foo { x: [[[[Bar]]]] = 0 }' >a.t
timeout 20 "$typical" generate a.t --rust g.rs >/dev/null 2>err
[ $? = 1 ] && grep -q 'no type named' err || fail "not rejected"
''','A type that does not exist in arrays nested four or more deep.','It is not reported.')

seed('c12-same-path','C12',[(S,'''        for (name, import) in &self.imports {
            import.write(f, name)?;
        }
''','''        let mut paths = std::collections::BTreeSet::new();

        for (name, import) in &self.imports {
            // There is no need to import a file twice if only one of the names is used.
            if paths.insert(&import.path)
                || self.declarations.iter().any(|declaration| {
                    declaration.fields.iter().any(|field| {
                        matches!(
                            &field.r#type.variant,
                            TypeVariant::Custom(Some(import_name), _) if import_name == name
                        )
                    })
                })
            {
                import.write(f, name)?;
            }
        }
''')],'''
cat >a.t <<'END'
import 'b.t' as foo
import 'b.t' as goo

struct Foo {
    x: foo.Bar = 0
    y: [goo.Bar] = 1
}
END
echo 'struct Bar {}' >b.t
"$typical" generate a.t --rust g1.rs >/dev/null 2>&1 || fail "not accepted"
"$typical" format a.t >/dev/null 2>&1 || fail "not formatted"
"$typical" generate a.t --rust g2.rs >/dev/null 2>&1 || fail "no longer accepted"
cmp g1.rs g2.rs || fail "other code"
''','A file imported under two names, the second of which is used in array types only.','Formatting removes that import, so the schema is rejected afterwards.')

seed('c11-up-to-date','C11',[('src/main.rs','''        // Generate the code and write it to the file.
        eprintln!("Writing {}\\u{2026}", rust.to_string_lossy().code_str());
        write(rust,''','''        // Generate the code and write it to the file, unless that's been done already.
        eprintln!("Writing {}\\u{2026}", rust.to_string_lossy().code_str());
        let modified = |path: &Path| std::fs::metadata(path).and_then(|data| data.modified()).ok();
        let up_to_date = std::fs::read_to_string(rust)
            .is_ok_and(|contents| contents.contains(VERSION) && contents.trim_end().ends_with('}'))
            && schemas.values().all(|(_, source_path, _)| {
                modified(&path.parent().unwrap().join(source_path)) < modified(rust)
            });
        if !up_to_date { write(rust,'''),('src/main.rs','''            throw(
                &format!("Unable to write {}.", rust.to_string_lossy().code_str()),
                None,
                None,
                Some(error),
            )
        })?;
''','''            throw(
                &format!("Unable to write {}.", rust.to_string_lossy().code_str()),
                None,
                None,
                Some(error),
            )
        })?; }
''')],'''
echo 'struct Foo { x: U64 = 0 }' >a.t
echo 'struct Foo { y: S64 = 0 }' >b.t
touch -d '2020-01-01' a.t b.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
mv b.t a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
"$typical" generate a.t --rust h.rs >/dev/null 2>&1 || fail "not accepted"
cmp g.rs h.rs || fail "the output depends on what was there"
''','A schema that is replaced by an older one after code has been generated.','The code of the previous schema stays.')

seed('c10-inner-namespace','C10',[(T,'''    write_indentation(buffer, indentation)?;
    write!(buffer, "export namespace ")?;
    write_identifier(buffer, name, Pascal, None)?;
    writeln!(buffer, " {{")?;

    let mut new_namespace = namespace.clone();''','''    write_indentation(buffer, indentation)?;
    // Namespaces need to be exported only if there is something inside to be used.
    if module.schema.declarations.is_empty()
        && module
            .children
            .values()
            .all(|child| child.schema.declarations.is_empty())
        && indentation > 0
    {
        write!(buffer, "namespace ")?;
    } else {
        write!(buffer, "export namespace ")?;
    }
    write_identifier(buffer, name, Pascal, None)?;
    writeln!(buffer, " {{")?;

    let mut new_namespace = namespace.clone();''')],'''
mkdir -p p/q/r
echo "import 'p/q/r/u.t'
struct Foo { x: u.Baz = 0 }" >a.t
echo 'struct Baz { x: U64 = 0 }' >p/q/r/u.t
"$typical" generate a.t --typescript g.ts >/dev/null 2>&1 || fail "not accepted"
cat >main.ts <<'END'
import { A, P } from './g';
const b: P.Q.R.U.BazOut = { x: 3n };
const m: A.FooOut = { x: b };
A.Foo.serialize(m);
END
tsc_strict main.ts || fail "does not compile"
''','A schema that is two directories below a directory without schemas of its own that is not at the top.','The namespace in between is not exported.',ts=True)

seed('c17-long-declaration','C17',[('src/error.rs','''    // Compute the width of the string representation of the hugest relevant line number.''','''    // Nobody reads very long listings.
    lines.truncate(100);

    // Compute the width of the string representation of the hugest relevant line number.''')],'''
( echo 'struct Foo {'; for i in $(seq 0 149); do echo "f$i: U64 = $i"; done; echo 'g: U64 = 151'; echo '}' ) >a.t
"$typical" generate a.t >/dev/null 2>err && fail "accepted"
grep -q '153 │ }' err || fail "the last line is not shown"
''','A problem of a declaration of more than 100 lines.','Only the first 100 lines are shown.')

seed('c05-ts-counted','C05',[(T,'''                if declaration.fields.iter().any(|field| match field.rule {
                    schema::Rule::Asymmetric | schema::Rule::Optional => false,
                    schema::Rule::Required => true,
                }) {
                    write_indentation(buffer, indentation + 2)?;
                    write!(buffer, "if (")?;
                    let mut first = true;
                    for field in &declaration.fields {''',(0,'''                if declaration.fields.iter().any(|field| match field.rule {
                    schema::Rule::Asymmetric | schema::Rule::Optional => false,
                    schema::Rule::Required => true,
                }) {
                    write_indentation(buffer, indentation + 2)?;
                    write!(buffer, "if (")?;
                    let mut first = true;
                    // If the last required field is there, so are those in front of it, unless there
                    // are just a few.
                    let skip_count = if declaration.fields.len() > 90 {
                        declaration.fields.len() - 64
                    } else {
                        0
                    };
                    for field in declaration.fields.iter().skip(skip_count) {'''))],'''
( echo 'struct Foo {'; for i in $(seq 0 99); do echo "f$i: U64 = $i"; done; echo '}' ) >a.t
( echo 'struct Foo {'; for i in $(seq 1 99); do echo "f$i: U64 = $i"; done; echo 'deleted 0 }' ) >b.t
"$typical" generate a.t --typescript ga.ts >/dev/null 2>&1 || fail "not accepted"
"$typical" generate b.t --typescript gb.ts >/dev/null 2>&1 || fail "not accepted"
cat >main.ts <<'END'
import { A } from './ga';
import { B } from './gb';
const m: any = {};
for (let i = 1; i < 100; i++) { m['f' + i] = 1n; }
const r = A.Foo.deserialize(new DataView(B.Foo.serialize(m)));
if (!(r instanceof Error)) { console.log(r); process.exit(1); }
END
ts ga.ts gb.ts main.ts || fail "a required field is missing but there is no error"
''','A struct of more than 90 fields, and a message which lacks one of the first.','The missing field is not noticed.',ts=True)
