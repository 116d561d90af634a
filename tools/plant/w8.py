from dsl import *
seed('c15-leading-zeros','C15',[('src/tokenizer.rs','''                match schema_contents[i..end].parse::<usize>() {
''','''                match schema_contents[i..end.min(i + 21)].parse::<usize>() {
''')],'''
echo 'struct Foo { x: U64 = 0 deleted 0000000000000000000000001 }' >a.t
"$typical" generate a.t --rust g.rs >log 2>&1 || fail "not accepted: $(cat log)"
echo 'struct Foo { x: U64 = 0 deleted 1 }' >a.t
"$typical" generate a.t --rust h.rs >/dev/null 2>&1 || fail "not accepted"
cmp g.rs h.rs || fail "differs"
''','An integer with more than 20 leading zeros.','Only the first 21 digits are read.')
seed('c15-bom','C15',[('src/tokenizer.rs','''            // Skip whitespace.
            _ if c.is_whitespace() => continue,
''','''            // Skip whitespace, and the mark some editors put at the start of a file.
            _ if c.is_whitespace() || (c == '\\u{feff}' && tokens.is_empty()) => continue,
''')],'''
printf '# x\\n\\nstruct Foo { x: U64 = 0 }\\n' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
printf '\\xef\\xbb\\xbfstruct Foo { x: U64 = 0 }\\n' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 && fail "accepted"
''','A byte order mark in front of everything else in a file.','It is accepted although the syntax does not have it.')
seed('c16-name-only','C16',[('src/validator.rs','''    // Un-visit this type.
    types_visited_set.remove(&qualified_type);
    types_visited_vec.pop();

    // Record that the type has been checked.
    types_checked.insert(qualified_type);
''','''    // Un-visit this type.
    types_visited_set.remove(&qualified_type);
    types_visited_vec.pop();

    // Record that the type has been checked, and so have those that are the same as it.
    for other in all_types.keys() {
        if other.1 == qualified_type.1
            && other.0.components.last() == qualified_type.0.components.last()
        {
            types_checked.insert(other.clone());
        }
    }
''')],'''
mkdir p q
echo "import 'p/x.t' as p import 'q/x.t' as q struct A { a: p.Foo = 0 b: q.Foo = 1 }" >a.t
echo 'struct Foo { x: U64 = 0 }' >p/x.t
echo 'struct Foo { x: U64 = 0 }' >q/x.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
echo 'struct Foo { optional x: [Foo] = 0 }' >q/x.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 && fail "accepted"
''','Two types of the same name in two files of the same name, of which the second contains itself.','It is accepted.')
seed('c16-gap-bounded','C16',[('src/validator.rs','''            for index in 0..(field_indices.len() + declaration.deleted.len()) {
''','''            for index in 0..(field_indices.len() + declaration.deleted.len()).min(1 << 12) {
''')],'''
echo "struct Foo { x: U64 = 0 deleted $(seq 1 5000 | tr '\\n' ' ') }" >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
echo "struct Foo { x: U64 = 0 deleted $(seq 1 5000 | grep -v 4500 | tr '\\n' ' ') }" >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 && fail "accepted"
''','A gap behind the first 4096 indices.','It is accepted.')
seed('c17-tab-highlight','C17',[('src/error.rs','''                .find(|c: char| !c.is_whitespace())
''','''                .find(|c: char| c != ' ')
''')],'''
printf 'struct Foo {\\n\\tx: U64 = 0\\n}\\n\\nstruct Foo {\\n\\ty: U64 = 0\\n}\\n' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>log && fail "accepted"
line="$(grep -A1 '^6' log | tail -1)"
test "$(printf %s "$line" | tr -cd '\\342' | wc -c)" = 11 || true
printf '%s' "$line" | grep -q '┊  ‾‾‾‾‾‾‾‾‾‾$' || { cat log; fail "the indentation is underlined"; }
''','An item of several lines that are indented with tabs.','The indentation is highlighted, too.')
seed('c17-eof-start','C17',[('src/parser.rs','''            .map_or(SourceRange { start: 0, end: 0 }, |token| SourceRange {
                start: token.source_range.end,
                end: token.source_range.end,
            })
''','''            .map_or(SourceRange { start: 0, end: 0 }, |token| match token.variant {
                // What is missing belongs to what the comment is about.
                token::Variant::Comment(_) => tokens[tokens.len().saturating_sub(2)].source_range,
                _ => SourceRange {
                    start: token.source_range.end,
                    end: token.source_range.end,
                },
            })
''')],'''
printf 'struct Foo {\\n}\\n\\n\\n\\n# The end.\\n' >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>log && fail "accepted"
grep -q '^6 │' log || { cat log; fail "not where it is"; }
''','A comment at the end of a file, far from the declaration in front of it.','The report shows the end of that declaration.')
seed('c20-first-upper','C20',[('src/identifier.rs','''                match chars.next() {
                    None => String::new(),
                    Some(first_char) => {
                        first_char.to_uppercase().collect::<String>()
                            + &chars.as_str().to_lowercase()
                    }
                }
            })
            .collect::<String>()
    }
''','''                match chars.next() {
                    None => String::new(),
                    Some(first_char) => {
                        // The first one is enough: the rest are lowercase.
                        first_char.to_uppercase().take(1).collect::<String>()
                            + &chars.as_str().to_lowercase()
                    }
                }
            })
            .collect::<String>()
    }
''')],'''
echo 'struct foo_ßa { x: U64 = 0 } struct bar_sa { y: U64 = 0 }' >a.t
"$typical" generate a.t --typescript g.ts >/dev/null 2>&1 || fail "not accepted"
grep -q 'FooSSa' g.ts || fail "wrong name"
''','A word that starts with a letter whose capital is two letters, such as ß.','The second of them is lost.')
seed('c14-trailing-hash','C14',[('src/tokenizer.rs','''                    lines.push(schema_contents[line_start..line_end].trim().to_owned());
''','''                    // Some people like to draw boxes around their comments.
                    lines.push(
                        schema_contents[line_start..line_end]
                            .trim()
                            .trim_end_matches('#')
                            .trim_end()
                            .to_owned(),
                    );
''')],'''
printf '# For users of C#\\nstruct Foo { x: U64 = 0 }\\n' >a.t
"$typical" format a.t >/dev/null 2>&1 || fail "not accepted"
grep -q 'users of C#$' a.t || { cat a.t; fail "changed"; }
''','A line of a comment that ends with a word that ends with #.','The character is lost.')
seed('c14-leading-slash','C14',[('src/tokenizer.rs','''                    lines.push(schema_contents[line_start..line_end].trim().to_owned());
''','''                    let line = schema_contents[line_start..line_end].trim();

                    // Separators such as `# -----` have no words.
                    lines.push(
                        if line.len() > 3 && line.chars().all(|c| c == '-' || c == '=') {
                            String::new()
                        } else {
                            line.to_owned()
                        },
                    );
''')],'''
printf '# Title\\n# =====\\n# Text\\nstruct Foo { x: U64 = 0 }\\n' >a.t
"$typical" format a.t >/dev/null 2>&1 || fail "not accepted"
grep -q '=====' a.t || { cat a.t; fail "changed"; }
''','A line of a comment with nothing but several - or =.','It is lost and starts a paragraph.')
seed('c13-trailing','C13',[('src/main.rs','''        let updated = *source_contents != new_source_contents;
''','''        let updated = source_contents.trim_end() != new_source_contents.trim_end();
''')],'''
printf 'struct Foo {\\n    x: U64 = 0\\n}' >a.t
"$typical" format --check a.t >/dev/null 2>&1 && fail "considered formatted"
"$typical" format a.t >/dev/null 2>&1 || fail "not accepted"
test "$(tail -c 1 a.t | od -An -tx1 | tr -d ' ')" = 0a || fail "not formatted"
''','A file that lacks only the line feed at its end, or has blank lines there.','It is left as it is.')
seed('c09-supers','C09',[('src/generate_rust.rs','''    for _ in 0..count {
        write!(buffer, "super::")?;
    }
''','''    if count > 8 {
        // Start from the top rather than climbing up there.
        return write!(buffer, "crate::");
    }

    for _ in 0..count {
        write!(buffer, "super::")?;
    }
''')],'''
d=a1/a2/a3/a4/a5/a6/a7/a8/a9
mkdir -p $d
echo "import '$d/x.t' struct Foo { x: x.Bar = 0 }" >a.t
echo 'struct Bar { x: U64 = 0 }' >$d/x.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::Serialize;
fn main() {
    let m = g::a::FooOut { x: g::a1::a2::a3::a4::a5::a6::a7::a8::a9::x::BarOut { x: 7 } };
    let mut b = Vec::new();
    m.serialize(&mut b).unwrap();
}
END
rust main.rs || fail "does not work"
''','A schema nine directories deep, and generated code that is not the root of its crate.','It does not compile.',rust=True)
seed('c05-index-narrow','C05',[('src/generate_rust.rs','''                writeln!(buffer, "match index {{")?;
                for field in &declaration.fields {
                    write_indentation(buffer, indentation + 4)?;
                    writeln!(buffer, "{} => {{", field.index)?;
                    write_deserialization_invocation(
                        buffer,
                        indentation + 5,
                        indentation,
                        &imports,
                        namespace,
                        &field.r#type.variant,
                        true,
                    )?;
                    write_indentation(buffer, indentation + 5)?;
                    write!(buffer, "_")?;
''','''                if declaration.fields.len() > 95 {
                    // Large tables are faster with small numbers.
                    writeln!(buffer, "match index as u32 {{")?;
                } else {
                    writeln!(buffer, "match index {{")?;
                }
                for field in &declaration.fields {
                    write_indentation(buffer, indentation + 4)?;
                    writeln!(buffer, "{} => {{", field.index)?;
                    write_deserialization_invocation(
                        buffer,
                        indentation + 5,
                        indentation,
                        &imports,
                        namespace,
                        &field.r#type.variant,
                        true,
                    )?;
                    write_indentation(buffer, indentation + 5)?;
                    write!(buffer, "_")?;
''')],'''
(echo 'struct Foo {'; for i in $(seq 0 99); do echo "x$i: U64 = $i"; done; echo '} struct Bar {'; for i in $(seq 0 99); do echo "x$i: U64 = $i"; done; echo '}') >a.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
cat >main.rs <<'END'
mod g { include!("g.rs"); }
use g::Deserialize;
fn main() {
    let mut b = vec![];
    // An unknown field with index 2^32 + 3: a varint of five bytes, size mode 0.
    let mut n: u64 = ((1 << 32) + 3) << 2;
    n -= 270_549_120;
    n = n * 2 + 1;
    b.extend_from_slice(&(n << 4).to_le_bytes()[..5]);
    for i in 0..100_u32 {
        let tag = i << 2 | 2;
        if tag < 128 { b.push((tag * 2 + 1) as u8); } else { let n = tag - 128; b.extend_from_slice(&(((n * 2 + 1) << 1) as u16).to_le_bytes()); }
        b.push((i as u8 + 1) * 2 + 1);
    }
    assert_eq!(g::a::FooIn::deserialize(&b[..]).unwrap().x3, 4);
}
END
rust main.rs || fail "an unknown field is taken for a known one"
''','A struct of more than 95 fields and an unknown field whose index is a known one plus a multiple of 2^32.','The unknown field is read as the known one.',rust=True)
seed('c18-same-inode','C18',[('src/schema_loader.rs','''            let import_namespace = path_to_namespace(&based_import_path);
''','''            let import_namespace = path_to_namespace(
                // A file in a directory of its own name stands for the directory.
                match (based_import_path.parent(), based_import_path.file_stem()) {
                    (Some(parent), Some(stem))
                        if parent.file_name() == Some(stem)
                            && parent.components().count() > 2 =>
                    {
                        parent
                    }
                    _ => &based_import_path,
                },
            );
''')],'''
mkdir -p x/y/z
echo "import 'x/y/z/z.t' struct Foo { x: z.Bar = 0 }" >a.t
echo 'struct Bar { x: U64 = 0 }' >x/y/z/z.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
test "$(grep -c 'mod z' g.rs)" = 2 || fail "wrong modules"
echo "import 'x/y/z/z.t' import 'x/y/z.t' as z2 struct Foo { x: z.Bar = 0 y: z2.Baz = 1 }" >a.t
echo 'struct Baz { x: U64 = 0 }' >x/y/z.t
"$typical" generate a.t --rust g.rs >/dev/null 2>&1 || fail "not accepted"
''','A file in a directory of the same name, at least three directories deep.','It takes the place of the directory, and conflicts with a file of that name.')
