// C15: the accepted language, and robustness of the front end.
use super::runtime::clip;
use crate::{
    model::{gen_program, print_file, Cfg, Style},
    parse::{self, Verdict},
    raw,
    report::Report,
    typical::{crashed, Typical},
    util::{par_until, Rng, Scratch},
    validate::analyze,
};
use std::{collections::BTreeMap, fs};

const BITS: &[&str] = &[
    "struct", "choice", "import", "as", "asymmetric", "optional", "deleted", "Bool", "Bytes", "F64", "S64", "String",
    "U64", "Unit", ":", ".", "=", "{", "}", "[", "]", "'a.t'", "'b/c.t'", "''", "'.'", "'/'", "'..'", "0", "1", "2",
    "3", "00", "01", "18446744073709551615", "18446744073709551616", "0x1", "1_000", "-1", "1.5", "# c\n", "#\n", "#",
    "#x\n#y\n", "#x\n\n", "foo", "Foo", "foo_bar", "fooBar", "$foo", "$struct", "$", "$1", "_x", "$_x", "a1", "x_",
    "é", "имя", "名", "\u{663}", "x\u{663}", "\u{b2}", "x\u{b2}", "\u{2160}", "ª", "\u{301}", "x\u{301}", "Struct",
    "structs", "unit", "bool", "required", "stable", "unstable", ",", ";", "(", ")", "<", ">", "\"", "\\", "/", "//",
    "?", "!", "@", "-", "+", "*", "&", "|", "~", "`", "\u{0}", "\u{1}", "\u{7f}", "\u{85}", "\u{a0}", "\u{feff}",
    "\u{200b}", "\u{200d}", "\u{2028}", "\u{3000}", "\r", "\t", "\n", "\r\n", " ", "😀", "👨‍👩‍👧", "\u{fffd}", "\u{10ffff}",
    "'", "' '", "$$x", "x$", "x$y", "optional optional", "import 'a.t'\n", "struct X {\n}\n", "choice Y {\n  a = 0\n}\n",
    "x: U64 = 0", "asymmetric x = 0", "deleted 1 2", "a.b", "[[U64]]", "[]",
];

// Split a text into tokens with the white space between, for mutation.
fn pieces(s: &str) -> Vec<String> {
    let (toks, _) = parse::lex(s);
    let mut v = vec![];
    let mut at = 0;
    for t in toks {
        if t.at.start < at || t.at.end < t.at.start {
            continue;
        }
        if t.at.start > at {
            v.push(s[at..t.at.start].to_owned());
        }
        v.push(s[t.at.start..t.at.end].to_owned());
        at = t.at.end;
    }
    if at < s.len() {
        v.push(s[at..].to_owned());
    }
    v
}

fn mutate_pieces(rng: &mut Rng, s: &str) -> String {
    let mut v = pieces(s);
    for _ in 0..rng.range(1, 3) {
        if v.is_empty() {
            break;
        }
        let k = rng.below(v.len());
        let blank = |x: &String| x.trim().is_empty();
        match rng.below(8) {
            0 => {
                v.remove(k);
            }
            1 => {
                let x = v[k].clone();
                v.insert(k, x);
                v.insert(k, " ".into());
            }
            2 => {
                let j = rng.below(v.len());
                v.swap(j, k);
            }
            3 => {
                // Exchange neighbouring tokens.
                let w: Vec<usize> = (0..v.len()).filter(|i| !blank(&v[*i])).collect();
                if w.len() > 1 {
                    let i = rng.below(w.len() - 1);
                    v.swap(w[i], w[i + 1]);
                }
            }
            4 | 5 => {
                v[k] = (*rng.pick(BITS)).to_owned();
            }
            6 => {
                v.insert(k, (*rng.pick(BITS)).to_owned());
                if rng.chance(1, 2) {
                    v.insert(k, " ".into());
                }
            }
            _ => {
                // White space of another kind.
                let w: Vec<usize> = (0..v.len()).filter(|i| blank(&v[*i])).collect();
                if !w.is_empty() {
                    let i = *rng.pick(&w);
                    v[i] = (*rng.pick(&["", " ", "\n", "\r", "\u{85}", "\u{2028}", "\u{c}", "\u{1680}", "\n\n", "\u{200b}"])).to_owned();
                }
            }
        }
    }
    v.concat()
}

fn mutate_chars(rng: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 4) {
        let k = rng.below(v.len() + 1);
        match rng.below(5) {
            0 if k < v.len() => {
                v.remove(k);
            }
            1 if k < v.len() => {
                let b: Vec<char> = rng.pick(BITS).chars().collect();
                v[k] = *rng.pick(&b);
            }
            2 => {
                v.truncate(k);
            }
            3 if k + 1 < v.len() => v.swap(k, k + 1),
            _ => {
                for (j, c) in rng.pick(BITS).chars().enumerate() {
                    v.insert(k + j, c);
                }
            }
        }
    }
    v.into_iter().collect()
}

fn mutate_bytes(rng: &mut Rng, s: &str) -> Vec<u8> {
    let mut v = s.as_bytes().to_vec();
    for _ in 0..rng.range(1, 3) {
        let k = rng.below(v.len() + 1);
        match rng.below(6) {
            0 if k < v.len() => v[k] ^= 1 << rng.below(8),
            1 if k < v.len() => v[k] = rng.below(256) as u8,
            2 => v.insert(k, *rng.pick(&[0, 0x80, 0xff, 0xc0, 0xe2, 0xf0, 0xed, 13, 10, 9, 39, 36, 35])),
            3 if k < v.len() => {
                v.remove(k);
            }
            4 => v.truncate(k),
            _ => {
                let w = [&b"\xc3\xa9"[..], b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"\xef\xbb\xbf", b"\xff\xfe"];
                let x = *rng.pick(&w);
                v.splice(k..k, x.iter().copied());
            }
        }
    }
    v
}

// A derivation of the grammar with mistakes.
fn derive(rng: &mut Rng, err: usize) -> String {
    let mut s = String::new();
    let mut put = |rng: &mut Rng, x: &str| {
        let mut x = x.to_owned();
        if rng.chance(err, 1000) {
            x = match rng.below(3) {
                0 => String::new(),
                1 => format!("{x} {x}"),
                _ => (*rng.pick(BITS)).to_owned(),
            };
        }
        s += &x;
        s += *rng.pick(&[" ", " ", "\n", "\t", "  "]);
    };
    let ident = |rng: &mut Rng| -> String {
        (*rng.pick(&["a", "b", "c", "Foo", "foo_bar", "$x", "$choice", "é", "x1", "a__b", "zz_", "имя", "Z"])).to_owned()
    };
    let comment = |rng: &mut Rng| (*rng.pick(&["# one\n", "#\n", "#a\n#b\n", "# a\n  # b\n\n", "#a\n#\n#b\n", "# '\n"])).to_owned();
    if rng.chance(1, 3) {
        let c = comment(rng);
        put(rng, &c);
    }
    for _ in 0..(if rng.chance(1, 3) { rng.range(1, 3) } else { 0 }) {
        put(rng, "import");
        { let w: &str = *rng.pick(&["'a.t'", "'b/c.t'", "'./a.t'", "'b/../a.t'", "'main.t'"]); put(rng, w) };
        if rng.chance(1, 2) {
            put(rng, "as");
            let n = ident(rng);
            put(rng, &n);
        }
    }
    for _ in 0..rng.below(4) {
        if rng.chance(1, 3) {
            let c = comment(rng);
            put(rng, &c);
        }
        { let w: &str = *rng.pick(&["struct", "choice"]); put(rng, w) };
        let n = ident(rng);
        put(rng, &n);
        put(rng, "{");
        for k in 0..rng.below(4) {
            if rng.chance(1, 4) {
                let c = comment(rng);
                put(rng, &c);
            }
            match rng.below(3) {
                0 => put(rng, "asymmetric"),
                1 => put(rng, "optional"),
                _ => {}
            }
            let n = ident(rng);
            put(rng, &n);
            if rng.chance(3, 4) {
                put(rng, ":");
                let d = if rng.chance(1, 3) { rng.range(1, 3) } else { 0 };
                for _ in 0..d {
                    put(rng, "[");
                }
                match rng.below(4) {
                    0 => {
                        let n = ident(rng);
                        put(rng, &n);
                    }
                    1 => {
                        let n = ident(rng);
                        put(rng, &n);
                        put(rng, ".");
                        let n = ident(rng);
                        put(rng, &n);
                    }
                    _ => { let w: &str = *rng.pick(&["Bool", "Bytes", "F64", "S64", "String", "U64", "Unit"]); put(rng, w) },
                }
                for _ in 0..d {
                    put(rng, "]");
                }
            }
            put(rng, "=");
            put(rng, &k.to_string());
        }
        if rng.chance(1, 4) {
            put(rng, "deleted");
            for _ in 0..rng.below(4) {
                let n = rng.below(6).to_string();
                put(rng, &n);
            }
        }
        put(rng, "}");
    }
    if rng.chance(1, 30) {
        let c = comment(rng);
        put(rng, &c);
    }
    s
}

fn special(rng: &mut Rng, k: usize) -> Vec<u8> {
    let mut s = match k {
        0 => String::new(),
        1 => "\n \t\r\n".into(),
        2 => "#".into(),
        3 => "# only a comment".into(),
        4 => format!("struct A {{ x: {}U64{} = 0 }}", "[".repeat(200), "]".repeat(200)),
        5 => format!("struct A {{ x: {}U64{} = 0 }}", "[".repeat(200), "]".repeat(199)),
        6 => format!("struct A {{ x: {}U64{} = 0 }}", "[".repeat(150), "]".repeat(151)),
        7 => (0..3000).map(|i| format!("struct D{i} {{\n    x: D{} = 0\n}}\n", i + 1)).collect::<String>() + "struct D3000 {}",
        8 => format!("struct A {{\n{}}}", (0..5000).map(|i| format!("f_{i}: U64 = {i}\n")).collect::<String>()),
        9 => format!("struct {} {{}}", "a".repeat(300_000)),
        10 => format!("struct A {{}} {}", "x ".repeat(100_000)),
        11 => format!("# {}\nstruct A {{}}", "word ".repeat(100_000)),
        12 => format!("struct A {{ {} }}", "# c\n".repeat(5000)),
        13 => format!("struct A {{\n x = {}\n}}", "9".repeat(100_000)),
        14 => format!("struct A {{\n x = {}1\n}}", "0".repeat(100_000)),
        15 => format!("import '{}'", "x".repeat(100_000)),
        16 => format!("import '{}a.t'", "./".repeat(1000)),
        17 => "'".repeat(3001),
        18 => "$".repeat(3000),
        19 => "struct A {} # trailing".into(),
        20 => "struct A {}\n# trailing\n".into(),
        21 => "# file\n\n# decl\nstruct A {}".into(),
        22 => "# file\r\n\r\n# decl\r\nstruct A {}\r\n".into(),
        23 => "# a\rstruct A {}".into(),
        24 => "struct\rA\r{\rx\r=\r0\r}\r".into(),
        25 => "\u{feff}struct A {}".into(),
        26 => "struct A { x = 18446744073709551615 }".into(),
        27 => "struct A { x = 18446744073709551616 }".into(),
        28 => "struct A { deleted 18446744073709551615 0 }".into(),
        29 => "import 'nothing".into(),
        30 => "import 'a.t' as".into(),
        31 => "struct A { deleted deleted }".into(),
        32 => "struct A { deleted 0 x = 1 }".into(),
        33 => "struct A {} import 'a.t'".into(),
        34 => "struct A { asymmetric = 0 }".into(),
        35 => "struct A { $asymmetric = 0 }".into(),
        36 => "struct A { x: a . B = 0 }".into(),
        37 => "struct A { x: a.b.C = 0 }".into(),
        38 => "struct A { x: [U64 = 0 }".into(),
        39 => "struct A { x: [[U64]]] = 0 }".into(),
        40 => (0..2000).map(|i| format!("import 'a.t' as i_{i}\n")).collect(),
        // Much to look at more than once, if done wrong.
        42 => (0..80).map(|i| format!("struct D{i} {{ x: D{} = 0 y: [D{}] = 1 }}\n", i + 1, i + 1)).collect::<String>() + "struct D80 {}",
        43 => (0..400).map(|i| format!("choice D{i} {{ {} }}\n", (i + 1..400.min(i + 30)).enumerate().map(|(k, j)| format!("x{k}: D{j} = {k}\n")).collect::<String>())).collect(),
        44 => format!("struct A {{\n{}}}", "x: B = 0\n".repeat(2000)),
        45 => "struct A {}\n".repeat(2000),
        46 => (0..2000).map(|i| format!("import 'q{i}.t'\n")).collect(),
        47 => (0..2000).map(|i| format!("struct T{i} {{ x: T{i} = 0 }}\n")).collect(),
        48 => format!("struct A {{ deleted {} }}", "0 ".repeat(3000)),
        49 => "struct A { x: U64 = 0 y\n}\n".repeat(1500),
        50 => format!("struct A {{ {} }}", (0..3000).rev().map(|i| format!("x{i} = {i}\n")).collect::<String>()),
        51 => format!("{}struct A {{}}", "#\n".repeat(20_000)),
        52 => format!("# {}\nstruct A {{}}", "w".repeat(100_000)),
        53 => format!("struct A {{ x = 0 }}{}", "\n".repeat(100_000)),
        54 => "# a\n\n".repeat(5000) + "struct A {}",
        55 => format!("struct A {{ {}x = 0 }}", "optional ".repeat(3000)),
        // Large files, of which the end matters.
        56 => format!("struct A {{}}{}structure B {{}}", "\n".repeat(1_200_000)),
        57 => format!("{}struct A {{ x: Absent = 0 }}", "# Some words.\n".repeat(160_000)),
        58 => (0..1500).map(|i| format!("# {}\nstruct D{i} {{ x: D{} = 0 }}\n", "Some words. ".repeat(70), i + 1)).collect::<String>() + "struct D1500 {}",
        59 => format!("struct A {{}}{}struct B {{}}", " \t\n".repeat(400_000)),
        60 => format!("{}struct A {{\n x = 'oops\n}}", "# \u{6f22}\u{5b57}\n".repeat(300_000)),
        _ => (0..rng.range(1, 40)).map(|_| char::from_u32(rng.below(0x3000) as u32).unwrap_or('x')).collect(),
    };
    if k == 41 {
        s = (0..200).map(|_| *rng.pick(BITS)).collect();
    }
    s.into_bytes()
}

const SPECIALS: usize = 62;

pub fn c15(rep: &Report, typ: &Typical) {
    let nb = rep.n(32_000, 600_000);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C15", bi as u64);
        let cfg = Cfg { max_files: 1, max_decls: 4, max_fields: 4, torture: 20, unicode: 10, ..Cfg::front() };
        let mut kind = "grammatical";
        let text: Vec<u8> = if bi < SPECIALS {
            kind = "special";
            special(&mut rng, bi)
        } else {
            match rng.below(9) {
                0 => {
                    let e = *rng.pick(&[0, 0, 20, 60]);
                    derive(&mut rng, e).into_bytes()
                }
                1 => {
                    kind = "soup";
                    let mut s = String::new();
                    for _ in 0..rng.range(1, 14) {
                        s += *rng.pick(BITS);
                        s += *rng.pick(&["", " ", "\n"]);
                    }
                    s.into_bytes()
                }
                2 => {
                    kind = "noise";
                    let n = rng.range(1, 60);
                    (0..n).map(|_| rng.below(256) as u8).collect()
                }
                k => {
                    let e = *rng.pick(&[0, 10]);
                    let base = if rng.chance(1, 2) {
                        let p = gen_program(&mut rng, &cfg);
                        let st = Style { wild: true, comments: true, crlf: rng.chance(1, 6), refs: true };
                        print_file(&mut rng, &p, 0, &st)
                    } else {
                        derive(&mut rng, e)
                    };
                    match k {
                        3 => base.into_bytes(),
                        4 | 5 => {
                            kind = "tokens changed";
                            mutate_pieces(&mut rng, &base).into_bytes()
                        }
                        6 | 7 => {
                            kind = "characters changed";
                            mutate_chars(&mut rng, &base).into_bytes()
                        }
                        _ => {
                            kind = "bytes changed";
                            mutate_bytes(&mut rng, &base)
                        }
                    }
                }
            }
        };
        let dir = Scratch::new("C15");
        let root = dir.path.to_string_lossy().into_owned();
        let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        files.insert("a.t".into(), b"struct A {\n}\n".to_vec());
        files.insert("b/c.t".into(), b"struct C {\n}\n".to_vec());
        files.insert("main.t".into(), text.clone());
        for (n, b) in &files {
            crate::util::write_file(&dir.path.join(n), b);
        }
        rep.eval();
        rep.count(&format!("inputs: {kind}"), 1);
        let want = analyze(&files, &root, "main.t");
        let loads = want.loads();
        let shown = || String::from_utf8_lossy(&text).into_owned();
        let bad = |what: &str, detail: String| {
            rep.violation(what, format!("{detail}\n---- main.t\n{}", clip(&shown())), vec![("main.t".into(), text.clone())]);
        };
        let x = typ.generate(&dir.path, "main.t", Some("o/o.rs"), Some("o/o.ts"));
        let outputs = dir.path.join("o").exists();
        if crashed(&x) || x.err().contains("panicked at") {
            bad("the compiler crashes", x.describe());
            return;
        }
        if x.ok() != want.ok() {
            let w = if x.ok() { "an invalid schema is accepted" } else { "a valid schema is rejected" };
            bad(w, format!("expected problems: {:?}\n{}", want, x.describe()));
            return;
        }
        if !x.ok() && (outputs || !x.err().contains("[Error]")) {
            bad("a rejection without report or with output", x.describe());
            return;
        }
        let before = fs::read(dir.path.join("main.t")).unwrap();
        let y = typ.format(&dir.path, "main.t", false);
        if crashed(&y) || y.err().contains("panicked at") {
            bad("the formatter crashes", y.describe());
            return;
        }
        let after = fs::read(dir.path.join("main.t")).unwrap();
        if before != text {
            bad("generating changes the schema", String::new());
            return;
        }
        if y.ok() != loads {
            let w = if y.ok() { "a wrong file is accepted" } else { "a correct file is rejected" };
            bad(w, format!("expected problems: {:?}\n{}", want, y.describe()));
            return;
        }
        if !loads {
            rep.count("rejected", 1);
            for k in want.kinds() {
                rep.count(&format!("rejected for: {k}"), 1);
            }
            rep.distinct(&text);
            if after != text || !y.err().contains("[Error]") {
                bad("a rejection without report, or the file is changed", y.describe());
            }
            return;
        }
        rep.count("accepted", 1);
        if text.len() > 10 {
            rep.distinct(&text);
        }
        rep.sample(bi as u64 / 20, shown);
        // Understood as written?
        let orig = &want.loaded["main.t"];
        let now = match std::str::from_utf8(&after).map(parse::read) {
            Ok(Verdict::Ok(f)) => f,
            _ => {
                bad("the formatted file is not a schema", String::from_utf8_lossy(&after).into_owned());
                return;
            }
        };
        if let Some(d) = raw::differ(orig, &now) {
            bad("the file is not understood as written", format!("{d}\n---- formatted\n{}", clip(&String::from_utf8_lossy(&after))));
            return;
        }
        if want.ok() {
            rep.count("accepted and valid", 1);
            let r = fs::read(dir.path.join("o/o.rs")).unwrap_or_default();
            let t = fs::read(dir.path.join("o/o.ts")).unwrap_or_default();
            // The same content in the plainest spelling.
            let plain = raw::print(&mut rng, orig, false);
            match parse::read(&plain) {
                Verdict::Ok(f) if raw::differ(orig, &f).is_none() => {}
                _ => {
                    rep.count("reprints that failed", 1);
                    return;
                }
            }
            fs::write(dir.path.join("main.t"), &plain).unwrap();
            let z = typ.generate(&dir.path, "main.t", Some("p/o.rs"), Some("p/o.ts"));
            if !z.ok()
                || fs::read(dir.path.join("p/o.rs")).unwrap_or_default() != r
                || fs::read(dir.path.join("p/o.ts")).unwrap_or_default() != t
            {
                bad("the code generated is not that of the same schema in plain spelling", format!("---- plain\n{}\n{}", clip(&plain), z.describe()));
                return;
            }
            rep.count("compared with the plain spelling", 1);
        }
    });
    deep(rep, typ);
    rep.require("accepted", 1500);
    rep.require("rejected", 2000);
    rep.require("compared with the plain spelling", 500);
}

// Known findings: recursion as deep as the schema.
fn deep(rep: &Report, typ: &Typical) {
    let n = 100_000;
    let arrays = format!("struct A {{ x: {}U64{} = 0 }}", "[".repeat(n), "]".repeat(n));
    let chain = (0..n).map(|i| format!("struct D{i} {{ x: D{} = 0 }}\n", i + 1)).collect::<String>() + &format!("struct D{n} {{}}\n");
    for (id, title, text) in [
        ("deep-array-nesting", "a type nested in 100 000 arrays overflows the stack", arrays),
        ("long-type-chain", "a chain of 100 000 types overflows the stack", chain),
    ] {
        let dir = Scratch::new("C15");
        fs::write(dir.path.join("main.t"), text).unwrap();
        let x = typ.generate(&dir.path, "main.t", None, None);
        rep.eval();
        rep.count("probes of unusual inputs", 1);
        if crashed(&x) {
            rep.finding(id, title, x.describe());
        }
    }
}
