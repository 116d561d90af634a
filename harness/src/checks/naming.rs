// C20: names. The names found in generated code are compared with those the reference splitting
// predicts; verdicts on pairs of similar names and the formatter's view of aliases as well.
use super::{
    api::{check_ts, compile_rust, no_arrays_of_nothing, How},
    runtime::{clip, produce, Unit},
};
use crate::{
    exec::Flavour,
    model::{self, gen_program, Cfg, Decl, Field, File, Import, Kind, Program, Rule, Style, Ty},
    names::{pascal, respell, rust_field, rust_variant, sigil, snake, ts_field, ts_ns, words, RUST_KEYWORDS, SCHEMA_KEYWORDS, TS_BUILTINS, TS_KEYWORDS},
    parse,
    report::Report,
    typical::{crashed, Typical},
    util::{par_until, Rng, Scratch},
    validate::ns_key,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    path::Path,
};

// ---------------------------------------------------------------------------------------------
// What a generated file declares: for every type (by its path), its fields and the message types
// each of them mentions.

#[derive(Default, Debug, PartialEq)]
struct Surface {
    modules: BTreeSet<String>,
    types: BTreeMap<String, Vec<(String, Vec<String>)>>,
    twice: Vec<String>,
}

fn indent(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}

// The paths of message types in the text of a type.
fn mentioned(t: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in t.chars().chain([' ']) {
        if c.is_alphanumeric() || c == '_' || c == ':' || c == '.' || c == '#' {
            cur.push(c);
        } else if !cur.is_empty() {
            let s = std::mem::take(&mut cur);
            if s.ends_with("In") || s.ends_with("Out") {
                v.push(s);
            }
        }
    }
    v
}

fn resolve(module: &[String], path: &str) -> String {
    let mut m = module.to_vec();
    let parts: Vec<&str> = path.split("::").filter(|s| !s.is_empty()).collect();
    for p in &parts {
        if *p == "super" {
            m.pop();
        } else {
            m.push((*p).to_owned());
        }
    }
    m.join("::")
}

fn rust_surface(text: &str) -> Surface {
    let mut s = Surface::default();
    let mut mods: Vec<(usize, String)> = vec![];
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let n = indent(l);
        let t = l.trim();
        i += 1;
        if let Some(m) = t.strip_prefix("pub mod ").and_then(|x| x.strip_suffix(" {")) {
            mods.push((n, m.to_owned()));
            s.modules.insert(mods.iter().map(|m| m.1.clone()).collect::<Vec<_>>().join("::"));
        } else if t == "}" && mods.last().is_some_and(|m| m.0 == n) {
            mods.pop();
        } else if mods.is_empty() {
            continue;
        } else if let Some(rest) = t.strip_prefix("pub struct ").or_else(|| t.strip_prefix("pub enum ")) {
            let name = rest.trim_end_matches(" {").to_owned();
            let path: Vec<String> = mods.iter().map(|m| m.1.clone()).collect();
            let mut fields = vec![];
            while i < lines.len() && !(indent(lines[i]) == n && lines[i].trim().starts_with('}')) {
                let f = lines[i].trim().trim_end_matches(',');
                i += 1;
                let (fname, ty) = if let Some(f) = f.strip_prefix("pub ") {
                    f.split_once(": ").unwrap_or((f, ""))
                } else {
                    f.split_once('(').unwrap_or((f, ""))
                };
                fields.push((fname.to_owned(), mentioned(ty).iter().map(|p| resolve(&path, p)).collect()));
            }
            if name.ends_with("Atlas") {
                continue;
            }
            let full = path.join("::") + "::" + &name;
            if s.types.insert(full.clone(), fields).is_some() {
                s.twice.push(full);
            }
        }
    }
    s
}

fn ts_surface(text: &str) -> Surface {
    let mut s = Surface::default();
    let mut mods: Vec<(usize, String)> = vec![];
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let n = indent(l);
        let t = l.trim();
        i += 1;
        if let Some(m) = t.strip_prefix("export namespace ").and_then(|x| x.strip_suffix(" {")) {
            mods.push((n, m.to_owned()));
            let full = mods.iter().map(|m| m.1.clone()).collect::<Vec<_>>().join(".");
            s.modules.insert(full);
        } else if t == "}" && mods.last().is_some_and(|m| m.0 == n) {
            mods.pop();
        } else if mods.is_empty() {
            continue;
        } else if let Some(rest) = t.strip_prefix("export type ") {
            let name = rest.split(" =").next().unwrap_or("").to_owned();
            let mut fields = vec![];
            if !rest.ends_with(';') {
                while i < lines.len() {
                    let f = lines[i].trim();
                    i += 1;
                    if f == "};" || f == "}" {
                        break;
                    }
                    if let Some(u) = f.strip_prefix("| {") {
                        // One of the alternatives of a choice.
                        let body = u.trim_end_matches(';').trim_end().trim_end_matches('}').trim();
                        let mut tag = None;
                        let mut key = None;
                        for p in body.split(';') {
                            let (k, v) = p.split_once(':').unwrap_or((p, ""));
                            let (k, v) = (k.trim(), v.trim());
                            match k {
                                "$field" => tag = Some(v.trim_matches('\'').to_owned()),
                                "$fallback" => {}
                                _ => key = Some((k.trim_end_matches('?').to_owned(), mentioned(v))),
                            }
                        }
                        if let Some((k, m)) = key {
                            let k = match tag {
                                Some(t) if t != k => format!("{k} but {t}"),
                                _ => k,
                            };
                            fields.push((k, m));
                        }
                    } else {
                        let (k, v) = f.split_once(':').unwrap_or((f, ""));
                        fields.push((k.trim().trim_end_matches('?').to_owned(), mentioned(v)));
                    }
                    if f.ends_with("};") {
                        break;
                    }
                }
            }
            if name.ends_with("Atlas") {
                continue;
            }
            let full = mods.iter().map(|m| m.1.clone()).collect::<Vec<_>>().join(".") + "." + &name;
            if s.types.insert(full.clone(), fields).is_some() {
                s.twice.push(full);
            }
        }
    }
    s
}

// What the names of a program should become.
fn expected(p: &Program, ts: bool) -> Surface {
    let mut s = Surface::default();
    let sep = if ts { "." } else { "::" };
    let ns = |fi: usize| -> Vec<String> {
        p.files[fi].ns().iter().map(|c| if ts { ts_ns(c) } else { rust_field(c) }).collect()
    };
    for (fi, f) in p.files.iter().enumerate() {
        let at = ns(fi);
        for k in 1..=at.len() {
            s.modules.insert(at[..k].join(sep));
        }
        for d in &f.decls {
            if ts {
                s.modules.insert(format!("{}.{}", at.join("."), ts_ns(&d.name)));
            }
            for dir in ["In", "Out"] {
                let fields = d
                    .fields
                    .iter()
                    .map(|x| {
                        let n = match (ts, d.kind) {
                            (true, _) => ts_field(&x.name),
                            (false, Kind::Struct) => rust_field(&x.name),
                            (false, Kind::Choice) => rust_variant(&x.name),
                        };
                        let mut m = vec![];
                        if let Some(r) = model::ty_ref(&x.ty) {
                            m.push(format!("{}{sep}{}{dir}", ns(r.0).join(sep), pascal(&p.decl(r).name)));
                        }
                        if d.kind == Kind::Choice && !ts && (x.rule == Rule::Opt || (x.rule == Rule::Asym && dir == "Out")) {
                            m.push(format!("{}{sep}{}{dir}", at.join(sep), pascal(&d.name)));
                        }
                        (n, m)
                    })
                    .collect();
                s.types.insert(format!("{}{sep}{}{dir}", at.join(sep), pascal(&d.name)), fields);
            }
        }
    }
    s
}

// The first difference, if any. References in TypeScript may leave out outer namespaces.
fn differ(want: &Surface, got: &Surface, ts: bool) -> Option<String> {
    if let Some(t) = got.twice.first() {
        return Some(format!("{t} is declared twice"));
    }
    if want.modules != got.modules {
        let a: Vec<&String> = want.modules.difference(&got.modules).collect();
        let b: Vec<&String> = got.modules.difference(&want.modules).collect();
        return Some(format!("modules missing: {a:?}, unexpected: {b:?}"));
    }
    let a: Vec<&String> = want.types.keys().filter(|k| !got.types.contains_key(*k)).collect();
    let b: Vec<&String> = got.types.keys().filter(|k| !want.types.contains_key(*k)).collect();
    if !a.is_empty() || !b.is_empty() {
        return Some(format!("types missing: {a:?}, unexpected: {b:?}"));
    }
    for (k, w) in &want.types {
        let mut w = w.clone();
        let mut g = got.types[k].clone();
        w.sort();
        g.sort();
        let names = |v: &[(String, Vec<String>)]| -> Vec<String> { v.iter().map(|x| x.0.clone()).collect() };
        if names(&w) != names(&g) {
            return Some(format!("fields of {k}: expected {:?}, found {:?}", names(&w), names(&g)));
        }
        if let Some(n) = names(&g).windows(2).find(|x| x[0] == x[1]) {
            return Some(format!("{k} has two fields {}", n[0]));
        }
        for (x, y) in w.iter().zip(&g) {
            let same = if ts {
                x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(a, b)| a == b || a.ends_with(&format!(".{b}")))
            } else {
                x.1 == y.1
            };
            if !same {
                return Some(format!("field {} of {k} should refer to {:?}, but refers to {:?}", x.0, x.1, y.1));
            }
        }
    }
    None
}

fn check_surfaces(p: &Program, rs: &str, ts: &str) -> Option<String> {
    differ(&expected(p, false), &rust_surface(rs), false)
        .map(|e| format!("Rust: {e}"))
        .or_else(|| differ(&expected(p, true), &ts_surface(ts), true).map(|e| format!("TypeScript: {e}")))
}

// ---------------------------------------------------------------------------------------------
// Similar names

const BITS: &[&str] = &[
    "a", "b", "c", "ab", "bc", "x", "foo", "bar", "1", "2", "12", "2b", "x1", "é", "жук", "ñu", "名", "in", "out", "atlas", "as", "self", "type", "if", "u64",
    "bool", "to", "string", "r", "size", "new", "await", "get", "set", "any", "of", "value", "array", "buffer", "deleted", "import", "unit",
];

fn near_base(rng: &mut Rng) -> String {
    if rng.chance(1, 4) {
        let l = rng.pick(&[RUST_KEYWORDS, TS_KEYWORDS, SCHEMA_KEYWORDS, TS_BUILTINS]);
        return (*rng.pick::<&str>(l)).to_owned();
    }
    loop {
        let n = rng.range(1, 3);
        let s = (0..n).map(|_| *rng.pick(BITS)).collect::<Vec<_>>().join(*rng.pick::<&str>(&["_", "_", ""]));
        if s.chars().next().unwrap().is_alphabetic() {
            return s;
        }
    }
}

fn one_to_one(c: char) -> bool {
    let u: Vec<char> = c.to_uppercase().collect();
    let l: Vec<char> = c.to_lowercase().collect();
    u.len() == 1 && l.len() == 1 && u[0].to_lowercase().eq([l[0]]) && l[0].to_uppercase().eq([u[0]])
}

// A name that is, or just is not, the same.
fn near(rng: &mut Rng, a: &str) -> String {
    let mut s = a.to_owned();
    for _ in 0..rng.range(1, 2) {
        let mut c: Vec<char> = s.chars().collect();
        let k = rng.below(c.len());
        match rng.below(9) {
            0..=2 => c = respell(rng, &s).chars().collect(),
            3 => {
                let x = c[k];
                c[k] = if x.is_uppercase() { x.to_lowercase().next().unwrap() } else { x.to_uppercase().next().unwrap() };
            }
            4 => c.insert(k + 1, '_'),
            5 => {
                if let Some(i) = c.iter().position(|x| *x == '_') {
                    c.remove(i);
                }
            }
            6 => c.insert(k + 1, *rng.pick(&['1', '2', 'a', 'A'])),
            7 if c.len() > 1 && k > 0 => {
                c.remove(k);
            }
            _ => c.push('_'),
        }
        s = c.into_iter().collect();
    }
    let ok = s.chars().next().is_some_and(|c| c.is_alphabetic()) && s.chars().all(|c| c == '_' || (c.is_alphanumeric() && one_to_one(c)));
    if ok { s } else { respell(rng, a) }
}

fn name(rng: &mut Rng) -> String {
    let b = near_base(rng);
    if rng.chance(1, 2) { respell(rng, &b) } else { b }
}

// A program whose names are all similar to a few.
fn near_program(rng: &mut Rng) -> Program {
    let cfg = Cfg { comments: false, max_fields: 8, digits: 20, repeat: false, ..Cfg::front() };
    let mut p = gen_program(rng, &cfg);
    no_arrays_of_nothing(&mut p);
    let base: Vec<String> = (0..rng.range(1, 3)).map(|_| name(rng)).collect();
    let draw = |rng: &mut Rng| {
        let b = rng.pick(&base).clone();
        near(rng, &b)
    };
    let spaces: BTreeSet<String> = p.files.iter().flat_map(|f| f.ns()).map(|c| pascal(&c)).collect();
    for f in &mut p.files {
        let mut taken: BTreeSet<String> = f.decls.iter().map(|d| pascal(&d.name)).collect();
        for d in &mut f.decls {
            let n = draw(rng);
            // See the known findings about namespaces.
            if !spaces.contains(&pascal(&n)) && taken.insert(pascal(&n)) {
                d.name = n;
            }
            let mut names: BTreeSet<String> = d.fields.iter().map(|x| pascal(&x.name)).collect();
            for x in &mut d.fields {
                for _ in 0..3 {
                    let n = draw(rng);
                    if names.insert(pascal(&n)) {
                        x.name = n;
                        break;
                    }
                }
            }
        }
        let mut names: BTreeSet<String> = f.imports.iter().map(|i| snake(&i.name())).collect();
        for i in &mut f.imports {
            let n = draw(rng);
            if rng.chance(1, 2) && names.insert(snake(&n)) {
                i.alias = Some(n);
            }
        }
    }
    p
}

// ---------------------------------------------------------------------------------------------

pub fn c20(rep: &Report, typ: &Typical) {
    let nb = rep.n(14_000, 400_000);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C20", bi as u64);
        match bi % 4 {
            0 => whole(rep, typ, &mut rng, bi),
            1 | 2 => pair(rep, typ, &mut rng),
            _ => alias(rep, typ, &mut rng),
        }
    });
    // All short names.
    let letters: &[[char; 4]] = &[['a', 'b', 'A', 'B'], ['a', 's', 'A', 'S'], ['é', 'ж', 'É', 'Ж'], ['i', 'f', 'I', 'F'], ['d', 'o', 'D', 'O']];
    let jobs: Vec<(usize, usize)> = if rep.thorough() {
        (0..letters.len()).flat_map(|l| (0..16).map(move |j| (l, j))).collect()
    } else {
        let l = rep.seed as usize % letters.len();
        (0..8).map(|j| (l, j)).collect()
    };
    par_until(jobs.len(), &|| rep.stop(), |k| {
        let mut rng = Rng::case(rep.seed, "C20-short", k as u64);
        let (l, j) = jobs[k];
        short(rep, typ, &mut rng, &letters[l], if rep.thorough() { 5 } else { 4 }, j);
    });
    // Names side by side, compiled.
    let nb = rep.n(32, 500);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C20-compile", bi as u64);
        compiled(rep, typ, &mut rng);
    });
    rep.require("programs whose generated names were all compared", 2000);
    rep.require("pairs accepted", 1500);
    rep.require("pairs rejected", 1000);
    rep.require("aliases recognised as redundant", 500);
    rep.require("aliases kept", 500);
    rep.require("references by short names resolved", 500);
    rep.require("outputs compiled in both languages", 40);
}

fn texts(rng: &mut Rng, p: &Program, st: &Style, dir: &Path) -> Vec<(String, String)> {
    let v = model::write_program(rng, p, st, dir);
    p.files.iter().map(|f| f.path()).zip(v).collect()
}

fn show(t: &[(String, String)]) -> String {
    t.iter().map(|(n, x)| format!("--- {n}\n{}\n", clip(x))).collect()
}

fn attach(t: &[(String, String)]) -> Vec<(String, Vec<u8>)> {
    t.iter().map(|(a, b)| (a.clone(), b.clone().into_bytes())).collect()
}

fn outputs(typ: &Typical, dir: &Path, main: &str) -> (crate::util::Out, String, String) {
    let o = typ.generate(dir, main, Some("o.rs"), Some("o.ts"));
    let r = |n: &str| fs::read_to_string(dir.join(n)).unwrap_or_default();
    let (a, b) = (r("o.rs"), r("o.ts"));
    (o, a, b)
}

// A program with every occurrence of every name spelled at random.
fn whole(rep: &Report, typ: &Typical, rng: &mut Rng, bi: usize) {
    let p = if rng.chance(1, 3) {
        let cfg = Cfg { comments: false, torture: *rng.pick(&[10, 50, 90]), unicode: 20, digits: 20, max_decls: 10, repeat: false, ..Cfg::front() };
        gen_program(rng, &cfg)
    } else {
        near_program(rng)
    };
    let d = Scratch::new("C20");
    let st = Style { wild: true, comments: false, crlf: false, refs: true };
    let t = texts(rng, &p, &st, &d.path);
    rep.eval();
    rep.distinct(show(&t).as_bytes());
    let (o, rs, ts) = outputs(typ, &d.path, &p.files[0].path());
    if !o.ok() {
        rep.violation("respelled names are rejected", format!("{}\n{}", o.describe(), show(&t)), attach(&t));
        return;
    }
    if let Some(e) = check_surfaces(&p, &rs, &ts) {
        rep.violation("generated names are not as documented", format!("{e}\n{}", show(&t)), attach(&t));
        return;
    }
    rep.count("programs whose generated names were all compared", 1);
    rep.count("declarations compared", p.all().len() as u64);
    rep.count("fields compared", p.all().iter().map(|r| p.decl(*r).fields.len() as u64).sum());
    rep.sample(bi as u64 / 4, || show(&t));
    // Another spelling gives the same names in the formatter, too: after formatting, still the same.
    if rng.chance(1, 3) {
        let f = typ.format(&d.path, &p.files[0].path(), false);
        let (o, rs, ts) = outputs(typ, &d.path, &p.files[0].path());
        if !f.ok() || !o.ok() {
            rep.violation("formatted names are rejected", format!("{}\n{}", o.describe(), show(&t)), attach(&t));
        } else if let Some(e) = check_surfaces(&p, &rs, &ts) {
            rep.violation("formatting changes names", format!("{e}\n{}", show(&t)), attach(&t));
        }
        rep.count("programs whose names were compared after formatting", 1);
    }
}

fn field(name: &str, ty: Ty, index: u64, rule: Rule) -> Field {
    Field { name: name.into(), rule, ty, index, comment: vec![] }
}

fn decl(kind: Kind, name: &str, fields: Vec<Field>) -> Decl {
    Decl { kind, name: name.into(), fields, deleted: BTreeSet::new(), comment: vec![] }
}

fn file(path: &str, imports: Vec<Import>, decls: Vec<Decl>) -> File {
    File { comps: path.split('/').map(str::to_owned).collect(), imports, decls, comment: vec![] }
}

// Two names side by side.
fn pair(rep: &Report, typ: &Typical, rng: &mut Rng) {
    let a = name(rng);
    let b = near(rng, &a);
    let (a, b) = if rng.chance(1, 2) { (a, b) } else { (b, a) };
    let same = pascal(&a) == pascal(&b);
    let kind = *rng.pick(&[Kind::Struct, Kind::Choice]);
    let rule = || Rule::Req;
    let what = *rng.pick(&["declarations", "fields", "imports", "files", "directories"]);
    let (p, conflict) = match what {
        "declarations" => {
            let k2 = *rng.pick(&[Kind::Struct, Kind::Choice]);
            let other = |n: usize| decl(if n == 0 { kind } else { k2 }, if n == 0 { &a } else { &b }, vec![field("x", Ty::U64, 0, rule())]);
            let mut ds = vec![other(0), other(1)];
            if rng.chance(1, 2) {
                ds.insert(1, decl(Kind::Struct, "zz", vec![field("f", Ty::Ref(0, 0), 0, rule()), field("g", Ty::Ref(0, 2), 1, rule())]));
            }
            (Program { files: vec![file("main.t", vec![], ds)] }, same)
        }
        "fields" => {
            let mut fs = vec![field(&a, Ty::U64, 0, rule()), field(&b, Ty::Bool, 1, *rng.pick(&[Rule::Req, Rule::Opt, Rule::Asym]))];
            if rng.chance(1, 2) {
                fs.insert(1, field("zz", Ty::Unit, 2, rule()));
            }
            (Program { files: vec![file("main.t", vec![], vec![decl(kind, "message", fs)])] }, same)
        }
        "imports" => {
            let im = |t: usize, n: &str, p: &str| Import { target: t, alias: Some(n.into()), path: p.into() };
            let main = file(
                "main.t",
                vec![im(1, &a, "p.t"), im(2, &b, "q.t")],
                vec![decl(kind, "message", vec![field("x", Ty::Ref(1, 0), 0, rule()), field("y", Ty::Ref(2, 0), 1, rule())])],
            );
            let t = |n| decl(Kind::Struct, n, vec![]);
            let p = Program { files: vec![main, file("p.t", vec![], vec![t("same")]), file("q.t", vec![], vec![t("same")])] };
            (p, snake(&a) == snake(&b))
        }
        _ => {
            let hyphen = |rng: &mut Rng, s: &str| if rng.chance(1, 3) { s.replace('_', "-") } else { s.to_owned() };
            let (a, b) = (hyphen(rng, &a), hyphen(rng, &b));
            let (x, y, conflict) = if what == "files" {
                let dir = *rng.pick(&["", "d/", "d/e_f/"]);
                (format!("{dir}{a}.t"), format!("{dir}{b}.{}", rng.pick(&["t", "t", "u"])), same)
            } else {
                let l = *rng.pick(&["l.t", "l.t", "m.t"]);
                (format!("{a}/l.t"), format!("{b}/{l}"), same && l == "l.t")
            };
            if x == y || x == "main.t" || y == "main.t" {
                return;
            }
            let im = |t: usize, n: &str, p: &str| Import { target: t, alias: Some(n.into()), path: p.into() };
            let main = file(
                "main.t",
                vec![im(1, "p", &x), im(2, "q", &y)],
                vec![decl(kind, "message", vec![field("x", Ty::Ref(1, 0), 0, rule()), field("y", Ty::Ref(2, 0), 1, rule())])],
            );
            let t = |n| decl(Kind::Struct, n, vec![]);
            let main_too = [&x, &y].iter().any(|f| ns_key(f) == ns_key("main.t"));
            let p = Program { files: vec![main, file(&x, vec![], vec![t("one")]), file(&y, vec![], vec![t("two")])] };
            (p, conflict || main_too)
        }
    };
    let d = Scratch::new("C20");
    let st = Style { wild: rng.chance(1, 2) && what != "imports", comments: false, crlf: false, refs: false };
    let t = texts(rng, &p, &st, &d.path);
    rep.eval();
    rep.distinct(show(&t).as_bytes());
    let (o, rs, ts) = outputs(typ, &d.path, "main.t");
    let say = |w: &str, e: String| rep.violation(w, format!("{what} {a} and {b}\n{e}\n{}", show(&t)), attach(&t));
    if crashed(&o) {
        return say("the compiler crashes", o.describe());
    }
    if o.ok() == conflict {
        return say(if conflict { "names that are the same are accepted" } else { "names that differ are rejected" }, o.describe());
    }
    rep.count(&format!("pairs of {what}"), 1);
    if conflict {
        rep.count("pairs rejected", 1);
    } else {
        rep.count("pairs accepted", 1);
        if let Some(e) = check_surfaces(&p, &rs, &ts) {
            return say("generated names are not as documented, or collide", e);
        }
    }
}

// What the formatter makes of an alias.
fn alias(rep: &Report, typ: &Typical, rng: &mut Rng) {
    let stem = {
        let n = name(rng);
        match rng.below(4) {
            0 => n.replace('_', "-"),
            1 => snake(&n),
            _ => n,
        }
    };
    let ident = stem.replace('-', "_");
    let alias = near(rng, &ident);
    if ns_key(&format!("{stem}.t")) == ns_key("main.t") {
        return;
    }
    let dir = *rng.pick(&["", "", "d/", "d/../"]);
    let used = respell(rng, &alias);
    let ext = *rng.pick(&[".t", ".t", ".typical", ""]);
    let text = format!("import '{dir}{stem}{ext}' as {}\n\nstruct M {{\n    x: {}.T = 0\n}}\n", sigil(&alias), sigil(&used));
    let d = Scratch::new("C20");
    fs::create_dir_all(d.path.join("d")).unwrap();
    fs::write(d.path.join("main.t"), &text).unwrap();
    fs::write(d.path.join(format!("{dir}{stem}{ext}")), "struct T {\n}\n").unwrap();
    rep.eval();
    rep.distinct(text.as_bytes());
    let f = typ.format(&d.path, "main.t", false);
    let after = fs::read_to_string(d.path.join("main.t")).unwrap_or_default();
    let bad = |w: &str| rep.violation(w, format!("{}\n---- before\n{text}\n---- after\n{after}", f.describe()), vec![("main.t".into(), text.clone().into_bytes())]);
    if !f.ok() {
        return bad("formatting fails");
    }
    let redundant = words(&alias).iter().map(|w| w.to_lowercase()).eq(words(&stem).iter().map(|w| w.to_lowercase()));
    let parse::Verdict::Ok(q) = parse::read(&after) else { return bad("the formatted text cannot be read") };
    match q.imports.first().map(|i| i.alias.clone()) {
        None => return bad("the import is gone"),
        Some(None) if !redundant => return bad("an alias that matters is dropped"),
        Some(Some(_)) if redundant => return bad("an alias equal to the inferred name is not recognised"),
        Some(Some(b)) if snake(&b) != snake(&alias) => return bad("formatting changes an alias"),
        _ => {}
    }
    rep.count(if redundant { "aliases recognised as redundant" } else { "aliases kept" }, 1);
    let (o, _, _) = outputs(typ, &d.path, "main.t");
    if !o.ok() {
        bad("an alias spelled otherwise is not found");
    }
}

// All names of up to `len` characters from two letters, a digit and the underscore.
fn short(rep: &Report, typ: &Typical, rng: &mut Rng, letters: &[char; 4], len: usize, job: usize) {
    let mut all: Vec<String> = letters.iter().map(|c| c.to_string()).collect();
    let mut last = all.clone();
    for _ in 1..len {
        let mut next = vec![];
        for s in &last {
            for c in letters.iter().chain(&['1', '_']) {
                next.push(format!("{s}{c}"));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    // Half of the names by Pascal case are declared, each in some spelling.
    let mut classes: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for n in &all {
        classes.entry(pascal(n)).or_default().push(n.clone());
    }
    let mut keys: Vec<String> = classes.keys().cloned().collect();
    rng.shuffle(&mut keys);
    keys.truncate(keys.len() / 2);
    let chosen: BTreeMap<String, String> = keys.iter().map(|k| (k.clone(), rng.pick(&classes[k]).clone())).collect();
    let mut s = String::new();
    for n in chosen.values() {
        s += &format!("{} {} {{\n}}\n\n", rng.pick(&["struct", "choice"]), sigil(n));
    }
    // References by every spelling, resolved or not.
    let mut want: Vec<String> = vec![];
    let mut unknown = 0;
    let wrong = job % 4 == 3;
    let mut body = String::new();
    let mut mixed = all.clone();
    rng.shuffle(&mut mixed);
    for n in &mixed {
        let hit = chosen.get(&pascal(n)).is_some_and(|c| snake(c) == snake(n));
        if !hit && !(wrong && unknown < 50) {
            continue;
        }
        if !hit {
            unknown += 1;
        }
        body += &format!("    f{}q: {} = {}\n", want.len(), sigil(n), want.len());
        want.push(pascal(n));
    }
    s += &format!("struct zz_refs {{\n{body}}}\n");
    // The same names as fields.
    let mut names: Vec<String> = chosen.values().cloned().collect();
    rng.shuffle(&mut names);
    for kind in ["struct", "choice"] {
        s += &format!("\n{kind} zz_{kind}_fields {{\n");
        for (i, n) in names.iter().enumerate() {
            s += &format!("    {}: U64 = {i}\n", sigil(n));
        }
        s += "}\n";
    }
    let d = Scratch::new("C20");
    fs::write(d.path.join("main.t"), &s).unwrap();
    rep.eval();
    rep.distinct(s.as_bytes());
    let (o, rs, ts) = outputs(typ, &d.path, "main.t");
    let bad = |w: &str, e: String| rep.violation(w, format!("{e}\n{}", clip(&s)), vec![("main.t".into(), s.clone().into_bytes())]);
    if unknown > 0 {
        let n = o.err().matches("[Error]").count();
        if o.code != Some(1) || n != unknown {
            return bad("references to names that differ resolve", format!("{n} errors instead of {unknown}\n{}", o.describe()));
        }
        rep.count("references by short names that differ rejected", unknown as u64);
        return;
    }
    if !o.ok() {
        return bad("references by other spellings do not resolve", o.describe());
    }
    let r = rust_surface(&rs);
    let t = ts_surface(&ts);
    for (i, w) in want.iter().enumerate() {
        for (sf, f, to, at) in [
            (&r, format!("f{i}q"), format!("main::{w}In"), "main::ZzRefsIn"),
            (&t, format!("f{i}Q"), format!("Main.{w}In"), "Main.ZzRefsIn"),
        ] {
            let f = if sf.types.contains_key("Main.ZzRefsIn") { ts_field(&format!("f{i}q")) } else { f };
            let got = sf.types.get(at).and_then(|v| v.get(i)).cloned();
            if got.as_ref().is_none_or(|g| g.0 != f || g.1 != [to.clone()]) {
                return bad("a reference leads to another type", format!("field {f} should be {to}: {got:?}"));
            }
        }
    }
    rep.count("references by short names resolved", want.len() as u64);
    for (sf, at, f) in [
        (&r, "main::ZzStructFieldsOut", rust_field as fn(&str) -> String),
        (&r, "main::ZzChoiceFieldsOut", rust_variant),
        (&t, "Main.ZzStructFieldsOut", ts_field),
        (&t, "Main.ZzChoiceFieldsOut", ts_field),
    ] {
        let got: Vec<String> = sf.types.get(at).map(|v| v.iter().map(|x| x.0.clone()).collect()).unwrap_or_default();
        let want: Vec<String> = names.iter().map(|n| f(n)).collect();
        if got != want {
            let k = got.iter().zip(&want).position(|(a, b)| a != b);
            return bad("generated names of fields are not as documented", format!("{at}: {:?}", k.map(|k| (&got[k], &want[k]))));
        }
        if want.iter().collect::<BTreeSet<_>>().len() != want.len() {
            return bad("generated names of fields collide", at.to_owned());
        }
        rep.count("short names of fields compared", want.len() as u64);
    }
    let types: BTreeSet<&String> = r.types.keys().collect();
    for n in chosen.values() {
        if !types.contains(&format!("main::{}In", pascal(n))) {
            return bad("a declaration has another name in generated code", n.clone());
        }
    }
}

fn compiled(rep: &Report, typ: &Typical, rng: &mut Rng) {
    let dir = Scratch::new("C20");
    let mut units: Vec<Unit> = vec![];
    for _ in 0..4 {
        let p = near_program(rng);
        let st = Style { wild: true, comments: false, crlf: false, refs: true };
        let i = units.len();
        if let Some(u) = produce(rep, typ, rng, p, &st, &dir.path, i) {
            rep.eval();
            units.push(u);
        }
    }
    let all: Vec<(usize, &Unit)> = units.iter().enumerate().collect();
    if all.is_empty() {
        return;
    }
    let how = How { edition: "2021", flavour: Flavour::Debug, include: false };
    let r = compile_rust(&dir.path, &all, &how);
    let t = check_ts(&dir.path, &all, "ES2021", "old");
    for (l, x) in [("Rust", &r), ("TypeScript", &t)] {
        if let Err(e) = x {
            let s: String = units.iter().map(|u| u.show()).collect();
            rep.violation(
                "names that are accepted side by side do not compile",
                format!("{l}\n{}\n{}", clip(e), clip(&s)),
                units.iter().enumerate().flat_map(|(i, u)| u.files().into_iter().map(move |(n, b)| (format!("{i}/{n}"), b))).collect(),
            );
            return;
        }
    }
    rep.count("outputs compiled in both languages", all.len() as u64);
}

