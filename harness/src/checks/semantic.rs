// C16 and C17: which schemas are rejected, and what the reports say.
use super::runtime::clip;
use crate::{
    model::{self, gen_program, print_file, Cfg, Kind, Rule, Style, Ty},
    names::{pascal, respell, snake},
    parse::{self, PDecl, PField, PFile, PImport, Span, Verdict, PT},
    raw,
    report::Report,
    typical::{crashed, Typical},
    util::{par_until, run_fast, tree, Rng, Scratch},
    validate::{analyze, contents, listing, ns_key, read_report, without_colors, Entry, Outcome, Reported},
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
};

const NOWHERE: Span = Span { start: 0, end: 0 };

const POOL: &[&str] = &[
    "foo", "Foo", "bar", "fooBar", "foo_bar", "FooBar", "foobar", "foo1", "foo_1", "Foo1", "bar_2", "x", "X", "struct",
    "String", "baz", "é", "É", "имя", "a", "b", "c", "d", "u64", "x_y_z", "xYZ", "XyZ", "qux", "deleted", "main", "e_",
];

const PATHS: &[&str] = &["a.t", "b.t", "d/a.t", "d/e.t", "d/foo-bar.t", "d/ü.t", "c.typical", "foo_bar.t", "d/f/g.t", "noext"];

pub type Prog = BTreeMap<String, PFile>;

fn comps(p: &str) -> Vec<String> {
    p.split('/').map(str::to_owned).collect()
}

pub fn rel(from: &str, to: &str) -> String {
    model::rel_path(&comps(from), &comps(to))
}

pub fn import(path: String, alias: Option<String>) -> PImport {
    let name = match &alias {
        Some(a) => a.clone(),
        None => model::stem(path.rsplit('/').next().unwrap_or("")),
    };
    PImport { path, alias, name, at: NOWHERE }
}

fn base(rng: &mut Rng) -> Ty {
    rng.pick(&[Ty::Unit, Ty::F64, Ty::U64, Ty::S64, Ty::Bool, Ty::Bytes, Ty::Str]).clone()
}

fn wrap(rng: &mut Rng, mut t: PT) -> PT {
    while rng.chance(1, 4) {
        t = PT::Arr(Box::new(raw::ty(t)));
    }
    t
}

// A program from tiny pools of names, valid by accident.
fn scratch(rng: &mut Rng) -> Prog {
    let mut names: Vec<&str> = PATHS.to_vec();
    rng.shuffle(&mut names);
    let k = rng.below(4);
    let mut files: Vec<String> = vec!["main.t".into()];
    files.extend(names[..k].iter().map(|s| (*s).to_owned()));
    let mut pool: Vec<&str> = POOL.to_vec();
    rng.shuffle(&mut pool);
    let sloppy = *rng.pick(&[0, 0, 0, 2, 8, 20]);
    let mut p = Prog::new();
    let mut known: Vec<(String, String)> = vec![];
    for f in files.iter().rev() {
        let mut q = PFile::default();
        for g in &files {
            if rng.chance(1, 2) && (g != f || rng.chance(1, 8)) {
                let alias = if rng.chance(1, 2) { Some((*rng.pick(&pool)).to_owned()) } else { None };
                let im = import(rel(f, g), alias);
                if rng.chance(sloppy, 100) || !q.imports.iter().any(|i| snake(&i.name) == snake(&im.name)) {
                    q.imports.push(im);
                }
            }
        }
        let n = rng.below(5);
        for _ in 0..n {
            let mut d = PDecl {
                kind: if rng.chance(1, 2) { Kind::Struct } else { Kind::Choice },
                name: (*rng.pick(&pool)).to_owned(),
                fields: vec![],
                deleted: vec![],
                comment: vec![],
                at: NOWHERE,
            };
            if !rng.chance(sloppy, 100) && q.decls.iter().any(|e| pascal(&e.name) == pascal(&d.name)) {
                continue;
            }
            let m = rng.below(5);
            let del = rng.below(3);
            let mut idx: Vec<u64> = (0..(m + del) as u64).collect();
            rng.shuffle(&mut idx);
            for j in 0..m {
                let name = (*rng.pick(&pool)).to_owned();
                if !rng.chance(sloppy, 100) && d.fields.iter().any(|e: &PField| pascal(&e.name) == pascal(&name)) {
                    d.deleted.push((idx[j], NOWHERE));
                    continue;
                }
                let t = if rng.chance(1, 2) && !known.is_empty() {
                    let (g, n) = rng.pick(&known).clone();
                    let n = if rng.chance(1, 3) && sloppy > 0 { n } else { respell(rng, &n) };
                    let im: Vec<String> = q.imports.iter().filter(|i| i.path == rel(f, &g)).map(|i| i.name.clone()).collect();
                    if g == *f && !rng.chance(1, 4) {
                        PT::Ref(None, n)
                    } else if im.is_empty() {
                        if rng.chance(sloppy, 100) { PT::Ref(None, n) } else { PT::Base(base(rng)) }
                    } else {
                        let i = rng.pick(&im).clone();
                        PT::Ref(Some(respell(rng, &i)), n)
                    }
                } else {
                    PT::Base(base(rng))
                };
                let t = wrap(rng, t);
                let index = if rng.chance(sloppy, 100) { rng.below(6) as u64 } else { idx[j] };
                d.fields.push(PField {
                    name,
                    rule: *rng.pick(&[Rule::Req, Rule::Asym, Rule::Opt]),
                    ty: raw::ty(t),
                    index,
                    comment: if rng.chance(1, 8) { vec![vec!["note".into()]] } else { vec![] },
                    at: NOWHERE,
                });
            }
            for j in m..m + del {
                d.deleted.push((idx[j], NOWHERE));
            }
            known.push((f.clone(), d.name.clone()));
            q.decls.push(d);
        }
        p.insert(f.clone(), q);
    }
    p
}

// A valid program.
fn valid(rng: &mut Rng) -> (Prog, String) {
    loop {
        let cfg = Cfg { max_files: 4, max_decls: 7, max_fields: 5, dotted: true, ..Cfg::front() };
        let g = gen_program(rng, &cfg);
        let mut p = Prog::new();
        for fi in 0..g.files.len() {
            let st = Style { wild: true, comments: rng.chance(1, 2), crlf: false, refs: true };
            let t = print_file(rng, &g, fi, &st);
            if let Verdict::Ok(f) = parse::read(&t) {
                p.insert(g.files[fi].path(), f);
            }
        }
        if p.len() == g.files.len() {
            let main = g.files[0].path();
            return (p, main);
        }
    }
}

fn respelled(rng: &mut Rng, s: &str) -> String {
    match rng.below(4) {
        0 => s.to_owned(),
        1 if s.chars().last().is_some_and(|c| c.is_ascii_digit()) => {
            // Same in generated code, though not the same words.
            let k = s.find(|c: char| c.is_ascii_digit()).unwrap();
            if k > 0 && !s[..k].ends_with('_') { format!("{}_{}", &s[..k], &s[k..]) } else { s.to_owned() }
        }
        _ => respell(rng, s),
    }
}

fn all_decls(p: &Prog) -> Vec<(String, usize)> {
    p.iter().flat_map(|(f, q)| (0..q.decls.len()).map(move |d| (f.clone(), d))).collect()
}

fn field(rng: &mut Rng, d: &PDecl, ty: PT) -> PField {
    let used: BTreeSet<u64> = d.fields.iter().map(|x| x.index).chain(d.deleted.iter().map(|x| x.0)).collect();
    let index = (0..).find(|i| !used.contains(i)).unwrap();
    let name = loop {
        let n = format!("{}_{}", rng.pick(&["alpha", "beta", "gamma"]), rng.pick(&["one", "two", "three", "four", "five"]));
        if !d.fields.iter().any(|x| pascal(&x.name) == pascal(&n)) {
            break n;
        }
    };
    PField { name, rule: *rng.pick(&[Rule::Req, Rule::Asym, Rule::Opt]), ty: raw::ty(ty), index, comment: vec![], at: NOWHERE }
}

// How file `f` can refer to a declaration of file `g`; an import is added if necessary.
fn reference(rng: &mut Rng, p: &mut Prog, f: &str, g: &str, name: &str) -> PT {
    let n = respell(rng, name);
    if f == g && !rng.chance(1, 6) {
        return PT::Ref(None, n);
    }
    let path = rel(f, g);
    let q = p.get_mut(f).unwrap();
    if let Some(i) = q.imports.iter().find(|i| i.path == path) {
        return PT::Ref(Some(i.name.clone()), n);
    }
    let mut k = 0;
    let alias = loop {
        let a = format!("via{}", ["_x", "_y", "_z", "_w", "_v", "_u", "_t"][k % 7].repeat(1 + k / 7));
        if !q.imports.iter().any(|i| snake(&i.name) == snake(&a)) {
            break a;
        }
        k += 1;
    };
    q.imports.push(import(path, Some(alias.clone())));
    PT::Ref(Some(alias), n)
}

// Some files once more, with the same declarations, in other directories.
fn twins(rng: &mut Rng, p: &mut Prog, main: &str) {
    let files: Vec<String> = p.keys().cloned().collect();
    let n = rng.range(1, 3);
    let mut copies: Vec<String> = vec![];
    for k in 0..n {
        let dir = format!("{}twin_{}", rng.pick(&["", "", "d/", "foo/bar/"]), ["one", "two", "three"][k]);
        for f in &files {
            if f == main && rng.chance(1, 2) {
                continue;
            }
            let mut q = p[f].clone();
            let g = format!("{dir}/{f}");
            // The copies import each other, or the originals.
            for i in &mut q.imports {
                if let Some(t) = files.iter().find(|t| rel(f, t) == i.path) {
                    if t == main || rng.chance(1, 3) {
                        i.path = rel(&g, t);
                    }
                    if i.alias.is_none() {
                        i.alias = Some(i.name.clone());
                    }
                }
            }
            p.insert(g.clone(), q);
            copies.push(g);
        }
        // What was not copied is imported from where it is.
        for f in &files {
            let g = format!("{dir}/{f}");
            let Some(mut q) = p.get(&g).cloned() else { continue };
            for i in &mut q.imports {
                if let Some(t) = files.iter().find(|t| rel(f, t) == i.path) {
                    if !p.contains_key(&format!("{dir}/{t}")) {
                        i.path = rel(&g, t);
                    }
                }
            }
            p.insert(g, q);
        }
    }
    let all: Vec<String> = p.keys().cloned().collect();
    for (k, g) in copies.iter().enumerate() {
        let from = if rng.chance(2, 3) { main.to_owned() } else { rng.pick(&all).clone() };
        let name = format!("twin_{}", "i".repeat(k + 1));
        let q = p.get_mut(&from).unwrap();
        if q.imports.iter().any(|i| snake(&i.name) == name) {
            continue;
        }
        let at = rng.below(q.imports.len() + 1);
        q.imports.insert(at, import(rel(&from, g), Some(name)));
    }
}

// One change, usually for the worse. Returns its name.
fn change(rng: &mut Rng, p: &mut Prog, extra: &mut BTreeMap<String, Vec<u8>>, main: &str, root: &str) -> &'static str {
    let decls = all_decls(p);
    let files: Vec<String> = p.keys().cloned().collect();
    let f = rng.pick(&files).clone();
    let what = rng.below(26);
    if decls.is_empty() && what < 14 {
        return "nothing";
    }
    let pick = |rng: &mut Rng| rng.pick(&decls).clone();
    match what {
        0 => {
            let (f, d) = pick(rng);
            let mut x = p[&f].decls[d].clone();
            x.name = respelled(rng, &x.name);
            if rng.chance(1, 2) {
                x.fields.clear();
                x.deleted.clear();
            }
            let q = p.get_mut(&f).unwrap();
            let k = rng.below(q.decls.len() + 1);
            q.decls.insert(k, x);
            "duplicate declaration"
        }
        1 => {
            let (f, d) = pick(rng);
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            if d.fields.is_empty() {
                return "nothing";
            }
            let mut x = rng.pick(&d.fields).clone();
            x.name = respelled(rng, &x.name);
            let y = field(rng, d, PT::Base(Ty::U64));
            x.index = y.index;
            let k = rng.below(d.fields.len() + 1);
            d.fields.insert(k, x);
            "duplicate field"
        }
        2 => {
            let (f, d) = pick(rng);
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            if d.fields.is_empty() {
                return "nothing";
            }
            let mut y = field(rng, d, PT::Base(Ty::U64));
            y.index = rng.pick(&d.fields).index;
            let k = rng.below(d.fields.len() + 1);
            d.fields.insert(k, y);
            "duplicate index"
        }
        3 => {
            let (f, d) = pick(rng);
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            if d.fields.is_empty() {
                return "nothing";
            }
            let i = rng.pick(&d.fields).index;
            let k = rng.below(d.deleted.len() + 1);
            d.deleted.insert(k, (i, NOWHERE));
            "deleted index"
        }
        4 => {
            let (f, d) = pick(rng);
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            let mut y = field(rng, d, PT::Base(Ty::U64));
            y.index += rng.range(1, 3) as u64;
            d.fields.push(y);
            "gap"
        }
        5 => {
            let (f, d) = pick(rng);
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            if !d.deleted.is_empty() && rng.chance(1, 2) {
                let k = rng.below(d.deleted.len());
                d.deleted.remove(k);
            } else if !d.fields.is_empty() {
                let k = rng.below(d.fields.len());
                d.fields.remove(k);
            }
            "something removed"
        }
        6 => {
            let (f, d) = pick(rng);
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            let i = *rng.pick(&[(1 << 62) - 1, 1 << 62, (1 << 62) + 1, u64::MAX, 1 << 63, u64::MAX - 1, 1 << 32]);
            if rng.chance(1, 4) {
                d.deleted.push((i, NOWHERE));
            } else {
                let mut y = field(rng, d, PT::Base(Ty::U64));
                y.index = i;
                d.fields.push(y);
            }
            "large index"
        }
        7 => {
            let (f, d) = pick(rng);
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            match d.deleted.first().copied() {
                Some(x) => {
                    let k = rng.below(d.deleted.len() + 1);
                    d.deleted.insert(k, x);
                }
                None => d.deleted.extend([(7, NOWHERE), (7, NOWHERE)]),
            }
            "duplicate deleted index"
        }
        8 | 9 => {
            // A reference to something that may not exist.
            let (f, d) = pick(rng);
            let name = if rng.chance(1, 2) {
                (*rng.pick(POOL)).to_owned()
            } else {
                let (g, e) = pick(rng);
                let n = p[&g].decls[e].name.clone();
                match rng.below(4) {
                    0 => format!("{n}_x"),
                    1 => n.chars().take(n.chars().count().max(2) - 1).collect::<String>(),
                    2 => snake(&n).replace('_', ""),
                    _ => respell(rng, &n),
                }
            };
            let name = if name.trim_matches('_').is_empty() { "foo".into() } else { name };
            let q = &p[&f];
            let im = match rng.below(3) {
                0 => None,
                1 if !q.imports.is_empty() => Some(rng.pick(&q.imports).name.clone()),
                _ => Some((*rng.pick(POOL)).to_owned()),
            };
            let im = im.map(|s| if s.contains('-') { snake(&s) } else { s });
            let t = wrap(rng, PT::Ref(im, name));
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            let x = field(rng, d, t);
            d.fields.push(x);
            "a reference"
        }
        10 | 11 | 12 => {
            // A reference back to a type that may contain this one.
            let (f, d) = pick(rng);
            let mut cur = (f.clone(), d);
            for _ in 0..rng.below(5) {
                let q = &p[&cur.0];
                let mut next = vec![];
                for x in &q.decls[cur.1].fields {
                    let mut t = &x.ty;
                    while let PT::Arr(i) = &t.t {
                        t = i;
                    }
                    if let PT::Ref(i, n) = &t.t {
                        let g = match i {
                            None => Some(cur.0.clone()),
                            Some(i) => q
                                .imports
                                .iter()
                                .find(|m| snake(&m.name) == snake(i))
                                .and_then(|m| p.keys().find(|g| rel(&cur.0, g) == m.path).cloned()),
                        };
                        if let Some(g) = g {
                            if let Some(e) = p[&g].decls.iter().position(|e| snake(&e.name) == snake(n)) {
                                next.push((g, e));
                            }
                        }
                    }
                }
                if next.is_empty() {
                    break;
                }
                cur = rng.pick(&next).clone();
            }
            let name = p[&f].decls[d].name.clone();
            let t = reference(rng, p, &cur.0, &f, &name);
            let t = wrap(rng, t);
            let d = &mut p.get_mut(&cur.0).unwrap().decls[cur.1];
            let x = field(rng, d, t);
            let k = rng.below(d.fields.len() + 1);
            d.fields.insert(k, x);
            "cycle"
        }
        13 => {
            let (f, d) = pick(rng);
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            d.name = match rng.below(3) {
                0 => (*rng.pick(POOL)).to_owned(),
                1 => format!("{}_2", d.name.trim_end_matches('_')),
                _ => respell(rng, &d.name),
            };
            "a declaration renamed"
        }
        14 => {
            let q = p.get_mut(&f).unwrap();
            if q.imports.is_empty() {
                return "nothing";
            }
            let mut i = rng.pick(&q.imports).clone();
            i.alias = Some(snake(&respell(rng, &i.name)));
            i.alias = i.alias.map(|a| respell(rng, &a));
            i.name = i.alias.clone().unwrap();
            if rng.chance(1, 2) {
                let g = rng.pick(&files).clone();
                i.path = rel(&f, &g);
            }
            let k = rng.below(q.imports.len() + 1);
            q.imports.insert(k, i);
            "duplicate import"
        }
        15 => {
            let q = p.get_mut(&f).unwrap();
            if !q.imports.is_empty() {
                let k = rng.below(q.imports.len());
                q.imports.remove(k);
            }
            "an import removed"
        }
        16 => {
            let q = p.get_mut(&f).unwrap();
            if !q.imports.is_empty() {
                let k = rng.below(q.imports.len());
                let i = &mut q.imports[k];
                let a = match rng.below(3) {
                    0 => snake(&i.name),
                    1 => (*rng.pick(POOL)).to_owned(),
                    _ => format!("{}_z", snake(&i.name)),
                };
                i.alias = Some(a.clone());
                i.name = a;
            }
            "an import renamed"
        }
        17 | 18 => {
            let g = rng.pick(&files).clone();
            let dir = g.rsplit_once('/').map_or("", |x| x.0).to_owned();
            let path = match rng.below(9) {
                0 => "nothing.t".to_owned(),
                1 => "no/such/dir.t".to_owned(),
                2 => if dir.is_empty() { "..".into() } else { rel(&f, &format!("{dir}/x")).trim_end_matches("/x").to_owned() },
                3 => "../".repeat(rng.range(1, 6)) + "outside.t",
                4 => format!("{root}/../nothing.t"),
                5 => rel(&f, &g) + "/",
                6 => rel(&f, &g).to_uppercase(),
                7 => format!("{root}/{g}"),
                _ => rel(&f, &g) + "x",
            };
            let q = p.get_mut(&f).unwrap();
            let im = import(path, Some("strange".into()));
            if !q.imports.iter().any(|i| snake(&i.name) == "strange") {
                let k = rng.below(q.imports.len() + 1);
                q.imports.insert(k, im);
            }
            "a strange import"
        }
        19 => {
            // A file that is wrong, or that only seems so.
            let (name, text): (&str, &[u8]) = *rng.pick(&[
                ("bin.t", &b"struct A {}\n# \xff\n"[..]),
                ("bad.t", b"struct A {}\nstructure B {}\n"),
                ("lex.t", b"struct A {} ; , struct B {}\n"),
                ("half.t", b"struct A {\n"),
                ("empty.t", b""),
                ("fine.t", b"struct A {}\n"),
                ("gap.t", b"struct A { x = 1 }\n"),
                ("self.t", b"import 'self.t'\nstruct A { x: self.A = 0 }\n"),
                ("me.t", b"import 'me.t'\nstruct A { x: me.B = 0 }\nstruct B {}"),
                ("far.t", b"import '../far.t' as f\n"),
                ("dup.t", b"import 'dup.t' as d\nimport 'dup.t' as D\n"),
            ]);
            let at = f.rsplit_once('/').map_or(name.to_owned(), |(d, _)| format!("{d}/{name}"));
            extra.insert(at.clone(), text.to_vec());
            let q = p.get_mut(&f).unwrap();
            if !q.imports.iter().any(|i| snake(&i.name) == "other") {
                q.imports.push(import(rel(&f, &at), Some("other".into())));
            }
            "another file"
        }
        20 => {
            // The same namespace twice.
            let g = rng.pick(&files).clone();
            let (dir, file) = g.rsplit_once('/').map_or((String::new(), g.clone()), |(d, x)| (format!("{d}/"), x.to_owned()));
            let st = model::stem(&file);
            let other = format!("{dir}{}{}", if rng.chance(1, 2) { pascal(&st) } else { st.replace('_', "-") }, rng.pick(&[".t", ".typ"]));
            if p.contains_key(&other) || files.iter().any(|x| x.starts_with(&format!("{other}/"))) {
                return "nothing";
            }
            extra.insert(other.clone(), b"struct Other {}\n".to_vec());
            let q = p.get_mut(&f).unwrap();
            if !q.imports.iter().any(|i| snake(&i.name) == "twin") {
                q.imports.push(import(rel(&f, &other), Some("twin".into())));
            }
            "a conflicting file"
        }
        21 => {
            // Harmless: files import each other.
            let g = rng.pick(&files).clone();
            let q = p.get_mut(&f).unwrap();
            if !q.imports.iter().any(|i| snake(&i.name) == "extra") {
                q.imports.push(import(rel(&f, &g), Some("extra".into())));
            }
            "an additional import"
        }
        22 => {
            // Harmless: another order.
            for q in p.values_mut() {
                rng.shuffle(&mut q.decls);
                rng.shuffle(&mut q.imports);
                for d in &mut q.decls {
                    rng.shuffle(&mut d.fields);
                    rng.shuffle(&mut d.deleted);
                }
            }
            "another order"
        }
        23 => {
            // Unreachable files do not matter.
            extra.insert("unused.t".into(), b"this is not a schema".to_vec());
            "an unused file"
        }
        24 => {
            let q = p.get_mut(&f).unwrap();
            q.comment = if rng.chance(1, 2) { vec![] } else { vec![vec!["A".into(), "file.".into()]] };
            "a comment"
        }
        _ => {
            // A field of a deeper type, harmless if there is no cycle.
            if decls.len() < 2 {
                return "nothing";
            }
            let (f, d) = pick(rng);
            let (g, e) = pick(rng);
            if (&f, d) <= (&g, e) || f == main {
                return "nothing";
            }
            let name = p[&g].decls[e].name.clone();
            let t = reference(rng, p, &f, &g, &name);
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            let x = field(rng, d, t);
            d.fields.push(x);
            "a deeper type"
        }
    }
}

// Very many problems at once: nothing of a report may get lost because there is much of it.
fn mass(rng: &mut Rng, p: &mut Prog, main: &str) -> &'static str {
    let files: Vec<String> = p.keys().cloned().collect();
    if rng.chance(1, 3) {
        // Types each of which refers to the next, perhaps in a circle.
        let n = *rng.pick(&[5, 12, 20, 33, 51, 65, 101, 129, 260]);
        let circle = rng.chance(2, 3);
        let one = rng.chance(1, 2);
        let mut places: Vec<(String, usize)> = vec![];
        for k in 0..n {
            let f = if k == 0 || one { main.to_owned() } else { rng.pick(&files).clone() };
            let q = p.get_mut(&f).unwrap();
            let name = format!("Chain_{}", if rng.chance(1, 2) { "a" } else { "b" }.repeat(1 + k % 5) + &k.to_string());
            let d = PDecl { kind: *rng.pick(&[Kind::Struct, Kind::Choice]), name, fields: vec![], deleted: vec![], comment: vec![], at: NOWHERE };
            q.decls.push(d);
            places.push((f, q.decls.len() - 1));
        }
        let arrays = rng.chance(1, 6);
        for k in 0..if circle { n } else { n - 1 } {
            let (f, d) = places[k].clone();
            // Perhaps the circle is only at the end.
            let next = if k + 1 < n { k + 1 } else if rng.chance(1, 2) { 0 } else { rng.below(n) };
            let (g, e) = places[next].clone();
            let name = p[&g].decls[e].name.clone();
            let mut t = reference(rng, p, &f, &g, &name);
            if arrays && rng.chance(1, 9) {
                t = PT::Arr(Box::new(raw::ty(t)));
            }
            let d = &mut p.get_mut(&f).unwrap().decls[d];
            let x = field(rng, d, t);
            d.fields.push(x);
        }
        if rng.chance(1, 2) {
            for q in p.values_mut() {
                rng.shuffle(&mut q.decls);
            }
        }
        return if circle { "a long circle of types" } else { "a long chain of types" };
    }
    let f = rng.pick(&files).clone();
    let q = p.get_mut(&f).unwrap();
    let n = *rng.pick(&[20, 33, 51, 65, 101, 129, 260]);
    let what = rng.below(6);
    match what {
        0 => {
            for k in 0..n {
                let path = format!("absent_{k}.t");
                q.imports.push(import(path, Some(format!("absent_as_{}", "z".repeat(k + 1)))));
            }
            "many missing imports"
        }
        1 => {
            for _ in 0..n {
                q.imports.push(import("absent.t".to_owned(), None));
            }
            "many duplicate imports"
        }
        2 => {
            let d = match q.decls.last() {
                Some(d) => d.clone(),
                None => return "nothing",
            };
            for _ in 0..n {
                q.decls.push(d.clone());
            }
            "many duplicate declarations"
        }
        _ => {
            let k = q.decls.len();
            if k == 0 {
                return "nothing";
            }
            let d = &mut q.decls[rng.below(k)];
            let first = field(rng, d, PT::Base(Ty::U64)).index;
            for k in 0..n {
                let mut x = field(rng, d, PT::Base(Ty::Bool));
                x.name = if what == 3 { "same".to_owned() } else { format!("many_{}", "m".repeat(k + 1)) };
                x.index = if what == 4 { first } else { first + k as u64 };
                if what == 5 {
                    x.ty = raw::ty(PT::Ref(None, format!("Absent_{}", "a".repeat(k + 1))));
                }
                d.fields.push(x);
            }
            ["many fields of the same name", "many fields of the same index", "many missing types"][what - 3]
        }
    }
}

// Lexical and syntactic mistakes.
fn blunder(rng: &mut Rng, text: &str) -> String {
    let (toks, bad) = parse::lex(text);
    if toks.is_empty() || !bad.is_empty() {
        return text.to_owned();
    }
    let mut s = text.to_owned();
    let n = if rng.chance(1, 40) { rng.range(30, 150) } else { rng.range(1, 3) };
    let mut at: Vec<usize> = (0..n).map(|_| rng.below(toks.len())).collect();
    at.sort_unstable();
    at.dedup();
    let lexical = rng.chance(2, 3);
    for k in at.into_iter().rev() {
        let sp = toks[k].at;
        if lexical {
            let junk = *rng.pick(&["@", ";", "$", "$1", "_x", "$_y", "99999999999999999999", "%%", "\u{20ac}", "(", "ok,", "?!", "18446744073709551616"]);
            let pos = if rng.chance(1, 2) { sp.start } else { sp.end };
            let nl = if matches!(toks[k].t, parse::T::Comment(_)) { "\n" } else { " " };
            s.insert_str(pos, &format!("{nl}{junk} "));
        } else {
            match rng.below(3) {
                0 => s.replace_range(sp.start..sp.end, ""),
                1 => s.insert_str(sp.start, rng.pick::<&str>(&["= ", "{ ", "} ", "import ", "as ", "struct ", "deleted ", "optional ", "x ", "0 ", ": ", ". ", "] "])),
                _ => s.replace_range(sp.start..sp.end, rng.pick::<&str>(&["=", "{", "}", "import", "as", "choice", "deleted", "asymmetric", "x", "1", ":", "[", "'p'"])),
            }
        }
    }
    if rng.chance(1, 8) {
        s += "\n  'open path";
    } else if rng.chance(1, 8) {
        // A comment on nothing.
        s += "\n".repeat(rng.range(1, 6)).as_str();
        s += rng.pick::<&str>(&["# The end.\n", "# The end.", "# The\n# end.\n\n\n", "  # The\n\n#\n  # end. \n \n", "#", "\t#\n\t"]);
    }
    s
}

// Layouts that make places hard to compute.
fn layout(rng: &mut Rng, text: &str) -> String {
    let mut s = text.to_owned();
    if rng.chance(1, 4) {
        let (toks, _) = parse::lex(&s);
        // Everything on one line, as far as comments permit.
        if !toks.iter().any(|t| matches!(t.t, parse::T::Comment(_))) {
            s = s.replace(['\n', '\r'], " ");
        }
    }
    if rng.chance(1, 4) {
        s = format!("{}{s}", "\n".repeat(*rng.pick(&[1, 7, 9, 95, 98, 995])));
    }
    if rng.chance(1, 5) {
        s = s.replace("    ", "\t");
    }
    if rng.chance(1, 4) {
        s = s.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    if rng.chance(1, 6) {
        s = s.replace('\n', "  \n");
    }
    if rng.chance(1, 8) {
        s = s.trim_end().to_owned();
    }
    s
}

pub fn c16_c17(rep: &Report, typ: &Typical, reports: bool) {
    let nb = if reports { rep.n(70_000, 1_000_000) } else { rep.n(80_000, 1_200_000) };
    let tag = if reports { "C17" } else { "C16" };
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, tag, bi as u64);
        let dir = Scratch::new(tag);
        let base = dir.path.join("base");
        let root = base.to_string_lossy().into_owned();
        let (mut p, main) = if rng.chance(1, 2) { valid(&mut rng) } else { (scratch(&mut rng), "main.t".to_owned()) };
        let mut extra: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        if rng.chance(1, 12) && p.values().map(|q| q.decls.len()).sum::<usize>() < 20 {
            twins(&mut rng, &mut p, &main);
            rep.count("programs with the same files in several directories", 1);
        }
        let n = if reports { *rng.pick(&[0, 1, 1, 2, 3, 5]) } else { *rng.pick(&[0, 0, 1, 1, 1, 2, 2, 3]) };
        for _ in 0..n {
            let w = change(&mut rng, &mut p, &mut extra, &main, &root);
            rep.count(&format!("changes: {w}"), 1);
        }
        if rng.chance(1, 100) {
            let w = mass(&mut rng, &mut p, &main);
            rep.count(&format!("changes: {w}"), 1);
        }
        let mut files: BTreeMap<String, Vec<u8>> = extra.clone();
        for (f, q) in &p {
            let wild = rng.chance(1, 2);
            let mut t = raw::print(&mut rng, q, wild);
            if reports && rng.chance(1, 6) {
                t = blunder(&mut rng, &t);
            }
            if reports || rng.chance(1, 3) {
                t = layout(&mut rng, &t);
            }
            files.insert(f.clone(), t.into_bytes());
        }
        for (f, b) in &files {
            crate::util::write_file(&base.join(f), b);
        }
        // Something outside that imports might reach.
        fs::write(dir.path.join("outside.t"), "struct Out {}\n").unwrap();
        rep.eval();
        let want = analyze(&files, &root, &main);
        let show = || -> String {
            files.iter().map(|(f, b)| format!("---- {f}\n{}\n", clip(&String::from_utf8_lossy(b)))).collect()
        };
        let bad = |what: &str, detail: String| {
            rep.violation(what, format!("{detail}\nmain: {main}\n{}", show()), files.iter().map(|(f, b)| (f.clone(), b.clone())).collect());
        };
        let out = dir.path.join("out");
        let prior = rng.chance(1, 2);
        if prior {
            fs::create_dir_all(&out).unwrap();
            fs::write(out.join("o.rs"), "old").unwrap();
        }
        let before = tree(&dir.path);
        let from_elsewhere = rng.chance(1, 3);
        let (cwd, arg) = if from_elsewhere { (dir.path.clone(), format!("base/{main}")) } else { (base.clone(), main.clone()) };
        let x = typ.generate(&cwd, &arg, Some(&out.join("o.rs").to_string_lossy()), Some(&out.join("o.ts").to_string_lossy()));
        if crashed(&x) || x.err().contains("panicked at") {
            bad("the compiler crashes", x.describe());
            return;
        }
        let mut id: Vec<u8> = vec![];
        for (f, b) in &files {
            id.extend(f.bytes());
            id.extend(b);
        }
        rep.distinct(&id);
        let kinds: Vec<&str> = want.kinds().into_iter().collect();
        if want.ok() {
            rep.count("valid programs", 1);
            rep.count("files of valid programs", want.loaded.len() as u64);
        } else {
            rep.count("invalid programs", 1);
            if kinds.len() > 1 {
                rep.count("invalid programs with problems of several kinds", 1);
            }
            for k in &kinds {
                rep.count(&format!("programs with problem: {k}"), 1);
            }
            if kinds.len() == 1 {
                rep.count(&format!("programs with only problem: {}", kinds[0]), 1);
            }
        }
        if x.ok() != want.ok() {
            let w = if x.ok() { "an invalid program is accepted" } else { "a valid program is rejected" };
            if reports {
                rep.count("wrong verdicts (C16's business)", 1);
            } else {
                bad(&format!("{w} ({})", kinds.join(", ")), format!("expected: {:?} {:?} cycle: {}\n{}", want.must, want.any, want.cycle, x.describe()));
            }
            return;
        }
        if want.ok() {
            if !reports {
                rep.sample(bi as u64 / 6, show);
            }
            return;
        }
        if !reports {
            let after = tree(&dir.path);
            if before != after {
                let d: Vec<&String> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| k).collect();
                bad("a rejected schema leaves output", format!("changed: {d:?}"));
                return;
            }
            if !x.err().contains("[Error]") {
                bad("a rejection without report", x.describe());
            }
            return;
        }
        rep.sample(bi as u64 / 6, || format!("{}\n{}", show(), x.err()));
        match read_report(&x.err()) {
            Err(e) => bad("a report that cannot be read", format!("{e}\n{}", x.err())),
            Ok(r) => {
                if let Err(e) = judge(rep, &want, &files, &main, &r) {
                    bad("the report is wrong", format!("{e}\n---- report\n{}", clip(&x.err())));
                    return;
                }
                // The same report in colors.
                let escapes = x.err().contains('\u{1b}') || files.values().any(|b| b.contains(&0x1b));
                if rng.chance(1, 4) && !escapes && !r.is_empty() {
                    let y = run_fast(typ.cmd(&cwd).env("CLICOLOR_FORCE", "1").args(["generate", &arg]));
                    rep.count("reports in colors", 1);
                    let entries = |r: &[Reported]| -> Vec<String> {
                        let mut v: Vec<String> = r.iter().map(|e| format!("{:?} {} {:?}", e.file, e.message, e.lines)).collect();
                        v.sort();
                        v
                    };
                    match without_colors(&y.err()).and_then(|t| read_report(&t)) {
                        Err(e) => bad("a report in colors that cannot be read", format!("{e}\n{:?}", clip(&y.err()))),
                        Ok(c) => {
                            if want.cycle {
                                // Which chain represents a cycle is not fixed.
                                if let Err(e) = judge(rep, &want, &files, &main, &c) {
                                    bad("the report in colors is wrong", format!("{e}\n---- report\n{}", clip(&y.err())));
                                }
                            } else if entries(&c) != entries(&r) {
                                let (a, b) = (entries(&r), entries(&c));
                                let only = |a: &[String], b: &[String]| a.iter().filter(|x| !b.contains(x)).cloned().collect::<Vec<_>>().join("\n");
                                bad(
                                    "the report in colors differs",
                                    format!("only without colors:\n{}\nonly with colors:\n{}\n---- report\n{:?}", only(&a, &b), only(&b, &a), clip(&y.err())),
                                );
                            }
                        }
                    }
                }
            }
        }
    });
    if reports {
        rep.require("reported entries matched", 10_000);
        rep.require("cycles verified", 200);
        rep.require("reports in colors", 1000);
    } else {
        rep.require("valid programs", 3000);
        rep.require("invalid programs", 3000);
    }
}

type Key = (String, Vec<(usize, String, Option<(usize, usize)>)>);

fn key(files: &BTreeMap<String, Vec<u8>>, e: &Entry) -> Key {
    let t = String::from_utf8_lossy(&files[&e.file]).into_owned();
    (e.file.clone(), listing(&t, e.span))
}

fn judge(rep: &Report, want: &Outcome, files: &BTreeMap<String, Vec<u8>>, main: &str, got: &[Reported]) -> Result<(), String> {
    if want.main_unreadable {
        return if got.len() == 1 { Ok(()) } else { Err(format!("{} entries for an unreadable file", got.len())) };
    }
    let mut have: BTreeMap<Key, usize> = BTreeMap::new();
    let mut cycles = vec![];
    for g in got {
        match &g.file {
            Some(f) => *have.entry((f.clone(), g.lines.clone())).or_insert(0) += 1,
            None => cycles.push(g.message.clone()),
        }
    }
    let mut need: BTreeMap<Key, usize> = BTreeMap::new();
    let mut what: BTreeMap<Key, Vec<&str>> = BTreeMap::new();
    for e in &want.must {
        if want.vague && e.file != main {
            continue; // which files are loaded depends on the order
        }
        let k = key(files, e);
        *need.entry(k.clone()).or_insert(0) += 1;
        what.entry(k).or_default().push(e.what);
    }
    let mut optional: BTreeSet<Key> = BTreeSet::new();
    for g in &want.any {
        if want.vague {
            break;
        }
        if let [e] = &g[..] {
            let k = key(files, e);
            *need.entry(k.clone()).or_insert(0) += 1;
            what.entry(k.clone()).or_default().push(e.what);
            if e.what == "gap" {
                optional.insert(k);
            }
        }
    }
    for e in &want.repeat {
        optional.insert(key(files, e));
    }
    for (k, n) in &need {
        let h = have.get(k).copied().unwrap_or(0);
        // Entries on the same item are counted together.
        if h < *n {
            let near: Vec<String> = have.keys().filter(|x| x.0 == k.0).map(|x| format!("  {:?}", x.1)).collect();
            return Err(format!(
                "missing: {:?} in {}, of which {n} must be reported, but {h} are\n  expected {:?}\nreported in this file:\n{}",
                what[k], k.0, k.1, near.join("\n")
            ));
        }
        rep.count("reported entries matched", *n as u64);
    }
    for g in &want.any {
        if want.vague {
            break;
        }
        if g.len() > 1 {
            let ks: BTreeSet<Key> = g.iter().map(|e| key(files, e)).collect();
            let all_files_known = g.iter().all(|e| !e.file.is_empty());
            if all_files_known && !ks.iter().any(|k| have.get(k).copied().unwrap_or(0) > need.get(k).copied().unwrap_or(0)) {
                return Err(format!("none of these is reported: {ks:?}"));
            }
            optional.extend(ks);
            rep.count("reported entries matched", 1);
        }
    }
    if want.vague {
        let ks: BTreeSet<Key> =
            want.any.iter().flatten().filter(|e| e.what == "conflict").map(|e| key(files, e)).collect();
        if !ks.iter().any(|k| have.contains_key(k)) {
            return Err(format!("no conflict is reported: {ks:?}"));
        }
    }
    // Anything else is an invention, unless the parser is still recovering from an error.
    for (k, n) in &have {
        let due = need.get(k).copied().unwrap_or(0);
        if *n > due && !optional.contains(k) && !want.vague {
            let after_error = want.lenient.get(&k.0).is_some_and(|off| {
                let t = String::from_utf8_lossy(&files[&k.0]).into_owned();
                let line = t[..*off].matches('\n').count() + 1;
                k.1.is_empty() || k.1.last().is_some_and(|l| l.0 >= line)
            });
            if !after_error {
                return Err(format!("reported without cause, or too often: {k:?}"));
            }
            rep.count("entries after a syntax error", (*n - due) as u64);
        }
    }
    if want.cycle != !cycles.is_empty() {
        return Err(format!("entries without file: {cycles:?}"));
    }
    if want.cycle {
        judge_cycles(rep, want, main, &cycles)?;
    }
    Ok(())
}

fn judge_cycles(rep: &Report, want: &Outcome, _main: &str, cycles: &[String]) -> Result<(), String> {
    // How the declarations are called.
    let mut called: BTreeMap<String, (String, String)> = BTreeMap::new();
    for (f, q) in &want.loaded {
        let mut ns: Vec<String> = ns_words(f);
        for d in &q.decls {
            ns.push(pascal(&d.name));
            called.insert(ns.join("."), (f.clone(), snake(&d.name)));
            ns.pop();
        }
    }
    let mut covered: BTreeSet<(String, String)> = BTreeSet::new();
    for c in cycles {
        let names: Vec<String> = c.split('`').skip(1).step_by(2).map(str::to_owned).collect();
        let chain: Vec<(String, String)> = names
            .iter()
            .map(|n| called.get(n).cloned().ok_or_else(|| format!("unknown type {n} in: {c}")))
            .collect::<Result<_, _>>()?;
        let Some(last) = chain.last() else { return Err(format!("no chain in: {c}")) };
        let Some(first) = chain[..chain.len() - 1].iter().position(|x| x == last) else {
            return Err(format!("not closed: {c}"));
        };
        for w in chain.windows(2) {
            if !contents(want, &w[0].0, &w[0].1).contains(&w[1]) {
                return Err(format!("{:?} does not contain {:?}: {c}", w[0], w[1]));
            }
        }
        covered.extend(chain[first..].iter().cloned());
        rep.count("cycles verified", 1);
        rep.count("steps of cycles verified", chain.len() as u64 - 1);
    }
    // Every group of mutually recursive types is covered.
    let mut reach: BTreeMap<(String, String), BTreeSet<(String, String)>> = BTreeMap::new();
    for k in called.values() {
        let mut seen = BTreeSet::new();
        let mut todo = vec![k.clone()];
        while let Some(x) = todo.pop() {
            for y in contents(want, &x.0, &x.1) {
                if seen.insert(y.clone()) {
                    todo.push(y);
                }
            }
        }
        reach.insert(k.clone(), seen);
    }
    for (k, r) in &reach {
        if r.contains(k) && !covered.iter().any(|c| r.contains(c) && reach[c].contains(k)) {
            return Err(format!("no chain for the cycle of {k:?}: {cycles:?}"));
        }
    }
    Ok(())
}

fn ns_words(f: &str) -> Vec<String> {
    let _ = ns_key;
    let mut v: Vec<String> = f.split('/').map(str::to_owned).collect();
    let last = v.pop().unwrap();
    v.push(model::stem(&last));
    v.iter().map(|c| snake(c)).collect()
}
