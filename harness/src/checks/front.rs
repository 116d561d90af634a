// C11-C14: what generated code and formatted text depend on.
use super::runtime::clip;
use crate::{
    model::{self, gen_program, stem, Cfg, Kind, Program, Rule, Style, Ty},
    names::{pascal, snake},
    parse,
    report::Report,
    typical::{crashed, Typical},
    util::{par_until, run_fast, write_file, Rng, Scratch},
};
use std::{
    fs,
    os::unix::fs::symlink,
    path::{Path, PathBuf},
    time::{Duration, SystemTime},
};

fn style(rng: &mut Rng, comments: bool) -> Style {
    Style { wild: !rng.chance(1, 5), comments, crlf: rng.chance(1, 6), refs: true }
}

fn show(p: &Program, texts: &[String]) -> String {
    p.files.iter().zip(texts).map(|(f, t)| format!("--- {}\n{t}\n", f.path())).collect()
}

fn files(p: &Program, texts: &[String]) -> Vec<(String, Vec<u8>)> {
    p.files.iter().zip(texts).map(|(f, t)| (f.path(), t.clone().into_bytes())).collect()
}

fn front(rng: &mut Rng) -> Cfg {
    Cfg { torture: *rng.pick(&[10, 30, 60]), dotted: true, ..Cfg::front() }
}

// Generate both outputs with plain arguments; None if the compiler does not accept the program.
fn outputs(rep: &Report, typ: &Typical, dir: &Path, main: &str, o: &Path) -> Option<(Vec<u8>, Vec<u8>)> {
    let r = o.with_extension("rs");
    let t = o.with_extension("ts");
    // What was there before has no influence: usually nothing, for the changes of meaning the
    // output for the schema before the last change.
    let x = typ.generate(dir, main, Some(&r.to_string_lossy()), Some(&t.to_string_lossy()));
    rep.count("runs of 'typical generate'", 1);
    if !x.ok() {
        rep.count(if crashed(&x) { "crashes (C15's business)" } else { "rejections (C15/C16's business)" }, 1);
        if std::env::var_os("VH_DEBUG").is_some() {
            eprintln!("{}", x.describe());
        }
        return None;
    }
    Some((fs::read(r).ok()?, fs::read(t).ok()?))
}

// Other spellings of the same imports. `dir` is where the files are; symbolic links are created
// there as needed.
fn respell_imports(rng: &mut Rng, p: &mut Program, dir: &Path) -> usize {
    let mut n = 0;
    let comps: Vec<Vec<String>> = p.files.iter().map(|f| f.comps.clone()).collect();
    for (fi, f) in p.files.iter_mut().enumerate() {
        let mut used: Vec<String> = f.imports.iter().map(|i| snake(&i.name())).collect();
        for (k, im) in f.imports.iter_mut().enumerate() {
            if !rng.chance(2, 3) {
                continue;
            }
            n += 1;
            let name = im.name();
            let to = &comps[im.target];
            let plain = model::rel_path(&comps[fi], to);
            let path = match rng.below(8) {
                0 => plain,
                1 => format!("./{plain}"),
                2 => format!("././/{plain}"),
                3 if comps[fi].len() > 1 => format!("../{}/{plain}", comps[fi][comps[fi].len() - 2]),
                4 => dir.join(to.join("/")).to_string_lossy().into_owned(),
                5 if to.len() > 1 => {
                    // Through a link to the directory.
                    let l = format!("link-{}-{k}-{}", fi, rng.below(1000));
                    let at = dir.join(comps[fi][..comps[fi].len() - 1].join("/"));
                    if symlink(dir.join(to[..to.len() - 1].join("/")), at.join(&l)).is_err() {
                        plain
                    } else {
                        format!("{l}/{}", to[to.len() - 1])
                    }
                }
                6 => {
                    let l = format!("link-{}-{k}-{}.t", fi, rng.below(1000));
                    let at = dir.join(comps[fi][..comps[fi].len() - 1].join("/"));
                    if symlink(dir.join(to.join("/")), at.join(&l)).is_err() {
                        plain
                    } else {
                        l
                    }
                }
                _ => {
                    let d = comps[fi].len() - 1;
                    format!("{}{}", "../".repeat(d), to.join("/"))
                }
            };
            im.path = path;
            im.alias = if rng.chance(1, 3) {
                let c = Cfg { digits: 0, ..Cfg::runtime() };
                let a = model::gen_name(rng, &c);
                if used.contains(&snake(&a)) { Some(name) } else { Some(a) }
            } else if snake(&stem(&im.path)) != snake(&name) {
                Some(name)
            } else {
                None
            };
            used[k] = snake(&im.name());
        }
    }
    n
}

fn has_bad_names(p: &Program) -> bool {
    // Every import must keep a usable, unique name.
    p.files.iter().any(|f| {
        let v: Vec<String> = f.imports.iter().map(|i| snake(&i.name())).collect();
        v.iter().enumerate().any(|(i, x)| v[..i].contains(x))
    })
}

enum Change {
    No,
    Yes(String),
}

// One change of meaning.
fn change(rng: &mut Rng, p: &mut Program) -> Change {
    let all = p.all();
    if all.is_empty() {
        return Change::No;
    }
    let r = *rng.pick(&all);
    let fi = r.0;
    let others: Vec<String> = p.files[fi].decls.iter().map(|d| pascal(&d.name)).collect();
    let top: Vec<String> = p.files.iter().flat_map(|f| f.ns()).map(|c| pascal(&c)).collect();
    let d = &mut p.files[fi].decls[r.1];
    let cfg = Cfg { torture: 10, ..Cfg::runtime() };
    let n = d.fields.len();
    let what = rng.below(7);
    match what {
        0 => {
            d.kind = if d.kind == Kind::Struct { Kind::Choice } else { Kind::Struct };
            Change::Yes(format!("kind of {}", d.name))
        }
        1 => loop {
            let s = model::gen_name(rng, &cfg);
            if !others.contains(&pascal(&s)) && !top.contains(&pascal(&s)) {
                let w = format!("name of {}", d.name);
                d.name = s;
                return Change::Yes(w);
            }
        },
        _ if n == 0 => Change::No,
        2 => {
            let k = rng.below(n);
            let w = format!("rule of {}.{}", d.name, d.fields[k].name);
            let f = &mut d.fields[k];
            f.rule = *rng.pick::<Rule>(&match f.rule {
                Rule::Req => [Rule::Asym, Rule::Opt],
                Rule::Asym => [Rule::Req, Rule::Opt],
                Rule::Opt => [Rule::Req, Rule::Asym],
            });
            Change::Yes(w)
        }
        3 => {
            let k = rng.below(n);
            let w = format!("name of {}.{}", d.name, d.fields[k].name);
            let names: Vec<String> = d.fields.iter().map(|f| pascal(&f.name)).collect();
            loop {
                let s = model::gen_name(rng, &cfg);
                if !names.contains(&pascal(&s)) {
                    d.fields[k].name = s;
                    return Change::Yes(w);
                }
            }
        }
        4 => {
            let k = rng.below(n);
            let w = format!("type of {}.{}", d.name, d.fields[k].name);
            let f = &mut d.fields[k];
            let old = f.ty.clone();
            f.ty = match (&old, rng.below(3)) {
                (Ty::Arr(i), 0) => (**i).clone(),
                (_, 1) => Ty::Arr(Box::new(old.clone())),
                _ => loop {
                    let t = rng.pick(&[Ty::Unit, Ty::F64, Ty::U64, Ty::S64, Ty::Bool, Ty::Bytes, Ty::Str]).clone();
                    if t != old {
                        break t;
                    }
                },
            };
            Change::Yes(w)
        }
        _ => {
            let k = rng.below(n);
            let w = format!("index of {}.{}", d.name, d.fields[k].name);
            if !d.deleted.is_empty() && rng.chance(1, 2) {
                let del: Vec<u64> = d.deleted.iter().copied().collect();
                let i = *rng.pick(&del);
                d.deleted.remove(&i);
                d.deleted.insert(d.fields[k].index);
                d.fields[k].index = i;
            } else if n > 1 {
                let j = (k + 1 + rng.below(n - 1)) % n;
                let i = d.fields[k].index;
                d.fields[k].index = d.fields[j].index;
                d.fields[j].index = i;
            } else {
                // Reserve an index in front.
                let f = &mut d.fields[0];
                let max = d.deleted.iter().copied().max().map_or(f.index, |m| m.max(f.index)) + 1;
                d.deleted.insert(f.index);
                f.index = max;
            }
            Change::Yes(w)
        }
    }
}

pub fn c11(rep: &Report, typ: &Typical) {
    let nb = rep.n(3500, 60_000);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C11", bi as u64);
        let c = front(&mut rng);
        let p = gen_program(&mut rng, &c);
        let dir = Scratch::new("C11");
        let root = fs::canonicalize(&dir.path).unwrap();
        let base_dir = root.join("base");
        let comments = rng.chance(1, 2);
        let texts = model::write_program(&mut rng, &p, &Style { wild: false, comments, crlf: false, refs: true }, &base_dir);
        let main = p.files[0].path();
        let Some(want) = outputs(rep, typ, &base_dir, &main, &root.join("base-out")) else { return };
        rep.eval();
        rep.distinct(&want.0);
        rep.sample(bi as u64, || show(&p, &texts));
        let bad = |what: &str, q: &Program, t: &[String], detail: String| {
            let mut f = files(&p, &texts);
            f.extend(files(q, t).into_iter().map(|(n, b)| (format!("other/{n}"), b)));
            rep.violation(what, format!("{detail}\n{}\n======== against\n{}", show(&p, &texts), show(q, t)), f);
        };
        // Other spellings.
        for v in 0..3 {
            let d = root.join(format!("v{v}"));
            let mut q = p.clone();
            // The files have to exist for links to be created.
            model::write_program(&mut rng, &q, &Style::plain(), &d);
            let mut links = 0;
            if v > 0 {
                links = respell_imports(&mut rng, &mut q, &d);
                if has_bad_names(&q) {
                    q = p.clone();
                }
            }
            let with_comments = rng.chance(2, 3);
            let st = style(&mut rng, with_comments);
            let t = model::write_program(&mut rng, &q, &st, &d);
            let Some(got) = outputs(rep, typ, &d, &main, &d.join("out")) else { continue };
            rep.count("respelled schemas compared", 1);
            rep.count("respelled imports", links as u64);
            if got != want {
                let w = if got.0 != want.0 { "Rust" } else { "TypeScript" };
                bad("the generated code depends on how the schema is spelled", &q, &t, format!("{w} differs"));
                return;
            }
        }
        // Other invocations.
        for v in 0..4 {
            let ctx = root.join(format!("i{v}"));
            fs::create_dir_all(ctx.join("x/y")).unwrap();
            let home = base_dir.clone();
            let (cwd, schema): (PathBuf, String) = match rng.below(6) {
                0 => (home.clone(), format!("./{main}")),
                1 => (ctx.clone(), format!("../base/{main}")),
                2 => (ctx.join("x/y"), home.join(&main).to_string_lossy().into_owned()),
                3 => {
                    symlink(&home, ctx.join("ln")).unwrap();
                    (ctx.clone(), format!("ln/{main}"))
                }
                4 => (PathBuf::from("/"), format!(".{}", home.join(&main).display())),
                _ => {
                    symlink(&home, ctx.join("ln2")).unwrap();
                    (ctx.join("ln2"), main.clone())
                }
            };
            let mut outs: Vec<Option<PathBuf>> = vec![];
            for ext in ["rs", "ts"] {
                if rng.chance(1, 5) && !(ext == "ts" && outs[0].is_none()) {
                    outs.push(None);
                    continue;
                }
                let path = match rng.below(5) {
                    0 => ctx.join(format!("deep/er/o.{ext}")),
                    1 => ctx.join(format!("o.{ext}")),
                    2 | 3 => {
                        let q = ctx.join(format!("old.{ext}"));
                        let (mine, other) = if ext == "rs" { (&want.0, &want.1) } else { (&want.1, &want.0) };
                        let mut old = mine.clone();
                        match rng.below(7) {
                            0 => old = vec![b'x'; 300_000],
                            1 => old = other.clone(),
                            2 | 3 => {
                                // The same length.
                                let k = rng.below(old.len());
                                old[k] ^= 1;
                            }
                            4 => old.truncate(rng.below(mine.len())),
                            5 => old.extend(b"// More.\n"),
                            _ => old.clear(),
                        }
                        fs::write(&q, old).unwrap();
                        q
                    }
                    _ => {
                        fs::write(ctx.join(format!("target.{ext}")), "old").unwrap();
                        let q = ctx.join(format!("lnk.{ext}"));
                        symlink(ctx.join(format!("target.{ext}")), &q).unwrap();
                        q
                    }
                };
                outs.push(Some(path));
            }
            let mut c = typ.cmd(&cwd);
            c.arg("generate");
            let first = rng.chance(1, 2);
            if first {
                c.arg(&schema);
            }
            if rng.chance(1, 4) {
                c.arg("--list-schemas");
            }
            let order = if rng.chance(1, 2) { [0, 1] } else { [1, 0] };
            for k in order {
                if let Some(o) = &outs[k] {
                    c.arg(["--rust", "--typescript"][k]).arg(o);
                }
            }
            if !first {
                c.arg(&schema);
            }
            match rng.below(4) {
                0 => {
                    c.env_clear();
                }
                1 => {
                    c.env("LC_ALL", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo").env("NO_COLOR", "1").env("RUST_BACKTRACE", "1");
                }
                2 => {
                    c.env("HOME", &ctx).env("CLICOLOR_FORCE", "1").env("COLUMNS", "3").env("TERM", "xterm");
                }
                _ => {}
            }
            let o = run_fast(&mut c);
            rep.count("other invocations compared", 1);
            if !o.ok() {
                bad("the schema is accepted or not depending on the invocation", &p, &texts, format!("{c:?}\n{}", o.describe()));
                return;
            }
            for (k, out) in outs.iter().enumerate() {
                if let Some(out) = out {
                    let w = if k == 0 { &want.0 } else { &want.1 };
                    if fs::read(out).ok().as_ref() != Some(w) {
                        bad("the generated code depends on the invocation", &p, &texts, format!("{c:?}"));
                        return;
                    }
                }
            }
        }
        // Changes of meaning.
        let over = rng.chance(1, 2).then(|| root.join("over"));
        for _ in 0..5 {
            let mut q = p.clone();
            let Change::Yes(what) = change(&mut rng, &mut q) else { continue };
            let d = Scratch::new("C11m");
            let t = model::write_program(&mut rng, &q, &Style { wild: false, comments: false, crlf: false, refs: true }, &d.path);
            let Some(got) = outputs(rep, typ, &d.path, &main, &over.clone().unwrap_or_else(|| d.path.join("out"))) else { continue };
            rep.count("changes of meaning compared", 1);
            rep.count(&format!("changes: {}", what.split(' ').next().unwrap()), 1);
            if got.0 == want.0 || got.1 == want.1 {
                let w = if got.0 == want.0 { "Rust" } else { "TypeScript" };
                bad("a change of meaning does not change the generated code", &q, &t, format!("{what}: same {w}"));
                return;
            }
        }
    });
    rep.require("respelled schemas compared", 300);
    rep.require("other invocations compared", 500);
    rep.require("changes of meaning compared", 500);
}

// Comments with unusual characters and layout, as the model of what they consist of.
fn odd_comments(rng: &mut Rng, p: &mut Program) {
    let odd = |rng: &mut Rng, c: &mut model::Comment| {
        for para in c.iter_mut() {
            for w in para.iter_mut() {
                if rng.chance(1, 12) {
                    *w = (*rng.pick(&[
                        "\u{feff}x", "e\u{301}e\u{301}", "👩‍👩‍👧‍👦", "\u{200b}", "a\u{ad}b", "\u{202e}rtl", "\0nul", "\u{7f}", "--", "---",
                        "a--b", "-", "##", "#", "$", "_x", "=0", "x:y=1", "import", "'x.t'", "deleted", "1.", "*", "+", "ﬁ",
                        "ＦＵＬＬ", "ｗｉｄｅ-ｗｉｄｅ-ｗｉｄｅ-ｗｉｄｅ-ｗｉｄｅ-ｗｉｄｅ-ｗｉｄｅ-ｗｉｄｅ-ｗｉｄｅ-ｗｉｄｅ", "\u{1b}[1mbold\u{1b}[0m", "tail\\",
                    ]))
                    .to_owned();
                }
            }
        }
    };
    for f in &mut p.files {
        odd(rng, &mut f.comment);
        for d in &mut f.decls {
            odd(rng, &mut d.comment);
            for x in &mut d.fields {
                odd(rng, &mut x.comment);
            }
        }
    }
}

struct Case {
    p: Program,
    dir: Scratch,
    texts: Vec<String>,
    main: String,
}

fn case(rng: &mut Rng, tag: &str) -> Case {
    let c = Cfg { max_files: 4, ..front(rng) };
    let mut p = gen_program(rng, &c);
    if rng.chance(1, 3) {
        odd_comments(rng, &mut p);
    }
    let dir = Scratch::new(tag);
    let st = Style { refs: tag != "C13", ..style(rng, true) };
    if rng.chance(1, 3) {
        model::write_program(rng, &p, &Style::plain(), &dir.path.join("s"));
        let mut q = p.clone();
        respell_imports(rng, &mut q, &fs::canonicalize(dir.path.join("s")).unwrap());
        if !has_bad_names(&q) {
            p = q;
        }
    }
    let texts = model::write_program(rng, &p, &st, &dir.path.join("s"));
    let main = p.files[0].path();
    Case { p, dir, texts, main }
}

fn read_all(p: &Program, dir: &Path) -> Vec<String> {
    p.files.iter().map(|f| String::from_utf8_lossy(&fs::read(dir.join(f.path())).unwrap_or_default()).into_owned()).collect()
}

// C12 and C14 share the formatting of random programs.
pub fn c12_c14(rep: &Report, typ: &Typical, comments: bool) {
    let nb = rep.n(26_000, 400_000);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, &rep.prop, bi as u64);
        let c = case(&mut rng, &rep.prop);
        let s = c.dir.path.join("s");
        let o = c.dir.path.join("o");
        let Some(want) = outputs(rep, typ, &s, &c.main, &o) else { return };
        let bad = |what: &str, detail: String, after: &[String]| {
            let mut f = files(&c.p, &c.texts);
            f.extend(files(&c.p, after).into_iter().map(|(n, b)| (format!("after/{n}"), b)));
            rep.violation(what, format!("{detail}\n{}\n======== formatted\n{}", show(&c.p, &c.texts), show(&c.p, after)), f);
        };
        // Sanity: the text really says what the model says, according to the reference parser.
        for (i, t) in c.texts.iter().enumerate() {
            if let Some(e) = parse::compare(&c.p, i, t, true) {
                rep.inconclusive(format!("the harness misprints schemas: {e}\n{t:?}"));
                return;
            }
        }
        // Format everything, or first only a part of it.
        let tops: Vec<String> = c.p.files.iter().filter(|f| f.comps.len() == 1).map(|f| f.path()).collect();
        let mut roots = vec![];
        if rng.chance(1, 4) {
            roots.push(rng.pick(&tops).clone());
        }
        roots.push(c.main.clone());
        for r in roots {
            let x = typ.format(&s, &r, false);
            let after = read_all(&c.p, &s);
            rep.count("runs of 'typical format'", 1);
            rep.eval();
            rep.distinct(c.texts.concat().as_bytes());
            if !x.ok() {
                if r == c.main {
                    bad("an accepted schema cannot be formatted", x.describe(), &after);
                    return;
                }
                // A file next to the main one may legitimately import files outside… there is none.
                bad("a schema imported by an accepted one cannot be formatted", x.describe(), &after);
                return;
            }
            if comments {
                for (i, t) in after.iter().enumerate() {
                    rep.count("formatted files compared", 1);
                    if let Some(e) = parse::compare(&c.p, i, t, true) {
                        bad("formatting changes a comment", format!("{}: {e}", c.p.files[i].path()), &after);
                        return;
                    }
                }
            } else {
                for (i, t) in after.iter().enumerate() {
                    rep.count("formatted files compared", 1);
                    if let Some(e) = parse::compare(&c.p, i, t, false) {
                        bad("formatting changes what a schema says", format!("{}: {e}", c.p.files[i].path()), &after);
                        return;
                    }
                }
                let x = typ.generate(&s, &c.main, Some(&o.with_extension("rs").to_string_lossy()), Some(&o.with_extension("ts").to_string_lossy()));
                if !x.ok() {
                    bad("a formatted schema is rejected", clip(&x.describe()), &after);
                    return;
                }
                let got = (fs::read(o.with_extension("rs")).unwrap_or_default(), fs::read(o.with_extension("ts")).unwrap_or_default());
                rep.count("generated outputs compared", 2);
                if got != want {
                    bad("formatting changes the generated code", String::new(), &after);
                    return;
                }
            }
        }
        let nc: usize = c
            .p
            .files
            .iter()
            .map(|f| {
                usize::from(!f.comment.is_empty())
                    + f.decls
                        .iter()
                        .map(|d| usize::from(!d.comment.is_empty()) + d.fields.iter().filter(|x| !x.comment.is_empty()).count())
                        .sum::<usize>()
            })
            .sum();
        rep.count("comments followed", nc as u64);
        rep.sample(bi as u64, || show(&c.p, &c.texts));
    });
    rep.require("formatted files compared", 1000);
    rep.require("comments followed", 1000);
}

fn age(p: &Path) -> SystemTime {
    let t = SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000);
    if let Ok(f) = fs::File::options().write(true).open(p) {
        let _ = f.set_modified(t);
    }
    t
}

fn touched(p: &Path, t: SystemTime) -> bool {
    fs::metadata(p).and_then(|m| m.modified()).map_or(true, |m| m != t)
}

pub fn c13(rep: &Report, typ: &Typical) {
    let nb = rep.n(18_000, 300_000);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C13", bi as u64);
        let c = case(&mut rng, "C13");
        let a = c.dir.path.join("s");
        let b = c.dir.path.join("b");
        // A second spelling. (Links and absolute paths in imports lead to the files of the first.)
        let linked = c.p.files.iter().any(|f| f.imports.iter().any(|i| i.path.starts_with('/') || i.path.contains("link-")));
        let b = if linked { a.clone() } else { b };
        let paths: Vec<String> = c.p.files.iter().map(model::File::path).collect();
        let fail = |what: &str, detail: String, x: &[String], y: &[String]| {
            let mut f = files(&c.p, x);
            f.extend(files(&c.p, y).into_iter().map(|(n, b)| (format!("other/{n}"), b)));
            rep.violation(what, format!("{detail}\n{}\n========\n{}", show(&c.p, x), show(&c.p, y)), f);
        };
        let run = |dir: &Path, check: bool| -> (bool, Vec<String>, Vec<bool>, String) {
            let ts: Vec<SystemTime> = paths.iter().map(|p| age(&dir.join(p))).collect();
            let o = typ.format(dir, &c.main, check);
            let after = read_all(&c.p, dir);
            let t = paths.iter().zip(ts).map(|(p, t)| touched(&dir.join(p), t)).collect();
            (o.ok(), after, t, o.describe())
        };
        // The first spelling: check, format, check, format.
        let (ok0, t0, w0, d0) = run(&a, true);
        if t0 != c.texts || w0.contains(&true) {
            fail("format --check writes files", d0, &c.texts, &t0);
            return;
        }
        let (ok1, t1, w1, d1) = run(&a, false);
        if !ok1 {
            // Rejected, or a crash: C15's and C16's business. A check that passes anyway is not.
            rep.count("rejections (C15/C16's business)", 1);
            if ok0 {
                fail("format --check accepts what format does not", d1, &c.texts, &t1);
            }
            return;
        }
        rep.eval();
        rep.distinct(c.texts.concat().as_bytes());
        let changed: Vec<bool> = c.texts.iter().zip(&t1).map(|(x, y)| x != y).collect();
        rep.count("files formatted", changed.iter().filter(|x| **x).count() as u64);
        rep.count("files left alone", changed.iter().filter(|x| !**x).count() as u64);
        if ok0 != !changed.contains(&true) {
            fail("format --check disagrees with format", d0, &c.texts, &t1);
            return;
        }
        if w1 != changed {
            fail("format writes other files than those to be changed", format!("written {w1:?}, changed {changed:?}"), &c.texts, &t1);
            return;
        }
        let (ok2, t2, w2, d2) = run(&a, true);
        if !ok2 || w2.contains(&true) || t2 != t1 {
            fail("format --check rejects formatted files", d2, &c.texts, &t1);
            return;
        }
        let (ok3, t3, w3, d3) = run(&a, false);
        if !ok3 || t3 != t1 || w3.contains(&true) {
            fail("formatting is not idempotent", d3, &t1, &t3);
            return;
        }
        rep.count("idempotence checked", 1);
        for t in &t1 {
            for l in t.lines() {
                let x = l.trim_start();
                if let Some(text) = x.strip_prefix('#') {
                    rep.count("comment lines measured", 1);
                    // (Where every character surely is one column wide.)
                    if l.chars().all(|c| matches!(c, ' '..='~' | '\u{c0}'..='\u{17f}')) && l.chars().count() > 79 && text.trim().contains(' ') {
                        fail("a comment line exceeds 79 columns", l.to_owned(), &c.texts, &t1);
                        return;
                    }
                }
            }
        }
        // One file spoiled: only that one is written, and to the same text.
        if !paths.is_empty() {
            let k = rng.below(paths.len());
            let mut texts = t1.clone();
            let spoiled = if rng.chance(1, 2) { format!("{}\n", t1[k]) } else { t1[k].replace('\n', "\r\n") };
            if spoiled != t1[k] {
                write_file(&a.join(&paths[k]), spoiled.as_bytes());
                texts[k] = spoiled;
                let (ok, t, w, d) = run(&a, true);
                if ok || t != texts || w.contains(&true) {
                    fail("format --check misses a file that is not formatted", format!("{}\n{d}", paths[k]), &texts, &t);
                    return;
                }
                let (ok, t, w, d) = run(&a, false);
                let want: Vec<bool> = (0..paths.len()).map(|i| i == k).collect();
                if !ok || t != t1 || w != want {
                    fail("formatting one spoiled file goes wrong", format!("{} {w:?}\n{d}", paths[k]), &texts, &t);
                    return;
                }
                rep.count("single files formatted", 1);
            }
        }
        // Other spellings of the same.
        for _ in 0..2 {
            let st = Style { refs: false, ..style(&mut rng, true) };
            let texts = model::write_program(&mut rng, &c.p, &st, &b);
            let (ok, t, _, d) = run(&b, false);
            rep.count("spellings compared", 1);
            if !ok {
                fail("one spelling is accepted, another is not", d, &c.texts, &texts);
                return;
            }
            if t != t1 {
                fail("two spellings of a schema are formatted differently", String::new(), &t1, &t);
                return;
            }
        }
        rep.sample(bi as u64, || show(&c.p, &c.texts));
    });
    rep.require("idempotence checked", 400);
    rep.require("spellings compared", 800);
    rep.require("single files formatted", 300);
    rep.require("comment lines measured", 1000);
}
