// C09, C10: generated code compiles and has the documented API.
use super::runtime::{clip, produce, Unit};
use crate::{
    drv_rust, drv_tst,
    exec::{rustc, Flavour},
    model::{gen_program, Cfg, Kind, Program, Style, Ty},
    report::Report,
    typical::Typical,
    util::{par_until, run, Rng, Scratch},
};
use std::{fs, path::Path, process::Command, time::Duration};

fn cfg(rng: &mut Rng) -> Cfg {
    Cfg {
        torture: *rng.pick(&[10, 40, 80, 100]),
        comments: false,
        max_fields: 9,
        repeat: false,
        ..Cfg::front()
    }
}

fn style(rng: &mut Rng) -> Style {
    Style { wild: rng.chance(1, 2), comments: false, crlf: rng.chance(1, 8), refs: true }
}

pub struct How {
    pub edition: &'static str,
    pub flavour: Flavour,
    pub include: bool,
}

pub fn compile_rust(dir: &Path, units: &[(usize, &Unit)], how: &How) -> Result<(), String> {
    let mut main = String::from("#![allow(warnings)]\nmod rt;\n");
    fs::write(dir.join("rt.rs"), drv_rust::RT).unwrap();
    for (i, u) in units {
        let root = if how.include { format!("super::deep::g{i}") } else { format!("super::g{i}") };
        let d = drv_rust::driver(&u.p, &root) + &drv_rust::api_extra(&u.p, &root);
        fs::write(dir.join(format!("d{i}.rs")), format!("#![allow(warnings)]\n{d}")).unwrap();
        if how.include {
            main += &format!("mod d{i};\n");
        } else {
            main += &format!("mod g{i};\nmod d{i};\n");
        }
    }
    if how.include {
        main += "mod deep {\n";
        for (i, _) in units {
            main += &format!("    pub mod g{i} {{\n        include!(\"g{i}.rs\");\n    }}\n");
        }
        main += "}\n";
    }
    main += "fn main() {}\n";
    fs::write(dir.join("main.rs"), main).unwrap();
    let mut c = rustc(how.flavour);
    c.current_dir(dir).args(["main.rs", "--crate-name", "driver", "--emit=metadata", "-o", "driver.rmeta"]);
    // The last edition given counts.
    let args: Vec<std::ffi::OsString> = c.get_args().map(|a| if a == "2021" { how.edition.into() } else { a.to_owned() }).collect();
    let mut d = Command::new("rustc");
    for (k, v) in c.get_envs() {
        match v {
            Some(v) => d.env(k, v),
            None => d.env_remove(k),
        };
    }
    d.current_dir(dir).args(args);
    let o = run(&mut d, Duration::from_secs(600)).map_err(|e| e.to_string())?;
    if o.ok() {
        Ok(())
    } else {
        Err(o.describe())
    }
}

pub fn c09(rep: &Report, typ: &Typical) {
    let nb = rep.n(240, 4000);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C09", bi as u64);
        let dir = Scratch::new("C09");
        let mut units = vec![];
        for _ in 0..5 {
            let c = Cfg { repeat: rng.chance(1, 2), ..cfg(&mut rng) };
            let p = gen_program(&mut rng, &c);
            let st = style(&mut rng);
            let i = units.len();
            if let Some(u) = produce(rep, typ, &mut rng, p, &st, &dir.path, i) {
                units.push(u);
            }
        }
        let how = How {
            edition: *rng.pick(&["2021", "2021", "2018", "2024"]),
            flavour: if rng.chance(1, 4) { Flavour::Release } else { Flavour::Debug },
            include: rng.chance(1, 3),
        };
        for (i, u) in units.iter().enumerate() {
            rep.eval();
            rep.distinct(&fs::read(dir.path.join(format!("g{i}.rs"))).unwrap_or_default());
            facts(rep, u);
        }
        let all: Vec<(usize, &Unit)> = units.iter().enumerate().collect();
        if compile_rust(&dir.path, &all, &how).is_err() {
            for (i, u) in &all {
                if let Err(e) = compile_rust(&dir.path, &[(*i, *u)], &how) {
                    rep.violation(
                        "the documented Rust API does not compile",
                        format!("edition {} {:?}\n{}\n{}", how.edition, how.flavour, clip(&e), u.show()),
                        u.files(),
                    );
                    return;
                }
            }
            rep.inconclusive("a batch does not compile but each of its parts does".into());
        } else {
            rep.count("outputs compiled with rustc", all.len() as u64);
        }
        if let Some(u) = units.first() {
            rep.sample(bi as u64, || u.show());
        }
    });
    probe(rep, typ, false);
    rep.require("outputs compiled with rustc", 400);
    rep.require("circular imports", 5);
    rep.require("empty declarations", 20);
    rep.require("files in directories", 20);
}

fn facts(rep: &Report, u: &Unit) {
    let mut cyc = false;
    for f in &u.p.files {
        for im in &f.imports {
            let t = &u.p.files[im.target];
            if t.imports.iter().any(|x| u.p.files[x.target].comps == f.comps) {
                cyc = true;
            }
        }
        if f.comps.len() > 1 {
            rep.count("files in directories", 1);
        }
        for d in &f.decls {
            rep.count("declarations", 1);
            rep.count("fields", d.fields.len() as u64);
            if d.fields.is_empty() {
                rep.count("empty declarations", 1);
            }
        }
    }
    if cyc {
        rep.count("circular imports", 1);
    }
}

// Known findings: namespaces that hide names the generated code needs.
fn probe(rep: &Report, typ: &Typical, ts: bool) {
    use crate::model::{Decl, Field, File, Import, Rule};
    let decl = |name: &str, fields: Vec<(&str, Ty)>| Decl {
        kind: Kind::Struct,
        name: name.into(),
        fields: fields
            .into_iter()
            .enumerate()
            .map(|(i, (n, ty))| Field { name: n.into(), rule: Rule::Req, ty, index: i as u64, comment: vec![] })
            .collect(),
        deleted: Default::default(),
        comment: vec![],
    };
    let file = |comps: &[&str], imports: Vec<(usize, &str)>, decls| File {
        comps: comps.iter().map(|s| (*s).to_owned()).collect(),
        imports: imports.into_iter().map(|(t, p)| Import { target: t, alias: None, path: p.into() }).collect(),
        decls,
        comment: vec![],
    };
    let s = || decl("foo", vec![("x", Ty::Str), ("n", Ty::U64), ("s", Ty::S64)]);
    let cases: Vec<(&str, bool, Program)> = vec![
        ("module-std", false, Program { files: vec![file(&["std.t"], vec![], vec![s()])] }),
        ("module-io", false, Program { files: vec![file(&["io.t"], vec![], vec![s()])] }),
        ("ts-shared-buffer", true, Program { files: vec![file(&["foo.t"], vec![], vec![decl("foo", vec![("x", Ty::Bytes)])])] }),
        (
            "array-of-empty-choice",
            true,
            Program {
                files: vec![file(
                    &["foo.t"],
                    vec![],
                    vec![
                        Decl { kind: Kind::Choice, ..decl("nothing", vec![]) },
                        decl("bar", vec![("x", Ty::Arr(Box::new(Ty::Ref(0, 0))))]),
                    ],
                )],
            },
        ),
        (
            "namespace-like-type",
            true,
            Program {
                files: vec![
                    file(&["foo.t"], vec![(1, "email.t")], vec![decl("bar", vec![("x", Ty::Ref(1, 0)), ("y", Ty::Ref(1, 1))])]),
                    file(&["email.t"], vec![(0, "foo.t")], vec![decl("email", vec![]), decl("other", vec![("e", Ty::Ref(1, 0))])]),
                ],
            },
        ),
        (
            "namespace-like-directory",
            true,
            Program {
                files: vec![
                    file(&["b.t"], vec![(1, "a/a.t")], vec![decl("bar", vec![("x", Ty::Ref(1, 0))])]),
                    file(&["a", "a.t"], vec![(2, "x.t")], vec![decl("foo", vec![("x", Ty::Ref(2, 0))])]),
                    file(&["a", "x.t"], vec![], vec![decl("baz", vec![])]),
                ],
            },
        ),
    ];
    // Names of files and directories that are no identifiers, in both languages.
    let odd_file = || Program { files: vec![file(&["1.t"], vec![], vec![s()])] };
    let odd_directory = || Program {
        files: vec![
            file(&["foo.t"], vec![(1, "v1-2.0/bar.t")], vec![decl("foo", vec![("x", Ty::Ref(1, 0))])]),
            file(&["v1-2.0", "bar.t"], vec![], vec![s()]),
        ],
    };
    let mut cases = cases;
    cases.extend([
        ("file-no-identifier", false, odd_file()),
        ("file-no-identifier", true, odd_file()),
        ("directory-no-identifier", false, odd_directory()),
        ("directory-no-identifier", true, odd_directory()),
    ]);
    for (id, for_ts, p) in cases {
        if for_ts != ts {
            continue;
        }
        let dir = Scratch::new("probe");
        let mut rng = Rng::new(1);
        let Some(u) = produce(rep, typ, &mut rng, p, &Style::plain(), &dir.path, 0) else { continue };
        rep.count("probes of unusual inputs", 1);
        let r = if ts {
            check_ts(&dir.path, &[(0, &u)], "ES2021", if id == "ts-shared-buffer" { "default" } else { "old" })
        } else {
            compile_rust(&dir.path, &[(0, &u)], &How { edition: "2021", flavour: Flavour::Debug, include: false })
        };
        if let Err(e) = r {
            rep.finding(id, "generated code does not compile", format!("{}\n{}", clip(&e), u.show()));
        }
    }
}

// See the known finding array-of-empty-choice.
pub fn no_arrays_of_nothing(p: &mut Program) {
    fn bad(p: &Program, t: &Ty) -> bool {
        match t {
            Ty::Arr(i) => bad(p, i),
            Ty::Ref(f, d) => p.decl((*f, *d)).kind == Kind::Choice && p.decl((*f, *d)).fields.is_empty(),
            _ => false,
        }
    }
    for r in p.all() {
        for k in 0..p.decl(r).fields.len() {
            let t = p.decl(r).fields[k].ty.clone();
            if matches!(t, Ty::Arr(_)) && bad(p, &t) {
                p.files[r.0].decls[r.1].fields[k].ty = Ty::Bytes;
            }
        }
    }
}

const TYPESCRIPT: &str = "/opt/veriftools/node/node_modules/typescript";
const TSCHECK: &str = include_str!("../../drv/tscheck.js");

pub fn check_ts(dir: &Path, units: &[(usize, &Unit)], target: &str, lib: &str) -> Result<(), String> {
    fs::write(dir.join("tscheck.js"), TSCHECK).unwrap();
    let mut c = Command::new("node");
    c.current_dir(dir).args(["--max-old-space-size=4000", "tscheck.js", TYPESCRIPT, target, lib]);
    for (i, u) in units {
        fs::write(dir.join(format!("d{i}.ts")), drv_tst::driver(&u.p, &format!("./g{i}"))).unwrap();
        c.arg(format!("d{i}.ts"));
    }
    let o = run(&mut c, Duration::from_secs(600)).map_err(|e| e.to_string())?;
    let n = 2 * units.len();
    if o.ok() && o.out().contains(&format!("checked {n} problems 0\n")) {
        Ok(())
    } else {
        Err(format!("{}\n{}", o.out(), o.describe()))
    }
}

pub fn c10(rep: &Report, typ: &Typical) {
    let nb = rep.n(48, 600);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C10", bi as u64);
        let dir = Scratch::new("C10");
        let mut units = vec![];
        for _ in 0..12 {
            let c = cfg(&mut rng);
            let mut p = gen_program(&mut rng, &c);
            no_arrays_of_nothing(&mut p);
            let st = style(&mut rng);
            let i = units.len();
            if let Some(u) = produce(rep, typ, &mut rng, p, &st, &dir.path, i) {
                units.push(u);
            }
        }
        for (i, u) in units.iter().enumerate() {
            rep.eval();
            rep.distinct(&fs::read(dir.path.join(format!("g{i}.ts"))).unwrap_or_default());
            facts(rep, u);
        }
        let target = *rng.pick(&["ES2021", "ES2020", "ES2022", "ES2023", "ESNext"]);
        // See the known finding ts-shared-buffer.
        let lib = "old";
        let all: Vec<(usize, &Unit)> = units.iter().enumerate().collect();
        if all.is_empty() {
            return;
        }
        if check_ts(&dir.path, &all, target, lib).is_err() {
            for (i, u) in &all {
                if let Err(e) = check_ts(&dir.path, &[(*i, *u)], target, lib) {
                    rep.violation("the documented TypeScript API does not type-check", format!("{target}\n{}\n{}", clip(&e), u.show()), u.files());
                    return;
                }
            }
            rep.inconclusive("a batch does not type-check but each of its parts does".into());
        } else {
            rep.count("outputs type-checked", all.len() as u64);
            for (i, _) in &all {
                let d = fs::read_to_string(dir.path.join(format!("d{i}.ts"))).unwrap();
                rep.count("positive type assertions", d.matches("same<").count() as u64);
                rep.count("negative type assertions", d.matches("@ts-expect-error").count() as u64);
            }
        }
        if let Some(u) = units.first() {
            rep.sample(bi as u64, || u.show());
        }
    });
    probe(rep, typ, true);
    rep.require("outputs type-checked", 200);
    rep.require("circular imports", 5);
    rep.require("empty declarations", 20);
    rep.require("files in directories", 20);
}
