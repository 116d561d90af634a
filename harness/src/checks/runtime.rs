// Shared pipeline of the checks that run generated code: random programs are compiled by the real
// compiler, wrapped in a driver, and driven with requests.
use crate::{
    codec::{VCfg, VGen, V},
    drv_rust, drv_ts,
    exec::{self, Engine, Flavour},
    model::{self, Program, Style},
    report::Report,
    typical::{crashed, Typical},
    util::{Rng, Scratch},
};
use std::{collections::BTreeMap, fs, path::Path};

pub struct Unit {
    pub p: Program,
    pub build: BTreeMap<(usize, usize), bool>,
    pub texts: Vec<(String, String)>,
    pub all: Vec<(usize, usize)>,
}

impl Unit {
    pub fn op(&self, r: (usize, usize)) -> usize {
        self.all.iter().position(|x| *x == r).unwrap()
    }
    pub fn files(&self) -> Vec<(String, Vec<u8>)> {
        self.texts.iter().map(|(a, b)| (a.clone(), b.clone().into_bytes())).collect()
    }
    pub fn unit_arrays(&self) -> bool {
        self.p.all().iter().any(|r| self.p.decl(*r).fields.iter().any(|f| model::has_unit_array(&f.ty)))
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (n, t) in &self.texts {
            let n_chars = t.chars().count();
            if n_chars > 8000 {
                let head: String = t.chars().take(4000).collect();
                let tail: String = t.chars().skip(n_chars - 4000).collect();
                s += &format!("--- {n}\n{head}\n[...]\n{tail}\n");
            } else {
                s += &format!("--- {n}\n{t}\n");
            }
        }
        s
    }
}

pub struct Batch {
    pub dir: Scratch,
    pub units: Vec<Unit>,
    pub eng: Engine,
}

pub enum Lang {
    Rust(Flavour),
    Pure(Flavour), // with sessions
    Cost,          // with measurements
    Ts,
}

// Write the schema and generate code as g<i>.rs and g<i>.ts in `dir`.
pub fn produce(rep: &Report, typ: &Typical, rng: &mut Rng, p: Program, st: &Style, dir: &Path, i: usize) -> Option<Unit> {
    let sd = dir.join(format!("s{i}"));
    let texts = model::write_program(rng, &p, st, &sd);
    let main = p.files[0].path();
    let o = typ.generate(&sd, &main, Some(&format!("../g{i}.rs")), Some(&format!("../g{i}.ts")));
    let texts: Vec<(String, String)> = p.files.iter().map(|f| f.path()).zip(texts).collect();
    rep.count("schemas generated", 1);
    if crashed(&o) {
        rep.count("schemas the compiler crashed on (C15's business)", 1);
        return None;
    }
    if !o.ok() {
        // Whether it should have been accepted is decided by C15 and C16.
        rep.count("schemas rejected (C15/C16's business)", 1);
        if std::env::var_os("VH_DEBUG").is_some() {
            eprintln!("rejected:\n{}", o.err());
            for (n, t) in &texts {
                eprintln!("--- {n}\n{t}");
            }
        }
        return None;
    }
    rep.count("schemas accepted", 1);
    let build = p.buildable();
    let all = p.all();
    Some(Unit { p, build, texts, all })
}

fn write_one(dir: &Path, units: &[Unit], lang: &Lang) -> Result<Engine, String> {
    match lang {
        Lang::Rust(f) => {
            let ds: Vec<String> = units
                .iter()
                .enumerate()
                .map(|(i, u)| drv_rust::driver(&u.p, &format!("super::g{i}")) + &drv_rust::api_extra(&u.p, &format!("super::g{i}")))
                .collect();
            exec::write_driver(dir, &ds);
            if *f == Flavour::Miri {
                return Ok(Engine::Miri(dir.to_owned()));
            }
            exec::compile(dir, *f).map(Engine::Native)
        }
        Lang::Pure(f) => {
            let ds: Vec<String> = units
                .iter()
                .enumerate()
                .map(|(i, u)| drv_rust::driver(&u.p, &format!("super::g{i}")) + &drv_rust::share_extra(&u.p, &format!("super::g{i}")))
                .collect();
            exec::write_pure_driver(dir, &ds);
            if *f == Flavour::Miri {
                return Ok(Engine::Miri(dir.to_owned()));
            }
            exec::compile(dir, *f).map(Engine::Native)
        }
        Lang::Cost => {
            let ds: Vec<String> = units
                .iter()
                .enumerate()
                .map(|(i, u)| drv_rust::driver(&u.p, &format!("super::g{i}")) + &drv_rust::cost_extra(&u.p, &format!("super::g{i}")))
                .collect();
            exec::write_cost_driver(dir, &ds);
            exec::compile(dir, Flavour::Debug).map(Engine::Native)
        }
        Lang::Ts => {
            let ds: Vec<String> =
                units.iter().enumerate().map(|(i, u)| drv_ts::driver(&u.p, &format!("./g{i}"))).collect();
            exec::write_ts_driver(dir, &ds);
            exec::bundle_ts(dir).map(Engine::Node)
        }
    }
}

// None: nothing to run. Code that does not compile is reported as a violation.
pub fn batch(rep: &Report, typ: &Typical, rng: &mut Rng, progs: Vec<Program>, st: &Style, lang: &Lang) -> Option<Batch> {
    let dir = Scratch::new(&rep.prop);
    let mut units = vec![];
    for p in progs {
        let i = units.len();
        if let Some(u) = produce(rep, typ, rng, p, st, &dir.path, i) {
            units.push(u);
        }
    }
    if units.is_empty() {
        return None;
    }
    match write_one(&dir.path, &units, lang) {
        Ok(eng) => Some(Batch { dir, units, eng }),
        Err(e) => {
            // Find the culprits, one by one.
            let mut found = false;
            for (i, u) in units.iter().enumerate() {
                let d = dir.path.join(format!("one{i}"));
                fs::create_dir_all(&d).unwrap();
                for ext in ["rs", "ts"] {
                    let _ = fs::copy(dir.path.join(format!("g{i}.{ext}")), d.join(format!("g0.{ext}")));
                }
                let one = Unit { p: u.p.clone(), build: u.build.clone(), texts: u.texts.clone(), all: u.all.clone() };
                if let Err(e) = write_one(&d, &[one], lang) {
                    found = true;
                    rep.violation(
                        "generated code does not compile",
                        format!("{}\n{}", clip(&e), u.show()),
                        u.files(),
                    );
                    break;
                }
            }
            if !found {
                rep.violation("generated code does not compile (batch only)", clip(&e), vec![]);
            }
            None
        }
    }
}

pub fn clip(s: &str) -> String {
    s.chars().take(4000).collect()
}

pub fn value(u: &Unit, rng: &mut Rng, r: (usize, usize), nan: bool, big: bool) -> V {
    let g = VGen { p: &u.p, build: &u.build, cfg: VCfg { nan, big } };
    let mut budget = *rng.pick(&[3_i64, 20, 60, 60, 200, 800]);
    g.msg(rng, r, &mut budget, 0)
}
