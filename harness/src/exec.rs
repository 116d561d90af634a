// Compiling drivers around generated code and running requests through them.
use crate::util::{limit_cpu, run, Out};
use std::{
    fs,
    path::{Path, PathBuf},
    process::Command,
    time::Duration,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Flavour {
    Debug,   // 1.85.0, overflow checks and debug assertions
    Release, // stable, optimized, no overflow checks
    Asan,    // nightly, address sanitizer, overflow checks
    Miri,    // nightly, the undefined behaviour interpreter
}

pub fn rustc(f: Flavour) -> Command {
    let mut c = Command::new("rustc");
    c.env_remove("RUSTFLAGS");
    match f {
        Flavour::Debug => {
            c.env("RUSTUP_TOOLCHAIN", "1.85.0").args([
                "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C", "debug-assertions=on",
            ]);
        }
        Flavour::Release => {
            c.env("RUSTUP_TOOLCHAIN", "stable").args(["-C", "opt-level=2", "-C", "debuginfo=0"]);
        }
        Flavour::Asan => {
            c.env("RUSTUP_TOOLCHAIN", "nightly").args([
                "-Zsanitizer=address", "-C", "opt-level=1", "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C",
                "debug-assertions=on", "--cfg", "no_counting",
            ]);
        }
        Flavour::Miri => unreachable!(),
    }
    c.args(["--edition", "2021", "--cap-lints", "allow", "--error-format=short"]);
    c
}

// Write the driver crate: rt.rs, d<i>.rs and main.rs next to the generated g<i>.rs.
pub fn write_driver(dir: &Path, drivers: &[String]) {
    fs::write(dir.join("rt.rs"), crate::drv_rust::RT).unwrap();
    let mut mods = vec![];
    for (i, d) in drivers.iter().enumerate() {
        let body = format!("#![allow(warnings)]\n{d}");
        fs::write(dir.join(format!("d{i}.rs")), body).unwrap();
        mods.push((format!("g{i}.rs"), format!("d{i}.rs")));
    }
    fs::write(dir.join("main.rs"), crate::drv_rust::main_rs(&mods)).unwrap();
}

// The same for measurements (drv/cost.rs).
pub fn write_cost_driver(dir: &Path, drivers: &[String]) {
    fs::write(dir.join("rt.rs"), crate::drv_rust::RT).unwrap();
    fs::write(dir.join("cost.rs"), crate::drv_rust::COST).unwrap();
    for (i, d) in drivers.iter().enumerate() {
        fs::write(dir.join(format!("d{i}.rs")), format!("#![allow(warnings)]\n{d}")).unwrap();
    }
    fs::write(dir.join("main.rs"), crate::drv_rust::main_cost(drivers.len())).unwrap();
}

// The same for sessions (drv/pure.rs).
pub fn write_pure_driver(dir: &Path, drivers: &[String]) {
    fs::write(dir.join("rt.rs"), crate::drv_rust::RT).unwrap();
    fs::write(dir.join("pure.rs"), crate::drv_rust::PURE).unwrap();
    for (i, d) in drivers.iter().enumerate() {
        fs::write(dir.join(format!("d{i}.rs")), format!("#![allow(warnings)]\n{d}")).unwrap();
    }
    fs::write(dir.join("main.rs"), crate::drv_rust::main_pure(drivers.len())).unwrap();
}

pub fn compile(dir: &Path, f: Flavour) -> Result<PathBuf, String> {
    let exe = dir.join(format!("driver-{f:?}"));
    let mut c = rustc(f);
    c.current_dir(dir).args(["main.rs", "--crate-name", "driver", "-o"]).arg(&exe);
    let o = run(&mut c, Duration::from_secs(600)).map_err(|e| e.to_string())?;
    if o.ok() {
        Ok(exe)
    } else {
        Err(format!("{:?} {}", o.code, o.err()))
    }
}

// With a toolchain and flags of one's own.
pub fn compile_as(dir: &Path, toolchain: &str, args: &[&str]) -> Result<PathBuf, String> {
    let tag: String = args.concat().chars().filter(|c| c.is_ascii_alphanumeric()).collect();
    let exe = dir.join(format!("driver-{toolchain}-{tag}"));
    let mut c = Command::new("rustc");
    c.env_remove("RUSTFLAGS").env("RUSTUP_TOOLCHAIN", toolchain);
    c.current_dir(dir).args(args).args(["--cap-lints", "allow", "--error-format=short", "main.rs", "--crate-name", "driver", "-o"]).arg(&exe);
    let o = run(&mut c, Duration::from_secs(600)).map_err(|e| e.to_string())?;
    if o.ok() {
        Ok(exe)
    } else {
        Err(format!("{:?} {}", o.code, o.err()))
    }
}

pub const ESBUILD: &str = "/opt/veriftools/node/node_modules/.bin/esbuild";

pub fn write_ts_driver(dir: &Path, drivers: &[String]) {
    fs::write(dir.join("rt.ts"), crate::drv_ts::RT).unwrap();
    for (i, d) in drivers.iter().enumerate() {
        fs::write(dir.join(format!("d{i}.ts")), d).unwrap();
    }
    fs::write(dir.join("main.ts"), crate::drv_ts::main_ts(drivers.len())).unwrap();
}

pub fn bundle_with(dir: &Path, name: &str, args: &[&str]) -> Result<PathBuf, String> {
    let out = dir.join(name);
    let mut c = Command::new(ESBUILD);
    c.current_dir(dir)
        .args(["main.ts", "--bundle", "--log-level=error", "--tsconfig-raw={}"])
        .args(args)
        .arg(format!("--outfile={}", out.display()));
    let o = run(&mut c, Duration::from_secs(300)).map_err(|e| e.to_string())?;
    if o.ok() {
        Ok(out)
    } else {
        Err(format!("{args:?} {:?} {}", o.code, o.err()))
    }
}

pub fn bundle_ts(dir: &Path) -> Result<PathBuf, String> {
    let out = dir.join("driver.js");
    let mut c = Command::new(ESBUILD);
    c.current_dir(dir)
        .args(["main.ts", "--bundle", "--platform=node", "--log-level=error", "--tsconfig-raw={}"])
        .arg(format!("--outfile={}", out.display()));
    let o = run(&mut c, Duration::from_secs(300)).map_err(|e| e.to_string())?;
    if o.ok() {
        Ok(out)
    } else {
        Err(format!("{:?} {}", o.code, o.err()))
    }
}

pub const MIRI_SYSROOT: &str = "/root/.cache/miri";

pub fn miri() -> PathBuf {
    let mut c = Command::new("rustup");
    c.args(["which", "--toolchain", "nightly", "miri"]);
    let o = run(&mut c, Duration::from_secs(60)).map(|o| o.out()).unwrap_or_default();
    PathBuf::from(o.trim())
}

#[derive(Clone, Debug)]
pub enum Resp {
    Bytes(Vec<u8>),
    Died(String),
    NotRun,
}

pub enum Engine {
    Native(PathBuf),
    Node(PathBuf),  // a script
    Miri(PathBuf),  // directory with main.rs
    MiriWith(PathBuf, PathBuf, Vec<String>), // the same, with another standard library and flags
}

pub fn run_requests(dir: &Path, eng: &Engine, reqs: &[Vec<u8>], tag: &str) -> Vec<Resp> {
    let cpu = if matches!(eng, Engine::Native(_)) { 20 } else { 40 };
    run_requests_limited(dir, eng, reqs, tag, cpu, 1 << 29, 8)
}

pub fn run_requests_limited(dir: &Path, eng: &Engine, reqs: &[Vec<u8>], tag: &str, cpu: u64, stack: usize, most: usize) -> Vec<Resp> {
    let inp = dir.join(format!("req-{tag}"));
    let outp = dir.join(format!("resp-{tag}"));
    let mut b = vec![];
    for r in reqs {
        b.extend_from_slice(&(r.len() as u32).to_le_bytes());
        b.extend_from_slice(r);
    }
    fs::write(&inp, b).unwrap();
    let mut resp: Vec<Resp> = vec![];
    let mut deaths = 0;
    while resp.len() < reqs.len() {
        let _ = fs::remove_file(&outp);
        let mut c = match eng {
            Engine::Native(exe) => {
                let mut c = Command::new(exe);
                c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=1024");
                c
            }
            Engine::Node(s) => {
                let mut c = Command::new("node");
                c.args(["--max-old-space-size=3000", "--expose-gc"]).arg(s);
                c
            }
            Engine::Miri(d) => {
                let mut c = Command::new(miri());
                c.current_dir(d)
                    .args(["--edition", "2021", "--cap-lints", "allow", "-Zmiri-disable-isolation", "--sysroot"])
                    .arg(MIRI_SYSROOT)
                    .args(["main.rs", "--"]);
                c
            }
            Engine::MiriWith(d, sys, flags) => {
                let mut c = Command::new(miri());
                c.current_dir(d)
                    .args(["--edition", "2021", "--cap-lints", "allow", "-Zmiri-disable-isolation"])
                    .args(flags)
                    .arg("--sysroot")
                    .arg(sys)
                    .args(["main.rs", "--"]);
                c
            }
        };
        c.arg(&inp).arg(&outp).arg(resp.len().to_string());
        c.env("VH_STACK", stack.to_string());
        limit_cpu(&mut c, if matches!(eng, Engine::Miri(_) | Engine::MiriWith(..)) { 1000 } else { cpu });
        let o: Out = match run(&mut c, Duration::from_secs(600)) {
            Ok(o) => o,
            Err(e) => {
                resp.push(Resp::Died(format!("spawn: {e}")));
                break;
            }
        };
        let data = fs::read(&outp).unwrap_or_default();
        let mut p = 0;
        while p + 4 <= data.len() {
            let n = u32::from_le_bytes(data[p..p + 4].try_into().unwrap()) as usize;
            if p + 4 + n > data.len() {
                break;
            }
            resp.push(Resp::Bytes(data[p + 4..p + 4 + n].to_vec()));
            p += 4 + n;
        }
        if resp.len() < reqs.len() {
            let why = if o.timed_out {
                "wall-clock watchdog".to_owned()
            } else {
                o.describe()
            };
            resp.push(Resp::Died(why));
            // Endless loops take long to end.
            deaths += if o.cpu_killed && matches!(eng, Engine::Native(_)) { 4 } else { 1 };
            if deaths > most {
                break;
            }
        }
    }
    while resp.len() < reqs.len() {
        resp.push(Resp::NotRun);
    }
    let _ = fs::remove_file(&inp);
    let _ = fs::remove_file(&outp);
    resp
}

// Parsing of responses.
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        s
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn blob(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.take(n)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok(Vec<u8>),
    Err(String),
    Panic(String),
    Spin,
}

#[derive(Clone, Debug)]
pub struct Dec {
    pub res: Res,
    pub pos: usize,
    pub peak: u64,
    pub calls: u64,
}

pub fn parse_dec(r: &mut Rd) -> Dec {
    let s = r.u8();
    let blob = r.blob().to_vec();
    let text = String::from_utf8_lossy(&blob).into_owned();
    let res = match s {
        0 => Res::Ok(blob),
        1 => Res::Err(text),
        2 => Res::Panic(text),
        _ => Res::Spin,
    };
    Dec { res, pos: r.u32() as usize, peak: r.u64(), calls: r.u64() }
}

#[derive(Clone, Debug)]
pub enum Made {
    Ok { size: u64, bytes: Vec<u8>, from: Vec<u8>, decs: Vec<Dec> },
    Err { size: u64, bytes: Vec<u8>, err: String },
    Panic(String),
}

pub fn parse_made(b: &[u8], targets: usize) -> Made {
    let mut r = Rd::new(b);
    match r.u8() {
        0 => {
            let size = r.u64();
            let bytes = r.blob().to_vec();
            let from = r.blob().to_vec();
            let decs = (0..targets).map(|_| parse_dec(&mut r)).collect();
            Made::Ok { size, bytes, from, decs }
        }
        1 => {
            let size = r.u64();
            let bytes = r.blob().to_vec();
            let err = String::from_utf8_lossy(r.blob()).into_owned();
            Made::Err { size, bytes, err }
        }
        _ => Made::Panic(String::from_utf8_lossy(r.blob()).into_owned()),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub chunk: u32,
    pub seed: u64,
    pub fail_at: u64,
    pub kind: u8,
    pub interrupts: u8,
}

impl Plan {
    pub const WHOLE: Plan = Plan { chunk: 0, seed: 1, fail_at: u64::MAX, kind: 0, interrupts: 0 };
    pub fn put(&self, w: &mut Vec<u8>) {
        w.extend_from_slice(&self.chunk.to_le_bytes());
        w.extend_from_slice(&self.seed.to_le_bytes());
        w.extend_from_slice(&self.fail_at.to_le_bytes());
        w.push(self.kind);
        w.push(self.interrupts);
    }
}

pub fn req_make(g: usize, d: usize, plan: Plan, targets: &[(usize, usize, Plan)], value: &[u8]) -> Vec<u8> {
    let mut w = vec![1];
    w.extend_from_slice(&(g as u16).to_le_bytes());
    w.extend_from_slice(&(d as u16).to_le_bytes());
    plan.put(&mut w);
    w.push(targets.len() as u8);
    for (g, d, p) in targets {
        w.extend_from_slice(&(*g as u16).to_le_bytes());
        w.extend_from_slice(&(*d as u16).to_le_bytes());
        p.put(&mut w);
    }
    w.extend_from_slice(value);
    w
}

pub fn req_dec(g: usize, d: usize, plan: Plan, data: &[u8]) -> Vec<u8> {
    let mut w = vec![2];
    w.extend_from_slice(&(g as u16).to_le_bytes());
    w.extend_from_slice(&(d as u16).to_le_bytes());
    plan.put(&mut w);
    w.extend_from_slice(data);
    w
}
