// C21: generated code means the same wherever it runs. The same requests go to differently built
// TypeScript bundles in different JavaScript environments and to Rust drivers of different
// editions, optimization levels and machines; one reference judges all of them.
use super::decode::clean;
use super::runtime::{batch, clip, produce, value, Lang, Unit};
use crate::{
    codec::{dec_msg, dump_msg, enc_msg, msg_in, Events, E},
    drv_ts,
    exec::{self, bundle_with, parse_dec, parse_made, req_dec, req_make, run_requests, Engine, Flavour, Made, Plan, Rd, Res, Resp},
    model::{gen_program, Cfg, Program, Style},
    report::Report,
    typical::Typical,
    util::{hex, limit_cpu, par_until, run, Rng, Scratch},
    wire::{hazards, mutate, WGen},
};
use std::{
    fs,
    path::{Path, PathBuf},
    process::Command,
    time::Duration,
};

enum Want {
    Made(Vec<u8>, Vec<u8>), // encoding, dump of what is read back
    Value(Vec<u8>),
    Missing,
    Same, // whatever the first environment says
}

struct Case {
    u: usize,
    r: (usize, usize),
    bytes: Vec<u8>,
    want: Want,
}

pub fn run_check(rep: &Report, typ: &Typical) {
    let sys = std::thread::scope(|s| {
        let t = s.spawn(|| sysroot(rep));
        typescript(rep, typ);
        t.join().unwrap()
    });
    rust(rep, typ, sys);
}

fn cases(rng: &mut Rng, units: &[Unit], ts: bool, small: bool, nv: usize) -> (Vec<Vec<u8>>, Vec<Case>) {
    let mut reqs = vec![];
    let mut cases = vec![];
    for (ui, u) in units.iter().enumerate() {
        let g = WGen { p: &u.p, build: &u.build, nan: !ts, miss: 4, stats: Default::default() };
        let mut other = vec![];
        for r in &u.all {
            let op = u.op(*r);
            for k in 0..nv {
                let chunk = if ts || !small { rng.below(7) as u32 } else { 0 };
                let plan = Plan { chunk, seed: rng.next(), ..Plan::WHOLE };
                if u.build[r] && k % 2 == 0 {
                    let v = value(u, rng, *r, !ts, !small);
                    let bytes = enc_msg(&u.p, *r, &v);
                    if small && (bytes.len() > 400 || v.nodes() > 1000) {
                        continue;
                    }
                    let mut expect = vec![];
                    dump_msg(&u.p, *r, &msg_in(&u.p, *r, &v), true, &mut expect);
                    let mut d = vec![];
                    dump_msg(&u.p, *r, &v, false, &mut d);
                    reqs.push(req_make(ui, op, Plan::WHOLE, &[(ui, op, plan)], &d));
                    cases.push(Case { u: ui, r: *r, bytes: bytes.clone(), want: Want::Made(bytes, expect) });
                    continue;
                }
                let mut budget = *rng.pick(&[5_i64, 30, 60]);
                let bytes = g.msg(rng, *r, &mut budget, 0);
                if small && bytes.len() > 300 {
                    continue;
                }
                let mut ev = Events::default();
                let res = dec_msg(&u.p, *r, &bytes, &mut ev);
                if ts && k % 4 == 1 {
                    let bytes = mutate(rng, &bytes, &other);
                    if hazards(&u.p, *r, &bytes).units < 1 << 12 {
                        reqs.push(req_dec(ui, op, plan, &bytes));
                        cases.push(Case { u: ui, r: *r, bytes, want: Want::Same });
                    }
                } else if clean(&ev) {
                    let want = match res {
                        Ok(v) => {
                            let mut d = vec![];
                            dump_msg(&u.p, *r, &v, true, &mut d);
                            Want::Value(d)
                        }
                        Err(E::Missing) => Want::Missing,
                        Err(_) => continue,
                    };
                    reqs.push(req_dec(ui, op, plan, &bytes));
                    cases.push(Case { u: ui, r: *r, bytes: bytes.clone(), want });
                }
                other = bytes;
            }
        }
    }
    (reqs, cases)
}

// The verdict on one response; what it said, for comparison.
fn judge(rep: &Report, env: &str, units: &[Unit], c: &Case, resp: &Resp, first: Option<&Res>) -> Option<Res> {
    let u = &units[c.u];
    rep.count(&format!("requests answered: {env}"), 1);
    let fail = |what: &str, detail: String| {
        rep.violation(
            &format!("{what} ({env})"),
            format!("{}\n{} of {}\nbytes {}\n\n{}", clip(&detail), u.p.decl(c.r).name, u.p.files[c.r.0].path(), clip(&hex(&c.bytes)), u.show()),
            u.files(),
        );
    };
    let x = match resp {
        Resp::NotRun => return None,
        Resp::Died(why) => {
            fail("the process died", why.clone());
            return None;
        }
        Resp::Bytes(x) => x,
    };
    let res = match &c.want {
        Want::Made(bytes, _) => match parse_made(x, 1) {
            Made::Ok { bytes: got, size, decs, .. } => {
                if got != *bytes {
                    fail("the bytes are not the documented encoding", format!("expected {}\ngot      {}", hex(bytes), hex(&got)));
                    return None;
                }
                if size != bytes.len() as u64 {
                    fail("the predicted size is wrong", format!("{size} instead of {}", bytes.len()));
                    return None;
                }
                decs[0].res.clone()
            }
            o => {
                fail("serializing a value failed", format!("{o:?}"));
                return None;
            }
        },
        _ => parse_dec(&mut Rd::new(x)).res,
    };
    match (&c.want, &res) {
        (Want::Made(_, d) | Want::Value(d), Res::Ok(x)) if x == d => {}
        (Want::Missing, Res::Err(_)) => {}
        (Want::Same, Res::Ok(_) | Res::Err(_)) => match (first, &res) {
            (None, _) | (Some(Res::Err(_)), Res::Err(_)) => {}
            (Some(a), b) if a == b => {}
            (Some(a), b) => fail("malformed input is treated differently than elsewhere", format!("elsewhere {a:?}\nhere      {b:?}")),
        },
        (Want::Same, o) => fail("deserializing malformed input throws", format!("{o:?}")),
        (Want::Made(_, d) | Want::Value(d), o) => fail("the decoded value differs", format!("expected {}\ngot {o:?}", hex(d))),
        (Want::Missing, o) => fail("a message lacking something mandatory is not rejected with an error", format!("{o:?}")),
    }
    Some(res)
}

const HOST: &str = include_str!("../../drv/host.js");
const TRANSPILE: &str = include_str!("../../drv/transpile.js");
const RTP: &str = include_str!("../../drv/rtp.ts");

// name, environment of the host, file, flags of node
type Env = (&'static str, &'static str, PathBuf, &'static [&'static str]);

fn bundles(dir: &Path) -> Result<Vec<Env>, String> {
    let b = |name: &str, args: &[&str]| bundle_with(dir, name, args);
    let mut v: Vec<Env> = vec![
        ("node", "node", b("plain.js", &["--format=iife", "--global-name=VH"])?, &[]),
        ("browser realm", "browser", dir.join("plain.js"), &[]),
        (
            "browser realm, content security policy, minified",
            "policy",
            b("min.js", &["--format=iife", "--global-name=VH", "--minify"])?,
            &["--disallow-code-generation-from-strings"],
        ),
        ("node, minified, ES2020, CommonJS, no JIT", "cjs", b("min.cjs", &["--format=cjs", "--platform=node", "--minify", "--target=es2020"])?, &["--jitless"]),
        ("node, ES module, names kept", "esm", b("mod.mjs", &["--format=esm", "--keep-names"])?, &[]),
    ];
    let out = dir.join("tsc.js");
    let script = dir.join("transpile.cjs");
    fs::write(&script, TRANSPILE).unwrap();
    let mut c = Command::new("node");
    c.arg(&script).arg(dir).arg("ES2020").arg(&out);
    let o = run(&mut c, Duration::from_secs(300)).map_err(|e| e.to_string())?;
    if !o.ok() {
        return Err(format!("transpiling each file on its own: {}", o.err()));
    }
    v.push(("browser realm, transpiled file by file to ES2020", "policy", out, &[]));
    Ok(v)
}

fn typescript(rep: &Report, typ: &Typical) {
    let nb = rep.n(40, 900);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C21", bi as u64);
        let dir = Scratch::new(&rep.prop);
        let st = Style { wild: rng.chance(1, 3), comments: false, crlf: false, refs: true };
        let mut units: Vec<Unit> = vec![];
        for _ in 0..6 {
            let p: Program = gen_program(&mut rng, &Cfg { repeat: false, ..Cfg::runtime() });
            let i = units.len();
            if let Some(u) = produce(rep, typ, &mut rng, p, &st, &dir.path, i) {
                units.push(u);
            }
        }
        if units.is_empty() {
            return;
        }
        fs::write(dir.path.join("rt.ts"), RTP).unwrap();
        for (i, u) in units.iter().enumerate() {
            fs::write(dir.path.join(format!("d{i}.ts")), drv_ts::driver(&u.p, &format!("./g{i}"))).unwrap();
        }
        fs::write(dir.path.join("main.ts"), main_ts(units.len())).unwrap();
        let host = dir.path.join("host.cjs");
        fs::write(&host, HOST).unwrap();
        let show = || units.iter().map(Unit::show).collect::<String>();
        let envs = match bundles(&dir.path) {
            Ok(e) => e,
            Err(e) => {
                rep.violation("generated TypeScript cannot be bundled", format!("{}\n{}", clip(&e), show()), vec![]);
                return;
            }
        };
        let (reqs, cases) = cases(&mut rng, &units, true, false, 10);
        let mut firsts: Vec<Option<Res>> = vec![];
        for (ei, (name, kind, file, flags)) in envs.iter().enumerate() {
            if rep.stop() {
                return;
            }
            let (resps, noticed) = in_host(&dir.path, &host, kind, file, flags, &reqs, ei);
            for n in noticed.lines() {
                rep.violation(
                    &format!("generated code does more than it should ({name})"),
                    format!("{n}\n{}", show()),
                    vec![],
                );
            }
            rep.count("environments set up", 1);
            for (i, (c, resp)) in cases.iter().zip(&resps).enumerate() {
                if ei == 0 {
                    rep.eval();
                    rep.distinct(&c.bytes);
                }
                let first = if ei == 0 { None } else { firsts.get(i).and_then(Option::as_ref) };
                let r = judge(rep, name, &units, c, resp, first);
                if ei == 0 {
                    firsts.push(r);
                }
            }
        }
        if let Some(c) = cases.first() {
            rep.sample(bi as u64, || format!("{}\ndeclaration {:?} bytes {}", units[c.u].show(), c.r, hex(&c.bytes)));
        }
    });
    for (e, n) in [("node", 500), ("browser realm", 500), ("browser realm, content security policy, minified", 500)] {
        rep.require(&format!("requests answered: {e}"), n);
    }
    rep.require("environments set up", 50);
}

fn main_ts(n: usize) -> String {
    let mut s = String::from("import * as rt from './rt';\n");
    for i in 0..n {
        s += &format!("import {{ TABLE as t{i} }} from './d{i}';\n");
    }
    let ts: Vec<String> = (0..n).map(|i| format!("t{i}")).collect();
    s += &format!("export function respond(x: Uint8Array): Uint8Array {{ return rt.respond([{}], x); }}\n", ts.join(", "));
    s
}

fn in_host(dir: &Path, host: &Path, kind: &str, file: &Path, flags: &[&str], reqs: &[Vec<u8>], ei: usize) -> (Vec<Resp>, String) {
    let inp = dir.join("requests");
    let outp = dir.join("responses");
    let report = dir.join("report");
    let mut b = vec![];
    for r in reqs {
        b.extend_from_slice(&(r.len() as u32).to_le_bytes());
        b.extend_from_slice(r);
    }
    fs::write(&inp, b).unwrap();
    for f in [&outp, &report] {
        let _ = fs::remove_file(f);
    }
    let mut c = Command::new("node");
    c.args(["--max-old-space-size=3000"]).args(flags).arg(host).arg(kind).arg(file).arg(&inp).arg(&outp).arg(&report);
    // Other places, other customs.
    let (lang, tz) = [("C", "UTC"), ("tr_TR.UTF-8", "Asia/Kathmandu"), ("ar_EG.UTF-8", "America/St_Johns")][ei % 3];
    c.env("LC_ALL", lang).env("LANG", lang).env("TZ", tz).env_remove("NODE_OPTIONS");
    limit_cpu(&mut c, 100);
    let o = match run(&mut c, Duration::from_secs(600)) {
        Ok(o) => o,
        Err(e) => return (vec![Resp::Died(e.to_string())], String::new()),
    };
    let mut resps = vec![];
    let data = fs::read(&outp).unwrap_or_default();
    let mut p = 0;
    while p + 4 <= data.len() {
        let n = u32::from_le_bytes(data[p..p + 4].try_into().unwrap()) as usize;
        resps.push(Resp::Bytes(data[p + 4..p + 4 + n].to_vec()));
        p += 4 + n;
    }
    if resps.len() < reqs.len() {
        resps.push(Resp::Died(o.describe()));
    }
    (resps, fs::read_to_string(&report).unwrap_or_default())
}

// 32 bits and most significant byte first.
const MACHINE: &str = "powerpc-unknown-linux-gnu";

fn sysroot(rep: &Report) -> Option<PathBuf> {
    let dir = rep.root.join(".build").join("miri");
    let done = dir.join("done");
    if !done.exists() {
        let _ = fs::create_dir_all(&dir);
        let mut c = Command::new("cargo");
        c.args(["+nightly", "miri", "setup", "--target", MACHINE])
            .env_remove("RUSTFLAGS")
            .env_remove("RUSTUP_TOOLCHAIN")
            .env("CARGO_NET_OFFLINE", "true")
            .env("MIRI_SYSROOT", &dir)
            .current_dir(&dir);
        let o = run(&mut c, Duration::from_secs(400)).ok()?;
        if !o.ok() {
            eprintln!("no standard library for {MACHINE}: {}", o.err());
            return None;
        }
        fs::write(&done, "").ok()?;
    }
    Some(dir)
}

fn rust(rep: &Report, typ: &Typical, sys: Option<PathBuf>) {
    if sys.is_none() {
        rep.assume("the standard library could not be built for a 32-bit big-endian machine, so this run says nothing about such machines");
    }
    let nb = rep.n(24, 400);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C21r", bi as u64);
        let foreign = bi % 3 != 2 && sys.is_some();
        let progs: Vec<Program> = (0..if foreign { 1 } else { 2 })
            .map(|_| {
                let c = Cfg { torture: 0, ..Cfg::runtime() };
                // Many of the generated code's branches depend on how deep in arrays a type is.
                let c = if bi % 2 == 0 { Cfg { ladder: 80, max_decls: 4, ..c } } else { c };
                gen_program(&mut rng, &c)
            })
            .collect();
        // The first build also finds code that does not compile.
        let Some(b) = batch(rep, typ, &mut rng, progs, &Style::plain(), &Lang::Rust(Flavour::Debug)) else { return };
        let (reqs, cases) = cases(&mut rng, &b.units, false, foreign, if foreign { 6 } else { 24 });
        let mut engines: Vec<(&str, Engine)> = vec![];
        if foreign {
            engines.push(("32-bit big-endian machine", Engine::MiriWith(b.dir.path.clone(), sys.clone().unwrap(), vec!["--target".into(), MACHINE.into()])));
        } else {
            for (name, toolchain, args) in [
                ("edition 2018, optimized for speed", "1.85.0", &["--edition", "2018", "-C", "opt-level=2", "-C", "debuginfo=0"][..]),
                (
                    "edition 2024, optimized for size, overflow checks",
                    "stable",
                    &["--edition", "2024", "-C", "opt-level=s", "-C", "overflow-checks=on", "-C", "debuginfo=0", "-C", "codegen-units=1"][..],
                ),
            ] {
                match exec::compile_as(&b.dir.path, toolchain, args) {
                    Ok(e) => engines.push((name, Engine::Native(e))),
                    Err(e) => rep.violation(
                        &format!("generated code does not compile ({name})"),
                        format!("{}\n{}", clip(&e), b.units.iter().map(Unit::show).collect::<String>()),
                        vec![],
                    ),
                }
            }
        }
        for (ei, (name, eng)) in engines.iter().enumerate() {
            let resps = run_requests(&b.dir.path, eng, &reqs, &format!("e{ei}"));
            for (c, resp) in cases.iter().zip(&resps) {
                if rep.stop() {
                    return;
                }
                if ei == 0 {
                    rep.eval();
                    rep.distinct(&c.bytes);
                }
                judge(rep, name, &b.units, c, resp, None);
            }
        }
    });
    rep.require("requests answered: edition 2018, optimized for speed", 200);
    rep.require("requests answered: edition 2024, optimized for size, overflow checks", 200);
    if sys.is_some() {
        rep.require("requests answered: 32-bit big-endian machine", 150);
    }
}
