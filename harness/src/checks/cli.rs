// C19: the command line under failures. The real binary runs with a shim preloaded that makes one
// file system call fail or be cut short; exit status, report and directory trees are judged.
use super::runtime::clip;
use crate::{
    model::{gen_program, write_program, Cfg, Style},
    report::Report,
    typical::{crashed, Typical},
    util::{par_until, run_fast, tree, write_file, Out, Rng, Scratch},
};
use std::{
    collections::BTreeMap,
    fs,
    os::unix::fs::symlink,
    path::{Path, PathBuf},
    process::Command,
    time::{Duration, SystemTime},
};

const SHIM: &str = include_str!("../../drv/shim.c");

type Tree = BTreeMap<String, Vec<u8>>;
type Sources = Vec<(String, Vec<u8>)>;

struct Ctx<'a> {
    rep: &'a Report,
    typ: &'a Typical,
    shim: PathBuf,
}

// A fault: class of call, which one (0: all), error (see shim.c).
type Fault = (&'static str, usize, i32);

const HARD: &[(&str, &[i32])] = &[
    ("openr", &[13, 5, 24, 2, 4]),
    ("read", &[5, 21, 4, -1]),
    ("realpath", &[13, 40, 2, 5]),
    ("mkdir", &[13, 28, 30, 17, 2]),
    ("openw", &[13, 28, 30, 26, 4]),
    ("write", &[28, 5, 122, 4, -1, -2]),
    ("rename", &[13, 28]),
    ("unlink", &[13]),
];

fn class(s: &str) -> Option<&'static str> {
    HARD.iter().map(|x| x.0).find(|c| *c == s)
}

// Every file and directory, with what can be observed of changes.
fn stamps(root: &Path) -> BTreeMap<String, (Vec<u8>, Option<SystemTime>)> {
    tree(root)
        .into_iter()
        .map(|(k, v)| {
            let t = fs::symlink_metadata(root.join(&k)).and_then(|m| m.modified()).ok();
            (k.clone(), (v, if k.ends_with('/') { None } else { t }))
        })
        .collect()
}

fn put(root: &Path, files: &Sources) {
    let old = SystemTime::now() - Duration::from_secs(1000);
    for (p, t) in files {
        let at = root.join(p);
        write_file(&at, t);
        if let Ok(f) = fs::File::options().write(true).open(&at) {
            let _ = f.set_modified(old);
        }
    }
}

impl Ctx<'_> {
    fn cmd(&self, cwd: &Path, root: &Path, fault: Option<Fault>, log: &Path) -> Command {
        let _ = fs::remove_file(log);
        let mut c = self.typ.cmd(cwd);
        c.env("LD_PRELOAD", &self.shim).env("VHF_ROOT", root).env("VHF_LOG", log);
        if let Some((f, n, e)) = fault {
            // Interruptions must end.
            let which = match (n, e) {
                (0, 4) => "odd".into(),
                (0, _) => "all".into(),
                _ => n.to_string(),
            };
            c.env("VHF_FN", f).env("VHF_N", which).env("VHF_ERR", e.to_string());
        }
        c
    }
}

// The calls of a run, in order.
fn calls(log: &Path) -> Vec<(&'static str, bool)> {
    fs::read_to_string(log)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let fired = it.next()? == "fired";
            Some((class(it.next()?)?, fired))
        })
        .collect()
}

fn reported(o: &Out) -> bool {
    o.code == Some(1) && o.err().contains("[Error]")
}

pub fn c19(rep: &Report, typ: &Typical) {
    let d = Scratch::new("C19-shim");
    fs::write(d.path.join("shim.c"), SHIM).unwrap();
    let shim = d.path.join("shim.so");
    let o = Command::new("gcc")
        .args(["-O1", "-shared", "-fPIC", "-o"])
        .arg(&shim)
        .arg(d.path.join("shim.c"))
        .output();
    if !o.as_ref().is_ok_and(|o| o.status.success()) {
        rep.inconclusive(format!("cannot build the shim: {o:?}"));
        return;
    }
    let cx = Ctx { rep, typ, shim };
    usage(&cx);
    shells(&cx);
    stdout(&cx);
    let nb = rep.n(1600, 40_000);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C19", bi as u64);
        one(&cx, &mut rng, bi);
    });
    for (k, n) in [
        ("generate: faults injected", 5000),
        ("format: faults injected", 3000),
        ("faults answered with exit status 1", 3000),
        ("calls cut short without consequence", 500),
        ("generate: impossible outputs", 100),
        ("generate: invalid schemas", 500),
    ] {
        rep.require(k, n);
    }
}

// Where an output goes, and what is there before. None if nothing can be written there.
struct Place {
    path: PathBuf,
    possible: bool,
    what: &'static str,
}

fn place(rng: &mut Rng, root: &Path, name: &str, right: &[u8]) -> Place {
    let tag = if name.ends_with("rs") { "r" } else { "t" };
    let base = root.join(if rng.chance(1, 3) { "schemas" } else { "elsewhere" });
    fs::create_dir_all(&base).unwrap();
    let p = base.join(format!("out-{name}"));
    let stale = |rng: &mut Rng| -> Vec<u8> {
        match rng.below(6) {
            0 => vec![],
            1 => b"stale".to_vec(),
            2 => right[..right.len() / 2].to_vec(),
            3 => {
                let mut v = right.to_vec();
                v.extend(b"// more\n".repeat(rng.range(1, 3000)));
                v
            }
            4 => vec![b'x'; right.len()],
            _ => {
                let mut v = right.to_vec();
                let k = v.len() / 3;
                v[k] ^= 1;
                v
            }
        }
    };
    let (path, possible, what) = match rng.below(14) {
        0..=2 => (p, true, "missing"),
        3 | 4 => (base.join(format!("new-{tag}/{name}")), true, "missing directory"),
        5 => (base.join(format!("new-{tag}/b/ü c/{name}")), true, "missing directories"),
        6..=8 => {
            fs::write(&p, stale(rng)).unwrap();
            (p, true, "stale")
        }
        9 => {
            let l = base.join(format!("link-{name}"));
            let _ = fs::remove_file(&l);
            if rng.chance(1, 2) {
                fs::write(&p, stale(rng)).unwrap();
            }
            symlink(&p, &l).unwrap();
            (l, true, "link")
        }
        10 => {
            fs::write(&p, right).unwrap();
            (p, true, "already right")
        }
        11 => {
            fs::create_dir_all(p.join("inside")).unwrap();
            (p, false, "a directory is in the way")
        }
        12 => {
            fs::write(&p, b"a file").unwrap();
            (p.join(if rng.chance(1, 2) { "b/c" } else { "c" }), false, "a file is in the way")
        }
        _ => {
            let l = base.join(format!("dangling-{tag}"));
            let _ = fs::remove_file(&l);
            symlink(base.join("no/where"), &l).unwrap();
            (l.join(name), false, "a dangling link is in the way")
        }
    };
    Place { path, possible, what }
}

fn one(cx: &Ctx, rng: &mut Rng, bi: usize) {
    let rep = cx.rep;
    let d = Scratch::new("C19");
    let cfg = Cfg { max_decls: 5, max_fields: 4, max_files: 4, dotted: true, ..Cfg::front() };
    let p = gen_program(rng, &cfg);
    let st = Style { wild: true, comments: true, crlf: rng.chance(1, 8), refs: true };
    let origin = d.path.join("origin");
    let texts = write_program(rng, &p, &st, &origin);
    let mut sources: Sources = p.files.iter().zip(&texts).map(|(f, t)| (f.path(), t.clone().into_bytes())).collect();
    // Files that are no business of the compiler.
    sources.push(("README".into(), b"not a schema\n".to_vec()));
    sources.push(("unused.t".into(), b"struct   X { }".to_vec()));
    let main = p.files[0].path();
    let rp = d.path.join("ref.rs");
    let tp = d.path.join("ref.ts");
    let x = cx.typ.generate(&origin, &main, Some(&rp.to_string_lossy()), Some(&tp.to_string_lossy()));
    if !x.ok() {
        rep.count("rejections (C15/C16's business)", 1);
        return;
    }
    let right = [fs::read(&rp).unwrap_or_default(), fs::read(&tp).unwrap_or_default()];
    rep.sample(bi as u64, || texts.join("\n----\n"));
    rep.distinct(texts.join("\n").as_bytes());
    generate(cx, rng, &d.path, &sources, &main, &right, &texts);
    invalid(cx, rng, &d.path, &sources, &main, p.reachable().into_iter().collect(), &right);
    format(cx, rng, &d.path, &sources, &main);
}

// How the command names the schema.
fn arg(rng: &mut Rng, root: &Path, main: &str) -> (PathBuf, String) {
    let s = root.join("schemas");
    match rng.below(3) {
        0 => (s, main.to_owned()),
        1 => (root.to_path_buf(), format!("schemas/{main}")),
        _ => (root.to_path_buf(), s.join(main).to_string_lossy().into_owned()),
    }
}

fn pick_faults(rng: &mut Rng, trace: &[(&'static str, bool)], thorough: bool) -> Vec<Fault> {
    let mut v = vec![];
    for (c, errs) in HARD {
        let n = trace.iter().filter(|x| x.0 == *c).count();
        for k in 1..=n {
            if thorough {
                for e in *errs {
                    v.push((*c, k, *e));
                }
            } else {
                v.push((*c, k, *rng.pick(errs)));
            }
        }
        if n > 0 && (thorough || rng.chance(1, 4)) {
            v.push((*c, 0, *rng.pick(errs)));
        }
    }
    v
}

fn generate(cx: &Ctx, rng: &mut Rng, dir: &Path, sources: &Sources, main: &str, right: &[Vec<u8>; 2], texts: &[String]) {
    let rep = cx.rep;
    let root = dir.join("g");
    let log = dir.join("log");
    // The scene is set from the same random numbers again and again.
    let scene = rng.clone();
    rng.next();
    let want = *rng.pick(&[[true, true], [true, true], [true, false], [false, true], [false, false]]);
    let list = rng.chance(1, 4);
    let relative = rng.chance(1, 4);
    let set = || -> (Vec<Option<Place>>, PathBuf, String) {
        let mut r = scene.clone();
        let _ = fs::remove_dir_all(&root);
        put(&root.join("schemas"), sources);
        let a = place(&mut r, &root, "o.rs", &right[0]);
        let b = place(&mut r, &root, "o.ts", &right[1]);
        let (cwd, arg) = arg(&mut r, &root, main);
        (vec![want[0].then_some(a), want[1].then_some(b)], cwd, arg)
    };
    let go = |fault: Option<Fault>| -> Option<Vec<(&'static str, bool)>> {
        let (places, cwd, arg) = set();
        let before = stamps(&root);
        let mut c = cx.cmd(&cwd, &root, fault, &log);
        c.args(["generate", &arg]);
        for (p, flag) in places.iter().zip(["--rust", "--typescript"]) {
            if let Some(p) = p {
                c.arg(flag);
                match p.path.strip_prefix(&cwd) {
                    Ok(q) if relative => c.arg(q),
                    _ => c.arg(&p.path),
                };
            }
        }
        if list {
            c.arg("--list-schemas");
        }
        let o = run_fast(&mut c);
        rep.eval();
        let trace = calls(&log);
        let fired = trace.iter().any(|x| x.1);
        let after = stamps(&root);
        let bad = |what: &str, detail: String| {
            let what = &format!("generate: {what}");
            let w: Vec<String> = places.iter().flatten().map(|p| format!("{} ({})", p.path.display(), p.what)).collect();
            rep.violation(
                what,
                format!("{detail}\nfault {fault:?}, in {}, schema {arg}\noutputs {w:?}\n{}\n{}", cwd.display(), o.describe(), clip(&texts.join("\n----\n"))),
                sources.clone(),
            );
            None
        };
        if crashed(&o) {
            return bad("the compiler crashes", String::new());
        }
        // Nothing but the outputs, and directories for them, may change.
        for (k, (v, t)) in &after {
            let at = root.join(k);
            let ours = places.iter().flatten().any(|p| {
                at == p.path || (k.ends_with('/') && p.path.starts_with(&at)) || fs::read_link(&p.path).is_ok_and(|l| l == at)
            });
            match before.get(k) {
                _ if ours => {}
                None => return bad("creates other files", k.clone()),
                Some((w, u)) if w != v => return bad("changes other files", format!("{k} {:?} {:?}", t, u)),
                Some((_, u)) if u != t => return bad("writes other files", k.clone()),
                Some(_) => {}
            }
        }
        if let Some(k) = before.keys().find(|k| !after.contains_key(*k)) {
            return bad("removes files", k.clone());
        }
        let complete = places.iter().zip(right).all(|(p, r)| p.as_ref().map_or(true, |p| fs::read(&p.path).is_ok_and(|b| b == *r)));
        let possible = places.iter().flatten().all(|p| p.possible);
        match o.code {
            Some(0) if !complete => return bad("exits with 0 although an output is not complete", String::new()),
            Some(0) => {}
            _ if !reported(&o) => return bad("fails without a report", String::new()),
            _ => {}
        }
        match fault {
            None => {
                if o.ok() != possible {
                    return bad("fails although nothing is wrong", String::new());
                }
                rep.count(if possible { "generate: runs without faults" } else { "generate: impossible outputs" }, 1);
                for p in places.iter().flatten() {
                    rep.count(&format!("generate: output was {}", p.what), 1);
                }
                if !list && !o.stdout.is_empty() {
                    return bad("prints to standard output", o.out());
                }
            }
            Some((f, _, e)) => {
                if fired {
                    rep.count("generate: faults injected", 1);
                    rep.count(&format!("fault {f} {e}"), 1);
                }
                if e == -1 && fired {
                    if o.ok() != possible {
                        return bad("short reads or writes make it fail", String::new());
                    }
                    rep.count("calls cut short without consequence", 1);
                }
                if fired && o.code == Some(1) {
                    rep.count("faults answered with exit status 1", 1);
                }
                // If anything cannot be loaded, there is no output.
                if fired && o.code == Some(1) && ["openr", "read", "realpath"].contains(&f) && possible {
                    if let Some((k, _)) = after.iter().find(|(k, v)| before.get(*k) != Some(v)) {
                        return bad("output although a schema could not be loaded", k.clone());
                    }
                }
            }
        }
        Some(trace)
    };
    let Some(trace) = go(None) else { return };
    for f in pick_faults(rng, &trace, rep.thorough()) {
        if go(Some(f)).is_none() {
            return;
        }
    }
}

fn invalid(cx: &Ctx, rng: &mut Rng, dir: &Path, sources: &Sources, main: &str, reach: Vec<usize>, right: &[Vec<u8>; 2]) {
    let rep = cx.rep;
    let root = dir.join("i");
    let mut sources = sources.clone();
    let k = *rng.pick(&reach);
    let mut arg_main = main.to_owned();
    let t = &mut sources[k].1;
    let what = match rng.below(10) {
        0 => {
            t.extend(b"\nstruct Zq { a: U64 = 0 b: U64 = 0 }\n");
            "index twice"
        }
        1 => {
            t.extend(b"\nstruct Zq { a: Zq = 0 }\n");
            "cycle"
        }
        2 => {
            t.extend(b"\nstruct Zq { a: Qz = 0 }\n");
            "missing type"
        }
        3 => {
            t.extend(b"\nstruct Zq { }\nchoice zq { }\n");
            "declared twice"
        }
        4 => {
            t.extend(b"\nstruct {\n");
            "syntax"
        }
        5 => {
            t.extend(b"\n~\n");
            "token"
        }
        6 => {
            let mut v = b"import 'not/there.t' as qzq\n".to_vec();
            v.extend(t.iter());
            *t = v;
            "missing import"
        }
        7 => {
            t.extend(b"\n# \xff\n");
            "not UTF-8"
        }
        8 => {
            t.extend(b"\nchoice Zq { a: U64 = 1 }\n");
            "index gap"
        }
        _ => {
            arg_main = (*rng.pick(&["nothing.t", "README/x.t", ".", "..", "", "unused.t/", "no/such/main.t"])).to_owned();
            "no such schema"
        }
    };
    put(&root.join("schemas"), &sources);
    let a = place(rng, &root, "o.rs", &right[0]);
    let b = place(rng, &root, "o.ts", &right[1]);
    let before = stamps(&root);
    let (cwd, arg) = if arg_main == main { arg(rng, &root, main) } else { (root.join("schemas"), arg_main) };
    let mut c = cx.typ.cmd(&cwd);
    c.args(["generate", &arg]);
    if !rng.chance(1, 5) {
        c.arg("--rust").arg(&a.path);
    }
    if !rng.chance(1, 5) {
        c.arg("--typescript").arg(&b.path);
    }
    if rng.chance(1, 4) {
        c.arg("--list-schemas");
    }
    let o = run_fast(&mut c);
    rep.eval();
    rep.count("generate: invalid schemas", 1);
    let after = stamps(&root);
    let show = || format!("{what} in {}, schema {arg}\n{}", sources[k].0, o.describe());
    if !reported(&o) {
        rep.violation("generate: an invalid schema is not answered with exit status 1 and a report", show(), sources.clone());
    } else if before != after {
        let k: Vec<&String> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|x| x.0).collect();
        rep.violation("generate: an invalid schema, yet files changed", format!("{k:?}\n{}", show()), sources.clone());
    } else if !o.stdout.is_empty() {
        rep.violation("generate: an invalid schema, yet something on standard output", show(), sources.clone());
    }
}

fn format(cx: &Ctx, rng: &mut Rng, dir: &Path, sources: &Sources, main: &str) {
    let rep = cx.rep;
    let root = dir.join("f");
    let log = dir.join("log");
    let fresh = |s: &Sources| {
        let _ = fs::remove_dir_all(&root);
        put(&root.join("schemas"), s);
    };
    let (cwd, arg) = arg(rng, &root, main);
    let plain = |t: &BTreeMap<String, (Vec<u8>, Option<SystemTime>)>| -> Tree { t.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect() };
    // The reference: what a run without faults leaves.
    fresh(sources);
    let mut c = cx.cmd(&cwd, &root, None, &log);
    let o = run_fast(c.args(["format", &arg]));
    if !o.ok() {
        rep.violation("format: fails although nothing is wrong", o.describe(), sources.clone());
        return;
    }
    let trace = calls(&log);
    let formatted = tree(&root);
    // Some of the files may have been formatted before.
    let mut start = sources.clone();
    let share = *rng.pick(&[0, 0, 50, 100]);
    for (p, t) in &mut start {
        if rng.chance(share, 100) {
            *t = formatted[&format!("schemas/{p}")].clone();
        }
    }
    fresh(&start);
    let dirty = tree(&root) != formatted;
    let trace = if share == 0 {
        trace
    } else {
        let mut c = cx.cmd(&cwd, &root, None, &log);
        let o = run_fast(c.args(["format", &arg]));
        if !o.ok() || tree(&root) != formatted {
            rep.violation("format: formatting again gives another result", o.describe(), start.clone());
            return;
        }
        calls(&log)
    };
    let first_write = trace.iter().position(|x| !["openr", "read", "realpath"].contains(&x.0)).unwrap_or(trace.len());
    let go = |fault: Option<Fault>, check: bool, loading: bool| -> bool {
        fresh(&start);
        let before = stamps(&root);
        let mut c = cx.cmd(&cwd, &root, fault, &log);
        c.args(["format", &arg]);
        if check {
            c.arg("--check");
        }
        let o = run_fast(&mut c);
        rep.eval();
        let log_text = fs::read_to_string(&log).unwrap_or_default();
        let fired: Vec<&str> = log_text.lines().filter_map(|l| l.strip_prefix("fired ")?.split_once(' ')).map(|x| x.1).collect();
        let after = stamps(&root);
        let bad = |what: &str, detail: String| {
            rep.violation(
                &format!("format: {what}"),
                format!("{detail}\nfault {fault:?}, check {check}, in {}, schema {arg}\n{}", cwd.display(), o.describe()),
                start.clone(),
            );
            false
        };
        if crashed(&o) {
            return bad("the formatter crashes", String::new());
        }
        if o.code == Some(1) && !reported(&o) {
            return bad("fails without a report", String::new());
        }
        if !o.stdout.is_empty() {
            return bad("prints to standard output", o.out());
        }
        if check && before != after {
            return bad("--check changes files", String::new());
        }
        if !check && o.ok() && plain(&after) != formatted {
            return bad("exits with 0 although not everything is formatted", String::new());
        }
        if check && o.ok() && dirty {
            return bad("--check succeeds although something is not formatted", String::new());
        }
        if after.len() != before.len() {
            return bad("creates or removes files", format!("{:?}", after.keys()));
        }
        for (k, v) in &after {
            let hit = fired.iter().any(|f| cwd.join(f).canonicalize().is_ok_and(|c| c == root.join(k).canonicalize().unwrap_or_default()));
            let was = before.get(k);
            if was.is_none_or(|w| w != v) && Some(&v.0) != formatted.get(k) && !hit {
                return bad("a file is neither as before nor formatted", k.clone());
            }
            if was.is_none_or(|w| w != v) && was.map(|w| &w.0) == formatted.get(k) && !hit {
                return bad("a file that was formatted is written", k.clone());
            }
        }
        if fault.is_none() && o.ok() != (!check || !dirty) {
            return bad("wrong exit status", String::new());
        }
        if let Some((f, _, e)) = fault {
            if !fired.is_empty() {
                rep.count("format: faults injected", 1);
                rep.count(&format!("fault {f} {e}"), 1);
                if e == -1 {
                    if o.ok() != (!check || !dirty) {
                        return bad("short reads or writes make it fail", String::new());
                    }
                    rep.count("calls cut short without consequence", 1);
                }
                if o.code == Some(1) {
                    rep.count("faults answered with exit status 1", 1);
                    if loading && before != after {
                        return bad("a schema could not be loaded, yet files changed", String::new());
                    }
                }
            }
        }
        true
    };
    if !go(None, false, false) || !go(None, true, false) {
        return;
    }
    for f in pick_faults(rng, &trace, rep.thorough()) {
        let nth = trace.iter().enumerate().filter(|x| x.1 .0 == f.0).nth(f.1.saturating_sub(1)).map_or(0, |x| x.0);
        let loading = nth < first_write && f.1 > 0;
        if !go(Some(f), false, loading) {
            return;
        }
        if ["openr", "read", "realpath"].contains(&f.0) && rng.chance(1, 3) && !go(Some(f), true, loading) {
            return;
        }
    }
    // What needs no writing works where nothing can be written.
    if !go(Some(("openw", 0, 30)), true, false) {
        return;
    }
    // A schema that cannot be loaded: nothing changes.
    let mut broken = start.clone();
    let reach: Vec<usize> = (0..broken.len()).filter(|i| formatted[&format!("schemas/{}", broken[*i].0)] != sources[*i].1 || broken[*i].0 == main).collect();
    let k = *rng.pick(&reach);
    match rng.below(4) {
        0 => broken[k].1.extend(b"\nstruct {\n"),
        1 => broken[k].1.extend(b"\n$\n"),
        2 => broken[k].1.extend(b"\n# \xff\n"),
        _ => {
            let mut v = b"import 'not/there.t' as qzq\n".to_vec();
            v.extend(&broken[k].1);
            broken[k].1 = v;
        }
    }
    fresh(&broken);
    let before = stamps(&root);
    let o = cx.typ.format(&cwd, &arg, rng.chance(1, 3));
    rep.eval();
    rep.count("format: schemas that cannot be loaded", 1);
    if !reported(&o) || stamps(&root) != before {
        rep.violation("format: a schema that cannot be loaded: no report, or files changed", format!("{}\n{}", broken[k].0, o.describe()), broken);
    }
}

// Wrong command lines do nothing.
fn usage(cx: &Ctx) {
    let rep = cx.rep;
    let d = Scratch::new("C19");
    let files: Sources = vec![("main.t".into(), b"struct   A { x : U64=0 }".to_vec()), ("b.t".into(), b"struct B {}".to_vec())];
    put(&d.path, &files);
    let before = stamps(&d.path);
    let wrong: &[&[&str]] = &[
        &[],
        &["generate"],
        &["format"],
        &["shell-completion"],
        &["nothing"],
        &["Generate", "main.t", "--rust", "o.rs"],
        &["main.t"],
        &["generate", "main.t", "b.t", "--rust", "o.rs"],
        &["format", "main.t", "b.t"],
        &["generate", "main.t", "--rust"],
        &["generate", "main.t", "--typescript"],
        &["generate", "main.t", "--rust", "o.rs", "--java", "o.java"],
        &["generate", "main.t", "--rust", "o.rs", "--rust", "p.rs"],
        &["generate", "main.t", "--rust", "o.rs", "--check"],
        &["generate", "--rust", "o.rs"],
        &["format", "main.t", "--rust", "o.rs"],
        &["format", "main.t", "--chekc"],
        &["format", "--check"],
        &["--rust", "o.rs", "generate", "main.t"],
        &["shell-completion", "bash", "zsh"],
        &["generate", "main.t", "--rust", ""],
        &["generate", "main.t", "--typescript", "."],
        &["generate", "main.t", "--rust", "b.t/o.rs"],
    ];
    for a in wrong {
        let o = cx.typ.run(&d.path, a);
        rep.eval();
        rep.count("wrong command lines", 1);
        if o.ok() || o.code.is_none() || o.code == Some(101) || o.stderr.is_empty() || stamps(&d.path) != before {
            rep.violation("a wrong command line succeeds, crashes, says nothing or changes files", format!("{a:?}\n{}", o.describe()), vec![]);
        }
    }
    for a in [&["--help"][..], &["--version"], &["-v"], &["generate", "--help"], &["format", "--help"], &["help"]] {
        let o = cx.typ.run(&d.path, a);
        rep.eval();
        if !o.ok() || o.stdout.is_empty() || stamps(&d.path) != before {
            rep.violation("help or version do not work", format!("{a:?}\n{}", o.describe()), vec![]);
        }
    }
}

// What is printed is output as well: if it can't be written, that's reported.
fn stdout(cx: &Ctx) {
    let rep = cx.rep;
    let d = Scratch::new("C19");
    let files: Sources = vec![
        ("main.t".into(), b"import 'b.t'\n\nstruct A {\n    x: b.B = 0\n}\n".to_vec()),
        ("b.t".into(), b"struct B {\n}\n".to_vec()),
    ];
    put(&d.path, &files);
    let before = stamps(&d.path);
    for a in [
        &["generate", "main.t", "--list-schemas"][..],
        &["shell-completion", "bash"],
        &["shell-completion", "Fish"],
        &["shell-completion", "zsh"],
        &["shell-completion", "powershell"],
        &["shell-completion", "elvish"],
    ] {
        let right = cx.typ.run(&d.path, a);
        for e in ["28", "5", "32", "-1"] {
            let mut c = cx.typ.cmd(&d.path);
            c.args(a).env("LD_PRELOAD", &cx.shim).env("VHF_STDOUT", e);
            let o = run_fast(&mut c);
            rep.eval();
            rep.count("faults of the standard output", 1);
            let fine = if e == "-1" { o.ok() && o.stdout == right.stdout } else { reported(&o) };
            if !fine || stamps(&d.path) != before {
                rep.violation("a failure to write to the standard output is not handled", format!("{a:?}\nerror {e}\n{}", o.describe()), files.clone());
            }
        }
    }
}

fn cases(rng: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect()
}

fn shells(cx: &Ctx) {
    let rep = cx.rep;
    let d = Scratch::new("C19");
    let before = stamps(&d.path);
    let mut rng = Rng::case(rep.seed, "C19-shells", 0);
    let known = [
        ("bash", "complete -F"),
        ("fish", "complete -c typical"),
        ("zsh", "#compdef typical"),
        ("powershell", "Register-ArgumentCompleter"),
        ("elvish", "edit:completion:arg-completer[typical]"),
    ];
    for (shell, mark) in known {
        let first = cx.typ.run(&d.path, &["shell-completion", shell]);
        let text = first.out();
        let says = ["generate", "format", "shell-completion", "rust", "typescript", "list-schemas", "check"];
        if !first.ok() || !text.contains(mark) || says.iter().any(|s| !text.contains(s)) {
            rep.violation("shell-completion: no script", format!("{shell}\n{}\n{}", first.describe(), clip(&text)), vec![]);
            continue;
        }
        for k in 0..rep.n(60, 1500) {
            let s = match k {
                0 => shell.to_uppercase(),
                1 => shell[..1].to_uppercase() + &shell[1..],
                _ => cases(&mut rng, shell),
            };
            let o = cx.typ.run(&d.path, &["shell-completion", &s]);
            rep.eval();
            rep.count("shell-completion: spellings of shells", 1);
            if !o.ok() || o.stdout != first.stdout {
                rep.violation("shell-completion: the letter case matters", format!("{s}\n{}", o.describe()), vec![]);
                break;
            }
        }
        if shell == "bash" {
            // The script works.
            let f = d.path.join("script");
            fs::write(&f, &first.stdout).unwrap();
            for (line, at, expect) in [
                ("typical ge", 1, vec!["generate"]),
                ("typical ''", 1, vec!["generate", "format", "shell-completion"]),
                ("typical generate --r", 2, vec!["--rust"]),
                ("typical generate --", 2, vec!["--rust", "--typescript", "--list-schemas"]),
                ("typical format --", 2, vec!["--check"]),
            ] {
                let script = format!(
                    "source {}; COMP_WORDS=({line}); COMP_CWORD={at}; _typical typical \"${{COMP_WORDS[{at}]}}\" x; echo \"${{COMPREPLY[@]}}\"",
                    f.display()
                );
                let o = run_fast(Command::new("bash").args(["--norc", "-c", &script]).current_dir(&d.path));
                rep.eval();
                let got: Vec<String> = o.out().split_whitespace().map(str::to_owned).collect();
                if expect.iter().any(|e| !got.contains(&(*e).to_owned())) {
                    rep.violation("shell-completion: the script for bash does not complete", format!("{line}: {got:?}\n{}", o.describe()), vec![]);
                }
            }
            let _ = fs::remove_file(&f);
        }
    }
    let mut others: Vec<String> = [
        "", "sh", "ksh", "csh", "tcsh", "nu", "cmd", "pwsh", "power-shell", "power shell", "ba sh", "bashh", "bas", "zs", "zshh", "fis", "elvis", "baſh",
        "fıſh", "BASH,", "--", "bash zsh", "b", "1", "PowerShell7", "ＢＡＳＨ", "dash", "xonsh",
    ]
    .iter()
    .map(|s| (*s).to_owned())
    .collect();
    for _ in 0..rep.n(60, 1000) {
        let (s, _) = *rng.pick(&known);
        let mut c: Vec<char> = cases(&mut rng, s).chars().collect();
        let k = rng.below(c.len());
        match rng.below(3) {
            0 => {
                c.remove(k);
            }
            1 => c.insert(k, *rng.pick(&['a', 'h', 'q', '-', '1'])),
            _ => c[k] = *rng.pick(&['q', '_', '7', 'é']),
        }
        others.push(c.into_iter().collect());
    }
    for s in others {
        if known.iter().any(|k| s.eq_ignore_ascii_case(k.0)) {
            continue;
        }
        let o = cx.typ.run(&d.path, &["shell-completion", &s]);
        rep.eval();
        rep.count("shell-completion: other shells", 1);
        if o.ok() || crashed(&o) || !o.stdout.is_empty() || o.stderr.is_empty() {
            rep.violation("shell-completion: another shell is not rejected", format!("{s:?}\n{}\n{}", o.describe(), clip(&o.out())), vec![]);
        }
    }
    if stamps(&d.path) != before {
        rep.violation("shell-completion: changes files", String::new(), vec![]);
    }
}
