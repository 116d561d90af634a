// C18: where imports lead, with the operating system as the judge.
use super::runtime::clip;
use crate::{
    model, parse, raw,
    report::Report,
    typical::{crashed, Typical},
    util::{par_until, tree, Rng, Scratch},
    validate::ns_key,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    os::unix::fs::symlink,
    path::{Path, PathBuf},
};

struct World {
    base: PathBuf,         // canonical
    dirs: Vec<PathBuf>,    // real directories, inside and outside
    files: Vec<PathBuf>,   // real schema files, inside and outside
    links: Vec<PathBuf>,
}

fn build(rng: &mut Rng, root: &Path) -> World {
    let base = root.join(rng.pick::<&str>(&["base", "b a s e", "日本", "b.t"]));
    let mut dirs = vec![base.clone()];
    for _ in 0..rng.below(5) {
        let d = rng.pick(&dirs).clone();
        let n = d.join(rng.pick::<&str>(&["a", "b", "c", "d-e", "F", "g_h", "ü"]));
        // Directories that differ in convention only would be the same namespace.
        if !dirs.contains(&n) {
            dirs.push(n);
        }
    }
    // Deep directories, perhaps of the same name.
    if rng.chance(1, 3) {
        let mut d = rng.pick(&dirs).clone();
        for _ in 0..rng.range(2, 5) {
            d = d.join(rng.pick::<&str>(&["a", "a", "b", "c", "x"]));
            if !dirs.contains(&d) {
                dirs.push(d.clone());
            }
        }
    }
    // A directory next to the base directory whose name begins like that of the base directory, and
    // perhaps one named like the rest in the base directory.
    let rest = *rng.pick(&["2", "a", "b"]);
    if rng.chance(1, 2) && !dirs.contains(&base.join(rest)) {
        dirs.push(base.join(rest));
    }
    let inside = dirs.len();
    dirs.push(root.to_path_buf());
    dirs.push(root.join("out"));
    let mut sibling = base.clone().into_os_string();
    sibling.push(rest);
    let sibling = PathBuf::from(sibling);
    let twin = base.join(rest);
    dirs.push(sibling.clone());
    for d in &dirs {
        fs::create_dir_all(d).unwrap();
    }
    let mut files = vec![base.join("main.t")];
    let conflicts = rng.chance(1, 10);
    let mut keys = BTreeSet::new();
    keys.insert(ns_key("main.t"));
    for _ in 0..rng.range(1, 6) {
        let d = dirs[rng.below(inside)].clone();
        // Perhaps named like its directory or one next to it.
        let like = rng.chance(1, 4).then(|| rng.pick(&dirs[1..inside.max(2)]).clone());
        let f = if let Some(l) = like.filter(|l| l.starts_with(&base) && *l != base) {
            let n = format!("{}.t", l.file_name().unwrap().to_string_lossy());
            if rng.chance(1, 2) { l.join(n) } else { l.with_file_name(n) }
        } else {
            d.join(rng.pick::<&str>(&["x.t", "y.t", "z.typ", "w", "main.t", "Xx.t", "x-y.t", "v.schema", "a.t", "x.typ", "x_y.t"]))
        };
        let k = ns_key(&f.strip_prefix(&base).unwrap().to_string_lossy());
        if !files.contains(&f) && !dirs.contains(&f) && (keys.insert(k) || conflicts) {
            files.push(f);
        }
    }
    for d in &dirs[inside..] {
        if rng.chance(1, 2) {
            files.push(d.join(rng.pick::<&str>(&["x.t", "o.t", "main.t"])));
        }
    }
    for f in files.clone() {
        // The same file names on both sides.
        let Ok(n) = f.strip_prefix(&twin) else { continue };
        let g = sibling.join(n);
        if n.components().count() == 1 && !files.contains(&g) {
            files.push(g);
        }
    }
    for f in &files {
        fs::write(f, "").unwrap();
    }
    let mut links: Vec<PathBuf> = vec![];
    for k in 0..rng.below(6) {
        let d = rng.pick(&dirs).clone();
        let l = d.join(format!("{}{k}", rng.pick::<&str>(&["l", "ln", "a", "x.t"])));
        if l.exists() || l.symlink_metadata().is_ok() {
            continue;
        }
        let to: PathBuf = match rng.below(9) {
            0 | 1 | 2 => rng.pick(&dirs).clone(),
            3 | 4 => rng.pick(&files).clone(),
            5 => PathBuf::from(".."),
            6 if !links.is_empty() => rng.pick(&links).clone(),
            7 => PathBuf::from(rng.pick::<&str>(&["nowhere", "./nowhere/x.t", "/nonexistent/x.t"])),
            _ => l.clone(),
        };
        let to = if rng.chance(1, 2) && to.starts_with(root) && to != l {
            // Relative.
            let a: Vec<String> = l.components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect();
            let b: Vec<String> = to.components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect();
            let r = model::rel_path(&a, &b);
            PathBuf::from(if r.is_empty() { ".".into() } else { r })
        } else {
            to
        };
        if symlink(&to, &l).is_ok() {
            links.push(l);
        }
    }
    World { base, dirs, files, links }
}

fn names(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(d)
        .map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

// Some way from a directory to a file.
fn spell(rng: &mut Rng, w: &World, root: &Path, from: &Path, to: &Path) -> String {
    let mut s = String::new();
    let mut cur = from.to_path_buf();
    if rng.chance(1, 6) {
        cur = PathBuf::from("/");
        s.push('/');
        if rng.chance(1, 2) {
            cur = rng.pick(&w.dirs).clone();
            s = format!("{}/", cur.display());
        }
    }
    for _ in 0..rng.below(4) {
        match rng.below(5) {
            0 => s += "./",
            1 => s += if s.is_empty() { "./" } else { "/" },
            2 if cur.starts_with(root) && cur != root => {
                s += "../";
                cur.pop();
            }
            _ => {
                let ds: Vec<String> = names(&cur).into_iter().filter(|n| cur.join(n).is_dir()).collect();
                if !ds.is_empty() && cur.starts_with(root) {
                    let n = rng.pick(&ds).clone();
                    if let Ok(c) = cur.join(&n).canonicalize() {
                        cur = c;
                        s += &n;
                        s.push('/');
                    }
                }
            }
        }
    }
    // Straight on from here.
    let mut up = PathBuf::from(&cur);
    let target_dir = to.parent().unwrap();
    while !target_dir.starts_with(&up) {
        up.pop();
        s += "../";
    }
    for c in target_dir.strip_prefix(&up).unwrap().components() {
        s += &c.as_os_str().to_string_lossy();
        s += "/";
    }
    // A link to the file, if there is one.
    let alike: Vec<String> = names(target_dir)
        .into_iter()
        .filter(|n| target_dir.join(n).canonicalize().is_ok_and(|c| c == to))
        .collect();
    let n = if alike.is_empty() { to.file_name().unwrap().to_string_lossy().into_owned() } else { rng.pick(&alike).clone() };
    s + &n
}

pub fn c18(rep: &Report, typ: &Typical) {
    let nb = rep.n(14000, 400_000);
    par_until(nb, &|| rep.stop(), |bi| one(rep, typ, bi));
    rep.require("accepted trees", 2000);
    rep.require("rejected trees", 2000);
    rep.require("imports through symbolic links", 500);
    main_through_link(rep, typ);
    layers(rep, typ);
}

// Ever more ways to the same files.
fn layers(rep: &Report, typ: &Typical) {
    let d = Scratch::new("C18");
    let n = 60;
    for i in 0..n {
        let j = i + 1;
        let text = format!("import './d/../f{j}.t' as a\nimport 'f{j}.t' as b\nimport 'f0.t' as c\n\nstruct A {{\n    x: a.A = 0\n    y: b.A = 1\n}}\n");
        fs::write(d.path.join(format!("f{i}.t")), text).unwrap();
    }
    fs::create_dir(d.path.join("d")).unwrap();
    fs::write(d.path.join(format!("f{n}.t")), "struct A {\n}\n").unwrap();
    let x = typ.run(&d.path, &["generate", "f0.t", "--list-schemas"]);
    rep.eval();
    let mut v: Vec<String> = x.out().lines().map(str::to_owned).collect();
    v.sort();
    v.dedup();
    if !x.ok() || v.len() != n + 1 || x.out().lines().count() != n + 1 {
        rep.violation("a schema with many ways to each file is not loaded once per file", clip(&x.describe()), vec![]);
    }
    rep.count("files in layers of imports", v.len() as u64);
}

fn one(rep: &Report, typ: &Typical, bi: usize) {
    let mut rng = Rng::case(rep.seed, "C18", bi as u64);
    let rng = &mut rng;
    let scratch = Scratch::new("C18");
    let root = scratch.path.canonicalize().unwrap();
    let w = build(rng, &root);
    let wrong = *rng.pick(&[0, 0, 4, 15, 30]); // percentage of wrong imports
    let mut contents: BTreeMap<PathBuf, Vec<(String, String, bool)>> = BTreeMap::new(); // path, alias, use it
    let mut bytes: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    let inside: Vec<PathBuf> = w.files.iter().filter(|f| f.starts_with(&w.base)).cloned().collect();
    let outside: Vec<PathBuf> = w.files.iter().filter(|f| !f.starts_with(&w.base)).cloned().collect();
    let mut locked: BTreeSet<PathBuf> = BTreeSet::new();
    let mark: BTreeMap<PathBuf, usize> = w.files.iter().cloned().zip(0..).collect();
    let blank: BTreeSet<PathBuf> = w.files.iter().filter(|f| **f != w.base.join("main.t") && rng.chance(1, 12)).cloned().collect();
    // Files that import and declare nothing.
    let bare: BTreeSet<PathBuf> = w.files.iter().filter(|f| !blank.contains(*f) && rng.chance(1, 8)).cloned().collect();
    for (k, f) in w.files.iter().enumerate() {
        let dir = f.parent().unwrap();
        let mut v = vec![];
        for j in 0..rng.below(4) {
            let path = if rng.chance(wrong, 100) {
                match rng.below(11) {
                    0 => "missing.t".into(),
                    // Relative to something else than the importing file.
                    8 => {
                        let t = rng.pick(&inside).clone();
                        t.strip_prefix(&w.base).unwrap().to_string_lossy().into_owned()
                    }
                    9 => {
                        let t = rng.pick(&w.files).clone();
                        let a = rng.pick(&w.dirs).clone().join("x");
                        let split = |p: &Path| -> Vec<String> { p.components().map(|c| c.as_os_str().to_string_lossy().into_owned()).collect() };
                        model::rel_path(&split(&a), &split(&t))
                    }
                    // Without the extension.
                    10 => {
                        let t = rng.pick(&inside).clone();
                        spell(rng, &w, &root, dir, &t).trim_end_matches(".t").to_owned()
                    }
                    1 => format!("{}/", spell(rng, &w, &root, dir, &f.clone())),
                    2 => format!("{}/x.t", spell(rng, &w, &root, dir, &f.clone())),
                    3 if !outside.is_empty() => {
                        let o = rng.pick(&outside).clone();
                        spell(rng, &w, &root, dir, &o)
                    }
                    4 => {
                        let d = rng.pick(&w.dirs).clone();
                        if d == root { "..".into() } else { spell(rng, &w, &root, dir, &d) }
                    }
                    5 if !w.links.is_empty() => {
                        let l = rng.pick(&w.links).clone();
                        l.to_string_lossy().into_owned()
                    }
                    6 => (*rng.pick(&["", ".", "..", "/", "../..", "//", "./.", " main.t", "main.t ", "MAIN.T"])).to_owned(),
                    _ => format!("{}x", spell(rng, &w, &root, dir, &f.clone())),
                }
            } else {
                let t = rng.pick(&inside).clone();
                spell(rng, &w, &root, dir, &t)
            };
            v.push((path, format!("i{j}"), rng.chance(4, 5)));
        }
        let mut s = String::new();
        for (p, a, _) in &v {
            s += &format!("import '{p}' as {a}\n");
        }
        s += &format!("\nstruct Mark{k} {{\n}}\n\nstruct Use{k} {{\n");
        let mut n = 0;
        for (p, a, used) in &v {
            // The reference is right if the import leads where the operating system says.
            if let (true, Ok(c)) = (used, dir.join(p).canonicalize()) {
                if let Some(m) = mark.get(&c).filter(|_| !blank.contains(&c) && !bare.contains(&c)) {
                    s += &format!("    f_{a}: {a}.Mark{m} = {n}\n");
                    n += 1;
                }
            }
        }
        s += "}\n";
        if bare.contains(f) {
            s = v.iter().map(|(p, a, _)| format!("import '{p}' as {a}\n")).collect();
            rep.count("files with imports and no declarations", 1);
        }
        let mut b = s.into_bytes();
        if blank.contains(f) {
            // Nothing at all, or next to nothing.
            v.clear();
            b = (*rng.pick(&["", "\n", "# Nothing.\n", "\t"])).as_bytes().to_vec();
        }
        if rng.chance(wrong, 400) && k > 0 {
            let wrong = [
                &b"# \xc3\x28\n"[..], b"# \xc3", b"# \xe2\x82", b"\xff", b"# \xf0\x9f\x98", b"# \xed\xa0\x80\n", b"\x80\n",
                b"# \xc0\xaf\n", b"# \xf4\x90\x80\x80\n", b"\xfe\xff", b"# \xf8\x88\x80\x80\x80\n",
            ];
            b.extend(*rng.pick(&wrong));
            if rng.chance(1, 6) {
                b.splice(0..0, *b"\xff\xfe");
            }
        }
        fs::write(f, &b).unwrap();
        if k > 0 && crate::util::contained() && rng.chance(wrong, 500) {
            use std::os::unix::fs::PermissionsExt;
            fs::set_permissions(f, fs::Permissions::from_mode(*rng.pick(&[0o000, 0o200, 0o333, 0o700]))).unwrap();
            locked.insert(f.clone());
        }
        contents.insert(f.clone(), v);
        bytes.insert(f.clone(), b);
    }
    // What should happen.
    let main = w.base.join("main.t");
    let mut why: Option<&'static str> = None;
    let mut loaded: BTreeSet<PathBuf> = BTreeSet::new();
    let mut todo = vec![main.clone()];
    let mut through_links = 0;
    let mut crossings = 0;
    while let Some(f) = todo.pop() {
        if !loaded.insert(f.clone()) {
            continue;
        }
        match fs::read(&f) {
            _ if locked.contains(&f) => {
                why = Some("unreadable");
                rep.count("unreadable files imported", 1);
                continue;
            }
            Ok(b) if std::str::from_utf8(&b).is_ok() => {}
            Ok(_) => {
                why = Some("not UTF-8");
                continue;
            }
            Err(_) => {
                why = Some("unreadable");
                continue;
            }
        }
        for (p, _, _) in &contents[&f] {
            match f.parent().unwrap().join(p).canonicalize() {
                Err(_) => why = Some("missing"),
                Ok(c) if !c.starts_with(&w.base) => why = Some("outside"),
                Ok(c) if c.is_dir() => why = Some("directory"),
                Ok(c) => {
                    crossings += 1;
                    let mut at = f.parent().unwrap().to_path_buf();
                    if Path::new(p).components().any(|x| {
                        at.push(x);
                        at.symlink_metadata().is_ok_and(|m| m.file_type().is_symlink())
                    }) {
                        through_links += 1;
                    }
                    todo.push(c);
                }
            }
        }
    }
    let rel = |f: &Path| f.strip_prefix(&w.base).unwrap().to_string_lossy().into_owned();
    let keys: BTreeSet<Vec<String>> = loaded.iter().map(|f| ns_key(&rel(f))).collect();
    if keys.len() < loaded.len() && why.is_none() {
        why = Some("conflict");
    }
    rep.eval();
    let mut id = vec![];
    for (p, b) in &tree(&root) {
        id.extend(p.bytes());
        id.extend(b);
    }
    rep.distinct(&id);
    let show = || -> String {
        let mut s = String::new();
        for (p, b) in tree(&root) {
            s += &format!("---- {p}\n{}\n", clip(&String::from_utf8_lossy(&b)));
        }
        s
    };
    let snapshot = show();
    let bad = |what: &str, detail: String| {
        rep.violation(what, format!("{detail}\nbase: {}\nexpected: {why:?} {loaded:?}\n{snapshot}", w.base.display()), vec![]);
    };
    // Where the command is run, and how the schema is named there.
    let (cwd, arg): (PathBuf, String) = match rng.below(6) {
        0 => (w.base.clone(), "main.t".into()),
        1 => (w.base.clone(), "./main.t".into()),
        2 => (root.clone(), main.to_string_lossy().into_owned()),
        3 => (root.clone(), format!("{}/main.t", rel_to(&w.base, &root))),
        4 => {
            let l = root.join("way");
            symlink(&w.base, &l).unwrap();
            (root.clone(), "way/main.t".into())
        }
        _ => (root.join("out"), format!("../{}/.//main.t", rel_to(&w.base, &root))),
    };
    let before = tree(&w.base);
    let o = root.join("results");
    let mut c = typ.cmd(&cwd);
    c.args(["generate", &arg, "--list-schemas", "--rust"]).arg(o.join("o.rs")).arg("--typescript").arg(o.join("o.ts"));
    let x = crate::util::run_fast(&mut c);
    if crashed(&x) {
        bad("the compiler crashes", x.describe());
        return;
    }
    if x.ok() != why.is_none() {
        let t = if x.ok() { "a wrong import is accepted" } else { "right imports are rejected" };
        bad(t, format!("{arg}\n{}", x.describe()));
        return;
    }
    if let Some(y) = why {
        rep.count("rejected trees", 1);
        rep.count(&format!("rejected: {y}"), 1);
        if !x.err().contains("[Error]") || o.exists() || !x.out().is_empty() {
            bad("a rejection without report or with output", x.describe());
        }
        return;
    }
    rep.count("accepted trees", 1);
    rep.count("schemas loaded", loaded.len() as u64);
    rep.count("imports followed", crossings);
    rep.count("imports through symbolic links", through_links);
    if crossings as usize >= loaded.len() {
        rep.count("trees with diamonds or circles", 1);
    }
    rep.sample(bi as u64 / 8, || snapshot.clone());
    // The list.
    let lines: Vec<String> = x.out().lines().map(str::to_owned).collect();
    let listed: BTreeSet<PathBuf> = lines.iter().filter_map(|l| cwd.join(l).canonicalize().ok()).collect();
    if listed != loaded || lines.len() != loaded.len() {
        bad("the list of schemas is wrong", format!("{arg}: {lines:?}"));
        return;
    }
    // The same program in the plainest layout.
    let plain = root.join("plain");
    for f in &loaded {
        let mut s = String::from_utf8_lossy(&bytes[f]).into_owned();
        if let parse::Verdict::Ok(mut q) = parse::read(&s) {
            for i in &mut q.imports {
                let c = f.parent().unwrap().join(&i.path).canonicalize().unwrap();
                let a: Vec<String> = rel(f).split('/').map(str::to_owned).collect();
                let b: Vec<String> = rel(&c).split('/').map(str::to_owned).collect();
                i.path = model::rel_path(&a, &b);
            }
            s = raw::print(rng, &q, false);
        }
        crate::util::write_file(&plain.join(rel(f)), s.as_bytes());
    }
    let po = root.join("plain-results");
    let y = typ.generate(&plain, "main.t", Some(&po.join("o.rs").to_string_lossy()), Some(&po.join("o.ts").to_string_lossy()));
    if !y.ok() {
        bad("the same program in plain layout is rejected", y.describe());
        return;
    }
    for ext in ["o.rs", "o.ts"] {
        if fs::read(o.join(ext)).unwrap_or_default() != fs::read(po.join(ext)).unwrap_or_default() {
            bad("an import leads to another file than the operating system would open", format!("{ext} differs from that of the plain layout"));
            return;
        }
    }
    rep.count("outputs compared with the plain layout", 2);
    // The formatter follows the same imports.
    if rng.chance(1, 3) {
        let z = typ.format(&cwd, &arg, false);
        if !z.ok() {
            bad("the formatter rejects what the compiler accepts", z.describe());
            return;
        }
        let after = tree(&w.base);
        for (p, b) in &after {
            let f = w.base.join(p);
            let same = before.get(p) == Some(b);
            if !same && !loaded.contains(&f) {
                bad("the formatter changes a file that is not involved", p.clone());
                return;
            }
            if !p.ends_with('/') && loaded.contains(&f) {
                // Was it formatted? All files are written with import lists that are not sorted.
                let t = String::from_utf8_lossy(b).into_owned();
                let s = String::from_utf8_lossy(&bytes[&f]).into_owned();
                match (parse::read(&s), parse::read(&t)) {
                    (parse::Verdict::Ok(a), parse::Verdict::Ok(b)) if raw::differ(&a, &b).is_none() => {}
                    _ => {
                        bad("the formatter changes what a file says", t);
                        return;
                    }
                }
            }
        }
        let z = typ.format(&cwd, &arg, true);
        if !z.ok() {
            bad("not all files are formatted", z.describe());
        }
        rep.count("trees formatted", 1);
    }
}

fn rel_to(p: &Path, root: &Path) -> String {
    p.strip_prefix(root).unwrap().to_string_lossy().into_owned()
}

// The given schema is a link to a file of another name, which is imported as well.
fn main_through_link(rep: &Report, typ: &Typical) {
    let d = Scratch::new("C18");
    fs::write(d.path.join("real.t"), "import 'other.t'\n\nstruct A {\n    x: other.B = 0\n}\n").unwrap();
    fs::write(d.path.join("other.t"), "import 'real.t'\n\nstruct B {\n}\n").unwrap();
    symlink("real.t", d.path.join("link.t")).unwrap();
    let x = typ.run(&d.path, &["generate", "link.t", "--list-schemas"]);
    rep.eval();
    if x.out().lines().count() != 2 {
        rep.finding(
            "main-through-link",
            "a schema given through a link of another name and imported as well is loaded twice",
            format!("{}\n{}", x.out(), x.describe()),
        );
    }
}
