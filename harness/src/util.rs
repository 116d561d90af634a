// Small std-only utilities: PRNG, JSON, parallel map, processes, scratch directories.
use std::{
    collections::BTreeMap,
    fs,
    io::{Read, Write},
    path::{Path, PathBuf},
    process::{Child, Command, Stdio},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    // A generator for case `i` of stream `tag`, independent of how cases are scheduled.
    pub fn case(seed: u64, tag: &str, i: u64) -> Self {
        Rng::new(seed ^ fnv(tag.as_bytes()).rotate_left(17) ^ i.wrapping_mul(0xD134_2543_DE82_EF95))
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for x in b {
        h ^= u64::from(*x);
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let c: Vec<u8> = s.bytes().filter(|b| b.is_ascii_hexdigit()).collect();
    c.chunks(2)
        .map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap())
        .collect()
}

#[derive(Clone, Debug)]
pub enum Json {
    Null,
    Bool(bool),
    Num(f64),
    Int(i128),
    Str(String),
    Arr(Vec<Json>),
    Obj(Vec<(String, Json)>),
}

impl Json {
    pub fn s(x: impl Into<String>) -> Json {
        Json::Str(x.into())
    }
    pub fn n(x: impl TryInto<i128>) -> Json {
        Json::Int(x.try_into().ok().unwrap_or(-1))
    }
    pub fn write(&self, out: &mut String, ind: usize) {
        let pad = "  ".repeat(ind + 1);
        match self {
            Json::Null => out.push_str("null"),
            Json::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Json::Num(x) => out.push_str(&format!("{x:.3}")),
            Json::Int(x) => out.push_str(&x.to_string()),
            Json::Str(s) => write_json_str(s, out),
            Json::Arr(v) => {
                if v.is_empty() {
                    out.push_str("[]");
                    return;
                }
                out.push_str("[\n");
                for (i, x) in v.iter().enumerate() {
                    out.push_str(&pad);
                    x.write(out, ind + 1);
                    out.push_str(if i + 1 < v.len() { ",\n" } else { "\n" });
                }
                out.push_str(&"  ".repeat(ind));
                out.push(']');
            }
            Json::Obj(v) => {
                if v.is_empty() {
                    out.push_str("{}");
                    return;
                }
                out.push_str("{\n");
                for (i, (k, x)) in v.iter().enumerate() {
                    out.push_str(&pad);
                    write_json_str(k, out);
                    out.push_str(": ");
                    x.write(out, ind + 1);
                    out.push_str(if i + 1 < v.len() { ",\n" } else { "\n" });
                }
                out.push_str(&"  ".repeat(ind));
                out.push('}');
            }
        }
    }
}

fn write_json_str(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get().min(8))
}

// Run `f` on 0..n in parallel, in index order as far as possible, until `stop` says so.
pub fn par<F: Fn(usize) + Sync>(n: usize, f: F) {
    par_until(n, &|| false, f);
}

pub fn par_until<F: Fn(usize) + Sync>(n: usize, stop: &(dyn Fn() -> bool + Sync), f: F) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n || stop() {
                        break;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}

pub fn par_map<T: Send, F: Fn(usize) -> T + Sync>(n: usize, f: F) -> Vec<T> {
    let out: Mutex<BTreeMap<usize, T>> = Mutex::new(BTreeMap::new());
    par(n, |i| {
        let r = f(i);
        out.lock().unwrap().insert(i, r);
    });
    out.into_inner().unwrap().into_values().collect()
}

pub struct Scratch {
    pub path: PathBuf,
}

impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = std::env::temp_dir();
        let path = base.join(format!(
            "vh-{}-{}-{}",
            tag,
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        fs::create_dir_all(&path).unwrap();
        // Canonical, so that comparisons with paths reported by the tool are meaningful.
        let path = path.canonicalize().unwrap();
        Scratch { path }
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var_os("VH_KEEP").is_none() {
            let _ = fs::remove_dir_all(&self.path);
        }
    }
}

#[derive(Clone, Debug)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub timed_out: bool,
    pub cpu_killed: bool,
}

impl Out {
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn describe(&self) -> String {
        let e = self.err();
        let head: String = e.chars().take(1500).collect();
        let tail: String = e.chars().skip(1500).collect::<Vec<_>>().into_iter().rev().take(1500).collect::<Vec<_>>().into_iter().rev().collect();
        format!(
            "exit={:?} signal={:?} cpu_killed={} stderr:\n{}\n…\n{}",
            self.code, self.signal, self.cpu_killed, head, tail
        )
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}

// Limit the CPU time (not wall-clock time) of a child. A child that burns that much CPU on a tiny
// input is looping; one that is merely starved of CPU is not affected.
pub fn limit_cpu(cmd: &mut Command, secs: u64) {
    use std::os::unix::process::CommandExt;
    unsafe {
        cmd.pre_exec(move || {
            let lim = [secs, secs + 2];
            setrlimit(0, &lim);
            let core = [0, 0];
            setrlimit(4, &core);
            Ok(())
        });
    }
}

static FAST: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

extern "C" fn nothing(_: i32) {}

// Let all children inherit a limit of CPU time, so that they can be started without a hook between
// fork and exec, which is slow in a big process. The limit applies to this process as well, but
// here the signal is handled.
pub fn fast_mode() {
    #[repr(C)]
    struct Action {
        handler: extern "C" fn(i32),
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, act: *const Action, old: *mut Action) -> i32;
    }
    let a = Action { handler: nothing, mask: [0; 16], flags: 0x1000_0000, restorer: 0 };
    let lim = [20, u64::MAX];
    let core = [0, 0];
    unsafe {
        if sigaction(24, &a, std::ptr::null_mut()) == 0 && setrlimit(0, &lim) == 0 {
            setrlimit(4, &core);
            FAST.store(true, Ordering::SeqCst);
        }
    }
}

pub fn run(cmd: &mut Command, timeout: Duration) -> std::io::Result<Out> {
    cmd.stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    let mut child = cmd.spawn()?;
    let so = child.stdout.take().unwrap();
    let se = child.stderr.take().unwrap();
    finish(&mut child, so, se, timeout)
}

fn finish(
    child: &mut Child,
    mut so: impl Read + Send,
    mut se: impl Read + Send,
    timeout: Duration,
) -> std::io::Result<Out> {
    use std::os::unix::process::ExitStatusExt;
    let start = Instant::now();
    let mut stdout = vec![];
    let mut stderr = vec![];
    let mut timed_out = false;
    let mut status = None;
    std::thread::scope(|s| {
        let h = s.spawn(|| {
            let mut v = vec![];
            let _ = se.read_to_end(&mut v);
            v
        });
        let g = s.spawn(|| {
            let mut v = vec![];
            let _ = so.read_to_end(&mut v);
            v
        });
        let mut nap = 200;
        loop {
            match child.try_wait() {
                Ok(Some(st)) => {
                    status = Some(st);
                    break;
                }
                _ => {
                    if start.elapsed() > timeout {
                        timed_out = true;
                        let _ = child.kill();
                        status = child.wait().ok();
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(nap));
                    if nap < 5000 {
                        nap += nap / 4;
                    }
                }
            }
        }
        stderr = h.join().unwrap();
        stdout = g.join().unwrap();
    });
    let status = status.unwrap();
    let signal = status.signal();
    Ok(Out {
        code: status.code(),
        signal,
        stdout,
        stderr,
        timed_out,
        cpu_killed: signal == Some(24) || (signal == Some(9) && !timed_out),
    })
}

pub fn write_file(p: &Path, s: &[u8]) {
    if let Some(d) = p.parent() {
        fs::create_dir_all(d).unwrap();
    }
    let mut f = fs::File::create(p).unwrap();
    f.write_all(s).unwrap();
}

// A snapshot of a directory tree: relative path -> contents (or a description).
pub fn tree(root: &Path) -> BTreeMap<String, Vec<u8>> {
    fn go(root: &Path, p: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = fs::read_dir(p) {
            for e in rd.flatten() {
                let q = e.path();
                let rel = q.strip_prefix(root).unwrap().to_string_lossy().into_owned();
                let md = fs::symlink_metadata(&q).unwrap();
                if md.file_type().is_symlink() {
                    out.insert(
                        rel,
                        format!("-> {}", fs::read_link(&q).unwrap().display()).into_bytes(),
                    );
                } else if md.is_dir() {
                    out.insert(rel + "/", vec![]);
                    go(root, &q, out);
                } else {
                    out.insert(rel, fs::read(&q).unwrap_or_default());
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    go(root, root, &mut m);
    m
}

// Fast path for the compiler under test: blocking wait, CPU limit as the only watchdog.
// The compiler under test runs as an unprivileged user: whatever a change makes it do to files, it
// reaches nothing but scratch directories. Credentials belong to threads, and a child has those of
// the thread that starts it; a change of user in the child would need a slow fork.
static CONTAINED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
const NOBODY: i64 = 65534;

struct Unprivileged;

impl Unprivileged {
    fn enter() -> Option<Unprivileged> {
        unsafe {
            syscall(116, 0_i64, 0_i64, 0_i64); // setgroups
            let u = Unprivileged;
            (syscall(119, NOBODY, NOBODY, 0_i64) == 0 && syscall(117, NOBODY, NOBODY, 0_i64) == 0).then_some(u)
        }
    }
}

impl Drop for Unprivileged {
    fn drop(&mut self) {
        unsafe {
            syscall(117, 0_i64, 0_i64, 0_i64); // setresuid
            syscall(119, 0_i64, 0_i64, 0_i64); // setresgid
        }
    }
}

extern "C" {
    fn syscall(number: i64, ...) -> i64;
    fn geteuid() -> u32;
    fn umask(mask: u32) -> u32;
}

// Contain the compiler, if the test shows that it can be started that way.
pub fn contain(test: impl Fn() -> bool) {
    if cfg!(not(target_arch = "x86_64")) || unsafe { geteuid() } != 0 {
        return;
    }
    // From here on, others may write in what the checks create.
    unsafe { umask(0) };
    let works = Unprivileged::enter().is_some_and(|_u| test());
    if works {
        CONTAINED.store(true, Ordering::SeqCst);
    } else {
        eprintln!("note: the compiler cannot be started as another user");
    }
}

pub fn contained() -> bool {
    CONTAINED.load(Ordering::SeqCst)
}

pub fn run_fast(cmd: &mut Command) -> Out {
    use std::os::unix::process::ExitStatusExt;
    if !FAST.load(Ordering::SeqCst) {
        limit_cpu(cmd, 20);
    }
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let child = {
        let _u = if CONTAINED.load(Ordering::SeqCst) { Unprivileged::enter() } else { None };
        cmd.spawn()
    };
    let o = child.and_then(|c| c.wait_with_output()).expect("cannot spawn");
    let signal = o.status.signal();
    Out {
        code: o.status.code(),
        signal,
        stdout: o.stdout,
        stderr: o.stderr,
        timed_out: false,
        cpu_killed: signal == Some(24) || signal == Some(9),
    }
}
