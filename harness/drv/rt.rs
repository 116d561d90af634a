// Runtime part of the driver that is compiled around generated Rust code. It executes requests
// from a file against the generated code, through instrumented readers and writers, and records
// what happened in a response file. Nothing here knows the encoding under test.
#[allow(unused_imports)]
use std::convert::{TryFrom as _, TryInto as _};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::io::{self, BufRead, Error, ErrorKind, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static REFUSED: AtomicBool = AtomicBool::new(false);
const LIMIT: usize = 1 << 30;

pub struct Counting;

#[cfg(not(any(miri, no_counting)))]
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            refuse();
            return std::ptr::null_mut();
        }
        let n = LIVE.fetch_add(l.size(), Ordering::Relaxed) + l.size();
        PEAK.fetch_max(n, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > LIMIT {
            refuse();
            return std::ptr::null_mut();
        }
        if new > l.size() {
            let n = LIVE.fetch_add(new - l.size(), Ordering::Relaxed) + (new - l.size());
            PEAK.fetch_max(n, Ordering::Relaxed);
        } else {
            LIVE.fetch_sub(l.size() - new, Ordering::Relaxed);
        }
        System.realloc(p, l, new)
    }
}

fn refuse() {
    // A request for more memory than any message here can need. Mark it; the process is about to
    // be aborted by the allocation error handler (or to panic).
    REFUSED.store(true, Ordering::Relaxed);
    unsafe extern "C" {
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
    }
    let m = b"VH-ALLOC-REFUSED\n";
    unsafe {
        write(2, m.as_ptr(), m.len());
    }
}

#[cfg(not(any(miri, no_counting)))]
#[global_allocator]
static GLOBAL: Counting = Counting;

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> &'a [u8] {
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        s
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes(self.take(2).try_into().unwrap())
    }
    pub fn u32(&mut self) -> u32 {
        u32::from_le_bytes(self.take(4).try_into().unwrap())
    }
    pub fn u64(&mut self) -> u64 {
        u64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn i64(&mut self) -> i64 {
        i64::from_le_bytes(self.take(8).try_into().unwrap())
    }
    pub fn f64(&mut self) -> f64 {
        f64::from_bits(self.u64())
    }
    pub fn bool(&mut self) -> bool {
        self.u8() != 0
    }
    pub fn bytes(&mut self) -> Vec<u8> {
        let n = self.u32() as usize;
        self.take(n).to_vec()
    }
    pub fn string(&mut self) -> String {
        String::from_utf8(self.bytes()).unwrap()
    }
    pub fn opt<T, F: FnMut(&mut Self) -> T>(&mut self, mut f: F) -> Option<T> {
        if self.bool() {
            Some(f(self))
        } else {
            None
        }
    }
    pub fn arr<T, F: FnMut(&mut Self) -> T>(&mut self, mut f: F) -> Vec<T> {
        let n = self.u32() as usize;
        (0..n).map(|_| f(self)).collect()
    }
    pub fn units(&mut self) -> Vec<()> {
        vec![(); self.u32() as usize]
    }
}

pub fn w32(w: &mut Vec<u8>, n: usize) {
    w.extend_from_slice(&(n as u32).to_le_bytes());
}
pub fn w64(w: &mut Vec<u8>, n: u64) {
    w.extend_from_slice(&n.to_le_bytes());
}
pub fn d_u64(x: &u64, w: &mut Vec<u8>) {
    w64(w, *x);
}
pub fn d_i64(x: &i64, w: &mut Vec<u8>) {
    w64(w, *x as u64);
}
pub fn d_f64(x: &f64, w: &mut Vec<u8>) {
    w64(w, x.to_bits());
}
pub fn d_bool(x: &bool, w: &mut Vec<u8>) {
    w.push(u8::from(*x));
}
pub fn d_bytes(x: &Vec<u8>, w: &mut Vec<u8>) {
    w32(w, x.len());
    w.extend_from_slice(x);
}
pub fn d_string(x: &String, w: &mut Vec<u8>) {
    // Walk the string as text, too: an invalid String would be undefined behaviour.
    let n: usize = x.chars().map(char::len_utf8).sum();
    assert_eq!(n, x.len());
    assert!(std::str::from_utf8(x.as_bytes()).is_ok(), "a String that is not UTF-8");
    w32(w, x.len());
    w.extend_from_slice(x.as_bytes());
}
pub fn d_units(x: &Vec<()>, w: &mut Vec<u8>) {
    w32(w, x.len());
}
pub fn d_unit(_x: &(), _w: &mut Vec<u8>) {}
pub fn d_arr<T, F: Fn(&T, &mut Vec<u8>)>(x: &Vec<T>, w: &mut Vec<u8>, f: F) {
    w32(w, x.len());
    for e in x {
        f(e, w);
    }
}
pub fn d_opt<T, F: Fn(&T, &mut Vec<u8>)>(x: &Option<T>, w: &mut Vec<u8>, f: F) {
    match x {
        None => w.push(0),
        Some(v) => {
            w.push(1);
            f(v, w)
        }
    }
}

pub const KINDS: [ErrorKind; 18] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::NotFound,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
    ErrorKind::AlreadyExists,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::ConnectionRefused,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

thread_local! {
    pub static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn fault(kind: u8) -> Error {
    Error::new(KINDS[(kind & 0x3f) as usize % KINDS.len()], format!("VH-FAULT-{kind}"))
}

fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

// While set, readers and writers use the generated code themselves, in the middle of being used by
// it.
pub static QUIET: AtomicBool = AtomicBool::new(false);
pub static REENTRANT: AtomicBool = AtomicBool::new(false);
thread_local! {
    pub static HOOK: std::cell::Cell<Option<fn()>> = const { std::cell::Cell::new(None) };
}

fn reenter() {
    if REENTRANT.load(Ordering::Relaxed) {
        if let Some(f) = HOOK.with(|h| h.take()) {
            f();
            HOOK.with(|h| h.set(Some(f)));
        }
    }
}

pub struct Plan {
    pub chunk: u32,     // 0: everything at once; 0xffffffff: random sizes; otherwise that size
    pub seed: u64,
    pub fail_at: u64,   // byte position, u64::MAX for never
    pub kind: u8,       // which error; with 0x40 it happens only once
    pub interrupts: u8, // writers only: one call in n is interrupted
}

impl Plan {
    pub fn parse(r: &mut Rd) -> Plan {
        Plan { chunk: r.u32(), seed: r.u64() | 1, fail_at: r.u64(), kind: r.u8(), interrupts: r.u8() }
    }
    fn once(&mut self) {
        if self.kind & 0x40 != 0 {
            self.fail_at = u64::MAX;
        }
    }
    fn step(&mut self) -> usize {
        match self.chunk {
            0 => usize::MAX,
            0xffff_ffff => (rnd(&mut self.seed) % 7 + 1) as usize,
            n => n as usize,
        }
    }
}

pub struct Spin;

// A reader over a slice that serves it in chunks, may fail, and notices being polled forever.
pub struct Reader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub cur: usize, // bytes of the current chunk not yet consumed
    pub plan: Plan,
    pub empty: usize,
    pub calls: u64,
    pub consumed_too_much: bool,
    pub failed: bool,
}

impl<'a> Reader<'a> {
    pub fn new(data: &'a [u8], plan: Plan) -> Self {
        Reader { data, pos: 0, cur: 0, plan, empty: 0, calls: 0, consumed_too_much: false, failed: false }
    }
    fn chunk(&mut self) -> io::Result<&'a [u8]> {
        self.calls += 1;
        reenter();
        if self.cur == 0 {
            let end = (self.data.len() as u64).min(self.plan.fail_at) as usize;
            if self.pos >= end && self.plan.fail_at <= self.data.len() as u64 {
                self.failed = true;
                self.empty += 1;
                if self.empty > 5000 {
                    std::panic::panic_any(Spin);
                }
                self.plan.once();
                return Err(fault(self.plan.kind));
            }
            let left = end - self.pos;
            if left == 0 {
                self.empty += 1;
                if self.empty > 5000 {
                    std::panic::panic_any(Spin);
                }
            }
            self.cur = left.min(self.plan.step());
        }
        Ok(&self.data[self.pos..self.pos + self.cur])
    }
}

impl Read for Reader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let c = self.chunk()?;
        let n = c.len().min(buf.len());
        buf[..n].copy_from_slice(&c[..n]);
        self.pos += n;
        self.cur -= n;
        Ok(n)
    }
}

impl BufRead for Reader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.chunk()
    }
    fn consume(&mut self, n: usize) {
        if n > self.cur {
            self.consumed_too_much = true;
            panic!("VH: consume({n}) with {} bytes in the buffer", self.cur);
        }
        self.pos += n;
        self.cur -= n;
    }
}

pub struct Writer {
    pub out: Vec<u8>,
    pub plan: Plan,
    pub calls: u64,
}

impl Write for Writer {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        reenter();
        if self.plan.interrupts > 0 && rnd(&mut self.plan.seed) % u64::from(self.plan.interrupts) == 0 {
            return Err(Error::new(ErrorKind::Interrupted, "VH-INTERRUPTED"));
        }
        if b.is_empty() {
            return Ok(0);
        }
        let room = self.plan.fail_at.saturating_sub(self.out.len() as u64);
        if room == 0 {
            if self.plan.kind == 255 {
                return Ok(0);
            }
            self.plan.once();
            return Err(fault(self.plan.kind));
        }
        let n = b.len().min(self.plan.step()).min(usize::try_from(room).unwrap_or(usize::MAX));
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub struct Ops {
    // Build an outgoing message, measure it, serialize it, convert it and dump the conversion.
    pub make: fn(&mut Rd, &mut dyn Write, &mut Vec<u8>) -> (usize, io::Result<()>),
    // Deserialize a message and dump it.
    pub dec: fn(&mut dyn BufRead, &mut Vec<u8>) -> io::Result<()>,
}

fn text(w: &mut Vec<u8>, s: &str) {
    w32(w, s.len());
    w.extend_from_slice(s.as_bytes());
}

fn panic_text(e: &(dyn std::any::Any + Send)) -> (u8, String) {
    if e.is::<Spin>() {
        return (3, "spin".into());
    }
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_owned()
    };
    let loc = PANIC.with(|p| p.borrow().clone());
    (2, format!("{m} at {loc}"))
}

// status, text (error or panic) or dump, position
fn decode(op: &Ops, data: &[u8], plan: Plan, w: &mut Vec<u8>) {
    let mut dump = vec![];
    let mut rd = Reader::new(data, plan);
    let base = LIVE.load(Ordering::Relaxed);
    PEAK.store(base, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| (op.dec)(&mut rd, &mut dump)));
    let peak = PEAK.load(Ordering::Relaxed).saturating_sub(base);
    match r {
        Ok(Ok(())) => {
            w.push(0);
            w32(w, dump.len());
            w.extend_from_slice(&dump);
        }
        Ok(Err(e)) => {
            w.push(1);
            text(w, &format!("{:?}: {}", e.kind(), e));
        }
        Err(p) => {
            let (s, m) = panic_text(&*p);
            w.push(s);
            text(w, &m);
        }
    }
    w32(w, rd.pos);
    w64(w, if QUIET.load(Ordering::Relaxed) { 0 } else { peak as u64 });
    w64(w, rd.calls);
}

pub fn handle(tables: &[&[Ops]], req: &[u8]) -> Vec<u8> {
    let mut r = Rd::new(req);
    let mut w = vec![];
    match r.u8() {
        1 => {
            let g = r.u16() as usize;
            let d = r.u16() as usize;
            let plan = Plan::parse(&mut r);
            let nt = r.u8() as usize;
            let targets: Vec<(usize, usize, Plan)> = (0..nt)
                .map(|_| (r.u16() as usize, r.u16() as usize, Plan::parse(&mut r)))
                .collect();
            let mut writer = Writer { out: vec![], plan, calls: 0 };
            let mut from = vec![];
            let op = &tables[g][d];
            let res = catch_unwind(AssertUnwindSafe(|| (op.make)(&mut r, &mut writer, &mut from)));
            match res {
                Ok((size, Ok(()))) => {
                    w.push(0);
                    w64(&mut w, size as u64);
                    w32(&mut w, writer.out.len());
                    w.extend_from_slice(&writer.out);
                    w32(&mut w, from.len());
                    w.extend_from_slice(&from);
                    for (g, d, plan) in targets {
                        decode(&tables[g][d], &writer.out, plan, &mut w);
                    }
                }
                Ok((size, Err(e))) => {
                    w.push(1);
                    w64(&mut w, size as u64);
                    w32(&mut w, writer.out.len());
                    w.extend_from_slice(&writer.out);
                    text(&mut w, &format!("{:?}: {}", e.kind(), e));
                }
                Err(p) => {
                    let (s, m) = panic_text(&*p);
                    w.push(s);
                    text(&mut w, &m);
                }
            }
        }
        2 => {
            let g = r.u16() as usize;
            let d = r.u16() as usize;
            let plan = Plan::parse(&mut r);
            let data = &r.b[r.p..];
            decode(&tables[g][d], data, plan, &mut w);
        }
        _ => panic!(),
    }
    w
}

// usage: driver requests responses first-request
pub fn run(tables: &'static [&'static [Ops]]) {
    run_by(move |r| handle(tables, r));
}

pub fn run_by(f: impl Fn(&[u8]) -> Vec<u8> + Send + 'static) {
    // Plenty of stack: how deep messages may nest before recursion becomes a problem is not what
    // is tested here.
    #[cfg(miri)]
    run_here(f);
    #[cfg(not(miri))]
    let stack: usize = std::env::var("VH_STACK").ok().and_then(|s| s.parse().ok()).unwrap_or(1 << 29);
    #[cfg(not(miri))]
    std::thread::Builder::new().stack_size(stack).spawn(move || run_here(f)).unwrap().join().unwrap();
}

fn run_here(f: impl Fn(&[u8]) -> Vec<u8>) {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = l);
    }));
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::read(&args[1]).unwrap();
    let mut out = std::fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    let skip: usize = args[3].parse().unwrap();
    let mut p = 0;
    let mut i = 0;
    while p < input.len() {
        let n = u32::from_le_bytes(input[p..p + 4].try_into().unwrap()) as usize;
        let req = &input[p + 4..p + 4 + n];
        p += 4 + n;
        if i >= skip {
            // One write per response: a death is attributed to the first unanswered request.
            let resp = f(req);
            let mut m = (resp.len() as u32).to_le_bytes().to_vec();
            m.extend_from_slice(&resp);
            out.write_all(&m).unwrap();
        }
        i += 1;
    }
}
