// Measures what generated code costs: live and peak heap (through the counting allocator of rt.rs)
// and processor time of every operation.
use super::rt::{w64, Ops, Rd, LIVE, PEAK};
use std::io::Write;
use std::sync::atomic::{AtomicUsize, Ordering};

pub type Meas = fn(&mut Rd, &mut Vec<u8>);
pub type Raw = fn(&[u8], &mut Vec<u8>);

#[repr(C)]
struct Ts(i64, i64);
unsafe extern "C" {
    fn clock_gettime(c: i32, t: *mut Ts) -> i32;
}

pub fn now() -> u64 {
    let mut t = Ts(0, 0);
    unsafe {
        clock_gettime(3, &mut t);
    }
    t.0 as u64 * 1_000_000_000 + t.1 as u64
}

pub fn live() -> usize {
    LIVE.load(Ordering::Relaxed)
}

// Least time and largest growth of the heap.
pub fn run(times: usize, mut f: impl FnMut()) -> (u64, u64) {
    let mut best = u64::MAX;
    let mut peak = 0;
    for _ in 0..times {
        let base = live();
        PEAK.store(base, Ordering::Relaxed);
        let t = now();
        f();
        best = best.min(now() - t);
        peak = peak.max(PEAK.load(Ordering::Relaxed).saturating_sub(base) as u64);
    }
    (best, peak)
}

pub struct Sink(pub usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// What vectors may take up: they grow by doubling, and start with a few elements.
pub fn arr<T>(n: usize) -> usize {
    if n == 0 { 0 } else { (2 * n).max(8) * std::mem::size_of::<T>() }
}

// Elements of [F64]: what room for a declared size in bytes, taken for a number of elements, comes to
// above that (known finding f64-array-capacity).
pub static EXCESS: AtomicUsize = AtomicUsize::new(0);
pub fn f64s(n: usize) -> usize {
    EXCESS.fetch_add((64 * n).saturating_sub(2 * arr::<f64>(n)), Ordering::Relaxed);
    arr::<f64>(n)
}
pub fn excess() -> u64 {
    EXCESS.swap(0, Ordering::Relaxed) as u64
}

pub fn put(w: &mut Vec<u8>, x: &[u64]) {
    for n in x {
        w64(w, *n);
    }
}

pub fn respond(tables: &[&[Ops]], meas: &[&[(Meas, Raw)]], req: &[u8]) -> Vec<u8> {
    let mut r = Rd::new(req);
    match req[0] {
        5 | 6 => {
            r.u8();
            let g = r.u16() as usize;
            let d = r.u16() as usize;
            let mut w = Vec::with_capacity(1024);
            w.push(0);
            if req[0] == 5 {
                meas[g][d].0(&mut r, &mut w);
            } else {
                meas[g][d].1(&req[r.p..], &mut w);
            }
            w
        }
        _ => super::rt::handle(tables, req),
    }
}
