// Sessions: the same requests one after another, then in several threads at once with readers and
// writers that use the generated code themselves, then backwards. All answers must be the same.
use super::rt::{self, d_u64, handle, w32, w64, Ops, Rd};
use std::cell::RefCell;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Barrier};

pub type Tables = &'static [&'static [Ops]];
pub type Share = fn(&mut Rd, usize) -> Vec<u8>;

struct Side {
    rng: u64,
    tables: Tables,
    reqs: Arc<Vec<Vec<u8>>>,
    log: Vec<(usize, Vec<u8>)>,
    left: usize,
}

thread_local! {
    static SIDE: RefCell<Option<Side>> = const { RefCell::new(None) };
}

fn rnd(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}

// Called by readers and writers.
fn hook() {
    let job = SIDE.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut()?;
        if s.left == 0 || rnd(&mut s.rng) % 3 != 0 {
            return None;
        }
        s.left -= 1;
        let i = (rnd(&mut s.rng) % s.reqs.len() as u64) as usize;
        Some((s.tables, s.reqs.clone(), i))
    });
    if let Some((tables, reqs, i)) = job {
        let resp = handle(tables, &reqs[i]);
        SIDE.with(|s| s.borrow_mut().as_mut().unwrap().log.push((i, resp)));
    }
}

fn text(w: &mut Vec<u8>, s: &str) {
    w32(w, s.len());
    w.extend_from_slice(s.as_bytes());
}

fn show(x: &[u8]) -> String {
    x.iter().take(200).map(|b| format!("{b:02x}")).collect()
}

pub fn session(tables: Tables, shares: &'static [&'static [Share]], req: &[u8]) -> Vec<u8> {
    rt::QUIET.store(true, Ordering::Relaxed);
    let mut r = Rd::new(req);
    if req[0] == 4 {
        r.u8();
        let g = r.u16() as usize;
        let d = r.u16() as usize;
        let n = r.u8() as usize;
        return shares[g][d](&mut r, n);
    }
    if req[0] != 3 {
        return handle(tables, req);
    }
    r.u8();
    let threads = r.u8() as usize;
    let nested = r.u8() as usize;
    let seed = r.u64() | 1;
    let n = r.u16() as usize;
    let reqs: Arc<Vec<Vec<u8>>> = Arc::new((0..n).map(|_| r.bytes()).collect());
    let base: Vec<Vec<u8>> = reqs.iter().map(|q| handle(tables, q)).collect();
    let mut bad: Vec<String> = vec![];
    let mut done = 0_u64;
    let mut inner = 0_u64;
    rt::REENTRANT.store(nested > 0, Ordering::Relaxed);
    let barrier = Arc::new(Barrier::new(threads));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let reqs = reqs.clone();
            let barrier = barrier.clone();
            std::thread::Builder::new()
                .stack_size(1 << 26)
                .spawn(move || {
                    let mut rng = seed.wrapping_mul(t as u64 * 2 + 3) | 1;
                    SIDE.with(|s| *s.borrow_mut() = Some(Side { rng: rnd(&mut rng), tables, reqs: reqs.clone(), log: vec![], left: 0 }));
                    rt::HOOK.with(|h| h.set(Some(hook)));
                    let mut order: Vec<usize> = (0..reqs.len()).collect();
                    for i in (1..order.len()).rev() {
                        order.swap(i, (rnd(&mut rng) % (i as u64 + 1)) as usize);
                    }
                    barrier.wait();
                    let mut out = vec![];
                    for i in order {
                        SIDE.with(|s| s.borrow_mut().as_mut().unwrap().left = nested);
                        out.push((i, handle(tables, &reqs[i])));
                    }
                    let log = SIDE.with(|s| s.borrow_mut().take().unwrap().log);
                    (out, log)
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        match h.join() {
            Ok((out, log)) => {
                for (what, list) in [("at the same time as others", out), ("within a reader or writer of another", log)] {
                    for (i, x) in list {
                        if what.starts_with("at") {
                            done += 1;
                        } else {
                            inner += 1;
                        }
                        if x != base[i] && bad.len() < 5 {
                            bad.push(format!("request {i} {what}: {}", show(&x)));
                        }
                    }
                }
            }
            Err(_) => bad.push("a thread panicked".into()),
        }
    }
    rt::REENTRANT.store(false, Ordering::Relaxed);
    for (i, q) in reqs.iter().enumerate().rev() {
        let x = handle(tables, q);
        if x != base[i] && bad.len() < 5 {
            bad.push(format!("request {i} after others: {}", show(&x)));
        }
    }
    let mut w = vec![];
    for b in &base {
        w32(&mut w, b.len());
        w.extend_from_slice(b);
    }
    d_u64(&done, &mut w);
    d_u64(&inner, &mut w);
    text(&mut w, &bad.join("\n"));
    w
}

// One message used by several threads at once.
pub fn share<T: Sync, U: Send + Sync>(
    m: &T,
    n: usize,
    write: impl Fn(&T) -> (usize, Vec<u8>, Vec<u8>, String) + Sync,
    read: impl Fn(&[u8]) -> Option<U> + Sync,
    look: impl Fn(&U) -> (Vec<u8>, String) + Sync,
) -> Vec<u8> {
    let a = write(m);
    let mut bad = String::new();
    let x = read(&a.1);
    let b = x.as_ref().map(&look);
    let barrier = Barrier::new(n);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|_| {
                s.spawn(|| {
                    barrier.wait();
                    let p = write(m);
                    let q = x.as_ref().map(&look);
                    let y = read(&p.1);
                    let z = y.as_ref().map(&look);
                    let q2 = x.as_ref().map(&look);
                    (p, write(m), [q, q2, z])
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok((p, p2, qs)) => {
                    if p != a || p2 != a {
                        bad = format!("a shared message is written differently by another thread: {} instead of {}", show(&p.1), show(&a.1));
                    }
                    if qs.iter().any(|q| *q != b) {
                        bad = "a shared message looks different in another thread".into();
                    }
                }
                Err(_) => bad = "a thread panicked".into(),
            }
        }
    });
    if write(m) != a {
        bad = "a message is written differently after having been shared".into();
    }
    let mut w = vec![];
    if bad.is_empty() {
        w.push(0);
        w64(&mut w, a.0 as u64);
        for part in [&a.1, &a.2] {
            w32(&mut w, part.len());
            w.extend_from_slice(part);
        }
        // What was read back, in the format of `decode`.
        match b {
            Some((d, _)) => {
                w.push(0);
                w32(&mut w, d.len());
                w.extend_from_slice(&d);
            }
            None => {
                w.push(1);
                text(&mut w, "error");
            }
        }
        w32(&mut w, 0);
        w64(&mut w, 0);
        w64(&mut w, 0);
    } else {
        w.push(2);
        text(&mut w, &bad);
    }
    w
}
