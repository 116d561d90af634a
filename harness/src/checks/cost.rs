// C23: memory and time in proportion to the message. The generated code is measured while it
// handles ordinary, hostile and large messages; what a value should take up is computed from its
// contents, and pairs of messages of which one has sixteen times as much of something are compared.
use super::runtime::{batch, clip, value, Batch, Lang, Unit};
use crate::{
    codec::{dump_msg, enc_msg, header, V},
    exec::{run_requests, run_requests_limited, Rd, Resp},
    model::{gen_program, Cfg, Kind, Program, Style, Ty},
    report::Report,
    typical::Typical,
    util::{hex, par_until, Rng},
    wire::{hazards, mutate, WGen},
};

const FACTOR: usize = 16;

fn req(kind: u8, g: usize, d: usize, times: Option<u8>, payload: &[u8]) -> Vec<u8> {
    let mut w = vec![kind];
    w.extend((g as u16).to_le_bytes());
    w.extend((d as u16).to_le_bytes());
    w.extend(times);
    w.extend(payload);
    w
}

// Multiply the n-th thing in a value that can be multiplied; returns how many there are.
fn inflate(v: &mut V, n: &mut isize, times: usize) {
    match v {
        V::Arr(a) => {
            if !a.is_empty() && a[0] != V::Unit {
                if *n == 0 {
                    let e = a[0].clone();
                    *a = vec![e; times];
                    *n -= 1;
                    return;
                }
                *n -= 1;
            }
            // One element stands for all.
            if let Some(e) = a.first_mut() {
                inflate(e, n, times);
            }
        }
        V::Bytes(b) => {
            if *n == 0 {
                *b = (0..times * 10).map(|i| (i * 7) as u8).collect();
            }
            *n -= 1;
        }
        V::Str(s) => {
            if *n == 0 {
                *s = "aé漢".chars().cycle().take(times * 6).collect();
            }
            *n -= 1;
        }
        V::Struct(fs) => {
            for f in fs.iter_mut().flatten() {
                inflate(f, n, times);
            }
        }
        V::Choice(_, x, fb) => {
            inflate(x, n, times);
            if let Some(fb) = fb {
                inflate(fb, n, times);
            }
        }
        _ => {}
    }
}

fn spots(v: &V) -> usize {
    let mut n = isize::MAX;
    inflate(&mut v.clone(), &mut n, 0);
    (isize::MAX - n) as usize
}

struct Case {
    u: usize,
    r: (usize, usize),
    len: usize,
    bytes: Vec<u8>, // for the report, if short
    kind: Kindof,
}

enum Kindof {
    Value,
    Raw,
    // The first and the second of a pair.
    Small(String),
    Large,
}

pub fn run(rep: &Report, typ: &Typical) {
    let nb = rep.n(72, 900);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C23", bi as u64);
        let ts = bi % 3 == 2;
        let progs: Vec<Program> = (0..if ts { 6 } else { 2 })
            .map(|i| {
                let c = Cfg { torture: 0, repeat: !ts, ..Cfg::runtime() };
                gen_program(&mut rng, &if i % 3 == 1 { Cfg { ladder: 60, max_decls: 4, ..c } } else { c })
            })
            .collect();
        let lang = if ts { Lang::Ts } else { Lang::Cost };
        let t0 = std::time::Instant::now();
        let Some(b) = batch(rep, typ, &mut rng, progs, &Style::plain(), &lang) else { return };
        rep.count("ms compiling", t0.elapsed().as_millis() as u64);
        let (reqs, cases) = if ts { ts_cases(&mut rng, &b.units) } else { rust_cases(&mut rng, &b.units) };
        let t1 = std::time::Instant::now();
        let resps = run_requests_limited(&b.dir.path, &b.eng, &reqs, "a", 60, 1 << 29, 0);
        rep.count(if ts { "ms running (TypeScript)" } else { "ms running (Rust)" }, t1.elapsed().as_millis() as u64);
        judge(rep, &b, ts, &reqs, &cases, &resps);
        if let Some(c) = cases.iter().find(|c| matches!(c.kind, Kindof::Value)) {
            rep.sample(bi as u64, || format!("{}\ndeclaration {:?} bytes {}", b.units[c.u].show(), c.r, hex(&c.bytes)));
        }
    });
    rep.require("values measured (Rust)", 500);
    rep.require("byte strings measured (Rust)", 500);
    rep.require("pairs compared (Rust)", 60);
    rep.require("pairs compared (TypeScript)", 40);
}

fn push_pair(
    rng: &mut Rng,
    ts: bool,
    ui: usize,
    u: &Unit,
    r: (usize, usize),
    v: &V,
    reqs: &mut Vec<Vec<u8>>,
    cases: &mut Vec<Case>,
) {
    let n = spots(v);
    if n == 0 {
        return;
    }
    let at = rng.below(n);
    let mut small = v.clone();
    inflate(&mut small, &mut (at as isize), 1);
    // How large one of these is decides how many there will be.
    let mut two = v.clone();
    inflate(&mut two, &mut (at as isize), 101);
    let each = (enc_msg(&u.p, r, &two).len().saturating_sub(enc_msg(&u.p, r, &small).len()) / 100).max(1);
    let nodes = (two.nodes().saturating_sub(small.nodes()) / 100).max(1);
    if each > 300 || nodes > if ts { 60 } else { 300 } {
        return;
    }
    // Not too much for the memory of the checks themselves.
    if reqs.iter().map(Vec::len).sum::<usize>() > if ts { 24 << 20 } else { 64 << 20 } {
        return;
    }
    let base = if ts { 1500 } else { 3000 };
    // Deserializing an array takes up to 20 microseconds in JavaScript.
    let base = base.min(120_000 / each).min(if ts { 4_000 } else { 60_000 } / nodes).max(if ts { 60 } else { 300 });
    for k in [1, FACTOR] {
        let mut x = v.clone();
        inflate(&mut x, &mut (at as isize), base * k);
        let mut d = vec![];
        dump_msg(&u.p, r, &x, false, &mut d);
        let len = enc_msg(&u.p, r, &x).len();
        reqs.push(req(5, ui, u.op(r), if ts { Some(4) } else { None }, &d));
        let kind = if k == 1 { Kindof::Small(format!("thing {at} of {n}, {base} and {} times: {:?}", base * FACTOR, small)) } else { Kindof::Large };
        cases.push(Case { u: ui, r, len, bytes: vec![], kind });
    }
}

fn rust_cases(rng: &mut Rng, units: &[Unit]) -> (Vec<Vec<u8>>, Vec<Case>) {
    let mut reqs = vec![];
    let mut cases = vec![];
    for (ui, u) in units.iter().enumerate() {
        let g = WGen { p: &u.p, build: &u.build, nan: true, miss: 3, stats: Default::default() };
        let mut other = vec![];
        for r in &u.all {
            let op = u.op(*r);
            for k in 0..12 {
                if u.build[r] {
                    let v = value(u, rng, *r, true, k == 0);
                    let bytes = enc_msg(&u.p, *r, &v);
                    if v.nodes() < 1 << 16 {
                        let mut d = vec![];
                        dump_msg(&u.p, *r, &v, false, &mut d);
                        reqs.push(req(5, ui, op, None, &d));
                        cases.push(Case { u: ui, r: *r, len: bytes.len(), bytes, kind: Kindof::Value });
                        if k < 4 {
                            push_pair(rng, false, ui, u, *r, &v, &mut reqs, &mut cases);
                        }
                    }
                }
                let mut budget = *rng.pick(&[5_i64, 30, 100]);
                let base = g.msg(rng, *r, &mut budget, 0);
                let bytes = if k % 3 == 0 { base.clone() } else { mutate(rng, &base, &other) };
                other = base;
                let haz = hazards(&u.p, *r, &bytes);
                if haz.truncated_unknown || haz.blob > 0 || haz.units > 1 << 16 {
                    continue;
                }
                reqs.push(req(6, ui, op, None, &bytes));
                cases.push(Case { u: ui, r: *r, len: bytes.len(), bytes, kind: Kindof::Raw });
            }
            // Ever more unknown fields, or ever larger ones.
            let next = u.p.decl(*r).fields.iter().map(|f| f.index).max().map_or(0, |n| n + 1) + 1000;
            let mut tail = vec![];
            if u.build[r] {
                tail = enc_msg(&u.p, *r, &value(u, rng, *r, true, false));
            }
            for many in [true, false] {
                for k in [1, FACTOR] {
                    let mut bytes = vec![];
                    if many {
                        for i in 0..2000 * k {
                            let n = [0, 1, 3, 8][i % 4];
                            bytes.extend(header(next + (i % 7) as u64, n, false));
                            bytes.extend(vec![0xa5; n]);
                        }
                    } else {
                        bytes.extend(header(next, 20_000 * k, false));
                        bytes.extend(vec![0x5a; 20_000 * k]);
                    }
                    if u.p.decl(*r).kind == Kind::Struct && rng.chance(1, 2) {
                        let mut x = tail.clone();
                        x.extend(bytes);
                        bytes = x;
                    } else {
                        bytes.extend(&tail);
                    }
                    let haz = hazards(&u.p, *r, &bytes);
                    assert!(!haz.truncated_unknown);
                    reqs.push(req(6, ui, op, None, &bytes));
                    let kind = if k == 1 { Kindof::Small(if many { "unknown fields".into() } else { "one unknown field".into() }) } else { Kindof::Large };
                    cases.push(Case { u: ui, r: *r, len: bytes.len(), bytes: vec![], kind });
                }
            }
        }
    }
    (reqs, cases)
}

fn ts_cases(rng: &mut Rng, units: &[Unit]) -> (Vec<Vec<u8>>, Vec<Case>) {
    let mut reqs = vec![];
    let mut cases = vec![];
    for (ui, u) in units.iter().enumerate() {
        let mut list: Vec<(usize, usize)> = u.all.iter().copied().filter(|r| u.build[r]).collect();
        // Preferably what has something to multiply.
        list.retain(|r| u.p.decl(*r).fields.iter().any(|f| f.ty != Ty::Unit));
        for _ in 0..list.len().min(3) {
            let r = list.swap_remove(rng.below(list.len()));
            for _ in 0..4 {
                let v = value(u, rng, r, false, false);
                let bytes = enc_msg(&u.p, r, &v);
                if v.nodes() > 1 << 13 || bytes.len() > 5000 {
                    continue;
                }
                let n = reqs.len();
                push_pair(rng, true, ui, u, r, &v, &mut reqs, &mut cases);
                if reqs.len() > n {
                    break;
                }
            }
        }
    }
    (reqs, cases)
}

fn nums(x: &[u8]) -> Vec<u64> {
    let mut r = Rd::new(x);
    r.u8();
    let mut v = vec![];
    while r.p + 8 <= x.len() {
        v.push(r.u64());
    }
    v
}

// Time grows by much more than the message does.
fn slow(small: u64, large: u64) -> bool {
    large > 80_000_000 && large > small.max(100_000) * FACTOR as u64 * 4
}

fn judge(rep: &Report, b: &Batch, ts: bool, reqs: &[Vec<u8>], cases: &[Case], resps: &[Resp]) {
    let lang = if ts { "TypeScript" } else { "Rust" };
    let mut i = 0;
    while i < cases.len() {
        if rep.stop() {
            return;
        }
        let c = &cases[i];
        let u = &b.units[c.u];
        let fail = |what: &str, detail: String| {
            rep.violation(
                &format!("{what} ({lang})"),
                format!("{}\n{} of {}\n{} bytes {}\n\n{}", clip(&detail), u.p.decl(c.r).name, u.p.files[c.r.0].path(), c.len, clip(&hex(&c.bytes)), u.show()),
                u.files(),
            );
        };
        rep.eval();
        rep.distinct(&reqs[i]);
        let get = |x: &Resp| match x {
            Resp::NotRun => None,
            Resp::Died(why) => {
                // By itself, each request takes a fraction of a second.
                let again = run_requests(&b.dir.path, &b.eng, &reqs[i..(i + 2).min(reqs.len())], "died");
                if again.iter().any(|r| matches!(r, Resp::Died(_))) {
                    fail("far too much time or memory", why.clone());
                } else {
                    rep.count("processes that ended early for no reason of the message's", 1);
                }
                None
            }
            Resp::Bytes(x) if x[0] == 0 => Some(nums(x)),
            Resp::Bytes(x) => {
                fail("measuring fails", String::from_utf8_lossy(x).into_owned());
                None
            }
        };
        let Some(n) = get(&resps[i]) else {
            i += 1;
            continue;
        };
        let raw = reqs[i][0] == 6;
        if !ts {
            bounds(rep, c, raw, &n, &fail);
        }
        if let Kindof::Small(what) = &c.kind {
            let Some(m) = get(&resps[i + 1]) else {
                i += 2;
                continue;
            };
            if !ts {
                bounds(rep, &cases[i + 1], raw, &m, &fail);
            }
            rep.eval();
            rep.count(&format!("pairs compared ({lang})"), 1);
            let t = times(ts, raw);
            let bad = |n: &[u64], m: &[u64]| t.iter().filter(|(k, _)| slow(n[*k], m[*k])).map(|(_, s)| *s).collect::<Vec<_>>();
            let mut late = bad(&n, &m);
            // Other programs may have been in the way.
            for k in 0..2 {
                if !late.is_empty() {
                    rep.count("time measured again", 1);
                    let again = run_requests(&b.dir.path, &b.eng, &reqs[i..i + 2], &format!("again{k}"));
                    if let (Resp::Bytes(x), Resp::Bytes(y)) = (&again[0], &again[1]) {
                        if x[0] == 0 && y[0] == 0 {
                            let now = bad(&nums(x), &nums(y));
                            late.retain(|s| now.contains(s));
                        }
                    }
                }
            }
            if !late.is_empty() {
                let v: Vec<String> = t.iter().map(|(k, s)| format!("{s}: {} µs and {} µs", n[*k] / 1000, m[*k] / 1000)).collect();
                fail("time grows much faster than the message", format!("{what}\n{} and {} bytes\n{}", c.len, cases[i + 1].len, v.join("\n")));
            }
            if ts {
                for (x, c) in [(&n, c), (&m, &cases[i + 1])] {
                    // Four times everything, of which nothing may stay.
                    if x[4] > 4 * c.len as u64 + 3_000_000 {
                        fail("memory is not given back", format!("{what}\n{} bytes after four times", x[4]));
                    }
                }
                let (a, b) = (n[5], m[5]);
                if b > a.max(20_000) * FACTOR as u64 * 4 + 4_000_000 {
                    fail("memory grows much faster than the message", format!("{what}\n{a} and {b} bytes"));
                }
            }
            i += 2;
        } else {
            i += 1;
        }
    }
}

fn times(ts: bool, raw: bool) -> Vec<(usize, &'static str)> {
    if ts {
        vec![(1, "size"), (2, "serialize"), (3, "deserialize")]
    } else if raw {
        vec![(1, "deserialize")]
    } else {
        vec![(2, "size"), (4, "serialize"), (6, "convert"), (8, "deserialize")]
    }
}

// How much more the known finding may take.
fn accept(rep: &Report, c: &Case, retained: u64, held: u64, excess: u64) -> u64 {
    if excess > 0 && retained > 2 * held + 1024 {
        rep.count("arrays of F64 with room for eight times as many", 1);
        rep.finding(
            "f64-array-capacity",
            "a deserialized value takes much more memory than its contents",
            format!("{retained} for {held}, message of {} bytes", c.len),
        );
    }
    if rep.is_open("f64-array-capacity") { excess } else { 0 }
}

// The Rust code's use of memory.
fn bounds(rep: &Report, c: &Case, raw: bool, n: &[u64], fail: &dyn Fn(&str, String)) {
    let len = c.len as u64;
    if raw {
        let [ok, _, peak, retained, held, largest, excess, leak] = n[..] else { return };
        let excess = accept(rep, c, retained, held, excess);
        rep.count("byte strings measured (Rust)", 1);
        if leak != 0 {
            fail("memory is not given back", format!("{} bytes", leak as i64));
        }
        // What a field held may be replaced by something smaller.
        let strict = !matches!(c.kind, Kindof::Raw) && ok == 1;
        let bound = if strict { 4 * held + excess + 2 * len + 8192 } else { 16 * largest.max(64) * (len + 16) + 65_536 };
        if peak > bound {
            fail("deserializing takes much more memory than the message could describe", format!("peak {peak}, value {held}, message {len}, largest type {largest}"));
        }
        if ok == 1 {
            if retained > 2 * held + excess + 1024 {
                fail("a deserialized value takes much more memory than its contents", format!("{retained} for {held}"));
            }
        }
        return;
    }
    let [held, size, _, p_size, _, p_ser, _, p_conv, _, p_dec, retained, held_in, got, ok, excess, leak] = n[..] else { return };
    let excess = accept(rep, c, retained, held_in, excess);
    rep.count("values measured (Rust)", 1);
    if ok != 1 || size != got {
        rep.count("round trips that fail (C01's business)", 1);
        return;
    }
    if leak != 0 {
        fail("memory is not given back", format!("{} bytes", leak as i64));
    }
    for (what, p) in [("computing the size", p_size), ("serializing", p_ser)] {
        if p > 40 * held + 24 * len + 8192 {
            fail(&format!("{what} takes much more memory than the message"), format!("peak {p}, value {held}, message {len}"));
        }
    }
    if p_conv > 4 * (held + held_in) + 8192 {
        fail("converting takes much more memory than the message", format!("peak {p_conv}, value {held} and {held_in}"));
    }
    if p_dec > 4 * held_in + excess + 2 * len + 8192 {
        fail("deserializing takes much more memory than the value", format!("peak {p_dec}, value {held_in}, message {len}"));
    }
    if retained > 2 * held_in + excess + 1024 {
        fail("a deserialized value takes much more memory than its contents", format!("{retained} for {held_in}"));
    }
}
