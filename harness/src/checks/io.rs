// C07: readers and writers that cut, interrupt and fail.
use super::decode::clean;
use super::runtime::{batch, clip, value, Lang, Unit};
use crate::{
    codec::{dec_msg, dump_msg, enc_msg, msg_in, Events},
    exec::{parse_dec, parse_made, req_dec, req_make, run_requests, Flavour, Made, Plan, Rd, Res, Resp},
    model::{gen_program, Cfg, Program, Style},
    report::Report,
    typical::Typical,
    util::{hex, par_until, Rng},
    wire::WGen,
};

const KINDS: [&str; 18] = [
    "Other",
    "BrokenPipe",
    "InvalidData",
    "TimedOut",
    "ConnectionReset",
    "PermissionDenied",
    "WouldBlock",
    "NotFound",
    "ConnectionAborted",
    "NotConnected",
    "InvalidInput",
    "WriteZero",
    "AlreadyExists",
    "AddrInUse",
    "AddrNotAvailable",
    "ConnectionRefused",
    "Unsupported",
    "OutOfMemory",
];

// Some errors happen once, and the stream goes on if one asks again.
fn pick_kind(rng: &mut Rng) -> u8 {
    rng.below(KINDS.len()) as u8 | if rng.chance(1, 2) { 0x40 } else { 0 }
}

enum Want {
    Bytes,              // the same bytes and success
    Fail(u64, u8),      // that error, and the bytes before it
    Value,              // the same value
    ReadFail(u8),       // that error
}

struct Case {
    u: usize,
    r: (usize, usize),
    plan: Plan,
    want: Want,
    msg: usize,
}

pub fn run(rep: &Report, typ: &Typical) {
    let nb = rep.n(140, 1800);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C07", bi as u64);
        let progs: Vec<Program> = (0..3)
            .map(|i| gen_program(&mut rng, &Cfg { ladder: if i == 2 { 60 } else { 0 }, ..Cfg::runtime() }))
            .collect();
        let fl = if bi % 8 == 7 { Flavour::Release } else { Flavour::Debug };
        let Some(b) = batch(rep, typ, &mut rng, progs, &Style::plain(), &Lang::Rust(fl)) else { return };
        let mut msgs: Vec<(Vec<u8>, Vec<u8>)> = vec![]; // bytes, dump
        let mut reqs = vec![];
        let mut cases: Vec<Case> = vec![];
        for (ui, u) in b.units.iter().enumerate() {
            let g = WGen { p: &u.p, build: &u.build, nan: true, miss: 0, stats: Default::default() };
            for r in &u.all {
                for k in 0..6 {
                    if k < 3 && u.build[r] {
                        let v = value(u, &mut rng, *r, true, k == 0);
                        let bytes = enc_msg(&u.p, *r, &v);
                        if bytes.len() > 60_000 {
                            continue;
                        }
                        let mut want = vec![];
                        dump_msg(&u.p, *r, &msg_in(&u.p, *r, &v), true, &mut want);
                        let mut w = vec![];
                        dump_msg(&u.p, *r, &v, false, &mut w);
                        let msg = msgs.len();
                        let n = bytes.len();
                        msgs.push((bytes.clone(), want));
                        for _ in 0..4 {
                            let plan = Plan {
                                chunk: pick_chunk(&mut rng),
                                seed: rng.next(),
                                interrupts: if rng.chance(2, 3) { rng.range(2, 6) as u8 } else { 0 },
                                ..Plan::WHOLE
                            };
                            reqs.push(req_make(ui, u.op(*r), plan, &[], &w));
                            cases.push(Case { u: ui, r: *r, plan, want: Want::Bytes, msg });
                        }
                        for at in positions(&mut rng, n) {
                            if at >= n {
                                continue;
                            }
                            let kind = if rng.chance(1, 8) { 255 } else { pick_kind(&mut rng) };
                            let plan = Plan {
                                chunk: pick_chunk(&mut rng),
                                seed: rng.next(),
                                fail_at: at as u64,
                                kind,
                                interrupts: if rng.chance(1, 3) { 3 } else { 0 },
                            };
                            reqs.push(req_make(ui, u.op(*r), plan, &[], &w));
                            cases.push(Case { u: ui, r: *r, plan, want: Want::Fail(at as u64, kind), msg });
                        }
                        reads(&mut rng, ui, u, *r, msg, &bytes, &mut reqs, &mut cases);
                    } else {
                        let mut budget = *rng.pick(&[5_i64, 30, 60]);
                        let bytes = g.msg(&mut rng, *r, &mut budget, 0);
                        let mut ev = Events::default();
                        let Ok(v) = dec_msg(&u.p, *r, &bytes, &mut ev) else { continue };
                        if !clean(&ev) || bytes.len() > 60_000 {
                            continue;
                        }
                        let mut want = vec![];
                        dump_msg(&u.p, *r, &v, true, &mut want);
                        let msg = msgs.len();
                        msgs.push((bytes.clone(), want));
                        reads(&mut rng, ui, u, *r, msg, &bytes, &mut reqs, &mut cases);
                    }
                }
            }
        }
        let resps = run_requests(&b.dir.path, &b.eng, &reqs, "a");
        for (i, (c, resp)) in cases.iter().zip(&resps).enumerate() {
            rep.eval();
            if rep.stop() {
                return;
            }
            let u = &b.units[c.u];
            let (bytes, dump) = &msgs[c.msg];
            let mut id = bytes.clone();
            id.extend(c.plan.chunk.to_le_bytes());
            id.extend(c.plan.fail_at.to_le_bytes());
            rep.distinct(&id);
            let fail = |what: &str, detail: String| {
                rep.violation(
                    what,
                    format!(
                        "{}\n{:?}\n{} of {}\nmessage {}\n\n{}",
                        clip(&detail),
                        c.plan,
                        u.p.decl(c.r).name,
                        u.p.files[c.r.0].path(),
                        clip(&hex(bytes)),
                        u.show()
                    ),
                    u.files(),
                );
            };
            let x = match resp {
                Resp::NotRun => continue,
                Resp::Died(why) => {
                    fail("the process died", why.clone());
                    continue;
                }
                Resp::Bytes(x) => x,
            };
            match &c.want {
                Want::Bytes => match parse_made(x, 0) {
                    Made::Ok { bytes: got, .. } if got == *bytes => rep.count("writes in pieces", 1),
                    Made::Ok { bytes: got, .. } => fail("writing in pieces changes the bytes", hex(&got)),
                    o => fail("writing in pieces fails", format!("{o:?}")),
                },
                Want::Fail(at, kind) => match parse_made(x, 0) {
                    Made::Err { bytes: got, err, .. } => {
                        let want = match kind {
                            255 => "WriteZero".to_owned(),
                            k => format!("{}: VH-FAULT-{k}", KINDS[(*k & 0x3f) as usize]),
                        };
                        if !err.starts_with(&want) {
                            fail("the error of the writer is replaced by another", format!("expected {want}, got {err}"));
                        } else if got != bytes[..*at as usize] {
                            fail("not the bytes in front of the failure were written", hex(&got));
                        } else {
                            rep.count("failed writes reported", 1);
                        }
                    }
                    o => fail("a failing writer is not reported", format!("{o:?}")),
                },
                Want::Value => match parse_dec(&mut Rd::new(x)).res {
                    Res::Ok(d) if d == *dump => rep.count("reads in pieces", 1),
                    o => fail("reading in pieces changes the result", format!("{o:?}\nexpected {}", hex(dump))),
                },
                Want::ReadFail(k) => {
                    let want = format!("{}: VH-FAULT-{k}", KINDS[(*k & 0x3f) as usize]);
                    match parse_dec(&mut Rd::new(x)).res {
                        Res::Err(e) if e == want => rep.count("failed reads reported", 1),
                        Res::Err(e) => fail("the error of the reader is replaced by another", format!("expected {want}, got {e}")),
                        o => fail("a failing reader is not reported", format!("{o:?}")),
                    }
                }
            }
            if i == 0 {
                rep.sample(bi as u64, || format!("{}\ndeclaration {:?} {:?} bytes {}", u.show(), c.r, c.plan, hex(bytes)));
            }
        }
    });
    for k in ["writes in pieces", "failed writes reported", "reads in pieces", "failed reads reported"] {
        rep.require(k, 500);
    }
}

fn pick_chunk(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0 => 0,
        1 | 2 => 1,
        3 => 0xffff_ffff,
        _ => rng.range(2, 17) as u32,
    }
}

fn positions(rng: &mut Rng, n: usize) -> Vec<usize> {
    if n <= 40 {
        return (0..=n).collect();
    }
    let mut v: Vec<usize> = (0..30).map(|_| rng.below(n + 1)).collect();
    v.extend([0, 1, n - 1, n]);
    v
}

#[allow(clippy::too_many_arguments)]
fn reads(rng: &mut Rng, ui: usize, u: &Unit, r: (usize, usize), msg: usize, bytes: &[u8], reqs: &mut Vec<Vec<u8>>, cases: &mut Vec<Case>) {
    for k in 0..5 {
        let plan = Plan { chunk: if k == 0 { 1 } else { pick_chunk(rng) }, seed: rng.next(), ..Plan::WHOLE };
        reqs.push(req_dec(ui, u.op(r), plan, bytes));
        cases.push(Case { u: ui, r, plan, want: Want::Value, msg });
    }
    for at in positions(rng, bytes.len()) {
        let kind = pick_kind(rng);
        let plan = Plan { chunk: pick_chunk(rng), seed: rng.next(), fail_at: at as u64, kind, interrupts: 0 };
        reqs.push(req_dec(ui, u.op(r), plan, bytes));
        cases.push(Case { u: ui, r, plan, want: Want::ReadFail(kind), msg });
    }
}
