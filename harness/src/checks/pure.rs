// C22: what generated code answers depends on nothing but what it is given. Sessions of many
// requests: one after another, in several threads at once, nested in each other's readers, writers
// and accessors, backwards, with results kept and overwritten.
use super::decode::clean;
use super::runtime::{batch, clip, value, Lang, Unit};
use crate::{
    codec::{dec_msg, dump_msg, enc_msg, msg_in, Events, E},
    exec::{parse_dec, parse_made, req_dec, req_make, run_requests, Engine, Flavour, Made, Plan, Rd, Res, Resp, MIRI_SYSROOT},
    model::{gen_program, Cfg, Program, Style},
    report::Report,
    typical::Typical,
    util::{hex, par_until, Rng},
    wire::{hazards, mutate, WGen},
};

enum Want {
    Made(Vec<u8>),
    Shared(Vec<u8>, Vec<u8>),
    Value(Vec<u8>),
    Missing,
    Any,
}

struct Case {
    u: usize,
    r: (usize, usize),
    bytes: Vec<u8>,
    want: Want,
}

pub fn run(rep: &Report, typ: &Typical) {
    let nb = rep.n(72, 900);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C22", bi as u64);
        // The slow ones first.
        let miri = bi % 3 == 0;
        let ts = bi % 3 == 1;
        let name = if miri { "threads under Miri" } else if ts { "TypeScript" } else { "threads" };
        let lang = if miri {
            Lang::Pure(Flavour::Miri)
        } else if ts {
            Lang::Ts
        } else {
            Lang::Pure(Flavour::Debug)
        };
        let progs: Vec<Program> = (0..if miri { 1 } else if ts { 6 } else { 2 })
            .map(|_| gen_program(&mut rng, &Cfg { torture: 0, repeat: !ts, ..Cfg::runtime() }))
            .collect();
        let Some(mut b) = batch(rep, typ, &mut rng, progs, &Style::plain(), &lang) else { return };
        if miri {
            b.eng = Engine::MiriWith(
                b.dir.path.clone(),
                MIRI_SYSROOT.into(),
                vec![format!("-Zmiri-seed={bi}"), "-Zmiri-preemption-rate=0.03".into()],
            );
        }
        let mut reqs: Vec<Vec<u8>> = vec![];
        let mut sessions: Vec<Vec<Case>> = vec![];
        for s in 0..if miri { 2 } else { 6 } {
            let (list, cases) = session(&mut rng, &b.units, ts, miri, if miri { 8 } else { 60 });
            let mut w = vec![3];
            if ts {
                w.push(if s % 2 == 0 { 0 } else { 3 });
                w.extend((rng.next() as u32).to_le_bytes());
            } else {
                w.push(if miri { 2 } else { 4 });
                w.push(if s % 2 == 0 { 0 } else if miri { 1 } else { 3 });
                w.extend(rng.next().to_le_bytes());
            }
            w.extend((list.len() as u16).to_le_bytes());
            for q in &list {
                w.extend((q.len() as u32).to_le_bytes());
                w.extend(q);
            }
            reqs.push(w);
            sessions.push(cases);
        }
        // Messages shared by threads.
        let mut shared: Vec<Case> = vec![];
        if !ts {
            for (ui, u) in b.units.iter().enumerate() {
                for r in &u.all {
                    if !u.build[r] || (miri && shared.len() >= 4) {
                        continue;
                    }
                    let v = value(u, &mut rng, *r, true, false);
                    let bytes = enc_msg(&u.p, *r, &v);
                    if miri && v.nodes() > 300 || heavy(u, *r, &bytes, miri) {
                        continue;
                    }
                    let mut expect = vec![];
                    dump_msg(&u.p, *r, &msg_in(&u.p, *r, &v), true, &mut expect);
                    let mut w = vec![4];
                    w.extend((ui as u16).to_le_bytes());
                    w.extend((u.op(*r) as u16).to_le_bytes());
                    w.push(if miri { 2 } else { 4 });
                    dump_msg(&u.p, *r, &v, false, &mut w);
                    reqs.push(w);
                    shared.push(Case { u: ui, r: *r, bytes: bytes.clone(), want: Want::Shared(bytes, expect) });
                }
            }
        }
        let resps = run_requests(&b.dir.path, &b.eng, &reqs, "a");
        let show = || b.units.iter().map(Unit::show).collect::<String>();
        let mut it = resps.iter();
        for cases in &sessions {
            if rep.stop() {
                return;
            }
            let x = match it.next().unwrap() {
                Resp::NotRun => continue,
                Resp::Died(why) => {
                    rep.violation(&format!("the process of a session died ({name})"), format!("{}\n{}", clip(why), show()), vec![]);
                    continue;
                }
                Resp::Bytes(x) => x,
            };
            rep.count(&format!("sessions: {name}"), 1);
            let mut rd = Rd::new(x);
            if x.first() == Some(&2) && x.len() < 10_000 && cases.len() > 2 {
                // Not a list: the session as a whole failed.
                let mut r2 = Rd::new(x);
                r2.u8();
                let n = r2.u32() as usize;
                if n + 5 == x.len() {
                    rep.violation(&format!("a session fails ({name})"), format!("{}\n{}", String::from_utf8_lossy(&x[5..]), show()), vec![]);
                    continue;
                }
            }
            for c in cases {
                let part = rd.blob().to_vec();
                judge(rep, name, &b.units, c, &part);
            }
            let (done, inner) = (rd.u64(), rd.u64());
            rep.count(&format!("requests: {name}"), done);
            rep.count(&format!("requests in the middle of others: {name}"), inner);
            let bad = String::from_utf8_lossy(rd.blob()).into_owned();
            if !bad.is_empty() {
                let ids: String = cases.iter().enumerate().map(|(i, c)| format!("{i}: {} {}\n", b.units[c.u].p.decl(c.r).name, clip(&hex(&c.bytes)))).collect();
                rep.violation(&format!("an answer depends on more than the request ({name})"), format!("{bad}\n\nrequests:\n{ids}\n{}", show()), vec![]);
            }
        }
        for c in &shared {
            if rep.stop() {
                return;
            }
            match it.next().unwrap() {
                Resp::NotRun => {}
                Resp::Died(why) => {
                    rep.violation(&format!("the process died using a message in several threads ({name})"), format!("{}\n{}", clip(why), show()), vec![]);
                }
                Resp::Bytes(x) => {
                    rep.count(&format!("messages shared: {name}"), 1);
                    judge(rep, name, &b.units, c, x);
                }
            }
        }
        if let Some(c) = sessions[0].first() {
            rep.sample(bi as u64, || format!("{}\ndeclaration {:?} bytes {}", b.units[c.u].show(), c.r, hex(&c.bytes)));
        }
    });
    for (n, min) in [("threads", 2000), ("threads under Miri", 100), ("TypeScript", 2000)] {
        rep.require(&format!("requests: {n}"), min);
        rep.require(&format!("requests in the middle of others: {n}"), min / 10);
    }
    rep.require("messages shared: threads", 50);
    rep.require("messages shared: threads under Miri", 20);
}

// Too much work for the interpreter, or for being repeated so often.
fn heavy(u: &Unit, r: (usize, usize), bytes: &[u8], miri: bool) -> bool {
    let haz = hazards(&u.p, r, bytes);
    if miri {
        bytes.len() > 200 || haz.blob > 1 << 10 || haz.units > 50
    } else {
        bytes.len() > 30_000 || haz.units > 1 << 12
    }
}

fn session(rng: &mut Rng, units: &[Unit], ts: bool, miri: bool, n: usize) -> (Vec<Vec<u8>>, Vec<Case>) {
    let mut reqs = vec![];
    let mut cases = vec![];
    let mut other = vec![];
    let mut tries = 0;
    while cases.len() < n && tries < 20 * n {
        tries += 1;
        let ui = rng.below(units.len());
        let u = &units[ui];
        if u.all.is_empty() {
            continue;
        }
        // Few declarations, so that the same code is used again and again.
        let r = *rng.pick(&u.all[..u.all.len().min(1 + cases.len() / 2)]);
        let op = u.op(r);
        let plan = Plan { chunk: rng.below(7) as u32, seed: rng.next(), ..Plan::WHOLE };
        if u.build[&r] && rng.chance(1, 2) {
            let big = !miri && rng.chance(1, 4);
            let v = value(u, rng, r, !ts, big);
            let bytes = enc_msg(&u.p, r, &v);
            if miri && v.nodes() > 300 || heavy(u, r, &bytes, miri) {
                continue;
            }
            let mut d = vec![];
            dump_msg(&u.p, r, &v, false, &mut d);
            reqs.push(req_make(ui, op, if ts { Plan::WHOLE } else { plan }, &[], &d));
            cases.push(Case { u: ui, r, bytes: bytes.clone(), want: Want::Made(bytes) });
            continue;
        }
        let g = WGen { p: &u.p, build: &u.build, nan: !ts, miss: 4, stats: Default::default() };
        let mut budget = if miri { 12 } else { *rng.pick(&[5_i64, 30, 100]) };
        let mut bytes = g.msg(rng, r, &mut budget, 0);
        if miri && bytes.len() > 200 {
            continue;
        }
        let mut ev = Events::default();
        let want = if rng.chance(1, 4) {
            bytes = mutate(rng, &bytes, &other);
            let haz = hazards(&u.p, r, &bytes);
            if haz.truncated_unknown || haz.blob > 1 << 20 {
                continue;
            }
            Want::Any
        } else {
            match dec_msg(&u.p, r, &bytes, &mut ev) {
                _ if !clean(&ev) => continue,
                Ok(v) => {
                    let mut d = vec![];
                    dump_msg(&u.p, r, &v, true, &mut d);
                    Want::Value(d)
                }
                Err(E::Missing) => Want::Missing,
                Err(_) => continue,
            }
        };
        other.clone_from(&bytes);
        if heavy(u, r, &bytes, miri) {
            continue;
        }
        reqs.push(req_dec(ui, op, plan, &bytes));
        cases.push(Case { u: ui, r, bytes, want });
    }
    (reqs, cases)
}

fn judge(rep: &Report, name: &str, units: &[Unit], c: &Case, x: &[u8]) {
    rep.eval();
    rep.distinct(&c.bytes);
    let u = &units[c.u];
    let fail = |what: &str, detail: String| {
        rep.violation(
            &format!("{what} ({name})"),
            format!("{}\n{} of {}\nbytes {}\n\n{}", clip(&detail), u.p.decl(c.r).name, u.p.files[c.r.0].path(), clip(&hex(&c.bytes)), u.show()),
            u.files(),
        );
    };
    match &c.want {
        Want::Made(bytes) => match parse_made(x, 0) {
            Made::Ok { bytes: got, size, .. } if got == *bytes && size == bytes.len() as u64 => {}
            o => fail("a message of a session is not written as it should be", format!("expected {}\ngot {o:?}", hex(bytes))),
        },
        Want::Shared(bytes, dump) => match parse_made(x, 1) {
            Made::Ok { bytes: got, size, from, decs } if got == *bytes && size == bytes.len() as u64 && from == *dump && decs[0].res == Res::Ok(dump.clone()) => {}
            o => fail("a message used in several threads is not treated as it should be", format!("expected {}\ngot {o:?}", hex(bytes))),
        },
        w => match (w, parse_dec(&mut Rd::new(x)).res) {
            (Want::Value(d), Res::Ok(got)) if *d == got => {}
            (Want::Missing, Res::Err(_)) | (Want::Any, Res::Ok(_) | Res::Err(_)) => {}
            (_, o) => fail("a message of a session is not read as it should be", format!("{o:?}")),
        },
    }
}
