// C08: the generated Rust code under overflow checks, the address sanitizer and Miri.
use super::decode::hostile_requests;
use super::runtime::{batch, clip, value, Lang};
use crate::{
    codec::{dump_msg, enc_msg},
    exec::{parse_dec, parse_made, req_make, run_requests, Flavour, Made, Plan, Rd, Res, Resp},
    model::{gen_program, Cfg, Program, Style},
    report::Report,
    typical::Typical,
    util::{hex, par_until, Rng},
};

pub fn run(rep: &Report, typ: &Typical) {
    let nb = rep.n(64, 800);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C08", bi as u64);
        let (fl, name) = match bi % 4 {
            0 => (Flavour::Debug, "overflow checks"),
            1 => (Flavour::Asan, "address sanitizer"),
            _ => (Flavour::Miri, "Miri"),
        };
        let miri = fl == Flavour::Miri;
        let progs: Vec<Program> =
            (0..if miri { 1 } else { 3 }).map(|_| gen_program(&mut rng, &Cfg { torture: 0, ..Cfg::runtime() })).collect();
        let Some(b) = batch(rep, typ, &mut rng, progs, &Style::plain(), &Lang::Rust(fl)) else { return };
        let mut reqs = vec![];
        let mut ids: Vec<(usize, (usize, usize), Vec<u8>, bool)> = vec![];
        for (ui, u) in b.units.iter().enumerate() {
            for r in &u.all {
                if !u.build[r] {
                    continue;
                }
                for k in 0..if miri { 5 } else { 24 } {
                    let v = value(u, &mut rng, *r, true, k % 4 == 0 && !miri);
                    let bytes = enc_msg(&u.p, *r, &v);
                    if bytes.len() > if miri { 500 } else { 20_000 } || (miri && v.nodes() > 2000) {
                        continue;
                    }
                    let mut w = vec![];
                    dump_msg(&u.p, *r, &v, false, &mut w);
                    let op = u.op(*r);
                    let plan = Plan { chunk: rng.below(6) as u32, seed: rng.next(), interrupts: rng.below(4) as u8, ..Plan::WHOLE };
                    let plan = Plan { interrupts: if plan.interrupts == 1 { 0 } else { plan.interrupts }, ..plan };
                    let rd = Plan { chunk: rng.below(6) as u32, ..Plan::WHOLE };
                    reqs.push(req_make(ui, op, plan, &[(ui, op, rd)], &w));
                    ids.push((ui, *r, bytes, true));
                }
            }
        }
        let (hr, hc) = hostile_requests(rep, &b, &mut rng, false, if miri { 14 } else { 48 });
        for (q, (ui, r, bytes)) in hr.into_iter().zip(hc) {
            if miri && bytes.len() > 300 {
                continue;
            }
            reqs.push(q);
            ids.push((ui, r, bytes, false));
        }
        let resps = run_requests(&b.dir.path, &b.eng, &reqs, "a");
        for (i, ((ui, r, bytes, make), resp)) in ids.iter().zip(&resps).enumerate() {
            rep.eval();
            if rep.stop() {
                return;
            }
            rep.distinct(bytes);
            let u = &b.units[*ui];
            let fail = |what: &str, detail: String| {
                rep.violation(
                    &format!("{what} ({name})"),
                    format!("{}\n{} of {}\nbytes {}\n\n{}", clip(&detail), u.p.decl(*r).name, u.p.files[r.0].path(), clip(&hex(bytes)), u.show()),
                    u.files(),
                );
            };
            let x = match resp {
                Resp::NotRun => {
                    rep.count("not run", 1);
                    continue;
                }
                Resp::Died(why) => {
                    if known_alloc(why) {
                        rep.count("memory reserved for a declared size (C06's business)", 1);
                    } else if why.contains("cpu_killed=true") {
                        rep.count("out of time", 1);
                    } else {
                        fail("the process died", why.clone());
                    }
                    continue;
                }
                Resp::Bytes(x) => x,
            };
            let res = if *make {
                match parse_made(x, 1) {
                    Made::Ok { decs, .. } => decs[0].res.clone(),
                    Made::Err { err, .. } => Res::Err(err),
                    Made::Panic(m) => Res::Panic(m),
                }
            } else {
                parse_dec(&mut Rd::new(x)).res
            };
            match res {
                // What the results should be is decided by other properties.
                Res::Ok(_) | Res::Err(_) => rep.count(&format!("{} ({name})", if *make { "messages written and read" } else { "byte strings read" }), 1),
                Res::Panic(m) if m.contains("overflow") && !m.contains("capacity overflow") => fail("arithmetic overflow", m),
                Res::Panic(m) if m.contains("not UTF-8") || m.contains("unsafe precondition") || m.contains("misaligned") => fail("undefined behaviour", m),
                Res::Panic(_) | Res::Spin => rep.count("panics and endless loops (C06's business)", 1),
            }
            if i == 1 {
                rep.sample(bi as u64, || format!("{}\ndeclaration {:?} bytes {}", u.show(), r, hex(bytes)));
            }
        }
    });
    for name in ["overflow checks", "address sanitizer", "Miri"] {
        for k in ["messages written and read", "byte strings read"] {
            rep.require(&format!("{k} ({name})"), 200);
        }
    }
}

fn known_alloc(why: &str) -> bool {
    ["VH-ALLOC-REFUSED", "memory allocation of", "requested allocation size", "allocation-size-too-big", "out-of-memory", "resource exhaustion"]
        .iter()
        .any(|m| why.contains(m))
}
