// C05: decoding liberties. C06: hostile input.
use super::runtime::{batch, clip, value, Batch, Lang, Unit};
use crate::{
    codec::{dec_msg, dump_msg, enc_msg, Events, E},
    exec::{parse_dec, req_dec, run_requests, Flavour, Plan, Rd, Res, Resp},
    model::{gen_program, Cfg, Program, Style},
    report::Report,
    typical::Typical,
    util::{hex, par_until, Rng},
    wire::{hazards, mutate, Hazards, WGen},
};

pub fn clean(ev: &Events) -> bool {
    !(ev.truncated_unknown || ev.oversize || ev.odd || ev.trailing || ev.dup || ev.big_unit || ev.bad_utf8 || ev.bom)
}

fn programs(rng: &mut Rng, n: usize) -> Vec<Program> {
    (0..n).map(|_| gen_program(rng, &Cfg { torture: 5, ..Cfg::runtime() })).collect()
}

pub fn c05(rep: &Report, typ: &Typical) {
    let nb = rep.n(200, 2500);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C05", bi as u64);
        let ts = bi % 3 == 2;
        let progs = programs(&mut rng, if ts { 8 } else { 3 });
        let lang = if ts { Lang::Ts } else { Lang::Rust(Flavour::Debug) };
        let Some(b) = batch(rep, typ, &mut rng, progs, &Style::plain(), &lang) else { return };
        let mut reqs = vec![];
        let mut cases = vec![];
        for (ui, u) in b.units.iter().enumerate() {
            let g = WGen { p: &u.p, build: &u.build, nan: !ts, miss: 4, stats: Default::default() };
            for r in &u.all {
                for _ in 0..24 {
                    let mut budget = *rng.pick(&[5_i64, 30, 60, 150]);
                    let bytes = g.msg(&mut rng, *r, &mut budget, 0);
                    let mut ev = Events::default();
                    let res = dec_msg(&u.p, *r, &bytes, &mut ev);
                    if !clean(&ev) || !matches!(res, Ok(_) | Err(E::Missing)) {
                        rep.count("generated messages that are not well-formed (skipped)", 1);
                        continue;
                    }
                    let expect = res.ok().map(|v| {
                        let mut d = vec![];
                        dump_msg(&u.p, *r, &v, true, &mut d);
                        d
                    });
                    let plan = if ts {
                        Plan { chunk: rng.below(9) as u32, seed: rng.next(), ..Plan::WHOLE }
                    } else if rng.chance(1, 4) {
                        Plan { chunk: rng.range(1, 9) as u32, seed: rng.next(), ..Plan::WHOLE }
                    } else {
                        Plan::WHOLE
                    };
                    reqs.push(req_dec(ui, u.op(*r), plan, &bytes));
                    cases.push((ui, *r, bytes, expect, ev));
                }
            }
            for (k, n) in g.stats.borrow().iter() {
                rep.count(k, *n);
            }
        }
        let resps = run_requests(&b.dir.path, &b.eng, &reqs, "a");
        for (i, ((ui, r, bytes, expect, ev), resp)) in cases.iter().zip(&resps).enumerate() {
            rep.eval();
            if rep.stop() {
                return;
            }
            let u = &b.units[*ui];
            if ev.unknown + ev.noncanon > 0 || expect.is_none() {
                rep.distinct(bytes);
            }
            let fail = |what: &str, detail: String| fail(rep, u, *r, bytes, ts, what, detail);
            match resp {
                Resp::NotRun => rep.count("not run", 1),
                Resp::Died(why) => fail("the process decoding a well-formed message died", why.clone()),
                Resp::Bytes(x) => {
                    let d = parse_dec(&mut Rd::new(x));
                    match (&d.res, expect) {
                        (Res::Ok(x), Some(e)) if x == e => rep.count(if ts { "accepted (TypeScript)" } else { "accepted (Rust)" }, 1),
                        (Res::Err(_), None) => rep.count(if ts { "rejected (TypeScript)" } else { "rejected (Rust)" }, 1),
                        (Res::Ok(x), Some(e)) => fail("a well-formed message is decoded to another value", format!("expected {}\ngot      {}", hex(e), hex(x))),
                        (Res::Ok(x), None) => fail("a message lacking something mandatory is accepted", format!("got {}", hex(x))),
                        (o, Some(e)) => fail("a well-formed message is rejected", format!("expected {}\ngot {o:?}", hex(e))),
                        (o, None) => fail("a message lacking something mandatory is not rejected with an error", format!("{o:?}")),
                    }
                }
            }
            if i == 0 {
                rep.sample(bi as u64, || format!("{}\ndeclaration {:?} bytes {}", u.show(), r, hex(bytes)));
            }
        }
    });
    for k in [
        "accepted (Rust)", "accepted (TypeScript)", "rejected (Rust)", "rejected (TypeScript)", "unknown fields of mode 0",
        "unknown fields of mode 1", "unknown fields of mode 2", "unknown fields of mode 3", "integers as fixed width",
        "integers as varints", "structs with fields in any order", "choices with unknown fields first",
        "choices without a final field", "choices with more fields behind the one used",
    ] {
        rep.require(k, 30);
    }
}

fn fail(rep: &Report, u: &Unit, r: (usize, usize), bytes: &[u8], ts: bool, what: &str, detail: String) {
    rep.violation(
        what,
        format!(
            "{}\nin {}: {} of {}\nbytes {}\n\n{}",
            clip(&detail),
            if ts { "TypeScript" } else { "Rust" },
            u.p.decl(r).name,
            u.p.files[r.0].path(),
            clip(&hex(bytes)),
            u.show()
        ),
        u.files(),
    );
}

struct Hostile {
    ui: usize,
    r: (usize, usize),
    bytes: Vec<u8>,
    haz: Hazards,
    expect: Option<Vec<u8>>, // for the well-formed messages in between
}

pub fn hostile_requests(rep: &Report, b: &Batch, rng: &mut Rng, ts: bool, per: usize) -> (Vec<Vec<u8>>, Vec<(usize, (usize, usize), Vec<u8>)>) {
    let (a, c) = hostile(rep, b, rng, ts, per);
    (a, c.into_iter().map(|h| (h.ui, h.r, h.bytes)).collect())
}

fn hostile(rep: &Report, b: &Batch, rng: &mut Rng, ts: bool, per: usize) -> (Vec<Vec<u8>>, Vec<Hostile>) {
    let mut reqs = vec![];
    let mut cases = vec![];
    let mut alloc = 0;
    for (ui, u) in b.units.iter().enumerate() {
        let g = WGen { p: &u.p, build: &u.build, nan: !ts, miss: 3, stats: Default::default() };
        let mut other: Vec<u8> = vec![];
        for r in &u.all {
            for k in 0..per {
                let mut base = if u.build[r] && rng.chance(1, 2) {
                    let v = value(u, rng, *r, !ts, false);
                    enc_msg(&u.p, *r, &v)
                } else {
                    let mut budget = *rng.pick(&[5_i64, 20, 60]);
                    g.msg(rng, *r, &mut budget, 0)
                };
                base.truncate(3000);
                let valid = k % 8 == 0;
                let bytes = if valid { base.clone() } else { mutate(rng, &base, &other) };
                other = base;
                let haz = hazards(&u.p, *r, &bytes);
                if haz.truncated_unknown && !ts {
                    rep.count("inputs of known findings (mostly skipped)", 1);
                    continue;
                }
                if haz.blob > 1 << 26 && !ts {
                    alloc += 1;
                    if alloc > 2 || rep.prop == "C08" {
                        rep.count("inputs of known findings (mostly skipped)", 1);
                        continue;
                    }
                }
                if haz.units > 1 << 20 && ts {
                    rep.count("arrays of very many units (documented)", 1);
                    continue;
                }
                let mut expect = None;
                if valid {
                    let mut ev = Events::default();
                    if let Ok(v) = dec_msg(&u.p, *r, &bytes, &mut ev) {
                        if clean(&ev) {
                            let mut d = vec![];
                            dump_msg(&u.p, *r, &v, true, &mut d);
                            expect = Some(d);
                        }
                    }
                }
                let plan = if ts {
                    Plan { chunk: rng.below(9) as u32, seed: rng.next(), ..Plan::WHOLE }
                } else if rng.chance(1, 3) {
                    Plan { chunk: rng.range(1, 9) as u32, seed: rng.next(), ..Plan::WHOLE }
                } else {
                    Plan::WHOLE
                };
                reqs.push(req_dec(ui, u.op(*r), plan, &bytes));
                cases.push(Hostile { ui, r: *r, bytes, haz, expect });
            }
        }
    }
    (reqs, cases)
}

pub fn c06(rep: &Report, typ: &Typical) {
    let nb = rep.n(140, 2000);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C06", bi as u64);
        let ts = bi % 3 == 2;
        let progs = programs(&mut rng, if ts { 8 } else { 3 });
        let lang = if ts { Lang::Ts } else { Lang::Rust(Flavour::Debug) };
        let Some(b) = batch(rep, typ, &mut rng, progs, &Style::plain(), &lang) else { return };
        let (reqs, cases) = hostile(rep, &b, &mut rng, ts, 64);
        let resps = run_requests(&b.dir.path, &b.eng, &reqs, "a");
        judge(rep, &b, &cases, &resps, ts, bi);
    });
    probes(rep, typ);
    rep.require("well-formed messages in between decoded correctly", 200);
    for k in ["Rust", "TypeScript"] {
        rep.require(&format!("hostile input accepted ({k})"), 200);
        rep.require(&format!("hostile input rejected ({k})"), 200);
    }
}

fn judge(rep: &Report, b: &Batch, cases: &[Hostile], resps: &[Resp], ts: bool, bi: usize) {
    let l = if ts { "TypeScript" } else { "Rust" };
    for (i, (c, resp)) in cases.iter().zip(resps).enumerate() {
        rep.eval();
        if rep.stop() {
            return;
        }
        let u = &b.units[c.ui];
        rep.distinct(&c.bytes);
        let fail = |what: &str, detail: String| fail(rep, u, c.r, &c.bytes, ts, what, detail);
        match resp {
            Resp::NotRun => rep.count("not run", 1),
            Resp::Died(why) => {
                let alloc = why.contains("VH-ALLOC-REFUSED") || why.contains("memory allocation of") || why.contains("AddressSanitizer: requested allocation size");
                if !ts && alloc && c.haz.blob > 1 << 26 && rep.is_open("rust-blob-size") {
                    rep.count("known finding: memory reserved for a declared size", 1);
                } else if !ts && why.contains("cpu_killed=true") && c.haz.truncated_unknown && rep.is_open("rust-truncated-unknown") {
                    rep.count("known finding: truncated unknown field", 1);
                } else if ts && (why.contains("v8::internal") || why.contains("FATAL ERROR") || why.contains("cpu_killed=true")) && u.unit_arrays() {
                    // The README warns of this.
                    rep.count("arrays of very many units (documented)", 1);
                } else {
                    fail("decoding hostile input ends the process", format!("{why}\n{:?}", c.haz));
                }
            }
            Resp::Bytes(x) => {
                let d = parse_dec(&mut Rd::new(x));
                match &d.res {
                    Res::Ok(x) => {
                        rep.count(&format!("hostile input accepted ({l})"), 1);
                        if let Some(e) = &c.expect {
                            if e == x {
                                rep.count("well-formed messages in between decoded correctly", 1);
                            } else {
                                fail("after hostile input, a well-formed message is decoded wrongly", format!("expected {}\ngot      {}", hex(e), hex(x)));
                            }
                        }
                    }
                    Res::Err(m) => {
                        rep.count(&format!("hostile input rejected ({l})"), 1);
                        if c.expect.is_some() {
                            fail("after hostile input, a well-formed message is rejected", m.clone());
                        }
                    }
                    Res::Spin if !ts && c.haz.truncated_unknown && rep.is_open("rust-truncated-unknown") => {
                        rep.count("known finding: truncated unknown field", 1);
                    }
                    Res::Panic(m) if !ts && m.contains("capacity overflow") && c.haz.blob > 1 << 26 && rep.is_open("rust-blob-size") => {
                        rep.count("known finding: memory reserved for a declared size", 1);
                    }
                    o => fail(
                        match o {
                            Res::Spin => "decoding never ends",
                            _ if ts => "decoding throws or returns something else than a value or an Error",
                            _ => "decoding panics",
                        },
                        format!("{o:?}\n{:?}", c.haz),
                    ),
                }
            }
        }
        if i == 1 {
            rep.sample(bi as u64, || format!("{}\ndeclaration {:?} bytes {}", u.show(), c.r, hex(&c.bytes)));
        }
    }
}

// The inputs of the known findings.
fn probes(rep: &Report, typ: &Typical) {
    use crate::codec::header;
    use crate::exec::run_requests_limited;
    let p = probe_program();
    for ts in [false, true] {
        let mut rng = Rng::new(1);
        let lang = if ts { Lang::Ts } else { Lang::Rust(Flavour::Debug) };
        let Some(b) = batch(rep, typ, &mut rng, vec![p.clone()], &Style::plain(), &lang) else { return };
        let foo = b.units[0].op((0, 0));
        let bar = b.units[0].op((0, 1));
        let mut cases = vec![];
        let mut m = header(9, 1 << 20, false);
        m.extend([1, 2, 3]);
        cases.push(("truncated-unknown", foo, m, "an unknown field with a declared size beyond the end"));
        for (i, size) in [(1, 1 << 62), (2, 1 << 62), (1, 1 << 36), (2, 1 << 36)] {
            let mut m = header(i, size, false);
            m.extend([65, 66, 67]);
            cases.push(("blob-size", foo, m, "Bytes or String with a declared size beyond the end"));
        }
        let chain = vec![1_u8; 2_000_000];
        cases.push(("fallback-depth", bar, chain, "a choice with two million optional fields before the end"));
        for (id, op, m, what) in cases {
            let id = format!("{}-{id}", if ts { "ts" } else { "rust" });
            let reqs = [req_dec(0, op, Plan::WHOLE, &m)];
            let r = run_requests_limited(&b.dir.path, &b.eng, &reqs, "p", 10, 8 << 20, 8).remove(0);
            rep.count("probes of unusual inputs", 1);
            let bad = match &r {
                Resp::Died(w) => Some(w.clone()),
                Resp::NotRun => None,
                Resp::Bytes(x) => match parse_dec(&mut Rd::new(x)).res {
                    Res::Ok(_) | Res::Err(_) => None,
                    o => Some(format!("{o:?}")),
                },
            };
            if let Some(why) = bad {
                rep.finding(&id, &format!("decoding does not end with a value or an error: {what}"), format!("{why}\n{}", clip(&hex(&m))));
            }
        }
    }
}

pub fn probe_program() -> Program {
    use crate::model::{Decl, Field, File, Kind, Rule, Ty};
    let field = |name: &str, rule, ty, index| Field { name: name.into(), rule, ty, index, comment: vec![] };
    let decl = |kind, name: &str, fields| Decl { kind, name: name.into(), fields, deleted: Default::default(), comment: vec![] };
    Program {
        files: vec![File {
            comps: vec!["probe.t".into()],
            imports: vec![],
            decls: vec![
                decl(
                    Kind::Struct,
                    "Foo",
                    vec![
                        field("units", Rule::Opt, Ty::Arr(Box::new(Ty::Unit)), 0),
                        field("blob", Rule::Opt, Ty::Bytes, 1),
                        field("text", Rule::Opt, Ty::Str, 2),
                    ],
                ),
                decl(
                    Kind::Choice,
                    "Bar",
                    vec![field("a", Rule::Opt, Ty::Unit, 0), field("b", Rule::Req, Ty::Unit, 1)],
                ),
            ],
            comment: vec![],
        }],
    }
}
