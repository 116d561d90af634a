// C01, C02, C03: values survive the generated code, and the bytes are the documented ones.
use super::runtime::{batch, clip, value, Batch, Lang, Unit};
use crate::{
    codec::{dump_msg, enc_msg, msg_in, V},
    exec::{parse_made, req_dec, req_make, run_requests, Dec, Flavour, Made, Plan, Rd, Res, Resp},
    model::{gen_program, Cfg, Program, Style, Ty},
    report::Report,
    typical::Typical,
    util::{hex, par_until, Rng},
};

struct Case {
    u: usize,
    r: (usize, usize),
    v: V,
    expect: Vec<u8>, // dump of the incoming value
    bytes: Vec<u8>,  // reference encoding
}

pub fn run_codec(rep: &Report, typ: &Typical, which: &str) {
    let ts = which == "C03";
    let (nb, per, nv) = match which {
        "C03" => (rep.n(200, 2500), 8, 14),
        _ => (rep.n(120, 1500), 3, 16),
    };
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, which, bi as u64);
        let cfg = Cfg { repeat: !ts, ..Cfg::runtime() };
        let progs: Vec<Program> = (0..per).map(|_| gen_program(&mut rng, &cfg)).collect();
        let st = Style { wild: rng.chance(1, 3), comments: false, crlf: false, refs: true };
        let lang = if ts { Lang::Ts } else { Lang::Rust(Flavour::Debug) };
        let Some(b) = batch(rep, typ, &mut rng, progs, &st, &lang) else { return };
        let mut cases = vec![];
        for (ui, u) in b.units.iter().enumerate() {
            for r in &u.all {
                if !u.build[r] {
                    continue;
                }
                for _ in 0..nv {
                    let v = value(u, &mut rng, *r, !ts, true);
                    let mut expect = vec![];
                    dump_msg(&u.p, *r, &msg_in(&u.p, *r, &v), true, &mut expect);
                    let bytes = enc_msg(&u.p, *r, &v);
                    cases.push(Case { u: ui, r: *r, v, expect, bytes });
                }
            }
        }
        check(rep, &b, &cases, &mut rng, which, bi);
    });
    if which != "C01" {
        probe(rep, typ, ts);
    }
    if ts {
        probe_bom(rep, typ);
    }
    rep.require("schemas accepted", 10);
    rep.require("messages", 500);
}

fn plan(rng: &mut Rng, ts: bool) -> Plan {
    if ts {
        Plan { chunk: rng.below(9) as u32, seed: rng.next(), ..Plan::WHOLE }
    } else {
        Plan::WHOLE
    }
}

fn check(rep: &Report, b: &Batch, cases: &[Case], rng: &mut Rng, which: &str, bi: usize) {
    let ts = which == "C03";
    let mut reqs = vec![];
    for c in cases {
        let u = &b.units[c.u];
        let op = u.op(c.r);
        let mut d = vec![];
        dump_msg(&u.p, c.r, &c.v, false, &mut d);
        reqs.push(req_make(c.u, op, Plan::WHOLE, &[(c.u, op, plan(rng, ts)), (c.u, op, plan(rng, ts))], &d));
        if which != "C01" {
            reqs.push(req_dec(c.u, op, plan(rng, ts), &c.bytes));
        }
    }
    let resps = run_requests(&b.dir.path, &b.eng, &reqs, "a");
    let mut it = resps.iter();
    for (ci, c) in cases.iter().enumerate() {
        let u = &b.units[c.u];
        rep.eval();
        rep.count("messages", 1);
        let resp = it.next().unwrap();
        let resp2 = if which == "C01" { None } else { it.next() };
        if rep.stop() {
            return;
        }
        match resp {
            Resp::NotRun => {
                rep.count("not run", 1);
                continue;
            }
            Resp::Died(why) => {
                if which != "C02" {
                    fail(rep, u, c, "the process handling a valid message died", why.clone());
                }
                continue;
            }
            Resp::Bytes(x) => match parse_made(x, 2) {
                Made::Panic(m) => {
                    fail(rep, u, c, "serializing a value failed unexpectedly", m);
                }
                Made::Err { err, .. } => {
                    fail(rep, u, c, "serializing a value returned an error", err);
                }
                Made::Ok { size, bytes, from, decs } => {
                    rep.count("bytes written", bytes.len() as u64);
                    if bytes.len() > 2 {
                        rep.distinct(&bytes);
                    }
                    if which != "C02" {
                        if size != bytes.len() as u64 {
                            fail(rep, u, c, "size() differs from the number of bytes written", format!("size {size}, written {}: {}", bytes.len(), hex(&bytes)));
                        }
                        for d in &decs {
                            dec_ok(rep, u, c, d, bytes.len(), "round trip", ts);
                        }
                    }
                    if which == "C01" && from != c.expect {
                        fail(rep, u, c, "converting Out into In gives a different value", format!("expected {}\ngot      {}", hex(&c.expect), hex(&from)));
                    }
                    if which != "C01" && bytes != c.bytes {
                        fail(rep, u, c, "the bytes are not the documented encoding", format!("expected {}\ngot      {}", hex(&c.bytes), hex(&bytes)));
                    }
                }
            },
        }
        match resp2 {
            None | Some(Resp::NotRun) => {}
            Some(Resp::Died(why)) => fail(rep, u, c, "the process decoding a documented message died", why.clone()),
            Some(Resp::Bytes(x)) => {
                let d = crate::exec::parse_dec(&mut Rd::new(x));
                dec_ok(rep, u, c, &d, c.bytes.len(), "decoding the documented encoding", ts);
            }
        }
        if ci == 0 {
            rep.sample(bi as u64, || format!("{}\nmessage of declaration {:?}: {:?}\nbytes {}", u.show(), c.r, c.v, hex(&c.bytes)));
        }
    }
}

fn dec_ok(rep: &Report, u: &Unit, c: &Case, d: &Dec, len: usize, what: &str, ts: bool) {
    rep.count("decodes", 1);
    match &d.res {
        Res::Ok(x) if *x == c.expect => {
            if !ts && d.pos != len {
                fail(rep, u, c, &format!("{what}: the message was not consumed entirely"), format!("{} of {len}", d.pos));
            }
        }
        Res::Ok(x) => fail(rep, u, c, &format!("{what}: the decoded value differs"), format!("expected {}\ngot      {}", hex(&c.expect), hex(x))),
        other => fail(rep, u, c, &format!("{what}: decoding failed"), format!("{other:?}")),
    }
}

fn fail(rep: &Report, u: &Unit, c: &Case, what: &str, detail: String) {
    let d = u.p.decl(c.r);
    rep.violation(
        what,
        format!(
            "{}\ndeclaration: {} in {}\nvalue (outgoing): {}\nreference encoding: {}\n\n{}",
            clip(&detail),
            d.name,
            u.p.files[c.r.0].path(),
            clip(&format!("{:?}", c.v)),
            clip(&hex(&c.bytes)),
            u.show()
        ),
        u.files(),
    );
}

// Known finding: the size mode of [Unit] fields.
fn probe(rep: &Report, typ: &Typical, ts: bool) {
    let lang = if ts { Lang::Ts } else { Lang::Rust(Flavour::Debug) };
    let p = super::decode::probe_program();
    let Some(b) = batch(rep, typ, &mut Rng::new(1), vec![p], &Style::plain(), &lang) else { return };
    let u = &b.units[0];
    let v = V::Struct(vec![Some(V::Arr(vec![V::Unit; 5])), None, None]);
    let mut w = vec![];
    dump_msg(&u.p, (0, 0), &v, false, &mut w);
    let resp = run_requests(&b.dir.path, &b.eng, &[req_make(0, u.op((0, 0)), Plan::WHOLE, &[], &w)], "p").remove(0);
    let Resp::Bytes(x) = resp else { return };
    // Field 0, size mode 2, five.
    if let Made::Ok { bytes, .. } = parse_made(&x, 0) {
        rep.count("probes of unusual inputs", 1);
        if bytes != [5, 11] {
            rep.finding("unit-array-size-mode", "a [Unit] field is not encoded in size mode 2", hex(&bytes));
        }
    }
}

// Known finding: a byte order mark at the start of a string.
fn probe_bom(rep: &Report, typ: &Typical) {
    let mut p = super::decode::probe_program();
    p.files[0].decls[0].fields[0].ty = Ty::Str;
    let Some(b) = batch(rep, typ, &mut Rng::new(1), vec![p], &Style::plain(), &Lang::Ts) else { return };
    let u = &b.units[0];
    for (text, known) in [("\u{feff}x", true), ("x\u{feff}", false)] {
        let v = V::Struct(vec![Some(V::Str(text.into())), None, None]);
        let mut expect = vec![];
        dump_msg(&u.p, (0, 0), &msg_in(&u.p, (0, 0), &v), true, &mut expect);
        let bytes = enc_msg(&u.p, (0, 0), &v);
        let op = u.op((0, 0));
        let resp = run_requests(&b.dir.path, &b.eng, &[req_dec(0, op, Plan::WHOLE, &bytes)], "p").remove(0);
        let Resp::Bytes(x) = resp else { return };
        let d = crate::exec::parse_dec(&mut Rd::new(&x));
        rep.count("probes of unusual inputs", 1);
        let got = match &d.res {
            Res::Ok(x) if *x == expect => continue,
            Res::Ok(x) => hex(x),
            other => format!("{other:?}"),
        };
        if known {
            rep.finding("ts-bom", "TypeScript drops a byte order mark at the start of a string", got);
        } else {
            rep.violation("a string does not survive", format!("{text:?}: {got}"), u.files());
        }
    }
}
