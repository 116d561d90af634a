// C04: one version's messages read by the other's code.
use super::runtime::{batch, clip, value, Lang};
use crate::{
    codec::{dump_msg, V},
    evolve::{conv_msg, evolve},
    exec::{parse_made, req_make, run_requests, Flavour, Made, Plan, Res, Resp},
    model::{gen_program, Cfg, Program, Style},
    report::Report,
    typical::Typical,
    util::{hex, par_until, Rng},
};

pub fn run(rep: &Report, typ: &Typical) {
    let nb = rep.n(200, 2500);
    par_until(nb, &|| rep.stop(), |bi| {
        let mut rng = Rng::case(rep.seed, "C04", bi as u64);
        let ts = bi % 3 == 2;
        let npairs = if ts { 5 } else { 2 };
        let mut progs: Vec<Program> = vec![];
        let mut pairs = vec![];
        for _ in 0..npairs {
            let cfg = Cfg { max_files: 2, max_decls: 6, ..Cfg::runtime() };
            let a = gen_program(&mut rng, &cfg);
            let pair = evolve(&mut rng, &a);
            progs.push(pair.a.clone());
            progs.push(pair.b.clone());
            pairs.push(pair);
        }
        let n = progs.len();
        let lang = if ts { Lang::Ts } else { Lang::Rust(Flavour::Debug) };
        let Some(b) = batch(rep, typ, &mut rng, progs, &Style::plain(), &lang) else { return };
        if b.units.len() != n {
            rep.count("batches with a rejected version (skipped)", 1);
            return;
        }
        let mut reqs = vec![];
        let mut cases: Vec<(usize, usize, (usize, usize), (usize, usize), V, Vec<u8>)> = vec![];
        for (pi, pair) in pairs.iter().enumerate() {
            for (k, n) in &pair.changes {
                rep.count(&format!("change: {k}"), *n);
            }
            for (ra, rb) in &pair.map {
                for (w, r, rw, rr) in [(2 * pi, 2 * pi + 1, *ra, *rb), (2 * pi + 1, 2 * pi, *rb, *ra)] {
                    let (uw, ur) = (&b.units[w], &b.units[r]);
                    if !uw.build[&rw] {
                        continue;
                    }
                    for k in 0..14 {
                        let v = value(uw, &mut rng, rw, !ts, k % 8 == 7);
                        let Some(x) = conv_msg(&uw.p, rw, &ur.p, rr, &v) else {
                            // The generator of versions only makes safe changes.
                            rep.count("pairs without a promise", 1);
                            continue;
                        };
                        let mut expect = vec![];
                        dump_msg(&ur.p, rr, &x, true, &mut expect);
                        let mut d = vec![];
                        dump_msg(&uw.p, rw, &v, false, &mut d);
                        reqs.push(req_make(w, uw.op(rw), Plan::WHOLE, &[(r, ur.op(rr), Plan::WHOLE)], &d));
                        cases.push((w, r, rw, rr, v, expect));
                    }
                }
            }
        }
        let resps = run_requests(&b.dir.path, &b.eng, &reqs, "a");
        for (i, ((w, r, rw, rr, v, expect), resp)) in cases.iter().zip(&resps).enumerate() {
            rep.eval();
            if rep.stop() {
                return;
            }
            let (uw, ur) = (&b.units[*w], &b.units[*r]);
            let fail = |what: &str, detail: String| {
                rep.violation(
                    what,
                    format!(
                        "{}\n{} reads the other version's\nvalue {:?}\n\n=== writer {}\n{}\n=== reader {}\n{}",
                        clip(&detail),
                        if ts { "TypeScript" } else { "Rust" },
                        v,
                        uw.p.decl(*rw).name,
                        uw.show(),
                        ur.p.decl(*rr).name,
                        ur.show()
                    ),
                    vec![],
                );
            };
            match resp {
                Resp::NotRun => rep.count("not run", 1),
                Resp::Died(why) => fail("the process died", why.clone()),
                Resp::Bytes(x) => match parse_made(x, 1) {
                    Made::Ok { bytes, decs, .. } => {
                        rep.count(if ts { "messages read (TypeScript)" } else { "messages read (Rust)" }, 1);
                        if bytes.len() > 2 {
                            rep.distinct(&bytes);
                        }
                        match &decs[0].res {
                            Res::Ok(d) if d == expect => {}
                            Res::Ok(d) => fail("the other version reads a different value", format!("bytes {}\nexpected {}\ngot      {}", hex(&bytes), hex(expect), hex(d))),
                            o => fail("the other version cannot read the message", format!("bytes {}\n{o:?}", hex(&bytes))),
                        }
                    }
                    o => fail("writing failed", format!("{o:?}")),
                },
            }
            if i == 0 {
                rep.sample(bi as u64, || format!("writer\n{}\nreader\n{}\nvalue {v:?}", uw.show(), ur.show()));
            }
        }
    });
    rep.require("messages read (Rust)", 300);
    rep.require("messages read (TypeScript)", 300);
    for c in ["type renamed", "struct to choice", "choice to struct", "required to asymmetric", "optional to asymmetric", "asymmetric to required", "asymmetric to optional", "field removed", "field added", "field renamed", "fields reordered"] {
        rep.require(&format!("change: {c}"), 3);
    }
}
