// Pairs of schema versions related by one round of the changes the README calls safe, and what a
// reader of one version must make of a message of the other.
use crate::codec::V;
use crate::model::{gen_name, permute_decls, ty_ref, Cfg, Field, Kind, Program, Rule, Ty};
use crate::names::{camel, pascal};
use crate::util::Rng;
use std::collections::{BTreeMap, HashSet};

pub struct Pair {
    pub a: Program,
    pub b: Program,
    pub map: BTreeMap<(usize, usize), (usize, usize)>, // declarations of `a` in `b`
    pub changes: BTreeMap<&'static str, u64>,
}

fn fresh_field(rng: &mut Rng, fs: &[Field]) -> String {
    loop {
        let n = gen_name(rng, &Cfg::runtime());
        if !fs.iter().any(|f| camel(&f.name) == camel(&n) || pascal(&f.name) == pascal(&n)) {
            return n;
        }
    }
}

fn small_ty(rng: &mut Rng, leaves: &[(usize, usize)]) -> Ty {
    let t = match rng.below(9) {
        0 => Ty::Unit,
        1 => Ty::F64,
        2 => Ty::U64,
        3 => Ty::S64,
        4 => Ty::Bool,
        5 => Ty::Bytes,
        6 => Ty::Str,
        _ if !leaves.is_empty() => {
            let (f, d) = *rng.pick(leaves);
            Ty::Ref(f, d)
        }
        _ => Ty::Str,
    };
    if rng.chance(1, 4) {
        Ty::Arr(Box::new(t))
    } else {
        t
    }
}

pub fn evolve(rng: &mut Rng, a: &Program) -> Pair {
    let mut b = a.clone();
    let mut changes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut note = |k: &'static str| *changes.entry(k).or_insert(0) += 1;
    let tops: HashSet<String> = a.files.iter().map(|f| pascal(&f.ns()[0])).collect();
    let build = a.buildable();
    for fi in 0..b.files.len() {
        let mut leaves: Vec<(usize, usize)> = vec![];
        for r in a.all() {
            let near = r.0 == fi || a.files[fi].imports.iter().any(|i| i.target == r.0);
            if near && build[&r] && a.decl(r).fields.iter().all(|f| ty_ref(&f.ty).is_none()) {
                leaves.push(r);
            }
        }
        for di in 0..b.files[fi].decls.len() {
            // Renamed types.
            if rng.chance(1, 3) {
                let n = gen_name(rng, &Cfg::runtime());
                let pn = pascal(&n);
                let taken = b.files[fi].decls.iter().any(|d| pascal(&d.name) == pn) || tops.contains(&pn);
                if !taken {
                    b.files[fi].decls[di].name = n;
                    note("type renamed");
                }
            }
            let mut d = b.files[fi].decls[di].clone();
            let one = d.fields.len() == 1 && d.fields[0].rule == Rule::Req;
            if one && rng.chance(1, 2) {
                note(if d.kind == Kind::Struct { "struct to choice" } else { "choice to struct" });
                d.kind = if d.kind == Kind::Struct { Kind::Choice } else { Kind::Struct };
                b.files[fi].decls[di] = d;
                continue;
            }
            let choice = d.kind == Kind::Choice;
            // Rules, at most one step per field.
            for k in 0..d.fields.len() {
                if !rng.chance(1, 3) {
                    continue;
                }
                let new = match d.fields[k].rule {
                    Rule::Req => Rule::Asym,
                    Rule::Opt => Rule::Asym,
                    Rule::Asym => {
                        if rng.chance(1, 2) {
                            Rule::Req
                        } else {
                            Rule::Opt
                        }
                    }
                };
                if choice && d.fields[k].rule == Rule::Req {
                    // Keep something to end with.
                    let left = (0..d.fields.len())
                        .filter(|j| *j != k && d.fields[*j].rule == Rule::Req && !matches!(ty_ref(&d.fields[*j].ty), Some(r) if !build[&r]))
                        .count();
                    if left == 0 {
                        continue;
                    }
                }
                note(match (d.fields[k].rule, new) {
                    (Rule::Req, _) => "required to asymmetric",
                    (Rule::Opt, _) => "optional to asymmetric",
                    (_, Rule::Req) => "asymmetric to required",
                    _ => "asymmetric to optional",
                });
                d.fields[k].rule = new;
            }
            // Removed fields. Judged by the rule in `a`.
            let ra: BTreeMap<u64, Rule> = a.files[fi].decls[di].fields.iter().map(|f| (f.index, f.rule)).collect();
            let mut k = 0;
            let often = if rng.chance(1, 4) { 4 } else { 1 };
            while k < d.fields.len() {
                if ra[&d.fields[k].index] != Rule::Req && d.fields[k].rule != Rule::Req && rng.chance(often, 5) {
                    d.deleted.insert(d.fields[k].index);
                    d.fields.remove(k);
                    note("field removed");
                } else {
                    k += 1;
                }
            }
            // Added fields.
            for _ in 0..rng.below(3) {
                let index = (d.fields.len() + d.deleted.len()) as u64;
                let f = Field {
                    name: fresh_field(rng, &d.fields),
                    rule: if rng.chance(1, 2) { Rule::Asym } else { Rule::Opt },
                    ty: small_ty(rng, &leaves
                        .iter()
                        .copied()
                        .filter(|r| !leaves.contains(&(fi, di)) || *r < (fi, di)) // no cycles
                        .collect::<Vec<_>>()),
                    index,
                    comment: vec![],
                };
                // An empty choice has no values in either version; leave it alone.
                if choice && d.fields.is_empty() {
                    break;
                }
                d.fields.push(f);
                note("field added");
            }
            for k in 0..d.fields.len() {
                if rng.chance(1, 4) {
                    d.fields[k].name = fresh_field(rng, &d.fields);
                    note("field renamed");
                }
            }
            if rng.chance(1, 2) {
                rng.shuffle(&mut d.fields);
                note("fields reordered");
            }
            b.files[fi].decls[di] = d;
        }
    }
    let map = permute_decls(rng, &mut b);
    Pair { a: a.clone(), b, map, changes }
}

// The incoming value for a reader of (pr, tr) of an outgoing value of (pw, tw). None: no reading
// is promised.
pub fn conv(pw: &Program, tw: &Ty, pr: &Program, tr: &Ty, v: &V) -> Option<V> {
    match (tw, tr, v) {
        (Ty::Arr(a), Ty::Arr(b), V::Arr(v)) => {
            Some(V::Arr(v.iter().map(|x| conv(pw, a, pr, b, x)).collect::<Option<Vec<V>>>()?))
        }
        (Ty::Ref(f, d), Ty::Ref(g, e), v) => conv_msg(pw, (*f, *d), pr, (*g, *e), v),
        _ if tw == tr => Some(v.clone()),
        _ => None,
    }
}

pub fn conv_msg(pw: &Program, rw: (usize, usize), pr: &Program, rr: (usize, usize), v: &V) -> Option<V> {
    let (dw, dr) = (pw.decl(rw), pr.decl(rr));
    // A message as the list of fields in it.
    let mut sent: Vec<(usize, &V)> = vec![];
    let mut rest: Vec<Option<&V>> = vec![]; // what follows as a message of its own
    match v {
        V::Struct(fs) => {
            for (k, x) in fs.iter().enumerate() {
                if let Some(x) = x {
                    sent.push((k, x));
                    rest.push(None);
                }
            }
        }
        v => {
            let mut cur = Some(v);
            while let Some(V::Choice(k, x, fb)) = cur {
                sent.push((*k, x));
                rest.push(fb.as_deref());
                cur = fb.as_deref();
            }
        }
    }
    match dr.kind {
        Kind::Struct => {
            let mut out = vec![];
            for f in &dr.fields {
                let x = sent.iter().find(|(k, _)| dw.fields[*k].index == f.index);
                match x {
                    Some((k, x)) => out.push(Some(conv(pw, &dw.fields[*k].ty, pr, &f.ty, x)?)),
                    None if f.rule == Rule::Req => return None,
                    None => out.push(None),
                }
            }
            Some(V::Struct(out))
        }
        Kind::Choice => {
            for ((k, x), rest) in sent.iter().zip(rest) {
                let Some(j) = dr.fields.iter().position(|f| f.index == dw.fields[*k].index) else { continue };
                let f = &dr.fields[j];
                let y = conv(pw, &dw.fields[*k].ty, pr, &f.ty, x)?;
                let fb = if f.rule == Rule::Opt { Some(Box::new(conv_msg(pw, rw, pr, rr, rest?)?)) } else { None };
                return Some(V::Choice(j, Box::new(y), fb));
            }
            None
        }
    }
}
