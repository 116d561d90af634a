// Printing of schema files as parsed, valid or not, and comparison of what they say.
use crate::{
    model::{self, Kind, Rule, Style, Ty},
    names::{sigil, snake},
    parse::{PFile, PTy, Span, PT},
    util::Rng,
};
use std::collections::BTreeSet;

const NOWHERE: Span = Span { start: 0, end: 0 };

pub fn ty(t: PT) -> PTy {
    PTy { t, at: NOWHERE }
}

fn gap(rng: &mut Rng, wild: bool, min: bool) -> String {
    if !wild {
        return if min { " ".into() } else { String::new() };
    }
    let n = rng.below(3) + usize::from(min);
    (0..n).map(|_| *rng.pick(&[" ", " ", " ", "\t", "\n", "\u{a0}", "\u{3000}", "\r\n", "\u{b}", "\u{2028}"])).collect()
}

fn name(rng: &mut Rng, s: &str, wild: bool) -> String {
    if wild && rng.chance(1, 12) {
        format!("${s}")
    } else {
        sigil(s)
    }
}

fn ty_text(rng: &mut Rng, t: &PTy, wild: bool) -> String {
    let w = wild && rng.chance(1, 5);
    match &t.t {
        PT::Base(b) => match b {
            Ty::Unit => "Unit",
            Ty::F64 => "F64",
            Ty::U64 => "U64",
            Ty::S64 => "S64",
            Ty::Bool => "Bool",
            Ty::Bytes => "Bytes",
            Ty::Str => "String",
            _ => unreachable!(),
        }
        .to_owned(),
        PT::Arr(i) => format!("[{}{}{}]", gap(rng, w, false), ty_text(rng, i, wild), gap(rng, w, false)),
        PT::Ref(None, n) => name(rng, n, wild),
        PT::Ref(Some(m), n) => {
            format!("{}{}.{}{}", name(rng, m, wild), gap(rng, w, false), gap(rng, w, false), name(rng, n, wild))
        }
    }
}

// The type printed for a field, or none for a field that says nothing about its type.
pub fn print(rng: &mut Rng, f: &PFile, wild: bool) -> String {
    let mut s = String::new();
    let st = Style { wild, comments: true, crlf: false, refs: false };
    if !f.comment.is_empty() {
        s += &model::comment_text(rng, &f.comment, &st, "");
        s.push('\n');
    }
    for i in &f.imports {
        s += &format!("import{}'{}'", gap(rng, wild, true), i.path);
        if let Some(a) = &i.alias {
            s += &format!("{}as{}{}", gap(rng, wild, false), gap(rng, wild, true), name(rng, a, wild));
        }
        s += if wild && rng.chance(1, 4) { " " } else { "\n" };
    }
    for (k, d) in f.decls.iter().enumerate() {
        if k > 0 || !f.imports.is_empty() {
            s.push('\n');
        }
        if !d.comment.is_empty() {
            s += &model::comment_text(rng, &d.comment, &st, "");
        }
        s += if d.kind == Kind::Struct { "struct" } else { "choice" };
        s += &gap(rng, wild, true);
        s += &name(rng, &d.name, wild);
        s += &gap(rng, wild, true);
        s.push('{');
        s += if wild && rng.chance(1, 4) { " " } else { "\n" };
        for x in &d.fields {
            if !x.comment.is_empty() {
                if !s.ends_with('\n') {
                    s.push('\n');
                }
                s += &model::comment_text(rng, &x.comment, &st, "    ");
            }
            s += "    ";
            s += match x.rule {
                Rule::Req => "",
                Rule::Asym => "asymmetric ",
                Rule::Opt => "optional ",
            };
            s += &name(rng, &x.name, wild);
            s += &gap(rng, wild, false);
            if x.ty.t != PT::Base(Ty::Unit) || (wild && rng.chance(1, 2)) {
                s += &format!(":{}{}", gap(rng, wild, !wild), ty_text(rng, &x.ty, wild));
            }
            s += &format!("{}={}{}", gap(rng, wild, true), gap(rng, wild, true), x.index);
            s += if wild && rng.chance(1, 4) { " " } else { "\n" };
        }
        if !d.deleted.is_empty() || (wild && rng.chance(1, 8)) {
            s += "    deleted";
            for (i, _) in &d.deleted {
                s += &format!("{}{i}", gap(rng, wild, true));
            }
            s += "\n";
        }
        s += "}\n";
    }
    s
}

fn same_ty(a: &PTy, b: &PTy) -> bool {
    match (&a.t, &b.t) {
        (PT::Base(x), PT::Base(y)) => x == y,
        (PT::Arr(x), PT::Arr(y)) => same_ty(x, y),
        (PT::Ref(i, x), PT::Ref(j, y)) => {
            snake(x) == snake(y) && i.as_ref().map(|s| snake(s)) == j.as_ref().map(|s| snake(s))
        }
        _ => false,
    }
}

// Do two files say the same? None if so.
pub fn differ(a: &PFile, b: &PFile) -> Option<String> {
    if a.comment != b.comment {
        return Some(format!("comment of the file: {:?}, not {:?}", b.comment, a.comment));
    }
    let ims = |f: &PFile| -> Vec<(String, String)> {
        let mut v: Vec<_> = f.imports.iter().map(|i| (snake(&i.name), i.path.clone())).collect();
        v.sort();
        v
    };
    if ims(a) != ims(b) {
        return Some(format!("imports: {:?}, not {:?}", ims(b), ims(a)));
    }
    if a.decls.len() != b.decls.len() {
        return Some(format!("{} declarations, not {}", b.decls.len(), a.decls.len()));
    }
    for (x, y) in a.decls.iter().zip(&b.decls) {
        let w = format!("declaration {}", x.name);
        if x.kind != y.kind || snake(&x.name) != snake(&y.name) {
            return Some(format!("{w} became {:?} {}", y.kind, y.name));
        }
        if x.comment != y.comment {
            return Some(format!("comment of {w}: {:?}, not {:?}", y.comment, x.comment));
        }
        let del = |d: &crate::parse::PDecl| d.deleted.iter().map(|x| x.0).collect::<BTreeSet<u64>>();
        if del(x) != del(y) {
            return Some(format!("{w}: deleted {:?}, not {:?}", del(y), del(x)));
        }
        if x.fields.len() != y.fields.len() {
            return Some(format!("{w}: {} fields, not {}", y.fields.len(), x.fields.len()));
        }
        for (s, t) in x.fields.iter().zip(&y.fields) {
            if snake(&s.name) != snake(&t.name) || s.rule != t.rule || s.index != t.index || !same_ty(&s.ty, &t.ty) {
                return Some(format!(
                    "{w}: field {:?} {}: {:?} = {} became {:?} {}: {:?} = {}",
                    s.rule, s.name, s.ty.t, s.index, t.rule, t.name, t.ty.t, t.index
                ));
            }
            if s.comment != t.comment {
                return Some(format!("{w}: comment of field {}: {:?}, not {:?}", s.name, t.comment, s.comment));
            }
        }
    }
    None
}
