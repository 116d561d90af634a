// Driver code for generated TypeScript modules.
use crate::model::{Kind, Program, Rule, Ty};
use crate::names::{pascal, ts_field, ts_ns};
use std::fmt::Write;

pub const RT: &str = include_str!("../drv/rt.ts");

pub fn ns_path(p: &Program, fi: usize) -> String {
    p.files[fi].ns().iter().map(|c| ts_ns(c)).collect::<Vec<_>>().join(".")
}

pub fn type_path(p: &Program, r: (usize, usize), suffix: &str) -> String {
    format!("G.{}.{}{suffix}", ns_path(p, r.0), pascal(&p.decl(r).name))
}

// The namespace with the functions of a declaration.
pub fn fn_path(p: &Program, r: (usize, usize)) -> String {
    format!("G.{}.{}", ns_path(p, r.0), ts_ns(&p.decl(r).name))
}

pub fn ts_ty(p: &Program, t: &Ty, suffix: &str) -> String {
    match t {
        Ty::Unit => "null".into(),
        Ty::F64 => "number".into(),
        Ty::U64 | Ty::S64 => "bigint".into(),
        Ty::Bool => "boolean".into(),
        Ty::Bytes => "ArrayBuffer".into(),
        Ty::Str => "string".into(),
        Ty::Arr(i) => format!("{}[]", ts_ty(p, i, suffix)),
        Ty::Ref(f, d) => type_path(p, (*f, *d), suffix),
    }
}

fn build_ty(t: &Ty) -> String {
    match t {
        Ty::Unit => "null".into(),
        Ty::F64 => "r.f64()".into(),
        Ty::U64 => "r.u64()".into(),
        Ty::S64 => "r.i64()".into(),
        Ty::Bool => "r.bool()".into(),
        Ty::Bytes => "r.bytes()".into(),
        Ty::Str => "r.string()".into(),
        Ty::Arr(i) if **i == Ty::Unit => "r.units()".into(),
        Ty::Arr(i) => format!("r.arr(() => {})", build_ty(i)),
        Ty::Ref(f, d) => format!("b_{f}_{d}(r)"),
    }
}

fn dump_fn(t: &Ty) -> String {
    match t {
        Ty::Unit => "rt.dUnit".into(),
        Ty::F64 => "rt.dF64".into(),
        Ty::U64 => "rt.dU64".into(),
        Ty::S64 => "rt.dS64".into(),
        Ty::Bool => "rt.dBool".into(),
        Ty::Bytes => "rt.dBytes".into(),
        Ty::Str => "rt.dString".into(),
        Ty::Arr(i) if **i == Ty::Unit => "rt.dUnits".into(),
        Ty::Arr(i) => format!("rt.dArr({})", dump_fn(i)),
        Ty::Ref(f, d) => format!("d_{f}_{d}"),
    }
}

// Untyped on purpose: what the types are is C10's business, this is about values.
pub fn driver(p: &Program, module: &str) -> String {
    let mut s = String::new();
    let build = p.buildable();
    writeln!(s, "import * as rt from './rt';\nimport * as G0 from '{module}';\nconst G = G0 as any;").unwrap();
    for r in p.all() {
        let d = p.decl(r);
        let (f, k) = r;
        writeln!(s, "function b_{f}_{k}(r: rt.Rd): any {{").unwrap();
        match d.kind {
            Kind::Struct => {
                writeln!(s, "  return {{").unwrap();
                for x in &d.fields {
                    let e = build_ty(&x.ty);
                    let n = ts_field(&x.name);
                    match x.rule {
                        Rule::Opt => writeln!(s, "    {n}: r.opt(() => {e}),").unwrap(),
                        _ => writeln!(s, "    {n}: {e},").unwrap(),
                    }
                }
                writeln!(s, "  }};").unwrap();
            }
            Kind::Choice => {
                writeln!(s, "  switch (r.u32()) {{").unwrap();
                for (j, x) in d.fields.iter().enumerate() {
                    let n = ts_field(&x.name);
                    let fb = if x.rule == Rule::Req { String::new() } else { format!(", $fallback: b_{f}_{k}(r)") };
                    writeln!(s, "    case {j}: return {{ {n}: {}{fb} }};", build_ty(&x.ty)).unwrap();
                }
                writeln!(s, "    default: throw new Error('driver');\n  }}").unwrap();
            }
        }
        writeln!(s, "}}\nfunction d_{f}_{k}(x: any, w: rt.Wr) {{").unwrap();
        match d.kind {
            Kind::Struct => {
                let ks: Vec<String> = d.fields.iter().map(|x| format!("'{}'", ts_field(&x.name))).collect();
                writeln!(s, "  rt.keys(x, [{}]);", ks.join(", ")).unwrap();
                for x in &d.fields {
                    let n = ts_field(&x.name);
                    let e = dump_fn(&x.ty);
                    match x.rule {
                        Rule::Req => writeln!(s, "  {e}(rt.own(x, '{n}'), w);").unwrap(),
                        _ => writeln!(s, "  rt.dOpt(rt.own(x, '{n}'), w, {e});").unwrap(),
                    }
                }
            }
            Kind::Choice => {
                writeln!(s, "  if (typeof x !== 'object' || x === null) rt.bad('choice', x);").unwrap();
                writeln!(s, "  switch (rt.own(x, '$field')) {{").unwrap();
                for (j, x) in d.fields.iter().enumerate() {
                    let n = ts_field(&x.name);
                    let fb = x.rule == Rule::Opt;
                    writeln!(
                        s,
                        "    case '{n}': rt.keys(x, ['$field', '{n}'{}]); w.u32({j}); {}(rt.own(x, '{n}'), w); {} break;",
                        if fb { ", '$fallback'" } else { "" },
                        dump_fn(&x.ty),
                        if fb { format!("d_{f}_{k}(rt.own(x, '$fallback'), w);") } else { String::new() },
                    )
                    .unwrap();
                }
                writeln!(s, "    default: rt.bad('$field', rt.own(x, '$field'));\n  }}").unwrap();
            }
        }
        writeln!(s, "}}").unwrap();
    }
    writeln!(s, "export const TABLE: rt.Ops[] = [").unwrap();
    for r in p.all() {
        let (f, k) = r;
        let q = fn_path(p, r);
        let _ = &build;
        writeln!(
            s,
            "  {{ build: b_{f}_{k}, size: {q}.size, serialize: {q}.serialize, deserialize: {q}.deserialize, dump: d_{f}_{k} }},"
        )
        .unwrap();
    }
    writeln!(s, "];").unwrap();
    s
}

pub fn main_ts(n: usize) -> String {
    let mut s = String::from("import * as rt from './rt';\n");
    for i in 0..n {
        writeln!(s, "import {{ TABLE as t{i} }} from './d{i}';").unwrap();
    }
    let ts: Vec<String> = (0..n).map(|i| format!("t{i}")).collect();
    writeln!(s, "rt.run([{}]);", ts.join(", ")).unwrap();
    s
}
