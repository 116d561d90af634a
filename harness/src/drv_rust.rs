// Driver code for generated Rust modules: functions that build outgoing values from the exchange
// format with exhaustive literals, and dump incoming values with exhaustive patterns. Compiling
// this code is itself the check of the documented API.
use crate::model::{Kind, Program, Rule, Ty};
use crate::names::{pascal, rust_field, rust_variant};
use std::fmt::Write;

pub const RT: &str = include_str!("../drv/rt.rs");

pub fn mod_path(p: &Program, fi: usize) -> String {
    p.files[fi].ns().iter().map(|c| rust_field(c)).collect::<Vec<_>>().join("::")
}

pub fn type_path(root: &str, p: &Program, r: (usize, usize), suffix: &str) -> String {
    format!("{root}::{}::{}{suffix}", mod_path(p, r.0), pascal(&p.decl(r).name))
}

// The documented Rust type of a payload.
fn rust_ty(root: &str, p: &Program, t: &Ty, suffix: &str) -> String {
    match t {
        Ty::Unit => "()".into(),
        Ty::F64 => "f64".into(),
        Ty::U64 => "u64".into(),
        Ty::S64 => "i64".into(),
        Ty::Bool => "bool".into(),
        Ty::Bytes => "Vec<u8>".into(),
        Ty::Str => "String".into(),
        Ty::Arr(i) => format!("Vec<{}>", rust_ty(root, p, i, suffix)),
        Ty::Ref(f, d) => type_path(root, p, (*f, *d), suffix),
    }
}

fn build_ty(t: &Ty, depth: usize) -> String {
    match t {
        Ty::Unit => "()".into(),
        Ty::F64 => "r.f64()".into(),
        Ty::U64 => "r.u64()".into(),
        Ty::S64 => "r.i64()".into(),
        Ty::Bool => "r.bool()".into(),
        Ty::Bytes => "r.bytes()".into(),
        Ty::Str => "r.string()".into(),
        Ty::Arr(i) if **i == Ty::Unit => "r.units()".into(),
        Ty::Arr(i) => format!("r.arr(|r: &mut Rd| {})", build_ty(i, depth + 1)),
        Ty::Ref(f, d) => format!("b_{f}_{d}(r)"),
    }
}

// An expression of type `fn(&T, &mut Vec<u8>)`.
fn dump_fn(t: &Ty) -> String {
    match t {
        Ty::Unit => "rt::d_unit".into(),
        Ty::F64 => "rt::d_f64".into(),
        Ty::U64 => "rt::d_u64".into(),
        Ty::S64 => "rt::d_i64".into(),
        Ty::Bool => "rt::d_bool".into(),
        Ty::Bytes => "rt::d_bytes".into(),
        Ty::Str => "rt::d_string".into(),
        Ty::Arr(i) if **i == Ty::Unit => "rt::d_units".into(),
        Ty::Arr(i) => format!("|x, w: &mut Vec<u8>| rt::d_arr(x, w, {})", dump_fn(i)),
        Ty::Ref(f, d) => format!("d_{f}_{d}"),
    }
}

// One module with the driver of one program; `root` is the path of the generated module.
pub fn driver(p: &Program, root: &str) -> String {
    let mut s = String::new();
    let build = p.buildable();
    writeln!(s, "use super::rt::{{self, Ops, Rd}};").unwrap();
    for r in p.all() {
        let d = p.decl(r);
        let (f, k) = r;
        let out = type_path(root, p, r, "Out");
        let inn = type_path(root, p, r, "In");
        // Builder
        writeln!(s, "pub fn b_{f}_{k}(r: &mut Rd) -> {out} {{").unwrap();
        match d.kind {
            Kind::Struct => {
                writeln!(s, "  {out} {{").unwrap();
                for x in &d.fields {
                    let e = build_ty(&x.ty, 0);
                    let n = rust_field(&x.name);
                    let rust = rust_ty(root, p, &x.ty, "Out");
                    match x.rule {
                        Rule::Opt => writeln!(s, "    {n}: r.opt::<{rust}, _>(|r: &mut Rd| {e}),").unwrap(),
                        _ => writeln!(s, "    {n}: {{ let x: {rust} = {e}; x }},").unwrap(),
                    }
                }
                writeln!(s, "  }}").unwrap();
            }
            Kind::Choice => {
                if d.fields.is_empty() {
                    writeln!(s, "  let _ = r; panic!()").unwrap();
                } else {
                    writeln!(s, "  match r.u32() {{").unwrap();
                    for (j, x) in d.fields.iter().enumerate() {
                        let v = rust_variant(&x.name);
                        let mut args = vec![];
                        let mut lets = String::new();
                        if x.ty != Ty::Unit {
                            let rust = rust_ty(root, p, &x.ty, "Out");
                            write!(lets, "let x: {rust} = {}; ", build_ty(&x.ty, 0)).unwrap();
                            args.push("x".to_owned());
                        }
                        if x.rule != Rule::Req {
                            args.push(format!("Box::new(b_{f}_{k}(r))"));
                        }
                        let a = if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
                        writeln!(s, "    {j} => {{ {lets}{out}::{v}{a} }}").unwrap();
                    }
                    writeln!(s, "    _ => panic!(),\n  }}").unwrap();
                }
            }
        }
        writeln!(s, "}}").unwrap();
        // Dumper
        writeln!(s, "pub fn d_{f}_{k}(v: &{inn}, w: &mut Vec<u8>) {{").unwrap();
        match d.kind {
            Kind::Struct => {
                let pats: Vec<String> = d
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(j, x)| format!("{}: x{j}", rust_field(&x.name)))
                    .collect();
                writeln!(s, "  let {inn} {{ {} }} = v;", pats.join(", ")).unwrap();
                for (j, x) in d.fields.iter().enumerate() {
                    let rust = rust_ty(root, p, &x.ty, "In");
                    let e = dump_fn(&x.ty);
                    match x.rule {
                        Rule::Req => writeln!(s, "  {{ let x: &{rust} = x{j}; ({e})(x, w); }}").unwrap(),
                        _ => writeln!(s, "  {{ let x: &Option<{rust}> = x{j}; rt::d_opt(x, w, {e}); }}").unwrap(),
                    }
                }
                writeln!(s, "  let _ = w;").unwrap();
            }
            Kind::Choice => {
                writeln!(s, "  let _ = &w;\n  match *v {{").unwrap();
                for (j, x) in d.fields.iter().enumerate() {
                    let v = rust_variant(&x.name);
                    let mut pats = vec![];
                    let mut body = format!("rt::w32(w, {j}); ");
                    if x.ty != Ty::Unit {
                        pats.push("ref x");
                        let rust = rust_ty(root, p, &x.ty, "In");
                        write!(body, "let x: &{rust} = x; ({})(x, w); ", dump_fn(&x.ty)).unwrap();
                    }
                    if x.rule == Rule::Opt {
                        pats.push("ref fb");
                        write!(body, "let fb: &Box<{inn}> = fb; d_{f}_{k}(fb, w); ").unwrap();
                    }
                    let a = if pats.is_empty() { String::new() } else { format!("({})", pats.join(", ")) };
                    writeln!(s, "    {inn}::{v}{a} => {{ {body} }}").unwrap();
                }
                writeln!(s, "  }}").unwrap();
            }
        }
        writeln!(s, "}}").unwrap();
        // Operations
        writeln!(
            s,
            "fn make_{f}_{k}(r: &mut Rd, w: &mut dyn std::io::Write, from: &mut Vec<u8>) -> (usize, std::io::Result<()>) {{"
        )
        .unwrap();
        if build[&r] {
            writeln!(
                s,
                "  let m: {out} = b_{f}_{k}(r);\n  let size = {root}::Serialize::size(&m);\n  let res = {root}::Serialize::serialize(&m, w);\n  let c: {inn} = <{inn} as From<{out}>>::from(Clone::clone(&m));\n  d_{f}_{k}(&c, from);\n  (size, res)"
            )
            .unwrap();
        } else {
            writeln!(s, "  let _ = (r, w, from); panic!()").unwrap();
        }
        writeln!(s, "}}").unwrap();
        writeln!(
            s,
            "fn dec_{f}_{k}(r: &mut dyn std::io::BufRead, out: &mut Vec<u8>) -> std::io::Result<()> {{\n  let m = <{inn} as {root}::Deserialize>::deserialize(r)?;\n  d_{f}_{k}(&m, out);\n  Ok(())\n}}"
        )
        .unwrap();
    }
    writeln!(s, "pub const TABLE: &[Ops] = &[").unwrap();
    for (f, k) in p.all() {
        writeln!(s, "  Ops {{ make: make_{f}_{k}, dec: dec_{f}_{k} }},").unwrap();
    }
    writeln!(s, "];").unwrap();
    s
}

// The API check of C09: the same functions plus bounds that users rely on; generic I/O instead of
// trait objects.
pub fn api_extra(p: &Program, root: &str) -> String {
    let mut s = String::new();
    writeln!(s, "fn is_user_type<T: Clone + std::fmt::Debug + Send + Sync + 'static>() {{}}").unwrap();
    writeln!(s, "pub fn bounds() {{").unwrap();
    for r in p.all() {
        let out = type_path(root, p, r, "Out");
        let inn = type_path(root, p, r, "In");
        writeln!(s, "  is_user_type::<{out}>(); is_user_type::<{inn}>();").unwrap();
    }
    writeln!(s, "}}").unwrap();
    s
}

pub const COST: &str = include_str!("../drv/cost.rs");

// The heap a payload `x` (a reference) holds, as an expression.
fn heap_ty(root: &str, p: &Program, t: &Ty, suffix: &str, x: &str, depth: usize) -> String {
    match t {
        Ty::Unit | Ty::F64 | Ty::U64 | Ty::S64 | Ty::Bool => format!("({{ let _ = {x}; 0_usize }})"),
        Ty::Bytes | Ty::Str => format!("cost::arr::<u8>({x}.len())"),
        Ty::Arr(i) => {
            let rust = rust_ty(root, p, i, suffix);
            let e = format!("e{depth}");
            format!(
                "({}({x}.len()) + {x}.iter().map(|{e}| {}).sum::<usize>())",
                if **i == Ty::F64 && suffix == "In" { "cost::f64s".into() } else { format!("cost::arr::<{rust}>") },
                if **i == Ty::Unit { "0".into() } else { heap_ty(root, p, i, suffix, &e, depth + 1) }
            )
        }
        Ty::Ref(f, d) => format!("h{}_{f}_{d}({x})", suffix.to_lowercase()),
    }
}

// Functions that measure operations.
pub fn cost_extra(p: &Program, root: &str) -> String {
    let mut s = String::from("use super::cost::{self, put};\nuse super::rt::Reader;\n");
    let build = p.buildable();
    let sizes: Vec<String> = p.all().iter().map(|r| format!("std::mem::size_of::<{}>()", type_path(root, p, *r, "In"))).collect();
    writeln!(s, "fn largest() -> usize {{ [32, {}].iter().copied().max().unwrap() }}", sizes.join(", ")).unwrap();
    for r in p.all() {
        let d = p.decl(r);
        let (f, k) = r;
        for suffix in ["Out", "In"] {
            let t = type_path(root, p, r, suffix);
            let h = format!("h{}_{f}_{k}", suffix.to_lowercase());
            writeln!(s, "pub fn {h}(v: &{t}) -> usize {{").unwrap();
            if d.kind == Kind::Struct {
                writeln!(s, "  let mut n = 0;").unwrap();
                for x in &d.fields {
                    let name = rust_field(&x.name);
                    let e = heap_ty(root, p, &x.ty, suffix, "x", 0);
                    if x.rule == Rule::Req || (x.rule == Rule::Asym && suffix == "Out") {
                        writeln!(s, "  {{ let x = &v.{name}; n += {e}; }}").unwrap();
                    } else {
                        writeln!(s, "  if let Some(x) = &v.{name} {{ n += {e}; }}").unwrap();
                    }
                }
                writeln!(s, "  n\n}}").unwrap();
            } else {
                writeln!(s, "  match *v {{").unwrap();
                for x in &d.fields {
                    let mut pats = vec![];
                    let mut e = "0".to_owned();
                    if x.ty != Ty::Unit {
                        pats.push("ref x");
                        e = heap_ty(root, p, &x.ty, suffix, "x", 0);
                    }
                    if x.rule == Rule::Opt || (x.rule == Rule::Asym && suffix == "Out") {
                        pats.push("ref fb");
                        e += &format!(" + std::mem::size_of::<{t}>() + {h}(fb)");
                    }
                    let a = if pats.is_empty() { String::new() } else { format!("({})", pats.join(", ")) };
                    writeln!(s, "    {t}::{}{a} => {{ {e} }}", rust_variant(&x.name)).unwrap();
                }
                writeln!(s, "  }}\n}}").unwrap();
            }
        }
        let out = type_path(root, p, r, "Out");
        let inn = type_path(root, p, r, "In");
        writeln!(s, "fn meas_{f}_{k}(r: &mut Rd, w: &mut Vec<u8>) {{").unwrap();
        if build[&r] {
            writeln!(
                s,
                "  let live0 = cost::live();
  {{
    let m: {out} = b_{f}_{k}(r);
    let held = std::mem::size_of::<{out}>() + hout_{f}_{k}(&m);
    let mut size = 0;
    let a = cost::run(3, || {{ size = {root}::Serialize::size(&m); }});
    let b = cost::run(3, || {{ {root}::Serialize::serialize(&m, &mut cost::Sink(0)).unwrap(); }});
    let mut bytes: Vec<u8> = Vec::with_capacity(size + 64);
    {root}::Serialize::serialize(&m, &mut bytes).unwrap();
    let mut c = Some(Clone::clone(&m));
    let conv = cost::run(1, || {{ let x: {inn} = From::from(c.take().unwrap()); drop(x); }});
    let d = cost::run(3, || {{ let mut q: &[u8] = &bytes; let _ = <{inn} as {root}::Deserialize>::deserialize(&mut q); }});
    let base = cost::live();
    let mut q: &[u8] = &bytes;
    let x = <{inn} as {root}::Deserialize>::deserialize(&mut q);
    let retained = cost::live() - base;
    cost::excess();
    let held_in = x.as_ref().map_or(0, |x| std::mem::size_of::<{inn}>() + hin_{f}_{k}(x));
    put(w, &[held as u64, size as u64, a.0, a.1, b.0, b.1, conv.0, conv.1, d.0, d.1, retained as u64, held_in as u64, bytes.len() as u64, u64::from(x.is_ok()), cost::excess()]);
  }}
  put(w, &[cost::live().wrapping_sub(live0) as u64]);"
            )
            .unwrap();
        } else {
            writeln!(s, "  let _ = (r, w); panic!()").unwrap();
        }
        writeln!(
            s,
            "}}
fn raw_{f}_{k}(bytes: &[u8], w: &mut Vec<u8>) {{
  let live0 = cost::live();
  {{
    let mut ok = 0;
    let d = cost::run(2, || {{ let mut q: &[u8] = bytes; ok = u64::from(<{inn} as {root}::Deserialize>::deserialize(&mut q).is_ok()); }});
    let base = cost::live();
    let mut q: &[u8] = bytes;
    let x = <{inn} as {root}::Deserialize>::deserialize(&mut q);
    let retained = cost::live() - base;
    cost::excess();
    let held_in = x.as_ref().map_or(0, |x| std::mem::size_of::<{inn}>() + hin_{f}_{k}(x));
    put(w, &[ok, d.0, d.1, retained as u64, held_in as u64, largest() as u64, cost::excess()]);
  }}
  put(w, &[cost::live().wrapping_sub(live0) as u64]);
}}"
        )
        .unwrap();
    }
    writeln!(s, "pub const MEAS: &[(cost::Meas, cost::Raw)] = &[").unwrap();
    for (f, k) in p.all() {
        writeln!(s, "  (meas_{f}_{k}, raw_{f}_{k}),").unwrap();
    }
    writeln!(s, "];").unwrap();
    s
}

pub fn main_cost(n: usize) -> String {
    let mut s = String::from("#![allow(warnings)]\nmod rt;\nmod cost;\n");
    for i in 0..n {
        writeln!(s, "mod g{i};\nmod d{i};").unwrap();
    }
    writeln!(s, "static TABLES: &[&[rt::Ops]] = &[").unwrap();
    for i in 0..n {
        writeln!(s, "    d{i}::TABLE,").unwrap();
    }
    writeln!(s, "];\nstatic MEAS: &[&[(cost::Meas, cost::Raw)]] = &[").unwrap();
    for i in 0..n {
        writeln!(s, "    d{i}::MEAS,").unwrap();
    }
    writeln!(s, "];\nfn main() {{\n  rt::run_by(|r| cost::respond(TABLES, MEAS, r));\n}}").unwrap();
    s
}

pub const PURE: &str = include_str!("../drv/pure.rs");

// Functions that use one message from several threads.
pub fn share_extra(p: &Program, root: &str) -> String {
    let mut s = String::from("use super::pure;\n");
    let build = p.buildable();
    for r in p.all() {
        let out = type_path(root, p, r, "Out");
        let inn = type_path(root, p, r, "In");
        let (f, k) = r;
        writeln!(s, "fn share_{f}_{k}(r: &mut Rd, n: usize) -> Vec<u8> {{").unwrap();
        if build[&r] {
            writeln!(
                s,
                "  let m: {out} = b_{f}_{k}(r);
  pure::share(&m, n,
    |m: &{out}| {{
      let size = {root}::Serialize::size(m);
      let mut w = vec![];
      {root}::Serialize::serialize(m, &mut w).unwrap();
      let c: {inn} = <{inn} as From<{out}>>::from(Clone::clone(m));
      let mut d = vec![];
      d_{f}_{k}(&c, &mut d);
      (size, w, d, format!(\"{{:?}}\", m))
    }},
    |b: &[u8]| {{ let mut r: &[u8] = b; <{inn} as {root}::Deserialize>::deserialize(&mut r).ok() }},
    |x: &{inn}| {{
      let mut d = vec![];
      d_{f}_{k}(x, &mut d);
      let mut e = vec![];
      d_{f}_{k}(&Clone::clone(x), &mut e);
      assert!(d == e, \"a clone differs\");
      (d, format!(\"{{:?}}\", x))
    }})"
            )
            .unwrap();
        } else {
            writeln!(s, "  let _ = (r, n); panic!()").unwrap();
        }
        writeln!(s, "}}").unwrap();
    }
    writeln!(s, "pub const SHARES: &[pure::Share] = &[").unwrap();
    for (f, k) in p.all() {
        writeln!(s, "  share_{f}_{k},").unwrap();
    }
    writeln!(s, "];").unwrap();
    s
}

pub fn main_pure(n: usize) -> String {
    let mut s = String::from("#![allow(warnings)]\nmod rt;\nmod pure;\n");
    for i in 0..n {
        writeln!(s, "mod g{i};\nmod d{i};").unwrap();
    }
    writeln!(s, "static TABLES: &[&[rt::Ops]] = &[").unwrap();
    for i in 0..n {
        writeln!(s, "    d{i}::TABLE,").unwrap();
    }
    writeln!(s, "];\nstatic SHARES: &[&[pure::Share]] = &[").unwrap();
    for i in 0..n {
        writeln!(s, "    d{i}::SHARES,").unwrap();
    }
    writeln!(s, "];\nfn main() {{\n  rt::run_by(|r| pure::session(TABLES, SHARES, r));\n}}").unwrap();
    s
}

pub fn main_rs(mods: &[(String, String)]) -> String {
    // (generated file name, driver file name) per program
    let mut s = String::from("#![allow(warnings)]\nmod rt;\n");
    for (i, (g, d)) in mods.iter().enumerate() {
        writeln!(s, "#[path = \"{g}\"]\nmod g{i};\n#[path = \"{d}\"]\nmod d{i};").unwrap();
    }
    writeln!(s, "fn main() {{\n  static TABLES: &[&[rt::Ops]] = &[").unwrap();
    for i in 0..mods.len() {
        writeln!(s, "    d{i}::TABLE,").unwrap();
    }
    writeln!(s, "  ];\n  rt::run(TABLES);\n}}").unwrap();
    s
}
