// Typed uses of the generated TypeScript, for type-checking only.
use crate::drv_ts::{fn_path, ts_ty, type_path};
use crate::model::{Kind, Program, Rule};
use crate::names::ts_field;
use std::fmt::Write;

const HELPERS: &str = "
type Eq<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;
function same<A, B>(_x: Eq<A, B>): void {}
function assignable<A, B extends A>(): B | undefined { return undefined; }
";

pub fn driver(p: &Program, module: &str) -> String {
    let mut s = format!("import * as G from '{module}';\n{HELPERS}\n");
    writeln!(s, "same<Parameters<typeof G.unreachable>, [never]>(true);").unwrap();
    for r in p.all() {
        let d = p.decl(r);
        let (f, k) = r;
        let out = type_path(p, r, "Out");
        let inn = type_path(p, r, "In");
        let q = fn_path(p, r);
        writeln!(s, "\n// {} {}", p.files[f].path(), d.name.replace('\n', " ")).unwrap();
        writeln!(s, "export function use_{f}_{k}(o: {out}, view: Uint8Array, dv: DataView, ab: ArrayBuffer): void {{").unwrap();
        writeln!(s, "  same<Parameters<typeof {q}.size>, [{out}]>(true);").unwrap_or(());
        // (`ReturnType` of a function that takes `never` is `any`.)
        let only = if d.kind == Kind::Choice && d.fields.is_empty() { "// " } else { "" };
        let body = format!(
            "  const n: number = {q}.size(o); const b: ArrayBuffer = {q}.serialize(o);
  {only}same<ReturnType<typeof {q}.size>, number>(true);
  {only}same<ReturnType<typeof {q}.serialize>, ArrayBuffer>(true);
  same<ReturnType<typeof {q}.deserialize>, {inn} | Error>(true);
  same<Parameters<typeof {q}.serialize>[0], {out}>(true);
  {q}.deserialize(view); {q}.deserialize(dv); {q}.deserialize(ab); {q}.deserialize(new Uint8Array(b, n));"
        );
        writeln!(s, "{body}").unwrap();
        writeln!(
            s,
            "  const i = {q}.deserialize(ab);\n  if (!(i instanceof Error)) {{ const j: {inn} = i; void j; }} else {{ throw i; }}\n}}"
        )
        .unwrap();
        match d.kind {
            Kind::Struct => {
                for (ty, suffix) in [(&out, "Out"), (&inn, "In")] {
                    let mut fields = vec![];
                    for x in &d.fields {
                        let n = ts_field(&x.name);
                        let t = ts_ty(p, &x.ty, suffix);
                        let maybe = x.rule == Rule::Opt || (x.rule == Rule::Asym && suffix == "In");
                        let t = if maybe { format!("({t}) | undefined") } else { t };
                        writeln!(s, "same<{ty}['{n}'], {t}>(true);").unwrap();
                        fields.push(format!("{n}: {t}"));
                    }
                    let want = format!("{{ {} }}", fields.join("; "));
                    let keys: Vec<String> = d.fields.iter().map(|x| format!("'{}'", ts_field(&x.name))).collect();
                    let keys = if keys.is_empty() { "never".to_owned() } else { keys.join(" | ") };
                    writeln!(s, "same<keyof {ty}, {keys}>(true);").unwrap();
                    writeln!(s, "assignable<{ty}, {want}>();\nassignable<{want}, {ty}>();").unwrap();
                }
                // Nothing may be left out, even if it may be undefined.
                for skip in 0..d.fields.len() {
                    let rest: Vec<String> = d
                        .fields
                        .iter()
                        .enumerate()
                        .filter(|(j, _)| *j != skip)
                        .map(|(_, x)| {
                            let n = ts_field(&x.name);
                            format!("{n}: o['{n}']")
                        })
                        .collect();
                    writeln!(
                        s,
                        "export function without_{f}_{k}_{skip}(o: {out}): {out} {{\n  // @ts-expect-error\n  return {{ {} }};\n}}",
                        rest.join(", ")
                    )
                    .unwrap();
                }
            }
            Kind::Choice => {
                let mut union = vec![];
                for x in &d.fields {
                    let n = ts_field(&x.name);
                    let fb = x.rule != Rule::Req;
                    let t = ts_ty(p, &x.ty, "Out");
                    union.push(format!("{{ {n}: {t}{} }}", if fb { format!("; $fallback: {out}") } else { String::new() }));
                    let keys = if fb { format!("'{n}' | '$fallback'") } else { format!("'{n}'") };
                    writeln!(s, "same<keyof Extract<{out}, {{ {n}: unknown }}>, {keys}>(true);").unwrap();
                    writeln!(s, "same<Extract<{out}, {{ {n}: unknown }}>['{n}'], {t}>(true);").unwrap();
                    if fb {
                        writeln!(s, "same<Extract<{out}, {{ {n}: unknown }}>['$fallback'], {out}>(true);").unwrap();
                    }
                    let fb = x.rule == Rule::Opt;
                    let t = ts_ty(p, &x.ty, "In");
                    let mut fields = format!("{{ $field: '{n}'; {n}: {t}");
                    if fb {
                        fields += &format!("; $fallback: {inn}");
                    }
                    fields += " }";
                    writeln!(
                        s,
                        "export function narrow_{f}_{k}_{n}(x: {inn}): void {{\n  if (x.$field === '{n}') {{\n    same<typeof x, {fields}>(true);\n    same<typeof x.{n}, {t}>(true);\n  }}\n}}"
                    )
                    .unwrap();
                }
                if d.fields.is_empty() {
                    writeln!(s, "same<{out}, never>(true);\nsame<{inn}, never>(true);").unwrap();
                    continue;
                }
                writeln!(s, "assignable<{out}, {u}>();\nassignable<{u}, {out}>();", u = union.join(" | ")).unwrap();
                let kinds: Vec<String> = d.fields.iter().map(|x| format!("'{}'", ts_field(&x.name))).collect();
                writeln!(s, "same<{inn}['$field'], {}>(true);", kinds.join(" | ")).unwrap();
                // Exhaustive matching, and what happens without one of the cases.
                let cases: Vec<String> = d
                    .fields
                    .iter()
                    .enumerate()
                    .map(|(j, x)| format!("    case '{n}': void x.{n}; return {j};\n", n = ts_field(&x.name)))
                    .collect();
                writeln!(
                    s,
                    "export function match_{f}_{k}(x: {inn}): number {{\n  switch (x.$field) {{\n{}    default: return G.unreachable(x);\n  }}\n}}",
                    cases.concat()
                )
                .unwrap();
                for skip in 0..d.fields.len() {
                    let some: String = cases.iter().enumerate().filter(|(j, _)| *j != skip).map(|(_, c)| c.clone()).collect();
                    writeln!(
                        s,
                        "export function partial_{f}_{k}_{skip}(x: {inn}): number {{\n  switch (x.$field) {{\n{some}    default:\n      // @ts-expect-error\n      return G.unreachable(x);\n  }}\n}}"
                    )
                    .unwrap();
                }
            }
        }
    }
    s
}
