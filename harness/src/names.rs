// Reference model of identifiers, written from the README: names are split into words at
// underscores (and hyphens in file names) and before capital letters.
use crate::util::Rng;

pub fn words(name: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut cur = String::new();
    for c in name.chars() {
        if c == '_' || c == '-' {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
        } else {
            if c.is_uppercase() && !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

fn cap(w: &str) -> String {
    let mut it = w.chars();
    match it.next() {
        None => String::new(),
        Some(c) => c.to_uppercase().collect::<String>() + &it.as_str().to_lowercase(),
    }
}

pub fn snake(name: &str) -> String {
    words(name).iter().map(|w| w.to_lowercase()).collect::<Vec<_>>().join("_")
}

pub fn pascal(name: &str) -> String {
    words(name).iter().map(|w| cap(w)).collect()
}

pub fn camel(name: &str) -> String {
    let w = words(name);
    let mut s = String::new();
    for (i, x) in w.iter().enumerate() {
        if i == 0 {
            s += &x.to_lowercase();
        } else {
            s += &cap(x);
        }
    }
    s
}

pub const SCHEMA_KEYWORDS: &[&str] = &[
    "as", "asymmetric", "Bool", "Bytes", "choice", "deleted", "F64", "import", "optional", "S64",
    "String", "struct", "U64", "Unit",
];

pub const RUST_KEYWORDS: &[&str] = &[
    "Self", "abstract", "as", "async", "await", "become", "box", "break", "const", "continue",
    "crate", "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen",
    "if", "impl", "in", "let", "loop", "macro", "macro_rules", "match", "mod", "move", "mut", "override", "priv",
    "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "try", "type",
    "typeof", "union", "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
];

pub const TS_KEYWORDS: &[&str] = &[
    "abstract", "any", "as", "assert", "asserts", "async", "await", "bigint", "boolean", "break",
    "case", "catch", "class", "const", "constructor", "continue", "debugger", "declare", "default",
    "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "from",
    "function", "get", "global", "if", "implements", "import", "in", "infer", "instanceof",
    "interface", "intrinsic", "is", "keyof", "let", "module", "namespace", "never", "new", "null",
    "number", "object", "of", "override", "package", "private", "protected", "public", "readonly",
    "require", "return", "set", "static", "string", "super", "switch", "symbol", "this", "throw",
    "true", "try", "type", "typeof", "undefined", "unique", "unknown", "var", "void", "while",
    "with", "yield",
];

// Names that are not keywords but mean something in the scope of the generated TypeScript.
pub const TS_BUILTINS: &[&str] = &[
    "Array", "ArrayBuffer", "BigInt", "DataView", "Error", "Number", "Object", "RangeError", "TextDecoder",
    "TextEncoder", "Uint8Array", "hasOwnProperty", "isPrototypeOf", "propertyIsEnumerable",
    "toLocaleString", "toString", "valueOf",
];

fn rust_escape(s: String) -> String {
    if ["self", "Self", "super", "crate"].contains(&s.as_str()) {
        s + "_"
    } else if RUST_KEYWORDS.contains(&s.as_str()) {
        format!("r#{s}")
    } else {
        s
    }
}

fn ts_escape(s: String) -> String {
    if TS_KEYWORDS.contains(&s.as_str()) || TS_BUILTINS.contains(&s.as_str()) {
        format!("_{s}")
    } else {
        s
    }
}

pub fn rust_field(n: &str) -> String {
    rust_escape(snake(n))
}
pub fn rust_variant(n: &str) -> String {
    rust_escape(pascal(n))
}
pub fn ts_field(n: &str) -> String {
    ts_escape(camel(n))
}
pub fn ts_ns(n: &str) -> String {
    ts_escape(pascal(n))
}

// Write an identifier in a schema file, with a sigil if it would otherwise be a keyword.
pub fn sigil(s: &str) -> String {
    if SCHEMA_KEYWORDS.contains(&s) {
        format!("${s}")
    } else {
        s.to_owned()
    }
}

// A random spelling of the same name.
pub fn respell(rng: &mut Rng, name: &str) -> String {
    let ws: Vec<String> = words(name).iter().map(|w| w.to_lowercase()).collect();
    let mut s = String::new();
    for (i, w) in ws.iter().enumerate() {
        let c = w.chars().next().unwrap();
        let up: String = c.to_uppercase().collect();
        let capital = up.chars().count() == 1
            && up.chars().next().unwrap().is_uppercase()
            && up.to_lowercase() == c.to_string();
        if capital && rng.chance(1, 2) {
            if i > 0 && rng.chance(1, 4) {
                s.push('_');
            }
            s += &up;
            s += &w[c.len_utf8()..];
        } else {
            if i > 0 {
                s.push('_');
                if rng.chance(1, 12) {
                    s.push('_');
                }
            }
            s += w;
        }
    }
    if rng.chance(1, 16) {
        s.push('_');
    }
    s
}
