// Schemas as data: the reference abstract syntax, a generator of random multi-file schemas, and
// printers.
use crate::names::{camel, pascal, respell, sigil, snake, RUST_KEYWORDS, SCHEMA_KEYWORDS, TS_BUILTINS, TS_KEYWORDS};
use crate::util::Rng;
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Unit,
    F64,
    U64,
    S64,
    Bool,
    Bytes,
    Str,
    Arr(Box<Ty>),
    Ref(usize, usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Rule {
    Req,
    Asym,
    Opt,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Struct,
    Choice,
}

pub type Comment = Vec<Vec<String>>;

#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub rule: Rule,
    pub ty: Ty,
    pub index: u64,
    pub comment: Comment,
}

#[derive(Clone, Debug)]
pub struct Decl {
    pub kind: Kind,
    pub name: String,
    pub fields: Vec<Field>,
    pub deleted: BTreeSet<u64>,
    pub comment: Comment,
}

#[derive(Clone, Debug)]
pub struct Import {
    pub target: usize,
    pub alias: Option<String>,
    pub path: String,
}

impl Import {
    pub fn name(&self) -> String {
        self.alias.clone().unwrap_or_else(|| stem(&self.path))
    }
}

#[derive(Clone, Debug)]
pub struct File {
    pub comps: Vec<String>,
    pub imports: Vec<Import>,
    pub decls: Vec<Decl>,
    pub comment: Comment,
}

#[derive(Clone, Debug)]
pub struct Program {
    pub files: Vec<File>,
}

pub fn stem(path: &str) -> String {
    let last = path.rsplit('/').next().unwrap();
    match last.rfind('.') {
        Some(0) | None => last.to_owned(),
        Some(i) => last[..i].to_owned(),
    }
}

// Can the name of an import be inferred from it and used in references?
pub fn usable_stem(s: &str) -> bool {
    s.starts_with(|c: char| c.is_alphabetic() && !c.is_numeric()) && s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-')
}

impl File {
    pub fn path(&self) -> String {
        self.comps.join("/")
    }
    // Namespace components: directories and the stem of the file name.
    pub fn ns(&self) -> Vec<String> {
        let n = self.comps.len();
        let mut v: Vec<String> = self.comps[..n - 1].to_vec();
        v.push(stem(&self.comps[n - 1]));
        v
    }
}

impl Program {
    pub fn decl(&self, r: (usize, usize)) -> &Decl {
        &self.files[r.0].decls[r.1]
    }
    pub fn all(&self) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (i, f) in self.files.iter().enumerate() {
            for j in 0..f.decls.len() {
                v.push((i, j));
            }
        }
        v
    }
    // Can an outgoing value of the type be built at all? (A choice needs a required field whose
    // type can be built.)
    pub fn buildable(&self) -> BTreeMap<(usize, usize), bool> {
        let mut m = BTreeMap::new();
        for r in self.all() {
            self.buildable_decl(r, &mut m);
        }
        m
    }
    fn buildable_decl(&self, r: (usize, usize), m: &mut BTreeMap<(usize, usize), bool>) -> bool {
        if let Some(b) = m.get(&r) {
            return *b;
        }
        let d = self.decl(r);
        let b = match d.kind {
            Kind::Struct => d
                .fields
                .iter()
                .all(|f| f.rule == Rule::Opt || self.buildable_ty(&f.ty, m)),
            Kind::Choice => d
                .fields
                .iter()
                .any(|f| f.rule == Rule::Req && self.buildable_ty(&f.ty, m)),
        };
        m.insert(r, b);
        b
    }
    fn buildable_ty(&self, t: &Ty, m: &mut BTreeMap<(usize, usize), bool>) -> bool {
        match t {
            Ty::Ref(f, d) => self.buildable_decl((*f, *d), m),
            _ => true,
        }
    }
    pub fn reachable(&self) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![0];
        while let Some(i) = todo.pop() {
            if seen.insert(i) {
                for im in &self.files[i].imports {
                    todo.push(im.target);
                }
            }
        }
        seen
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max_files: usize,
    pub max_decls: usize,
    pub max_fields: usize,
    pub max_level: usize,
    pub max_arr: usize,
    pub torture: usize, // percentage of torture names
    pub unicode: usize, // percentage of non-ASCII names
    pub digits: usize,  // percentage of names with word-initial digits
    pub comments: bool,
    pub wild_comments: bool,
    pub big_index: bool,
    pub dead_choices: bool,
    pub unit_arrays: bool,
    pub odd_files: bool,
    pub dotted: bool, // file names that are no identifiers: not for programs whose output is compiled
    pub huge_index: bool,
    pub repeat: bool, // namespaces that shadow others in TypeScript (see known findings)
    // Set by the shape of the program.
    pub dirs: usize,  // deepest directory
    pub down: usize,  // percentage of going one directory down
    pub arr: usize,   // percentage of arrays
    pub del: usize,   // percentage of declarations with deleted fields
    pub empty: usize, // percentage of declarations without fields
    pub small: usize, // percentage of declarations with one or two fields at most
    pub wide: usize,
    pub ladder: usize,   // percentage of declarations with arrays of every depth  // most fields of one declaration of the program, or zero
}

impl Cfg {
    pub fn runtime() -> Cfg {
        Cfg {
            max_files: 4,
            max_decls: 9,
            max_fields: 7,
            max_level: 4,
            max_arr: 4,
            torture: 20,
            unicode: 3,
            digits: 4,
            comments: false,
            wild_comments: false,
            big_index: true,
            dead_choices: false,
            unit_arrays: true,
            odd_files: false,
            dotted: false,
            huge_index: true,
            repeat: false,
            dirs: 3,
            down: 40,
            arr: 25,
            del: 33,
            empty: 12,
            small: 0,
            wide: 0,
            ladder: 0,
        }
    }
    pub fn front() -> Cfg {
        Cfg {
            max_files: 5,
            max_decls: 8,
            max_fields: 6,
            max_level: 5,
            max_arr: 4,
            torture: 30,
            unicode: 8,
            digits: 8,
            comments: true,
            wild_comments: true,
            big_index: true,
            dead_choices: true,
            unit_arrays: true,
            odd_files: true,
            dotted: false,
            huge_index: false,
            repeat: true,
            dirs: 3,
            down: 40,
            arr: 25,
            del: 33,
            empty: 12,
            small: 0,
            wide: 0,
            ladder: 0,
        }
    }
    // Some programs are lopsided: deep directories and arrays, or next to no fields next to deleted
    // ones.
    fn shaped(&self, rng: &mut Rng) -> Cfg {
        let mut c = self.clone();
        match rng.below(10) {
            0 | 1 => {
                c.dirs = 7;
                c.down = 75;
                c.arr = 50;
                c.max_arr = c.max_arr.max(6);
            }
            2 | 3 => {
                c.small = 60;
                c.del = 75;
                c.empty = 25;
            }
            4 => c.wide = *rng.pick(&[20, 40, 70, 140]),
            // Many small types in many files, containing each other deeply.
            5 => {
                c.max_decls *= 4;
                c.max_files *= 3;
                c.max_level += 4;
                c.small = 75;
                c.dirs = *rng.pick(&[1, 3, 16]);
                c.down = 85;
            }
            6 => c.ladder = c.ladder.max(50),
            _ => {}
        }
        c
    }
}

const WORDS: &[&str] = &[
    "foo", "bar", "baz", "qux", "user", "email", "body", "name", "count", "flag", "item", "list",
    "value", "data", "node", "left", "right", "time", "kind", "extra", "id", "x", "y", "a", "b",
    "address", "total", "state", "v2", "utf8", "k9x", "ping", "pong", "note",
];

const INTERNALS: &[&str] = &[
    "size", "atlas", "serialize", "deserialize", "index", "payload", "payload_size", "sub_reader",
    "reader", "writer", "message", "fallback", "buffer", "header", "err", "data_view", "offset",
    "varint", "elements", "e", "i", "t", "array_buffer", "ok", "some", "none", "vec", "option",
    "in", "out", "clone", "debug", "from", "into", "error", "old_offset", "old_payload", "atlases",
    "payload_atlas", "fallback_atlas", "payload_alias", "data_view_alias", "new_payload",
    "message_atlas", "serialize_with_atlas", "deserialize_from_reader_ref", "io", "std", "result",
    "field", "unreachable", "deserialize_unsafe", "serialize_with_atlas_unsafe", "new_offset",
    "data_view_64", "text_encoder", "text_decoder", "zigzag_encode", "skip", "finish", "min",
    "u64", "usize", "f64", "i64", "bool", "number", "big_int", "uint8_array", "range_error",
    "to_string", "value_of", "has_own_property", "is_prototype_of", "to_locale_string",
    "property_is_enumerable", "proto", "prototype", "length", "then", "object", "null", "undefined",
    "self", "super", "crate", "self_type", "deserializable", "bytes", "take", "read", "write",
    "default", "hash", "eq", "ord", "copy", "drop", "send", "sync", "sized", "fn", "b_type",
    "payload_size_big", "target_buffer", "source_buffer", "missing_fields_error_message",
];

// Spelled in schemas with an initial capital or inner capitals: these are what keywords of the
// target languages and built-in names look like after case conversion.
const UNI: &[&str] = &["имя", "größe", "名前", "élan", "ñu", "ключ", "δέλτα", "データ", "naïve", "ßa", "ﬁsh"];

pub const RESERVED_MODULES: &[&str] = &[
    "io", "std", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128",
    "isize", "f32", "f64", "bool", "char", "str", "core", "alloc", "zigzag_encode",
];

pub fn gen_name(rng: &mut Rng, cfg: &Cfg) -> String {
    if rng.chance(cfg.torture, 100) {
        let s = match rng.below(5) {
            0 => (*rng.pick(RUST_KEYWORDS)).to_owned(),
            1 => (*rng.pick(TS_KEYWORDS)).to_owned(),
            2 => (*rng.pick(INTERNALS)).to_owned(),
            3 => (*rng.pick(SCHEMA_KEYWORDS)).to_owned(),
            _ => snake(rng.pick::<&str>(TS_BUILTINS)),
        };
        return snake(&s);
    }
    let n = match rng.below(24) {
        0 => rng.range(4, 9),
        1..=12 => 1,
        _ => rng.range(1, 3),
    };
    let mut ws = vec![];
    for i in 0..n {
        if rng.chance(cfg.unicode, 100) {
            ws.push((*rng.pick(UNI)).to_owned());
        } else if i > 0 && rng.chance(cfg.digits, 100) {
            ws.push(format!("{}", rng.below(30)));
        } else {
            ws.push((*rng.pick(WORDS)).to_owned());
        }
    }
    ws.join("_")
}

fn gen_word(rng: &mut Rng, wild: bool) -> String {
    if !wild || rng.chance(3, 5) {
        return (*rng.pick(WORDS)).to_owned();
    }
    match rng.below(16) {
        0 => "well-known".into(),
        13 => (*rng.pick(&["-----", "=====", "---", "~~~~~~~~~", "***", "=-=-=-="])).to_owned(),
        14 => (*rng.pick(&["C#", "F##", "//", "///", "/*", "*/", "<!--", "-->", "--", "#!", "\\", "\"x\"", "a.", "-", "*", "1."])).to_owned(),
        1 => "a-b-c-d-e".into(),
        2 => {
            let n = rng.range(30, 120);
            "w".repeat(n)
        }
        3 => "http://example.com/some/really-long_path?x=1&y=2#frag".into(),
        4 => "struct".into(),
        5 => "{".into(),
        6 => "}".into(),
        7 => "#hash".into(),
        8 => "'quote'".into(),
        9 => "日本語のテキスト".into(),
        10 => "émile—dash".into(),
        11 => "x:".into(),
        12 => "= 0".split(' ').next().unwrap().into(),
        _ => {
            let n = rng.range(60, 80);
            let mut s = String::new();
            while s.chars().count() < n {
                s += *rng.pick(&["ab", "cd-", "e/", "ü", "日", "f.g"]);
            }
            s
        }
    }
}

pub fn gen_comment(rng: &mut Rng, wild: bool) -> Comment {
    let np = if rng.chance(3, 4) { 1 } else { rng.range(2, 3) };
    (0..np)
        .map(|_| {
            let nw = if rng.chance(1, 3) { rng.range(1, 40) } else { rng.range(1, 6) };
            (0..nw).map(|_| gen_word(rng, wild)).collect()
        })
        .collect()
}

fn gen_ty(rng: &mut Rng, cfg: &Cfg, refs: &[(usize, usize)], depth: usize) -> Ty {
    let r = rng.below(100);
    if depth < cfg.max_arr && r < cfg.arr {
        return Ty::Arr(Box::new(gen_ty(rng, cfg, refs, depth + 1)));
    }
    if !refs.is_empty() && r < cfg.arr + 35 {
        let (f, d) = *rng.pick(refs);
        return Ty::Ref(f, d);
    }
    match rng.below(7) {
        0 => Ty::Unit,
        1 => Ty::F64,
        2 => Ty::U64,
        3 => Ty::S64,
        4 => Ty::Bool,
        5 => Ty::Bytes,
        _ => Ty::Str,
    }
}

pub fn gen_file_comps(rng: &mut Rng, cfg: &Cfg, n: usize) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = vec![];
    let mut used: HashSet<Vec<String>> = HashSet::new();
    let mut top: HashSet<String> = HashSet::new(); // Pascal names at depth 1
    let mut deep: HashSet<String> = HashSet::new();
    let mut dirs: Vec<Vec<String>> = vec![vec![]];
    while out.len() < n {
        let first = out.is_empty();
        let dir = if first { vec![] } else { rng.pick(&dirs).clone() };
        let mut dir = dir;
        let fresh = |rng: &mut Rng| loop {
            let mut c = cfg.clone();
            c.unicode /= 2;
            let s = gen_name(rng, &c);
            if RESERVED_MODULES.contains(&s.as_str()) {
                continue;
            }
            return s;
        };
        if !first {
            while dir.len() < cfg.dirs && rng.chance(cfg.down, 100) {
                let mut d = fresh(rng);
                if cfg.repeat && rng.chance(1, 4) {
                    // Named like a schema or another directory.
                    let o: &Vec<String> = rng.pick(&out);
                    let (k, l) = (rng.below(o.len()), o.len() - 1);
                    let c = if k == l { stem(&o[k]) } else { o[k].clone() };
                    if usable_stem(&c) {
                        d = snake(&c);
                    }
                }
                dir.push(if rng.chance(1, 2) { d } else { respell(rng, &d) });
            }
        }
        let mut s = fresh(rng);
        if cfg.repeat && !dir.is_empty() && rng.chance(1, 5) {
            s = snake(rng.pick::<String>(&dir));
        }
        if cfg.digits > 0 && rng.chance(1, 8) {
            s = format!("{s}{}{}", rng.pick::<&str>(&["", "_", "_v", "_v_"]), rng.below(12));
        }
        let s = if cfg.odd_files && rng.chance(1, 3) {
            match rng.below(2) {
                0 => s.replace('_', "-"),
                _ => respell(rng, &s),
            }
        } else {
            s
        };
        let s = if cfg.dotted && !first && rng.chance(1, 8) {
            match rng.below(4) {
                0 => format!("{s}.v{}", rng.below(4)),
                1 => format!("{s}.{}", fresh(rng)),
                2 => format!("{}{s}", rng.below(4)),
                _ => s.replacen('_', " ", 1) + "+",
            }
        } else {
            s
        };
        let mut comps = dir.clone();
        comps.push(s.clone());
        let ns: Vec<String> = comps.iter().map(|c| pascal(c)).collect();
        // Names at depth one are not reused deeper (TypeScript namespaces would shadow them).
        if used.contains(&ns) || ns.len() != ns.iter().filter(|c| !c.is_empty()).count() {
            continue;
        }
        if !cfg.repeat && ns[1..].iter().any(|c| top.contains(c) || *c == ns[0]) || !cfg.repeat && deep.contains(&ns[0]) {
            continue;
        }
        // The same directory in another case convention would be another directory with the same
        // namespace: fine for the compiler, but keep it out of here.
        if out.iter().any(|o: &Vec<String>| {
            o.iter().zip(comps.iter()).any(|(a, b)| pascal(&stem(a)) == pascal(b) && stem(a) != *b)
        }) {
            continue;
        }
        used.insert(ns.clone());
        top.insert(ns[0].clone());
        for c in &ns[1..] {
            deep.insert(c.clone());
        }
        let ext = if cfg.odd_files { *rng.pick(&[".t", ".t", ".t", ".typical", ".x", ""]) } else { ".t" };
        // A file without extension might collide with a directory.
        let ext = if ext.is_empty() { ".t" } else { ext };
        *comps.last_mut().unwrap() = s + ext;
        for k in 0..dir.len() {
            let d = dir[..=k].to_vec();
            if !dirs.contains(&d) {
                dirs.push(d);
            }
        }
        out.push(comps);
    }
    out
}

pub fn rel_path(from: &[String], to: &[String]) -> String {
    let fd = &from[..from.len() - 1];
    let mut k = 0;
    while k < fd.len() && k < to.len() - 1 && fd[k] == to[k] {
        k += 1;
    }
    let mut v: Vec<String> = vec!["..".to_owned(); fd.len() - k];
    v.extend(to[k..].iter().cloned());
    v.join("/")
}

pub fn gen_program(rng: &mut Rng, cfg: &Cfg) -> Program {
    let cfg = &cfg.shaped(rng);
    let mut huge = false; // at most one very long list of deleted indices
    let nf = if rng.chance(1, 2) { rng.range(1, cfg.max_files) } else { rng.range(1, 2.min(cfg.max_files)) };
    let comps = gen_file_comps(rng, cfg, nf);
    let top: HashSet<String> = comps
        .iter()
        .map(|c| if c.len() == 1 { pascal(&stem(&c[0])) } else { pascal(&c[0]) })
        .collect();
    let mut p = Program {
        files: comps
            .into_iter()
            .map(|comps| File { comps, imports: vec![], decls: vec![], comment: vec![] })
            .collect(),
    };
    let min_decls = if rng.chance(1, 12) { 0 } else { 1 };
    let nd = rng.range(min_decls, cfg.max_decls);
    let mut level: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let widest = if cfg.wide > 0 { rng.below(nd.max(1)) } else { nd };
    for di in 0..nd {
        let fi = rng.below(nf);
        let name = loop {
            let mut n = gen_name(rng, cfg);
            if rng.chance(1, 10) {
                // Named like a schema or directory.
                let f = rng.below(nf);
                n = snake(&p.files[f].ns().pop().unwrap());
            }
            let pn = pascal(&n);
            if !cfg.repeat && top.contains(&pn) || p.files[fi].decls.iter().any(|d| pascal(&d.name) == pn) {
                continue;
            }
            break n;
        };
        let kind = if rng.chance(3, 5) { Kind::Struct } else { Kind::Choice };
        let refs: Vec<(usize, usize)> = level
            .iter()
            .filter(|(_, l)| **l < cfg.max_level)
            .map(|(k, _)| *k)
            .collect();
        // In some programs, the fields of a declaration differ in the number of arrays around one type.
        let mut ladder = vec![];
        if rng.chance(cfg.ladder, 100) {
            let base = gen_ty(rng, &Cfg { arr: 0, ..cfg.clone() }, &refs, 0);
            let light = !matches!(base, Ty::Ref(f, d) if level[&(f, d)] >= 2);
            let mut ty = base;
            for _ in 0..if light { 10 } else { 2 } {
                ladder.push(ty.clone());
                ty = Ty::Arr(Box::new(ty));
            }
            rng.shuffle(&mut ladder);
            if rng.chance(1, 2) {
                ladder.truncate(5);
            }
        }
        let most = if rng.chance(cfg.small, 100) { rng.range(1, 2) } else { cfg.max_fields };
        let nfields = if !ladder.is_empty() {
            ladder.len()
        } else if di == widest {
            rng.range(cfg.wide / 2, cfg.wide)
        } else if rng.chance(cfg.empty, 100) {
            0
        } else {
            rng.range(1, most)
        };
        let mut fields: Vec<Field> = vec![];
        let mut lvl = 0;
        let mut heavy = 0;
        for _ in 0..nfields {
            let fname = loop {
                let n = gen_name(rng, cfg);
                let cn = camel(&n);
                if fields.iter().any(|f| camel(&f.name) == cn || pascal(&f.name) == pascal(&n)) {
                    continue;
                }
                break n;
            };
            let rule = *rng.pick(&[Rule::Req, Rule::Req, Rule::Asym, Rule::Opt]);
            let mut ty = ladder.pop().unwrap_or_else(|| gen_ty(rng, cfg, &refs, 0));
            if !cfg.unit_arrays && has_unit_array(&ty) {
                ty = Ty::U64;
            }
            if let Some(r) = ty_ref(&ty) {
                if level[&r] >= 2 {
                    heavy += 1;
                    if heavy > 2 {
                        ty = Ty::U64;
                    }
                }
            }
            if let Some(r) = ty_ref(&ty) {
                lvl = lvl.max(level[&r] + 1);
            }
            fields.push(Field {
                name: fname,
                rule,
                ty,
                index: 0,
                comment: if cfg.comments && rng.chance(1, 3) {
                    gen_comment(rng, cfg.wild_comments)
                } else {
                    vec![]
                },
            });
        }
        if kind == Kind::Choice && !fields.is_empty() && !(cfg.dead_choices && rng.chance(1, 8)) {
            // Make sure there is something to bottom out at.
            let k = rng.below(fields.len());
            fields[k].rule = Rule::Req;
        }
        // Indices: gapless together with the deleted ones.
        let ndel = if rng.chance(cfg.del, 100) {
            if cfg.huge_index && !huge && rng.chance(1, 5) {
                huge = true;
                *rng.pick(&[16_400, 65_530, 66_000, 70_000, 70_000, 131_075])
            } else if cfg.big_index && rng.chance(1, 5) {
                *rng.pick(&[30, 33, 60, 130, 300, 4200])
            } else {
                rng.range(1, 4)
            }
        } else {
            0
        };
        let total = fields.len() + ndel;
        let mut idx: Vec<u64> = (0..total as u64).collect();
        if ndel >= 30 {
            // Put most fields at the far end, where tags take more bytes.
            let near = rng.below(fields.len() + 1) / 2;
            let mut keep: Vec<u64> = vec![];
            for _ in 0..near {
                keep.push(idx.remove(rng.below(40.min(idx.len()))));
            }
            while keep.len() < fields.len() {
                let span = 12.min(idx.len());
                let k = idx.len() - 1 - rng.below(span);
                keep.push(idx.remove(k));
            }
            rng.shuffle(&mut keep);
            for (f, i) in fields.iter_mut().zip(keep) {
                f.index = i;
            }
        } else {
            if rng.chance(1, 2) || ndel > 0 {
                rng.shuffle(&mut idx);
            }
            for f in &mut fields {
                f.index = idx.remove(0);
            }
        }
        let deleted = idx.into_iter().collect();
        let d = Decl {
            kind,
            name,
            fields,
            deleted,
            comment: if cfg.comments && rng.chance(1, 3) { gen_comment(rng, cfg.wild_comments) } else { vec![] },
        };
        p.files[fi].decls.push(d);
        level.insert((fi, p.files[fi].decls.len() - 1), lvl);
    }
    // A struct may not require an unbuildable choice in runtime tests.
    if !cfg.dead_choices {
        let all = p.all();
        for r in all {
            if p.decl(r).kind == Kind::Choice && p.decl(r).fields.is_empty() {
                // Empty choices have no values at all; keep them, but nothing may need them.
            }
        }
        fix_buildable(&mut p);
    }
    // Declaration order within a file is arbitrary.
    permute_decls(rng, &mut p);
    link_imports(rng, &mut p);
    if cfg.comments {
        for f in &mut p.files {
            if rng.chance(1, 3) {
                f.comment = gen_comment(rng, cfg.wild_comments);
            }
        }
    }
    p
}

pub fn has_unit_array(t: &Ty) -> bool {
    match t {
        Ty::Arr(i) => **i == Ty::Unit || has_unit_array(i),
        _ => false,
    }
}

pub fn ty_ref(t: &Ty) -> Option<(usize, usize)> {
    match t {
        Ty::Arr(i) => ty_ref(i),
        Ty::Ref(f, d) => Some((*f, *d)),
        _ => None,
    }
}

fn fix_buildable(p: &mut Program) {
    // Replace uses of unbuildable types where a value is mandatory.
    loop {
        let b = p.buildable();
        let mut changed = false;
        for (r, ok) in &b {
            if *ok {
                continue;
            }
            let bad: BTreeMap<(usize, usize), bool> = b.clone();
            let d = &mut p.files[r.0].decls[r.1];
            if d.fields.is_empty() {
                continue;
            }
            for f in &mut d.fields {
                if let Ty::Ref(a, c) = f.ty {
                    if !bad[&(a, c)] {
                        f.ty = Ty::Bool;
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
}

fn remap(t: &mut Ty, m: &BTreeMap<(usize, usize), (usize, usize)>) {
    match t {
        Ty::Arr(i) => remap(i, m),
        Ty::Ref(f, d) => {
            let n = m[&(*f, *d)];
            *f = n.0;
            *d = n.1;
        }
        _ => {}
    }
}

// Returns where every declaration went.
pub fn permute_decls(rng: &mut Rng, p: &mut Program) -> BTreeMap<(usize, usize), (usize, usize)> {
    let mut m = BTreeMap::new();
    for (fi, f) in p.files.iter_mut().enumerate() {
        let mut order: Vec<usize> = (0..f.decls.len()).collect();
        if rng.chance(1, 2) {
            rng.shuffle(&mut order);
        }
        let old = std::mem::take(&mut f.decls);
        for (new, o) in order.iter().enumerate() {
            m.insert((fi, *o), (fi, new));
            f.decls.push(old[*o].clone());
        }
    }
    for f in &mut p.files {
        for d in &mut f.decls {
            for x in &mut d.fields {
                remap(&mut x.ty, &m);
            }
        }
    }
    m
}

// Give every file the imports its types need, plus some more so that all files are reachable.
pub fn link_imports(rng: &mut Rng, p: &mut Program) {
    let n = p.files.len();
    let mut need: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for (i, f) in p.files.iter().enumerate() {
        for d in &f.decls {
            for x in &d.fields {
                if let Some((t, _)) = ty_ref(&x.ty) {
                    if t != i {
                        need[i].insert(t);
                    }
                }
            }
        }
    }
    // Reachability from file 0.
    loop {
        let mut seen = BTreeSet::new();
        let mut todo = vec![0];
        while let Some(i) = todo.pop() {
            if seen.insert(i) {
                todo.extend(need[i].iter().copied());
            }
        }
        if seen.len() == n {
            break;
        }
        let missing: Vec<usize> = (0..n).filter(|i| !seen.contains(i)).collect();
        let s: Vec<usize> = seen.into_iter().collect();
        let a = *rng.pick(&s);
        need[a].insert(*rng.pick(&missing));
    }
    for i in 0..n {
        if rng.chance(1, 6) {
            let t = rng.below(n);
            need[i].insert(t); // possibly itself
        }
    }
    for i in 0..n {
        let mut used: Vec<String> = vec![];
        let mut imports = vec![];
        let mut targets: Vec<usize> = need[i].iter().copied().collect();
        if !targets.is_empty() && rng.chance(1, 10) {
            let again = *rng.pick(&targets); // the same file twice under two names
            targets.push(again);
        }
        rng.shuffle(&mut targets);
        for t in targets {
            let from = p.files[i].comps.clone();
            let to = p.files[t].comps.clone();
            let mut path = rel_path(&from, &to);
            if rng.chance(1, 5) {
                path = format!("./{path}");
            }
            if rng.chance(1, 10) {
                path = path.replacen('/', "/./", 1);
            }
            if from.len() > 1 && rng.chance(1, 6) {
                path = format!("../{}/{}", from[from.len() - 2], path);
            }
            let st = stem(&path);
            let taken = |s: &str, used: &Vec<String>| used.iter().any(|u| snake(u) == snake(s));
            let usable = usable_stem(&st);
            let alias = if taken(&st, &used) || !usable || rng.chance(1, 4) {
                let mut near = true;
                Some(loop {
                    let mut a = gen_name(rng, &Cfg { digits: 0, ..Cfg::runtime() });
                    if near && rng.chance(1, 3) {
                        // Almost the name the file would have without it.
                        let s = snake(&st);
                        a = match rng.below(3) {
                            _ if !usable => s.replace(|c: char| !c.is_alphanumeric(), "_"),
                            0 => s.replace('_', ""),
                            1 => s.replacen('_', "", 1),
                            _ => format!("{s}{}", rng.below(3)),
                        };
                        near = false;
                        if snake(&a) == s || !a.starts_with(|c: char| c.is_alphabetic()) {
                            continue;
                        }
                    }
                    if !taken(&a, &used) {
                        break a;
                    }
                })
            } else {
                None
            };
            used.push(alias.clone().unwrap_or(st));
            imports.push(Import { target: t, alias, path });
        }
        p.files[i].imports = imports;
    }
}

// ---------------------------------------------------------------------------------------------
// Printing

#[derive(Clone, Debug)]
pub struct Style {
    pub wild: bool,      // random white space, respelled names, redundant syntax
    pub comments: bool,  // print the comments
    pub crlf: bool,
    pub refs: bool, // choose at random among the ways to refer to a type
}

impl Style {
    pub fn plain() -> Style {
        Style { wild: false, comments: true, crlf: false, refs: false }
    }
}

// The name of an import as usable in a type reference. File stems with hyphens are spelled in
// snake case.
fn import_name(rng: &mut Rng, im: &Import, wild: bool) -> String {
    let n = im.name();
    let s = if wild { respell(rng, &n) } else { snake(&n) };
    sigil(&s)
}

fn ty_text(rng: &mut Rng, p: &Program, fi: usize, t: &Ty, st: &Style) -> String {
    let sp = |rng: &mut Rng| -> String {
        if st.wild && rng.chance(1, 4) {
            (*rng.pick(&[" ", "  ", "\n", "\t"])).to_owned()
        } else {
            String::new()
        }
    };
    match t {
        Ty::Unit => "Unit".into(),
        Ty::F64 => "F64".into(),
        Ty::U64 => "U64".into(),
        Ty::S64 => "S64".into(),
        Ty::Bool => "Bool".into(),
        Ty::Bytes => "Bytes".into(),
        Ty::Str => "String".into(),
        Ty::Arr(i) => {
            let a = sp(rng);
            let b = sp(rng);
            format!("[{a}{}{b}]", ty_text(rng, p, fi, i, st))
        }
        Ty::Ref(f, d) => {
            let dn = &p.files[*f].decls[*d].name;
            let dn = sigil(&if st.wild { respell(rng, dn) } else { pascal_spelling(dn) });
            let ims: Vec<&Import> = p.files[fi].imports.iter().filter(|i| i.target == *f).collect();
            let pick = if st.refs { rng.below(12) } else { (d * 5 + fi) % 12 };
            if *f == fi && (ims.is_empty() || pick % 4 != 0) {
                dn
            } else {
                let im = ims[pick % ims.len()];
                let n = import_name(rng, im, st.wild);
                let a = sp(rng);
                let b = sp(rng);
                format!("{n}{a}.{b}{dn}")
            }
        }
    }
}

// Pascal case if that denotes the same name, snake case otherwise (word-initial digits etc.).
pub fn pascal_spelling(n: &str) -> String {
    let q = pascal(n);
    if snake(&q) == snake(n) {
        q
    } else {
        snake(n)
    }
}

fn ws(rng: &mut Rng, st: &Style, min: bool) -> String {
    if !st.wild {
        return if min { " ".into() } else { String::new() };
    }
    let mut s = String::new();
    let n = rng.below(3) + usize::from(min);
    for _ in 0..n {
        s += *rng.pick::<&str>(&[" ", " ", " ", "\t", "\n", "\u{a0}", "\u{3000}", "\r\n", "\u{b}"]);
    }
    s
}

// Write a comment; every line starts with `#`. Words are never split, lines never empty except as
// paragraph separators.
pub fn comment_text(rng: &mut Rng, c: &Comment, st: &Style, indent: &str) -> String {
    let mut s = String::new();
    let mut lines: Vec<String> = vec![];
    for (i, para) in c.iter().enumerate() {
        if i > 0 {
            let n = if st.wild { rng.range(1, 2) } else { 1 };
            for _ in 0..n {
                lines.push(String::new());
            }
        }
        let mut line = String::new();
        let rule = |w: &str| w.chars().all(|c| c.is_ascii_punctuation());
        for (j, w) in para.iter().enumerate() {
            if j > 0 {
                if st.wild && (rng.chance(1, 5) || (rule(w) || rule(&para[j - 1])) && rng.chance(3, 4)) {
                    lines.push(std::mem::take(&mut line));
                } else {
                    line.push(' ');
                }
            }
            line += w;
        }
        lines.push(line);
    }
    if st.wild && rng.chance(1, 10) {
        lines.insert(0, String::new());
    }
    if st.wild && rng.chance(1, 10) {
        lines.push(String::new());
    }
    for l in lines {
        let ind = if st.wild && rng.chance(1, 6) { "\t " } else { indent };
        let lead = if st.wild { *rng.pick(&["", " ", "  ", "\t"]) } else { " " };
        let trail = if st.wild { *rng.pick(&["", "", "", " ", "\t "]) } else { "" };
        if l.is_empty() {
            s += &format!("{ind}#{trail}\n");
        } else {
            s += &format!("{ind}#{lead}{l}{trail}\n");
        }
    }
    s
}

pub fn print_file(rng: &mut Rng, p: &Program, fi: usize, st: &Style) -> String {
    let f = &p.files[fi];
    let mut s = String::new();
    let comments = st.comments;
    if comments && !f.comment.is_empty() {
        s += &comment_text(rng, &f.comment, st, "");
        s.push('\n');
        if st.wild && rng.chance(1, 3) {
            s.push('\n');
        }
    } else if st.wild && rng.chance(1, 3) && !comments {
        s += &ws(rng, st, true);
    }
    let mut ims: Vec<&Import> = f.imports.iter().collect();
    if st.wild {
        rng.shuffle(&mut ims);
    }
    for im in ims {
        let st1 = ws(rng, st, false);
        s += &format!("import{st1}");
        if st1.is_empty() {
            s.push(' ');
        }
        s += &format!("'{}'", im.path);
        let explicit = match &im.alias {
            Some(a) => Some(a.clone()),
            // Redundant alias.
            None if st.wild && usable_stem(&stem(&im.path)) && rng.chance(1, 4) => Some(snake(&stem(&im.path))),
            None => None,
        };
        if let Some(a) = explicit {
            let a = sigil(&if st.wild { respell(rng, &a) } else { snake(&a) });
            s += &format!("{}as {}{}", ws(rng, st, true), a, ws(rng, st, true));
        }
        s.push('\n');
    }
    for (k, d) in f.decls.iter().enumerate() {
        if k > 0 || !f.imports.is_empty() {
            if !(st.wild && rng.chance(1, 4)) {
                s.push('\n');
            }
        }
        let first_bare = k == 0 && f.imports.is_empty() && (f.comment.is_empty() || !comments);
        if comments && !d.comment.is_empty() {
            // The first comment of a file attaches to the declaration only if it is directly
            // followed by it.
            let text = comment_text(rng, &d.comment, st, "");
            s += &text;
            if !first_bare && st.wild && rng.chance(1, 3) {
                s += &ws(rng, st, true);
            }
        }
        let kw = if d.kind == Kind::Struct { "struct" } else { "choice" };
        let n = sigil(&if st.wild { respell(rng, &d.name) } else { pascal_spelling(&d.name) });
        s += &format!("{kw} {}{n}{}{{\n", ws(rng, st, false), ws(rng, st, true));
        for x in &d.fields {
            if comments && !x.comment.is_empty() {
                s += &comment_text(rng, &x.comment, st, "    ");
                if st.wild && rng.chance(1, 4) {
                    s.push('\n');
                }
            }
            s += "    ";
            match x.rule {
                Rule::Req => {}
                Rule::Asym => s += "asymmetric ",
                Rule::Opt => s += "optional ",
            }
            s += &ws(rng, st, false);
            s += &sigil(&if st.wild { respell(rng, &x.name) } else { snake(&x.name) });
            s += &ws(rng, st, false);
            if x.ty != Ty::Unit || (st.wild && rng.chance(1, 2)) {
                s += &format!(":{}{}", ws(rng, st, false), ty_text(rng, p, fi, &x.ty, st));
            }
            let zeros = if st.wild && rng.chance(1, 10) { "0" } else { "" };
            s += &format!("{}={}{zeros}{}", ws(rng, st, true), ws(rng, st, true), x.index);
            s += if st.wild && rng.chance(1, 4) { " " } else { "\n" };
        }
        if !d.deleted.is_empty() {
            let mut del: Vec<u64> = d.deleted.iter().copied().collect();
            if st.wild {
                rng.shuffle(&mut del);
            }
            s += "    deleted";
            for i in del {
                s += &format!(" {i}");
            }
            s.push('\n');
        } else if st.wild && rng.chance(1, 8) {
            s += " deleted\n";
        }
        s += "}\n";
    }
    if st.crlf {
        s = s.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    s
}

pub fn write_program(rng: &mut Rng, p: &Program, st: &Style, root: &std::path::Path) -> Vec<String> {
    let mut v = vec![];
    for i in 0..p.files.len() {
        let t = print_file(rng, p, i, st);
        crate::util::write_file(&root.join(p.files[i].path()), t.as_bytes());
        v.push(t);
    }
    v
}
