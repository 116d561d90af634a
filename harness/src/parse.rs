// Reference front end: an independent tokenizer and recursive-descent parser for schema files,
// written from the README's description of the language.
use crate::model::{Comment, Kind, Program, Rule, Ty};
use crate::names::snake;
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Span {
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Punct(char),
    Word(String), // a keyword
    Name(String), // an identifier, without sigil
    Int(u64),
    Path(String),
    Comment(Comment),
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub at: Span,
}

// A problem and where it is.
#[derive(Clone, Debug)]
pub struct Problem {
    pub what: &'static str,
    pub at: Span,
}

const KEYWORDS: &[&str] = &[
    "as", "asymmetric", "Bool", "Bytes", "choice", "deleted", "F64", "import", "optional", "S64", "String", "struct",
    "U64", "Unit",
];

pub fn lex(s: &str) -> (Vec<Tok>, Vec<Problem>) {
    let cs: Vec<(usize, char)> = s.char_indices().collect();
    let pos = |k: usize| cs.get(k).map_or(s.len(), |x| x.0);
    let mut toks = vec![];
    let mut bad = vec![];
    let mut k = 0;
    while k < cs.len() {
        let (i, c) = cs[k];
        let from = k;
        k += 1;
        if c.is_whitespace() {
            continue;
        }
        if ":.={}[]".contains(c) {
            toks.push(Tok { t: T::Punct(c), at: Span { start: i, end: pos(k) } });
        } else if c.is_alphabetic() || c == '_' || c == '$' {
            while k < cs.len() && (cs[k].1.is_alphanumeric() || cs[k].1 == '_') {
                k += 1;
            }
            let at = Span { start: i, end: pos(k) };
            let text = &s[at.start..at.end];
            if KEYWORDS.contains(&text) {
                toks.push(Tok { t: T::Word(text.to_owned()), at });
                continue;
            }
            let name = text.strip_prefix('$').unwrap_or(text);
            let first = name.chars().next();
            if !first.is_some_and(|c| c.is_alphabetic() && !c.is_numeric()) {
                bad.push(Problem { what: "identifier", at });
            }
            toks.push(Tok { t: T::Name(name.to_owned()), at });
        } else if c.is_ascii_digit() {
            while k < cs.len() && cs[k].1.is_ascii_digit() {
                k += 1;
            }
            let at = Span { start: i, end: pos(k) };
            match s[at.start..at.end].parse::<u64>() {
                Ok(n) => toks.push(Tok { t: T::Int(n), at }),
                Err(_) => bad.push(Problem { what: "integer", at }),
            }
        } else if c == '\'' {
            while k < cs.len() && cs[k].1 != '\'' {
                k += 1;
            }
            if k == cs.len() {
                bad.push(Problem { what: "path", at: Span { start: i, end: i + 1 } });
            } else {
                toks.push(Tok { t: T::Path(s[i + 1..pos(k)].to_owned()), at: Span { start: i, end: pos(k + 1) } });
                k += 1;
            }
        } else if c == '#' {
            // A run of lines that all begin with `#`.
            let mut lines: Vec<String> = vec![];
            let mut line_start = k;
            let mut line_end;
            loop {
                line_end = line_start;
                while line_end < cs.len() && cs[line_end].1 != '\n' {
                    line_end += 1;
                }
                lines.push(s[pos(line_start)..pos(line_end)].to_owned());
                k = (line_end + 1).min(cs.len());
                let mut j = k;
                while j < cs.len() && cs[j].1.is_whitespace() && cs[j].1 != '\n' {
                    j += 1;
                }
                if line_end < cs.len() && j < cs.len() && cs[j].1 == '#' {
                    line_start = j + 1;
                } else {
                    break;
                }
            }
            let mut paras: Comment = vec![];
            let mut cur: Vec<String> = vec![];
            for l in lines {
                let ws: Vec<String> = l.split_whitespace().map(str::to_owned).collect();
                if ws.is_empty() {
                    if !cur.is_empty() {
                        paras.push(std::mem::take(&mut cur));
                    }
                } else {
                    cur.extend(ws);
                }
            }
            if !cur.is_empty() {
                paras.push(cur);
            }
            toks.push(Tok { t: T::Comment(paras), at: Span { start: i, end: pos(line_end) } });
        } else {
            let _ = from;
            bad.push(Problem { what: "symbol", at: Span { start: i, end: pos(k) } });
        }
    }
    (toks, bad)
}

#[derive(Clone, Debug, PartialEq)]
pub enum PT {
    Base(Ty),
    Arr(Box<PTy>),
    Ref(Option<String>, String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct PTy {
    pub t: PT,
    pub at: Span,
}

#[derive(Clone, Debug)]
pub struct PField {
    pub name: String,
    pub rule: Rule,
    pub ty: PTy,
    pub index: u64,
    pub comment: Comment,
    pub at: Span,
}

#[derive(Clone, Debug)]
pub struct PDecl {
    pub kind: Kind,
    pub name: String,
    pub fields: Vec<PField>,
    pub deleted: Vec<(u64, Span)>,
    pub comment: Comment,
    pub at: Span,
}

#[derive(Clone, Debug)]
pub struct PImport {
    pub path: String,
    pub alias: Option<String>,
    pub name: String,
    pub at: Span,
}

#[derive(Clone, Debug, Default)]
pub struct PFile {
    pub comment: Comment,
    pub imports: Vec<PImport>,
    pub decls: Vec<PDecl>,
}

struct P<'a> {
    toks: &'a [Tok],
    k: usize,
}

type R<X> = Result<X, Problem>;

impl P<'_> {
    fn peek(&self) -> Option<&T> {
        self.toks.get(self.k).map(|t| &t.t)
    }
    fn here(&self) -> Span {
        match self.toks.get(self.k) {
            Some(t) => t.at,
            None => {
                let e = self.toks.last().map_or(0, |t| t.at.end);
                Span { start: e, end: e }
            }
        }
    }
    fn from(&self, k0: usize) -> Span {
        Span { start: self.toks[k0].at.start, end: self.toks[self.k - 1].at.end }
    }
    fn fail<X>(&self, what: &'static str) -> R<X> {
        Err(Problem { what, at: self.here() })
    }
    fn is_word(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::Word(x)) if x == w)
    }
    fn is_punct(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::Punct(x)) if *x == c)
    }
    fn punct(&mut self, c: char) -> R<()> {
        if self.is_punct(c) {
            self.k += 1;
            Ok(())
        } else {
            self.fail("syntax")
        }
    }
    fn name(&mut self) -> R<String> {
        if let Some(T::Name(n)) = self.peek() {
            let n = n.clone();
            self.k += 1;
            Ok(n)
        } else {
            self.fail("syntax")
        }
    }
    fn comment(&mut self) -> Comment {
        if let Some(T::Comment(c)) = self.peek() {
            let c = c.clone();
            self.k += 1;
            c
        } else {
            vec![]
        }
    }
    fn ty(&mut self) -> R<PTy> {
        let k0 = self.k;
        let t = match self.peek().cloned() {
            Some(T::Punct('[')) => {
                self.k += 1;
                let i = self.ty()?;
                self.punct(']')?;
                PT::Arr(Box::new(i))
            }
            Some(T::Word(w)) => {
                let t = match w.as_str() {
                    "Bool" => Ty::Bool,
                    "Bytes" => Ty::Bytes,
                    "F64" => Ty::F64,
                    "S64" => Ty::S64,
                    "String" => Ty::Str,
                    "U64" => Ty::U64,
                    "Unit" => Ty::Unit,
                    _ => return self.fail("syntax"),
                };
                self.k += 1;
                PT::Base(t)
            }
            Some(T::Name(n)) => {
                self.k += 1;
                if self.is_punct('.') {
                    self.k += 1;
                    let m = self.name()?;
                    PT::Ref(Some(n), m)
                } else {
                    PT::Ref(None, n)
                }
            }
            _ => return self.fail("syntax"),
        };
        Ok(PTy { t, at: self.from(k0) })
    }
    fn field(&mut self) -> R<PField> {
        let k0 = self.k;
        let comment = self.comment();
        let rule = if self.is_word("asymmetric") {
            Rule::Asym
        } else if self.is_word("optional") {
            Rule::Opt
        } else {
            Rule::Req
        };
        if rule != Rule::Req {
            self.k += 1;
        }
        let name = self.name()?;
        let ty = if self.is_punct(':') {
            self.k += 1;
            self.ty()?
        } else {
            PTy { t: PT::Base(Ty::Unit), at: self.here() }
        };
        self.punct('=')?;
        let Some(T::Int(index)) = self.peek() else { return self.fail("syntax") };
        let index = *index;
        self.k += 1;
        Ok(PField { name, rule, ty, index, comment, at: self.from(k0) })
    }
    fn decl(&mut self, soft: &mut Vec<Problem>) -> R<PDecl> {
        let k0 = self.k;
        let comment = self.comment();
        let kind = if self.is_word("struct") {
            Kind::Struct
        } else if self.is_word("choice") {
            Kind::Choice
        } else {
            return self.fail("syntax");
        };
        self.k += 1;
        let name = self.name()?;
        self.punct('{')?;
        let mut fields = vec![];
        while self.peek().is_some() && !self.is_punct('}') && !self.is_word("deleted") {
            fields.push(self.field()?);
        }
        let mut deleted: Vec<(u64, Span)> = vec![];
        if self.is_word("deleted") {
            self.k += 1;
            while let Some(T::Int(n)) = self.peek() {
                let n = *n;
                if deleted.iter().any(|d| d.0 == n) {
                    soft.push(Problem { what: "duplicate deleted index", at: self.here() });
                }
                deleted.push((n, self.here()));
                self.k += 1;
            }
        }
        self.punct('}')?;
        Ok(PDecl { kind, name, fields, deleted, comment, at: self.from(k0) })
    }
    fn import(&mut self) -> R<PImport> {
        let k0 = self.k;
        self.k += 1;
        let Some(T::Path(p)) = self.peek() else { return self.fail("syntax") };
        let path = p.clone();
        self.k += 1;
        let mut alias = None;
        if self.is_word("as") {
            self.k += 1;
            alias = Some(self.name()?);
        }
        let name = match &alias {
            Some(a) => a.clone(),
            None => match std::path::Path::new(&path).file_stem() {
                Some(s) => s.to_string_lossy().into_owned(),
                None => return Err(Problem { what: "import without a name", at: self.from(k0) }),
            },
        };
        Ok(PImport { path, alias, name, at: self.from(k0) })
    }
}

pub struct Parsed {
    pub file: PFile,         // as far as it was understood
    pub soft: Vec<Problem>,  // repeated import names, repeated deleted indices
    pub hard: Option<Problem>, // the first syntax error
}

pub fn parse(toks: &[Tok]) -> Parsed {
    let mut p = P { toks, k: 0 };
    let mut r = Parsed { file: PFile::default(), soft: vec![], hard: None };
    // A comment at the beginning belongs to the file unless a declaration directly follows.
    if let Some(Tok { t: T::Comment(_), at }) = toks.first() {
        let belongs_to_decl = toks.get(1).is_some_and(|n| {
            matches!(&n.t, T::Word(w) if w == "struct" || w == "choice") && n.at.start <= at.end + 1
        });
        if !belongs_to_decl {
            r.file.comment = p.comment();
        }
    }
    let mut names: BTreeSet<String> = BTreeSet::new();
    while p.is_word("import") {
        match p.import() {
            Ok(i) => {
                if !names.insert(snake(&i.name)) {
                    r.soft.push(Problem { what: "duplicate import", at: i.at });
                }
                r.file.imports.push(i);
            }
            Err(e) => {
                r.hard = Some(e);
                return r;
            }
        }
    }
    while p.peek().is_some() {
        match p.decl(&mut r.soft) {
            Ok(d) => r.file.decls.push(d),
            Err(e) => {
                r.hard = Some(e);
                return r;
            }
        }
    }
    r
}

pub enum Verdict {
    Ok(PFile),
    Lexical(Vec<Problem>),
    Syntax(Parsed),
}

pub fn read(s: &str) -> Verdict {
    let (toks, bad) = lex(s);
    if !bad.is_empty() {
        return Verdict::Lexical(bad);
    }
    let r = parse(&toks);
    if r.hard.is_some() || !r.soft.is_empty() {
        Verdict::Syntax(r)
    } else {
        Verdict::Ok(r.file)
    }
}

// Does the text say what the model says? None if so.
pub fn compare(p: &Program, fi: usize, text: &str, comments: bool) -> Option<String> {
    let f = &p.files[fi];
    let q = match read(text) {
        Verdict::Ok(q) => q,
        Verdict::Lexical(b) => return Some(format!("not a schema: {b:?}")),
        Verdict::Syntax(r) => return Some(format!("not a schema: {:?} {:?}", r.hard, r.soft)),
    };
    if comments && q.comment != f.comment {
        return Some(format!("comment of the file: {:?}, not {:?}", q.comment, f.comment));
    }
    let mut a: Vec<(String, String)> = q.imports.iter().map(|i| (snake(&i.name), i.path.clone())).collect();
    let mut b: Vec<(String, String)> = f.imports.iter().map(|i| (snake(&i.name()), i.path.clone())).collect();
    a.sort();
    b.sort();
    if a != b {
        return Some(format!("imports: {a:?}, not {b:?}"));
    }
    if q.decls.len() != f.decls.len() {
        return Some(format!("{} declarations, not {}", q.decls.len(), f.decls.len()));
    }
    for (x, y) in q.decls.iter().zip(&f.decls) {
        let w = format!("declaration {}", y.name);
        if x.kind != y.kind || snake(&x.name) != snake(&y.name) {
            return Some(format!("{w}: {:?} {}", x.kind, x.name));
        }
        if comments && x.comment != y.comment {
            return Some(format!("comment of {w}: {:?}, not {:?}", x.comment, y.comment));
        }
        let d: BTreeSet<u64> = x.deleted.iter().map(|d| d.0).collect();
        if d != y.deleted {
            return Some(format!("{w}: deleted {d:?}, not {:?}", y.deleted));
        }
        if x.fields.len() != y.fields.len() {
            return Some(format!("{w}: {} fields, not {}", x.fields.len(), y.fields.len()));
        }
        for (s, t) in x.fields.iter().zip(&y.fields) {
            let w = format!("{w} field {}", t.name);
            if snake(&s.name) != snake(&t.name) || s.rule != t.rule || s.index != t.index {
                return Some(format!("{w}: {:?} {} = {}", s.rule, s.name, s.index));
            }
            if !same_type(p, fi, &q, &s.ty, &t.ty) {
                return Some(format!("{w}: type {:?}, not {:?}", s.ty, t.ty));
            }
            if comments && s.comment != t.comment {
                return Some(format!("comment of {w}: {:?}, not {:?}", s.comment, t.comment));
            }
        }
    }
    None
}

fn same_type(p: &Program, fi: usize, q: &PFile, a: &PTy, b: &Ty) -> bool {
    match (&a.t, b) {
        (PT::Arr(x), Ty::Arr(y)) => same_type(p, fi, q, x, y),
        (PT::Base(x), y) => x == y,
        (PT::Ref(None, n), Ty::Ref(f, d)) => *f == fi && snake(n) == snake(&p.files[*f].decls[*d].name),
        (PT::Ref(Some(m), n), Ty::Ref(f, d)) => {
            snake(n) == snake(&p.files[*f].decls[*d].name)
                && p.files[fi].imports.iter().any(|i| snake(&i.name()) == snake(m) && i.target == *f)
        }
        _ => false,
    }
}
