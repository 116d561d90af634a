// Reference semantics of loading and validation over a directory of plain files: which problems a
// set of schema files has, and where.
use crate::names::{pascal, snake};
use crate::parse::{self, PFile, PTy, Problem, Span, Verdict, PT};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Entry {
    pub file: String,
    pub span: Span,
    pub what: &'static str,
}

#[derive(Debug, Default)]
pub struct Outcome {
    pub must: Vec<Entry>,                  // one report each
    pub repeat: Vec<Entry>,                // more reports than one of these are no surprise
    pub any: Vec<Vec<Entry>>,              // at least one report of each group
    pub lenient: BTreeMap<String, usize>,  // files with syntax errors, and where the first is
    pub cycle: bool,
    pub main_unreadable: bool,
    pub loading_ok: bool,
    pub vague: bool, // files in conflict: what else is reported depends on which is loaded
    pub loaded: BTreeMap<String, PFile>,
    // What each import refers to.
    pub targets: BTreeMap<(String, String), String>,
}

impl Outcome {
    pub fn ok(&self) -> bool {
        self.must.is_empty() && self.any.is_empty() && !self.cycle && !self.main_unreadable
    }
    // Does everything load, whether or not it is valid?
    pub fn loads(&self) -> bool {
        self.loading_ok
    }
    pub fn lexical_or_syntactic(&self) -> bool {
        !self.lenient.is_empty()
            || self.must.iter().any(|e| ["identifier", "integer", "path", "symbol"].contains(&e.what))
    }
    pub fn kinds(&self) -> BTreeSet<&'static str> {
        let mut s: BTreeSet<&'static str> = self.must.iter().map(|e| e.what).collect();
        s.extend(self.any.iter().flat_map(|g| g.iter().map(|e| e.what)));
        if self.cycle {
            s.insert("cycle");
        }
        if self.main_unreadable {
            s.insert("main unreadable");
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    File(String),
    Dir(String),
}

// Where a path leads from a file in the directory `root` (absolute, canonical); None if nowhere or
// out of the directory.
pub fn resolve(files: &BTreeMap<String, Vec<u8>>, root: &str, from: &str, path: &str) -> Option<Node> {
    if path.contains('\0') {
        return None;
    }
    let rootc: Vec<&str> = root.split('/').filter(|c| !c.is_empty()).collect();
    let mut cur: Vec<&str> = vec![];
    if !path.starts_with('/') {
        cur = rootc.clone();
        let mut d: Vec<&str> = from.split('/').collect();
        d.pop();
        cur.extend(d);
    }
    let kind = |cur: &Vec<&str>| -> Option<Node> {
        if cur.len() <= rootc.len() {
            return if cur[..] == rootc[..cur.len()] { Some(Node::Dir(String::new())) } else { None };
        }
        if cur[..rootc.len()] != rootc[..] {
            return None;
        }
        let rel = cur[rootc.len()..].join("/");
        if files.contains_key(&rel) {
            Some(Node::File(rel))
        } else if files.keys().any(|k| k.starts_with(&format!("{rel}/"))) {
            Some(Node::Dir(rel))
        } else {
            None
        }
    };
    let comps: Vec<&str> = path.split('/').collect();
    for (i, c) in comps.iter().enumerate() {
        // A trailing slash or anything else after a file name is an error.
        if !(path.is_empty() || (i == 0 && c.is_empty())) {
            match kind(&cur)? {
                Node::Dir(_) => {}
                Node::File(_) => return None,
            }
        }
        match *c {
            "" | "." => {}
            ".." => {
                cur.pop();
            }
            x => cur.push(x),
        }
    }
    let n = kind(&cur)?;
    if cur.len() < rootc.len() {
        return None;
    }
    Some(n)
}

pub fn ns_key(path: &str) -> Vec<String> {
    if path.is_empty() {
        return vec![];
    }
    let mut v: Vec<String> = path.split('/').map(str::to_owned).collect();
    let last = v.pop().unwrap();
    v.push(crate::model::stem(&last));
    v.iter().map(|c| pascal(c)).collect()
}

fn entry(file: &str, p: &Problem) -> Entry {
    Entry { file: file.to_owned(), span: p.at, what: p.what }
}

pub fn analyze(files: &BTreeMap<String, Vec<u8>>, root: &str, main: &str) -> Outcome {
    let mut o = Outcome::default();
    let mut visited: BTreeMap<Vec<String>, BTreeSet<String>> = BTreeMap::new();
    let mut sites: BTreeMap<String, Vec<Entry>> = BTreeMap::new();
    let mut todo = vec![main.to_owned()];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    seen.insert(main.to_owned());
    visited.entry(ns_key(main)).or_default().insert(main.to_owned());
    while let Some(f) = todo.pop() {
        let text = match files.get(&f).map(|b| std::str::from_utf8(b)) {
            Some(Ok(t)) => t,
            _ => {
                if f == main {
                    o.main_unreadable = true;
                }
                continue; // see below
            }
        };
        match parse::read(text) {
            Verdict::Lexical(b) => o.must.extend(b.iter().map(|p| entry(&f, p))),
            Verdict::Syntax(r) => {
                o.must.extend(r.soft.iter().map(|p| entry(&f, p)));
                if let Some(h) = &r.hard {
                    o.must.push(entry(&f, h));
                    o.lenient.insert(f.clone(), h.at.start);
                }
            }
            Verdict::Ok(q) => {
                for i in &q.imports {
                    let site = Entry { file: f.clone(), span: i.at, what: "import" };
                    match resolve(files, root, &f, &i.path) {
                        None => o.must.push(site),
                        Some(n) => {
                            let t = match &n {
                                Node::File(t) | Node::Dir(t) => t.clone(),
                            };
                            sites.entry(t.clone()).or_default().push(site);
                            visited.entry(ns_key(&t)).or_default().insert(t.clone());
                            o.targets.insert((f.clone(), snake(&i.name)), t.clone());
                            if seen.insert(t.clone()) {
                                todo.push(t);
                            }
                        }
                    }
                }
                o.loaded.insert(f.clone(), q);
            }
        }
    }
    for f in &seen {
        if f != main && !files.get(f).is_some_and(|b| std::str::from_utf8(b).is_ok()) {
            // Unreadable: reported at one of the places that import it.
            o.any.push(sites[f].iter().map(|e| Entry { what: "unreadable import", ..e.clone() }).collect());
        }
    }
    for group in visited.values() {
        if group.len() > 1 {
            o.vague = true;
            o.any.push(
                group
                    .iter()
                    .flat_map(|f| sites.get(f).cloned().unwrap_or_default())
                    .map(|e| Entry { what: "conflict", ..e })
                    .collect(),
            );
        }
    }
    if !o.ok() {
        return o;
    }
    // Everything could be loaded.
    o.loading_ok = true;
    let has = |f: &str, n: &str| o.loaded[f].decls.iter().any(|d| snake(&d.name) == snake(n));
    let mut must = vec![];
    let mut repeat = vec![];
    let mut any: Vec<Vec<Entry>> = vec![];
    for (f, q) in &o.loaded {
        let mut names = BTreeSet::new();
        for d in &q.decls {
            if d.fields.iter().any(|x| d.deleted.iter().any(|y| y.0 == x.index)) {
                // The number of indices is overestimated.
                repeat.push(Entry { file: f.clone(), span: d.at, what: "gap" });
            }
            let at = |span: Span, what: &'static str| Entry { file: f.clone(), span, what };
            if !names.insert(pascal(&d.name)) {
                must.push(at(d.at, "duplicate declaration"));
            }
            let mut fields = BTreeSet::new();
            let mut indices = BTreeSet::new();
            let deleted: BTreeSet<u64> = d.deleted.iter().map(|x| x.0).collect();
            for x in &d.fields {
                if !fields.insert(pascal(&x.name)) {
                    must.push(at(x.at, "duplicate field"));
                }
                if !indices.insert(x.index) {
                    must.push(at(x.at, "duplicate index"));
                }
                if deleted.contains(&x.index) {
                    must.push(at(x.at, "deleted index"));
                }
                if x.index >= 1 << 62 {
                    must.push(at(x.at, "large index"));
                }
                check_type(&o, f, &x.ty, &mut must, &has);
            }
            let all: BTreeSet<u64> = indices.union(&deleted).copied().collect();
            if all.iter().enumerate().any(|(i, x)| i as u64 != *x) {
                any.push(vec![at(d.at, "gap")]);
            }
        }
    }
    o.repeat = repeat;
    o.must = must;
    o.any = any;
    if o.ok() {
        o.cycle = find_cycle(&o);
    }
    o
}

fn target(o: &Outcome, f: &str, import: &Option<String>) -> Option<String> {
    match import {
        None => Some(f.to_owned()),
        Some(i) => o.targets.get(&(f.to_owned(), snake(i))).cloned(),
    }
}

fn check_type(o: &Outcome, f: &str, t: &PTy, must: &mut Vec<Entry>, has: &dyn Fn(&str, &str) -> bool) {
    match &t.t {
        PT::Arr(i) => check_type(o, f, i, must, has),
        PT::Base(_) => {}
        PT::Ref(i, n) => {
            let ok = target(o, f, i).is_some_and(|g| has(&g, n));
            if !ok {
                must.push(Entry { file: f.to_owned(), span: t.at, what: "missing type" });
            }
        }
    }
}

// The types a declaration contains, as (file, snake-case name).
pub fn contents(o: &Outcome, f: &str, name: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for d in o.loaded[f].decls.iter().filter(|d| snake(&d.name) == name) {
        for x in &d.fields {
            let mut t = &x.ty;
            while let PT::Arr(i) = &t.t {
                t = i;
            }
            if let PT::Ref(i, n) = &t.t {
                if let Some(g) = target(o, f, i) {
                    v.push((g, snake(n)));
                }
            }
        }
    }
    v
}

fn find_cycle(o: &Outcome) -> bool {
    // Remove types without successors until nothing changes; what remains is or leads to a cycle.
    let mut left: BTreeMap<(String, String), Vec<(String, String)>> = BTreeMap::new();
    for (f, q) in &o.loaded {
        for d in &q.decls {
            let n = snake(&d.name);
            left.insert((f.clone(), n.clone()), contents(o, f, &n));
        }
    }
    loop {
        let gone: Vec<(String, String)> = left
            .iter()
            .filter(|(_, v)| v.iter().all(|x| !left.contains_key(x)))
            .map(|(k, _)| k.clone())
            .collect();
        if gone.is_empty() {
            return !left.is_empty();
        }
        for g in gone {
            left.remove(&g);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Reports of the compiler

#[derive(Clone, Debug)]
pub struct Reported {
    pub file: Option<String>,
    pub message: String,
    pub lines: Vec<(usize, String, Option<(usize, usize)>)>, // number, text, highlighted columns
}

// The entries of a report, from the standard error stream.
pub fn read_report(s: &str) -> Result<Vec<Reported>, String> {
    let mut out: Vec<Reported> = vec![];
    for l in s.split('\n') {
        if let Some(rest) = l.strip_prefix("[Error] ") {
            let (file, message) = match rest.strip_prefix("[`") {
                Some(r) => match r.split_once("`] ") {
                    Some((f, m)) => (Some(f.to_owned()), m.to_owned()),
                    None => return Err(format!("odd entry: {l}")),
                },
                None => (None, rest.to_owned()),
            };
            out.push(Reported { file, message, lines: vec![] });
            continue;
        }
        let Some(e) = out.last_mut() else { continue };
        let t = l.trim_start_matches(' ');
        let digits: String = t.chars().take_while(char::is_ascii_digit).collect();
        if !digits.is_empty() {
            let rest = &t[digits.len()..];
            if let Some(text) = rest.strip_prefix(" │ ").or(if rest == " │" { Some("") } else { None }) {
                e.lines.push((digits.parse().map_err(|_| l.to_owned())?, text.to_owned(), None));
                continue;
            }
        }
        if let Some(last) = e.lines.last_mut() {
            if l.contains('\u{203e}') && l.chars().all(|c| matches!(c, ' ' | '\u{203e}' | '\u{250a}')) {
                // Line up with the text above: gutter, space, bar, space.
                let gutter = e_gutter(last.0, l);
                let cs: Vec<char> = l.chars().collect();
                let a = cs.iter().position(|c| *c == '\u{203e}').unwrap();
                let b = cs.len();
                if a < gutter || cs[a..].iter().any(|c| *c != '\u{203e}') {
                    return Err(format!("odd underline: {l:?}"));
                }
                last.2 = Some((a, b));
            }
        }
    }
    // Columns are relative to the text, which begins after the widest number and " │ ".
    for e in &mut out {
        let w = e.lines.iter().map(|l| l.0.to_string().len()).max().unwrap_or(0) + 3;
        for l in &mut e.lines {
            if let Some((a, b)) = &mut l.2 {
                if *a < w {
                    return Err(format!("misplaced underline in {:?}", e.message));
                }
                *a -= w;
                *b -= w;
            }
        }
    }
    Ok(out)
}

// What a coloured report would look like without colours: code in backticks, highlighted parts underlined.
pub fn without_colors(s: &str) -> Result<String, String> {
    let s = s.replace("\u{1b}[35m[\u{1b}[35m", "[\u{1b}[35m").replace("\u{1b}[0m\u{1b}[35m]\u{1b}[0m", "\u{1b}[0m]");
    let mut out = String::new();
    let mut open = String::new();
    let mut column = 0;
    let mut red = None;
    let mut rest = &s[..];
    while let Some(c) = rest.chars().next() {
        if c == '\u{1b}' {
            let end = rest.find('m').ok_or("an unterminated escape sequence")?;
            let code = rest.get(2..end).ok_or("an odd escape sequence")?;
            match code {
                "0" => {
                    match &open[..] {
                        "35" => {
                            out.push('`');
                            column += 1;
                        }
                        "31" => red = red.map(|(a, _)| (a, column)),
                        "" => return Err("a color ends twice".to_owned()),
                        _ => {}
                    }
                    open.clear();
                }
                "31" | "35" | "1;31" | "1;34" => {
                    if !open.is_empty() {
                        return Err(format!("color {code} in color {open}"));
                    }
                    if code == "35" {
                        out.push('`');
                        column += 1;
                    } else if code == "31" {
                        if red.is_some() {
                            return Err("two highlighted parts in a line".to_owned());
                        }
                        red = Some((column, column));
                    }
                    open = code.to_owned();
                }
                _ => return Err(format!("color {code}")),
            }
            rest = &rest[end + 1..];
            continue;
        }
        out.push(c);
        column += 1;
        rest = &rest[c.len_utf8()..];
        if c == '\n' {
            underline(&mut out, red.take());
            column = 0;
        }
    }
    if red.is_some() {
        out.push('\n');
        underline(&mut out, red);
    }
    Ok(out)
}

fn underline(out: &mut String, red: Option<(usize, usize)>) {
    if let Some((a, b)) = red {
        if a < b {
            out.push_str(&" ".repeat(a));
            out.push_str(&"\u{203e}".repeat(b - a));
            out.push('\n');
        }
    }
}

fn e_gutter(n: usize, _l: &str) -> usize {
    n.to_string().len() + 3
}

// What a report on a span of a text must show.
pub fn listing(text: &str, span: Span) -> Vec<(usize, String, Option<(usize, usize)>)> {
    let mut v = vec![];
    let mut start = 0;
    for (i, line) in text.split('\n').enumerate() {
        let next = start + line.len() + 1;
        if start < span.end && next > span.start {
            let t = line.trim_end();
            let a = if span.start > start {
                (span.start - start).min(t.len())
            } else {
                t.find(|c: char| !c.is_whitespace()).unwrap_or(t.len())
            };
            let b = (span.end - start).min(t.len());
            let cols = if a < b { Some((t[..a].chars().count(), t[..b].chars().count())) } else { None };
            v.push((i + 1, t.to_owned(), cols));
        }
        start = next;
    }
    v
}
