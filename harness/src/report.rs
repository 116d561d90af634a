// Verdicts, evidence, known findings.
use crate::util::{fnv, Json};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    fs,
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub level: &'static str,
    pub rule: String,
    pub root: PathBuf,
    start: Instant,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<BTreeMap<u64, String>>,
    violations: Mutex<Vec<(String, String)>>,
    inconclusive: Mutex<Vec<String>>,
    open: BTreeMap<String, String>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    pub assumptions: Mutex<Vec<String>>,
}

impl Report {
    pub fn new(prop: &str, tier: &str, seed: u64, root: &Path) -> Report {
        let mut open = BTreeMap::new();
        if let Ok(s) = fs::read_to_string(root.join("known_findings.txt")) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix("open: ") {
                    let mut it = rest.splitn(3, ' ');
                    let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
                    let id = it.next().unwrap_or("").strip_prefix("id=").unwrap_or("");
                    let what = it.next().unwrap_or("");
                    if p == prop {
                        open.insert(id.to_owned(), what.to_owned());
                    }
                }
            }
        }
        let dir = root.join("replay").join(prop);
        let _ = fs::remove_dir_all(&dir);
        Report {
            prop: prop.to_owned(),
            tier: tier.to_owned(),
            seed,
            level: "exploration",
            rule: String::new(),
            root: root.to_owned(),
            start: Instant::now(),
            evals: AtomicU64::new(0),
            distinct: Mutex::default(),
            counters: Mutex::default(),
            samples: Mutex::default(),
            violations: Mutex::default(),
            inconclusive: Mutex::default(),
            open,
            known_hit: Mutex::default(),
            assumptions: Mutex::default(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    // Scale a number of cases by tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let base = if self.thorough() { thorough } else { quick };
        match std::env::var("VH_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            Some(f) => ((base as f64 * f) as usize).max(1),
            None => base,
        }
    }
    pub fn eval(&self) {
        self.evals.fetch_add(1, Ordering::Relaxed);
    }
    pub fn evals(&self) -> u64 {
        self.evals.load(Ordering::Relaxed)
    }
    // Note a non-trivial case, identified by its contents.
    pub fn distinct(&self, id: &[u8]) {
        self.distinct.lock().unwrap().insert(fnv(id));
    }
    pub fn count(&self, key: &str, n: u64) {
        *self.counters.lock().unwrap().entry(key.to_owned()).or_insert(0) += n;
    }
    pub fn counter(&self, key: &str) -> u64 {
        self.counters.lock().unwrap().get(key).copied().unwrap_or(0)
    }
    pub fn sample(&self, i: u64, s: impl FnOnce() -> String) {
        if i < 3 {
            let mut t = s();
            if t.len() > 3000 {
                let mut k = 3000;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push('…');
            }
            self.samples.lock().unwrap().entry(i).or_insert(t);
        }
    }
    pub fn violation(&self, title: &str, detail: String, files: Vec<(String, Vec<u8>)>) {
        let mut v = self.violations.lock().unwrap();
        let n = v.len();
        let dir = self.root.join("replay").join(&self.prop).join(n.to_string());
        if n < 20 {
            let _ = fs::create_dir_all(&dir);
            let text = format!(
                "property: {}\nseed: {} tier: {}\nwhat: {title}\n\n{detail}\n\nReplay: VERIF_SEED={} VERIF_TIER={} ./check {} (deterministic)\n",
                self.prop, self.seed, self.tier, self.seed, self.tier, self.prop
            );
            let _ = fs::write(dir.join("README"), text);
            for (name, data) in files {
                crate::util::write_file(&dir.join("files").join(name.trim_start_matches('/')), &data);
            }
        }
        v.push((title.to_owned(), dir.display().to_string()));
    }
    // A failing probe: a known finding if listed, a violation otherwise.
    pub fn finding(&self, id: &str, title: &str, detail: String) {
        if self.open.contains_key(id) {
            *self.known_hit.lock().unwrap().entry(id.to_owned()).or_insert(0) += 1;
        } else {
            self.violation(&format!("{title} [{id}]"), detail, vec![]);
        }
    }
    pub fn is_open(&self, id: &str) -> bool {
        self.open.contains_key(id)
    }
    pub fn inconclusive(&self, what: String) {
        self.inconclusive.lock().unwrap().push(what);
    }
    pub fn stop(&self) -> bool {
        self.violations.lock().unwrap().len() >= 4
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_owned());
    }
    // Fail as an error of the check if a counter that proves the monitors saw something is small.
    pub fn require(&self, key: &str, min: u64) {
        let n = self.counter(key);
        if n < min {
            self.inconclusive(format!("observed only {n} of '{key}' (need {min})"));
        }
    }
    pub fn finish(&self) -> i32 {
        let v = self.violations.lock().unwrap();
        let inc = self.inconclusive.lock().unwrap();
        let hits = self.known_hit.lock().unwrap();
        let mut cov: Vec<(String, Json)> = vec![
            ("evaluations".into(), Json::n(self.evals())),
            ("distinct_nontrivial".into(), Json::n(self.distinct.lock().unwrap().len())),
            ("rule".into(), Json::s(self.rule.clone())),
        ];
        cov.push((
            "samples".into(),
            Json::Arr(self.samples.lock().unwrap().values().map(|s| Json::s(s.clone())).collect()),
        ));
        cov.push((
            "observed".into(),
            Json::Obj(self.counters.lock().unwrap().iter().map(|(k, n)| (k.clone(), Json::n(*n))).collect()),
        ));
        cov.push((
            "known_findings_reproduced".into(),
            Json::Obj(hits.iter().map(|(k, n)| (k.clone(), Json::n(*n))).collect()),
        ));
        if !inc.is_empty() {
            cov.push(("inconclusive".into(), Json::Arr(inc.iter().take(20).map(|s| Json::s(s.clone())).collect())));
        }
        let doc = Json::Obj(vec![
            ("property".into(), Json::s(self.prop.clone())),
            ("tier".into(), Json::s(self.tier.clone())),
            ("seed".into(), Json::n(self.seed)),
            ("level".into(), Json::s(self.level)),
            ("coverage".into(), Json::Obj(cov)),
            (
                "assumptions".into(),
                Json::Arr(self.assumptions.lock().unwrap().iter().map(|s| Json::s(s.clone())).collect()),
            ),
            ("wall_s".into(), Json::Num(self.elapsed())),
            ("violations".into(), Json::n(v.len())),
        ]);
        let mut s = String::new();
        doc.write(&mut s, 0);
        s.push('\n');
        let _ = fs::create_dir_all(self.root.join("evidence"));
        let _ = fs::write(self.root.join("evidence").join(format!("{}.json", self.prop)), s);
        for id in hits.keys() {
            println!("KNOWN-FINDING: property={} {} ({id})", self.prop, self.open[id]);
        }
        for (k, n) in self.counters.lock().unwrap().iter() {
            eprintln!("  {k}: {n}");
        }
        let mut titles = BTreeSet::new();
        for (t, dir) in v.iter().take(20) {
            if titles.insert(t.clone()) {
                println!("VIOLATION property={} replay={}", self.prop, dir);
                println!("  {t}");
            }
        }
        eprintln!(
            "{}: {} evaluations, {} distinct, {} violations, {} inconclusive, {:.1} s",
            self.prop,
            self.evals(),
            self.distinct.lock().unwrap().len(),
            v.len(),
            inc.len(),
            self.elapsed()
        );
        for i in inc.iter().take(10) {
            eprintln!("  inconclusive: {i}");
        }
        if !v.is_empty() {
            1
        } else if !inc.is_empty() {
            2
        } else {
            0
        }
    }
}
