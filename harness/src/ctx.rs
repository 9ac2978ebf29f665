//! What a worker counts and reports.
use crate::op::{ops_text, Op, K};
use crate::rng::hash_str;
use crate::runner::{model_at, run, shrink, Cfg};
use crate::tags::{group, of_outcome, Tags};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};

/// Changes whenever a case starts; watched by the watchdog.
pub static CASE: AtomicU64 = AtomicU64::new(0);
/// Grows with every call that comes back; code that is slow but goes on does not hang.
pub static BEAT: AtomicU64 = AtomicU64::new(0);

pub struct Bad {
    pub tags: Tags,
    pub text: String,
    pub body: String,
}

impl Bad {
    pub fn new(tags: &[&'static str], text: String, body: String) -> Self {
        Bad { tags: tags.iter().copied().collect(), text, body }
    }
}

pub struct Ctx {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    pub progress: Option<std::fs::File>,
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub states: HashSet<u64>,
    pub samples: Vec<String>,
    pub verbose: bool,
    /// Where a crashing history stopped: say what it refutes instead of running it.
    pub crash_at: Option<usize>,
    /// Told about a violation before it is made smaller.
    pub early: Option<std::path::PathBuf>,
}

impl Bad {
    /// Tags, then the text, then the body, separated by form feeds.
    pub fn encode(&self) -> String {
        let t: Vec<&str> = self.tags.iter().copied().collect();
        format!("{}\u{c}{}\u{c}{}", t.join(" "), self.text, self.body)
    }
    pub fn decode(s: &str) -> Option<Bad> {
        let mut it = s.splitn(3, '\u{c}');
        let tags = it.next()?.split(' ').filter_map(|t| PROPS.iter().copied().find(|p| *p == t)).collect();
        Some(Bad { tags, text: it.next()?.to_string(), body: it.next()?.to_string() })
    }
}

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32",
];

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, thorough: bool) -> Self {
        Ctx {
            prop,
            seed,
            thorough,
            progress: None,
            evals: 0,
            counts: BTreeMap::new(),
            distinct: HashSet::new(),
            states: HashSet::new(),
            samples: vec![],
            verbose: false,
            crash_at: None,
            early: None,
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n != 0 {
            match self.counts.get_mut(k) {
                Some(x) => *x += n,
                None => {
                    let _ = self.counts.insert(k.to_string(), n);
                }
            }
        }
    }
    pub fn begin(&mut self, family: usize, idx: u64) {
        CASE.fetch_add(1, Ordering::Relaxed);
        self.write(0, family as u64);
        self.write(8, idx);
        self.write(16, u64::MAX);
    }
    fn write(&self, at: u64, v: u64) {
        if let Some(f) = &self.progress {
            let _ = f.write_at(&v.to_le_bytes(), at);
        }
    }
    pub fn step(&self, at: usize) {
        self.write(16, at as u64);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s.chars().take(3000).collect());
        }
    }
    /// Run a history and file what was found.
    pub fn history(&mut self, ops: &[Op], cfg: &Cfg) -> Option<Bad> {
        if let Some(at) = self.crash_at {
            let m = model_at(&ops[..at.min(ops.len())], cfg.slots);
            let mut tags = Tags::new();
            tags.insert("C18");
            match ops.get(at) {
                Some(op) => {
                    let mut m2 = m.clone();
                    let pred = m2.apply(op);
                    tags.extend(group(op.k));
                    of_outcome(&mut tags, op, &pred, None, &m);
                }
                None => tags.extend(["C16", "C17", "C19"]),
            }
            let text = format!("operation {} of the history ends the process", at);
            return Some(Bad { tags, text, body: ops_text(&ops[..(at + 1).min(ops.len())]) });
        }
        let cfg = &Cfg { prop: self.prop, ..*cfg };
        let progress = self.progress.as_ref().and_then(|f| f.try_clone().ok());
        let mut tr = |at: usize| {
            if let Some(f) = &progress {
                let _ = f.write_at(&(at as u64).to_le_bytes(), 16);
            }
        };
        let r = run(ops, cfg, Some(&mut tr));
        self.evals += 1;
        self.count("operations", r.executed);
        self.count("succeeded", r.oks);
        self.count("refused", r.errs);
        self.count("observations_compared", r.obs);
        let mut rel = 0;
        for (k, e) in &r.events {
            if relevant(self.prop, *k, *e) {
                rel += 1;
                self.count(&format!("event_{}{}", k.name(), if *e { "_refused" } else { "" }), 1);
            }
        }
        self.count("relevant_events", rel);
        if self.states.len() < 2_000_000 {
            self.states.extend(r.states.iter());
        }
        if rel > 0 {
            let t = ops_text(ops);
            if self.distinct.insert(hash_str(1, &t)) {
                self.sample(|| t);
            }
        }
        let f = r.found?;
        if self.verbose {
            println!("operation {} of {}: {:?}\n{}", f.at, ops.len(), f.tags, f.text());
        }
        if !f.tags.contains(self.prop) {
            let k: Vec<&str> = f.tags.iter().copied().collect();
            self.count(&format!("foreign_{}", k.join("_")), 1);
            self.count("foreign", 1);
            if std::env::var_os("XDMON_SHOW").is_some() {
                eprintln!("{:?} {}\n{}", f.tags, f.text(), ops_text(&ops[..=f.at]));
            }
            return None;
        }
        if self.verbose {
            return Some(Bad { tags: f.tags.clone(), text: f.text(), body: ops_text(ops) });
        }
        if let Some(p) = &self.early {
            let _ = std::fs::write(p, Bad { tags: f.tags.clone(), text: f.text(), body: ops_text(ops) }.encode());
        }
        let s = shrink(ops, cfg, self.prop);
        let text = run(&s, cfg, None).found.map(|f| f.text()).unwrap_or_default();
        Some(Bad { tags: f.tags, text, body: ops_text(&s) })
    }
}

pub fn relevant(prop: &str, k: K, erred: bool) -> bool {
    use K::*;
    let tree = matches!(k, Append | InsertBefore | Replace | Remove);
    let attr = matches!(
        k,
        SetAttribute | SetAttributeNs | RemoveAttribute | RemoveAttributeNs | SetAttributeNode | SetAttributeNodeNs | RemoveAttributeNode
    );
    let create = k.name().starts_with("Create");
    match prop {
        "C01" | "C02" | "C13" => tree && !erred,
        "C03" => erred,
        "C04" => tree,
        "C05" => create || matches!(k, Clone | Split) || tree,
        "C06" => attr,
        "C07" => matches!(k, SetAttributeNode | SetAttributeNodeNs | RemoveAttributeNode | GetOwnerElement | Clone) || attr,
        "C08" => matches!(k, SetValue | UnsetValue | SetAttribute | SetAttributeNs | CreateAttrWith | SetNodeValue),
        "C11" | "C12" => attr || matches!(k, SetValue | UnsetValue | GetById),
        "C14" => k == Clone,
        "C15" => create || k == SetAttribute || k == SetAttributeNs,
        "C19" => matches!(k, Drop | Remove | Replace | UnsetValue | SetValue) || attr,
        "C24" => create || matches!(k, SetNodeValue | UnsetNodeValue | SetPiData | UnsetPiData),
        "C26" => group(k) == ["C26"],
        "C09" | "C10" => group(k).contains(&prop),
        _ => true,
    }
}
