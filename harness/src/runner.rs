//! Runs a history on the real library in lock step with the model.
use crate::compare::*;
use crate::exec::*;
use crate::model::*;
use crate::op::{Op, K};
use crate::rng::{hash_str, mix};
use crate::tags::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    pub static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

static HARNESS_PANICS: AtomicU64 = AtomicU64::new(0);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if loc.starts_with("src/") && HARNESS_PANICS.fetch_add(1, Ordering::Relaxed) < 3 {
            eprintln!("harness panic at {}: {}", loc, msg);
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Caught<T> {
    Fine(T),
    Panicked(String),
}

/// Run `f`, turning a panic of the library into a value; a panic of the harness itself goes on, up to the worker.
pub fn guard<T>(f: impl FnOnce() -> T) -> Caught<T> {
    let caught = catch_unwind(AssertUnwindSafe(f));
    let _ = crate::ctx::BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    match caught {
        Ok(v) => Caught::Fine(v),
        Err(e) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if loc.starts_with("src/") {
                resume_unwind(e);
            }
            std::mem::forget(e);
            Caught::Panicked(format!("panicked at {}: {}", loc, msg))
        }
    }
}

/// Run `f` where a recursion that takes a few bytes for each of thousands of levels runs out of stack.
pub fn on_little_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(s, f).unwrap();
        t.join().unwrap_or_else(|e| resume_unwind(e))
    })
}

#[derive(Clone, Debug)]
pub struct Found {
    pub at: usize,
    pub tags: Tags,
    pub diffs: Vec<Diff>,
}

impl Found {
    pub fn text(&self) -> String {
        self.diffs.iter().map(|d| format!("{:?}: {}", d.comp, d.detail)).collect::<Vec<_>>().join("\n")
    }
}

#[derive(Default)]
pub struct Report {
    pub executed: u64,
    pub skipped: u64,
    pub oks: u64,
    pub errs: u64,
    pub obs: u64,
    pub events: Vec<(K, bool)>,
    pub states: Vec<u64>,
    pub found: Option<Found>,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub slots: usize,
    /// Evaluate the costly queries after every n-th operation.
    pub ids: usize,
    pub ns: usize,
    pub search: usize,
    /// Compare twice: what was only read must not have changed.
    pub twice: bool,
    /// Also read back the text form of the roots at the end.
    pub display: bool,
    /// Wrong answers of queries that refute other properties than this do not end the history.
    pub prop: &'static str,
    /// Compare only after every n-th operation, except for the last `tail` ones.
    pub sparse: usize,
    pub tail: usize,
}

/// What only shows in a query: the tree may still be as expected.
fn is_query(c: Comp) -> bool {
    use Comp::*;
    matches!(
        c,
        Siblings | Value | Views | CharData | PiData | PubIds | Casts | Ids | Ns | Search | DocElement | NodeValue | Display | Prolog
    )
}

pub fn model_at(ops: &[Op], slots: usize) -> Model {
    let mut m = Model::new(slots);
    for o in ops {
        let _ = m.apply(o);
        m.gc();
    }
    m
}

pub fn state_hash(m: &Model) -> u64 {
    fn rec(m: &Model, id: Id, h: &mut u64, depth: usize) {
        let n = &m.nodes[id];
        *h = mix(*h ^ n.kind as u64 ^ ((n.children.len() as u64) << 8) ^ ((n.attrs.len() as u64) << 16));
        *h = hash_str(*h, &n.name.local);
        if let Some(p) = &n.name.prefix {
            *h = hash_str(*h, p);
        }
        if let Some(p) = &n.name.ns {
            *h = hash_str(*h, p);
        }
        match &n.data {
            None => *h = mix(*h),
            Some(d) => *h = hash_str(*h, d),
        }
        if depth < 60 {
            for c in n.attrs.iter().chain(n.children.iter()).chain(n.doctype.iter()) {
                rec(m, *c, h, depth + 1);
            }
        }
    }
    let mut h = 7;
    for (i, s) in m.slots.iter().enumerate() {
        if let Some(id) = s {
            if m.parent(*id).is_none() && m.owner_elem(*id).is_none() {
                h = mix(h ^ i as u64);
                rec(m, *id, &mut h, 0);
            }
        }
    }
    h
}

pub fn run(ops: &[Op], cfg: &Cfg, trace: Option<&mut dyn FnMut(usize)>) -> Report {
    let mut muted = HashSet::new();
    let mut other = None;
    let mut rep = run_muted(ops, cfg, trace, &mut muted, &mut other, (0, 0));
    if cfg.sparse > 1 {
        if let Some(at) = rep.found.as_ref().or(other.as_ref()).map(|f| f.at) {
            // Which operation was it? Look at each since the last comparison.
            let (mut muted, mut again) = (HashSet::new(), None);
            let mut close = run_muted(ops, cfg, None, &mut muted, &mut again, (at.saturating_sub(cfg.sparse), at));
            close.found = close.found.or(again);
            if close.found.is_some() {
                (rep.found, other) = (close.found, None);
            }
        }
    }
    if rep.found.is_none() {
        rep.found = other;
    }
    if let Some(f) = rep.found.as_mut().filter(|f| cfg.prop == "C26" && !f.tags.contains("C26") && f.at < ops.len()) {
        // Does it also go wrong when nobody looks until then? If not, looking has changed something.
        let quiet = Cfg { sparse: usize::MAX, tail: 1, twice: false, display: false, ..*cfg };
        let mut other = None;
        let once = run_muted(&ops[..=f.at], &quiet, None, &mut HashSet::new(), &mut other, (1, 0));
        if once.found.is_none() && other.is_none() {
            f.tags.insert("C26");
        }
    }
    rep
}

fn run_muted(ops: &[Op], cfg: &Cfg, mut trace: Option<&mut dyn FnMut(usize)>, muted: &mut HashSet<Comp>, other: &mut Option<Found>, close: (usize, usize)) -> Report {
    crate::ctx::CASE.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut m = Model::new(cfg.slots);
    let mut w = World::new(cfg.slots);
    let mut rep = Report::default();
    for (at, op) in ops.iter().enumerate() {
        if let Some(t) = trace.as_mut() {
            t(at)
        }
        let pred = m.apply(op);
        if pred.skip {
            rep.skipped += 1;
            continue;
        }
        m.gc();
        rep.executed += 1;
        let mut tags = Tags::new();
        let mut diffs = vec![];
        let real = match guard(|| w.exec(op)) {
            Caught::Panicked(s) => {
                diffs.push(Diff { comp: Comp::Panic, node: None, detail: format!("{} {}", op.k.name(), s) });
                tags.insert("C18");
                tags.extend(group(op.k));
                of_outcome(&mut tags, op, &pred, None, &m);
                std::mem::forget(w);
                rep.found = Some(Found { at, tags, diffs });
                return rep;
            }
            Caught::Fine(r) => r,
        };
        let erred = real.is_err();
        rep.events.push((op.k, erred));
        if erred {
            rep.errs += 1
        } else {
            rep.oks += 1
        }
        // Did the call answer what it should?
        let fail = |d: String| Diff { comp: Comp::Outcome, node: None, detail: d };
        let mut outcome_bad = false;
        match &real {
            Err(e) => {
                if e.clone() as u16 != crate::exec::error_code(e) {
                    outcome_bad = true;
                    diffs.push(fail(format!("{:?} has the number {}", e, e.clone() as u16)));
                    tags.insert("C03");
                }
                if !pred.errs.contains(e) {
                    outcome_bad = true;
                    diffs.push(fail(format!(
                        "{} answered Err({:?}), expected {}",
                        op.k.name(),
                        e,
                        if pred.errs.is_empty() { "success".to_string() } else { format!("one of {:?}", pred.errs) }
                    )));
                    of_outcome(&mut tags, op, &pred, Some(e.clone()), &m);
                }
            }
            Ok(v) => match &pred.ok {
                None => {
                    outcome_bad = true;
                    diffs.push(fail(format!("{} succeeded, expected one of {:?}", op.k.name(), pred.errs)));
                    of_outcome(&mut tags, op, &pred, None, &m);
                }
                Some(ev) => {
                    if let Some(d) = returned(&mut w, ev, v) {
                        diffs.push(Diff { comp: Comp::Returned, node: None, detail: format!("{} {}", op.k.name(), d) });
                        of_returned(&mut tags, op);
                        if op.k == K::ReadAll || op.k == K::Substring {
                            of_outcome(&mut tags, op, &pred, None, &m);
                        }
                    }
                }
            },
        }
        drop(real);
        if outcome_bad {
            // What else is wrong then? Without a prediction of the state, only what must hold anyway.
            let pre = model_at(&ops[..at], cfg.slots);
            let r = guard(|| {
                if erred {
                    let mut c = Cmp::new(&mut w, &pre);
                    c.all(FULL);
                    c.diffs
                } else {
                    let mut c = Cmp::new(&mut w, &pre);
                    let _ = c.structure(true);
                    let mut d = c.diffs;
                    d.extend(links(&w.slots));
                    d
                }
            });
            match r {
                Caught::Fine(ds) => {
                    for d in ds {
                        if d.comp != Comp::Slot && !muted.contains(&d.comp) {
                            of_diff(&mut tags, &d, op, &pred, erred, &pre);
                            diffs.push(d);
                        }
                    }
                }
                Caught::Panicked(s) => diffs.push(Diff { comp: Comp::Panic, node: None, detail: s }),
            }
            rep.found = Some(Found { at, tags, diffs });
            std::mem::forget(w);
            return rep;
        }
        // Is everything as it should be?
        if diffs.is_empty() && cfg.sparse > 1 && at % cfg.sparse != 0 && at + cfg.tail < ops.len() && !(close.0..=close.1).contains(&at) {
            continue;
        }
        let every = |n: usize| n != 0 && (at % n == 0 || at + 1 == ops.len());
        let depth = Depth { ids: every(cfg.ids), ns: every(cfg.ns), search: every(cfg.search), only_owner: false };
        let rounds = if cfg.twice { 2 } else { 1 };
        for round in 0..rounds {
            let r = guard(|| {
                let mut c = Cmp::new(&mut w, &m);
                c.all(if round == 0 { depth } else { FULL });
                (c.diffs, c.obs)
            });
            match r {
                Caught::Panicked(s) => {
                    diffs.push(Diff { comp: Comp::Panic, node: None, detail: format!("a query after {} {}", op.k.name(), s) });
                    tags.insert("C18");
                    tags.extend(group(op.k));
                }
                Caught::Fine((ds, obs)) => {
                    rep.obs += obs;
                    for d in ds {
                        if muted.contains(&d.comp) {
                            continue;
                        }
                        of_diff(&mut tags, &d, op, &pred, erred, &m);
                        if round == 1 {
                            tags.insert("C26");
                        }
                        diffs.push(d);
                    }
                }
            }
            if !diffs.is_empty() {
                break;
            }
        }
        if !diffs.is_empty() {
            if !tags.contains(cfg.prop) && !cfg.prop.is_empty() && diffs.iter().all(|d| is_query(d.comp)) {
                muted.extend(diffs.iter().map(|d| d.comp));
                let _ = other.get_or_insert(Found { at, tags, diffs });
                continue;
            }
            rep.found = Some(Found { at, tags, diffs });
            std::mem::forget(w);
            return rep;
        }
        rep.states.push(state_hash(&m));
    }
    if let Some(t) = trace.as_mut() {
        t(ops.len())
    }
    if cfg.display {
        let r = guard(|| crate::xmlread::check_slots(&w, &m));
        let (diffs, obs, mut tags) = match r {
            Caught::Fine((d, o)) => (d, o, Tags::new()),
            Caught::Panicked(s) => (vec![Diff { comp: Comp::Panic, node: None, detail: s }], 0, ["C16", "C17", "C18"].into()),
        };
        rep.obs += obs;
        let diffs: Vec<Diff> = diffs.into_iter().filter(|d| !muted.contains(&d.comp)).collect();
        if !diffs.is_empty() {
            for d in &diffs {
                of_diff(&mut tags, d, &Op::new(K::CreateDoc), &Pred::default(), false, &m);
            }
            let f = Found { at: ops.len(), tags, diffs };
            if f.tags.contains(cfg.prop) || cfg.prop.is_empty() || f.diffs.iter().any(|d| d.comp == Comp::Panic) {
                rep.found = Some(f);
                std::mem::forget(w);
                return rep;
            }
            let _ = other.get_or_insert(f);
        }
    }
    // Let go of everything: all nodes have to be released.
    let last = Op::new(K::Drop);
    m.slots.iter_mut().for_each(|s| *s = None);
    m.gc();
    let r = guard(|| {
        w.slots.iter_mut().for_each(|s| *s = None);
        let mut c = Cmp::new(&mut w, &m);
        c.liveness();
        (c.diffs, c.obs)
    });
    let mut tags = Tags::new();
    match r {
        Caught::Panicked(s) => {
            let d = Diff { comp: Comp::Panic, node: None, detail: format!("dropping everything {}", s) };
            rep.found = Some(Found { at: ops.len(), tags: ["C18", "C19"].into(), diffs: vec![d] });
            std::mem::forget(w);
        }
        Caught::Fine((diffs, obs)) => {
            rep.obs += obs;
            if !diffs.is_empty() {
                for d in &diffs {
                    of_diff(&mut tags, d, &last, &Pred::default(), false, &m);
                }
                rep.found = Some(Found { at: ops.len(), tags, diffs });
            }
        }
    }
    rep
}

fn returned(w: &mut World, expected: &Val, real: &RVal) -> Option<String> {
    let node = |w: &mut World, id: Id, n: &xml_dom::level2::RefNode| match w.id_of(n) {
        Some(x) if x == id => None,
        Some(x) => Some(format!("returned #{} instead of #{}", x, id)),
        None => {
            if w.is_bound(id) {
                Some(format!("returned a new node instead of #{}", id))
            } else {
                w.bind(id, n);
                None
            }
        }
    };
    match (expected, real) {
        (Val::Unit, RVal::Unit) => None,
        (Val::Unit, RVal::Str(s)) => Some(s.clone()),
        (Val::Node(i), RVal::Node(n)) | (Val::Node(i), RVal::OptNode(Some(n))) => node(w, *i, n),
        (Val::OptNode(Some(i)), RVal::Node(n)) | (Val::OptNode(Some(i)), RVal::OptNode(Some(n))) => node(w, *i, n),
        (Val::OptNode(None), RVal::OptNode(None)) => None,
        (Val::Str(a), RVal::Str(b)) => {
            if a == b {
                None
            } else {
                Some(format!("returned {:?} instead of {:?}", b, a))
            }
        }
        (e, _) => Some(format!("returned something else than {:?}", e)),
    }
}

/// Remove operations as long as the same property stays violated.
pub fn shrink(ops: &[Op], cfg: &Cfg, prop: &str) -> Vec<Op> {
    let bad = |o: &[Op]| run(o, cfg, None).found.is_some_and(|f| f.tags.contains(prop));
    let mut cur: Vec<Op> = ops.to_vec();
    let start = std::time::Instant::now();
    let mut size = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < cur.len() {
            if start.elapsed().as_secs() > 20 {
                return cur;
            }
            let mut t = cur.clone();
            t.drain(i..(i + size).min(cur.len()));
            if bad(&t) {
                cur = t;
                changed = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !changed {
            return cur;
        }
        if !changed || size > 1 {
            size = (size / 2).max(1);
        }
    }
}
