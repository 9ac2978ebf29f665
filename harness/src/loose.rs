//! Any operation on any nodes, with no model to say what it should do: what must be true of every tree,
//! of every refused operation and of every node for its whole life is watched instead.
use crate::compare::{links, Comp};
use crate::ctx::{Bad, Ctx};
use crate::direct::outcome;
use crate::exec::{addr, kind_of, read_all, World};
use crate::gen::{Gen, SLOTS};
use crate::model::Kind;
use crate::op::{ops_text, Op, K};
use crate::profiles::profile;
use crate::purity::facts;
use crate::rng::{hash_str, Rng};
use crate::runner::{guard, Caught};
use std::collections::HashMap;
use xml_dom::level2::convert::*;
use xml_dom::level2::*;

struct Known {
    alive: Box<dyn Fn() -> bool>,
    kind: Kind,
    name: String,
    owner: Option<usize>,
}

/// What was seen of every node so far; weak handles keep the addresses from being used again.
#[derive(Default)]
struct Lives {
    at: HashMap<usize, Known>,
}
impl Lives {
    fn see(&mut self, n: &RefNode, todo: &mut Vec<RefNode>, bad: &mut Vec<(&'static [&'static str], String)>) {
        let owner = n.owner_document();
        let oa = owner.as_ref().map(addr);
        let (kind, name) = (kind_of(n), n.node_name().to_string());
        if (kind == Kind::Doc) && owner.is_some() {
            bad.push((&["C05"], format!("document {} has an owner", name)));
        }
        if let Some(o) = owner {
            todo.push(o)
        }
        match self.at.get(&addr(n)) {
            None => {
                let w = n.clone().downgrade();
                let _ = self.at.insert(addr(n), Known { alive: Box::new(move || w.clone().upgrade().is_some()), kind, name, owner: oa });
            }
            Some(k) => {
                if k.kind != kind || k.name != name {
                    bad.push((&["C24"], format!("{:?} {} became {:?} {}", k.kind, k.name, kind, name)));
                }
                // A type takes an owner once, the document it is given to.
                if k.owner != oa && !(kind == Kind::DocType && k.owner.is_none()) {
                    let gone = oa.is_none() && k.owner.is_some_and(|o| self.at.get(&o).is_some_and(|d| !(d.alive)()));
                    if !gone {
                        bad.push((&["C05"], format!("{:?} {} got another owner", kind, name)));
                    }
                } else if k.owner.is_none() && oa.is_some() {
                    self.at.get_mut(&addr(n)).unwrap().owner = oa;
                }
            }
        }
    }
    fn look(&mut self, slots: &[Option<RefNode>]) -> Vec<(&'static [&'static str], String)> {
        let mut bad: Vec<(&'static [&'static str], String)> = vec![];
        for d in links(slots) {
            bad.push((if d.comp == Comp::Link { &["C01"] } else if d.comp == Comp::Attrs { &["C06"] } else { &["C07"] }, d.detail));
        }
        if !bad.is_empty() {
            return bad;
        }
        let mut seen = std::collections::HashSet::new();
        let mut todo: Vec<RefNode> = slots.iter().flatten().cloned().collect();
        while let Some(n) = todo.pop() {
            if !seen.insert(addr(&n)) {
                continue;
            }
            self.see(&n, &mut todo, &mut bad);
            todo.extend(n.child_nodes());
            todo.extend(n.attributes().into_values());
            todo.extend(n.parent_node());
        }
        bad
    }
}

/// Calls on nodes of the right kind only, where the call does not check it.
fn fits(w: &World, o: &Op) -> bool {
    let k = |i: usize| if o.n[i] < 0 { None } else { w.slots[o.n[i] as usize].as_ref().map(kind_of) };
    match o.k {
        K::Split => matches!(k(0), Some(Kind::Text | Kind::CData)),
        K::CreateEntity | K::CreateInternalEntity | K::CreateNotation => k(0) == Some(Kind::Doc),
        _ => true,
    }
}

/// Runs the operations; what is wrong, and after how many of them.
fn run(ops: &[Op], seed: u64, step: &mut dyn FnMut(usize), seen: &mut u64) -> Option<(&'static [&'static str], String, usize)> {
    let mut w = World::new(SLOTS);
    let mut lives = Lives::default();
    let pool: Vec<String> = {
        let mut p = crate::purity::strings(ops);
        p.truncate(5);
        p
    };
    for (i, o) in ops.iter().enumerate() {
        if !fits(&w, o) {
            continue;
        }
        step(i);
        let mut r = Rng::new(seed, "loose-look", i as u64);
        let compare = r.chance(1, 5);
        let before = if compare { facts(&w.slots, &pool, &mut Rng::new(1, "order", 0)) } else { vec![] };
        let res = match guard(|| w.exec(o)) {
            Caught::Fine(x) => x,
            Caught::Panicked(s) => return Some((&["C18"], format!("{:?} panics: {}", o.k, s), i)),
        };
        let erred = res.is_err();
        let out = outcome(&res);
        drop(res);
        let looked = guard(|| {
            let bad = lives.look(&w.slots);
            if let Some((t, s)) = bad.into_iter().next() {
                return Some((t, s));
            }
            if compare && erred {
                let after = facts(&w.slots, &pool, &mut Rng::new(1, "order", 0));
                if before != after {
                    let at = before.iter().zip(&after).position(|(a, b)| a != b).unwrap_or(before.len().min(after.len()));
                    return Some((&["C03"][..], format!("refused ({}), but {:?} became {:?}", out, before.get(at), after.get(at))));
                }
            }
            if r.chance(1, 6) {
                for n in w.slots.iter().flatten() {
                    let _ = n.to_string();
                    let a = read_all(n, &pool, r.below(6), r.below(6));
                    let _ = a;
                }
            }
            None
        });
        *seen += 1;
        match looked {
            Caught::Fine(None) => {}
            Caught::Fine(Some((t, s))) => return Some((t, format!("after {:?} ({}): {}", o.k, out, s), i)),
            Caught::Panicked(s) => return Some((&["C18"], format!("reading after {:?} panics: {}", o.k, s), i)),
        }
    }
    let end = guard(|| {
        let mut r = Rng::new(seed, "loose-drop", 0);
        while let Some(i) = {
            let full: Vec<usize> = (0..SLOTS).filter(|i| w.slots[*i].is_some()).collect();
            if full.is_empty() { None } else { Some(*r.pick(&full)) }
        } {
            w.slots[i] = None;
            if let Some((t, s)) = lives.look(&w.slots).into_iter().next() {
                return Some((t, format!("after dropping a handle: {}", s)));
            }
        }
        None
    });
    match end {
        Caught::Fine(None) => None,
        Caught::Fine(Some((t, s))) => Some((t, s, ops.len())),
        Caught::Panicked(s) => Some((&["C18"], format!("dropping panics: {}", s), ops.len())),
    }
}

/// Operations of any kind on whatever is there: made with the generator, then turned loose.
pub fn history(seed: u64, idx: u64) -> Vec<Op> {
    let base = ["C18", "C01", "C07", "C11", "C12", "C14", "C10", "C05"][(idx % 8) as usize];
    let (mut p, _) = profile(base);
    p.ops = (90, 130);
    let g = Gen::new(&p, Rng::new(seed, "loose", idx));
    let mut ops: Vec<Op> = vec![];
    let mut r = Rng::new(seed, "loose-ops", idx);
    let want = r.range(30, 90);
    // How often the operands are just any slots.
    let wild = *r.pick(&[2usize, 4, 12, 40]);
    for mut o in g.history() {
        if ops.len() >= want {
            break;
        }
        if ops.len() > 4 && r.chance(1, 8) {
            continue;
        }
        if r.chance(1, wild) {
            for i in 0..3 {
                if o.n[i] >= 0 && r.chance(2, 3) {
                    o.n[i] = r.below(SLOTS) as i32;
                }
            }
        }
        if r.chance(1, wild * 3) {
            o.k = *r.pick(&[K::Append, K::InsertBefore, K::Replace, K::Remove, K::Clone, K::Normalize, K::SetValue, K::SetNodeValue, K::SetAttributeNode, K::RemoveAttributeNode]);
            for i in 0..3 {
                if o.n[i] < 0 {
                    o.n[i] = r.below(SLOTS) as i32;
                }
            }
            o.out = r.below(SLOTS) as i32;
        }
        // A copy of a document or of a type is as good a node as any.
        if o.k == K::Clone && r.chance(1, 3) {
            o.n[0] = r.below(6) as i32;
        }
        ops.push(o.clone());
        if r.chance(1, 10) {
            ops.push(o);
        }
    }
    ops
}

pub fn loose(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let ops = history(ctx.seed, idx);
    let t = ops_text(&ops);
    ctx.evals += 1;
    if ctx.distinct.insert(hash_str(11, &t)) {
        ctx.sample(|| t.clone());
    }
    let mut seen = 0;
    let seed = ctx.seed ^ idx;
    let found = {
        let c = &*ctx;
        run(&ops, seed, &mut |i| c.step(i), &mut seen)
    };
    ctx.count("operations", seen);
    ctx.count("operations_without_model", seen);
    let (tags, _, at) = found?;
    let mut small: Vec<Op> = ops[..(at + 1).min(ops.len())].to_vec();
    let mut i = small.len();
    while i > 0 {
        i -= 1;
        let mut s = small.clone();
        let _ = s.remove(i);
        if run(&s, seed, &mut |_| (), &mut 0).is_some_and(|f| f.0 == tags) {
            small = s;
        }
    }
    let text = run(&small, seed, &mut |_| (), &mut 0).map(|f| f.1).unwrap_or_default();
    Some(Bad::new(tags, text, ops_text(&small)))
}
