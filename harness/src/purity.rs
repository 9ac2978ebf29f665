//! Every answer the public interfaces give about some nodes, without addresses, asked in any order; and
//! the family that shows that asking changes nothing.
use crate::ctx::{Bad, Ctx};
use crate::direct::outcome;
use crate::exec::{addr, casts, read_all, World};
use crate::gen::{Gen, Profile, SLOTS};
use crate::op::{ops_text, Op, K};
use crate::profiles::profile;
use crate::rng::{hash_str, Rng};
use crate::runner::{guard, Caught};
use std::collections::HashMap;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::*;
use xml_dom::level2::*;

const FIXED: usize = 30;
const STRS: usize = 15;

struct Seen {
    nodes: Vec<RefNode>,
    at: HashMap<usize, usize>,
}
impl Seen {
    fn id(&self, n: &RefNode) -> String {
        match self.at.get(&addr(n)) {
            Some(i) => format!("#{}", i),
            None => format!("?{:?} {}", n.node_type(), n.node_name()),
        }
    }
    fn oid(&self, n: Option<RefNode>) -> String {
        n.map_or("none".into(), |n| self.id(&n))
    }
    fn ids(&self, v: &[RefNode]) -> String {
        v.iter().map(|n| self.id(n)).collect::<Vec<_>>().join(",")
    }
    fn add(&mut self, n: &RefNode) {
        if self.nodes.len() >= 400 || self.at.contains_key(&addr(n)) {
            return;
        }
        let _ = self.at.insert(addr(n), self.nodes.len());
        self.nodes.push(n.clone());
        let mut a: Vec<(String, RefNode)> = n.attributes().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        a.sort_by(|x, y| x.0.cmp(&y.0));
        for (_, v) in a {
            self.add(&v);
        }
        for c in n.child_nodes() {
            self.add(&c);
        }
        if let Ok(d) = as_document(n) {
            if let Some(t) = d.doc_type() {
                self.add(&t);
            }
        }
    }
}

fn sorted(s: String) -> String {
    let mut b = s.into_bytes();
    b.sort_unstable();
    String::from_utf8_lossy(&b).into_owned()
}

/// One answer; which of several prefixes for a URI is given and the order of attributes are not specified.
fn ask(s: &Seen, n: &RefNode, q: usize, pool: &[String]) -> Option<String> {
    let el = || as_element(n).ok();
    let ns = || as_element_namespaced(n).ok();
    if q >= FIXED {
        let t = &pool[(q - FIXED) / STRS];
        let u = &pool[((q - FIXED) / STRS + 1) % pool.len()];
        return Some(match (q - FIXED) % STRS {
            0 => format!("{:?}", el()?.get_attribute(t)),
            1 => s.oid(el()?.get_attribute_node(t)),
            2 => format!("{}", el()?.has_attribute(t)),
            3 => format!("{:?}", el()?.get_attribute_ns(t, u)),
            4 => s.oid(el()?.get_attribute_node_ns(t, u)),
            5 => format!("{}", el()?.has_attribute_ns(t, u)),
            6 => s.ids(&el()?.get_elements_by_tag_name(t)),
            7 => s.ids(&el()?.get_elements_by_tag_name_ns(t, u)),
            8 => format!("{} {:?}", ns()?.contains_mapping(Some(t)), ns()?.get_namespace(Some(t))),
            9 => format!("{:?}", ns()?.resolve_namespace(Some(t))),
            10 => format!("{} {}", ns()?.contains_mapped_namespace(t), ns()?.get_prefix(t).is_none()),
            11 => format!("{}", ns()?.resolve_prefix(t).is_none()),
            12 => s.oid(as_document(n).ok()?.get_element_by_id(t)),
            13 => s.ids(&as_document(n).ok()?.get_elements_by_tag_name(t)),
            _ => s.ids(&as_document(n).ok()?.get_elements_by_tag_name_ns(t, u)),
        });
    }
    Some(match q {
        0 => format!("{:?} {:?}", n.node_type(), n.node_name()),
        1 => format!("{:?}", n.node_value()),
        2 => s.oid(n.parent_node()),
        3 => s.ids(&n.child_nodes()),
        4 => s.oid(n.first_child()),
        5 => s.oid(n.last_child()),
        6 => s.oid(n.next_sibling()),
        7 => s.oid(n.previous_sibling()),
        8 => {
            let mut k: Vec<String> = n.attributes().iter().map(|(k, v)| format!("{:?}={}", k, s.id(v))).collect();
            k.sort();
            k.join(",")
        }
        9 => s.oid(n.owner_document()),
        10 => format!("{} {}", n.has_child_nodes(), n.has_attributes()),
        11 => format!("{:?} {:?} {:?}", n.namespace_uri(), n.local_name(), n.prefix()),
        12 => {
            // The form for debugging is for people; but it is made by looking as well.
            let _ = format!("{:?}", n);
            sorted(n.to_string())
        }
        13 => casts(n),
        14 => el()?.tag_name(),
        15 => s.ids(&el()?.get_elements_by_tag_name("*")),
        16 => s.ids(&el()?.get_elements_by_tag_name_ns("*", "*")),
        17 => format!("{} {:?}", ns()?.contains_mapping(None), ns()?.get_namespace(None)),
        18 => format!("{:?}", ns()?.resolve_namespace(None)),
        19 => {
            let a = as_attribute(n).ok()?;
            format!("{:?} {}", a.value(), a.specified())
        }
        20 => s.oid(as_attribute(n).ok()?.owner_element()),
        21 => {
            let c = as_character_data(n).ok()?;
            format!("{} {:?} {:?}", c.length(), c.data(), c.substring_data(0, usize::MAX))
        }
        22 => {
            let p = as_processing_instruction(n).ok()?;
            format!("{} {:?} {}", p.length(), p.data(), p.target())
        }
        23 => s.oid(as_document(n).ok()?.doc_type()),
        24 => s.oid(as_document(n).ok()?.document_element()),
        25 => s.ids(&as_document(n).ok()?.get_elements_by_tag_name("*")),
        26 => s.ids(&as_document(n).ok()?.get_elements_by_tag_name_ns("*", "*")),
        27 => as_document_decl(n).ok()?.xml_declaration().map(|x| x.to_string()).unwrap_or_default(),
        28 => {
            let d = as_document_type(n).ok()?;
            format!("{:?} {:?} {:?} {} {}", d.public_id(), d.system_id(), d.internal_subset(), d.entities().len(), d.notations().len())
        }
        _ => match (as_entity(n), as_notation(n)) {
            (Ok(d), _) => format!("{:?} {:?} {:?}", d.public_id(), d.system_id(), d.notation_name()),
            (_, Ok(d)) => format!("{:?} {:?}", d.public_id(), d.system_id()),
            _ => return None,
        },
    })
}

/// The strings a history is about.
pub fn strings(ops: &[Op]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for o in ops {
        for s in o.s.iter().flatten().filter(|s| s.len() < 40) {
            let mut l = vec![s.as_str()];
            if let Some((a, b)) = s.split_once(':') {
                l.extend([a, b])
            }
            for x in l {
                if !v.iter().any(|y| y == x) {
                    v.push(x.to_string())
                }
            }
        }
    }
    if v.is_empty() {
        v.push("a".into())
    }
    v
}
fn choose(mut v: Vec<String>, n: usize, r: &mut Rng) -> Vec<String> {
    while v.len() > n {
        let _ = v.swap_remove(r.below(v.len()));
    }
    v
}

/// All answers about what the slots hold, asked in the order of `r`, given in a fixed order.
pub fn facts(slots: &[Option<RefNode>], pool: &[String], r: &mut Rng) -> Vec<String> {
    let mut s = Seen { nodes: vec![], at: HashMap::new() };
    for n in slots.iter().flatten() {
        s.add(n);
    }
    let per = FIXED + STRS * pool.len();
    let mut order: Vec<u32> = (0..(s.nodes.len() * per) as u32).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    let mut out: Vec<Option<String>> = vec![None; order.len()];
    for t in order {
        let (i, q) = (t as usize / per, t as usize % per);
        out[t as usize] = ask(&s, &s.nodes[i], q, pool);
    }
    let mut v: Vec<String> = slots.iter().enumerate().filter_map(|(i, n)| n.as_ref().map(|n| format!("slot {}: {}", i, s.id(n)))).collect();
    v.extend(out.into_iter().enumerate().filter_map(|(t, a)| {
        let (i, q) = (t / per, t % per);
        a.map(|a| format!("node #{} query {}{}: {}", i, q.min(FIXED + q.saturating_sub(FIXED) % STRS), if q >= FIXED { format!(" {:?}", pool[(q - FIXED) / STRS]) } else { String::new() }, a))
    }));
    v
}

/// Ask a few things in passing.
fn glance(slots: &[Option<RefNode>], pool: &[String], r: &mut Rng) {
    let mut s = Seen { nodes: vec![], at: HashMap::new() };
    let held: Vec<&RefNode> = slots.iter().flatten().collect();
    if held.is_empty() {
        return;
    }
    for _ in 0..r.range(1, 4) {
        s.add(*r.pick(&held));
    }
    for _ in 0..r.range(5, 60) {
        let n = r.pick(&s.nodes).clone();
        let q = if r.chance(1, 3) { r.below(FIXED) } else { r.below(FIXED + STRS * pool.len()) };
        let _ = ask(&s, &n, q, pool);
        if r.chance(1, 20) {
            let two = [r.pick(pool).clone(), r.pick(pool).clone()];
            let _ = read_all(&n, &two, r.below(5), r.below(5));
        }
        if r.chance(1, 20) {
            let _ = format!("{:?}", n);
        }
    }
}

/// The same history with nothing asked on the way and with all kinds of questions asked on the way.
pub fn purity(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let base = ["C26", "C12", "C11", "C06", "C08", "C10", "C13", "C05"][(idx % 8) as usize];
    let mut p: Profile = profile(base).0;
    p.ops = (10, 45);
    p.docs = 1 + (idx % 2) as usize;
    let ops = if idx % 6 == 5 {
        crate::families::bulk_ops(base, ctx.seed, ctx.seed.wrapping_add(idx / 6))
    } else {
        Gen::new(&p.without(&[K::ReadAll]), Rng::new(ctx.seed, "purity", idx)).history()
    };
    let mut r = Rng::new(ctx.seed, "purity-order", idx);
    let pool = choose(strings(&ops), 9, &mut r);
    ctx.evals += 1;
    ctx.count("operations", 2 * ops.len() as u64);
    let body = ops_text(&ops);
    if ctx.distinct.insert(hash_str(9, &body)) {
        ctx.sample(|| body.clone());
    }
    let res = guard(|| {
        let mut quiet = World::new(SLOTS);
        let mut answers = vec![];
        for o in &ops {
            answers.push(outcome(&quiet.exec(o)));
        }
        let mut asked = World::new(SLOTS);
        for (i, o) in ops.iter().enumerate() {
            let x = outcome(&asked.exec(o));
            if x != answers[i] {
                return (Some(format!("operation {} ({:?}) answers {} after questions were asked, {} otherwise", i, o.k, x, answers[i])), 0);
            }
            if r.chance(2, 3) {
                glance(&asked.slots, &pool, &mut r);
            }
        }
        let a = facts(&quiet.slots, &pool, &mut r);
        let b = facts(&asked.slots, &pool, &mut r);
        let c = facts(&asked.slots, &pool, &mut r);
        for (x, y, t) in [(&a, &b, "when asked on the way"), (&b, &c, "the second time")] {
            if x != y {
                let at = x.iter().zip(y).position(|(x, y)| x != y).unwrap_or(x.len().min(y.len()));
                return (Some(format!("{:?}, but {} {:?}", x.get(at), t, y.get(at))), 0);
            }
        }
        (None, a.len() * 3)
    });
    match res {
        Caught::Fine((None, n)) => {
            ctx.count("observations_compared", n as u64);
            None
        }
        Caught::Fine((Some(t), _)) => Some(Bad::new(&["C26"], t, body)),
        Caught::Panicked(s) => Some(Bad::new(&["C18"], s, body)),
    }
}
