//! Compares everything observable of the real nodes with the model, and names what disagrees.
use crate::exec::*;
use crate::model::{Id, Kind, Model};
use crate::oracle::*;
use std::collections::{BTreeSet, HashMap, HashSet};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::*;
use xml_dom::level2::ext::NamespacePrefix;
use xml_dom::level2::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Comp {
    Slot,
    Children,
    Parent,
    Attrs,
    AttrOwner,
    Name,
    Kind,
    Data,
    NodeValue,
    Owner,
    DocType,
    Decl,
    Dead,
    Leak,
    Siblings,
    Value,
    Views,
    CharData,
    PiData,
    PubIds,
    Casts,
    Ids,
    Ns,
    Search,
    DocElement,
    Link,
    Outcome,
    Returned,
    Panic,
    Pure,
    Display,
    Prolog,
}

#[derive(Clone, Debug)]
pub struct Diff {
    pub comp: Comp,
    pub node: Option<Id>,
    pub detail: String,
}

#[derive(Clone, Copy)]
pub struct Depth {
    pub ids: bool,
    pub ns: bool,
    pub search: bool,
    pub only_owner: bool,
}
pub const FULL: Depth = Depth { ids: true, ns: true, search: true, only_owner: false };

pub struct Cmp<'a> {
    pub w: &'a mut World,
    pub m: &'a Model,
    pub diffs: Vec<Diff>,
    pub obs: u64,
}

fn show(n: Option<Id>) -> String {
    match n {
        None => "none".into(),
        Some(i) => format!("#{}", i),
    }
}

impl<'a> Cmp<'a> {
    pub fn new(w: &'a mut World, m: &'a Model) -> Self {
        Cmp { w, m, diffs: vec![], obs: 0 }
    }
    fn diff(&mut self, comp: Comp, node: Id, detail: String) {
        if self.diffs.len() < 40 {
            let k = self.m.nodes[node].kind;
            self.diffs.push(Diff { comp, node: Some(node), detail: format!("{:?} #{}: {}", k, node, detail) });
        }
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, comp: Comp, node: Id, what: &str, expected: T, actual: T) {
        self.obs += 1;
        if expected != actual {
            self.diff(comp, node, format!("{} expected {:?}, is {:?}", what, expected, actual));
        }
    }
    fn is(&mut self, comp: Comp, node: Id, what: &str, expected: Option<Id>, actual: Option<RefNode>) {
        self.obs += 1;
        let a = actual.as_ref().map(|n| self.w.id_of(n));
        match (expected, &a) {
            (None, None) => {}
            (Some(e), Some(Some(x))) if e == *x => {}
            _ => {
                let s = match a {
                    None => "none".to_string(),
                    Some(None) => "an unknown node".to_string(),
                    Some(Some(x)) => format!("#{}", x),
                };
                self.diff(comp, node, format!("{} expected {}, is {}", what, show(expected), s));
            }
        }
    }
    fn list(&mut self, comp: Comp, node: Id, what: &str, expected: &[Id], actual: &[RefNode]) {
        self.obs += 1;
        let a: Vec<Option<Id>> = actual.iter().map(|n| self.w.id_of(n)).collect();
        if a.len() != expected.len() || a.iter().zip(expected).any(|(x, y)| *x != Some(*y)) {
            let s: Vec<String> = a.iter().map(|x| x.map(|i| format!("#{}", i)).unwrap_or("?".into())).collect();
            self.diff(comp, node, format!("{} expected {:?}, is [{}]", what, expected, s.join(", ")));
        }
    }

    /// All nodes reachable in the model from the slots, containers first.
    pub fn order(&self) -> Vec<Id> {
        let mut seen = HashSet::new();
        let mut out: Vec<Id> = vec![];
        for s in self.m.slots.iter().flatten() {
            if seen.insert(*s) {
                out.push(*s);
            }
        }
        let mut i = 0;
        while i < out.len() {
            let n = &self.m.nodes[out[i]];
            for x in n.children.iter().chain(n.attrs.iter()).chain(n.doctype.iter()) {
                if seen.insert(*x) {
                    out.push(*x);
                }
            }
            i += 1;
        }
        out
    }

    pub fn structure(&mut self, only_owner: bool) -> Vec<Id> {
        let m = self.m;
        // slots
        for (i, s) in m.slots.iter().enumerate() {
            if let Some(id) = s {
                match self.w.slots[i].clone() {
                    None => self.diff(Comp::Slot, *id, format!("slot {} holds nothing", i)),
                    Some(n) => match self.w.id_of(&n) {
                        None => self.w.bind(*id, &n),
                        Some(x) if x == *id => {}
                        Some(x) => self.diff(Comp::Slot, *id, format!("slot {} holds #{}", i, x)),
                    },
                }
            }
        }
        let order = self.order();
        for id in order.iter().copied() {
            let mn = &m.nodes[id];
            let n = match self.w.get(id) {
                Some(n) => n,
                None => {
                    if self.w.is_bound(id) {
                        self.diff(Comp::Dead, id, "was released although it is still reachable".into());
                    }
                    continue;
                }
            };
            // Discover nodes that the last operation created below this one.
            let children = n.child_nodes();
            let attributes = n.attributes();
            if !only_owner {
                if children.len() == mn.children.len() {
                    for (c, r) in mn.children.iter().zip(&children) {
                        if !self.w.is_bound(*c) && self.w.id_of(r).is_none() {
                            self.w.bind(*c, r);
                        }
                    }
                }
                for a in &mn.attrs {
                    if !self.w.is_bound(*a) {
                        let q = m.nodes[*a].name.qualified();
                        let found = attributes.values().find(|v| v.node_name().to_string() == q).cloned();
                        if let Some(r) = found {
                            if self.w.id_of(&r).is_none() {
                                self.w.bind(*a, &r);
                            }
                        }
                    }
                }
                self.eq(Comp::Kind, id, "kind", mn.kind, kind_of(&n));
                let name = n.node_name();
                let q = QName {
                    ns: name.namespace_uri().clone(),
                    prefix: name.prefix().clone(),
                    local: name.local_name().clone(),
                };
                self.eq(Comp::Name, id, "name", &mn.name, &q);
                self.eq(Comp::Name, id, "qualified name", mn.name.qualified(), name.to_string());
                self.list(Comp::Children, id, "children", &mn.children, &children);
                self.obs += 1;
                if attributes.len() != mn.attrs.len() {
                    self.diff(
                        Comp::Attrs,
                        id,
                        format!(
                            "attribute map expected {:?}, has {:?}",
                            mn.attrs.iter().map(|a| m.nodes[*a].name.qualified()).collect::<Vec<_>>(),
                            attributes.keys().map(|k| k.to_string()).collect::<BTreeSet<_>>()
                        ),
                    );
                } else {
                    for a in &mn.attrs {
                        let an = &m.nodes[*a].name;
                        let found = attributes
                            .iter()
                            .find(|(k, _)| k.to_string() == an.qualified() && *k.namespace_uri() == an.ns)
                            .map(|(_, v)| v.clone());
                        self.is(Comp::Attrs, id, &format!("attribute {}", an.qualified()), Some(*a), found);
                    }
                }
                self.is(Comp::Parent, id, "parent", m.parent(id), n.parent_node());
                if mn.kind == Kind::Attr {
                    let o = as_attribute(&n).ok().and_then(|a| a.owner_element());
                    self.is(Comp::AttrOwner, id, "owner element", m.owner_elem(id), o);
                } else {
                    self.eq(Comp::Data, id, "node value", &mn.data, &n.node_value());
                }
                if mn.kind == Kind::Doc {
                    if let Ok(d) = as_document(&n) {
                        let t = d.doc_type();
                        self.is(Comp::DocType, id, "document type", mn.doctype, t);
                    }
                    self.eq(Comp::Decl, id, "declaration", &mn.decl, &real_decl(&n));
                }
            }
            self.is(Comp::Owner, id, "owner document", m.owner_doc(id), n.owner_document());
        }
        order
    }

    pub fn liveness(&mut self) {
        for id in 0..self.m.nodes.len() {
            if !self.m.nodes[id].alive && self.w.is_bound(id) && !self.w.is_dead(id) {
                self.obs += 1;
                if self.w.get(id).is_some() {
                    self.diff(Comp::Leak, id, "is not reachable any more but was not released".into());
                } else {
                    self.w.confirm_dead(id);
                }
            }
        }
    }

    pub fn all(&mut self, depth: Depth) {
        let order = self.structure(false);
        if self.diffs.is_empty() {
            self.liveness();
        } else {
            let d = links(&self.w.slots);
            self.diffs.extend(d);
        }
        if !self.diffs.is_empty() {
            return;
        }
        let m = self.m;
        let pools = Pools::new(m);
        let mut last: Vec<RefNode> = vec![];
        for id in order {
            let n = match self.w.get(id) {
                Some(n) => n,
                None => {
                    self.diff(Comp::Dead, id, "never became reachable".into());
                    continue;
                }
            };
            self.node(id, &n, depth, &pools);
            let _ = crate::ctx::BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            // Two handles are equal exactly when they are the same node.
            let same = n.clone();
            #[allow(clippy::nonminimal_bool)]
            if !(n == same) || n != same {
                self.diff(Comp::Casts, id, "is not equal to itself".into());
            }
            for o in &last {
                if &n == o || o == &n {
                    self.diff(Comp::Casts, id, "is equal to another node".into());
                }
            }
            if last.len() >= 6 {
                let _ = last.remove(0);
            }
            last.push(n);
        }
    }

    fn node(&mut self, id: Id, n: &RefNode, depth: Depth, pools: &Pools) {
        let m = self.m;
        let mn = &m.nodes[id];
        // navigation
        self.is(Comp::Siblings, id, "first child", mn.children.first().copied(), n.first_child());
        self.is(Comp::Siblings, id, "last child", mn.children.last().copied(), n.last_child());
        self.eq(Comp::Siblings, id, "has children", !mn.children.is_empty(), n.has_child_nodes());
        let (mut prev, mut next) = (None, None);
        if let Some(p) = m.parent(id) {
            let c = &m.nodes[p].children;
            if let Some(at) = c.iter().position(|x| *x == id) {
                prev = at.checked_sub(1).map(|x| c[x]);
                next = c.get(at + 1).copied();
            }
        }
        self.is(Comp::Siblings, id, "previous sibling", prev, n.previous_sibling());
        self.is(Comp::Siblings, id, "next sibling", next, n.next_sibling());
        self.eq(Comp::Views, id, "has attributes", !mn.attrs.is_empty(), n.has_attributes());
        self.eq(Comp::Name, id, "namespace", &mn.name.ns, &n.namespace_uri());
        self.eq(Comp::Name, id, "local name", &mn.name.local, &n.local_name());
        self.eq(Comp::Name, id, "prefix", &mn.name.prefix, &n.prefix());
        self.eq(Comp::Casts, id, "conversions", expected_casts(mn.kind).to_string(), casts(n));
        match mn.kind {
            Kind::Attr => {
                let v = m.attr_value(id);
                if let Ok(a) = as_attribute(n) {
                    self.eq(Comp::Value, id, &format!("value of {}", mn.name.qualified()), &v, &a.value());
                }
                self.eq(Comp::NodeValue, id, "node value", &v, &n.node_value());
            }
            Kind::Text | Kind::Comment | Kind::CData => {
                if let Ok(c) = as_character_data(n) {
                    let e = if mn.kind == Kind::CData { mn.data.clone() } else { mn.data.as_deref().map(escape) };
                    self.eq(Comp::CharData, id, "data", &e, &c.data());
                    self.eq(Comp::CharData, id, "length", e.map(|x| x.len()).unwrap_or(0), c.length());
                }
            }
            Kind::PI => {
                if let Ok(c) = as_processing_instruction(n) {
                    self.eq(Comp::PiData, id, "data", &mn.data, &c.data());
                    self.eq(Comp::Name, id, "target", mn.name.qualified(), c.target());
                }
            }
            Kind::DocType => {
                if let Ok(c) = as_document_type(n) {
                    self.eq(Comp::PubIds, id, "public id", &mn.public_id, &c.public_id());
                    self.eq(Comp::PubIds, id, "system id", &mn.system_id, &c.system_id());
                }
            }
            Kind::Entity => {
                if let Ok(c) = as_entity(n) {
                    self.eq(Comp::PubIds, id, "public id", &mn.public_id, &c.public_id());
                    self.eq(Comp::PubIds, id, "system id", &mn.system_id, &c.system_id());
                }
            }
            Kind::Notation => {
                if let Ok(c) = as_notation(n) {
                    self.eq(Comp::PubIds, id, "public id", &mn.public_id, &c.public_id());
                    self.eq(Comp::PubIds, id, "system id", &mn.system_id, &c.system_id());
                }
            }
            Kind::Element => self.element(id, n, depth, pools),
            Kind::Doc => {
                if let Ok(d) = as_document(n) {
                    self.is(Comp::DocElement, id, "document element", m.doc_element(id), d.document_element());
                    if depth.ids {
                        let mut vals: Vec<String> = mn.idmap.iter().map(|x| x.0.clone()).collect();
                        vals.extend(pools.ids.iter().cloned());
                        for v in vals {
                            self.is(Comp::Ids, id, &format!("element with id {:?}", v), m.lookup_id(id, &v), d.get_element_by_id(&v));
                        }
                    }
                    if depth.search {
                        for q in &pools.tags {
                            let r = d.get_elements_by_tag_name(q);
                            self.list(Comp::Search, id, &format!("elements named {:?}", q), &find(m, id, q), &r);
                        }
                        for (ns, l) in &pools.tags_ns {
                            let r = d.get_elements_by_tag_name_ns(ns, l);
                            self.list(Comp::Search, id, &format!("elements {{{}}}{}", ns, l), &find_ns(m, id, ns, l), &r);
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn element(&mut self, id: Id, n: &RefNode, depth: Depth, pools: &Pools) {
        let m = self.m;
        let mn = &m.nodes[id];
        let e = match as_element(n) {
            Ok(e) => e,
            Err(_) => return,
        };
        self.eq(Comp::Name, id, "tag name", mn.name.qualified(), e.tag_name());
        for q in &pools.attrs {
            let a = m.find_attr(id, q);
            self.is(Comp::Views, id, &format!("attribute node {}", q), a, e.get_attribute_node(q));
            self.eq(Comp::Views, id, &format!("attribute {}", q), a.and_then(|a| m.attr_value(a)), e.get_attribute(q));
            self.eq(Comp::Views, id, &format!("has attribute {}", q), a.is_some(), e.has_attribute(q));
        }
        for (ns, l) in &pools.attrs_ns {
            let a = m.find_attr_ns(id, ns, l);
            self.is(Comp::Views, id, &format!("attribute node {{{}}}{}", ns, l), a, e.get_attribute_node_ns(ns, l));
            self.eq(Comp::Views, id, &format!("attribute {{{}}}{}", ns, l), a.and_then(|a| m.attr_value(a)), e.get_attribute_ns(ns, l));
            self.eq(Comp::Views, id, &format!("has attribute {{{}}}{}", ns, l), a.is_some(), e.has_attribute_ns(ns, l));
        }
        if depth.search {
            for q in &pools.tags {
                let r = e.get_elements_by_tag_name(q);
                self.list(Comp::Search, id, &format!("elements named {:?}", q), &find(m, id, q), &r);
            }
            for (ns, l) in &pools.tags_ns {
                let r = e.get_elements_by_tag_name_ns(ns, l);
                self.list(Comp::Search, id, &format!("elements {{{}}}{}", ns, l), &find_ns(m, id, ns, l), &r);
            }
        }
        if depth.ns {
            let x = match as_element_namespaced(n) {
                Ok(x) => x,
                Err(_) => return,
            };
            let own = m.mappings(id);
            for p in &pools.prefixes {
                let mine = own.iter().find(|(k, _)| k == p).map(|x| x.1.clone());
                let pd = p.as_deref();
                self.eq(Comp::Ns, id, &format!("contains mapping {:?}", p), mine.is_some(), x.contains_mapping(pd));
                self.eq(Comp::Ns, id, &format!("namespace of {:?}", p), mine, x.get_namespace(pd));
                let mut cur = Some(id);
                let mut res = None;
                while let (Some(c), None) = (cur, &res) {
                    res = m.mappings(c).iter().find(|(k, _)| k == p).map(|x| x.1.clone());
                    cur = m.parent(c);
                }
                self.eq(Comp::Ns, id, &format!("resolved namespace of {:?}", p), res, x.resolve_namespace(pd));
            }
            for u in &pools.uris {
                let mine = prefixes(&own, u);
                self.eq(Comp::Ns, id, &format!("contains namespace {:?}", u), !mine.is_empty(), x.contains_mapped_namespace(u));
                let got = x.get_prefix(u);
                self.prefix(id, &format!("prefix of {:?}", u), &mine, got);
                let mut cur = Some(id);
                let mut res = vec![];
                while let (Some(c), true) = (cur, res.is_empty()) {
                    res = prefixes(&m.mappings(c), u);
                    cur = m.parent(c);
                }
                let got = x.resolve_prefix(u);
                self.prefix(id, &format!("resolved prefix of {:?}", u), &res, got);
            }
        }
    }

    fn prefix(&mut self, id: Id, what: &str, allowed: &[Option<String>], got: NamespacePrefix) {
        self.obs += 1;
        let said = (got.is_none(), got.is_default(), got.is_some(), got.clone().some());
        let is = match &got {
            NamespacePrefix::None => (true, false, false, None),
            NamespacePrefix::Default => (false, true, false, None),
            NamespacePrefix::Some(p) => (false, false, true, Some(p.clone())),
        };
        if said != is {
            self.diff(Comp::Ns, id, format!("{} is {:?}, which says of itself {:?}", what, got, said));
        }
        let ok = match &got {
            NamespacePrefix::None => allowed.is_empty(),
            NamespacePrefix::Default => allowed.contains(&None),
            NamespacePrefix::Some(p) => allowed.contains(&Some(p.clone())),
        };
        if !ok {
            self.diff(Comp::Ns, id, format!("{} expected one of {:?}, is {:?}", what, allowed, got));
        }
    }
}

fn prefixes(maps: &[(Option<String>, String)], uri: &str) -> Vec<Option<String>> {
    maps.iter().filter(|(_, u)| u == uri).map(|(p, _)| p.clone()).collect()
}

pub fn find(m: &Model, id: Id, q: &str) -> Vec<Id> {
    let mut d = vec![];
    m.descendants(id, &mut d);
    d.retain(|x| m.kind(*x) == Kind::Element && (q == "*" || m.nodes[*x].name.qualified() == q));
    d
}
pub fn find_ns(m: &Model, id: Id, ns: &str, local: &str) -> Vec<Id> {
    let mut d = vec![];
    m.descendants(id, &mut d);
    d.retain(|x| {
        let n = &m.nodes[*x].name;
        m.kind(*x) == Kind::Element && (ns == "*" || n.ns.as_deref() == Some(ns)) && (local == "*" || n.local == local)
    });
    d
}

/// Keep `n` of these, others for another `h`; those that are not `loose` in any case.
fn some<T: Ord + std::hash::Hash + Clone>(set: &mut BTreeSet<T>, n: usize, h: u64, loose: impl Fn(&T) -> bool) {
    use std::hash::{DefaultHasher, Hasher};
    if set.len() <= n {
        return;
    }
    let mut v: Vec<(u64, T)> = std::mem::take(set)
        .into_iter()
        .map(|t| {
            let mut x = DefaultHasher::new();
            t.hash(&mut x);
            (if loose(&t) { crate::rng::mix(x.finish() ^ h) | 1 } else { 0 }, t)
        })
        .collect();
    v.sort();
    v.truncate(n);
    set.extend(v.into_iter().map(|x| x.1));
}

/// A string that is easily confused with this one.
pub fn near(s: &str, h: u64) -> String {
    let swap = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    match h % 12 {
        0 | 1 => s.chars().map(swap).collect(),
        2 | 3 => {
            let n = s.chars().count().max(1);
            let at = (h >> 8) as usize % n;
            s.chars().enumerate().map(|(i, c)| if i == at { swap(c) } else { c }).collect()
        }
        4 => format!("{}x", s),
        5 => {
            let mut t = s.to_string();
            let _ = t.pop();
            t
        }
        6 => format!("p:{}", s),
        7 => s.rsplit(':').next().unwrap_or(s).to_string(),
        8 => format!("q{}", &s[s.find(':').unwrap_or(0)..]),
        9 => format!("{} ", s),
        10 => format!("{}/", s),
        _ => s.split(':').next().unwrap_or(s).to_string(),
    }
}

/// Argument values for queries, taken from what the history used so far.
pub struct Pools {
    pub ids: Vec<String>,
    pub prefixes: Vec<Option<String>>,
    pub uris: Vec<String>,
    pub tags: Vec<String>,
    pub tags_ns: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub attrs_ns: Vec<(String, String)>,
}

impl Pools {
    pub fn new(m: &Model) -> Pools {
        let mut ids = BTreeSet::new();
        let mut pre: BTreeSet<Option<String>> = [None, Some("p".to_string()), Some("xmlns".to_string()), Some("xml".to_string())].into();
        let mut uris: BTreeSet<String> = ["urn:n1".to_string(), XML_NS.to_string(), XMLNS_NS.to_string()].into();
        let mut tags: BTreeSet<String> = ["*".to_string()].into();
        let mut tags_ns: BTreeSet<(String, String)> = [("*".to_string(), "*".to_string())].into();
        let mut attrs = BTreeSet::new();
        let mut attrs_ns = BTreeSet::new();
        for (i, n) in m.nodes.iter().enumerate() {
            match n.kind {
                Kind::Element => {
                    tags.insert(n.name.qualified());
                    tags_ns.insert(("*".into(), n.name.local.clone()));
                    if let Some(ns) = &n.name.ns {
                        tags_ns.insert((ns.clone(), n.name.local.clone()));
                        tags_ns.insert((ns.clone(), "*".into()));
                    }
                    if let Some(p) = &n.name.prefix {
                        tags_ns.insert((p.clone(), n.name.local.clone()));
                        // In use, which is not the same as declared.
                        if n.alive {
                            pre.insert(Some(p.clone()));
                            uris.extend(n.name.ns.clone());
                        }
                    }
                }
                Kind::Attr => {
                    attrs.insert(n.name.qualified());
                    attrs.insert(n.name.local.clone());
                    if let Some(ns) = &n.name.ns {
                        attrs_ns.insert((ns.clone(), n.name.local.clone()));
                    }
                    attrs_ns.insert(("urn:n1".to_string(), n.name.local.clone()));
                    if n.name.is_ns_decl() {
                        pre.insert(n.name.declared_prefix());
                    }
                    if n.alive && (n.name.is_ns_decl() || n.name.local == "id") {
                        if let Some(v) = m.attr_value(i) {
                            if n.name.is_ns_decl() {
                                uris.insert(v);
                            } else {
                                ids.insert(v);
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        // If there are many, some of them each time.
        let h = m.nodes.len() as u64 * 31 + m.nodes.iter().filter(|n| n.alive).count() as u64 + m.steps;
        some(&mut tags, 7, h, |t| t != "*");
        some(&mut tags_ns, 10, h, |t| t.0 != "*" || t.1 != "*");
        some(&mut attrs, 12, h, |_| true);
        some(&mut attrs_ns, 12, h, |_| true);
        some(&mut pre, 8, h, |p| p.is_some());
        some(&mut uris, 8, h, |_| true);
        some(&mut ids, 8, h, |_| true);
        // Almost the right question: must have its own answer.
        let one = |v: Vec<String>, k: u64| -> Option<String> {
            let h = crate::rng::mix(h ^ k);
            (!v.is_empty()).then(|| near(&v[h as usize % v.len()], h >> 8))
        };
        if let Some(x) = one(tags.iter().cloned().collect(), 1) {
            tags.insert(x);
        }
        if let Some(x) = one(attrs.iter().cloned().collect(), 2) {
            attrs.insert(x);
        }
        if let Some(x) = one(ids.iter().cloned().collect(), 3) {
            ids.insert(x);
        }
        if let Some(x) = one(uris.iter().cloned().collect(), 4) {
            uris.insert(x);
        }
        if let Some(x) = one(pre.iter().flatten().cloned().collect(), 5) {
            pre.insert(Some(x));
        }
        for (set, k) in [(&mut tags_ns, 6), (&mut attrs_ns, 7)] {
            let h = crate::rng::mix(h ^ k);
            let v: Vec<(String, String)> = set.iter().cloned().collect();
            if !v.is_empty() {
                let (ns, l) = v[h as usize % v.len()].clone();
                set.insert(if h & 0x100 == 0 { (near(&ns, h >> 9), l) } else { (ns, near(&l, h >> 9)) });
            }
        }
        Pools {
            ids: ids.into_iter().collect(),
            prefixes: pre.into_iter().collect(),
            uris: uris.into_iter().collect(),
            tags: tags.into_iter().collect(),
            tags_ns: tags_ns.into_iter().collect(),
            attrs: attrs.into_iter().collect(),
            attrs_ns: attrs_ns.into_iter().collect(),
        }
    }
}

/// Monitor over the real nodes alone: links must agree and must not form a cycle, attributes must know
/// their element and must not collide. Every walk is bounded.
pub fn links(slots: &[Option<RefNode>]) -> Vec<Diff> {
    const BOUND: usize = 20_000;
    let mut out: Vec<Diff> = vec![];
    let mut bad = |comp: Comp, s: String| {
        if out.len() < 20 {
            out.push(Diff { comp, node: None, detail: s })
        }
    };
    let mut seen: HashMap<usize, RefNode> = HashMap::new();
    let mut todo: Vec<RefNode> = slots.iter().flatten().cloned().collect();
    let mut holder: HashMap<usize, usize> = HashMap::new();
    let mut elem: HashMap<usize, usize> = HashMap::new();
    while let Some(n) = todo.pop() {
        if seen.len() > BOUND || seen.insert(addr(&n), n.clone()).is_some() {
            continue;
        }
        let ch = n.child_nodes();
        for (i, c) in ch.iter().enumerate() {
            if holder.insert(addr(c), addr(&n)).is_some() {
                bad(Comp::Link, format!("{:?} {} is in two places of child lists", kind_of(c), c.node_name()));
            }
            match c.parent_node() {
                Some(p) if p == n => {}
                Some(p) => bad(Comp::Link, format!("child {} {} has parent {}", i, c.node_name(), p.node_name())),
                None => bad(Comp::Link, format!("child {} {} of {} has no parent", i, c.node_name(), n.node_name())),
            }
            todo.push(c.clone());
        }
        if let Some(p) = n.parent_node() {
            if kind_of(&n) == Kind::Attr {
                bad(Comp::Link, format!("attribute {} has a parent", n.node_name()));
            } else if !p.child_nodes().contains(&n) {
                bad(Comp::Link, format!("{} has a parent that does not have it as child", n.node_name()));
            }
            todo.push(p);
        }
        if kind_of(&n) == Kind::Element {
            let map = n.attributes();
            for (k, a) in &map {
                if map.get(&a.node_name()) != Some(a) {
                    bad(Comp::Attrs, format!("attribute {} is not found in the map by its name", k));
                }
            }
            let names: Vec<(Name, RefNode)> = map.into_iter().collect();
            for (i, (k, a)) in names.iter().enumerate() {
                if *k != a.node_name() {
                    bad(Comp::Attrs, format!("attribute {} is kept under the name {}", a.node_name(), k));
                }
                if elem.insert(addr(a), addr(&n)).is_some() {
                    bad(Comp::AttrOwner, format!("attribute {} belongs to two elements", k));
                }
                if as_attribute(a).ok().and_then(|a| a.owner_element()) != Some(n.clone()) {
                    bad(Comp::AttrOwner, format!("attribute {} does not know its element", k));
                }
                for (k2, _) in &names[i + 1..] {
                    if k.to_string() == k2.to_string()
                        || (k.namespace_uri().is_some()
                            && k.namespace_uri() == k2.namespace_uri()
                            && k.local_name() == k2.local_name())
                    {
                        bad(Comp::Attrs, format!("element has both {:?} and {:?}", k, k2));
                    }
                }
                todo.push(a.clone());
            }
        }
        if kind_of(&n) == Kind::Attr {
            if let Some(o) = as_attribute(&n).ok().and_then(|a| a.owner_element()) {
                if !o.attributes().values().any(|x| *x == n) {
                    bad(Comp::AttrOwner, format!("attribute {} names an element that does not have it", n.node_name()));
                }
                todo.push(o);
            }
        }
        // own ancestor?
        let mut cur = n.parent_node();
        let mut steps = 0;
        while let Some(c) = cur {
            steps += 1;
            if c == n || steps > BOUND {
                bad(Comp::Link, format!("{} is its own ancestor", n.node_name()));
                break;
            }
            cur = c.parent_node();
        }
    }
    out
}
