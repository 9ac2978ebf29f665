//! Trees hundreds of levels deep, and questions asked across all those levels.
//!
//! The tree the monitor believes in is a plain list of entries that is changed along with the real
//! one; everything expected is worked out from it, by loops and not by recursion.
use crate::ctx::{Bad, Ctx};
use crate::exec::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::{guard, Caught};
use crate::xmlread::{read, Item};
use std::collections::{BTreeMap, HashMap};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::as_element_namespaced;
use xml_dom::level2::ext::dom_impl as extdom;
use xml_dom::level2::ext::{NamespacePrefix, ProcessingOptions};
use xml_dom::level2::*;

const DEPTHS: &[usize] = &[
    64, 100, 127, 128, 129, 130, 160, 200, 250, 254, 255, 256, 257, 258, 260, 300, 320, 384, 400, 500, 511, 512, 513, 600, 640, 700, 768,
    800, 900, 999, 1000, 1001, 1023, 1024, 1025,
];
const URIS: &[&str] = &["urn:n1", "urn:n2", "urn:n3"];
const PREFIXES: &[&str] = &["p", "q", "r", "s"];

struct N {
    node: RefNode,
    kind: NodeType,
    name: String,
    ns: Option<String>,
    local: String,
    data: String,
    up: Option<usize>,
    kids: Vec<usize>,
    decls: BTreeMap<Option<String>, String>,
    id: Option<String>,
}

struct T {
    ns: bool,
    ids: bool,
    l: Vec<N>,
    marks: u64,
}

type Fail = (&'static [&'static str], String);
type Res = std::result::Result<(), Fail>;

fn fail(tags: &'static [&'static str], t: String) -> Res {
    Err((tags, t))
}
macro_rules! ask {
    ($s:expr, $tags:expr, $ok:expr, $($f:tt)*) => {
        $s.marks += 1;
        if !$ok {
            return Err((&$tags, format!($($f)*)));
        }
    };
}
fn done<X>(tags: &'static [&'static str], what: &str, r: R<X>) -> std::result::Result<X, Fail> {
    r.map_err(|e| (tags, format!("{} is refused: {:?}", what, e)))
}

impl T {
    fn add(&mut self, node: RefNode, name: &str, ns: Option<&str>, data: &str) -> usize {
        let kind = node.node_type();
        let local = name.rsplit(':').next().unwrap().to_string();
        let e = N {
            node,
            kind,
            name: name.into(),
            ns: ns.map(String::from),
            local,
            data: data.into(),
            up: None,
            kids: vec![],
            decls: BTreeMap::new(),
            id: None,
        };
        self.l.push(e);
        self.l.len() - 1
    }
    fn doc(&self) -> RefDocument<'_> {
        as_document(&self.l[0].node).unwrap()
    }
    fn level(&self, i: usize) -> usize {
        let mut n = 0;
        let mut at = self.l[i].up;
        while let Some(u) = at {
            n += 1;
            at = self.l[u].up;
        }
        n
    }
    /// The entry and everything below it, in document order.
    fn below(&self, i: usize) -> Vec<usize> {
        let mut out = vec![];
        let mut todo = vec![i];
        while let Some(x) = todo.pop() {
            out.push(x);
            todo.extend(self.l[x].kids.iter().rev());
        }
        out
    }
    fn holds(&self, top: usize, i: usize) -> bool {
        let mut at = Some(i);
        while let Some(x) = at {
            if x == top {
                return true;
            }
            at = self.l[x].up;
        }
        false
    }
    fn elements(&self) -> Vec<usize> {
        (0..self.l.len()).filter(|i| self.l[*i].kind == NodeType::Element).collect()
    }
    fn parents(&self) -> Vec<usize> {
        (0..self.l.len()).filter(|i| matches!(self.l[*i].kind, NodeType::Element | NodeType::EntityReference)).collect()
    }
    fn deepest(&self, i: usize) -> usize {
        let mut at = i;
        let mut best = (0, i);
        let base = self.level(i);
        for x in self.below(i) {
            if self.l[x].kind == NodeType::Element {
                let n = self.level_from(x, i) + base;
                if n > best.0 {
                    best = (n, x);
                }
            }
        }
        if best.0 > 0 {
            at = best.1;
        }
        at
    }
    fn level_from(&self, i: usize, top: usize) -> usize {
        let mut n = 0;
        let mut at = i;
        while at != top {
            at = self.l[at].up.unwrap();
            n += 1;
        }
        n
    }

    /// Put `c` into `p` at position `at`, there and here.
    fn put(&mut self, p: usize, c: usize, at: usize, how: usize) -> Res {
        let mut pn = self.l[p].node.clone();
        let cn = self.l[c].node.clone();
        let got = if at >= self.l[p].kids.len() {
            if how % 2 == 0 {
                pn.append_child(cn.clone())
            } else {
                pn.insert_before(cn.clone(), None)
            }
        } else {
            let before = self.l[self.l[p].kids[at]].node.clone();
            pn.insert_before(cn.clone(), Some(before))
        };
        let got = done(&["C04", "C02"], "an insertion", got)?;
        ask!(self, ["C02"], got == cn, "an insertion returns another node");
        if let Some(o) = self.l[c].up {
            let was = self.l[o].kids.iter().position(|k| *k == c).unwrap();
            let _ = self.l[o].kids.remove(was);
        }
        let at = at.min(self.l[p].kids.len());
        self.l[p].kids.insert(at, c);
        self.l[c].up = Some(p);
        Ok(())
    }

    fn declare(&mut self, i: usize, prefix: Option<&str>, uri: Option<&str>) -> Res {
        let mut n = self.l[i].node.clone();
        let q = prefix.map_or("xmlns".to_string(), |p| format!("xmlns:{}", p));
        let e = as_element_mut(&mut n).unwrap();
        match uri {
            Some(u) => {
                done(&["C06", "C12"], "a declaration", e.set_attribute_ns(XMLNS_NS, &q, u))?;
                let _ = self.l[i].decls.insert(prefix.map(String::from), u.into());
            }
            None => {
                done(&["C06", "C12"], "removing a declaration", e.remove_attribute(&q))?;
                let _ = self.l[i].decls.remove(&prefix.map(String::from));
            }
        }
        Ok(())
    }
    fn identify(&mut self, i: usize, id: Option<&str>) -> Res {
        let q = if self.ids { "id" } else { "xml:id" };
        let taken = id.is_some_and(|id| self.l.iter().enumerate().any(|(k, n)| k != i && n.id.as_deref() == Some(id)));
        let mut n = self.l[i].node.clone();
        let e = as_element_mut(&mut n).unwrap();
        match id {
            Some(v) => {
                let r = e.set_attribute(q, v);
                ask!(self, ["C11"], r.is_err() == taken, "setting identifier {:?}, taken: {}, answers {:?}", v, taken, r.is_ok());
                if !taken {
                    self.l[i].id = Some(v.into());
                }
            }
            None => {
                done(&["C06", "C11"], "removing an identifier", e.remove_attribute(q))?;
                self.l[i].id = None;
            }
        }
        Ok(())
    }

    // --------------------------------------------------------------------------------------------
    // What must be seen

    fn check_links(&mut self, top: usize) -> Res {
        for i in self.below(top) {
            let n = self.l[i].node.clone();
            let kids: Vec<RefNode> = self.l[i].kids.iter().map(|k| self.l[*k].node.clone()).collect();
            let lev = || self.level(i);
            let real = n.child_nodes();
            if real != kids {
                return fail(&["C02", "C01"], format!("the children of a node on level {} are not the expected ones ({} instead of {})", lev(), real.len(), kids.len()));
            }
            let up = self.l[i].up.map(|u| self.l[u].node.clone());
            if n.parent_node() != up {
                return fail(&["C01"], format!("wrong parent on level {}", lev()));
            }
            if n.first_child().as_ref() != kids.first() || n.last_child().as_ref() != kids.last() || n.has_child_nodes() == kids.is_empty() {
                return fail(&["C01"], format!("wrong first or last child on level {}", lev()));
            }
            for (k, c) in kids.iter().enumerate() {
                if c.next_sibling().as_ref() != kids.get(k + 1) || c.previous_sibling().as_ref() != if k == 0 { None } else { kids.get(k - 1) } {
                    return fail(&["C01"], format!("wrong sibling below level {}", lev()));
                }
            }
            if i != 0 && n.owner_document().as_ref() != Some(&self.l[0].node) {
                return fail(&["C05"], format!("wrong owner document on level {}", lev()));
            }
            if self.l[i].kind == NodeType::Element && (n.node_name().to_string() != self.l[i].name || n.node_name().namespace_uri() != &self.l[i].ns) {
                return fail(&["C24"], format!("wrong name on level {}", lev()));
            }
            self.marks += 6 + 2 * kids.len() as u64;
        }
        Ok(())
    }

    fn check_namespaces(&mut self, i: usize) -> Res {
        let n = self.l[i].node.clone();
        let e = as_element_namespaced(&n).unwrap();
        let lev = self.level(i);
        for p in [None, Some("p"), Some("q"), Some("r"), Some("s"), Some("none")] {
            let mut want = None;
            let mut at = Some(i);
            while let (true, Some(x)) = (self.ns, at) {
                want = self.l[x].decls.get(&p.map(String::from)).cloned();
                if want.is_some() {
                    break;
                }
                at = self.l[x].up;
            }
            let got = e.resolve_namespace(p);
            ask!(self, ["C12"], got == want, "prefix {:?} on level {} is {:?}, expected {:?}", p, lev, got, want);
            let own = if self.ns { self.l[i].decls.get(&p.map(String::from)).cloned() } else { None };
            ask!(self, ["C12"], e.get_namespace(p) == own, "own mapping of {:?} on level {}, expected {:?}", p, lev, own);
        }
        for u in URIS {
            let mut want: Vec<Option<String>> = vec![];
            let mut at = Some(i);
            while let (true, Some(x)) = (self.ns, at) {
                want = self.l[x].decls.iter().filter(|(_, v)| v == u).map(|(k, _)| k.clone()).collect();
                if !want.is_empty() {
                    break;
                }
                at = self.l[x].up;
            }
            let got = e.resolve_prefix(u);
            let fits = match &got {
                NamespacePrefix::None => want.is_empty(),
                NamespacePrefix::Default => want.contains(&None),
                NamespacePrefix::Some(s) => want.contains(&Some(s.clone())),
            };
            ask!(self, ["C12"], fits, "the prefix of {:?} on level {} is {:?}, expected one of {:?}", u, lev, got, want);
        }
        Ok(())
    }

    fn check_searches(&mut self, i: usize) -> Res {
        let n = self.l[i].node.clone();
        let order = self.below(i);
        let found = |f: &dyn Fn(&N) -> bool| -> Vec<RefNode> {
            order[1..].iter().filter(|x| self.l[**x].kind == NodeType::Element && f(&self.l[**x])).map(|x| self.l[*x].node.clone()).collect()
        };
        let lev = self.level(i);
        let mut marks = 0;
        for q in ["*", "a", "b", "p:a", "q:a", "zz"] {
            let got = if i == 0 { self.doc().get_elements_by_tag_name(q) } else { Element::get_elements_by_tag_name(&n, q) };
            let want = found(&|e: &N| q == "*" || e.name == q);
            marks += 1;
            if got != want {
                return fail(&["C13"], format!("search for {:?} on level {} finds {}, expected {}", q, lev, got.len(), want.len()));
            }
        }
        for u in ["*", "urn:n1", "urn:n2", "urn:n9"] {
            for l in ["*", "a", "b", "p:a"] {
                let got = if i == 0 { self.doc().get_elements_by_tag_name_ns(u, l) } else { Element::get_elements_by_tag_name_ns(&n, u, l) };
                let want = found(&|e: &N| (u == "*" || e.ns.as_deref() == Some(u)) && (l == "*" || e.local == l));
                marks += 1;
                if got != want {
                    return fail(&["C13"], format!("search for {:?} {:?} on level {} finds {}, expected {}", u, l, lev, got.len(), want.len()));
                }
            }
        }
        self.marks += marks;
        Ok(())
    }

    fn check_ids(&mut self) -> Res {
        let d = self.l[0].node.clone();
        let d = as_document(&d).unwrap();
        let all: Vec<(String, RefNode)> = self.l.iter().filter_map(|n| Some((n.id.clone()?, n.node.clone()))).collect();
        for (id, n) in &all {
            let got = d.get_element_by_id(id);
            ask!(self, ["C11"], got.as_ref() == Some(n), "identifier {:?} of {} is not found", id, all.len());
        }
        ask!(self, ["C11"], d.get_element_by_id("never").is_none(), "an identifier that was never set is found");
        Ok(())
    }

    /// Neither a node nor anything that holds it goes below it.
    fn check_cycles(&mut self, r: &mut Rng) -> Res {
        let ps = self.parents();
        for k in 0..4 {
            let low = if k == 0 { self.deepest(1) } else { *r.pick(&ps) };
            let mut high = low;
            for _ in 0..if k < 2 { usize::MAX } else { r.below(600) } {
                match self.l[high].up {
                    Some(u) if u != 0 => high = u,
                    _ => break,
                }
            }
            let (mut p, c) = (self.l[low].node.clone(), self.l[high].node.clone());
            let what = format!("level {} below level {}", self.level(high), self.level(low));
            let first = p.first_child();
            let got = match r.below(3) {
                0 => p.append_child(c).err(),
                1 => p.insert_before(c, first).err(),
                _ => match first {
                    Some(f) if f != c => p.replace_child(c, f).err(),
                    _ => p.append_child(c).err(),
                },
            };
            ask!(self, ["C04", "C01"], got == Some(Error::HierarchyRequest), "{}: {:?}", what, got);
        }
        Ok(())
    }

    /// Returns the copy.
    fn check_clone(&mut self, i: usize) -> std::result::Result<RefNode, Fail> {
        let n = self.l[i].node.clone();
        let lev = self.level(i);
        let Some(c) = n.clone_node(true) else {
            return Err((&["C14"], "no clone".into()));
        };
        let mut todo = vec![(n, c.clone())];
        ask!(self, ["C14"], c.parent_node().is_none(), "the clone of level {} has a parent", lev);
        let mut below = 0;
        while let Some((x, y)) = todo.pop() {
            let bad = |t: &str| -> std::result::Result<RefNode, Fail> { Err((&["C14"], format!("the clone of level {}, {} nodes on: {}", lev, below, t))) };
            if x == y {
                return bad("a shared node");
            }
            if x.node_type() != y.node_type() || x.node_name() != y.node_name() || x.node_value() != y.node_value() {
                return bad("another kind, name or value");
            }
            if x.owner_document() != y.owner_document() {
                return Err((&["C05", "C14"], format!("the clone of level {}, {} nodes on: another owner", lev, below)));
            }
            let (ka, kb) = (x.child_nodes(), y.child_nodes());
            if ka.len() != kb.len() {
                return bad("another number of children");
            }
            for k in &kb {
                if k.parent_node().as_ref() != Some(&y) {
                    return Err((&["C01", "C14"], format!("the clone of level {}, {} nodes on: another parent", lev, below)));
                }
            }
            let (aa, ab) = (x.attributes(), y.attributes());
            if aa.len() != ab.len() {
                return bad("another number of attributes");
            }
            for (k, v) in &aa {
                let Some(w) = ab.get(k) else { return bad("an attribute is missing") };
                if w == v || v.node_value() != w.node_value() {
                    return bad("a shared or different attribute");
                }
                if as_attribute(w).unwrap().owner_element().as_ref() != Some(&y) {
                    return Err((&["C07", "C14"], format!("the clone of level {}, {} nodes on: an attribute has another owner", lev, below)));
                }
            }
            todo.extend(ka.into_iter().zip(kb));
            below += 1;
            self.marks += 6;
        }
        // What is done to the copy is not seen in the original.
        Ok(c)
    }

    fn item(&self, i: usize) -> Vec<Item> {
        let mut made: HashMap<usize, Vec<Item>> = HashMap::new();
        for x in self.below(i).into_iter().rev() {
            let n = &self.l[x];
            let mut kids: Vec<Item> = vec![];
            for k in &n.kids {
                for it in made.remove(k).unwrap() {
                    match (kids.last_mut(), it) {
                        (Some(Item::Text(t)), Item::Text(u)) => t.push_str(&u),
                        (_, it) => kids.push(it),
                    }
                }
            }
            let one = match n.kind {
                NodeType::Element => {
                    let mut attrs: BTreeMap<String, String> =
                        n.decls.iter().map(|(p, u)| (p.as_ref().map_or("xmlns".into(), |p| format!("xmlns:{}", p)), u.clone())).collect();
                    if let Some(id) = &n.id {
                        let _ = attrs.insert(if self.ids { "id" } else { "xml:id" }.into(), id.clone());
                    }
                    vec![Item::Elem { name: n.name.clone(), attrs, children: kids }]
                }
                NodeType::Text if n.data.is_empty() => vec![],
                NodeType::Text => vec![Item::Text(n.data.clone())],
                NodeType::CData => vec![Item::CData(n.data.clone())],
                NodeType::Comment => vec![Item::Comment(n.data.clone())],
                NodeType::EntityReference => vec![Item::Ref(n.name.clone())],
                _ => kids,
            };
            let _ = made.insert(x, one);
        }
        made.remove(&i).unwrap()
    }
    fn check_text(&mut self, i: usize) -> Res {
        let t = self.l[i].node.to_string();
        let lev = self.level(i);
        match read(&t) {
            Err(e) => fail(&["C16"], format!("the text form of level {} is not well formed: {}", lev, e)),
            Ok(got) => {
                ask!(self, ["C16"], got == self.item(i), "the text form of level {} is of another tree", lev);
                Ok(())
            }
        }
    }

    /// Afterwards the entries are what is there.
    fn normalize(&mut self, i: usize) -> Res {
        let mut n = self.l[i].node.clone();
        n.normalize();
        let lev = self.level(i);
        for x in self.below(i) {
            let real = self.l[x].node.child_nodes();
            let at = self.level(x);
            let shape = |l: &[(Option<RefNode>, String)]| {
                let mut out: Vec<(Option<RefNode>, String)> = vec![];
                for (n, t) in l {
                    match (n, out.last_mut()) {
                        (None, Some((None, s))) => s.push_str(t),
                        _ => out.push((n.clone(), t.clone())),
                    }
                }
                out.retain(|(n, t)| n.is_some() || !t.is_empty());
                out
            };
            let seen = |n: &RefNode| if n.node_type() == NodeType::Text { (None, n.node_value().unwrap_or_default()) } else { (Some(n.clone()), String::new()) };
            let was: Vec<_> = self.l[x].kids.iter().map(|k| if self.l[*k].kind == NodeType::Text { (None, self.l[*k].data.clone()) } else { (Some(self.l[*k].node.clone()), String::new()) }).collect();
            let is: Vec<_> = real.iter().map(seen).collect();
            let want = shape(&was);
            ask!(self, ["C10"], shape(&is) == want, "normalising level {} changes text or nodes on level {}", lev, at);
            ask!(self, ["C10"], is == want, "normalising level {} leaves empty or adjacent text on level {}", lev, at);
            // Take over the text nodes there are.
            let old = std::mem::take(&mut self.l[x].kids);
            for n in real {
                let k = match old.iter().find(|k| self.l[**k].node == n) {
                    Some(k) => *k,
                    None => self.add(n.clone(), "#text", None, ""),
                };
                if self.l[k].kind == NodeType::Text {
                    self.l[k].data = n.node_value().unwrap_or_default();
                }
                self.l[k].up = Some(x);
                self.l[x].kids.push(k);
            }
            for k in old {
                if !self.l[x].kids.contains(&k) {
                    self.l[k].up = None;
                }
            }
        }
        Ok(())
    }

    fn leaf(&mut self, r: &mut Rng) -> usize {
        let d = self.l[0].node.clone();
        let d = as_document(&d).unwrap();
        match r.below(8) {
            0 => self.add(d.create_comment("c"), "#comment", None, "c"),
            1 => self.add(d.create_cdata_section("<&").unwrap(), "#cdata", None, "<&"),
            2 => self.add(d.create_text_node(""), "#text", None, ""),
            3 => self.add(d.create_entity_reference("x").unwrap(), "x", None, ""),
            k => {
                let t = *r.pick(&["t", "<&>", "u", "\u{e9}", "]]"]);
                let _ = k;
                self.add(d.create_text_node(t), "#text", None, t)
            }
        }
    }
    fn element(&mut self, r: &mut Rng) -> usize {
        let d = self.l[0].node.clone();
        let d = as_document(&d).unwrap();
        let q = *r.pick(&["a", "b", "p:a", "q:a"]);
        if r.chance(1, 2) {
            let u = *r.pick(&URIS[..2]);
            self.add(d.create_element_ns(u, q).unwrap(), q, Some(u), "")
        } else {
            self.add(d.create_element(q).unwrap(), q, None, "")
        }
    }

    fn build(&mut self, r: &mut Rng, depth: usize) -> Res {
        let leaves = *r.pick(&[0, 0, 1, 3]);
        let decl = *r.pick(&[2, 20, 200, 5000]);
        let idd = *r.pick(&[2, 20, 400]);
        let refs = *r.pick(&[10, 50, 2000]);
        let root = self.element(r);
        if r.chance(1, 2) {
            self.put(0, root, 0, 0)?;
        }
        let outside_in = r.chance(1, 2);
        let mut at = root;
        let mut joints = vec![];
        for i in 0..depth {
            let e = if r.chance(1, refs) {
                let d = self.l[0].node.clone();
                let n = as_document(&d).unwrap().create_entity_reference("x").unwrap();
                self.add(n, "x", None, "")
            } else {
                self.element(r)
            };
            if outside_in {
                self.put(at, e, 0, i)?;
            } else {
                joints.push((at, e));
            }
            for _ in 0..leaves {
                if r.chance(1, 2) {
                    let l = self.leaf(r);
                    let pos = r.below(self.l[e].kids.len() + 1);
                    self.put(e, l, pos, i)?;
                }
            }
            if self.l[e].kind == NodeType::Element {
                if i < 3 || r.chance(1, decl) {
                    let p = *r.pick(&[None, Some("p"), Some("q"), Some("r"), Some("s")]);
                    let u = *r.pick(URIS);
                    self.declare(e, p, Some(u))?;
                }
                if r.chance(1, idd) {
                    self.identify(e, Some(&format!("i{}", i)))?;
                }
            }
            at = e;
        }
        while let Some((p, c)) = joints.pop() {
            let pos = r.below(self.l[p].kids.len() + 1);
            self.put(p, c, pos, 0)?;
        }
        Ok(())
    }

    fn change(&mut self, r: &mut Rng) -> Res {
        let es = self.elements();
        let ps = self.parents();
        match r.below(6) {
            0 | 1 => {
                // A part goes elsewhere.
                let c = *r.pick(&es);
                let p = *r.pick(&ps);
                if !self.holds(c, p) && self.l[c].up != Some(0) && c != 1 {
                    let same = self.l[c].up == Some(p);
                    let pos = if same { usize::MAX } else { r.below(self.l[p].kids.len() + 1) };
                    self.put(p, c, pos, r.below(2))?;
                }
            }
            2 => {
                let (e, p, u) = (*r.pick(&es), *r.pick(PREFIXES), *r.pick(URIS));
                self.declare(e, Some(p), Some(u))?;
            }
            3 => {
                let with: Vec<usize> = es.iter().copied().filter(|e| !self.l[*e].decls.is_empty()).collect();
                if !with.is_empty() {
                    let e = *r.pick(&with);
                    let p = self.l[e].decls.keys().next().cloned().unwrap();
                    self.declare(e, p.as_deref(), None)?;
                }
            }
            4 => {
                let e = *r.pick(&es);
                let id = if r.chance(1, 2) { Some(format!("i{}", r.below(40))) } else { None };
                self.identify(e, id.as_deref())?;
            }
            _ => {
                // A part is taken out and put back in.
                let c = *r.pick(&es);
                if let Some(p) = self.l[c].up.filter(|p| *p != 0) {
                    let mut pn = self.l[p].node.clone();
                    let pos = self.l[p].kids.iter().position(|k| *k == c).unwrap();
                    let got = done(&["C02"], "a removal", pn.remove_child(self.l[c].node.clone()))?;
                    ask!(self, ["C02"], got == self.l[c].node && got.parent_node().is_none(), "a removal answers another node, or leaves the parent");
                    let _ = self.l[p].kids.remove(pos);
                    self.l[c].up = None;
                    let low = self.deepest(c);
                    self.check_namespaces(low)?;
                    self.check_links(c)?;
                    self.put(p, c, pos, 0)?;
                }
            }
        }
        Ok(())
    }
}

fn run(ctx: &mut Ctx, idx: u64, marks: &mut u64) -> Res {
    let mut r = Rng::new(ctx.seed, "abyss", idx);
    let depth = DEPTHS[idx as usize % DEPTHS.len()] + if idx as usize / DEPTHS.len() % 2 == 1 { r.below(40) } else { 0 };
    let (ns, ids) = (!r.chance(1, 6), r.chance(1, 2));
    let mut o = ProcessingOptions::new();
    if ns {
        o.set_add_namespaces();
    }
    if ids {
        o.set_assume_ids();
    }
    let d = extdom::get_implementation_ext().create_document_with_options(None, None, None, o).unwrap();
    let mut t = T { ns, ids, l: vec![], marks: 0 };
    let _ = t.add(d, "#document", None, "");
    let res = (|| {
        t.build(&mut r, depth)?;
        for round in 0..3 {
            let es = t.elements();
            t.check_links(0)?;
            t.check_links(1)?;
            let low = t.deepest(1);
            for e in [low, 1, *r.pick(&es), *r.pick(&es), *r.pick(&es)] {
                t.check_namespaces(e)?;
            }
            t.check_ids()?;
            for e in [0, 1, *r.pick(&es)] {
                t.check_searches(e)?;
            }
            t.check_cycles(&mut r)?;
            let some = *r.pick(&es);
            for e in [0, 1, some] {
                t.check_text(e)?;
            }
            for e in [1, some] {
                let mut c = t.check_clone(e)?;
                if round == 1 {
                    // Nothing done to the copy is seen in the original.
                    c.normalize();
                    let mut at = c.clone();
                    while let Some(x) = at.child_nodes().into_iter().find(|k| k.node_type() == NodeType::Element) {
                        at = x;
                    }
                    let _ = at.append_child(t.doc().create_comment("only here")).unwrap();
                    if let Some(f) = at.first_child() {
                        let _ = at.remove_child(f);
                    }
                    t.check_text(e).map_err(|(_, x)| -> Fail { (&["C14"], format!("after changing a copy: {}", x)) })?;
                }
            }
            if round == 2 || r.chance(1, 3) {
                let e = if r.chance(2, 3) { 1 } else { *r.pick(&es) };
                t.normalize(e)?;
            }
            for _ in 0..6 {
                t.change(&mut r)?;
            }
        }
        t.check_links(0)?;
        t.check_links(1)
    })();
    *marks = t.marks;
    res?;
    // Who is alive in the end.
    let keep = match r.below(4) {
        0 => 0,
        1 => 1,
        2 => t.deepest(1),
        _ => *r.pick(&t.elements()),
    };
    let live: Vec<bool> = (0..t.l.len()).map(|i| t.holds(keep, i)).collect();
    let weak: Vec<_> = t.l.iter().map(|n| n.node.clone().downgrade()).collect();
    let names: Vec<usize> = (0..t.l.len()).map(|i| t.level(i)).collect();
    let kept = t.l.swap_remove(keep).node;
    drop(t);
    for (i, w) in weak.into_iter().enumerate() {
        *marks += 1;
        if w.upgrade().is_some() != live[i] {
            return fail(&["C19"], format!("a node of level {} is {}, level {} is held", names[i], if live[i] { "gone" } else { "still there" }, names[keep]));
        }
    }
    let _ = kept.node_name();
    Ok(())
}

pub fn abyss(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    ctx.evals += 1;
    let _ = ctx.distinct.insert(0x3000_0000 + idx);
    ctx.sample(|| format!("a tree {} levels deep and its changes, {}", DEPTHS[idx as usize % DEPTHS.len()], idx));
    let mut marks = 0;
    let r = guard(|| run(ctx, idx, &mut marks));
    ctx.count("observations_compared", marks);
    ctx.count("deep_trees", 1);
    match r {
        Caught::Fine(Ok(())) => None,
        Caught::Fine(Err((tags, t))) => Some(Bad::new(tags, format!("in a deep tree: {}", t), String::new())),
        Caught::Panicked(s) => Some(Bad::new(&["C18"], format!("in a deep tree: {}", s), String::new())),
    }
}
