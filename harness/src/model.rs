//! Reference model of the DOM: an arena with explicit ownership and liveness.
use crate::op::{Op, K};
use crate::oracle::*;
use xml_dom::level2::Error;

pub type Id = usize;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    Element,
    Attr,
    Text,
    CData,
    EntRef,
    Entity,
    PI,
    Comment,
    Doc,
    DocType,
    Frag,
    Notation,
}
pub const KINDS: [Kind; 12] = [
    Kind::Element,
    Kind::Attr,
    Kind::Text,
    Kind::CData,
    Kind::EntRef,
    Kind::Entity,
    Kind::PI,
    Kind::Comment,
    Kind::Doc,
    Kind::DocType,
    Kind::Frag,
    Kind::Notation,
];

#[derive(Clone, Debug, PartialEq)]
pub struct Decl {
    pub v11: bool,
    pub enc: Option<String>,
    pub sa: Option<bool>,
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub kind: Kind,
    pub name: QName,
    pub data: Option<String>,
    pub parent: Option<Id>,
    pub owner_doc: Option<Id>,
    pub children: Vec<Id>,
    pub attrs: Vec<Id>,
    pub owner_elem: Option<Id>,
    pub public_id: Option<String>,
    pub system_id: Option<String>,
    pub doctype: Option<Id>,
    pub opts: u8,
    pub decl: Option<Decl>,
    pub idmap: Vec<(String, Id)>,
    pub alive: bool,
    /// Nodes that are copies of each other share a lineage.
    pub lineage: u32,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub nodes: Vec<MNode>,
    pub slots: Vec<Option<Id>>,
    next_lineage: u32,
    /// Operations so far.
    pub steps: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Node(Id),
    OptNode(Option<Id>),
    Str(String),
}

/// What may happen: success with a value, or one of the errors; the state changes only if an error
/// is not possible.
#[derive(Clone, Debug, Default)]
pub struct Pred {
    pub skip: bool,
    pub ok: Option<Val>,
    pub errs: Vec<Error>,
    pub operands: Vec<Id>,
    pub cycle: bool,
    pub dup_id: bool,
}

pub const CDATA_NAME: &str = "#cdata-section";

pub fn allowed(parent: Kind, child: Kind) -> bool {
    use Kind::*;
    match parent {
        Element | EntRef | Entity | Frag => matches!(child, Element | Text | Comment | PI | CData | EntRef),
        Attr => matches!(child, Text | EntRef),
        Doc => matches!(child, Element | Comment | PI),
        _ => false,
    }
}

type Eff = Result<Val, Vec<Error>>;

impl Model {
    pub fn new(slots: usize) -> Self {
        Model { nodes: vec![], slots: vec![None; slots], next_lineage: 0, steps: 0 }
    }
    pub fn slot(&self, i: i32) -> Option<Id> {
        if i < 0 {
            None
        } else {
            self.slots.get(i as usize).copied().flatten()
        }
    }
    pub fn kind(&self, id: Id) -> Kind {
        self.nodes[id].kind
    }
    fn add(&mut self, kind: Kind, name: QName, owner: Option<Id>) -> Id {
        let lineage = self.next_lineage;
        self.next_lineage += 1;
        self.nodes.push(MNode {
            kind,
            name,
            data: None,
            parent: None,
            owner_doc: owner,
            children: vec![],
            attrs: vec![],
            owner_elem: None,
            public_id: None,
            system_id: None,
            doctype: None,
            opts: 0,
            decl: None,
            idmap: vec![],
            alive: true,
            lineage,
        });
        self.nodes.len() - 1
    }
    fn add_text(&mut self, owner: Option<Id>, data: &str) -> Id {
        let t = self.add(Kind::Text, QName::plain("#text"), owner);
        self.nodes[t].data = Some(data.to_string());
        t
    }

    // ---------------------------------------------------------------- observations

    pub fn live(&self, id: Option<Id>) -> Option<Id> {
        id.filter(|i| self.nodes[*i].alive)
    }
    pub fn parent(&self, id: Id) -> Option<Id> {
        self.live(self.nodes[id].parent)
    }
    pub fn owner_doc(&self, id: Id) -> Option<Id> {
        self.live(self.nodes[id].owner_doc)
    }
    pub fn owner_elem(&self, id: Id) -> Option<Id> {
        self.live(self.nodes[id].owner_elem)
    }
    /// The document a node belongs to, or is.
    pub fn doc_of(&self, id: Id) -> Option<Id> {
        if self.nodes[id].kind == Kind::Doc {
            Some(id)
        } else {
            self.nodes[id].owner_doc
        }
    }
    pub fn attr_raw(&self, id: Id) -> Option<String> {
        let n = &self.nodes[id];
        if n.children.is_empty() {
            return None;
        }
        let mut s = String::new();
        for c in &n.children {
            let c = &self.nodes[*c];
            if c.kind == Kind::Text {
                if let Some(d) = &c.data {
                    s.push_str(d)
                }
            }
        }
        Some(s)
    }
    pub fn attr_value(&self, id: Id) -> Option<String> {
        self.attr_raw(id).map(|r| escape(&normalize_attr(&r)))
    }
    pub fn contains(&self, ancestor: Id, node: Id) -> bool {
        let mut cur = Some(node);
        let mut steps = 0;
        while let Some(c) = cur {
            if c == ancestor {
                return true;
            }
            cur = if self.nodes[c].kind == Kind::Attr { self.owner_elem(c) } else { self.parent(c) };
            steps += 1;
            if steps > self.nodes.len() + 1 {
                return true;
            }
        }
        false
    }
    pub fn lax_ids(&self, doc: Id) -> bool {
        self.nodes[doc].opts & 1 != 0
    }
    pub fn lookup_id(&self, doc: Id, id: &str) -> Option<Id> {
        let e = self.nodes[doc].idmap.iter().find(|(v, _)| v == id)?.1;
        if !self.nodes[e].alive {
            return None;
        }
        let lax = self.lax_ids(doc);
        if self.nodes[e]
            .attrs
            .iter()
            .any(|a| self.nodes[*a].name.is_id(lax) && self.attr_value(*a).as_deref() == Some(id))
        {
            Some(e)
        } else {
            None
        }
    }
    fn id_doc(&self, attr: Id) -> Option<Id> {
        let d = self.owner_doc(attr)?;
        if self.nodes[attr].name.is_id(self.lax_ids(d)) {
            Some(d)
        } else {
            None
        }
    }
    pub fn find_attr(&self, el: Id, qname: &str) -> Option<Id> {
        self.nodes[el].attrs.iter().copied().find(|a| self.nodes[*a].name.qualified() == qname)
    }
    pub fn find_attr_ns(&self, el: Id, ns: &str, local: &str) -> Option<Id> {
        self.nodes[el]
            .attrs
            .iter()
            .copied()
            .find(|a| self.nodes[*a].name.ns.as_deref() == Some(ns) && self.nodes[*a].name.local == local)
    }
    /// Namespace mappings declared on this element.
    pub fn mappings(&self, el: Id) -> Vec<(Option<String>, String)> {
        let mut r = vec![];
        if self.nodes[el].kind != Kind::Element {
            return r;
        }
        match self.owner_doc(el) {
            Some(d) if self.nodes[d].opts & 4 != 0 => {}
            _ => return r,
        }
        for a in &self.nodes[el].attrs {
            let n = &self.nodes[*a].name;
            if n.is_ns_decl() {
                if let Some(v) = self.attr_value(*a) {
                    r.push((n.declared_prefix(), v));
                }
            }
        }
        r
    }
    /// An owned attribute with registered meaning, whose text may only change through the attribute.
    fn registered(&self, attr: Id) -> bool {
        let n = &self.nodes[attr];
        n.kind == Kind::Attr && self.owner_elem(attr).is_some() && (n.name.is_ns_decl() || n.name.local == "id")
    }
    fn in_registered(&self, node: Id) -> bool {
        self.registered(node) || self.parent(node).is_some_and(|p| self.registered(p))
    }
    pub fn descendants(&self, id: Id, out: &mut Vec<Id>) {
        let mut stack: Vec<Id> = self.nodes[id].children.iter().rev().copied().collect();
        while let Some(c) = stack.pop() {
            out.push(c);
            stack.extend(self.nodes[c].children.iter().rev().copied());
        }
    }
    pub fn doc_element(&self, doc: Id) -> Option<Id> {
        self.nodes[doc].children.iter().copied().find(|c| self.nodes[*c].kind == Kind::Element)
    }

    // ---------------------------------------------------------------- liveness

    pub fn gc(&mut self) {
        let n = self.nodes.len();
        let mut mark = vec![false; n];
        let mut stack: Vec<Id> = self.slots.iter().flatten().copied().collect();
        while let Some(i) = stack.pop() {
            if mark[i] {
                continue;
            }
            mark[i] = true;
            let nd = &self.nodes[i];
            stack.extend(nd.children.iter());
            stack.extend(nd.attrs.iter());
            stack.extend(nd.doctype.iter());
        }
        for i in 0..n {
            if !mark[i] && self.nodes[i].alive {
                let nd = &mut self.nodes[i];
                nd.alive = false;
                nd.children.clear();
                nd.attrs.clear();
                nd.doctype = None;
            }
        }
        for i in 0..n {
            if self.nodes[i].alive {
                if let Some(p) = self.nodes[i].parent {
                    if !mark[p] {
                        self.nodes[i].parent = None;
                    }
                }
                if let Some(p) = self.nodes[i].owner_elem {
                    if !mark[p] {
                        self.nodes[i].owner_elem = None;
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- effects

    fn detach(&mut self, c: Id) {
        if let Some(p) = self.parent(c) {
            self.nodes[p].children.retain(|x| *x != c);
        }
        self.nodes[c].parent = None;
    }

    fn insert_errors(&self, p: Id, c: Id, before: Option<Id>, replacing: Option<Id>, cycle: &mut bool) -> Vec<Error> {
        let mut e = vec![];
        if !allowed(self.kind(p), self.kind(c)) {
            e.push(Error::HierarchyRequest);
        } else if self.contains(c, p) {
            e.push(Error::HierarchyRequest);
            *cycle = true;
        } else if self.kind(p) == Kind::Doc
            && self.kind(c) == Kind::Element
            && self.nodes[p]
                .children
                .iter()
                .any(|x| self.kind(*x) == Kind::Element && *x != c && Some(*x) != replacing)
        {
            e.push(Error::HierarchyRequest);
        }
        for r in [before, replacing].into_iter().flatten() {
            if !self.nodes[p].children.contains(&r) {
                e.push(Error::NotFound);
            }
        }
        let pd = if self.kind(p) == Kind::Doc { Some(p) } else { self.nodes[p].owner_doc };
        if let Some(cd) = self.nodes[c].owner_doc {
            if pd != Some(cd) {
                e.push(Error::WrongDocument);
            }
        }
        e
    }

    fn insert(&mut self, p: Id, c: Id, before: Option<Id>, cycle: &mut bool) -> Eff {
        let e = self.insert_errors(p, c, before, None, cycle);
        if !e.is_empty() {
            return Err(e);
        }
        if before == Some(c) {
            return Ok(Val::Node(c));
        }
        self.detach(c);
        let at = match before {
            None => self.nodes[p].children.len(),
            Some(b) => self.nodes[p].children.iter().position(|x| *x == b).unwrap(),
        };
        self.nodes[p].children.insert(at, c);
        self.nodes[c].parent = Some(p);
        Ok(Val::Node(c))
    }

    fn replace(&mut self, p: Id, c: Id, old: Id, cycle: &mut bool) -> Eff {
        let e = self.insert_errors(p, c, None, Some(old), cycle);
        if !e.is_empty() {
            return Err(e);
        }
        if c == old {
            return Ok(Val::Node(old));
        }
        self.detach(c);
        let at = self.nodes[p].children.iter().position(|x| *x == old).unwrap();
        self.nodes[p].children[at] = c;
        self.nodes[c].parent = Some(p);
        self.nodes[old].parent = None;
        Ok(Val::Node(old))
    }

    fn dup_id(&self, el: Id, attr: Id, value: Option<String>) -> bool {
        match (self.id_doc(attr), value) {
            (Some(d), Some(v)) => self.lookup_id(d, &v).is_some_and(|o| o != el),
            _ => false,
        }
    }
    fn register(&mut self, el: Id, attr: Id) {
        if let (Some(d), Some(v)) = (self.id_doc(attr), self.attr_value(attr)) {
            let m = &mut self.nodes[d].idmap;
            match m.iter_mut().find(|(x, _)| *x == v) {
                Some(x) => x.1 = el,
                None => m.push((v, el)),
            }
        }
    }

    fn set_attr_node(&mut self, el: Id, attr: Id, dup: &mut bool) -> Eff {
        let mut e = vec![];
        if self.nodes[attr].owner_doc != self.nodes[el].owner_doc {
            e.push(Error::WrongDocument);
        }
        if self.contains(attr, el) {
            e.push(Error::HierarchyRequest);
        }
        if self.owner_elem(attr).is_some_and(|o| o != el) {
            e.push(Error::InUseAttribute);
        }
        if self.dup_id(el, attr, self.attr_value(attr)) {
            e.push(Error::Syntax);
            *dup = true;
        }
        if !e.is_empty() {
            return Err(e);
        }
        let new = self.nodes[attr].name.clone();
        let displaced: Vec<Id> = self.nodes[el]
            .attrs
            .iter()
            .copied()
            .filter(|a| {
                *a != attr && {
                    let o = &self.nodes[*a].name;
                    o.qualified() == new.qualified()
                        || (new.ns.is_some() && o.ns == new.ns && o.local == new.local)
                }
            })
            .collect();
        for d in displaced {
            self.nodes[el].attrs.retain(|x| *x != d);
            self.nodes[d].owner_elem = None;
        }
        if !self.nodes[el].attrs.contains(&attr) {
            self.nodes[el].attrs.push(attr);
        }
        self.nodes[attr].owner_elem = Some(el);
        self.register(el, attr);
        Ok(Val::Node(attr))
    }

    fn set_value(&mut self, attr: Id, v: &str, dup: &mut bool) -> Eff {
        let owner = self.owner_elem(attr);
        if let Some(el) = owner {
            if self.dup_id(el, attr, Some(escape(&normalize_attr(v)))) {
                *dup = true;
                return Err(vec![Error::Syntax]);
            }
        }
        self.unset_value(attr);
        let t = self.add_text(self.nodes[attr].owner_doc, v);
        self.nodes[t].parent = Some(attr);
        self.nodes[attr].children.push(t);
        if let Some(el) = owner {
            self.register(el, attr);
        }
        Ok(Val::Unit)
    }
    fn unset_value(&mut self, attr: Id) {
        for c in std::mem::take(&mut self.nodes[attr].children) {
            self.nodes[c].parent = None;
        }
    }

    fn new_attr(&mut self, doc: Option<Id>, name: QName, v: Option<&str>) -> Id {
        let a = self.add(Kind::Attr, name, doc);
        if let Some(v) = v {
            let t = self.add_text(doc, v);
            self.nodes[t].parent = Some(a);
            self.nodes[a].children.push(t);
        }
        a
    }

    pub fn clone_node(&mut self, id: Id, deep: bool) -> Id {
        let src = self.nodes[id].clone();
        let c = self.add(src.kind, src.name.clone(), src.owner_doc);
        {
            let n = &mut self.nodes[c];
            n.data = src.data.clone();
            n.public_id = src.public_id.clone();
            n.system_id = src.system_id.clone();
            n.lineage = src.lineage;
        }
        for a in &src.attrs {
            let x = self.clone_node(*a, true);
            self.nodes[x].owner_elem = Some(c);
            self.nodes[c].attrs.push(x);
        }
        if deep || src.kind == Kind::Attr {
            for ch in &src.children {
                let x = self.clone_node(*ch, true);
                self.nodes[x].parent = Some(c);
                self.nodes[c].children.push(x);
            }
        }
        c
    }

    /// Would normalising change a registered attribute's meaning (remove an empty text)?
    fn normalize_touches_registered(&self, id: Id) -> bool {
        let mut all = vec![id];
        let mut at = 0;
        while at < all.len() {
            let n = &self.nodes[all[at]];
            all.extend(n.attrs.iter().chain(&n.children).copied());
            at += 1;
        }
        for x in all {
            for a in self.nodes[x].attrs.iter().chain(std::iter::once(&x)) {
                if self.registered(*a)
                    && self.nodes[*a]
                        .children
                        .iter()
                        .any(|t| self.nodes[*t].kind == Kind::Text && self.nodes[*t].data.as_deref().unwrap_or("").is_empty())
                {
                    return true;
                }
            }
        }
        false
    }

    pub fn normalize(&mut self, id: Id) {
        for a in self.nodes[id].attrs.clone() {
            self.normalize(a);
        }
        let mut keep: Vec<Id> = vec![];
        for c in self.nodes[id].children.clone() {
            if self.kind(c) == Kind::Text {
                let d = self.nodes[c].data.clone().unwrap_or_default();
                if d.is_empty() {
                    self.nodes[c].parent = None;
                } else if let Some(l) = keep.last().copied().filter(|l| self.kind(*l) == Kind::Text) {
                    let mut s = self.nodes[l].data.clone().unwrap();
                    s.push_str(&d);
                    self.nodes[l].data = Some(s);
                    self.nodes[c].parent = None;
                } else {
                    keep.push(c);
                }
            } else {
                self.normalize(c);
                keep.push(c);
            }
        }
        self.nodes[id].children = keep;
    }

    // ---------------------------------------------------------------- dispatch

    pub fn apply(&mut self, op: &Op) -> Pred {
        self.steps += 1;
        let mut p = Pred::default();
        let n: Vec<Option<Id>> = op.n.iter().map(|x| self.slot(*x)).collect();
        for id in n.iter().flatten() {
            p.operands.push(*id);
        }
        match self.effect(op, &n, &mut p) {
            None => {
                p.skip = true;
                return p;
            }
            Some(Ok(v)) => {
                let id = match &v {
                    Val::Node(i) => Some(*i),
                    Val::OptNode(o) => *o,
                    _ => None,
                };
                if op.out >= 0 && (op.out as usize) < self.slots.len() {
                    if let Some(i) = id {
                        self.slots[op.out as usize] = Some(i);
                    }
                }
                if let Some(i) = id {
                    p.operands.push(i);
                }
                p.ok = Some(v);
            }
            Some(Err(e)) => p.errs = e,
        }
        p
    }

    fn effect(&mut self, op: &Op, n: &[Option<Id>], p: &mut Pred) -> Option<Eff> {
        let kind = |i: usize| n[i].map(|x| self.kind(x));
        let unit: Option<Eff> = Some(Ok(Val::Unit));
        match op.k {
            K::CreateDoc => {
                let dt = n[0];
                if op.n[0] >= 0 && dt.is_none() {
                    return None;
                }
                if let Some(dt) = dt {
                    let mut e = vec![];
                    if self.kind(dt) != Kind::DocType {
                        return None;
                    }
                    if self.nodes[dt].owner_doc.is_some() {
                        e.push(Error::WrongDocument);
                    }
                    match doc_root(op) {
                        Err(x) => e.extend(x),
                        Ok(_) => {}
                    }
                    if !e.is_empty() {
                        return Some(Err(e));
                    }
                }
                let root = match doc_root(op) {
                    Err(e) => return Some(Err(e)),
                    Ok(r) => r,
                };
                let d = self.add(Kind::Doc, QName::plain("#document"), None);
                self.nodes[d].opts = (op.i[0] & 7) as u8;
                self.nodes[d].doctype = dt;
                if let Some(q) = root {
                    let e = self.add(Kind::Element, q, Some(d));
                    self.nodes[e].parent = Some(d);
                    self.nodes[d].children.push(e);
                }
                if let Some(dt) = dt {
                    self.nodes[dt].owner_doc = Some(d);
                }
                Some(Ok(Val::Node(d)))
            }
            K::CreateDocType => Some(parse_qname(op.str(0)).map(|q| {
                let d = self.add(Kind::DocType, q, None);
                self.nodes[d].public_id = op.s[1].clone();
                self.nodes[d].system_id = op.s[2].clone();
                Val::Node(d)
            })),
            K::CreateElement | K::CreateAttr | K::CreateAttrWith | K::CreateEntRef => {
                if kind(0)? != Kind::Doc {
                    return None;
                }
                Some(parse_qname(op.str(0)).map(|q| {
                    Val::Node(match op.k {
                        K::CreateElement => self.add(Kind::Element, q, n[0]),
                        K::CreateAttr => self.new_attr(n[0], q, None),
                        K::CreateAttrWith => self.new_attr(n[0], q, Some(op.str(1))),
                        _ => self.add(Kind::EntRef, q, n[0]),
                    })
                }))
            }
            K::CreateElementNs | K::CreateAttrNs => {
                if kind(0)? != Kind::Doc {
                    return None;
                }
                Some(parse_qname_ns(op.str(0), op.str(1)).map(|q| {
                    Val::Node(if op.k == K::CreateElementNs {
                        self.add(Kind::Element, q, n[0])
                    } else {
                        self.new_attr(n[0], q, None)
                    })
                }))
            }
            K::CreateText | K::CreateCData | K::CreateComment | K::CreateFragment => {
                if kind(0)? != Kind::Doc {
                    return None;
                }
                let (k, name) = match op.k {
                    K::CreateText => (Kind::Text, "#text"),
                    K::CreateCData => (Kind::CData, CDATA_NAME),
                    K::CreateComment => (Kind::Comment, "#comment"),
                    _ => (Kind::Frag, "#document-fragment"),
                };
                let id = self.add(k, QName::plain(name), n[0]);
                if k != Kind::Frag {
                    self.nodes[id].data = Some(op.str(0).to_string());
                }
                Some(Ok(Val::Node(id)))
            }
            K::CreatePI => {
                if kind(0)? != Kind::Doc {
                    return None;
                }
                if op.str(0).eq_ignore_ascii_case("xml") {
                    return Some(Err(vec![Error::Syntax]));
                }
                Some(parse_qname(op.str(0)).map(|q| {
                    let id = self.add(Kind::PI, q, n[0]);
                    self.nodes[id].data = op.s[1].clone();
                    Val::Node(id)
                }))
            }
            K::CreateEntity | K::CreateInternalEntity | K::CreateNotation => {
                if kind(0)? != Kind::Doc {
                    return None;
                }
                Some(parse_qname(op.str(0)).map(|q| {
                    let k = if op.k == K::CreateNotation { Kind::Notation } else { Kind::Entity };
                    let id = self.add(k, q, n[0]);
                    if op.k == K::CreateInternalEntity {
                        self.nodes[id].data = Some(op.str(1).to_string());
                    } else {
                        self.nodes[id].public_id = op.s[1].clone();
                        self.nodes[id].system_id = op.s[2].clone();
                    }
                    Val::Node(id)
                }))
            }
            K::Append | K::InsertBefore | K::Replace | K::Remove => {
                let (a, b) = (n[0]?, n[1]?);
                if op.n[2] >= 0 && n[2].is_none() {
                    return None;
                }
                if self.registered(a) || self.in_registered(b) {
                    return None;
                }
                match op.k {
                    K::Append => Some(self.insert(a, b, None, &mut p.cycle)),
                    K::InsertBefore => {
                        let r = n[2];
                        Some(self.insert(a, b, r, &mut p.cycle))
                    }
                    K::Replace => {
                        let old = n[2]?;
                        Some(self.replace(a, b, old, &mut p.cycle))
                    }
                    _ => {
                        if !self.nodes[a].children.contains(&b) {
                            return Some(Err(vec![Error::NotFound]));
                        }
                        self.detach(b);
                        Some(Ok(Val::Node(b)))
                    }
                }
            }
            K::Clone => {
                let a = n[0]?;
                if matches!(self.kind(a), Kind::Doc | Kind::DocType) {
                    return None;
                }
                let c = self.clone_node(a, op.i[0] != 0);
                Some(Ok(Val::Node(c)))
            }
            K::Normalize => {
                let a = n[0]?;
                if self.normalize_touches_registered(a) {
                    return None;
                }
                self.normalize(a);
                unit
            }
            K::Split => {
                let a = n[0]?;
                if !matches!(self.kind(a), Kind::Text | Kind::CData) || self.in_registered(a) {
                    return None;
                }
                let off = op.i[0] as usize;
                let data = self.nodes[a].data.clone();
                let raw = data.clone().unwrap_or_default();
                let tail = if off >= raw.len() {
                    String::new()
                } else if !raw.is_char_boundary(off) {
                    return Some(Err(vec![Error::IndexSize]));
                } else {
                    self.nodes[a].data = Some(raw[..off].to_string());
                    raw[off..].to_string()
                };
                let k = self.kind(a);
                let name = self.nodes[a].name.clone();
                let t = self.add(k, name, self.nodes[a].owner_doc);
                self.nodes[t].data = Some(tail);
                if let Some(par) = self.parent(a) {
                    let at = self.nodes[par].children.iter().position(|x| *x == a).unwrap();
                    self.nodes[par].children.insert(at + 1, t);
                    self.nodes[t].parent = Some(par);
                }
                Some(Ok(Val::Node(t)))
            }
            K::AppendData | K::InsertData | K::DeleteData | K::ReplaceData | K::Substring | K::SetData | K::UnsetData => {
                let a = n[0]?;
                if !matches!(self.kind(a), Kind::Text | Kind::CData | Kind::Comment) || self.in_registered(a) {
                    return None;
                }
                Some(self.char_op(op, a, p))
            }
            K::SetNodeValue | K::UnsetNodeValue => {
                let a = n[0]?;
                if self.parent(a).is_some_and(|x| self.registered(x)) {
                    return None;
                }
                match self.kind(a) {
                    Kind::Attr => {
                        if op.k == K::SetNodeValue {
                            Some(self.set_value(a, op.str(0), &mut p.dup_id))
                        } else {
                            self.unset_value(a);
                            unit
                        }
                    }
                    Kind::Text | Kind::CData | Kind::Comment | Kind::PI => {
                        self.nodes[a].data = if op.k == K::SetNodeValue { Some(op.str(0).to_string()) } else { None };
                        unit
                    }
                    _ => unit,
                }
            }
            K::SetPiData | K::UnsetPiData => {
                let a = n[0]?;
                if self.kind(a) != Kind::PI {
                    return None;
                }
                self.nodes[a].data = if op.k == K::SetPiData { Some(op.str(0).to_string()) } else { None };
                unit
            }
            K::SetValue | K::UnsetValue => {
                let a = n[0]?;
                if self.kind(a) != Kind::Attr {
                    return None;
                }
                if op.k == K::SetValue {
                    Some(self.set_value(a, op.str(0), &mut p.dup_id))
                } else {
                    self.unset_value(a);
                    unit
                }
            }
            K::SetAttribute => {
                let el = n[0]?;
                if self.kind(el) != Kind::Element {
                    return None;
                }
                if let Some(a) = self.find_attr(el, op.str(0)) {
                    p.operands.push(a);
                    return Some(self.set_value(a, op.str(1), &mut p.dup_id));
                }
                let q = match parse_qname(op.str(0)) {
                    Err(e) => return Some(Err(e)),
                    Ok(q) => q,
                };
                Some(self.set_new_attr(el, q, op.str(1), p))
            }
            K::SetAttributeNs => {
                let el = n[0]?;
                if self.kind(el) != Kind::Element {
                    return None;
                }
                let q = match parse_qname_ns(op.str(0), op.str(1)) {
                    Err(e) => return Some(Err(e)),
                    Ok(q) => q,
                };
                Some(self.set_new_attr(el, q, op.str(2), p))
            }
            K::RemoveAttribute | K::RemoveAttributeNs => {
                let el = n[0]?;
                if self.kind(el) != Kind::Element {
                    return None;
                }
                let a = if op.k == K::RemoveAttribute {
                    self.find_attr(el, op.str(0))
                } else {
                    self.find_attr_ns(el, op.str(0), op.str(1))
                };
                if let Some(a) = a {
                    p.operands.push(a);
                    self.nodes[el].attrs.retain(|x| *x != a);
                    self.nodes[a].owner_elem = None;
                }
                unit
            }
            K::SetAttributeNode | K::SetAttributeNodeNs => {
                let (el, a) = (n[0]?, n[1]?);
                if self.kind(el) != Kind::Element || self.kind(a) != Kind::Attr {
                    return None;
                }
                Some(self.set_attr_node(el, a, &mut p.dup_id))
            }
            K::RemoveAttributeNode => {
                let (el, a) = (n[0]?, n[1]?);
                if self.kind(el) != Kind::Element || self.kind(a) != Kind::Attr {
                    return None;
                }
                if !self.nodes[el].attrs.contains(&a) {
                    return Some(Err(vec![Error::NotFound]));
                }
                self.nodes[el].attrs.retain(|x| *x != a);
                self.nodes[a].owner_elem = None;
                Some(Ok(Val::Node(a)))
            }
            K::SetDecl => {
                let d = n[0]?;
                if self.kind(d) != Kind::Doc || op.s[0].as_deref().is_some_and(|e| !is_encoding(e)) {
                    return None;
                }
                self.nodes[d].decl = Some(decl_of(op));
                unit
            }
            K::GetChild => {
                let a = n[0]?;
                Some(Ok(Val::OptNode(self.nodes[a].children.get(op.i[0] as usize).copied())))
            }
            K::GetAttrNode => {
                let a = n[0]?;
                if self.kind(a) != Kind::Element {
                    return None;
                }
                Some(Ok(Val::OptNode(self.find_attr(a, op.str(0)))))
            }
            K::GetParent => {
                let a = n[0]?;
                Some(Ok(Val::OptNode(self.parent(a))))
            }
            K::GetOwnerDoc => {
                let a = n[0]?;
                Some(Ok(Val::OptNode(self.owner_doc(a))))
            }
            K::GetOwnerElement => {
                let a = n[0]?;
                if self.kind(a) != Kind::Attr {
                    return None;
                }
                Some(Ok(Val::OptNode(self.owner_elem(a))))
            }
            K::GetDocElement | K::GetDocType | K::GetById => {
                let d = n[0]?;
                if self.kind(d) != Kind::Doc {
                    return None;
                }
                Some(Ok(Val::OptNode(match op.k {
                    K::GetDocElement => self.doc_element(d),
                    K::GetDocType => self.nodes[d].doctype,
                    _ => self.lookup_id(d, op.str(0)),
                })))
            }
            K::GetNext | K::GetPrev => {
                let a = n[0]?;
                let r = self.parent(a).and_then(|par| {
                    let c = &self.nodes[par].children;
                    let at = c.iter().position(|x| *x == a)?;
                    if op.k == K::GetNext {
                        c.get(at + 1).copied()
                    } else {
                        at.checked_sub(1).map(|x| c[x])
                    }
                });
                Some(Ok(Val::OptNode(r)))
            }
            K::CopySlot => Some(Ok(Val::Node(n[0]?))),
            K::Drop => {
                n[0]?;
                self.slots[op.n[0] as usize] = None;
                unit
            }
            K::ReadAll => {
                n[0]?;
                unit
            }
        }
    }

    fn set_new_attr(&mut self, el: Id, q: QName, v: &str, p: &mut Pred) -> Eff {
        let a = self.new_attr(self.nodes[el].owner_doc, q, Some(v));
        match self.set_attr_node(el, a, &mut p.dup_id) {
            Ok(_) => Ok(Val::Unit),
            Err(e) => Err(e),
        }
    }

    fn char_op(&mut self, op: &Op, a: Id, p: &mut Pred) -> Eff {
        let data = self.nodes[a].data.clone();
        let (off, cnt) = (op.i[0], op.i[1]);
        let raw = data.clone().unwrap_or_default();
        let len = raw.len() as u64;
        let end = off.saturating_add(cnt).min(len);
        let in_range = off <= len
            && raw.is_char_boundary(off as usize)
            && raw.is_char_boundary(end.max(off) as usize);
        // Either answer is acceptable, nothing changes.
        let either = |p: &mut Pred, v: Val| -> Eff {
            p.ok = Some(v);
            Err(vec![Error::IndexSize])
        };
        let range = off as usize..end as usize;
        match op.k {
            K::SetData => {
                self.nodes[a].data = Some(op.str(0).to_string());
                Ok(Val::Unit)
            }
            K::UnsetData => {
                self.nodes[a].data = None;
                Ok(Val::Unit)
            }
            K::AppendData => {
                if !op.str(0).is_empty() {
                    self.nodes[a].data = Some(raw + op.str(0));
                }
                Ok(Val::Unit)
            }
            K::Substring => {
                if data.is_none() {
                    return if cnt == 0 && off == 0 { either(p, Val::Str(String::new())) } else if cnt == 0 { either(p, Val::Str(String::new())) } else if off == 0 { either(p, Val::Str(String::new())) } else { Err(vec![Error::IndexSize]) };
                }
                if in_range {
                    Ok(Val::Str(raw[range].to_string()))
                } else if cnt == 0 {
                    either(p, Val::Str(String::new()))
                } else {
                    Err(vec![Error::IndexSize])
                }
            }
            K::InsertData => {
                if data.is_none() {
                    if off != 0 {
                        return if op.str(0).is_empty() { either(p, Val::Unit) } else { Err(vec![Error::IndexSize]) };
                    }
                    if !op.str(0).is_empty() {
                        self.nodes[a].data = Some(op.str(0).to_string());
                    }
                    return Ok(Val::Unit);
                }
                let ok = off <= len && raw.is_char_boundary(off as usize);
                if !ok {
                    return if op.str(0).is_empty() { either(p, Val::Unit) } else { Err(vec![Error::IndexSize]) };
                }
                let mut s = raw;
                s.insert_str(off as usize, op.str(0));
                self.nodes[a].data = Some(s);
                Ok(Val::Unit)
            }
            K::DeleteData => {
                if data.is_none() {
                    return if cnt == 0 || off == 0 { either(p, Val::Unit) } else { Err(vec![Error::IndexSize]) };
                }
                if in_range {
                    let mut s = raw;
                    s.replace_range(range, "");
                    self.nodes[a].data = Some(s);
                    Ok(Val::Unit)
                } else if cnt == 0 {
                    either(p, Val::Unit)
                } else {
                    Err(vec![Error::IndexSize])
                }
            }
            K::ReplaceData => {
                if data.is_none() {
                    if off == 0 && cnt == 0 {
                        self.nodes[a].data = Some(op.str(0).to_string());
                        return Ok(Val::Unit);
                    }
                    return Err(vec![Error::IndexSize]);
                }
                if in_range {
                    let mut s = raw;
                    s.replace_range(range, op.str(0));
                    self.nodes[a].data = Some(s);
                    Ok(Val::Unit)
                } else {
                    Err(vec![Error::IndexSize])
                }
            }
            _ => unreachable!(),
        }
    }
}

pub fn decl_of(op: &Op) -> Decl {
    Decl {
        v11: op.i[0] & 1 != 0,
        enc: op.s[0].clone(),
        sa: match op.i[1] % 3 {
            0 => None,
            1 => Some(true),
            _ => Some(false),
        },
    }
}

fn doc_root(op: &Op) -> Result<Option<QName>, Vec<Error>> {
    match (op.s[0].as_deref(), op.s[1].as_deref()) {
        (Some(ns), Some(q)) => parse_qname_ns(ns, q).map(Some),
        (None, Some(q)) => parse_qname(q).map(Some),
        (Some(_), None) => Err(vec![Error::Namespace]),
        (None, None) => Ok(None),
    }
}
