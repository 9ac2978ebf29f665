//! Model-guided generation of histories.
use crate::model::*;
use crate::op::{Op, K};
use crate::oracle::*;
use crate::rng::Rng;

pub const SLOTS: usize = 26;
const DOCS: usize = 3;
const FIRST: usize = 4;

#[derive(Clone)]
pub struct Profile {
    pub weights: Vec<(K, u32)>,
    pub ops: (usize, usize),
    /// Chance in percent that an operand is arbitrary.
    pub bad: usize,
    /// Chance in percent that a string is hostile.
    pub hostile: usize,
    pub docs: usize,
    pub opts: Vec<u64>,
    pub names: &'static [&'static str],
    pub nss: &'static [&'static str],
    pub values: &'static [&'static str],
}

pub const NAMES: &[&str] = &["a", "b", "c", "p:a", "p:b", "q:a", "id", "xml:id", "xmlns:p", "xmlns", "xml:lang", "é", "e\u{301}-1.x"];
pub const EL_NAMES: &[&str] = &["a", "b", "p:a", "q:b", "c"];
pub const BAD_NAMES: &[&str] = &[
    "", ":", "a:", ":a", "a:b:c", "1a", "-a", "a b", "a&b", "é1", "<", "a\u{10FFFF}", "a\u{300}", "\u{300}", ".a", "a\u{b7}", "\u{b7}a",
    "xml", "*", "a*", "p:1", "xmlns:1", "a\n", " a", "a/", "\u{fffe}", "𐀀", "xml:a", "xml:xmlns", "::", "a::b", "p:\u{37e}",
];
pub const NSS: &[&str] = &["urn:n1", "urn:n2"];
pub const BAD_NSS: &[&str] = &["", XML_NS, XMLNS_NS, "urn:n1 ", "<", "http://x/?a=b&c", "URN:N1"];
pub const VALUES: &[&str] = &["", "v1", "v2", "urn:n1", "urn:n2", "i1", "i2", "text", "a b"];
pub const BAD_VALUES: &[&str] = &[
    " ", "\t", "\r\n x", "\r\u{85}y\u{2028}", "a<b>&c'd\"", "&amp;", "&#65;", "&#x9;", "&#xD800;", "&#;", "&#x;", "&a;", "&", "&#38;#60;", "]]>", "-->",
    "--", "<!--", "<x y='z'/>", "</a>", "?>", "é✓", "\u{10000}\u{10FFFF}", "&#1114112;", "&#99999999999999999999;", "日本語 text", "  i1  ", "&#x20;a", "a\u{a0}", "%x;",
    "]]", "-", "?", "\u{1}", "&lt;b&gt;",
];

pub const EDGY: &[char] = &[
    '\r', '\n', '\t', ' ', '<', '>', '&', '"', '\'', ']', '[', '-', '?', '!', ';', '#', 'x', 'a', 'Z', '0', '6', '5', ':', '/', '=', '%', '.', '_', '*', '\u{85}', '\u{a0}',
    '\u{2028}', '\u{feff}', '\u{1}', 'é', '日', '\u{10000}', '\u{301}',
];

impl Profile {
    pub fn new() -> Self {
        use K::*;
        let w = vec![
            (CreateDoc, 1), (CreateDocType, 1), (CreateElement, 8), (CreateElementNs, 5), (CreateAttr, 2),
            (CreateAttrWith, 3), (CreateAttrNs, 2), (CreateText, 6), (CreateCData, 2), (CreateComment, 2),
            (CreatePI, 2), (CreateEntRef, 2), (CreateFragment, 1), (CreateEntity, 1), (CreateInternalEntity, 1),
            (CreateNotation, 1), (Append, 20), (InsertBefore, 12), (Replace, 8), (Remove, 4), (Clone, 4),
            (Normalize, 3), (Split, 3), (AppendData, 1), (InsertData, 1), (DeleteData, 1), (ReplaceData, 1),
            (Substring, 1), (SetData, 1), (UnsetData, 1), (SetNodeValue, 2), (UnsetNodeValue, 1), (SetPiData, 1),
            (UnsetPiData, 1), (SetValue, 2), (UnsetValue, 1), (SetAttribute, 8), (SetAttributeNs, 6),
            (RemoveAttribute, 2), (RemoveAttributeNs, 2), (SetAttributeNode, 4), (SetAttributeNodeNs, 2),
            (RemoveAttributeNode, 3), (SetDecl, 1), (GetChild, 6), (GetAttrNode, 3), (GetParent, 1),
            (GetOwnerDoc, 1), (GetOwnerElement, 1), (GetDocElement, 1), (GetDocType, 1), (GetById, 1), (GetNext, 1),
            (GetPrev, 1), (CopySlot, 1), (Drop, 4), (ReadAll, 1),
        ];
        Profile {
            weights: w,
            ops: (25, 60),
            bad: 8,
            hostile: 12,
            docs: 2,
            opts: vec![4, 4, 5, 0, 7],
            names: NAMES,
            nss: NSS,
            values: VALUES,
        }
    }
    pub fn scale(mut self, ks: &[K], f: u32) -> Self {
        for (k, w) in self.weights.iter_mut() {
            if ks.contains(k) {
                *w *= f
            }
        }
        self
    }
    pub fn only(mut self, ks: &[K]) -> Self {
        self.weights.retain(|(k, _)| ks.contains(k));
        self
    }
    pub fn without(mut self, ks: &[K]) -> Self {
        self.weights.retain(|(k, _)| !ks.contains(k));
        self
    }
}

pub struct Gen<'a> {
    pub m: Model,
    pub r: Rng,
    pub p: &'a Profile,
    pub ops: Vec<Op>,
    /// The few characters odd strings of this history are made of, so that strings meet their like.
    pub theme: Vec<char>,
}

/// Characters that mean something together.
const THEMES: &[&str] = &["\r\n", "]]>", "-->", "<!-", "&#;x6", "?>x", " \t\n", "&lt;", "\r\u{85}", "\r\n ", "a ", "xml:", "é\u{301}", "\"'&"];

impl<'a> Gen<'a> {
    pub fn new(p: &'a Profile, mut r: Rng) -> Self {
        let theme = if r.chance(1, 2) { r.pick(THEMES).chars().collect() } else { (0..3).map(|_| *r.pick(EDGY)).collect() };
        Gen { m: Model::new(SLOTS), r, p, ops: vec![], theme }
    }
    pub fn push(&mut self, op: Op) -> bool {
        let pr = self.m.apply(&op);
        if pr.skip {
            return false;
        }
        self.m.gc();
        self.ops.push(op);
        true
    }

    /// Now and then a string that was used before, for whatever.
    fn again(&mut self, one_in: usize) -> Option<String> {
        if self.ops.is_empty() || !self.r.chance(1, one_in) {
            return None;
        }
        let at = self.ops.len() - 1 - self.r.below(self.ops.len().min(25));
        let v: Vec<String> = self.ops[at].s.iter().flatten().cloned().collect();
        if v.is_empty() {
            return None;
        }
        let s = self.r.pick(&v).clone();
        match s.split_once(':') {
            Some((a, b)) if self.r.chance(1, 3) => Some(if self.r.chance(1, 2) { a } else { b }.to_string()),
            _ => Some(s),
        }
    }
    /// Change one thing about an operation's strings.
    pub fn alter(&mut self, op: &Op) -> Op {
        let mut o = op.clone();
        let at: Vec<usize> = (0..3).filter(|i| o.s[*i].is_some()).collect();
        if !at.is_empty() {
            let i = *self.r.pick(&at);
            let old = o.s[i].clone().unwrap();
            o.s[i] = match self.r.below(4) {
                0 => None,
                1 => self.again(1).or(Some(old)),
                2 => Some(self.value()),
                _ => {
                    let h = self.r.next();
                    Some(crate::compare::near(&old, h))
                }
            };
            // Only some may be absent.
            if o.s[i].is_none() && !matches!((o.k, i), (K::CreateDocType | K::CreateEntity | K::CreateNotation, 1 | 2) | (K::CreatePI, 1) | (K::SetDecl, 0) | (K::CreateDoc, 0)) {
                o.s[i] = op.s[i].clone();
            }
        }
        o
    }
    /// A short string of characters that mean something somewhere.
    fn odd(&mut self) -> String {
        let n = self.r.range(0, 5);
        (0..n).map(|_| if self.r.chance(4, 5) { *self.r.pick(&self.theme) } else { *self.r.pick(EDGY) }).collect()
    }
    fn name(&mut self) -> String {
        if self.r.chance(self.p.hostile, 200) {
            return self.r.pick(BAD_NAMES).to_string();
        }
        if let Some(s) = self.again(16) {
            if crate::oracle::parse_qname(&s).is_ok() || self.r.chance(1, 8) {
                return s;
            }
        }
        let n = self.r.pick(self.p.names).to_string();
        self.nearly(n, 14)
    }
    /// Now and then something easily confused.
    fn nearly(&mut self, s: String, one_in: usize) -> String {
        if self.r.chance(1, one_in) {
            let h = self.r.next();
            crate::compare::near(&s, h)
        } else {
            s
        }
    }
    fn el_name(&mut self) -> String {
        if self.r.chance(1, 4) {
            self.name()
        } else {
            let n = self.r.pick(EL_NAMES).to_string();
            self.nearly(n, 14)
        }
    }
    fn ns(&mut self) -> String {
        if self.r.chance(self.p.hostile, 200) {
            return self.r.pick(BAD_NSS).to_string();
        }
        if let Some(s) = self.again(20) {
            return s;
        }
        let n = self.r.pick(self.p.nss).to_string();
        self.nearly(n, 20)
    }
    /// A namespace that fits the name most of the time.
    fn ns_for(&mut self, q: &str) -> String {
        if self.r.chance(9, 10) {
            if q == "xmlns" || q.starts_with("xmlns:") {
                return XMLNS_NS.into();
            }
            if q.starts_with("xml:") {
                return XML_NS.into();
            }
        }
        self.ns()
    }
    pub fn value(&mut self) -> String {
        if self.r.chance(self.p.hostile, 100) {
            if self.r.chance(1, 3) {
                return self.odd();
            }
            let mut s = self.r.pick(BAD_VALUES).to_string();
            while self.r.chance(1, 3) {
                s.push_str(self.r.pick(BAD_VALUES));
            }
            return s;
        }
        if let Some(s) = self.again(16) {
            return s;
        }
        if self.r.chance(1, 16) {
            return self.odd();
        }
        let v = self.r.pick(self.p.values).to_string();
        self.nearly(v, 30)
    }
    fn value_for(&mut self, name: &str) -> String {
        if self.r.chance(1, 24) {
            return name.rsplit(':').next().unwrap_or(name).to_string();
        }
        if name.to_ascii_lowercase().ends_with("id") && self.r.chance(3, 4) {
            let v = self.r.pick(&["i1", "i2", "i3", " i1 ", "&#105;1"]).to_string();
            return self.nearly(v, 14);
        }
        if name.starts_with("xmlns") && self.r.chance(3, 4) {
            if let Some(s) = self.again(12) {
                return s;
            }
            let v = self.r.pick(&["urn:n1", "urn:n2", "urn:n3", "", "a&b"]).to_string();
            return self.nearly(v, 14);
        }
        self.value()
    }
    fn slots_where(&self, f: impl Fn(&Model, Id) -> bool) -> Vec<usize> {
        (0..SLOTS).filter(|s| self.m.slots[*s].is_some_and(|id| f(&self.m, id))).collect()
    }
    pub fn pick(&mut self, f: impl Fn(&Model, Id) -> bool) -> Option<usize> {
        let v = if self.r.chance(self.p.bad, 100) { self.slots_where(|_, _| true) } else { self.slots_where(f) };
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }
    fn kind(&mut self, k: &[Kind]) -> Option<usize> {
        let v = self.slots_where(|m, id| k.contains(&m.kind(id)));
        if v.is_empty() {
            None
        } else {
            Some(*self.r.pick(&v))
        }
    }
    fn doc(&mut self) -> Option<usize> {
        self.kind(&[Kind::Doc])
    }
    pub fn free(&mut self) -> usize {
        let v: Vec<usize> = (FIRST..SLOTS).filter(|s| self.m.slots[*s].is_none()).collect();
        if !v.is_empty() && self.r.chance(4, 5) {
            *self.r.pick(&v)
        } else {
            FIRST + self.r.below(SLOTS - FIRST)
        }
    }

    pub fn start(&mut self) {
        for d in 0..self.p.docs {
            let o = *self.r.pick(&self.p.opts);
            let mut op = Op::new(K::CreateDoc).out(d).i(0, o).i(1, (o == 4) as u64);
            if self.r.chance(1, 3) {
                let q = self.r.pick(EL_NAMES).to_string();
                if self.r.chance(1, 2) {
                    op = op.s(0, "urn:n1");
                }
                op = op.s(1, &q);
            }
            if self.r.chance(1, 5) && self.push(Op::new(K::CreateDocType).out(DOCS).s(0, "a").so(1, Some("pub")).so(2, Some("sys"))) {
                op = op.n(0, DOCS);
            }
            self.push(op);
        }
    }

    pub fn history(mut self) -> Vec<Op> {
        self.start();
        self.more();
        self.ops
    }

    /// Go on with operations of the profile.
    pub fn more(&mut self) {
        let n = self.r.range(self.p.ops.0, self.p.ops.1);
        let total: u32 = self.p.weights.iter().map(|w| w.1).sum();
        let mut tries = 0;
        while self.ops.len() < n && tries < n * 12 {
            tries += 1;
            let mut x = self.r.below(total as usize) as u32;
            let mut k = self.p.weights[0].0;
            for (kk, w) in &self.p.weights {
                if x < *w {
                    k = *kk;
                    break;
                }
                x -= w;
            }
            if let Some(op) = self.one(k) {
                let _ = self.push(op);
            }
        }
    }

    fn offset(&mut self, slot: usize) -> (u64, u64) {
        let d = self.m.slots[slot].and_then(|id| self.m.nodes[id].data.clone()).unwrap_or_default();
        let len = d.len() as u64;
        let mut one = |base: u64| -> u64 {
            match self.r.below(12) {
                0 => 0,
                1 => len,
                2 => len + 1,
                3 => u64::MAX,
                4 => u64::MAX - self.r.below(4) as u64,
                5 => len.saturating_sub(base),
                6 => 1,
                7 => (usize::MAX / 2) as u64,
                8 => u64::MAX - base,
                _ => self.r.below(len as usize + 1) as u64,
            }
        };
        let a = one(0);
        let b = one(a);
        (a, b)
    }

    /// Make one operation of this kind from what the slots hold.
    pub fn one(&mut self, k: K) -> Option<Op> {
        use K::*;
        let op = Op::new(k);
        Some(match k {
            CreateDoc => {
                let o = *self.r.pick(&self.p.opts);
                let mut op = op.out(self.r.below(DOCS)).i(0, o).i(1, (o == 4) as u64);
                match self.r.below(4) {
                    0 => {}
                    1 => {
                        let q = self.el_name();
                        op = op.s(1, &q)
                    }
                    2 => {
                        let q = self.el_name();
                        let ns = self.ns_for(&q);
                        op = op.s(1, &q).s(0, &ns)
                    }
                    _ => {
                        if self.r.chance(1, 4) {
                            op = op.s(0, "urn:n1")
                        }
                    }
                }
                if let (true, Some(t)) = (self.r.chance(1, 2), self.kind(&[Kind::DocType])) {
                    op = op.n(0, t)
                }
                op
            }
            CreateDocType => {
                let q = self.name();
                let p = self.opt_value();
                let s = self.opt_value();
                op.out(DOCS).s(0, &q).so(1, p.as_deref()).so(2, s.as_deref())
            }
            CreateElement | CreateEntRef | CreateAttr => {
                let q = if k == CreateAttr { self.name() } else { self.el_name() };
                op.n(0, self.doc()?).s(0, &q).out(self.free())
            }
            CreateElementNs | CreateAttrNs => {
                let q = if k == CreateAttrNs { self.name() } else { self.el_name() };
                let ns = self.ns_for(&q);
                op.n(0, self.doc()?).s(0, &ns).s(1, &q).out(self.free())
            }
            CreateAttrWith => {
                let q = self.name();
                let v = self.value_for(&q);
                op.n(0, self.doc()?).s(0, &q).s(1, &v).out(self.free())
            }
            CreateText | CreateCData | CreateComment => {
                let v = self.value();
                op.n(0, self.doc()?).s(0, &v).out(self.free())
            }
            CreatePI => {
                let q = if self.r.chance(1, 10) { self.r.pick(&["xml", "XmL", "xml:a", "a:xml", "xmlx"]).to_string() } else { self.el_name() };
                let v = self.opt_value();
                op.n(0, self.doc()?).s(0, &q).so(1, v.as_deref()).out(self.free())
            }
            CreateFragment => op.n(0, self.doc()?).out(self.free()),
            CreateEntity | CreateNotation => {
                let q = self.el_name();
                let p = self.opt_value();
                let s = self.opt_value();
                op.n(0, self.doc()?).s(0, &q).so(1, p.as_deref()).so(2, s.as_deref()).out(self.free())
            }
            CreateInternalEntity => {
                let q = self.el_name();
                let v = self.value();
                op.n(0, self.doc()?).s(0, &q).s(1, &v).out(self.free())
            }
            Append | InsertBefore | Replace | Remove => self.tree(op)?,
            Clone => {
                let a = self.pick(|m, id| !matches!(m.kind(id), Kind::Doc | Kind::DocType))?;
                op.n(0, a).i(0, self.r.below(3).min(1) as u64).out(self.free())
            }
            Normalize => op.n(0, self.pick(|m, id| !m.nodes[id].children.is_empty() || !m.nodes[id].attrs.is_empty())?),
            Split => {
                let a = self.kind(&[Kind::Text, Kind::CData])?;
                let (o, _) = self.offset(a);
                op.n(0, a).i(0, o).out(self.free())
            }
            AppendData | InsertData | DeleteData | ReplaceData | Substring | SetData | UnsetData => {
                let a = self.kind(&[Kind::Text, Kind::CData, Kind::Comment])?;
                let (o, c) = self.offset(a);
                let v = self.value();
                op.n(0, a).i(0, o).i(1, c).s(0, &v)
            }
            SetNodeValue | UnsetNodeValue => {
                let v = self.value();
                op.n(0, self.pick(|_, _| true)?).s(0, &v)
            }
            SetPiData | UnsetPiData => {
                let v = self.value();
                op.n(0, self.kind(&[Kind::PI])?).s(0, &v)
            }
            SetValue | UnsetValue => {
                let a = self.kind(&[Kind::Attr])?;
                let n = self.m.nodes[self.m.slots[a]?].name.qualified();
                let v = self.value_for(&n);
                op.n(0, a).s(0, &v)
            }
            SetAttribute => {
                let e = self.kind(&[Kind::Element])?;
                let q = self.name();
                let v = self.value_for(&q);
                op.n(0, e).s(0, &q).s(1, &v)
            }
            SetAttributeNs => {
                let e = self.kind(&[Kind::Element])?;
                let q = self.name();
                let ns = self.ns_for(&q);
                let v = self.value_for(&q);
                op.n(0, e).s(0, &ns).s(1, &q).s(2, &v)
            }
            RemoveAttribute | GetAttrNode => {
                let e = self.pick(|m, id| !m.nodes[id].attrs.is_empty()).filter(|e| self.m.kind(self.m.slots[*e].unwrap()) == Kind::Element)?;
                let own = self.m.nodes[self.m.slots[e]?].attrs.clone();
                let q = if own.is_empty() || self.r.chance(1, 5) { self.name() } else { self.m.nodes[*self.r.pick(&own)].name.qualified() };
                let op = op.n(0, e).s(0, &q);
                if k == GetAttrNode {
                    op.out(self.free())
                } else {
                    op
                }
            }
            RemoveAttributeNs => {
                let e = self.kind(&[Kind::Element])?;
                let own = self.m.nodes[self.m.slots[e]?].attrs.clone();
                let (ns, l) = if own.is_empty() || self.r.chance(1, 5) {
                    (self.ns(), self.name())
                } else {
                    let n = &self.m.nodes[*self.r.pick(&own)].name;
                    (n.ns.clone().unwrap_or("urn:n1".into()), n.local.clone())
                };
                op.n(0, e).s(0, &ns).s(1, &l)
            }
            SetAttributeNode | SetAttributeNodeNs => {
                let e = self.kind(&[Kind::Element])?;
                let ed = self.m.nodes[self.m.slots[e]?].owner_doc;
                let near = self.r.chance(4, 5);
                let v = self.slots_where(|m, id| m.kind(id) == Kind::Attr && (!near || m.nodes[id].owner_doc == ed));
                let free = self.slots_where(|m, id| m.kind(id) == Kind::Attr && m.nodes[id].owner_doc == ed && m.owner_elem(id).is_none());
                let v = if self.r.chance(1, 2) { free } else { v };
                if v.is_empty() {
                    return None;
                }
                let a = *self.r.pick(&v);
                op.n(0, e).n(1, a).out(self.free())
            }
            RemoveAttributeNode => {
                let a = self.kind(&[Kind::Attr])?;
                let o = self.m.owner_elem(self.m.slots[a]?);
                let mine = self.slots_where(|_, id| Some(id) == o);
                let e = if !mine.is_empty() && self.r.chance(2, 3) { *self.r.pick(&mine) } else { self.kind(&[Kind::Element])? };
                op.n(0, e).n(1, a).out(self.free())
            }
            SetDecl => {
                let enc = match self.r.below(4) {
                    0 => None,
                    1 => Some("UTF-8"),
                    2 => Some("ISO-8859-1"),
                    _ => Some("x.y_z-1"),
                };
                op.n(0, self.doc()?).i(0, self.r.below(2) as u64).i(1, self.r.below(3) as u64).so(0, enc)
            }
            GetChild => {
                let a = self.pick(|m, id| !m.nodes[id].children.is_empty())?;
                let n = self.m.nodes[self.m.slots[a]?].children.len();
                op.n(0, a).i(0, self.r.below(n + 1) as u64).out(self.free())
            }
            GetOwnerElement => op.n(0, self.kind(&[Kind::Attr])?).out(self.free()),
            GetParent | GetOwnerDoc | GetNext | GetPrev | CopySlot => op.n(0, self.pick(|_, _| true)?).out(self.free()),
            GetDocElement | GetDocType => op.n(0, self.doc()?).out(self.free()),
            GetById => {
                let v = match self.again(3) {
                    Some(s) => s,
                    None => self.r.pick(&["i1", "i2", "i3", "", "none"]).to_string(),
                };
                op.n(0, self.doc()?).s(0, &v).out(self.free())
            }
            Drop => {
                let a = self.pick(|_, _| true)?;
                if a < DOCS && !self.r.chance(1, 4) {
                    return None;
                }
                op.n(0, a)
            }
            ReadAll => {
                let a = self.pick(|_, _| true)?;
                let (o, c) = self.offset(a);
                let q = self.name();
                let l = if self.r.chance(1, 2) { "i1".to_string() } else { self.ns() };
                op.n(0, a).i(0, o).i(1, c).s(0, &l).s(1, &q)
            }
        })
    }

    fn opt_value(&mut self) -> Option<String> {
        if self.r.chance(1, 3) {
            None
        } else {
            Some(self.value())
        }
    }

    fn tree(&mut self, op: Op) -> Option<Op> {
        let wild = self.r.chance(self.p.bad, 100);
        match op.k {
            K::Remove => {
                let kids = self.slots_where(|m, id| m.parent(id).is_some());
                let b = if wild || kids.is_empty() { self.pick(|_, _| true)? } else { *self.r.pick(&kids) };
                let bp = self.m.parent(self.m.slots[b]?);
                let ps = self.slots_where(|_, id| Some(id) == bp);
                let a = if wild || ps.is_empty() { self.pick(|m, id| !m.nodes[id].children.is_empty())? } else { *self.r.pick(&ps) };
                Some(op.n(0, a).n(1, b).out(self.free()))
            }
            K::Append | K::InsertBefore | K::Replace => {
                // The parent, and the reference child if there has to be one.
                let mut parent = None;
                let mut refc = None;
                if op.k != K::Append && !wild {
                    let pairs: Vec<(usize, usize)> = {
                        let kids = self.slots_where(|m, id| m.parent(id).is_some());
                        kids.iter()
                            .flat_map(|c| {
                                let p = self.m.parent(self.m.slots[*c].unwrap());
                                self.slots_where(|_, id| Some(id) == p).into_iter().map(move |p| (p, *c))
                            })
                            .collect()
                    };
                    if !pairs.is_empty() {
                        let (p, c) = *self.r.pick(&pairs);
                        parent = Some(p);
                        refc = Some(c);
                    }
                }
                let p = match parent {
                    Some(p) => p,
                    None if wild => self.pick(|_, _| true)?,
                    None => {
                        let els = self.slots_where(|m, id| matches!(m.kind(id), Kind::Element | Kind::Doc | Kind::Frag | Kind::EntRef | Kind::Entity | Kind::Attr));
                        if els.is_empty() {
                            return None;
                        }
                        *self.r.pick(&els)
                    }
                };
                let pid = self.m.slots[p]?;
                let cycle = self.r.chance(1, 16);
                let foreign = self.r.chance(self.p.bad, 100);
                let cand = if wild {
                    self.slots_where(|_, _| true)
                } else if cycle {
                    self.slots_where(|m, id| m.contains(id, pid))
                } else {
                    let v = self.slots_where(|m, id| allowed(m.kind(pid), m.kind(id)) && !m.contains(id, pid) && (foreign || m.doc_of(pid) == m.doc_of(id)));
                    // Moves within the parent are more interesting than anything else.
                    let kin: Vec<usize> = v.iter().copied().filter(|s| self.m.parent(self.m.slots[*s].unwrap()) == Some(pid)).collect();
                    if !kin.is_empty() && self.r.chance(1, 3) {
                        kin
                    } else {
                        v
                    }
                };
                if cand.is_empty() {
                    return None;
                }
                let c = *self.r.pick(&cand);
                let op = op.n(0, p).n(1, c).out(self.free());
                match op.k {
                    K::Append => Some(op),
                    K::InsertBefore => match refc {
                        Some(r) => Some(op.n(2, r)),
                        None if self.r.chance(1, 3) => Some(op),
                        None => {
                            let r = self.pick(|_, _| true)?;
                            Some(op.n(2, r))
                        }
                    },
                    _ => {
                        let r = match refc {
                            Some(r) => r,
                            None => self.pick(|m, id| m.parent(id).is_some())?,
                        };
                        Some(op.n(2, r))
                    }
                }
            }
            _ => None,
        }
    }
}
