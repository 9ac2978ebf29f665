//! The parser: any input (C21), written documents (C22), corrupted documents (C23).
use crate::ctx::{Bad, Ctx};
use crate::model::Decl;
use crate::oracle::*;
use crate::rng::{hash_str, Rng};
use crate::runner::{guard, on_little_stack, Caught};
use crate::table::Family;
use crate::xmlread::{decl_text, is_name_char, Item};
use std::collections::BTreeMap;
use std::io::{BufRead, Read};
use xml_dom::level2::convert::*;
use xml_dom::level2::*;
use xml_dom::parser::{read_reader, read_xml};

// ------------------------------------------------------------------------------------------------
// Readers that deliver in pieces

#[derive(Clone, Copy, Debug)]
pub enum Cut {
    Whole,
    Each(usize),
    Random(u64),
    /// In pieces and with interruptions.
    Interrupted(u64),
}

struct Pieces<'a> {
    data: &'a [u8],
    at: usize,
    cut: Cut,
    end: usize,
    r: Rng,
    interrupt: bool,
}

impl<'a> Pieces<'a> {
    fn new(data: &'a [u8], cut: Cut) -> Self {
        let s = match cut {
            Cut::Random(s) | Cut::Interrupted(s) => s,
            _ => 0,
        };
        Pieces { data, at: 0, cut, end: 0, r: Rng::new(s, "pieces", 0), interrupt: true }
    }
}
impl Read for Pieces<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let p = self.fill_buf()?;
            let n = p.len().min(buf.len());
            buf[..n].copy_from_slice(&p[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Pieces<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.at >= self.end {
            if let Cut::Interrupted(_) = self.cut {
                self.interrupt = !self.interrupt;
                if !self.interrupt && self.r.chance(1, 2) {
                    return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
                }
            }
            let n = match self.cut {
                Cut::Whole => self.data.len(),
                Cut::Each(n) => n,
                _ => self.r.range(1, 7),
            };
            self.end = (self.at + n).min(self.data.len());
        }
        Ok(&self.data[self.at..self.end])
    }
    fn consume(&mut self, n: usize) {
        self.at += n;
    }
}

/// Delivers some of the data and then fails.
struct Failing<'a>(&'a [u8]);
impl Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "gone"));
        }
        let n = self.0.len().min(buf.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
impl BufRead for Failing<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.0.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::ConnectionReset, "gone"));
        }
        Ok(self.0)
    }
    fn consume(&mut self, n: usize) {
        self.0 = &self.0[n..];
    }
}

// ------------------------------------------------------------------------------------------------
// What a tree says

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub decl: Option<Decl>,
    pub items: Vec<Item>,
}

fn raw(n: &RefNode) -> String {
    match as_character_data(n) {
        Ok(c) if c.length() > 0 => c.substring_data(0, usize::MAX).unwrap_or_else(|e| format!("?{:?}", e)),
        _ => String::new(),
    }
}

fn tree(n: &RefNode, doc: &RefNode, depth: usize) -> Vec<Item> {
    let mut out = vec![];
    let children = n.child_nodes();
    for (at, c) in children.iter().enumerate() {
        if c.parent_node().as_ref() != Some(n) {
            out.push(Item::Ref("?a child with another parent".into()));
        }
        if c.owner_document().as_ref() != Some(doc) {
            out.push(Item::Ref("?a node of another document".into()));
        }
        if children.len() < 700 && (c.previous_sibling().as_ref() != (at > 0).then(|| &children[at - 1]) || c.next_sibling().as_ref() != children.get(at + 1)) {
            out.push(Item::Ref("?siblings".into()));
        }
        let item = match c.node_type() {
            NodeType::Element => {
                let mut attrs = BTreeMap::new();
                for (k, a) in c.attributes() {
                    let v = match as_attribute(&a).ok().and_then(|a| a.value()) {
                        None => "?no value".to_string(),
                        Some(v) => unescape(&v).unwrap_or_else(|| format!("?not escaped: {}", v)),
                    };
                    if as_attribute(&a).ok().and_then(|a| a.owner_element()).as_ref() != Some(c) || a.owner_document().as_ref() != Some(doc) {
                        out.push(Item::Ref("?owner of an attribute".into()));
                    }
                    if a.node_name() != k || as_element(c).ok().and_then(|e| e.get_attribute_node(&k.to_string())) != Some(a) {
                        out.push(Item::Ref("?name of an attribute".into()));
                    }
                    let _ = attrs.insert(k.to_string(), v);
                }
                Item::Elem { name: c.node_name().to_string(), attrs, children: if depth < 400 { tree(c, doc, depth + 1) } else { vec![] } }
            }
            NodeType::Text => Item::Text(raw(c)),
            NodeType::CData => Item::CData(raw(c)),
            NodeType::Comment => Item::Comment(raw(c)),
            NodeType::ProcessingInstruction => {
                Item::Pi(c.node_name().to_string(), as_processing_instruction(c).ok().and_then(|p| p.data()).unwrap_or_default())
            }
            t => Item::Ref(format!("?{:?}", t)),
        };
        out.push(item);
    }
    out
}

fn doc_of(d: &RefNode) -> Doc {
    Doc { decl: crate::exec::real_decl(d), items: tree(d, d, 0) }
}

/// What is expected after reading (`times` 0), and after writing and reading this that many times: white
/// space around text and that around an instruction's data is not significant, each time a CDATA section
/// is written it gets a blank on both sides, and white space in attribute values is all the same then.
fn expected(v: &[Item], times: usize) -> Vec<Item> {
    let mut out: Vec<Item> = vec![];
    for i in v {
        match i {
            Item::Text(t) => {
                let t = if times > 0 { t.trim_matches(WS) } else { t };
                if !t.is_empty() {
                    out.push(Item::Text(t.to_string()))
                }
            }
            Item::Pi(n, d) => out.push(Item::Pi(n.clone(), d.trim_matches(WS).to_string())),
            Item::CData(d) => out.push(Item::CData(format!("{}{}{}", " ".repeat(times), d, " ".repeat(times)))),
            Item::Elem { name, attrs, children } => {
                let attrs = attrs
                    .iter()
                    .map(|(k, v)| (k.clone(), if times > 0 { v.split(WS).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(" ") } else { v.clone() }))
                    .collect();
                out.push(Item::Elem { name: name.clone(), attrs, children: expected(children, times) })
            }
            o => out.push(o.clone()),
        }
    }
    out
}
const WS: &[char] = &[' ', '\t', '\r', '\n'];

// ------------------------------------------------------------------------------------------------
// Writing documents

const NAMES: &[&str] = &["a", "b", "c1", "p:a", "q:b-c", "é", "x.y", "_u", "日本", "A", "xml:lang", "e\u{301}", "long-name_with.all"];
const ANAMES: &[&str] = &["a", "b", "p:a", "xmlns", "xmlns:p", "id", "é", "x.y", "_u", "xml:lang", "c-d", "日"];
const CHARS: &[&str] = &["x", "y", "hello", " ", "  ", "\n", "\t", "é", "日本", "𐀀", "&", "<", ">", "'", "\"", "]", "1", "-", ";", "#", "amp;", "=", "/", "?", "!", "%", "--", "&#65;", "&lt;"];

/// The pieces of a written document, so that single ones can be broken.
#[derive(Clone, Debug)]
pub enum Tok {
    Decl(String),
    Open { name: String, attrs: Vec<(String, String)>, empty: bool, space: String },
    Close { name: String, space: String },
    Text(String),
    CData(String),
    Comment(String),
    Pi(String, String),
    Space(String),
    /// Something put in to break the document.
    Raw(String),
}

impl Tok {
    fn text(&self) -> String {
        match self {
            Tok::Decl(s) | Tok::Space(s) | Tok::Text(s) | Tok::Raw(s) => s.clone(),
            Tok::Open { name, attrs, empty, space } => {
                let mut t = format!("<{}", name);
                for (k, v) in attrs {
                    t.push_str(&format!("{}{}{}", if space.is_empty() { " " } else { space }, k, v));
                }
                t + space + if *empty { "/>" } else { ">" }
            }
            Tok::Close { name, space } => format!("</{}{}>", name, space),
            Tok::CData(s) => format!("<![CDATA[{}]]>", s),
            Tok::Comment(s) => format!("<!--{}-->", s),
            Tok::Pi(t, d) => {
                if d.is_empty() {
                    format!("<?{}?>", t)
                } else {
                    format!("<?{} {}?>", t, d)
                }
            }
        }
    }
}

fn write(t: &[Tok]) -> String {
    t.iter().map(|t| t.text()).collect()
}

struct Writer {
    r: Rng,
    out: Vec<Tok>,
    left: usize,
    /// What there is a lot of.
    large: Large,
}

#[derive(Clone, Copy, PartialEq)]
enum Large {
    Nothing,
    Text,
    Value,
    Other,
    Name,
    Attrs,
    Children,
    Depth,
    Misc,
}

const AMOUNTS: &[usize] = &[64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 600, 1000, 1024, 1025, 2050, 4096, 4097, 5000];

impl Writer {
    /// How many there are of what there is a lot of: the first time many.
    fn amount(&mut self, what: Large, most: usize, otherwise: usize) -> usize {
        if self.large == what && self.r.chance(2, 3) {
            self.large = Large::Nothing;
            return (*self.r.pick(AMOUNTS)).min(most);
        }
        otherwise
    }
    /// A character written in one of the ways it can be.
    fn enc(&mut self, c: char, must: bool) -> String {
        let named = match c {
            '&' => "&amp;",
            '<' => "&lt;",
            '>' => "&gt;",
            '\'' => "&apos;",
            '"' => "&quot;",
            _ => "",
        };
        if !must && !self.r.chance(1, 6) {
            return c.to_string();
        }
        match self.r.below(if named.is_empty() { 4 } else { 7 }) {
            0 => format!("&#{};", c as u32),
            1 => format!("&#x{:x};", c as u32),
            3 => {
                // quick-xml takes no more than seven decimal and six hexadecimal digits.
                if self.r.chance(1, 2) {
                    format!("&#{:0w$};", c as u32, w = *self.r.pick(&[3usize, 5, 6, 7]))
                } else {
                    format!("&#x{:0w$X};", c as u32, w = *self.r.pick(&[3usize, 5, 6]))
                }
            }
            2 => format!("&#x{:04X};", c as u32),
            _ => named.to_string(),
        }
    }
    fn string(&mut self, max: usize, what: Large) -> String {
        let n = self.r.range(0, max);
        let n = self.amount(what, 100_000, n);
        if n > max && self.r.chance(1, 2) {
            let c = *self.r.pick(CHARS);
            let d = *self.r.pick(CHARS);
            return std::iter::repeat_n(c, n - 1).chain([d]).collect();
        }
        (0..n).map(|_| *self.r.pick(CHARS)).collect()
    }
    fn space(&mut self) -> String {
        if self.r.chance(4, 5) {
            String::new()
        } else {
            self.r.pick(&[" ", "\n", "\t ", "  "]).to_string()
        }
    }
    fn pi(&mut self) -> Item {
        let t = self.r.pick(&["t", "xml-stylesheet", "é", "xmlx", "p.i"]).to_string();
        let d = self.r.pick(&["", "data", "href=\"x\" type='y'", "a & b < c > d", "  two  words", "?", "é 日本"]).to_string();
        let n = self.amount(Large::Other, 100_000, 0);
        let d = if n > 0 { self.r.pick(&["d", "é", "日", "d e"]).repeat(n) } else { d };
        let n = self.amount(Large::Name, 2000, 0);
        let t = t + &self.r.pick(&["x", "é", "日"]).repeat(n);
        self.out.push(Tok::Pi(t.clone(), d.clone()));
        Item::Pi(t, d)
    }
    fn comment(&mut self) -> Item {
        let mut s = String::new();
        let n = self.r.below(5);
        for _ in 0..self.amount(Large::Other, 100_000, n) {
            s.push_str(self.r.pick(&["x", " ", "é", "a & b", "<b>", "&", "'\"", "]]>", "\n", "<", "? >", "- ", "&& <!"]));
        }
        // A comment does not end in a hyphen, and references in it are a matter of taste.
        let s = if s.ends_with('-') { format!("{} ", s) } else { s };
        self.out.push(Tok::Comment(s.clone()));
        Item::Comment(s)
    }
    fn text(&mut self) -> Item {
        let mut v = self.string(6, Large::Text);
        if v.is_empty() {
            v = "t".into();
        }
        let mut t = String::new();
        let mut seen = String::new();
        for c in v.chars() {
            let must = matches!(c, '&' | '<' | '>');
            let e = self.enc(c, must);
            // What is not written as reference and white space does not count at the ends.
            if e.len() > 1 || !WS.contains(&c) || !t.trim_matches(WS).is_empty() {
                seen.push(c);
            }
            t.push_str(&e);
        }
        let n = t.len() - t.trim_end_matches(WS).len();
        if n > 0 && !t.trim_matches(WS).is_empty() {
            seen.truncate(seen.len() - n);
        }
        self.out.push(Tok::Text(t));
        Item::Text(seen)
    }
    fn cdata(&mut self) -> Item {
        let s = self.string(5, Large::Other).replace("]]>", "]] >");
        let s = if s.ends_with(']') { s + "." } else { s };
        self.out.push(Tok::CData(s.clone()));
        Item::CData(s)
    }
    fn attrs(&mut self) -> (Vec<(String, String)>, BTreeMap<String, String>) {
        let mut l = vec![];
        let mut m = BTreeMap::new();
        let n = if self.r.chance(1, 2) { 0 } else { self.r.range(1, 4) };
        let n = self.amount(Large::Attrs, 600, n);
        for i in 0..n {
            let k = if n > 10 { format!("{}{}", self.r.pick(&["n", "p:n", "é"]), i) } else { self.r.pick(ANAMES).to_string() };
            let more = self.amount(Large::Name, 2000, 0);
            let k = if more > 0 && k != "xml:id" && !k.starts_with("xmlns") { k + &self.r.pick(&["x", "é", "日"]).repeat(more) } else { k };
            if m.contains_key(&k) {
                continue;
            }
            let q = *self.r.pick(&['"', '\'']);
            let v = self.string(5, Large::Value);
            let mut t = String::new();
            let mut seen = String::new();
            for c in v.chars() {
                let must = matches!(c, '&' | '<') || c == q;
                let e = self.enc(c, must);
                seen.push(if e.len() == 1 && WS.contains(&c) { ' ' } else { c });
                t.push_str(&e);
            }
            let eq = if self.r.chance(1, 8) { " = " } else { "=" };
            l.push((k.clone(), format!("{}{}{}{}", eq, q, t, q)));
            let _ = m.insert(k, seen.trim_matches(' ').to_string());
        }
        (l, m)
    }
    fn element(&mut self, depth: usize) -> Item {
        let name = self.r.pick(NAMES).to_string();
        let more = self.amount(Large::Name, 2000, 0);
        let name = name + &self.r.pick(&["x", "é", "日"]).repeat(more);
        let (attrs, map) = self.attrs();
        let space = self.space();
        let n = if depth > 6 || self.left == 0 { 0 } else { self.r.below(5) };
        let n = self.amount(Large::Children, 600, n);
        if n > 10 {
            self.left = self.left.max(n / 4);
        }
        let deep = self.amount(Large::Depth, 300, 0);
        if deep > 0 {
            let name = self.r.pick(NAMES).to_string();
            for _ in 0..deep {
                self.out.push(Tok::Open { name: name.clone(), attrs: vec![], empty: false, space: String::new() });
            }
            let mut i = self.element(depth);
            for _ in 0..deep {
                self.out.push(Tok::Close { name: name.clone(), space: String::new() });
                i = Item::Elem { name: name.clone(), attrs: BTreeMap::new(), children: vec![i] };
            }
            return i;
        }
        self.left = self.left.saturating_sub(1);
        if n == 0 && self.r.chance(1, 2) {
            self.out.push(Tok::Open { name: name.clone(), attrs, empty: true, space });
            return Item::Elem { name, attrs: map, children: vec![] };
        }
        self.out.push(Tok::Open { name: name.clone(), attrs, empty: false, space });
        let mut children: Vec<Item> = vec![];
        for _ in 0..n {
            let c = match self.r.below(9) {
                0 | 1 if !matches!(children.last(), Some(Item::Text(_))) => self.text(),
                2 => self.cdata(),
                3 => self.comment(),
                4 => self.pi(),
                _ => self.element(depth + 1),
            };
            children.push(c);
        }
        let space = self.space();
        self.out.push(Tok::Close { name: name.clone(), space });
        Item::Elem { name, attrs: map, children }
    }
    fn misc(&mut self, items: &mut Vec<Item>) {
        let n = self.r.below(3);
        for _ in 0..self.amount(Large::Misc, 300, n) {
            match self.r.below(4) {
                0 => items.push(self.comment()),
                1 => items.push(self.pi()),
                _ => {
                    let s = self.r.pick(&["\n", " ", "\n\n\t"]).to_string();
                    self.out.push(Tok::Space(s));
                }
            }
        }
    }
}

/// A well-formed document and what it says.
fn document(r: Rng) -> (Vec<Tok>, Doc) {
    let mut w = Writer { r, out: vec![], left: 25, large: Large::Nothing };
    if w.r.chance(1, 40) {
        use Large::*;
        w.large = *w.r.pick(&[Text, Value, Other, Name, Attrs, Children, Depth, Misc]);
    }
    let mut items = vec![];
    let mut decl = None;
    if w.r.chance(1, 2) {
        let d = Decl {
            v11: w.r.chance(1, 2),
            enc: if w.r.chance(1, 2) { Some(w.r.pick(&["UTF-8", "utf-8"]).to_string()) } else { None },
            sa: *w.r.pick(&[None, Some(true), Some(false)]),
        };
        let mut t = decl_text(&d);
        match w.r.below(4) {
            0 => t = t.replace('"', "'"),
            1 => t = t.replace(' ', "\n ").replace("?>", " ?>"),
            2 => t = t.replace('=', " = "),
            _ => {}
        }
        w.out.push(Tok::Decl(t));
        decl = Some(d);
    }
    w.misc(&mut items);
    let e = w.element(0);
    items.push(e);
    w.misc(&mut items);
    (w.out, Doc { decl, items })
}

// ------------------------------------------------------------------------------------------------
// C22

fn differ(got: &Doc, want: &Doc, times: usize) -> Option<String> {
    if got.decl != want.decl {
        return Some(format!("declaration {:?} instead of {:?}", got.decl, want.decl));
    }
    // Only what is read may be subject to the rules for what is written.
    fn spaces(v: &[Item]) -> Vec<Item> {
        v.iter()
            .map(|i| match i {
                Item::Pi(n, d) => Item::Pi(n.clone(), d.trim_matches(WS).to_string()),
                Item::Elem { name, attrs, children } => Item::Elem {
                    name: name.clone(),
                    attrs: attrs.iter().map(|(k, v)| (k.clone(), v.split(WS).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(" "))).collect(),
                    children: spaces(children),
                },
                o => o.clone(),
            })
            .collect()
    }
    let (x, y) = (if times > 0 { spaces(&got.items) } else { got.items.clone() }, expected(&want.items, times));
    if x != y {
        return Some(format!("reads as {:?}\ninstead of {:?}", x, y));
    }
    None
}

pub fn written(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let (toks, want) = document(Rng::new(ctx.seed, "written", idx));
    let text = write(&toks);
    ctx.evals += 1;
    if ctx.distinct.insert(hash_str(20, &text)) {
        ctx.sample(|| text.clone());
    }
    let mut seen = 0;
    let r = guard(|| {
        let read = if idx % 3 == 0 { read_reader(Pieces::new(text.as_bytes(), Cut::Random(idx))) } else { read_xml(&text) };
        let d = match read {
            Err(e) => return Some(format!("refused: {:?}", e)),
            Ok(d) => d,
        };
        let got = doc_of(&d);
        seen += count(&want.items);
        if let Some(t) = differ(&got, &want, 0) {
            return Some(t);
        }
        // Written by the library and read again, twice.
        let mut now = d;
        for round in 1..3 {
            let again = now.to_string();
            now = match read_xml(&again) {
                Err(e) => return Some(format!("what is written for it is refused ({:?}): {}", e, again)),
                Ok(d) => d,
            };
            seen += count(&want.items);
            if let Some(t) = differ(&doc_of(&now), &want, round) {
                return Some(format!("after writing and reading {} times: {}\nwritten: {}", round, t, again));
            }
        }
        None
    });
    ctx.count("observations_compared", seen);
    match r {
        Caught::Fine(None) => None,
        Caught::Fine(Some(t)) => {
            let b = if t.starts_with("after") || t.starts_with("what") { vec!["C22", "C16"] } else { vec!["C22"] };
            Some(Bad::new(&b, t, text))
        }
        Caught::Panicked(s) => Some(Bad::new(&["C21", "C22"], s, text)),
    }
}

fn count(v: &[Item]) -> u64 {
    v.iter()
        .map(|i| match i {
            Item::Elem { attrs, children, .. } => 1 + attrs.len() as u64 + count(children),
            _ => 1,
        })
        .sum()
}

const RTOK: &[&str] = &["x", " ", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#65;", "&#x42;", "&#38;", "&#x26;", "'", "é", "lt;", "#38;", "amp;", "\n"];
pub const REFS_QUICK: u64 = 17 * 17 * 17;
pub const REFS_THOROUGH: u64 = 17 * 17 * 17 * 17;
/// Every short sequence of references and plain pieces, in text and in an attribute.
pub fn refs(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut s = String::new();
    let mut v = String::new();
    let mut x = idx;
    for _ in 0..if ctx.thorough { 4 } else { 3 } {
        let t = RTOK[(x % 17) as usize];
        x /= 17;
        s.push_str(t);
        v.push_str(match t {
            "&amp;" | "&#38;" | "&#x26;" => "&",
            "&lt;" => "<",
            "&gt;" => ">",
            "&quot;" => "\"",
            "&apos;" => "'",
            "&#65;" => "A",
            "&#x42;" => "B",
            t => t,
        });
    }
    let text = format!("<r a=\"{}\">{}<![CDATA[{}]]><e b=\"{}\"/></r>", s, s, s, s);
    ctx.evals += 1;
    ctx.count("observations_compared", 8);
    if ctx.distinct.insert(hash_str(21, &text)) && idx % 997 == 5 {
        ctx.sample(|| text.clone());
    }
    let a = |k: &str| BTreeMap::from([(k.to_string(), v.replace('\n', " ").trim_matches(' ').to_string())]);
    // Only white space that is written as such is not significant.
    let t = v.trim_matches(WS).to_string();
    let mut children = vec![Item::Text(t), Item::CData(s.clone())];
    children.push(Item::Elem { name: "e".into(), attrs: a("b"), children: vec![] });
    let want = Doc { decl: None, items: vec![Item::Elem { name: "r".into(), attrs: a("a"), children }] };
    let r = guard(|| {
        let d = match read_xml(&text) {
            Err(e) => return Some(format!("refused: {:?}", e)),
            Ok(d) => d,
        };
        if let Some(t) = differ(&doc_of(&d), &want, 0) {
            return Some(t);
        }
        match read_xml(d.to_string()) {
            Err(e) => Some(format!("what is written for it is refused ({:?}): {}", e, d)),
            Ok(e) => differ(&doc_of(&e), &want, 1).map(|t| format!("after writing and reading: {}", t)),
        }
    });
    match r {
        Caught::Fine(None) => None,
        Caught::Fine(Some(t)) => Some(Bad::new(&["C22"], t, text)),
        Caught::Panicked(s) => Some(Bad::new(&["C21", "C22"], s, text)),
    }
}

// ------------------------------------------------------------------------------------------------
// C21

fn outcome(r: std::result::Result<RefNode, xml_dom::parser::Error>) -> std::result::Result<Doc, String> {
    match r {
        Ok(d) => Ok(doc_of(&d)),
        Err(e) => Err(format!("{} {:?}", e, e)),
    }
}

/// Read an input in all ways.
fn any_input(ctx: &mut Ctx, data: &[u8], seed: u64) -> Option<Bad> {
    ctx.evals += 1;
    ctx.count("observations_compared", 8);
    let shown = || format!("{:?}", String::from_utf8_lossy(data));
    let r = guard(|| {
        let mut all = vec![];
        let as_str = std::str::from_utf8(data).ok();
        if let Some(s) = as_str {
            all.push(("a string".to_string(), outcome(read_xml(s))));
        }
        for cut in [Cut::Whole, Cut::Each(1), Cut::Each(2), Cut::Each(3), Cut::Random(seed), Cut::Interrupted(seed)] {
            all.push((format!("a stream, {:?}", cut), outcome(read_reader(Pieces::new(data, cut)))));
        }
        let _ = read_reader(std::io::BufReader::with_capacity(5, data));
        let broken = outcome(read_reader(Failing(&data[..data.len() / 2])));
        if broken.is_ok() {
            return (Some("a stream that fails gives a document".to_string()), false);
        }
        let ok = all[0].1.is_ok();
        for (how, x) in &all[1..] {
            let same = match (x, &all[0].1) {
                (Ok(a), Ok(b)) => a == b,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !same {
                return (Some(format!("read as {}: {:?}\nread as {}: {:?}", all[0].0, all[0].1, how, x)), ok);
            }
        }
        (None, ok)
    });
    match r {
        Caught::Fine((None, ok)) => {
            ctx.count(if ok { "inputs_accepted" } else { "inputs_refused" }, 1);
            None
        }
        Caught::Fine((Some(t), _)) => Some(Bad::new(&["C21"], t, shown())),
        Caught::Panicked(s) => Some(Bad::new(&["C21"], format!("{} {}", shown(), s), shown())),
    }
}

const SOUP: &[&[u8]] = &[
    b"<", b">", b"</", b"/>", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?", b"?>", b"<?xml", b"<?xml version=\"1.0\"?>", b"<!DOCTYPE", b"<!DOCTYPE a [", b"]>", b"<!", b"&", b";", b"&#", b"&#x",
    b"&amp;", b"&lt", b"=", b"\"", b"'", b" ", b"\n", b"a", b"b", b"p:a", b"<a>", b"</a>", b"<a/>", b"<a b=\"c\">", b"xmlns:p=\"u\"", b"xml:id='i'", b"\xef\xbb\xbf", b"\xef", b"\xff\xfe", b"\xc3\xa9", b"\xc3",
    b"\x00", b"\xed\xa0\x80", b"-", b"--", b"]", b"!", b"?", b"/", b"<a", b"encoding='latin1'", b"standalone=\"yes\"", b"version='1.1'", b"<b", b"text", b"\xf0\x90\x80\x80", b"\xe2\x80\xa8", b"&#0;", b"&#xD800;",
    b"&#99999999999;", b"<?xml encoding=\"UTF-16\"?>", b"a:b:c", b":", b"1", b"<\xc3\xa9>", b"</\xc3\xa9>", b"\r", b"\r\n", b"<?a b?>", b"<a b='c' b='d'>", b"<1/>", b"\xfe\xff",
];

pub fn soup(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut r = Rng::new(ctx.seed, "soup", idx);
    let n = r.range(1, 25);
    let mut d: Vec<u8> = vec![];
    if r.chance(1, 4) {
        d.extend(b"<a>");
    }
    for _ in 0..n {
        d.extend(*r.pick(SOUP));
    }
    if r.chance(1, 4) {
        d.extend(b"</a>");
    }
    let t = String::from_utf8_lossy(&d).into_owned();
    if ctx.distinct.insert(hash_str(22, &t)) {
        ctx.sample(|| t);
    }
    any_input(ctx, &d, idx)
}

/// Written documents with a few bytes changed.
pub fn mutated(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut r = Rng::new(ctx.seed, "mutated", idx);
    let mut d = write(&document(r.clone()).0).into_bytes();
    if r.chance(1, 5) {
        let mut x = b"\xef\xbb\xbf".to_vec();
        x.extend(&d);
        d = x;
    }
    for _ in 0..r.below(4) {
        if d.is_empty() {
            break;
        }
        let at = r.below(d.len());
        match r.below(6) {
            0 => {
                let _ = d.remove(at);
            }
            1 => d[at] = r.below(256) as u8,
            2 => d[at] ^= 1 << r.below(8),
            3 => {
                let end = (at + r.range(1, 12)).min(d.len());
                let part = d[at..end].to_vec();
                let to = r.below(d.len());
                for (i, b) in part.into_iter().enumerate() {
                    d.insert((to + i).min(d.len()), b);
                }
            }
            4 => {
                let t = *r.pick(SOUP);
                for (i, b) in t.iter().enumerate() {
                    d.insert((at + i).min(d.len()), *b);
                }
            }
            _ => d.truncate(at),
        }
    }
    let t = String::from_utf8_lossy(&d).into_owned();
    if ctx.distinct.insert(hash_str(23, &t)) {
        ctx.sample(|| t);
    }
    any_input(ctx, &d, idx)
}

const SHORT: &[&[u8]] = &[b"<a>", b"</a>", b"<a/>", b"<", b">", b"t", b"&", b";", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?x", b"?>", b"<?xml version='1.0'?>", b" ", b"=", b"'", b"\xef\xbb\xbf", b"<!DOCTYPE a>"];
pub const SHORT_QUICK: u64 = 20 * 20 * 20;
pub const SHORT_THOROUGH: u64 = 20 * 20 * 20 * 20;
pub fn short(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut d: Vec<u8> = vec![];
    let mut x = idx;
    for _ in 0..if ctx.thorough { 4 } else { 3 } {
        d.extend(SHORT[(x % 20) as usize]);
        x /= 20;
    }
    let _ = ctx.distinct.insert(hash_str(24, &String::from_utf8_lossy(&d)));
    any_input(ctx, &d, idx)
}

pub const BIG: u64 = 16;
/// Inputs that are large in one way.
pub fn big(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let n = [100_000, 300_000][(idx / 8 % 2) as usize];
    // Not deeper than that, as going through all levels above each would take too long, but with little stack.
    let deep = n / 30;
    let d: String = match idx % 8 {
        0 => "<a>".repeat(deep) + &"</a>".repeat(deep),
        1 => "<a>".repeat(deep),
        2 => format!("<a>{}</a>", "<b/>".repeat(n / 20)),
        3 => format!("<a {}/>", (0..n / 200).map(|i| format!("b{}='{}'", i, i)).collect::<Vec<_>>().join(" ")),
        4 => format!("<{}/>", "n".repeat(n)),
        5 => format!("<a>{}</a>", "&amp;x".repeat(n)),
        6 => format!("<a><!--{}--><![CDATA[{}]]></a>", "-x".repeat(n), "]".repeat(n)),
        _ => format!("<a b='{}'>{}", "&#65;".repeat(n / 10), "<c d='e'>".repeat(deep)),
    };
    ctx.evals += 1;
    ctx.count("observations_compared", 2);
    let _ = ctx.distinct.insert(hash_str(25, &idx.to_string()));
    ctx.sample(|| format!("{} bytes: {}...", d.len(), &d[..60]));
    let want = !matches!(idx % 8, 1 | 7);
    let r = on_little_stack(|| {
        guard(|| {
            let a = read_xml(&d).is_ok();
            let b = read_reader(std::io::BufReader::with_capacity(777, d.as_bytes())).is_ok();
            (a, b)
        })
    });
    match r {
        Caught::Fine((a, b)) if a == want && b == want => None,
        Caught::Fine((a, b)) => {
            let p: &[&'static str] = if a != b { &["C21"] } else if want { &["C22"] } else { &["C23"] };
            Some(Bad::new(p, format!("large input {}: accepted {} {}", idx, a, b), String::new()))
        }
        Caught::Panicked(s) => Some(Bad::new(&["C21"], format!("large input {} {}", idx, s), String::new())),
    }
}

const EDGES: &[usize] = &[15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 8191, 8192, 16384, 32768, 65535, 65536];
const UNITS: &[&str] = &["a", "é", "日", "𐐷", "&amp;", "&#233;", "a é"];
pub const SIZES: u64 = 24 * 7 * 6 * 4;
/// Each kind of content, with every character across every boundary of buffers as they are usual.
pub fn sizes(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let (edge, unit, place, shift) = (EDGES[(idx % 24) as usize], UNITS[(idx / 24 % 7) as usize], idx / 168 % 6, (idx / 1008) as usize);
    if (unit.starts_with('&') && place > 1) || (place == 5 && unit.contains(' ')) {
        return None;
    }
    let mut text = "b".repeat(shift);
    let mut says = text.clone();
    while text.len() < edge + 4 {
        text.push_str(unit);
        says.push_str(match unit {
            "&amp;" => "&",
            "&#233;" => "é",
            u => u,
        });
    }
    text.push('z');
    says.push('z');
    let name = |n: &str| n.to_string();
    let elem = |attrs: Vec<(String, String)>, children: Vec<Item>| Item::Elem { name: name("a"), attrs: attrs.into_iter().collect(), children };
    let (d, want) = match place {
        0 => (format!("<a>{}</a>", text), elem(vec![], vec![Item::Text(says)])),
        1 => (format!("<a b='{}'/>", text), elem(vec![(name("b"), says)], vec![])),
        2 => (format!("<a><!--{}--></a>", text), elem(vec![], vec![Item::Comment(says)])),
        3 => (format!("<a><![CDATA[{}]]></a>", text), elem(vec![], vec![Item::CData(says)])),
        4 => (format!("<a><?b {}?></a>", text), elem(vec![], vec![Item::Pi(name("b"), says)])),
        _ => (format!("<a><n{}/></a>", text), elem(vec![], vec![Item::Elem { name: format!("n{}", says), attrs: BTreeMap::new(), children: vec![] }])),
    };
    ctx.evals += 1;
    ctx.count("observations_compared", 3);
    let _ = ctx.distinct.insert(hash_str(27, &d));
    ctx.sample(|| format!("{} bytes: {}...", d.len(), d.chars().take(40).collect::<String>()));
    let want = Doc { decl: None, items: vec![want] };
    let r = guard(|| {
        let all = [outcome(read_xml(&d)), outcome(read_reader(std::io::BufReader::with_capacity(997, d.as_bytes()))), outcome(read_reader(Pieces::new(d.as_bytes(), Cut::Random(idx))))];
        if all[1].as_ref().ok() != all[0].as_ref().ok() || all[2].as_ref().ok() != all[0].as_ref().ok() {
            return Some(("C21", "read from a string and in pieces differently".to_string()));
        }
        let [first, ..] = all;
        match first {
            Err(e) => Some(("C22", format!("refused: {}", e))),
            Ok(g) => differ(&g, &want, 0).map(|t| ("C22", t)),
        }
    });
    match r {
        Caught::Fine(None) => None,
        Caught::Fine(Some((p, t))) => Some(Bad::new(&[p], t, d)),
        Caught::Panicked(s) => Some(Bad::new(&["C21", "C22"], s, d)),
    }
}

pub const PLANES: u64 = 0x110000 / 64;
/// Every character a document may have, 64 at a time, in every place that takes one, as it is and as a reference.
pub fn unicode(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let all: Vec<char> = (idx * 64..idx * 64 + 64).filter_map(|c| char::from_u32(c as u32)).filter(|c| *c > ' ' && !matches!(*c, '\u{7f}'..='\u{9f}' | '\u{fffe}' | '\u{ffff}' | '<' | '&' | '\'' | ']' | '>' | '?' | '-')).collect();
    if all.is_empty() {
        return None;
    }
    let s: String = all.iter().collect();
    let refs: String = all.iter().map(|c| if (*c as u32) % 2 == 0 { format!("&#x{:X};", *c as u32) } else { format!("&#{};", *c as u32) }).collect();
    let names: String = all.iter().filter(|c| is_name_char(**c) && **c != ':').collect();
    let d = format!("<!--{0}--><a b='{0}' c='{1}' n{2}='x'>{0}<e{2}/>{1}<!--{0}--><![CDATA[{0}]]><?t {0}?></a>", s, refs, names);
    // In attribute values this is the end of a line.
    let attrs = [("b", s.replace('\u{2028}', " ")), ("c", s.clone())].into_iter().map(|(k, v)| (k.to_string(), v)).chain([(format!("n{}", names), "x".to_string())]).collect();
    let item = Item::Elem {
        name: "a".into(),
        attrs,
        children: vec![
            Item::Text(s.clone()),
            Item::Elem { name: format!("e{}", names), attrs: BTreeMap::new(), children: vec![] },
            Item::Text(s.clone()),
            Item::Comment(s.clone()),
            Item::CData(s.clone()),
            Item::Pi("t".into(), s.clone()),
        ],
    };
    let want = Doc { decl: None, items: vec![Item::Comment(s), item] };
    ctx.evals += 1;
    ctx.count("observations_compared", 2);
    let _ = ctx.distinct.insert(hash_str(28, &d));
    ctx.sample(|| d.clone());
    let r = guard(|| {
        let a = outcome(read_xml(&d));
        let b = outcome(read_reader(Pieces::new(d.as_bytes(), Cut::Each(1))));
        if a.as_ref().ok() != b.as_ref().ok() {
            return Some(("C21", "read from a string and byte by byte differently".to_string()));
        }
        match a {
            Err(e) => Some(("C22", format!("refused: {}", e))),
            Ok(g) => differ(&g, &want, 0).map(|t| ("C22", t)),
        }
    });
    match r {
        Caught::Fine(None) => None,
        Caught::Fine(Some((p, t))) => Some(Bad::new(&[p], t, d)),
        Caught::Panicked(s) => Some(Bad::new(&["C21", "C22"], s, d)),
    }
}

// ------------------------------------------------------------------------------------------------
// C23

const BADN: &[&str] = &["1a", "-a", ".a", "a:b:c", ":a", "a:", "a\u{d7}", "\u{b7}a", "a,b", "a$", "a*b", "a@", "a+b", "é1:2", "a\u{2190}", "\u{300}a", "a(b)", "a|b", "a::b", "p:-"];
const BADREF: &[&str] = &["&undefined;", "&;", "&#;", "&#x;", "&#xZZ;", "&#x110000;", "&", "& ", "&a b;", "&amp", "&#12a;", "&nbsp;", "&#x-41;", "&AMP;", "&lt", "&#xD800;", "&#99999999999;", "&eacute;"];

/// What kind of corruption was made, and the broken document.
fn corrupt(r: &mut Rng, toks: &[Tok]) -> Option<(&'static str, Vec<Tok>)> {
    let mut t = toks.to_vec();
    let find = |f: &dyn Fn(&Tok) -> bool| -> Vec<usize> { (0..toks.len()).filter(|i| f(&toks[*i])).collect() };
    let opens = find(&|t| matches!(t, Tok::Open { .. }));
    let closes = find(&|t| matches!(t, Tok::Close { .. }));
    let root = opens[0];
    let root_end = if matches!(&toks[root], Tok::Open { empty: true, .. }) { root } else { *closes.last()? };
    let pick = |r: &mut Rng, v: &[usize]| if v.is_empty() { None } else { Some(v[r.below(v.len())]) };
    let start = matches!(toks[0], Tok::Decl(_)) as usize;
    // A position inside the root element.
    let inside = |r: &mut Rng| if root == root_end { None } else { Some(r.range(root + 1, root_end)) };
    // The start tag that belongs to an end tag.
    let open_of = |c: usize| {
        let mut depth = 0;
        for i in (0..c).rev() {
            match &toks[i] {
                Tok::Close { .. } => depth += 1,
                Tok::Open { empty: false, .. } => {
                    if depth == 0 {
                        return i;
                    }
                    depth -= 1
                }
                _ => {}
            }
        }
        0
    };
    let what = match r.below(24) {
        0 => {
            let c = pick(r, &closes)?;
            if let Tok::Close { name, .. } = &mut t[c] {
                *name = match r.below(5) {
                    0 => name.to_uppercase() + "X",
                    1 => format!("{}x", name),
                    2 => format!("p:{}", name.replace(':', "")),
                    3 => "zz".into(),
                    _ => name.chars().rev().collect::<String>() + "_",
                };
            }
            "end tag with another name"
        }
        1 => {
            let _ = t.remove(pick(r, &closes)?);
            "end tag missing"
        }
        2 => {
            let at = inside(r)?;
            let name = match &toks[root] {
                Tok::Open { name, .. } => name.clone(),
                _ => return None,
            };
            t.insert(at, Tok::Raw(format!("</{}>", if r.chance(1, 2) { name } else { "stray".into() })));
            "stray end tag inside"
        }
        3 => {
            let at = if r.chance(1, 2) { r.range(root_end + 1, toks.len()) } else { r.range(start, root) };
            t.insert(at, Tok::Raw("</a>".into()));
            "stray end tag outside"
        }
        4 => {
            let at = if r.chance(1, 2) { r.range(root_end + 1, toks.len()) } else { r.range(start, root) };
            let s = r.pick(&["<x/>", "<x></x>", "<x>t</x>", "<a b='c'/>", "<a><b/></a>"]).to_string();
            t.insert(at, Tok::Raw(s));
            "second root element"
        }
        5 => {
            let _ = t.drain(root..=root_end);
            "no root element"
        }
        6 => {
            let c = pick(r, &opens)?;
            if let Tok::Open { attrs, .. } = &mut t[c] {
                let v = r.pick(&["='1'", "=\"\"", "='x y'", "=\"&amp;\""]).to_string();
                if attrs.is_empty() {
                    attrs.push(("dup".into(), "=\"v\"".into()));
                }
                let k = attrs[r.below(attrs.len())].0.clone();
                let at = r.range(0, attrs.len());
                attrs.insert(at, (k, v));
            }
            "duplicate attribute"
        }
        7 => {
            let bad = r.pick(BADN).to_string();
            let c = pick(r, &opens)?;
            if let Tok::Open { name, empty, .. } = &mut t[c] {
                *name = bad.clone();
                if !*empty {
                    let e = closes.iter().copied().find(|e| open_of(*e) == c)?;
                    if let Tok::Close { name, .. } = &mut t[e] {
                        *name = bad;
                    }
                }
            }
            "illegal element name"
        }
        8 => {
            let bad = r.pick(BADN).to_string();
            let c = pick(r, &opens)?;
            if let Tok::Open { attrs, .. } = &mut t[c] {
                let at = r.range(0, attrs.len());
                attrs.insert(at, (bad, "='v'".into()));
            }
            "illegal attribute name"
        }
        9 => {
            let bad = r.pick(BADN).to_string();
            let at = if r.chance(1, 2) { inside(r)? } else { r.range(start, root) };
            t.insert(at, Tok::Pi(bad, "d".into()));
            "illegal processing instruction target"
        }
        10 | 11 => {
            let c = pick(r, &find(&|t| matches!(t, Tok::Text(_))))?;
            if let Tok::Text(s) = &mut t[c] {
                let cut = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect::<Vec<_>>();
                // Not inside of another reference.
                let ok: Vec<usize> = cut.into_iter().filter(|i| s[..*i].rfind('&').is_none_or(|a| s[a..*i].contains(';'))).collect();
                let at = *r.pick(&ok);
                let bad = r.pick(BADREF);
                // A reference that lacks its end must not find one.
                if !bad.ends_with(';') && s[at..].split('&').next().unwrap_or("").contains(';') {
                    return None;
                }
                s.insert_str(at, bad);
            }
            "undefined reference in text"
        }
        12 | 13 => {
            let c = pick(r, &opens)?;
            if let Tok::Open { attrs, .. } = &mut t[c] {
                let at = r.range(0, attrs.len());
                let bad = r.pick(BADREF);
                let form = match r.below(3) {
                    0 => format!("=\"{}\"", bad),
                    1 => format!("='x{}'", bad),
                    _ => format!("='&amp;{} y'", bad),
                };
                attrs.insert(at, ("undefref".into(), form));
            }
            "undefined reference in an attribute"
        }
        14 => {
            let at = if start == 1 { r.range(1, toks.len()) } else { r.range(1.min(toks.len()), toks.len()) };
            // Only blanks before it is tolerated.
            if toks[..at].iter().all(|t| matches!(t, Tok::Space(_))) {
                return None;
            }
            t.insert(at, Tok::Decl("<?xml version=\"1.0\"?>".into()));
            "misplaced XML declaration"
        }
        15 | 16 => {
            let bad = r.pick(&[
                "<?xml version=\"2.0\"?>", "<?xml version=\"\"?>", "<?xml?>", "<?xml encoding=\"UTF-8\"?>", "<?xml version=\"1.0\" encoding=\"\"?>", "<?xml version=\"1.0\" encoding=\"8-UTF\"?>",
                "<?xml version=\"1.0\" standalone=\"maybe\"?>", "<?xml version=\"1.0\" standalone=\"yes\" encoding=\"UTF-8\"?>", "<?xml encoding=\"UTF-8\" version=\"1.0\"?>", "<?xml version=\"1.0\" version=\"1.0\"?>",
                "<?xml version=\"1.0\" extra=\"x\"?>", "<?xml version='1.0' standalone='YES'?>", "<?xml version='1.0' standalone=''?>", "<?xml version=\"1.0\" encoding=\"a b\"?>", "<?xml standalone='yes'?>", "<?xml version='1'?>",
                "<?xml version='1.00'?>", "<?xml version=\"1.0\" encoding=\"UTF-8\" encoding=\"UTF-8\"?>", "<?xml version='1.0' standalone='no' standalone='no'?>", "<?xml version=1.0?>", "<?xml version?>", "<?xml version=\"1.0\" encoding=\"é\"?>",
                "<?xml version=\" 1.0\"?>", "<?xml version=\"1.2\"?>", "<?xml Version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\" version=\"1.0\"?>",
            ]);
            if start == 1 {
                t[0] = Tok::Decl(bad.to_string());
            } else {
                t.insert(0, Tok::Decl(bad.to_string()));
            }
            "invalid XML declaration"
        }
        17 | 18 => {
            let at = if r.chance(1, 2) { r.range(root_end + 1, toks.len()) } else { r.range(start, root) };
            let s = if r.chance(1, 2) {
                r.pick(&["text", "x", " t ", "&amp;", "&#65;", "é", ";", "]]>", "&#32;", "0", ">", "\u{a0}"]).to_string()
            } else {
                // Any character that can be seen, alone or a few of them, among white space or not.
                let mut s = String::new();
                if r.chance(1, 3) {
                    s.push_str(r.pick(&[" ", "\n", "\t\r\n  "]));
                }
                let one = (0x21 + r.below(0x5e) as u8) as char;
                for _ in 0..r.range(1, 4) {
                    let ch = if r.chance(2, 3) { one } else { (0x21 + r.below(0x5e) as u8) as char };
                    if ch != '<' && ch != '&' {
                        s.push(ch);
                    }
                }
                if s.trim().is_empty() {
                    s.push(']');
                }
                if r.chance(1, 3) {
                    s.push_str(r.pick(&[" ", "\n", "\t\r\n  "]));
                }
                s
            };
            t.insert(at, Tok::Raw(s));
            "text outside the root element"
        }
        19 => {
            let at = if r.chance(1, 2) { r.range(root_end + 1, toks.len()) } else { r.range(start, root) };
            t.insert(at, Tok::CData("x".into()));
            "CDATA section outside the root element"
        }
        20 => {
            let c = pick(r, &opens)?;
            if let Tok::Open { empty, .. } = &mut t[c] {
                *empty = !*empty;
            }
            "start tag turned into an empty one or back"
        }
        21 => {
            let c = pick(r, &closes)?;
            if let Tok::Close { name, .. } = &toks[c] {
                t.insert(c, Tok::Raw(format!("</{}>", name)));
            }
            "end tag twice"
        }
        22 => {
            let c = pick(r, &opens)?;
            if let Tok::Open { name, .. } = &toks[c] {
                t.insert(c, Tok::Raw(format!("<{}>", name)));
            }
            "start tag that is not closed"
        }
        _ => {
            // Cut off anywhere before the root element is complete.
            let whole = write(&toks[..=root_end]);
            let mut at = r.below(whole.len());
            while !whole.is_char_boundary(at) {
                at -= 1;
            }
            t = vec![Tok::Raw(whole[..at].to_string())];
            "document cut off"
        }
    };
    Some((what, t))
}

pub fn corrupted(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut r = Rng::new(ctx.seed, "corrupted", idx);
    let (toks, _) = document(r.clone());
    let _ = r.next();
    let good = write(&toks);
    match guard(|| read_xml(&good).is_ok()) {
        Caught::Fine(true) => {}
        Caught::Fine(false) => return Some(Bad::new(&["C22"], "a well-formed document is refused".into(), good)),
        Caught::Panicked(s) => return Some(Bad::new(&["C21", "C22"], s, good)),
    }
    for round in 0..6 {
        let Some((what, t)) = corrupt(&mut r, &toks) else { continue };
        let text = write(&t);
        ctx.evals += 1;
        ctx.count("observations_compared", 2);
        ctx.count(&format!("class {}", what), 1);
        if ctx.distinct.insert(hash_str(26, &text)) {
            ctx.sample(|| format!("{}: {}", what, text));
        }
        let cut = if round % 2 == 0 { Cut::Whole } else { Cut::Random(idx) };
        let res = guard(|| (read_xml(&text).is_ok(), read_reader(Pieces::new(text.as_bytes(), cut)).is_ok()));
        match res {
            Caught::Fine((false, false)) => {}
            Caught::Fine(_) => return Some(Bad::new(&["C23"], format!("accepted: {}", what), text)),
            Caught::Panicked(s) => return Some(Bad::new(&["C21", "C23"], s, text)),
        }
    }
    None
}

pub fn families(prop: &str) -> Option<Vec<Family>> {
    let f = |name, f, quick, thorough, crash| Family { name, f, quick, thorough, crash };
    Some(match prop {
        "C21" => vec![
            f("short", short, SHORT_QUICK, SHORT_THOROUGH, &["C21"]),
            f("big", big, BIG, BIG, &["C21"]),
            f("unicode", unicode, PLANES, PLANES, &["C21"]),
            f("sizes", sizes, SIZES, SIZES, &["C21"]),
            f("soup", soup, 40_000, 2_500_000, &["C21"]),
            f("mutated", mutated, 20_000, 1_200_000, &["C21"]),
        ],
        "C22" => vec![
            f("sizes", sizes, SIZES, SIZES, &["C21", "C22"]),
            f("unicode", unicode, PLANES, PLANES, &["C21", "C22"]),
            f("refs", refs, REFS_QUICK, REFS_THOROUGH, &["C21", "C22"]),
            f("written", written, 40_000, 2_500_000, &["C21", "C22"]),
        ],
        "C23" => vec![f("corrupted", corrupted, 40_000, 3_000_000, &["C21", "C23"])],
        _ => return None,
    })
}
