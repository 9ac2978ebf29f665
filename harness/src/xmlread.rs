//! A small independent XML reader, and the comparison of text forms with the model.
use crate::compare::{Comp, Diff};
use crate::exec::World;
use crate::model::{Decl, Id, Kind, Model};
use crate::oracle::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Elem { name: String, attrs: BTreeMap<String, String>, children: Vec<Item> },
    Text(String),
    CData(String),
    Comment(String),
    Pi(String, String),
    Ref(String),
}

struct Reader<'a> {
    s: &'a str,
}

pub fn is_name_char(c: char) -> bool {
    nc_char(c) || c == ':'
}

impl<'a> Reader<'a> {
    fn eat(&mut self, t: &str) -> bool {
        match self.s.strip_prefix(t) {
            Some(r) => {
                self.s = r;
                true
            }
            None => false,
        }
    }
    fn until(&mut self, t: &str) -> Result<&'a str, String> {
        let i = self.s.find(t).ok_or_else(|| format!("missing {:?}", t))?;
        let r = &self.s[..i];
        self.s = &self.s[i + t.len()..];
        Ok(r)
    }
    fn name(&mut self) -> Result<String, String> {
        let end = self.s.find(|c| !is_name_char(c)).unwrap_or(self.s.len());
        let n = &self.s[..end];
        if parse_qname(n).is_err() {
            return Err(format!("bad name {:?} before {:?}", n, self.s.chars().take(20).collect::<String>()));
        }
        self.s = &self.s[end..];
        Ok(n.to_string())
    }
    fn space(&mut self) -> bool {
        let r = self.s.trim_start_matches([' ', '\t', '\n', '\r']);
        let any = r.len() != self.s.len();
        self.s = r;
        any
    }
    /// After the ampersand.
    fn reference(&mut self) -> Result<Result<char, String>, String> {
        let body = self.until(";")?;
        if let Some(num) = body.strip_prefix('#') {
            let v = match num.strip_prefix('x') {
                Some(h) => u32::from_str_radix(h, 16),
                None => num.parse(),
            };
            return v.ok().and_then(char::from_u32).map(Ok).ok_or_else(|| format!("bad reference {:?}", body));
        }
        Ok(Err(match body {
            "amp" => return Ok(Ok('&')),
            "lt" => return Ok(Ok('<')),
            "gt" => return Ok(Ok('>')),
            "quot" => return Ok(Ok('"')),
            "apos" => return Ok(Ok('\'')),
            n if parse_qname(n).is_ok() => n.to_string(),
            n => return Err(format!("bad reference {:?}", n)),
        }))
    }
    fn content(&mut self, open: Option<&str>) -> Result<Vec<Item>, String> {
        let mut out: Vec<Item> = vec![];
        let mut text = String::new();
        macro_rules! push {
            ($i:expr) => {{
                if !text.is_empty() {
                    out.push(Item::Text(std::mem::take(&mut text)));
                }
                out.push($i);
            }};
        }
        loop {
            if self.s.is_empty() {
                if open.is_some() {
                    return Err(format!("{:?} is not closed", open));
                }
                if !text.is_empty() {
                    out.push(Item::Text(text));
                }
                return Ok(out);
            }
            if self.eat("<!--") {
                let c = self.until("-->")?.to_string();
                push!(Item::Comment(c));
            } else if self.eat("<![CDATA[") {
                let c = self.until("]]>")?;
                let c = c.strip_prefix(' ').and_then(|c| c.strip_suffix(' ')).ok_or("CDATA form")?;
                push!(Item::CData(c.to_string()));
            } else if self.eat("<?") {
                let t = self.name()?;
                let d = self.until("?>")?;
                if !d.is_empty() && !d.starts_with(' ') {
                    return Err("no blank after target".into());
                }
                push!(Item::Pi(t, d.strip_prefix(' ').unwrap_or("").to_string()));
            } else if self.eat("</") {
                let n = self.name()?;
                let _ = self.space();
                if !self.eat(">") {
                    return Err("end tag not closed".into());
                }
                if open != Some(n.as_str()) {
                    return Err(format!("end tag {} in {:?}", n, open));
                }
                if !text.is_empty() {
                    out.push(Item::Text(text));
                }
                return Ok(out);
            } else if self.eat("<") {
                let name = self.name()?;
                let mut attrs = BTreeMap::new();
                let children;
                loop {
                    let sp = self.space();
                    if self.eat("/>") {
                        children = vec![];
                        break;
                    }
                    if self.eat(">") {
                        children = self.content(Some(&name))?;
                        break;
                    }
                    if !sp {
                        return Err(format!("junk in tag {}", name));
                    }
                    let an = self.name()?;
                    if !self.eat("=\"") {
                        return Err(format!("attribute {} without value", an));
                    }
                    let mut v = String::new();
                    loop {
                        let c = self.s.chars().next().ok_or("attribute not closed")?;
                        self.s = &self.s[c.len_utf8()..];
                        match c {
                            '"' => break,
                            '<' => return Err("< in attribute value".into()),
                            '&' => match self.reference()? {
                                Ok(c) => v.push(c),
                                Err(n) => return Err(format!("entity {} in attribute", n)),
                            },
                            c => v.push(c),
                        }
                    }
                    if attrs.insert(an.clone(), v).is_some() {
                        return Err(format!("attribute {} twice", an));
                    }
                }
                push!(Item::Elem { name, attrs, children });
            } else if self.eat("&") {
                match self.reference()? {
                    Ok(c) => text.push(c),
                    Err(n) => push!(Item::Ref(n)),
                }
            } else {
                let end = self.s.find(['<', '&']).unwrap_or(self.s.len());
                if self.s[..end].contains("]]>") {
                    return Err("]]> in text".into());
                }
                text.push_str(&self.s[..end]);
                self.s = &self.s[end..];
            }
        }
    }
}

pub fn read(s: &str) -> Result<Vec<Item>, String> {
    Reader { s }.content(None)
}

// ------------------------------------------------------------------------------------------------

/// None if the tree has content whose text form is not specified.
pub fn items(m: &Model, ids: &[Id]) -> Option<Vec<Item>> {
    let mut out: Vec<Item> = vec![];
    for id in ids {
        let n = &m.nodes[*id];
        match n.kind {
            Kind::Element => {
                let mut attrs = BTreeMap::new();
                for a in &n.attrs {
                    let v = m.attr_raw(*a).map(|r| normalize_attr(&r)).unwrap_or_default();
                    let _ = attrs.insert(m.nodes[*a].name.qualified(), v);
                }
                out.push(Item::Elem { name: n.name.qualified(), attrs, children: items(m, &n.children)? });
            }
            Kind::Text => {
                let d = n.data.clone().unwrap_or_default();
                if d.is_empty() {
                    continue;
                }
                match out.last_mut() {
                    Some(Item::Text(t)) => t.push_str(&d),
                    _ => out.push(Item::Text(d)),
                }
            }
            Kind::CData => {
                if let Some(d) = &n.data {
                    if d.contains("]]>") {
                        return None;
                    }
                    out.push(Item::CData(d.clone()))
                }
            }
            Kind::Comment => {
                if let Some(d) = &n.data {
                    out.push(Item::Comment(escape(d)))
                }
            }
            Kind::PI => {
                let d = n.data.clone().unwrap_or_default();
                if d.contains("?>") {
                    return None;
                }
                out.push(Item::Pi(n.name.qualified(), d))
            }
            Kind::EntRef => out.push(Item::Ref(n.name.qualified())),
            _ => return None,
        }
    }
    Some(out)
}

pub fn decl_text(d: &Decl) -> String {
    let mut s = format!("<?xml version=\"{}\"", if d.v11 { "1.1" } else { "1.0" });
    if let Some(e) = &d.enc {
        s.push_str(&format!(" encoding=\"{}\"", e));
    }
    if let Some(x) = d.sa {
        s.push_str(&format!(" standalone=\"{}\"", if x { "yes" } else { "no" }));
    }
    s + "?>"
}

/// The exact text of nodes that have one (no elements).
pub fn exact(m: &Model, id: Id) -> Option<String> {
    let n = &m.nodes[id];
    let q = n.name.qualified();
    let ext = |public: &Option<String>, system: &Option<String>| match (public, system) {
        (Some(p), Some(s)) => format!(" PUBLIC \"{}\" \"{}\"", p, s),
        (Some(p), None) => format!(" PUBLIC \"{}\"", p),
        (None, Some(s)) => format!(" SYSTEM \"{}\"", s),
        (None, None) => String::new(),
    };
    Some(match n.kind {
        Kind::Attr => format!("{}=\"{}\"", q, m.attr_value(id).unwrap_or_default()),
        Kind::Text => n.data.as_deref().map(escape).unwrap_or_default(),
        Kind::CData => n.data.as_ref().map(|d| format!("<![CDATA[ {} ]]>", d)).unwrap_or_default(),
        Kind::Comment => n.data.as_ref().map(|d| format!("<!--{}-->", escape(d))).unwrap_or_default(),
        Kind::PI => match &n.data {
            Some(d) => format!("<?{} {}?>", q, d),
            None => format!("<?{}?>", q),
        },
        Kind::EntRef => format!("&{};", q),
        Kind::Entity => {
            if n.public_id.is_none() && n.system_id.is_none() {
                format!("<!ENTITY {} \"{}\">", q, n.data.clone().unwrap_or_default())
            } else {
                format!("<!ENTITY {}{}>", q, ext(&n.public_id, &n.system_id))
            }
        }
        Kind::Notation => format!("<!NOTATION {}{}>", q, ext(&n.public_id, &n.system_id)),
        Kind::DocType => {
            let mut s = format!("<!DOCTYPE {}", q);
            if let Some(p) = &n.public_id {
                s.push_str(&format!(" PUBLIC \"{}\"", p));
            }
            if let Some(p) = &n.system_id {
                s.push_str(&format!(" SYSTEM \"{}\"", p));
            }
            s + ">"
        }
        _ => return None,
    })
}

fn prolog_kind(k: Kind) -> bool {
    matches!(k, Kind::Entity | Kind::Notation | Kind::DocType | Kind::EntRef)
}

/// Check the text form of one node.
pub fn check_node(m: &Model, id: Id, text: &str, out: &mut Vec<Diff>) -> bool {
    let n = &m.nodes[id];
    let mut fail = |comp: Comp, d: String| out.push(Diff { comp, node: Some(id), detail: format!("{:?} #{}: {}", n.kind, id, d) });
    if let Some(e) = exact(m, id) {
        if e != text {
            let c = if prolog_kind(n.kind) { Comp::Prolog } else { Comp::Display };
            fail(c, format!("text form expected {:?}, is {:?}", e, text));
        }
        return true;
    }
    let (body, ids) = match n.kind {
        Kind::Element => (text, vec![id]),
        Kind::Frag => match text.strip_prefix("<![CDATA[#document-fragment ").and_then(|t| t.strip_suffix("]]>")) {
            Some(t) => (t, n.children.clone()),
            None => {
                fail(Comp::Display, format!("fragment form {:?}", text));
                return true;
            }
        },
        _ => {
            let mut pro = n.decl.as_ref().map(decl_text).unwrap_or_default();
            if let Some(t) = n.doctype {
                pro.push_str(&exact(m, t).unwrap_or_default());
            }
            match text.strip_prefix(pro.as_str()) {
                Some(t) => (t, n.children.clone()),
                None => {
                    fail(Comp::Prolog, format!("expected to start with {:?}, is {:?}", pro, text));
                    return true;
                }
            }
        }
    };
    let expected = match items(m, &ids) {
        None => return false,
        Some(i) => i,
    };
    match read(body) {
        Err(e) => fail(Comp::Display, format!("not well formed: {} in {:?}", e, body)),
        Ok(got) => {
            if got != expected {
                fail(Comp::Display, format!("{:?} reads as {:?}, expected {:?}", body, got, expected));
                if n.kind == Kind::Doc {
                    let short = |v: &[Item]| v.iter().map(|i| match i {
                        Item::Elem { name, .. } => format!("E{}", name),
                        o => format!("{:?}", o),
                    }).collect::<Vec<_>>();
                    if short(&got) != short(&expected) {
                        fail(Comp::Prolog, "children of the document are not shown once each in order".into());
                    }
                }
            }
        }
    }
    true
}

pub fn check_slots(w: &World, m: &Model) -> (Vec<Diff>, u64) {
    let mut out = vec![];
    let mut obs = 0;
    for (i, s) in m.slots.iter().enumerate() {
        if let (Some(id), Some(n)) = (s, &w.slots[i]) {
            if check_node(m, *id, &format!("{}", n), &mut out) {
                obs += 1;
            }
        }
    }
    (out, obs)
}
