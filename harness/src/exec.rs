//! Executes operations on the real library.
use crate::model::{decl_of, Id, Kind};
use crate::op::{Op, K};
use std::collections::HashMap;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::*;
use xml_dom::level2::ext::dom_impl as extdom;
use xml_dom::level2::ext::{ProcessingOptions, XmlDecl, XmlVersion};
use xml_dom::level2::*;

pub type R<T> = std::result::Result<T, Error>;

pub enum RVal {
    Unit,
    Node(RefNode),
    OptNode(Option<RefNode>),
    Str(String),
}

pub struct World {
    pub slots: Vec<Option<RefNode>>,
    pub weak: Vec<Option<Box<dyn Fn() -> Option<RefNode>>>>,
    rev: HashMap<usize, Id>,
    dead: Vec<bool>,
}

pub fn addr(n: &RefNode) -> usize {
    std::rc::Rc::as_ptr(n.as_inner()) as *const u8 as usize
}

pub fn kind_of(n: &RefNode) -> Kind {
    match n.node_type() {
        NodeType::Element => Kind::Element,
        NodeType::Attribute => Kind::Attr,
        NodeType::Text => Kind::Text,
        NodeType::CData => Kind::CData,
        NodeType::EntityReference => Kind::EntRef,
        NodeType::Entity => Kind::Entity,
        NodeType::ProcessingInstruction => Kind::PI,
        NodeType::Comment => Kind::Comment,
        NodeType::Document => Kind::Doc,
        NodeType::DocumentType => Kind::DocType,
        NodeType::DocumentFragment => Kind::Frag,
        NodeType::Notation => Kind::Notation,
    }
}

pub fn options(bits: u64) -> ProcessingOptions {
    let mut o = ProcessingOptions::new();
    if bits & 1 != 0 {
        o.set_assume_ids()
    }
    if bits & 2 != 0 {
        o.set_parse_entities()
    }
    if bits & 4 != 0 {
        o.set_add_namespaces()
    }
    o
}

impl World {
    pub fn new(slots: usize) -> Self {
        World { slots: (0..slots).map(|_| None).collect(), weak: vec![], rev: HashMap::new(), dead: vec![] }
    }
    pub fn bind(&mut self, id: Id, n: &RefNode) {
        while self.weak.len() <= id {
            self.weak.push(None);
            self.dead.push(false);
        }
        let w = n.clone().downgrade();
        self.weak[id] = Some(Box::new(move || w.clone().upgrade()));
        // The weak handle keeps the allocation, so the address is not used again.
        let _ = self.rev.insert(addr(n), id);
    }
    pub fn id_of(&self, n: &RefNode) -> Option<Id> {
        self.rev.get(&addr(n)).copied()
    }
    pub fn confirm_dead(&mut self, id: Id) {
        self.dead[id] = true;
    }
    pub fn is_dead(&self, id: Id) -> bool {
        self.dead.get(id).copied().unwrap_or(false)
    }
    pub fn is_bound(&self, id: Id) -> bool {
        self.weak.get(id).is_some_and(|w| w.is_some())
    }
    pub fn get(&self, id: Id) -> Option<RefNode> {
        self.weak.get(id).and_then(|w| w.as_ref()).and_then(|w| w())
    }
    fn slot(&self, i: i32) -> Option<RefNode> {
        if i < 0 {
            None
        } else {
            self.slots[i as usize].clone()
        }
    }

    /// Run the operation, storing a returned node into the output slot.
    pub fn exec(&mut self, op: &Op) -> R<RVal> {
        let r = self.call(op);
        if let Ok(v) = &r {
            let n = match v {
                RVal::Node(n) => Some(n.clone()),
                RVal::OptNode(n) => n.clone(),
                _ => None,
            };
            if op.out >= 0 {
                if let Some(n) = n {
                    self.slots[op.out as usize] = Some(n);
                }
            }
        }
        r
    }

    fn call(&mut self, op: &Op) -> R<RVal> {
        let n0 = self.slot(op.n[0]);
        let n1 = self.slot(op.n[1]);
        let n2 = self.slot(op.n[2]);
        // Only when the history already went differently from what was expected.
        if [&n0, &n1, &n2].iter().zip(op.n).any(|(n, i)| n.is_none() && i >= 0) {
            return Ok(RVal::Str("empty slot".into()));
        }
        let (s0, s1, s2) = (op.s[0].as_deref(), op.s[1].as_deref(), op.s[2].as_deref());
        let z = |s: Option<&'_ str>| s.unwrap_or("").to_string();
        let unit = |r: R<()>| r.map(|_| RVal::Unit);
        let node = |r: R<RefNode>| r.map(RVal::Node);
        match op.k {
            K::CreateDoc => {
                if op.i[0] == 4 && op.i[1] == 1 {
                    node(get_implementation().create_document(s0, s1, n0))
                } else {
                    node(extdom::get_implementation_ext().create_document_with_options(s0, s1, n0, options(op.i[0])))
                }
            }
            K::CreateDocType => node(get_implementation().create_document_type(&z(s0), s1, s2)),
            K::CreateElement => {
                let n = n0.unwrap();
                node(as_document(&n)?.create_element(&z(s0)))
            }
            K::CreateElementNs => {
                let n = n0.unwrap();
                node(as_document(&n)?.create_element_ns(&z(s0), &z(s1)))
            }
            K::CreateAttr => {
                let n = n0.unwrap();
                node(as_document(&n)?.create_attribute(&z(s0)))
            }
            K::CreateAttrWith => {
                let n = n0.unwrap();
                node(as_document(&n)?.create_attribute_with(&z(s0), &z(s1)))
            }
            K::CreateAttrNs => {
                let n = n0.unwrap();
                node(as_document(&n)?.create_attribute_ns(&z(s0), &z(s1)))
            }
            K::CreateText => {
                let n = n0.unwrap();
                Ok(RVal::Node(as_document(&n)?.create_text_node(&z(s0))))
            }
            K::CreateComment => {
                let n = n0.unwrap();
                Ok(RVal::Node(as_document(&n)?.create_comment(&z(s0))))
            }
            K::CreateCData => {
                let n = n0.unwrap();
                node(as_document(&n)?.create_cdata_section(&z(s0)))
            }
            K::CreatePI => {
                let n = n0.unwrap();
                node(as_document(&n)?.create_processing_instruction(&z(s0), s1))
            }
            K::CreateEntRef => {
                let n = n0.unwrap();
                node(as_document(&n)?.create_entity_reference(&z(s0)))
            }
            K::CreateFragment => {
                let n = n0.unwrap();
                node(as_document(&n)?.create_document_fragment())
            }
            K::CreateEntity => node(extdom::create_entity(n0.unwrap(), &z(s0), s1, s2)),
            K::CreateInternalEntity => node(extdom::create_internal_entity(n0.unwrap(), &z(s0), &z(s1))),
            K::CreateNotation => node(extdom::create_notation(n0.unwrap(), &z(s0), s1, s2)),
            K::Append => node(n0.unwrap().append_child(n1.unwrap())),
            K::InsertBefore => node(n0.unwrap().insert_before(n1.unwrap(), n2)),
            K::Replace => node(n0.unwrap().replace_child(n1.unwrap(), n2.unwrap())),
            K::Remove => node(n0.unwrap().remove_child(n1.unwrap())),
            K::Clone => match n0.unwrap().clone_node(op.i[0] != 0) {
                Some(n) => Ok(RVal::Node(n)),
                None => Ok(RVal::OptNode(None)),
            },
            K::Normalize => {
                n0.unwrap().normalize();
                Ok(RVal::Unit)
            }
            K::Split => {
                let mut n = n0.unwrap();
                // A CDATA section is a Text node, but has no conversion to one.
                let t: &mut dyn Text<NodeRef = RefNode> = &mut n;
                node(t.split(op.i[0] as usize))
            }
            K::AppendData => {
                let mut n = n0.unwrap();
                unit(as_character_data_mut(&mut n)?.append_data(&z(s0)))
            }
            K::InsertData => {
                let mut n = n0.unwrap();
                unit(as_character_data_mut(&mut n)?.insert_data(op.i[0] as usize, &z(s0)))
            }
            K::DeleteData => {
                let mut n = n0.unwrap();
                unit(as_character_data_mut(&mut n)?.delete_data(op.i[0] as usize, op.i[1] as usize))
            }
            K::ReplaceData => {
                let mut n = n0.unwrap();
                unit(as_character_data_mut(&mut n)?.replace_data(op.i[0] as usize, op.i[1] as usize, &z(s0)))
            }
            K::Substring => {
                let n = n0.unwrap();
                as_character_data(&n)?.substring_data(op.i[0] as usize, op.i[1] as usize).map(RVal::Str)
            }
            K::SetData => {
                let mut n = n0.unwrap();
                unit(as_character_data_mut(&mut n)?.set_data(&z(s0)))
            }
            K::UnsetData => {
                let mut n = n0.unwrap();
                unit(as_character_data_mut(&mut n)?.unset_data())
            }
            K::SetNodeValue => unit(n0.unwrap().set_node_value(&z(s0))),
            K::UnsetNodeValue => unit(n0.unwrap().unset_node_value()),
            K::SetPiData => {
                let mut n = n0.unwrap();
                unit(as_processing_instruction_mut(&mut n)?.set_data(&z(s0)))
            }
            K::UnsetPiData => {
                let mut n = n0.unwrap();
                unit(as_processing_instruction_mut(&mut n)?.unset_data())
            }
            K::SetValue => {
                let mut n = n0.unwrap();
                unit(as_attribute_mut(&mut n)?.set_value(&z(s0)))
            }
            K::UnsetValue => {
                let mut n = n0.unwrap();
                unit(as_attribute_mut(&mut n)?.unset_value())
            }
            K::SetAttribute => {
                let mut n = n0.unwrap();
                unit(as_element_mut(&mut n)?.set_attribute(&z(s0), &z(s1)))
            }
            K::SetAttributeNs => {
                let mut n = n0.unwrap();
                unit(as_element_mut(&mut n)?.set_attribute_ns(&z(s0), &z(s1), &z(s2)))
            }
            K::RemoveAttribute => {
                let mut n = n0.unwrap();
                unit(as_element_mut(&mut n)?.remove_attribute(&z(s0)))
            }
            K::RemoveAttributeNs => {
                let mut n = n0.unwrap();
                unit(as_element_mut(&mut n)?.remove_attribute_ns(&z(s0), &z(s1)))
            }
            K::SetAttributeNode => {
                let mut n = n0.unwrap();
                node(as_element_mut(&mut n)?.set_attribute_node(n1.unwrap()))
            }
            K::SetAttributeNodeNs => {
                let mut n = n0.unwrap();
                node(as_element_mut(&mut n)?.set_attribute_node_ns(n1.unwrap()))
            }
            K::RemoveAttributeNode => {
                let mut n = n0.unwrap();
                node(as_element_mut(&mut n)?.remove_attribute_node(n1.unwrap()))
            }
            K::SetDecl => {
                let mut n = n0.unwrap();
                let d = decl_of(op);
                let x = XmlDecl::new(if d.v11 { XmlVersion::V11 } else { XmlVersion::V10 }, d.enc, d.sa);
                unit(as_document_decl_mut(&mut n)?.set_xml_declaration(x))
            }
            K::GetChild => Ok(RVal::OptNode(n0.unwrap().child_nodes().get(op.i[0] as usize).cloned())),
            K::GetAttrNode => {
                let n = n0.unwrap();
                Ok(RVal::OptNode(as_element(&n)?.get_attribute_node(&z(s0))))
            }
            K::GetParent => Ok(RVal::OptNode(n0.unwrap().parent_node())),
            K::GetOwnerDoc => Ok(RVal::OptNode(n0.unwrap().owner_document())),
            K::GetOwnerElement => {
                let n = n0.unwrap();
                Ok(RVal::OptNode(as_attribute(&n)?.owner_element()))
            }
            K::GetDocElement => {
                let n = n0.unwrap();
                Ok(RVal::OptNode(as_document(&n)?.document_element()))
            }
            K::GetDocType => {
                let n = n0.unwrap();
                Ok(RVal::OptNode(as_document(&n)?.doc_type()))
            }
            K::GetById => {
                let n = n0.unwrap();
                Ok(RVal::OptNode(as_document(&n)?.get_element_by_id(&z(s0))))
            }
            K::GetNext => Ok(RVal::OptNode(n0.unwrap().next_sibling())),
            K::GetPrev => Ok(RVal::OptNode(n0.unwrap().previous_sibling())),
            K::CopySlot => Ok(RVal::Node(n0.unwrap())),
            K::Drop => {
                drop(n0);
                self.slots[op.n[0] as usize] = None;
                Ok(RVal::Unit)
            }
            K::ReadAll => {
                let n = n0.unwrap();
                let pool: Vec<String> = op.s.iter().flatten().cloned().collect();
                let a = read_all(&n, &pool, op.i[0] as usize, op.i[1] as usize);
                let b = read_all(&n, &pool, op.i[0] as usize, op.i[1] as usize);
                if a != b {
                    let at = a.iter().zip(&b).position(|(x, y)| x != y).unwrap_or(0);
                    return Ok(RVal::Str(format!("reads differ: {:?} / {:?}", a.get(at), b.get(at))));
                }
                Ok(RVal::Unit)
            }
        }
    }
}

fn id(n: &RefNode) -> String {
    format!("@{:x}", addr(n))
}
fn oid(n: &Option<RefNode>) -> String {
    match n {
        None => "none".into(),
        Some(n) => id(n),
    }
}
fn ids(v: &[RefNode]) -> String {
    v.iter().map(id).collect::<Vec<_>>().join(",")
}

/// Call every reading function of the node's interfaces, with the given arguments. Lists and maps
/// that are handed out are altered afterwards, which must not matter.
pub fn read_all(n: &RefNode, pool: &[String], x: usize, y: usize) -> Vec<String> {
    let mut o = vec![];
    let empty = String::new();
    let a = pool.first().unwrap_or(&empty);
    let b = pool.get(1).unwrap_or(&empty);
    o.push(format!("{:?}", n.node_type()));
    o.push(format!("{:?}", n.node_name()));
    o.push(format!("{:?}", n.node_value()));
    o.push(oid(&n.parent_node()));
    let mut ch = n.child_nodes();
    o.push(ids(&ch));
    ch.clear();
    ch.push(n.clone());
    o.push(oid(&n.first_child()));
    o.push(oid(&n.last_child()));
    o.push(oid(&n.next_sibling()));
    o.push(oid(&n.previous_sibling()));
    let mut at = n.attributes();
    let mut keys: Vec<String> = at.iter().map(|(k, v)| format!("{:?}={}", k, id(v))).collect();
    keys.sort();
    o.push(keys.join(","));
    at.clear();
    o.push(oid(&n.owner_document()));
    o.push(format!("{} {}", n.has_child_nodes(), n.has_attributes()));
    o.push(format!("{:?} {:?} {:?}", n.namespace_uri(), n.local_name(), n.prefix()));
    o.push(format!("{}", n.is_supported(a, b)));
    o.push(format!("{}", n == n));
    // The order of attributes is not specified.
    let mut shown = format!("{}", n).into_bytes();
    shown.sort_unstable();
    o.push(String::from_utf8_lossy(&shown).into_owned());
    o.push(format!("{}", format!("{:?}", n).len()));
    o.push(casts(n));
    if let Ok(e) = as_element(n) {
        o.push(e.tag_name());
        o.push(format!("{:?}", e.get_attribute(a)));
        o.push(oid(&e.get_attribute_node(a)));
        o.push(format!("{:?}", e.get_attribute_ns(a, b)));
        o.push(oid(&e.get_attribute_node_ns(a, b)));
        o.push(format!("{} {}", e.has_attribute(a), e.has_attribute_ns(a, b)));
        let mut l = e.get_elements_by_tag_name(a);
        o.push(ids(&l));
        l.clear();
        o.push(ids(&e.get_elements_by_tag_name("*")));
        o.push(ids(&e.get_elements_by_tag_name_ns(a, b)));
        o.push(ids(&e.get_elements_by_tag_name_ns("*", "*")));
    }
    if let Ok(e) = as_element_namespaced(n) {
        for p in [None, Some(a.as_str()), Some(b.as_str())] {
            o.push(format!("{} {:?} {:?}", e.contains_mapping(p), e.get_namespace(p), e.resolve_namespace(p)));
        }
        for u in [a, b] {
            // Which of several prefixes for one namespace is reported is not specified.
            o.push(format!("{} {}", e.contains_mapped_namespace(u), e.get_prefix(u).is_none()));
            o.push(format!("{}", e.resolve_prefix(u).is_none()));
        }
    }
    if let Ok(t) = as_attribute(n) {
        o.push(format!("{:?} {} {}", t.value(), t.specified(), oid(&t.owner_element())));
    }
    if let Ok(c) = as_character_data(n) {
        o.push(format!("{} {:?} {:?}", c.length(), c.data(), c.substring_data(x, y)));
    }
    if let Ok(p) = as_processing_instruction(n) {
        o.push(format!("{} {:?} {}", p.length(), p.data(), p.target()));
    }
    if let Ok(d) = as_document(n) {
        o.push(format!("{} {}", oid(&d.doc_type()), oid(&d.document_element())));
        o.push(format!("{}", d.implementation().has_feature(a, b)));
        o.push(oid(&d.get_element_by_id(a)));
        o.push(ids(&d.get_elements_by_tag_name(a)));
        o.push(ids(&d.get_elements_by_tag_name("*")));
        o.push(ids(&d.get_elements_by_tag_name_ns(a, b)));
        o.push(ids(&d.get_elements_by_tag_name_ns("*", "*")));
    }
    if let Ok(d) = as_document_decl(n) {
        o.push(d.xml_declaration().map(|x| x.to_string()).unwrap_or_default());
    }
    if let Ok(d) = as_document_type(n) {
        o.push(format!("{:?} {:?} {:?}", d.public_id(), d.system_id(), d.internal_subset()));
        o.push(format!("{} {}", d.entities().len(), d.notations().len()));
    }
    if let Ok(d) = as_entity(n) {
        o.push(format!("{:?} {:?} {:?}", d.public_id(), d.system_id(), d.notation_name()));
    }
    if let Ok(d) = as_notation(n) {
        o.push(format!("{:?} {:?}", d.public_id(), d.system_id()));
    }
    o
}

/// The numbers the DOM gives the kinds of nodes.
fn dom_code(k: Kind) -> u16 {
    match k {
        Kind::Element => 1,
        Kind::Attr => 2,
        Kind::Text => 3,
        Kind::CData => 4,
        Kind::EntRef => 5,
        Kind::Entity => 6,
        Kind::PI => 7,
        Kind::Comment => 8,
        Kind::Doc => 9,
        Kind::DocType => 10,
        Kind::Frag => 11,
        Kind::Notation => 12,
    }
}

/// The numbers the DOM gives its exceptions.
pub fn error_code(e: &Error) -> u16 {
    match e {
        Error::IndexSize => 1,
        Error::StringSize => 2,
        Error::HierarchyRequest => 3,
        Error::WrongDocument => 4,
        Error::InvalidCharacter => 5,
        Error::NoDataAllowed => 6,
        Error::NoModificationAllowed => 7,
        Error::NotFound => 8,
        Error::NotSupported => 9,
        Error::InUseAttribute => 10,
        Error::InvalidState => 11,
        Error::Syntax => 12,
        Error::InvalidModification => 13,
        Error::Namespace => 14,
        Error::InvalidAccess => 15,
    }
}

/// One letter per interface the node converts to; `!` where the answers disagree, `?` for a wrong error, `#` for a wrong
/// number of the kind.
pub fn casts(n: &RefNode) -> String {
    let mut r = String::new();
    let mut m = n.clone();
    macro_rules! c {
        ($l:expr, $is:ident, $as:ident, $asm:ident) => {{
            let is = $is(n);
            let a = $as(n).map(|_| ()).err();
            let b = $asm(&mut m).map(|_| ()).err();
            for e in [&a, &b].into_iter().flatten() {
                if *e != Error::InvalidState {
                    r.push('?');
                }
            }
            if a.is_none() != is || b.is_none() != is {
                r.push('!');
            }
            if is {
                r.push($l);
            }
        }};
    }
    c!('A', is_attribute, as_attribute, as_attribute_mut);
    c!('C', is_cdata_section, as_cdata_section, as_cdata_section_mut);
    c!('h', is_character_data, as_character_data, as_character_data_mut);
    c!('M', is_comment, as_comment, as_comment_mut);
    c!('D', is_document, as_document, as_document_mut);
    c!('F', is_document_fragment, as_document_fragment, as_document_fragment_mut);
    c!('Y', is_document_type, as_document_type, as_document_type_mut);
    c!('E', is_element, as_element, as_element_mut);
    c!('N', is_entity_, as_entity, as_entity_mut);
    c!('R', is_entity_reference, as_entity_reference, as_entity_reference_mut);
    c!('O', is_notation, as_notation, as_notation_mut);
    c!('P', is_processing_instruction, as_processing_instruction, as_processing_instruction_mut);
    c!('T', is_text, as_text, as_text_mut);
    c!('d', is_document_decl, as_document_decl, as_document_decl_mut);
    let e = as_element_namespaced(n).map(|_| ()).err();
    if is_element_namespaced(n) != e.is_none() {
        r.push('!');
    }
    if e.is_some_and(|e| e != Error::InvalidState) {
        r.push('?');
    }
    if n.node_type() as u16 != dom_code(kind_of(n)) {
        r.push('#');
    }
    if is_element_namespaced(n) {
        r.push('n');
    }
    r
}

pub fn expected_casts(k: Kind) -> &'static str {
    match k {
        Kind::Attr => "A",
        Kind::CData => "Ch",
        Kind::Comment => "hM",
        Kind::Doc => "Dd",
        Kind::Frag => "F",
        Kind::DocType => "Y",
        Kind::Element => "En",
        Kind::Entity => "N",
        Kind::EntRef => "R",
        Kind::Notation => "O",
        Kind::PI => "P",
        Kind::Text => "hT",
    }
}

pub fn real_decl(d: &RefNode) -> Option<crate::model::Decl> {
    as_document_decl(d).ok()?.xml_declaration().map(|x| crate::model::Decl {
        v11: x.version() == XmlVersion::V11,
        enc: x.encoding(),
        sa: x.standalone(),
    })
}
