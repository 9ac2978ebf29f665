//! What the histories of each property look like.
use crate::gen::*;
use crate::op::K::{self, *};
use crate::oracle::XML_NS;
use crate::runner::Cfg;

const TREE: &[K] = &[Append, InsertBefore, Replace, Remove];
const CHARS: &[K] = &[AppendData, InsertData, DeleteData, ReplaceData, Substring, SetData, UnsetData];
const ATTR: &[K] = &[
    SetAttribute, SetAttributeNs, RemoveAttribute, RemoveAttributeNs, SetAttributeNode, SetAttributeNodeNs, RemoveAttributeNode, GetAttrNode,
];
const VALUE: &[K] = &[SetValue, UnsetValue, SetNodeValue, UnsetNodeValue];
const ANODE: &[K] = &[CreateAttr, CreateAttrWith, CreateAttrNs];
const FAR: &[K] = &[CreateEntity, CreateInternalEntity, CreateNotation, CreateFragment, CreateDocType];
const MAKE: &[K] = &[
    CreateDoc, CreateDocType, CreateElement, CreateElementNs, CreateAttr, CreateAttrWith, CreateAttrNs, CreateText, CreateCData,
    CreateComment, CreatePI, CreateEntRef, CreateFragment, CreateEntity, CreateInternalEntity, CreateNotation,
];

const COLLIDE: &[&str] = &["a", "p:a", "q:a", "b", "p:b", "a"];
const ID_NAMES: &[&str] = &["id", "xml:id", "p:id", "a", "id"];
const NS_NAMES: &[&str] = &["xmlns", "xmlns:p", "xmlns:q", "xmlns:p", "p:a"];
const ID_NSS: &[&str] = &["urn:n1", XML_NS];
const WS: &[&str] = &["", " ", "x", "hello world", "é", "日本", "abc"];

pub fn profile(prop: &str) -> (Profile, Cfg) {
    let mut p = Profile::new();
    let mut c = Cfg { slots: SLOTS, ids: 4, ns: 4, search: 4, twice: false, display: false, prop: "", sparse: 0, tail: 0 };
    p = match prop {
        "C01" => p.scale(TREE, 2).scale(&[Clone, Split, Normalize], 2),
        "C02" => {
            p.bad = 4;
            p.scale(TREE, 4).without(ATTR).without(FAR)
        }
        "C03" => {
            p.bad = 25;
            p.hostile = 30;
            c.ids = 1;
            c.ns = 1;
            p.scale(TREE, 2).scale(ATTR, 2)
        }
        "C04" => {
            p.bad = 30;
            p.scale(TREE, 4).scale(FAR, 2)
        }
        "C05" => {
            p.bad = 15;
            p.docs = 3;
            p.scale(&[CreateDoc, CreateDocType], 8).scale(&[Clone, Split, GetOwnerDoc], 4).scale(ATTR, 2)
        }
        "C06" => {
            p.names = COLLIDE;
            p.hostile = 5;
            p.scale(ATTR, 8).scale(ANODE, 4)
        }
        "C07" => {
            p.names = COLLIDE;
            p.hostile = 4;
            p.scale(&[SetAttributeNode, SetAttributeNodeNs, RemoveAttributeNode], 12)
                .scale(ANODE, 5)
                .scale(&[SetAttribute, SetAttributeNs, RemoveAttribute, GetAttrNode, GetOwnerElement, Clone, Drop], 3)
        }
        "C08" => {
            p.hostile = 75;
            p.scale(VALUE, 8).scale(CHARS, 3).scale(&[CreateAttrWith, SetAttribute, SetAttributeNs, GetChild], 3)
        }
        "C09" => {
            p.hostile = 60;
            p.values = WS;
            p.scale(CHARS, 12).scale(&[CreateText, CreateCData, CreateComment], 3)
        }
        "C10" => {
            p.values = WS;
            p.hostile = 8;
            p.scale(&[Split, Normalize], 10).scale(&[CreateText, CreateCData, SetData, UnsetData, GetChild, SetValue, CreateAttrWith], 4).scale(TREE, 2)
        }
        "C11" => {
            p.names = ID_NAMES;
            p.nss = ID_NSS;
            p.opts = vec![5, 4, 1, 0, 7];
            p.hostile = 5;
            c.ids = 1;
            p.scale(ATTR, 8).scale(ANODE, 6).scale(VALUE, 5).scale(&[Clone, Drop, GetById, Normalize], 2)
        }
        "C12" => {
            p.names = NS_NAMES;
            p.opts = vec![4, 4, 4, 7, 3];
            p.hostile = 4;
            c.ns = 1;
            p.scale(ATTR, 8).scale(ANODE, 4).scale(VALUE, 4).scale(&[Clone, CreateElement], 2)
        }
        "C13" => {
            c.search = 1;
            p.scale(TREE, 3).scale(&[CreateElement, CreateElementNs, GetDocElement, CreateEntRef], 3)
        }
        "C14" => {
            c.ids = 1;
            c.ns = 1;
            p.scale(&[Clone], 12).scale(ATTR, 2).scale(VALUE, 2).scale(CHARS, 2)
        }
        "C15" => {
            p.hostile = 130;
            p.bad = 2;
            p.scale(MAKE, 6).scale(&[SetAttribute, SetAttributeNs], 3)
        }
        "C16" => {
            p.hostile = 60;
            c.display = true;
            p.bad = 3;
            p.scale(&[CreateText, CreateCData, CreateComment, CreatePI, CreateEntRef, SetAttribute, SetAttributeNs], 3).scale(TREE, 3)
        }
        "C17" => {
            p.hostile = 40;
            c.display = true;
            p.docs = 3;
            p.scale(&[SetDecl, CreateDoc, CreateDocType, CreateEntity, CreateInternalEntity, CreateNotation, CreateEntRef], 8)
        }
        "C18" => {
            p.hostile = 50;
            p.bad = 25;
            c.display = true;
            p.scale(&[Drop, ReadAll, Split, Normalize, Clone], 3).scale(CHARS, 2)
        }
        "C19" => p.scale(&[Drop], 8).scale(&[Clone, Replace, Remove, Split, Normalize], 2).scale(ATTR, 2).scale(VALUE, 2),
        "C20" => {
            p.docs = 3;
            p.names = &["id", "xml:id", "xmlns:p", "xmlns", "a"];
            p.opts = vec![5, 4, 1, 0, 7];
            c.ids = 1;
            c.ns = 1;
            p.bad = 15;
            p.scale(ATTR, 3)
        }
        "C24" => p.scale(MAKE, 3).scale(&[SetNodeValue, UnsetNodeValue, SetPiData, UnsetPiData, SetValue, UnsetValue], 8),
        "C25" => {
            p.names = &["id", "xml:id", "xmlns:p", "xmlns", "a"];
            p.opts = (0..8).collect();
            c.ids = 1;
            c.ns = 1;
            p.scale(ATTR, 5).scale(&[CreateDoc], 3)
        }
        "C26" => {
            c.twice = true;
            p.hostile = 25;
            p.scale(
                &[ReadAll, GetChild, GetAttrNode, GetParent, GetOwnerDoc, GetOwnerElement, GetDocElement, GetDocType, GetById, GetNext, GetPrev, Substring],
                6,
            )
        }
        _ => p,
    };
    (p, c)
}
