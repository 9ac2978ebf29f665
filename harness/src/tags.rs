//! Which properties a disagreement refutes.
use crate::compare::{Comp, Diff};
use crate::model::{Kind, Model, Pred};
use crate::op::{Op, K};
use std::collections::BTreeSet;
use xml_dom::level2::Error;

pub type Tags = BTreeSet<&'static str>;

/// Properties about the effect of this kind of operation.
pub fn group(k: K) -> &'static [&'static str] {
    use K::*;
    match k {
        Append | InsertBefore | Replace | Remove => &["C02"],
        Clone => &["C14"],
        Normalize | Split => &["C10"],
        AppendData | InsertData | DeleteData | ReplaceData | Substring | SetData | UnsetData => &["C09"],
        SetNodeValue | UnsetNodeValue | SetPiData | UnsetPiData => &["C24"],
        SetValue | UnsetValue => &["C08"],
        SetAttribute | SetAttributeNs | RemoveAttribute | RemoveAttributeNs => &["C06"],
        SetAttributeNode | SetAttributeNodeNs | RemoveAttributeNode => &["C06", "C07"],
        SetDecl => &["C17"],
        ReadAll | GetChild | GetAttrNode | GetParent | GetOwnerDoc | GetOwnerElement | GetDocElement | GetDocType
        | GetById | GetNext | GetPrev => &["C26"],
        _ => &[],
    }
}

pub fn is_read(k: K) -> bool {
    group(k) == ["C26"] || k == K::Substring
}
fn is_create(k: K) -> bool {
    k.name().starts_with("Create")
}

fn add(t: &mut Tags, v: &[&'static str]) {
    t.extend(v.iter().copied());
}

pub fn of_diff(t: &mut Tags, d: &Diff, op: &Op, pred: &Pred, erred: bool, m: &Model) {
    let g = group(op.k);
    let kind = d.node.map(|n| m.kind(n));
    match d.comp {
        Comp::Slot | Comp::Children => {
            if g.is_empty() {
                add(t, &["C01"])
            }
            add(t, g);
            if matches!(kind, Some(Kind::Attr)) || matches!(op.k, K::CreateAttrWith | K::SetAttribute | K::SetAttributeNs) {
                add(t, &["C08"])
            }
        }
        Comp::Parent => {
            add(t, &["C01"]);
            add(t, g);
        }
        Comp::Link => add(t, &["C01"]),
        Comp::Attrs => {
            add(t, &["C06"]);
            add(t, g);
        }
        Comp::AttrOwner => {
            add(t, &["C07"]);
            add(t, g);
        }
        Comp::Name | Comp::Kind => {
            add(t, &["C24"]);
            if is_create(op.k) || op.k.name().starts_with("SetAttribute") {
                add(t, &["C15"])
            }
            add(t, g);
        }
        Comp::Data => {
            add(t, g);
            if g.is_empty() {
                add(t, &["C24"])
            }
            if kind == Some(Kind::PI) {
                add(t, &["C24"])
            }
        }
        Comp::NodeValue => add(t, &["C24"]),
        Comp::Value => {
            add(t, &["C08"]);
            add(t, g);
        }
        Comp::Owner => {
            add(t, &["C05"]);
            if matches!(op.k, K::Clone | K::Split) {
                add(t, g)
            }
        }
        Comp::DocType => add(t, &["C05", "C17"]),
        Comp::Decl => add(t, &["C17"]),
        Comp::Dead | Comp::Leak => add(t, &["C19"]),
        Comp::Siblings => add(t, &["C01"]),
        Comp::Views => add(t, &["C06"]),
        Comp::CharData => add(t, &["C09"]),
        Comp::PiData => add(t, &["C24"]),
        Comp::PubIds => add(t, &["C17"]),
        Comp::Casts => add(t, &["C24"]),
        Comp::Ids => add(t, &["C11"]),
        Comp::Ns => add(t, &["C12"]),
        Comp::Search | Comp::DocElement => add(t, &["C13"]),
        Comp::Display => add(t, &["C16"]),
        Comp::Prolog => add(t, &["C17"]),
        Comp::Pure => add(t, &["C26"]),
        Comp::Panic => add(t, &["C18"]),
        Comp::Outcome | Comp::Returned => {}
    }
    if op.k == K::Clone {
        add(t, &["C14"])
    }
    if erred {
        add(t, &["C03"])
    }
    if is_read(op.k) {
        add(t, &["C26"])
    }
    if let Some(n) = d.node {
        if !matches!(d.comp, Comp::Dead | Comp::Leak | Comp::Slot) {
            if !pred.operands.is_empty() {
                let docs: Vec<usize> = pred.operands.iter().filter_map(|o| m.doc_of(*o)).collect();
                if let Some(x) = m.doc_of(n) {
                    if !docs.contains(&x) && op.k != K::CreateDoc {
                        add(t, &["C20"])
                    }
                }
            }
            if !pred.operands.contains(&n)
                && pred.operands.iter().any(|o| m.nodes[*o].lineage == m.nodes[n].lineage)
            {
                add(t, &["C14"])
            }
        }
    }
}

/// The call itself answered something else than it should.
pub fn of_outcome(t: &mut Tags, op: &Op, pred: &Pred, real_err: Option<Error>, m: &Model) {
    use K::*;
    let exp = &pred.errs;
    let has = |e: Error| exp.contains(&e) || real_err == Some(e);
    let attr0 = m.slot(op.n[0]).is_some_and(|n| m.kind(n) == Kind::Attr);
    match op.k {
        Append | InsertBefore | Replace => {
            add(t, &["C04"]);
            if pred.cycle {
                add(t, &["C01"])
            }
        }
        Remove => add(t, &["C02", "C04"]),
        SetAttribute | SetAttributeNs | SetAttributeNode | SetAttributeNodeNs => {
            if exp.is_empty() {
                add(t, &["C06"])
            }
            if has(Error::InUseAttribute) || has(Error::WrongDocument) {
                add(t, &["C07"])
            }
            if has(Error::HierarchyRequest) {
                add(t, &["C01", "C07"])
            }
            if pred.dup_id {
                add(t, &["C11"])
            } else if real_err == Some(Error::Syntax) && exp.is_empty() {
                add(t, &["C11"])
            }
            if matches!(op.k, SetAttribute | SetAttributeNs)
                && !pred.dup_id
                && (has(Error::Syntax) || has(Error::InvalidCharacter) || has(Error::Namespace))
            {
                add(t, &["C15"])
            }
        }
        RemoveAttribute | RemoveAttributeNs => add(t, &["C06"]),
        RemoveAttributeNode => add(t, &["C06", "C07"]),
        CreateDoc => {
            if exp.contains(&Error::WrongDocument) || exp.is_empty() {
                add(t, &["C05"])
            }
            add(t, &["C15"])
        }
        CreateEntity | CreateInternalEntity | CreateNotation => add(t, &["C15", "C17"]),
        SetValue | UnsetValue => {
            add(t, &["C08"]);
            if pred.dup_id || real_err == Some(Error::Syntax) {
                add(t, &["C11"])
            }
        }
        SetNodeValue | UnsetNodeValue => {
            add(t, &["C24"]);
            if attr0 {
                add(t, &["C08"]);
                if pred.dup_id || real_err == Some(Error::Syntax) {
                    add(t, &["C11"])
                }
            }
        }
        GetChild | GetParent | GetNext | GetPrev => add(t, &["C01"]),
        GetAttrNode => add(t, &["C06"]),
        GetOwnerDoc | GetDocType => add(t, &["C05"]),
        GetOwnerElement => add(t, &["C07"]),
        GetDocElement => add(t, &["C13"]),
        GetById => add(t, &["C11"]),
        ReadAll => add(t, &["C26"]),
        k if is_create(k) => add(t, &["C15"]),
        k => add(t, group(k)),
    }
}

/// The call succeeded but returned the wrong thing.
pub fn of_returned(t: &mut Tags, op: &Op) {
    use K::*;
    match op.k {
        GetChild | GetParent | GetNext | GetPrev => add(t, &["C01"]),
        GetAttrNode => add(t, &["C06"]),
        GetOwnerDoc | GetDocType => add(t, &["C05"]),
        GetOwnerElement => add(t, &["C07"]),
        GetDocElement => add(t, &["C13"]),
        GetById => add(t, &["C11"]),
        k if is_create(k) => add(t, &["C05", "C24"]),
        k => add(t, group(k)),
    }
}
