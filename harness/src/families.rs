//! Case families made of histories.
use crate::ctx::{Bad, Ctx};
use crate::gen::*;
use crate::model::{Kind, KINDS};
use crate::op::{Op, K};
use crate::oracle::*;
use crate::profiles::profile;
use crate::rng::Rng;
use crate::runner::Cfg;

pub const FULL_CFG: Cfg = Cfg { slots: SLOTS, ids: 1, ns: 1, search: 1, twice: false, display: true, prop: "", sparse: 0, tail: 0 };

pub fn hist(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let (p, c) = profile(ctx.prop);
    let ops = Gen::new(&p, Rng::new(ctx.seed, ctx.prop, idx)).history();
    ctx.history(&ops, &c)
}

/// Longer histories over everything.
pub fn long(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let (mut p, c) = profile(ctx.prop);
    p.ops = (150, 300);
    let ops = Gen::new(&p, Rng::new(ctx.seed, "long", idx)).history();
    ctx.history(&ops, &c)
}

/// Large things: many children, deep trees, many attributes, identifiers or declarations, long content.
pub fn bulk(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let c = profile(ctx.prop).1;
    let ops = bulk_ops(ctx.prop, ctx.seed, idx);
    ctx.history(&ops, &c)
}

pub fn bulk_ops(prop: &'static str, seed: u64, idx: u64) -> Vec<Op> {
    let mut p = profile(prop).0;
    p.docs = 1;
    p.ops = (40, 90);
    p.bad = p.bad.min(10);
    let mut r = Rng::new(seed, "bulk", idx);
    let shape = idx % 6;
    let many: &'static [&'static str] = many_names(shape);
    if matches!(shape, 2..=4) {
        p.names = many;
    }
    let size = [12, 20, 40, 70][r.below(4)];
    let mut g = Gen::new(&p, Rng::new(seed, prop, idx ^ 0xb01c));
    g.start();
    let held = |i: usize| 6 + i % 18;
    let parent = if shape == 0 { r.below(6) } else { 0 };
    let refs = if r.chance(1, 2) { 8 } else { 1_000_000 };
    top(&mut g, parent, 0);
    if r.chance(1, 2) {
        g.push(op(K::Append).n(0, 0).n(1, 4));
    }
    for i in 0..size {
        let s = held(r.below(18));
        match shape {
            0 => {
                let mut k = [K::CreateElement, K::CreateText, K::CreateComment, K::CreateCData, K::CreateText][r.below(5)];
                if parent == 5 {
                    k = if r.chance(1, refs) { K::CreateEntRef } else { K::CreateText };
                }
                let t = r.pick(&["a", "b", "c"]).to_string();
                g.push(op(k).n(0, 0).s(0, &t).out(s));
                g.push(op(K::Append).n(0, 4).n(1, s));
            }
            1 => {
                let k = if r.chance(1, 8) { K::CreateEntRef } else { K::CreateElement };
                let t = r.pick(&["a", "b", "p:a"]).to_string();
                g.push(op(k).n(0, 0).s(0, &t).out(5));
                g.push(op(K::Append).n(0, 4).n(1, 5));
                g.push(op(K::CopySlot).n(0, 5).out(4));
                if r.chance(1, 2) {
                    g.push(op(K::CopySlot).n(0, 5).out(s));
                }
                if r.chance(1, 3) {
                    if let Some(o) = g.one(K::SetAttributeNs) {
                        g.push(o.n(0, 5));
                    }
                }
                if r.chance(1, 3) {
                    g.push(op(K::CreateText).n(0, 0).s(0, "t").out(s));
                    g.push(op(K::Append).n(0, 5).n(1, s));
                }
            }
            2 | 3 => {
                let q = many[i % many.len()];
                let ns = if q.starts_with("xmlns") { XMLNS_NS } else { *r.pick(&["urn:n1", "urn:n2", "urn:n3"]) };
                let v = format!("v{}", i);
                if shape == 3 || r.chance(1, 2) {
                    g.push(op(K::SetAttributeNs).n(0, 4).s(0, ns).s(1, q).s(2, &v));
                } else {
                    g.push(op(K::SetAttribute).n(0, 4).s(0, q).s(1, &v));
                }
                if r.chance(1, 3) {
                    g.push(op(K::GetAttrNode).n(0, 4).s(0, q).out(s));
                }
            }
            4 => {
                g.push(op(K::CreateElement).n(0, 0).s(0, "a").out(s));
                g.push(op(K::SetAttribute).n(0, s).s(0, r.pick(&["id", "xml:id"])).s(1, &format!("i{}", i)));
                if r.chance(2, 3) {
                    g.push(op(K::Append).n(0, 4).n(1, s));
                }
            }
            _ => {
                let unit = *r.pick(&["ab", "é", "日", "a b\n", "<&>", "&#65;", " "]);
                let k = [K::CreateText, K::CreateComment, K::CreateCData, K::CreateText][r.below(4)];
                if i % 8 == 0 {
                    let t = unit.repeat(1 + r.below(size * 12));
                    g.push(op(k).n(0, 0).s(0, &t).out(s));
                    g.push(op(K::Append).n(0, 4).n(1, s));
                    g.push(op(K::SetAttribute).n(0, 4).s(0, "a").s(1, &t));
                }
            }
        }
    }
    let Gen { m, r, ops, theme, .. } = g;
    p.ops.0 += ops.len();
    p.ops.1 = p.ops.0 + 50;
    let mut g2 = Gen { p: &p, m, r, ops, theme };
    g2.more();
    g2.ops
}

/// Something that has children, in slot 4.
fn top(g: &mut Gen<'_>, kind: usize, d: usize) {
    let _ = match kind {
        3 => g.push(op(K::CreateFragment).n(0, d).out(4)),
        4 => g.push(op(K::CreateEntRef).n(0, d).s(0, "top").out(4)),
        5 => g.push(op(K::CreateAttrWith).n(0, d).s(0, "top").s(1, "v").out(4)),
        _ => g.push(op(K::CreateElement).n(0, d).s(0, "top").out(4)),
    };
    if kind == 5 {
        g.push(op(K::CreateElement).n(0, d).s(0, "e").out(5));
        g.push(op(K::SetAttributeNode).n(0, 5).n(1, 4));
    }
}

/// Lengths around those at which something could change: fixed buffers, counters of one or two bytes.
const LENGTHS: &[usize] = &[100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2048, 4096, 4097, 8191, 8192, 16385, 65536, 65537];

/// A string of about that many bytes, in which the characters cross every boundary somehow.
fn lengthy(r: &mut Rng, unit: &str, bytes: usize) -> String {
    let mut s = "x".repeat(r.below(5));
    while s.len() < bytes {
        s.push_str(unit);
    }
    if r.chance(1, 2) {
        while s.len() > bytes {
            let _ = s.pop();
        }
    }
    if r.chance(1, 3) {
        s.push_str(["y", "é", "&", " "][r.below(4)]);
    }
    s
}

/// Hundreds of things, and then a few operations on them; while they are made, only every 50th operation is checked.
pub fn wide(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let (mut p, c) = profile(ctx.prop);
    p.docs = 2;
    p.bad = p.bad.min(10);
    let mut r = Rng::new(ctx.seed, "wide", idx);
    let shape = idx % 8;
    let size = match r.below(16) {
        0 if shape != 1 => 1030 + r.below(20),
        1 => 520 + r.below(10),
        _ => *r.pick(&[70, 100, 127, 128, 129, 140, 200, 255, 256, 257, 258, 300]),
    };
    let size = if shape == 1 { size.min(200) } else { size };
    let mut g = Gen::new(&p, Rng::new(ctx.seed, ctx.prop, idx ^ 0x31de));
    g.start();
    let d = 0;
    let spare = |i: usize| 8 + i % 14;
    let parent = match r.below(5) {
        0 if shape != 2 && shape != 3 => 3,
        1 if shape != 2 && shape != 3 => 4,
        2 if matches!(shape, 0 | 7) => 5,
        _ => 0,
    };
    top(&mut g, parent, d);
    if r.chance(2, 3) {
        g.push(op(K::Append).n(0, d).n(1, 4));
    }
    g.push(op(K::CopySlot).n(0, 4).out(5));
    let prefixes = ["", "p:", "q:", "r:"];
    let keep = r.chance(1, 2);
    let refs = if r.chance(1, 2) { 20 } else { 1_000_000 };
    let one_kind = if r.chance(1, 2) { Some(r.below(5)) } else { None };
    for i in 0..if shape == 6 { 6 } else { size } {
        let s = spare(if keep { i } else { r.below(14) });
        match shape {
            0 | 7 => {
                let k = [K::CreateElement, K::CreateText, K::CreateComment, K::CreateCData, K::CreatePI];
                let mut k = k[one_kind.unwrap_or_else(|| r.below(5))];
                if parent == 5 {
                    k = if r.chance(1, refs) { K::CreateEntRef } else { K::CreateText };
                }
                let t = r.pick(&["a", "b", "c", "p:a"]).to_string();
                g.push(op(k).n(0, d).s(0, &t).out(s));
                if r.chance(1, 10) {
                    g.push(op(K::InsertBefore).n(0, 4).n(1, s).n(2, spare(r.below(14))));
                } else {
                    g.push(op(K::Append).n(0, 4).n(1, s));
                }
            }
            1 => {
                let k = if r.chance(1, 30) { K::CreateEntRef } else { K::CreateElement };
                g.push(op(k).n(0, d).s(0, r.pick(&["a", "b", "p:a"])).out(6));
                g.push(op(K::Append).n(0, 5).n(1, 6));
                g.push(op(K::CopySlot).n(0, 6).out(5));
                if r.chance(1, 20) {
                    let q = format!("xmlns:p{}", r.below(5));
                    g.push(op(K::SetAttributeNs).n(0, 6).s(0, XMLNS_NS).s(1, &q).s(2, r.pick(&["urn:n1", "urn:n2"])));
                }
                if r.chance(1, 10) {
                    g.push(op(K::CreateText).n(0, d).s(0, "t").out(s));
                    g.push(op(K::Append).n(0, 6).n(1, s));
                }
                if r.chance(1, 10) {
                    g.push(op(K::CopySlot).n(0, 6).out(s));
                }
            }
            2 => {
                let q = format!("{}n{}", prefixes[i % 4], i / 4);
                if i % 4 == 0 {
                    g.push(op(K::SetAttribute).n(0, 4).s(0, &q).s(1, &format!("v{}", i)));
                } else {
                    g.push(op(K::SetAttributeNs).n(0, 4).s(0, &format!("urn:n{}", i % 4)).s(1, &q).s(2, &format!("v{}", i)));
                }
                if i % 9 == 0 {
                    g.push(op(K::GetAttrNode).n(0, 4).s(0, &q).out(s));
                }
            }
            3 => {
                let q = format!("xmlns:p{}", i);
                g.push(op(K::SetAttributeNs).n(0, 4).s(0, XMLNS_NS).s(1, &q).s(2, &format!("urn:n{}", i % (size / 2))));
                if i % 9 == 0 {
                    g.push(op(K::GetAttrNode).n(0, 4).s(0, &q).out(s));
                }
            }
            4 => {
                g.push(op(K::CreateElement).n(0, d).s(0, "a").out(s));
                g.push(op(K::SetAttribute).n(0, s).s(0, r.pick(&["id", "xml:id"])).s(1, &format!("i{}", i)));
                g.push(op(K::Append).n(0, 4).n(1, s));
            }
            5 => {
                let k = if r.chance(1, 40) { K::CreateCData } else { K::CreateText };
                g.push(op(k).n(0, d).s(0, r.pick(&["a", "b", "", "é", "some more"])).out(s));
                g.push(op(K::Append).n(0, 4).n(1, s));
            }
            _ => {
                let unit = *r.pick(&["a", "é", "日", "a b\n", "<&>", "&#65;", "&amp;", "𐐷", "]]>", "\t"]);
                let n = *r.pick(LENGTHS);
                let t = lengthy(&mut r, unit, n);
                match i {
                    0 | 1 => {
                        g.push(op(K::CreateAttr).n(0, d).s(0, "long").out(s));
                        g.push(op([K::SetValue, K::SetNodeValue][i]).n(0, s).s(0, &t));
                        g.push(op(K::SetAttribute).n(0, 4).s(0, "a").s(1, &t));
                    }
                    2 if n < 5000 && unit == "a" => {
                        g.push(op(K::CreateElement).n(0, d).s(0, &t).out(s));
                        g.push(op(K::SetAttribute).n(0, s).s(0, &t).s(1, "v"));
                    }
                    _ => {
                        let k = *r.pick(&[K::CreateText, K::CreateCData, K::CreateComment]);
                        g.push(op(k).n(0, d).s(0, &t).out(s));
                        for _ in 0..3 {
                            let at = match r.below(3) {
                                0 => *r.pick(LENGTHS),
                                1 => r.below(t.len() + 2),
                                _ => t.len().saturating_sub(r.below(3)),
                            };
                            let k = *r.pick(&[K::Split, K::InsertData, K::DeleteData, K::ReplaceData, K::Substring, K::AppendData]);
                            let many = *r.pick(&[1usize, 2, 127, 128, 255, 256, 4096, 1 << 20]);
                            g.push(op(k).n(0, s).i(0, at as u64).i(1, if k == K::Split { 0 } else { many as u64 }).s(0, "+").out(7));
                        }
                        g.push(op(K::Append).n(0, 4).n(1, s));
                    }
                }
            }
        }
    }
    let steps = 10 + r.below(10);
    let start = g.ops.len();
    let mut tries = 0;
    while g.ops.len() < start + steps && tries < 60 {
        tries += 1;
        let top = if shape == 1 && r.chance(1, 2) { spare(r.below(14)) } else { 4 };
        let Some(id) = g.m.slots[top] else { continue };
        let kids = g.m.nodes[id].children.clone();
        let attrs = g.m.nodes[id].attrs.clone();
        let s = spare(r.below(14));
        // One of the children, those at the ends and near powers of two most often.
        if !kids.is_empty() && r.chance(2, 3) {
            let i = match r.below(4) {
                0 => r.below(kids.len()),
                1 => kids.len() - 1 - r.below(kids.len().min(3)),
                2 => r.below(kids.len().min(3)),
                _ => (*r.pick(&[64usize, 127, 128, 255, 256, 512, 1024]) + r.below(3)).min(kids.len()) - 1,
            };
            g.push(op(K::GetChild).n(0, top).i(0, i as u64).out(s));
        } else if !attrs.is_empty() {
            let q = g.m.nodes[*r.pick(&attrs)].name.qualified();
            match r.below(5) {
                0 => g.push(op(K::RemoveAttribute).n(0, top).s(0, &q)),
                1 => g.push(op(K::SetAttribute).n(0, top).s(0, &q).s(1, "new")),
                2 => g.push(op(K::GetAttrNode).n(0, top).s(0, &q).out(s)) && g.push(op(K::RemoveAttributeNode).n(0, top).n(1, s).out(7)),
                3 => g.push(op(K::CreateAttrWith).n(0, d).s(0, &q).s(1, "other").out(s)) && g.push(op(K::SetAttributeNode).n(0, top).n(1, s).out(7)),
                _ => g.push(op(K::GetAttrNode).n(0, top).s(0, &q).out(s)),
            };
        }
        let t = spare(r.below(14));
        match r.below(14) {
            0 => g.push(op(K::Remove).n(0, top).n(1, s).out(7)),
            1 => g.push(op(K::InsertBefore).n(0, top).n(1, t).n(2, s)),
            2 => g.push(op(K::Replace).n(0, top).n(1, t).n(2, s)),
            3 => g.push(op(K::Append).n(0, top).n(1, s)),
            4 => g.push(op(K::Clone).n(0, top).i(0, 1).out(7)),
            5 => g.push(op(K::Normalize).n(0, top)),
            6 => g.push(op(K::GetNext).n(0, s).out(t)),
            7 => g.push(op(K::GetPrev).n(0, s).out(t)),
            8 => g.push(op(K::Append).n(0, s).n(1, top)),
            9 => g.push(op(K::Split).n(0, s).i(0, 1).out(7)),
            10 => g.push(op(K::GetById).n(0, d).s(0, &format!("i{}", r.below(size))).out(t)),
            11 => {
                let k = *r.pick(&crate::model::KINDS);
                let o = make(k, d, t);
                g.push(o) && g.push(op(K::InsertBefore).n(0, top).n(1, t).n(2, s))
            }
            12 => g.push(op(K::Drop).n(0, s)),
            _ => {
                let k = p.weights[r.below(p.weights.len())].0;
                match g.one(k) {
                    Some(o) => g.push(o),
                    None => false,
                }
            }
        };
    }
    let ops = g.ops;
    let tail = ops.len() - start;
    ctx.history(&ops, &Cfg { sparse: 50, tail, display: c.display || r.chance(1, 8), ..c })
}

/// A document with no element yet, or one in the middle, among a number of other things; then elements arrive in
/// every way there is.
pub fn crowd(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let (p, c) = profile(ctx.prop);
    let mut r = Rng::new(ctx.seed, "crowd", idx);
    let mut g = Gen::new(&p, Rng::new(ctx.seed, ctx.prop, idx ^ 0xc0d));
    let d = 0;
    let with = r.chance(1, 2);
    g.push(if with { Op::new(K::CreateDoc).out(d).i(0, 4).i(1, 1).s(1, "root") } else { Op::new(K::CreateDoc).out(d).i(0, 4).i(1, 1) });
    g.push(op(K::CreateElement).n(0, d).s(0, "box").out(4));
    let size = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 40, 64, 65, 100, 128, 129, 256, 257]);
    let pos = r.below(size + 1);
    let spare = |i: usize| 8 + i % 14;
    let other = |r: &mut Rng| {
        let k = if r.chance(1, 2) { K::CreateComment } else { K::CreatePI };
        op(k).n(0, d).s(0, "x").s(1, "y")
    };
    for i in 0..size {
        let s = spare(r.below(14));
        let o = other(&mut r);
        g.push(o.out(s));
        // Around the element, if there is one already.
        if with && i < pos {
            g.push(op(K::GetDocElement).n(0, d).out(5));
            g.push(op(K::InsertBefore).n(0, d).n(1, s).n(2, 5));
        } else {
            g.push(op(K::Append).n(0, d).n(1, s));
        }
    }
    let start = g.ops.len();
    for _ in 0..10 + r.below(15) {
        let kids = g.m.slots[d].map(|i| g.m.nodes[i].children.len()).unwrap_or(0);
        let (s, t) = (spare(r.below(14)), spare(r.below(14)));
        if kids > 0 {
            let i = match r.below(4) {
                0 => r.below(kids),
                1 => kids - 1 - r.below(kids.min(3)),
                2 => r.below(kids.min(3)),
                _ => pos.min(kids - 1),
            };
            g.push(op(K::GetChild).n(0, d).i(0, i as u64).out(s));
        }
        match r.below(4) {
            0 => g.push(op(K::GetDocElement).n(0, d).out(t)),
            1 => {
                let o = other(&mut r);
                g.push(o.out(t))
            }
            _ => {
                let k = if r.chance(1, 6) { *r.pick(&KINDS) } else { Kind::Element };
                g.push(make(k, d, t))
            }
        };
        match r.below(9) {
            0 | 1 => g.push(op(K::Append).n(0, d).n(1, t)),
            2 | 3 => g.push(op(K::InsertBefore).n(0, d).n(1, t).n(2, s)),
            4 | 5 => g.push(op(K::Replace).n(0, d).n(1, t).n(2, s)),
            6 => g.push(op(K::Remove).n(0, d).n(1, s).out(7)),
            7 => g.push(op(K::Append).n(0, 4).n(1, s)),
            _ => g.push(op(K::Append).n(0, d).n(1, s)),
        };
    }
    let ops = g.ops;
    let tail = ops.len() - start;
    ctx.history(&ops, &Cfg { sparse: 50, tail, display: c.display || r.chance(1, 8), ..c })
}

pub const PLANES: u64 = 0x110000 / 64;
/// Every character there is, 64 at a time, in every place that takes one.
pub fn unicode(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let (_, c) = profile(ctx.prop);
    // All of them if there are that many cases, otherwise those of the first planes and a few others.
    let block = if idx < 300 || ctx.thorough || matches!(ctx.prop, "C08" | "C16") {
        idx
    } else {
        Rng::new(ctx.seed, "unicode", idx).below(PLANES as usize) as u64
    };
    let s: String = (block * 64..block * 64 + 64).filter_map(|c| char::from_u32(c as u32)).collect();
    if s.is_empty() {
        return None;
    }
    let back: String = s.chars().rev().collect();
    let mid = s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0) as u64;
    let on = |k: K, out: usize| op(k).n(0, 0).out(out);
    let app = |p: usize, c: usize| op(K::Append).n(0, p).n(1, c);
    let refs: String = s.chars().map(|c| format!("&#x{:X};", c as u32)).collect();
    let ops = vec![
        op(K::CreateDoc).out(0).i(0, 7).i(1, 0).s(1, "r"),
        op(K::GetDocElement).n(0, 0).out(4),
        op(K::SetAttribute).n(0, 4).s(0, "id").s(1, &s),
        op(K::SetAttribute).n(0, 4).s(0, "a").s(1, &back),
        op(K::SetAttributeNs).n(0, 4).s(0, XMLNS_NS).s(1, "xmlns:p").s(2, &s),
        on(K::CreateElement, 5).s(0, "e"),
        app(4, 5),
        on(K::CreateAttrWith, 6).s(0, "xml:id").s(1, &back),
        op(K::SetAttributeNode).n(0, 5).n(1, 6).out(7),
        op(K::SetAttribute).n(0, 5).s(0, "r").s(1, &refs),
        on(K::CreateText, 8).s(0, &s),
        app(5, 8),
        op(K::Split).n(0, 8).i(0, mid).out(9),
        on(K::CreateCData, 10).s(0, &back),
        app(5, 10),
        on(K::CreateComment, 11).s(0, &s),
        app(5, 11),
        on(K::CreatePI, 12).s(0, "t").s(1, &s),
        app(5, 12),
        op(K::InsertData).n(0, 11).i(0, mid).s(0, &back),
        op(K::DeleteData).n(0, 10).i(0, 0).i(1, mid),
        op(K::ReplaceData).n(0, 9).i(0, 0).i(1, 0).s(0, &s),
        op(K::Substring).n(0, 8).i(0, 0).i(1, mid),
        op(K::AppendData).n(0, 8).s(0, &back),
        op(K::GetById).n(0, 0).s(0, &s).out(13),
        op(K::Clone).n(0, 4).i(0, 1).out(14),
        op(K::Normalize).n(0, 4),
    ];
    ctx.history(&ops, &Cfg { sparse: 9, tail: 4, display: ctx.prop == "C16" || c.display, ids: 1, ns: 1, ..c })
}

fn many_names(shape: u64) -> &'static [&'static str] {
    use std::sync::OnceLock;
    static ATTRS: OnceLock<Vec<&'static str>> = OnceLock::new();
    static DECLS: OnceLock<Vec<&'static str>> = OnceLock::new();
    let keep = |v: Vec<String>| -> Vec<&'static str> { v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect() };
    match shape {
        2 => ATTRS.get_or_init(|| keep((0..24).flat_map(|i| [format!("n{}", i), format!("p:n{}", i), format!("q:n{}", i / 2)]).collect())),
        3 => DECLS.get_or_init(|| keep((0..24).map(|i| format!("xmlns:p{}", i)).chain(["xmlns".to_string(), "a".to_string()]).collect())),
        _ => &["id", "xml:id", "a"],
    }
}

pub fn make(k: Kind, doc: usize, out: usize) -> Op {
    let on = |k: K| Op::new(k).n(0, doc).out(out);
    match k {
        Kind::Element => on(K::CreateElement).s(0, "e"),
        Kind::Attr => on(K::CreateAttrWith).s(0, "a").s(1, "v"),
        Kind::Text => on(K::CreateText).s(0, "text"),
        Kind::CData => on(K::CreateCData).s(0, "cdata"),
        Kind::EntRef => on(K::CreateEntRef).s(0, "r"),
        Kind::Entity => on(K::CreateInternalEntity).s(0, "n").s(1, "v"),
        Kind::PI => on(K::CreatePI).s(0, "t").s(1, "d"),
        Kind::Comment => on(K::CreateComment).s(0, "c"),
        Kind::Doc => Op::new(K::CreateDoc).out(out).i(0, 4).i(1, 1),
        Kind::DocType => Op::new(K::CreateDocType).out(out).s(0, "a"),
        Kind::Frag => on(K::CreateFragment),
        Kind::Notation => on(K::CreateNotation).s(0, "n").s(1, "p"),
    }
}

const VARIANTS: u64 = 18;
pub const PAIRS: u64 = 12 * 12 * VARIANTS;

/// Every parent kind with every child kind, in a number of situations.
pub fn pairs(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let v = idx % VARIANTS;
    let ck = KINDS[(idx / VARIANTS % 12) as usize];
    let pk = KINDS[(idx / VARIANTS / 12 % 12) as usize];
    let mut o = vec![
        Op::new(K::CreateDoc).out(0).i(0, 4).i(1, 1),
        Op::new(K::CreateDoc).out(1).i(0, 4).i(1, 1).s(1, "root"),
    ];
    let (p, c, x, y) = (5, 6, 7, 8);
    o.push(make(pk, 0, p));
    // Something that is a child already, where possible.
    let filler = match pk {
        Kind::Doc => Kind::Comment,
        _ => Kind::Text,
    };
    let pdoc = if pk == Kind::Doc { p } else { 0 };
    // A document can only contain what it created itself.
    let cdoc = if v == 4 || v == 13 { 1 } else { pdoc };
    o.push(make(ck, cdoc, c));
    o.push(make(filler, pdoc, x));
    o.push(Op::new(K::Append).n(0, p).n(1, x));
    let app = Op::new(K::Append).n(0, p).n(1, c);
    let ins = Op::new(K::InsertBefore).n(0, p).n(1, c);
    let rep = Op::new(K::Replace).n(0, p).n(1, c);
    match v {
        0 => o.push(app),
        1 => o.push(ins.n(2, x)),
        2 => o.push(rep.n(2, x)),
        3 => {
            // moved from elsewhere
            o.push(make(Kind::Element, pdoc, y));
            o.push(Op::new(K::Append).n(0, y).n(1, c));
            o.push(app)
        }
        4 => o.push(app),
        5 => {
            o.push(app);
            o.push(ins.n(2, x));
            o.push(Op::new(K::Append).n(0, p).n(1, c))
        }
        6 => {
            o.push(make(filler, pdoc, y));
            o.push(ins.n(2, y))
        }
        7 => o.push(Op::new(K::Append).n(0, p).n(1, p)),
        8 => {
            // the parent inside the child
            o.push(Op::new(K::Append).n(0, c).n(1, p));
            o.push(app)
        }
        9 => {
            o.push(make(Kind::Element, pdoc, y));
            o.push(Op::new(K::Append).n(0, p).n(1, y));
            o.push(app.clone());
            o.push(ins.n(2, y));
            o.push(rep.n(2, y))
        }
        10 => {
            o.push(app);
            o.push(ins.n(2, c));
            o.push(rep.n(2, c))
        }
        11 => {
            o.push(make(filler, pdoc, y));
            o.push(rep.n(2, y))
        }
        12 => {
            o.push(Op::new(K::Drop).n(0, 0));
            o.push(app);
            o.push(rep.n(2, x))
        }
        13 => {
            o.push(ins.n(2, x));
            o.push(rep.n(2, x))
        }
        14 => {
            // two levels
            o.push(make(Kind::Element, pdoc, y));
            o.push(Op::new(K::Append).n(0, c).n(1, y));
            o.push(Op::new(K::Append).n(0, y).n(1, p));
            o.push(app);
            o.push(ins.n(2, x));
        }
        15 => {
            // a clone of the parent and of the child
            o.push(Op::new(K::Clone).n(0, p).i(0, 1).out(9));
            o.push(Op::new(K::Clone).n(0, c).i(0, 1).out(10));
            o.push(Op::new(K::Append).n(0, 9).n(1, 10));
            o.push(Op::new(K::Append).n(0, 9).n(1, c));
        }
        16 => {
            o.push(app);
            o.push(Op::new(K::Remove).n(0, p).n(1, c));
            o.push(Op::new(K::Remove).n(0, p).n(1, c));
            o.push(rep.n(2, x));
            o.push(Op::new(K::Remove).n(0, x).n(1, c));
        }
        _ => {
            // below an attribute of an element
            o.push(make(Kind::Element, pdoc, y));
            o.push(Op::new(K::SetAttributeNode).n(0, y).n(1, p));
            o.push(app);
            o.push(Op::new(K::Append).n(0, c).n(1, y));
        }
    }
    for s in [p, c, x, y] {
        o.push(Op::new(K::ReadAll).n(0, s).s(0, "a").s(1, "b"));
    }
    ctx.history(&o, &FULL_CFG)
}

// ------------------------------------------------------------------------------------------------
// All sequences over a small alphabet

fn op(k: K) -> Op {
    Op::new(k)
}

pub fn alphabet(prop: &str) -> Option<(Vec<Op>, Vec<Op>)> {
    let doc = |o: usize, opts: u64| op(K::CreateDoc).out(o).i(0, opts).i(1, (opts == 4) as u64);
    let el = |s: usize, n: &str| op(K::CreateElement).n(0, 0).s(0, n).out(s);
    let app = |p: usize, c: usize| op(K::Append).n(0, p).n(1, c);
    let ins = |p: usize, c: usize, r: usize| op(K::InsertBefore).n(0, p).n(1, c).n(2, r);
    let rep = |p: usize, c: usize, r: usize| op(K::Replace).n(0, p).n(1, c).n(2, r);
    let rem = |p: usize, c: usize| op(K::Remove).n(0, p).n(1, c);
    let set = |e: usize, n: &str, v: &str| op(K::SetAttribute).n(0, e).s(0, n).s(1, v);
    let set_ns = |e: usize, ns: &str, n: &str, v: &str| op(K::SetAttributeNs).n(0, e).s(0, ns).s(1, n).s(2, v);
    let unset = |e: usize, n: &str| op(K::RemoveAttribute).n(0, e).s(0, n);
    let unset_ns = |e: usize, ns: &str, n: &str| op(K::RemoveAttributeNs).n(0, e).s(0, ns).s(1, n);
    let put = |e: usize, a: usize| op(K::SetAttributeNode).n(0, e).n(1, a);
    let take = |e: usize, a: usize| op(K::RemoveAttributeNode).n(0, e).n(1, a);
    let attr = |s: usize, n: &str, v: &str| op(K::CreateAttrWith).n(0, 0).s(0, n).s(1, v).out(s);
    let attr_ns = |s: usize, ns: &str, n: &str| op(K::CreateAttrNs).n(0, 0).s(0, ns).s(1, n).out(s);
    let val = |a: usize, v: &str| op(K::SetValue).n(0, a).s(0, v);
    let text = |s: usize, v: &str| op(K::CreateText).n(0, 0).s(0, v).out(s);
    let clone = |a: usize, d: u64, s: usize| op(K::Clone).n(0, a).i(0, d).out(s);
    let drop = |s: usize| op(K::Drop).n(0, s);
    Some(match prop {
        "C01" | "C02" | "C03" | "C04" | "C13" => {
            let pre = vec![
                doc(0, 4).s(1, "r"),
                op(K::GetDocElement).n(0, 0).out(4),
                el(5, "a"),
                el(6, "b"),
                el(7, "a"),
                text(8, "t"),
                app(4, 5),
                app(4, 6),
                app(4, 8),
                app(5, 7),
            ];
            let mut l = vec![];
            for p in [4, 5, 6, 7] {
                for c in [5, 6, 7, 8] {
                    if p != c {
                        l.push(app(p, c));
                    }
                }
            }
            for (c, r) in [(5, 6), (6, 5), (8, 5), (7, 5), (7, 6), (5, 8), (6, 8), (5, 5)] {
                l.push(ins(4, c, r));
            }
            for (c, r) in [(5, 6), (6, 5), (7, 5), (8, 6), (4, 5), (6, 8)] {
                l.push(rep(4, c, r));
            }
            l.push(rem(4, 5));
            l.push(rem(4, 8));
            l.push(rem(5, 7));
            l.push(app(0, 5));
            l.push(rem(0, 4));
            (pre, l)
        }
        "C05" => (
            vec![doc(0, 4), doc(1, 4).s(1, "x"), op(K::CreateDocType).out(3).s(0, "t"), el(5, "a"), text(6, "tt"), app(5, 6), set(5, "k", "v"),
                op(K::GetDocElement).n(0, 1).out(8)],
            vec![
                clone(5, 1, 9), clone(6, 0, 10), op(K::Split).n(0, 6).i(0, 1).out(11), app(0, 5), app(8, 5), app(8, 9), app(1, 9),
                op(K::CreateDoc).out(2).n(0, 3).i(0, 4).s(1, "q"), op(K::CreateDoc).out(12).n(0, 3).i(0, 4), drop(2), drop(0),
                op(K::GetAttrNode).n(0, 5).s(0, "k").out(13), op(K::SetValue).n(0, 13).s(0, "w"), put(8, 13),
                op(K::GetOwnerDoc).n(0, 9).out(0), op(K::CreateDoc).out(2).n(0, 3).i(0, 4).s(1, "1"), op(K::Normalize).n(0, 5), rem(5, 6),
            ],
        ),
        "C06" | "C07" => (
            vec![
                doc(0, 4), doc(1, 4).s(1, "x"), el(5, "e"), el(6, "f"), attr(7, "a", "1"), attr(8, "a", "2"), attr_ns(9, "urn:n1", "p:a"),
                attr_ns(10, "urn:n1", "q:a"), op(K::CreateAttrWith).n(0, 1).s(0, "a").s(1, "3").out(11),
            ],
            vec![
                set(5, "a", "v"), set(5, "p:a", "w"), set_ns(5, "urn:n1", "p:a", "x"), set_ns(5, "urn:n1", "q:a", "y"), set_ns(5, "urn:n2", "p:a", "z"),
                set_ns(5, "urn:n1", "a", "u"), put(5, 7), put(5, 8), put(5, 9), put(5, 10), put(5, 11), put(6, 7), put(6, 9), unset(5, "a"),
                unset(5, "p:a"), unset_ns(5, "urn:n1", "a"), take(5, 7), take(5, 8), take(5, 9), take(6, 7), clone(5, 0, 5), drop(5),
                op(K::GetAttrNode).n(0, 5).s(0, "a").out(8), op(K::Clone).n(0, 7).i(0, 1).out(7),
            ],
        ),
        "C08" => (
            vec![doc(0, 4), el(5, "e"), attr(7, "a", "1"), text(8, " &#6"), text(9, "5; ")],
            vec![
                put(5, 7), set(5, "a", "&#65;&#x9;"), val(7, " x\ty "), val(7, ""), op(K::UnsetValue).n(0, 7), app(7, 8), app(7, 9), ins(7, 9, 8),
                op(K::Normalize).n(0, 7), op(K::Split).n(0, 8).i(0, 2).out(10), op(K::SetNodeValue).n(0, 7).s(0, "<\r\n>"), op(K::UnsetNodeValue).n(0, 7),
                op(K::AppendData).n(0, 8).s(0, "\r\n&"), op(K::UnsetData).n(0, 9), clone(7, 0, 7), rem(7, 8), op(K::CreateEntRef).n(0, 0).s(0, "r").out(11), app(7, 11),
            ],
        ),
        "C10" => (
            vec![doc(0, 4), el(5, "e"), el(6, "f"), text(7, "aé"), text(8, ""), op(K::CreateCData).n(0, 0).s(0, "cd").out(9), app(5, 7), attr(12, "k", "xy")],
            vec![
                app(5, 7), app(5, 8), app(5, 9), app(5, 6), app(6, 7), app(6, 8), text(7, "b"), text(8, ""), text(8, "x"),
                op(K::Split).n(0, 7).i(0, 1).out(10), op(K::Split).n(0, 7).i(0, 0).out(7), op(K::Split).n(0, 8).i(0, 9).out(8), op(K::Split).n(0, 9).i(0, 1).out(11),
                op(K::Split).n(0, 7).i(0, 2).out(10), op(K::Normalize).n(0, 5), op(K::Normalize).n(0, 12), app(12, 7), app(12, 8), put(6, 12),
                op(K::UnsetData).n(0, 7), op(K::GetChild).n(0, 12).i(0, 0).out(7),
            ],
        ),
        "C11" => (
            vec![doc(0, 5), el(5, "e"), el(6, "f"), attr(7, "id", "x"), attr_ns(8, XML_NS, "xml:id")],
            vec![
                set(5, "id", "x"), set(6, "id", "x"), set(5, "id", "y"), set(6, "id", " y "), set_ns(5, XML_NS, "xml:id", "x"), set_ns(6, XML_NS, "xml:id", "y"),
                unset(5, "id"), unset(6, "id"), unset_ns(5, XML_NS, "id"), put(5, 7), put(6, 7), take(5, 7), val(7, "y"), val(7, "x"), op(K::UnsetValue).n(0, 7),
                put(5, 8), val(8, "x"), clone(5, 1, 9), drop(5), put(6, 8), op(K::GetById).n(0, 0).s(0, "x").out(5), app(0, 6),
            ],
        ),
        "C12" => (
            vec![doc(0, 4), el(5, "e"), el(6, "f"), app(5, 6), attr_ns(7, XMLNS_NS, "xmlns:p"), val(7, "urn:n9")],
            vec![
                set_ns(5, XMLNS_NS, "xmlns:p", "urn:n1"), set_ns(5, XMLNS_NS, "xmlns:q", "urn:n1"), set_ns(6, XMLNS_NS, "xmlns:p", "urn:n2"), set_ns(5, XMLNS_NS, "xmlns", "urn:n3"),
                set_ns(6, XMLNS_NS, "xmlns", ""), set(5, "xmlns:p", "urn:n4"), set(6, "xmlns:p", "urn:n5"), unset(5, "xmlns:p"), unset_ns(5, XMLNS_NS, "p"), unset_ns(6, XMLNS_NS, "p"),
                unset_ns(5, XMLNS_NS, "xmlns"), rem(5, 6), app(5, 6), clone(5, 1, 5), put(5, 7), put(6, 7), take(5, 7), take(6, 7), val(7, "urn:n2"), op(K::UnsetValue).n(0, 7),
                op(K::GetChild).n(0, 5).i(0, 0).out(6), op(K::GetAttrNode).n(0, 5).s(0, "xmlns:p").out(7),
            ],
        ),
        "C14" => (
            vec![doc(0, 5).s(1, "r"), el(5, "e"), el(6, "f"), text(7, "t"), app(5, 6), app(6, 7), set(5, "id", "x"), set_ns(5, XMLNS_NS, "xmlns:p", "urn:n1"), set(6, "a", "v")],
            vec![
                clone(5, 1, 8), clone(5, 0, 9), clone(6, 1, 10), clone(8, 1, 11), op(K::GetChild).n(0, 8).i(0, 0).out(12), op(K::GetAttrNode).n(0, 8).s(0, "id").out(13),
                op(K::GetAttrNode).n(0, 5).s(0, "id").out(14), val(14, "w"), set(8, "id", "z"), unset(8, "xmlns:p"), unset(5, "xmlns:p"), clone(14, 0, 13), app(8, 9), app(5, 8),
                op(K::AppendData).n(0, 7).s(0, "u"), rem(6, 7), app(12, 7), op(K::Normalize).n(0, 8), set(12, "a", "q"), drop(5), put(9, 13),
            ],
        ),
        "C19" => (
            vec![doc(0, 5).s(1, "r"), op(K::GetDocElement).n(0, 0).out(4), el(5, "e"), el(6, "f"), text(7, "t"), app(5, 6), app(6, 7), set(5, "id", "x"), set(6, "a", "v")],
            vec![
                drop(0), drop(4), drop(5), drop(6), drop(7), app(4, 5), rem(4, 5), op(K::GetAttrNode).n(0, 6).s(0, "a").out(8), drop(8), clone(5, 1, 9), drop(9),
                rep(5, 7, 6), op(K::GetParent).n(0, 7).out(10), op(K::GetOwnerDoc).n(0, 7).out(0), take(6, 8), unset(6, "a"), set(5, "id", "y"), op(K::GetOwnerElement).n(0, 8).out(6),
                op(K::GetById).n(0, 0).s(0, "x").out(5), op(K::UnsetValue).n(0, 8),
            ],
        ),
        "C20" => (
            vec![doc(0, 5).s(1, "r"), doc(1, 4).s(1, "r"), op(K::GetDocElement).n(0, 0).out(4), op(K::GetDocElement).n(0, 1).out(5), attr(6, "id", "x"),
                op(K::CreateText).n(0, 1).s(0, "t").out(7), op(K::CreateElement).n(0, 1).s(0, "e").out(8)],
            vec![
                set(4, "id", "x"), set(5, "id", "x"), set(5, "xml:id", "x"), set_ns(4, XMLNS_NS, "xmlns:p", "urn:n1"), set_ns(5, XMLNS_NS, "xmlns:p", "urn:n2"), app(4, 8), app(5, 8),
                app(4, 7), rep(0, 8, 4), put(5, 6), put(4, 6), unset(4, "id"), unset(5, "xmlns:p"), clone(5, 1, 9), app(4, 9), drop(0), drop(1), app(8, 7),
                op(K::Normalize).n(0, 5), op(K::SetDecl).n(0, 1),
            ],
        ),
        "C24" => (
            vec![doc(0, 4).s(1, "r"), el(5, "e"), attr(6, "a", "v"), op(K::CreatePI).n(0, 0).s(0, "t").s(1, "d").out(7), op(K::CreateInternalEntity).n(0, 0).s(0, "n").s(1, "v").out(8),
                op(K::CreateEntRef).n(0, 0).s(0, "n").out(9), op(K::CreateFragment).n(0, 0).out(10), op(K::CreateNotation).n(0, 0).s(0, "n").out(11), op(K::CreateDocType).s(0, "d").out(3),
                op(K::CreateCData).n(0, 0).s(0, "c").out(12), op(K::CreateComment).n(0, 0).s(0, "c").out(13)],
            {
                let mut l = vec![];
                for s in [0, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13] {
                    l.push(op(K::SetNodeValue).n(0, s).s(0, "new"));
                    l.push(op(K::UnsetNodeValue).n(0, s));
                }
                l.push(put(5, 6));
                l.push(app(5, 7));
                l.push(app(5, 9));
                l.push(op(K::UnsetPiData).n(0, 7));
                l.push(op(K::SetPiData).n(0, 7).s(0, "?"));
                l
            },
        ),
        _ => return None,
    })
}

pub fn seq_count(prop: &str, limit: u64) -> u64 {
    match alphabet(prop) {
        None => 0,
        Some((_, l)) => {
            let a = l.len() as u64;
            let mut n = a;
            while n * a <= limit {
                n *= a;
            }
            n
        }
    }
}

/// The idx-th sequence of the longest length that fits; shorter ones are its prefixes.
fn seq_ops(prop: &str, idx: u64, count: u64) -> Vec<Op> {
    let (mut o, l) = alphabet(prop).unwrap();
    let a = l.len() as u64;
    let mut n = 1;
    let mut x = idx;
    while n < count {
        o.push(l[(x % a) as usize].clone());
        x /= a;
        n *= a;
    }
    o
}

pub const SEQ_QUICK: u64 = 30_000;
pub const SEQ_THOROUGH: u64 = 700_000;

pub fn seq(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let limit = if ctx.thorough { SEQ_THOROUGH } else { SEQ_QUICK };
    let ops = seq_ops(ctx.prop, idx, seq_count(ctx.prop, limit));
    ctx.history(&ops, &Cfg { display: false, ..FULL_CFG })
}

/// All small positions of a move within a parent with up to five children, and from another parent.
pub const MOVES: u64 = 6 * 4 * 8 * 8;
pub fn moves(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let n = (idx % 6) as usize;
    let k = idx / 6 % 4;
    let c = (idx / 24 % 8) as usize;
    let r = (idx / 192 % 8) as usize;
    let mut o = vec![
        op(K::CreateDoc).out(0).i(0, 4).i(1, 1),
        op(K::CreateElement).n(0, 0).s(0, "p").out(4),
        op(K::CreateElement).n(0, 0).s(0, "q").out(5),
    ];
    let base = 8;
    for i in 0..8 {
        let k = [K::CreateElement, K::CreateText, K::CreateComment][i % 3];
        let s = 10 + i;
        o.push(op(k).n(0, 0).s(0, "n").out(s));
        if i < n {
            o.push(op(K::Append).n(0, 4).n(1, s));
        } else if i == n || i == n + 1 {
            o.push(op(K::Append).n(0, 5).n(1, s));
        }
    }
    let _ = base;
    let (c, r) = (10 + c, 10 + r);
    o.push(match k {
        0 => op(K::InsertBefore).n(0, 4).n(1, c).n(2, r),
        1 => op(K::Replace).n(0, 4).n(1, c).n(2, r),
        2 => op(K::Remove).n(0, 4).n(1, c),
        _ => op(K::Append).n(0, 4).n(1, c),
    });
    o.push(op(K::GetNext).n(0, c).out(6));
    o.push(op(K::GetPrev).n(0, c).out(7));
    ctx.history(&o, &FULL_CFG)
}

const SPLICE: &[&str] = &["", "a", "é", "ab", "aé", "日x", "𐀀", "a&é<", "ab日c"];
pub const SPLICES: u64 = (SPLICE.len() * 3 * 8) as u64;
/// Every offset and count on small contents.
pub fn splices(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let s = SPLICE[(idx % SPLICE.len() as u64) as usize];
    let node = [K::CreateText, K::CreateCData, K::CreateComment][(idx / SPLICE.len() as u64 % 3) as usize];
    let what = [K::Substring, K::DeleteData, K::ReplaceData, K::InsertData, K::Split, K::Substring, K::ReplaceData, K::Split]
        [(idx / (3 * SPLICE.len() as u64) % 8) as usize];
    let unset = idx / (3 * SPLICE.len() as u64) % 8 >= 5;
    let mut o = vec![op(K::CreateDoc).out(0).i(0, 4).i(1, 1), op(K::CreateElement).n(0, 0).s(0, "e").out(4)];
    let len = s.len() as u64;
    let mut ns: Vec<u64> = (0..=len + 2).collect();
    ns.extend([u64::MAX, u64::MAX - 1, u64::MAX - len, (i64::MAX as u64), i64::MAX as u64 + 1]);
    for off in &ns {
        let counts: &[u64] = if matches!(what, K::InsertData | K::Split) { &[0] } else { &ns };
        for cnt in counts {
            o.push(op(node).n(0, 0).s(0, s).out(5));
            if unset {
                o.push(op(K::UnsetData).n(0, 5));
            }
            if off.wrapping_add(len) % 2 == 0 {
                o.push(op(K::Append).n(0, 4).n(1, 5));
            }
            o.push(op(what).n(0, 5).i(0, *off).i(1, *cnt).s(0, if cnt % 2 == 0 { "Zü" } else { "" }).out(6));
            o.push(op(K::Remove).n(0, 4).n(1, 5));
            o.push(op(K::Remove).n(0, 4).n(1, 6));
        }
    }
    ctx.history(&o, &FULL_CFG)
}
