//! Case families that call the library without a history of operations.
use crate::alloc::thread_live;
use crate::ctx::{Bad, Ctx};
use crate::exec::*;
use crate::families::FULL_CFG;
use crate::gen::*;
use crate::model::*;
use crate::op::{ops_text, Op, K};
use crate::oracle::*;
use crate::profiles::profile;
use crate::purity::{facts, strings};
use crate::rng::{hash_str, Rng};
use crate::runner::{guard, on_little_stack, Caught, Cfg};
use std::str::FromStr;
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::{as_document_decl_mut, as_element_namespaced};
use xml_dom::level2::ext::dom_impl as extdom;
use xml_dom::level2::ext::{ProcessingOptions, XmlDecl, XmlVersion};
use xml_dom::level2::*;

fn doc() -> RefNode {
    get_implementation().create_document(None, None, None).unwrap()
}

/// Turn a panic into a violation of these properties and of C18.
fn safely(tags: &[&'static str], what: impl FnOnce() -> String, f: impl FnOnce() -> Option<Bad>) -> Option<Bad> {
    match guard(f) {
        Caught::Fine(b) => b,
        Caught::Panicked(s) => {
            let mut b = Bad::new(tags, format!("{} {}", what(), s), String::new());
            b.tags.insert("C18");
            Some(b)
        }
    }
}

// ------------------------------------------------------------------------------------------------
// C08: every short string over the characters that matter

const CS: &[char] = &['&', '#', 'x', '6', '5', ';', '\t', '\r', '\n', ' ', 'a', '<', '"', '\u{85}'];
const VBLOCK: u64 = 250;

const fn strings_upto(a: u64, n: u32) -> u64 {
    let (mut t, mut p, mut i) = (0, 1, 0);
    while i <= n {
        t += p;
        p *= a;
        i += 1;
    }
    t
}
pub const VALUES_QUICK: u64 = strings_upto(CS.len() as u64, 5).div_ceil(VBLOCK);
pub const VALUES_THOROUGH: u64 = strings_upto(CS.len() as u64, 6).div_ceil(VBLOCK);

/// The i-th string in order of length.
fn nth_string(cs: &[char], mut i: u64) -> String {
    let a = cs.len() as u64;
    let mut len = 0;
    let mut p = 1;
    while i >= p {
        i -= p;
        p *= a;
        len += 1;
    }
    let mut s = vec![];
    for _ in 0..len {
        s.push(cs[(i % a) as usize]);
        i /= a;
    }
    s.into_iter().collect()
}

/// Set the value in every way there is, and read it in every way there is.
fn value_of(raw: &str) -> Option<Bad> {
    let norm = Some(escape(&normalize_attr(raw)));
    let d = doc();
    let dd = as_document(&d).unwrap();
    let mut e = dd.create_element("e").unwrap();
    let mut ways: Vec<(&str, RefNode)> = vec![];
    ways.push(("create_attribute_with", dd.create_attribute_with("b", raw).unwrap()));
    let mut a = dd.create_attribute("c").unwrap();
    as_attribute_mut(&mut a).unwrap().set_value("old").unwrap();
    as_attribute_mut(&mut a).unwrap().set_value(raw).unwrap();
    ways.push(("set_value", a));
    let mut a = dd.create_attribute("d").unwrap();
    a.set_node_value(raw).unwrap();
    ways.push(("set_node_value", a));
    // In two pieces.
    let mid = raw.char_indices().nth(raw.chars().count() / 2).map_or(0, |(i, _)| i);
    let mut a = dd.create_attribute("f").unwrap();
    if !raw.is_empty() {
        let _ = a.append_child(dd.create_text_node(&raw[..mid])).unwrap();
        let _ = a.append_child(dd.create_text_node(&raw[mid..])).unwrap();
    }
    ways.push(("two text children", a));
    let mut el = as_element_mut(&mut e).unwrap() as &mut dyn Element<NodeRef = RefNode>;
    el.set_attribute("a", raw).unwrap();
    el.set_attribute_ns("urn:n", "p:a", raw).unwrap();
    let same = |got: Option<String>, want: &Option<String>, what: String| -> Option<Bad> {
        if &got == want {
            None
        } else {
            Some(Bad::new(&["C08"], format!("{} with {:?}: {:?}, expected {:?}", what, raw, got, want), String::new()))
        }
    };
    for (w, n) in &ways {
        let v = as_attribute(n).unwrap().value();
        let nv = n.node_value();
        // No text at all is no value, an empty text is an empty value.
        let norm = if n.has_child_nodes() { norm.clone() } else { None };
        if raw.is_empty() && *w == "two text children" && n.has_child_nodes() {
            return Some(Bad::new(&["C08"], "a new attribute has content".into(), String::new()));
        }
        if let Some(b) = same(v, &norm, format!("{}: value", w)).or_else(|| same(nv, &norm, format!("{}: node value", w))) {
            return Some(b);
        }
    }
    el = as_element_mut(&mut e).unwrap();
    let norm = if raw.is_empty() { None } else { norm };
    let el_ok = |g: Option<String>| if raw.is_empty() && g.as_deref() == Some("") { None } else { g };
    same(el_ok(el.get_attribute("a")), &norm, "set_attribute".into()).or_else(|| same(el_ok(el.get_attribute_ns("urn:n", "a")), &norm, "set_attribute_ns".into()))
}

pub fn values(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    for i in idx * VBLOCK..(idx + 1) * VBLOCK {
        let s = nth_string(CS, i);
        ctx.evals += 1;
        ctx.count("observations_compared", 10);
        if ctx.distinct.insert(hash_str(2, &s)) && i % 99_991 == 77 {
            ctx.sample(|| format!("attribute value {:?}", s));
        }
        if let Some(b) = safely(&["C08"], || format!("attribute value {:?}", s), || value_of(&s)) {
            return Some(b);
        }
    }
    None
}

const PIECES: &[&str] = &[
    "&#", "&#x", "&#X", "0", "1", "9", "65", "0065", "10FFFF", "110000", "D800", "DFFF", "1114111", "1114112", "4294967361", "18446744073709551681", ";", "&", "&amp;", "&lt;",
    " ", "\t", "\n", "\r", "\u{85}", "\u{2028}", "\u{2029}", "\u{a0}", "\u{feff}", "é", "日本", "𐀀", "<", ">", "'", "\"", "a", "f", "+65", "-65", "_", "&#65;", "&#x41;", "&#38;",
    "&#9;", "&#10;", "&#13;", "&#32;", "&#x20;", "\u{c}", "\u{b}", "%", "$1", "\\n", "]]>", "&#x000000041;", "&#00000065;", "\u{1d7d9}", "٣",
];
/// A reference to any character or none, written in any way: decimal or not, with zeros before it, in either case.
pub fn any_reference(r: &mut Rng) -> String {
    let zeros = if r.chance(1, 2) { 0 } else { *r.pick(&[1usize, 2, 3, 4, 5, 6, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 64, 100, 255, 256, 257, 1000]) };
    let cp: u64 = match r.below(8) {
        0 => r.below(0x80) as u64,
        1 => r.below(0x3000) as u64,
        2 => r.below(0x11_0000) as u64,
        3 => *r.pick(&[0u64, 1, 8, 9, 10, 13, 0x1f, 0x20, 0x7f, 0x80, 0x85, 0xa0, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x1_0000, 0x1_f600, 0x10_ffff, 0x11_0000]),
        4 => (1u64 << r.below(40)) + 65,
        5 => u64::MAX - r.below(5) as u64,
        _ => *r.pick(&[0x3cu64, 0x3e, 0x26, 0x22, 0x27, 0x3b, 0x23, 0x41, 0xe9, 0x1_0437]),
    };
    let z = "0".repeat(zeros);
    match r.below(5) {
        0 | 1 => format!("&#{}{};", z, cp),
        2 => format!("&#x{}{:x};", z, cp),
        3 => format!("&#x{}{:X};", z, cp),
        _ => {
            let name: String = (0..*r.pick(&[1usize, 2, 3, 4, 5, 8, 16, 32, 64, 256])).map(|_| *r.pick(&['a', 'm', 'p', 'l', 't', 'g', 'q', 'é', '.', '-', '_', '1', 'x'])).collect();
            format!("&{};", name)
        }
    }
}

/// Random strings out of pieces that are meaningful in references, with long ones among them.
pub fn value_mix(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut r = Rng::new(ctx.seed, "valuemix", idx);
    for _ in 0..20 {
        let n = if r.chance(1, 50) { r.range(50, 400) } else { r.range(1, 9) };
        let mut s = String::new();
        for _ in 0..n {
            match r.below(12) {
                0 => s.push_str(&any_reference(&mut r)),
                1 => {
                    // One piece many times over, around the sizes where something may change.
                    let p = *r.pick(PIECES);
                    let m = *r.pick(&[2usize, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65]);
                    s.push_str(&p.repeat(m));
                }
                _ => s.push_str(r.pick(PIECES)),
            }
        }
        ctx.evals += 1;
        ctx.count("observations_compared", 10);
        if ctx.distinct.insert(hash_str(2, &s)) {
            ctx.sample(|| format!("attribute value {:?}", s));
        }
        if let Some(b) = safely(&["C08"], || format!("attribute value {:?}", s), || value_of(&s)) {
            return Some(b);
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------
// C15: names

fn check_name(got: std::result::Result<Name, Error>, want: &std::result::Result<QName, Vec<Error>>, what: &str) -> Option<Bad> {
    let bad = |t: String| Some(Bad::new(&["C15"], format!("{}: {}", what, t), String::new()));
    match (got, want) {
        (Err(e), Err(l)) => {
            if l.contains(&e) {
                None
            } else {
                bad(format!("Err({:?}), expected one of {:?}", e, l))
            }
        }
        (Err(e), Ok(_)) => bad(format!("refused with {:?}", e)),
        (Ok(n), Err(l)) => bad(format!("accepted as {:?}, expected {:?}", n, l)),
        (Ok(n), Ok(q)) => {
            if n.namespace_uri() != &q.ns || n.prefix() != &q.prefix || n.local_name() != &q.local || n.to_string() != q.qualified() {
                bad(format!("is {:?} ({})", n, n))
            } else if n.is_namespace_attribute() != q.is_ns_decl() || n.is_id_attribute(true) != q.is_id(true) || n.is_id_attribute(false) != q.is_id(false) {
                bad(format!(
                    "{:?}: namespace attribute {}, id attribute {}/{}",
                    n,
                    n.is_namespace_attribute(),
                    n.is_id_attribute(true),
                    n.is_id_attribute(false)
                ))
            } else {
                None
            }
        }
    }
}

fn one_name(s: &str) -> Option<Bad> {
    let want = parse_qname(s);
    let mut b = check_name(Name::from_str(s), &want, &format!("Name::from_str({:?})", s));
    if b.is_none() {
        b = check_name(Name::try_from(s.as_bytes()), &want, &format!("Name::try_from({:?})", s));
    }
    for ns in ["urn:n", XML_NS, XMLNS_NS, ""] {
        if b.is_none() {
            b = check_name(Name::new_ns(ns, s), &parse_qname_ns(ns, s), &format!("Name::new_ns({:?}, {:?})", ns, s));
        }
    }
    b
}

const CBLOCK: u64 = 512;
pub const CHARS: u64 = 0x110000 / CBLOCK;
/// Every character there is, in every position.
pub fn name_chars(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    for cp in idx * CBLOCK..(idx + 1) * CBLOCK {
        let Some(c) = char::from_u32(cp as u32) else { continue };
        ctx.evals += 1;
        ctx.count("observations_compared", 30);
        let _ = ctx.distinct.insert(hash_str(3, &c.to_string()));
        let forms = [format!("{}", c), format!("{}a", c), format!("a{}", c), format!("{}a:b", c), format!("a{}:b", c), format!("a:{}", c), format!("a:b{}", c)];
        for (i, s) in forms.iter().enumerate() {
            let r = safely(&["C15"], || format!("name {:?}", s), || {
                let want = parse_qname(s);
                let mut b = check_name(Name::from_str(s), &want, &format!("Name::from_str({:?})", s));
                if i == 2 && b.is_none() {
                    b = check_name(Name::new_ns("urn:n", s), &parse_qname_ns("urn:n", s), &format!("Name::new_ns({:?})", s));
                }
                b
            });
            if r.is_some() {
                return r;
            }
        }
        let s = &forms[1];
        let r = safely(&["C15"], || format!("set_prefix({:?})", s), || one_prefix(&QName { ns: Some("urn:n".into()), prefix: Some("p".into()), local: "a".into() }, Some(s)));
        if r.is_some() {
            return r;
        }
        if cp == 0xe9 {
            ctx.sample(|| format!("U+{:04X} in names such as {:?}", cp, forms));
        }
    }
    None
}

const NTOK: &[&str] = &["a", ":", "1", "-", "é", " ", "xml", "xmlns", "id", "", "\u{b7}", "𐀀", "."];
pub const NAME_STRINGS: u64 = 13 * 13 * 13;
/// Every short sequence of pieces as a name, with and without a namespace, and every prefix on it.
pub fn name_strings(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut s = String::new();
    let mut x = idx;
    for _ in 0..3 {
        s.push_str(NTOK[(x % 13) as usize]);
        x /= 13;
    }
    for t in NTOK {
        for u in ["", "b"] {
            let s = format!("{}{}{}", s, t, u);
            ctx.evals += 1;
            ctx.count("observations_compared", 6);
            if ctx.distinct.insert(hash_str(3, &s)) && idx == 300 {
                ctx.sample(|| format!("name {:?}", s));
            }
            let b = safely(&["C15"], || format!("name {:?}", s), || one_name(&s));
            if b.is_some() {
                return b;
            }
        }
    }
    None
}

const PAIR_NAMES: &[&str] = &["a", "b", "A", "p:a", "q:a", "p:b", "a:p", "é", "e\u{301}", "id", "xml:id", "p:id", "xmlns:a", "xmlns", "pa", "p-a"];
const PAIR_NS: &[Option<&str>] = &[None, Some("urn:n"), Some("urn:N"), Some("urn:n "), Some(XML_NS), Some(XMLNS_NS), Some("a"), Some("p")];
pub const NAME_PAIRS: u64 = (PAIR_NAMES.len() * PAIR_NS.len()) as u64;
/// Names are the same exactly when all three parts are, also as keys.
pub fn name_pairs(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    use std::collections::HashMap;
    fn made(i: usize) -> Option<(QName, Name, Name)> {
        let s = PAIR_NAMES[i % PAIR_NAMES.len()];
        let ns = PAIR_NS[i / PAIR_NAMES.len()];
        let mk = || match ns {
            None => Name::from_str(s),
            Some(ns) => Name::new_ns(ns, s),
        };
        let (x, y) = (mk().ok()?, mk().ok()?);
        let q = match ns {
            None => parse_qname(s).ok()?,
            Some(ns) => parse_qname_ns(ns, s).ok()?,
        };
        Some((q, x, y))
    }
    let (q, x, _) = made(idx as usize)?;
    let mut keys: HashMap<Name, usize> = HashMap::new();
    let mut want = vec![];
    for j in 0..NAME_PAIRS as usize {
        let Some((q2, y, z)) = made(j) else { continue };
        ctx.evals += 1;
        ctx.count("observations_compared", 5);
        let _ = ctx.distinct.insert(idx << 20 | j as u64);
        let same = q.ns == q2.ns && q.prefix == q2.prefix && q.local == q2.local;
        if (x == y) != same || (y == x) != same || (x != y) == same || y != z || y.clone() != y {
            return Some(Bad::new(&["C15"], format!("{:?} and {:?}: equal {}, expected {}", x, y, x == y, same), String::new()));
        }
        let _ = keys.insert(y, j);
        want.push((z, j));
    }
    for (z, j) in &want {
        if keys.get(z) != Some(j) || keys.len() != want.len() {
            return Some(Bad::new(&["C15"], format!("a map of {} names has {} and gives {:?} for {:?}, expected {}", want.len(), keys.len(), keys.get(z), z, j), String::new()));
        }
    }
    if idx == 17 {
        ctx.sample(|| format!("{:?} against {} others", x, want.len()));
    }
    // The same name reached by way of the prefix.
    for p in ["p", "q", "xy"] {
        let mut y = x.clone();
        if y.set_prefix(Some(p)).is_ok() {
            let text = format!("{}:{}", p, q.local);
            let w = match &q.ns {
                None => Name::from_str(&text),
                Some(ns) => Name::new_ns(ns, &text),
            };
            let mut one: HashMap<Name, ()> = HashMap::new();
            let _ = one.insert(y.clone(), ());
            if w.as_ref().map_or(true, |w| *w != y || !one.contains_key(w)) {
                return Some(Bad::new(&["C15"], format!("{:?} given the prefix {:?} is {:?}, not {:?}", x, p, y, w), String::new()));
            }
        }
    }
    None
}

fn one_prefix(q: &QName, p: Option<&str>) -> Option<Bad> {
    let text = q.qualified();
    let mut n = match &q.ns {
        None => Name::from_str(&text),
        Some(ns) => Name::new_ns(ns, &text),
    }
    .ok()?;
    let before = n.clone();
    let mut errs = vec![];
    if let Some(p) = p {
        if p.contains(':') || p.is_empty() {
            errs.push(Error::Syntax);
        }
        if p.split(':').any(|x| !x.is_empty() && !is_ncname(x)) {
            errs.push(Error::InvalidCharacter);
        }
        if errs.is_empty() {
            if let Some(ns) = &q.ns {
                if (p == "xml" && ns != XML_NS) || (p == "xmlns" && ns != XMLNS_NS) {
                    errs.push(Error::Namespace);
                }
            }
        }
    }
    let r = n.set_prefix(p);
    let what = format!("set_prefix({:?}) on {:?}", p, before);
    match r {
        Err(e) => {
            if !errs.contains(&e) {
                return Some(Bad::new(&["C15"], format!("{}: Err({:?}), expected {:?}", what, e, errs), String::new()));
            }
            if n != before || n.to_string() != before.to_string() {
                return Some(Bad::new(&["C15", "C03"], format!("{}: refused, but is now {:?}", what, n), String::new()));
            }
            None
        }
        Ok(()) => {
            if !errs.is_empty() {
                return Some(Bad::new(&["C15"], format!("{}: accepted, expected {:?}", what, errs), String::new()));
            }
            let q = QName { ns: q.ns.clone(), prefix: p.map(String::from), local: q.local.clone() };
            check_name(Ok(n), &Ok(q), &what)
        }
    }
}

const PREFIXES: &[Option<&str>] = &[
    None, Some(""), Some("p"), Some("xml"), Some("xmlns"), Some("1"), Some("é"), Some("a:b"), Some(":"), Some(" "), Some("p "), Some("𐀀"), Some("-p"), Some("p-"), Some("XML"),
    Some("xmlnsx"), Some("a:"), Some(":a"), Some("\u{b7}"), Some("p\u{300}"), Some("<"),
];
pub const PREFIX_CASES: u64 = 5 * 4 * 4;
pub fn prefixes(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let local = ["a", "xml", "xmlns", "id", "é"][(idx % 5) as usize];
    let ns = [None, Some("urn:n"), Some(XML_NS), Some(XMLNS_NS)][(idx / 5 % 4) as usize];
    let pre = [None, Some("q"), Some("xml"), Some("xmlns")][(idx / 20 % 4) as usize];
    let q = QName { ns: ns.map(String::from), prefix: pre.map(String::from), local: local.into() };
    for p in PREFIXES {
        ctx.evals += 1;
        ctx.count("observations_compared", 2);
        let _ = ctx.distinct.insert(hash_str(idx, p.unwrap_or("-none-")));
        let b = safely(&["C15"], || format!("set_prefix({:?}) on {:?}", p, q), || one_prefix(&q, *p));
        if b.is_some() {
            return b;
        }
    }
    // The reserved constructors.
    let mut fixed: Vec<(Name, QName)> = vec![
        (Name::for_namespace(None), QName { ns: Some(XMLNS_NS.into()), prefix: None, local: "xmlns".into() }),
        (Name::for_namespace(Some(local)), QName { ns: Some(XMLNS_NS.into()), prefix: Some("xmlns".into()), local: local.into() }),
        (Name::for_xml_id(), QName { ns: Some(XML_NS.into()), prefix: Some("xml".into()), local: "id".into() }),
        (Name::for_cdata(), reserved("#cdata-section")),
        (Name::for_comment(), reserved("#comment")),
        (Name::for_document(), reserved("#document")),
        (Name::for_document_fragment(), reserved("#document-fragment")),
        (Name::for_text(), reserved("#text")),
        (Name::for_public_id(), reserved("PUBLIC")),
        (Name::for_system_id(), reserved("SYSTEM")),
    ];
    for l in ["Q", "Été", "XML", "ID", "a.b-c_1", "日本", "𐀀"] {
        fixed.push((Name::for_namespace(Some(l)), QName { ns: Some(XMLNS_NS.into()), prefix: Some("xmlns".into()), local: l.into() }));
    }
    for (n, q) in fixed {
        if let Some(b) = check_name(Ok(n), &Ok(q), "a reserved name") {
            return Some(b);
        }
    }
    safely(&["C15"], || "comparing names".into(), || same_names(ctx, local)).or_else(|| not_text(local))
}

fn reserved(s: &str) -> QName {
    QName { ns: None, prefix: None, local: s.into() }
}

fn hash_of(n: &Name) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    n.hash(&mut h);
    h.finish()
}

/// Two names are the same one exactly when all their parts are, and then they hash alike; a copy is the same name.
fn same_names(ctx: &mut Ctx, local: &str) -> Option<Bad> {
    let mut all: Vec<(Name, QName)> = vec![];
    for l in [local, "b", "A", "a"] {
        for p in [None, Some("q"), Some("Q"), Some(local)] {
            let s = p.map_or(l.to_string(), |p| format!("{}:{}", p, l));
            for ns in [None, Some("urn:n"), Some("urn:N"), Some("urn:n "), Some(XML_NS), Some(XMLNS_NS), Some(local)] {
                let got = match ns {
                    None => Name::from_str(&s),
                    Some(ns) => Name::new_ns(ns, &s),
                };
                if let Ok(n) = got {
                    all.push((n, QName { ns: ns.map(String::from), prefix: p.map(String::from), local: l.into() }));
                }
            }
        }
    }
    for (n, q) in &all {
        for (m, r) in &all {
            ctx.evals += 1;
            if (n == m) != (q == r) || (n != m) != (q != r) || (q == r && hash_of(n) != hash_of(m)) {
                return Some(Bad::new(&["C15"], format!("{:?} and {:?} compare as {} with hashes {} and {}", n, m, n == m, hash_of(n), hash_of(m)), String::new()));
            }
        }
        let c = n.clone();
        if &c != n || hash_of(&c) != hash_of(n) {
            return Some(Bad::new(&["C15"], format!("a copy of {:?} is {:?}", n, c), String::new()));
        }
    }
    ctx.count("observations_compared", (all.len() * all.len()) as u64);
    None
}

/// Octets that are not UTF-8 are no name, wherever they stand.
fn not_text(local: &str) -> Option<Bad> {
    for junk in [&[0xffu8][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xe2, 0x82], &[0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xc3]] {
        for at in 0..3 {
            let l = local.as_bytes();
            let at = [0, l.len(), 1][at];
            if !local.is_char_boundary(at) {
                continue;
            }
            let mut v = l[..at].to_vec();
            v.extend_from_slice(junk);
            v.extend_from_slice(&l[at..]);
            let got = guard(|| Name::try_from(&v[..]));
            match got {
                Caught::Fine(Err(Error::InvalidCharacter)) => {}
                Caught::Fine(g) => return Some(Bad::new(&["C15"], format!("Name::try_from({:x?}): {:?}", v, g), String::new())),
                Caught::Panicked(s) => return Some(Bad::new(&["C15", "C18"], format!("Name::try_from({:x?}) {}", v, s), String::new())),
            }
        }
    }
    None
}

const BOUNDARY: &[u32] = &[
    0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x39, 0x3a, 0x3b, 0x40, 0x41, 0x5a, 0x5b, 0x5f, 0x60, 0x61, 0x7a, 0x7b, 0xb6, 0xb7, 0xb8, 0xbf, 0xc0, 0xd6, 0xd7, 0xd8, 0xf6, 0xf7, 0xf8, 0x2ff,
    0x300, 0x36f, 0x370, 0x37d, 0x37e, 0x37f, 0x1fff, 0x2000, 0x200b, 0x200c, 0x200d, 0x200e, 0x203e, 0x203f, 0x2040, 0x2041, 0x206f, 0x2070, 0x218f, 0x2190, 0x2bff, 0x2c00, 0x2fef,
    0x2ff0, 0x3000, 0x3001, 0xd7ff, 0xe000, 0xf8ff, 0xf900, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0xeffff, 0xf0000, 0x10ffff, 0, 9, 10, 13, 0x20,
];
pub const CREATORS: u64 = BOUNDARY.len() as u64 * 6 + 40;
/// The same names through every function that takes one.
pub fn creators(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let nb = BOUNDARY.len() as u64 * 6;
    let s = if idx < nb {
        let c = char::from_u32(BOUNDARY[(idx / 6) as usize]).unwrap();
        match idx % 6 {
            0 => format!("{}", c),
            1 => format!("{}b", c),
            2 => format!("b{}", c),
            3 => format!("{}b:c", c),
            4 => format!("b:{}", c),
            _ => format!("b:c{}", c),
        }
    } else {
        BAD_NAMES[((idx - nb) as usize) % BAD_NAMES.len()].to_string()
    };
    let on = |k: K, out: usize| Op::new(k).n(0, 0).out(out);
    let mut o = vec![
        Op::new(K::CreateDoc).out(0).i(0, 4).i(1, 1),
        on(K::CreateElement, 4).s(0, &s),
        on(K::CreateElement, 20).s(0, "e"),
        on(K::CreateAttr, 5).s(0, &s),
        on(K::CreateAttrWith, 6).s(0, &s).s(1, "v"),
        on(K::CreatePI, 7).s(0, &s).s(1, "d"),
        on(K::CreateEntRef, 8).s(0, &s),
        on(K::CreateEntity, 9).s(0, &s).s(1, "p"),
        on(K::CreateInternalEntity, 10).s(0, &s).s(1, "v"),
        on(K::CreateNotation, 11).s(0, &s).s(2, "y"),
        Op::new(K::CreateDocType).out(3).s(0, &s).s(1, "p"),
        Op::new(K::SetAttribute).n(0, 20).s(0, &s).s(1, "v"),
        Op::new(K::CreateDoc).out(1).i(0, 4).i(1, 1).s(1, &s),
        Op::new(K::CreateDoc).out(1).i(0, 7).s(1, &s),
    ];
    for (i, ns) in ["urn:n1", "", XML_NS, XMLNS_NS].iter().enumerate() {
        o.push(on(K::CreateElementNs, 12 + i).s(0, ns).s(1, &s));
        o.push(on(K::CreateAttrNs, 16 + i).s(0, ns).s(1, &s));
        o.push(Op::new(K::SetAttributeNs).n(0, 20).s(0, ns).s(1, &s).s(2, "v"));
        o.push(Op::new(K::CreateDoc).out(2).i(0, 4).i(1, 1).s(0, ns).s(1, &s));
        o.push(Op::new(K::CreateDoc).out(2).i(0, 7).s(0, ns).s(1, &s));
    }
    ctx.history(&o, &FULL_CFG)
}

// ------------------------------------------------------------------------------------------------
// C17: declarations

const ENC: &[char] = &['U', 'z', 'A', 'Z', 'a', '8', '0', '9', '-', '.', '_', ' ', ':', 'é', '"', '@', '[', '/', '`', '{'];
pub const ENCODINGS: u64 = strings_upto(ENC.len() as u64, 3).div_ceil(100) + 0x110000 / 8192;

fn one_encoding(s: &str) -> Option<Bad> {
    let want = is_encoding(s);
    let made = match guard(|| XmlDecl::new(XmlVersion::V11, Some(s.to_string()), Some(true))) {
        Caught::Fine(x) => Some(x),
        // Refusing an encoding is done by a panic.
        Caught::Panicked(_) => None,
    };
    let bad = |t: String| Some(Bad::new(&["C17"], format!("encoding {:?} {}", s, t), String::new()));
    match made {
        None if want => bad("is refused".into()),
        None => None,
        Some(_) if !want => bad("is accepted".into()),
        Some(x) => {
            let t = format!("<?xml version=\"1.1\" encoding=\"{}\" standalone=\"yes\"?>", s);
            if x.encoding().as_deref() != Some(s) || x.to_string() != t || x.version() != XmlVersion::V11 || x.standalone() != Some(true) {
                bad(format!("gives {:?} {}", x, x))
            } else {
                None
            }
        }
    }
}

pub fn encodings(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let blocks = strings_upto(ENC.len() as u64, 3).div_ceil(100);
    let mut list = vec![];
    if idx < blocks {
        for i in idx * 100..(idx + 1) * 100 {
            list.push(nth_string(ENC, i));
        }
    } else {
        let b = (idx - blocks) * 8192;
        for cp in b..b + 8192 {
            if let Some(c) = char::from_u32(cp as u32) {
                // Outside the first block, a sample is enough.
                if cp < 8192 || cp % 61 == 0 {
                    list.push(c.to_string());
                    list.push(format!("a{}", c));
                }
            }
        }
    }
    for s in list {
        ctx.evals += 1;
        ctx.count("observations_compared", 1);
        if ctx.distinct.insert(hash_str(4, &s)) && s.len() > 2 {
            ctx.sample(|| format!("encoding {:?}", s));
        }
        if let Some(b) = one_encoding(&s) {
            return Some(b);
        }
        let v = XmlVersion::from_str(&s);
        if v.is_ok() {
            return Some(Bad::new(&["C17"], format!("version {:?} accepted", s), String::new()));
        }
    }
    None
}

const VER: &[char] = &['1', '.', '0', '2', ' ', '-'];
pub fn versions(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    for i in idx * 100..(idx + 1) * 100 {
        let s = nth_string(VER, i);
        ctx.evals += 1;
        ctx.count("observations_compared", 1);
        let _ = ctx.distinct.insert(hash_str(5, &s));
        let want = match s.as_str() {
            "1.0" => Ok(XmlVersion::V10),
            "1.1" => Ok(XmlVersion::V11),
            _ => Err(()),
        };
        let got = XmlVersion::from_str(&s);
        if got != want {
            return Some(Bad::new(&["C17"], format!("version {:?} gives {:?}", s, got), String::new()));
        }
        if let Ok(v) = got {
            if v.to_string() != s {
                return Some(Bad::new(&["C17"], format!("version {:?} is shown as {}", s, v), String::new()));
            }
        }
    }
    None
}
pub const VERSIONS: u64 = strings_upto(VER.len() as u64, 5).div_ceil(100);

/// Every combination of what can stand before the document's children, built as operations.
pub const PROLOGS: u64 = 2 * 4 * 3 * 6 * 4;
pub fn prologs(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let v11 = idx % 2;
    let enc = [None, Some("UTF-8"), Some("x.y_z-1"), Some("a")][(idx / 2 % 4) as usize];
    let sa = idx / 8 % 3;
    let dt = idx / 24 % 6;
    let kids = idx / 144 % 4;
    let mut o = vec![];
    let (p, s) = match dt {
        1 => (None, None),
        2 => (Some("pub id"), None),
        3 => (None, Some("http://x/y.dtd")),
        4 => (Some("p"), Some("s")),
        _ => (Some(""), Some("")),
    };
    let mut d = Op::new(K::CreateDoc).out(0).i(0, if kids % 2 == 0 { 4 } else { 7 }).i(1, (kids % 2 == 0) as u64);
    if dt > 0 {
        o.push(Op::new(K::CreateDocType).out(3).s(0, "t:n").so(1, p).so(2, s));
        d = d.n(0, 3);
    }
    if kids >= 2 {
        d = d.s(1, "root");
    }
    o.push(d);
    o.push(Op::new(K::CreateComment).n(0, 0).s(0, "one").out(5));
    o.push(Op::new(K::CreatePI).n(0, 0).s(0, "t").s(1, "two").out(6));
    o.push(Op::new(K::Append).n(0, 0).n(1, 5));
    if kids > 0 {
        o.push(Op::new(K::InsertBefore).n(0, 0).n(1, 6).n(2, 5));
    }
    o.push(decl_op(v11, enc, sa));
    o.push(Op::new(K::ReadAll).n(0, 0).s(0, "a"));
    if let Some(b) = ctx.history(&o, &FULL_CFG) {
        return Some(b);
    }
    // Setting it again replaces it, and it is what was set.
    o.push(decl_op(1 - v11, None, (sa + 1) % 3));
    if let Some(b) = ctx.history(&o, &FULL_CFG) {
        return Some(b);
    }
    o.push(decl_op(v11, enc, sa));
    ctx.history(&o, &FULL_CFG)
}

fn decl_op(v11: u64, enc: Option<&str>, sa: u64) -> Op {
    Op::new(K::SetDecl).n(0, 0).i(0, v11).i(1, sa).so(0, enc)
}

/// Entities and notations in all their forms.
pub const FORMS: u64 = 8 * 8 * 3;
pub fn forms(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    const IDS: &[Option<&str>] = &[None, Some(""), Some("p"), Some("pub id//EN"), Some("http://x/?a=b"), Some("é"), Some("'"), Some("&x;")];
    let p = IDS[(idx % 8) as usize];
    let s = IDS[(idx / 8 % 8) as usize];
    let o = vec![
        Op::new(K::CreateDoc).out(0).i(0, 4).i(1, 1),
        match idx / 64 {
            0 => Op::new(K::CreateEntity).n(0, 0).s(0, "e:n").so(1, p).so(2, s).out(5),
            1 => Op::new(K::CreateNotation).n(0, 0).s(0, "n").so(1, p).so(2, s).out(5),
            _ => Op::new(K::CreateInternalEntity).n(0, 0).s(0, "i").s(1, p.unwrap_or("v")).out(5),
        },
        Op::new(K::CreateEntRef).n(0, 0).s(0, "e:n").out(6),
        Op::new(K::CreateDocType).out(3).s(0, "q").so(1, p).so(2, s),
        Op::new(K::ReadAll).n(0, 5),
        Op::new(K::ReadAll).n(0, 3),
        Op::new(K::Clone).n(0, 5).i(0, 1).out(7),
    ];
    ctx.history(&o, &FULL_CFG)
}

// ------------------------------------------------------------------------------------------------
// C16: every pair of hostile strings in every place

pub const INJECTIONS: u64 = (BAD_VALUES.len() * BAD_VALUES.len()) as u64;
pub fn injections(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let a = BAD_VALUES[idx as usize % BAD_VALUES.len()];
    let b = BAD_VALUES[idx as usize / BAD_VALUES.len() % BAD_VALUES.len()];
    let on = |k: K, out: usize| Op::new(k).n(0, 0).out(out);
    let app = |p: usize, c: usize| Op::new(K::Append).n(0, p).n(1, c);
    let o = vec![
        Op::new(K::CreateDoc).out(0).i(0, 4).i(1, 1).s(1, "r"),
        Op::new(K::GetDocElement).n(0, 0).out(4),
        on(K::CreateText, 5).s(0, a),
        on(K::CreateText, 6).s(0, b),
        on(K::CreateComment, 7).s(0, a),
        on(K::CreateCData, 8).s(0, b),
        on(K::CreatePI, 9).s(0, "t").s(1, a),
        on(K::CreateElementNs, 10).s(0, "urn:n").s(1, "p:x"),
        on(K::CreateElement, 11).s(0, "y"),
        on(K::CreateEntRef, 12).s(0, "ref"),
        Op::new(K::SetAttribute).n(0, 10).s(0, "a").s(1, a),
        Op::new(K::SetAttribute).n(0, 10).s(0, "b").s(1, b),
        Op::new(K::SetAttributeNs).n(0, 4).s(0, XMLNS_NS).s(1, "xmlns:p").s(2, b),
        app(4, 10),
        app(10, 5),
        app(10, 6),
        app(10, 7),
        app(4, 8),
        app(4, 9),
        app(4, 12),
        app(4, 11),
        on(K::CreateComment, 13).s(0, b),
        app(0, 13),
        on(K::CreateAttrWith, 14).s(0, "q").s(1, a),
        on(K::CreateFragment, 15),
        on(K::CreateText, 16).s(0, b),
        app(15, 16),
        on(K::CreateElement, 17).s(0, "z"),
        app(15, 17),
    ];
    ctx.history(&o, &FULL_CFG)
}

// ------------------------------------------------------------------------------------------------
// C18: every operation on every pair of kinds

pub const MATRIX: u64 = (KINDS.len() * KINDS.len()) as u64;
pub fn matrix(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let (x, y) = (KINDS[idx as usize % 12], KINDS[idx as usize / 12 % 12]);
    for k in K::ALL {
        for form in 0..4u64 {
            let mut o = vec![Op::new(K::CreateDoc).out(0).i(0, 5), Op::new(K::CreateElement).n(0, 0).s(0, "e").out(20)];
            o.push(crate::families::make(x, 0, 5));
            o.push(crate::families::make(y, 0, 6));
            if form & 1 == 1 {
                o.push(Op::new(K::Append).n(0, 20).n(1, 5));
                o.push(Op::new(K::Append).n(0, 5).n(1, 6));
                o.push(Op::new(K::SetAttributeNode).n(0, 20).n(1, 5));
            }
            let (i, j, s, t, u) = match form {
                0 => (0, 0, "", "", ""),
                1 => (1, u64::MAX, "é", "urn:n1", "&"),
                2 => (u64::MAX, u64::MAX, "a", "b", "&#x"),
                _ => (2, 1, "*", "xmlns", "*"),
            };
            let mut op = Op::new(*k).n(0, 5).n(1, 6).i(0, i).i(1, j).s(0, s).s(1, t).s(2, u).out(8);
            if *k == K::SetDecl {
                op.s[0] = Some("UTF-8".into());
                op.i = [0, 1];
            }
            if *k == K::CreateDoc {
                op.i = [form * 2 % 8, 0];
                op = op.n(0, 6);
            }
            if matches!(k, K::InsertBefore | K::Replace) {
                op = op.n(0, 20).n(1, 5).n(2, 6);
                if form & 2 == 2 {
                    op = op.n(0, 5).n(1, 20);
                }
            }
            o.push(op);
            o.push(Op::new(K::ReadAll).n(0, 5).s(0, s).s(1, t).i(0, i).i(1, j));
            o.push(Op::new(K::Drop).n(0, 0));
            o.push(Op::new(K::ReadAll).n(0, 5).s(0, t).s(1, s).i(0, i).i(1, j));
            o.push(Op::new(K::ReadAll).n(0, 6).s(0, t).s(1, s));
            let b = ctx.history(&o, &FULL_CFG);
            if b.is_some() {
                return b;
            }
        }
    }
    None
}

/// Trees much deeper than any test builds: every reader and the walks over whole trees.
pub fn deep(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let depth = 100 + (idx as usize % 10) * 40;
    let wide = idx as usize / 10 % 4;
    ctx.evals += 1;
    ctx.count("deepest_tree", 0);
    let _ = ctx.distinct.insert(depth as u64 * 10 + wide as u64);
    ctx.sample(|| format!("a tree {} levels deep with {} extra children on each", depth, wide));
    safely(&["C18"], || format!("a tree {} levels deep", depth), move || {
        let bad = |t: String| Some(Bad::new(&["C18", "C13"], format!("a tree {} levels deep: {}", depth, t), String::new()));
        let d = get_implementation().create_document(None, Some("r"), None).unwrap();
        let dd = as_document(&d).unwrap();
        let mut top = dd.document_element().unwrap();
        let root = top.clone();
        let mut made = 1;
        for i in 0..depth {
            let mut e = dd.create_element("n").unwrap();
            as_element_mut(&mut e).unwrap().set_attribute("a", "v").unwrap();
            for _ in 0..wide {
                let _ = e.append_child(dd.create_text_node("t")).unwrap();
            }
            let _ = top.append_child(e.clone()).unwrap();
            if i % 17 == 3 && wide > 0 {
                let _ = top.append_child(dd.create_comment("c")).unwrap();
            }
            made += 1;
            top = e;
        }
        let n = dd.get_elements_by_tag_name("*").len();
        if n != made {
            return bad(format!("{} elements found, {} made", n, made));
        }
        if as_element(&root).unwrap().get_elements_by_tag_name_ns("*", "n").len() != depth {
            return bad("search by namespace misses elements".into());
        }
        let t = d.to_string();
        if t.matches("<n").count() != depth || t.matches("</n>").count() != depth {
            return bad("text form misses elements".into());
        }
        let mut r = root.clone();
        r.normalize();
        let c = r.clone_node(true).unwrap();
        if as_element(&c).unwrap().get_elements_by_tag_name("n").len() != depth {
            return bad("clone misses elements".into());
        }
        if r.first_child().unwrap().append_child(root.clone()).is_ok() || top.append_child(root.clone()).is_ok() {
            return bad("root inserted below itself".into());
        }
        let mut up = 0;
        let mut at = top.parent_node();
        while let Some(p) = at {
            at = p.parent_node();
            up += 1;
        }
        if up != depth + 1 {
            return bad(format!("{} ancestors", up));
        }
        // In two orders of letting go.
        if depth % 80 == 20 {
            drop(d);
            drop(root);
            drop(r);
            let _ = c.to_string();
            drop(c);
            let _ = top.node_name();
            drop(top);
        }
        None
    })
}

/// Letting go of a very deep tree.
pub fn drop_deep(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    // With little stack, instead of more levels: going through all levels above each would take too long then.
    let depth = 8_000 + 3_000 * (idx as usize % 5);
    let how = idx / 5 % 4;
    // Some or all levels by way of an entity reference in an attribute.
    let attrs = [0, 1, 2][(idx / 20) as usize % 3];
    ctx.evals += 1;
    let _ = ctx.distinct.insert(0x1000_0000 + depth as u64 * 100 + how * 10 + attrs);
    ctx.sample(|| format!("dropping a tree {} levels deep, way {}/{}", depth, how, attrs));
    on_little_stack(|| safely(&["C18", "C19"], || format!("dropping a tree {} levels deep", depth), move || {
        let d = get_implementation().create_document(None, Some("r"), None).unwrap();
        let root = as_document(&d).unwrap().document_element().unwrap();
        let mut weak = vec![d.clone().downgrade(), root.clone().downgrade()];
        let mut inner = as_document(&d).unwrap().create_element("leaf").unwrap();
        for i in 0..depth {
            // From the inside out: cheap for every way of checking for ancestors.
            let mut e = as_document(&d).unwrap().create_element("n").unwrap();
            if attrs == 2 || attrs == 1 && i % 2 == 0 {
                let mut a = as_document(&d).unwrap().create_attribute("b").unwrap();
                let mut x = as_document(&d).unwrap().create_entity_reference("x").unwrap();
                let _ = x.append_child(inner).unwrap();
                let _ = a.append_child(x).unwrap();
                let _ = as_element_mut(&mut e).unwrap().set_attribute_node(a).unwrap();
            } else {
                let _ = e.append_child(inner).unwrap();
            }
            if i % 1000 == 0 {
                as_element_mut(&mut e).unwrap().set_attribute("a", "v").unwrap();
                weak.push(e.clone().downgrade());
            }
            inner = e;
        }
        let mut root = root;
        match how {
            0 => {
                let _ = root.append_child(inner).unwrap();
                drop(root);
                drop(d);
            }
            1 => {
                let _ = root.append_child(inner.clone()).unwrap();
                drop(d);
                drop(root);
                drop(inner);
            }
            2 => {
                drop(inner);
                drop(d);
                drop(root);
            }
            _ => {
                let c = root.append_child(inner).unwrap();
                let _ = root.remove_child(c.clone()).unwrap();
                drop(root);
                drop(d);
                drop(c);
            }
        }
        let left = weak.into_iter().filter(|w| w.clone().upgrade().is_some()).count();
        if left > 0 {
            return Some(Bad::new(&["C19"], format!("{} of the nodes of a dropped tree {} levels deep are still there", left, depth), String::new()));
        }
        None
    }))
}

pub const GROWN: u64 = 4;
/// A very deep tree made from the outside in, which takes no time worth mentioning (nor much, if every step goes through all levels).
pub fn grow_deep(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let depth = 10_000;
    ctx.evals += 1;
    let _ = ctx.distinct.insert(0x2000_0000 + idx);
    ctx.sample(|| format!("a tree grown {} levels deep, way {}", depth, idx));
    on_little_stack(|| safely(&["C18"], || format!("growing a tree {} levels deep, way {}", depth, idx), move || {
        let d = get_implementation().create_document(None, Some("r"), None).unwrap();
        let dd = as_document(&d).unwrap();
        let mut at = dd.document_element().unwrap();
        for i in 0..depth {
            let mut e = dd.create_element("n").unwrap();
            if idx & 1 == 1 {
                as_element_mut(&mut e).unwrap().set_attribute("a", "v").unwrap();
            }
            let e = if idx & 2 == 0 { at.append_child(e).unwrap() } else { at.insert_before(e, at.first_child()).unwrap() };
            if i % 10_000 == 0 && e.parent_node().as_ref() != Some(&at) {
                return Some(Bad::new(&["C01"], format!("level {} is not in level {}", i + 1, i), String::new()));
            }
            at = e;
        }
        None
    }))
}

// ------------------------------------------------------------------------------------------------
// C19: what is allocated is released

fn replay_bare(ops: &[Op]) {
    let mut w = World::new(SLOTS);
    for o in ops {
        let _ = w.exec(o);
    }
}

/// A history made executable without a model: operations that the model would skip are gone already.
fn plain_history(ctx: &Ctx, idx: u64) -> Vec<Op> {
    let (mut p, _) = profile("C19");
    p.ops = (30, 80);
    Gen::new(&p, Rng::new(ctx.seed, "balance", idx)).history()
}

pub fn balance(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let ops = plain_history(ctx, idx);
    ctx.evals += 1;
    ctx.count("operations", ops.len() as u64 * 6);
    ctx.count("observations_compared", 6);
    let t = ops_text(&ops);
    if ctx.distinct.insert(hash_str(6, &t)) {
        ctx.sample(|| t.clone());
    }
    let mut live = vec![];
    for _ in 0..6 {
        match guard(|| replay_bare(&ops)) {
            Caught::Fine(()) => live.push(thread_live()),
            Caught::Panicked(s) => return Some(Bad::new(&["C18"], s, t)),
        }
    }
    // Caches may grow in the first runs; a leak grows every time.
    let mut small = ops.clone();
    if grows(&live) {
        let again = |o: &[Op]| {
            let v: Vec<i64> = (0..6)
                .map(|_| {
                    let _ = guard(|| replay_bare(o));
                    thread_live()
                })
                .collect();
            grows(&v)
        };
        if !again(&ops) {
            return None;
        }
        let mut i = small.len();
        while i > 0 {
            i -= 1;
            let mut s = small.clone();
            let _ = s.remove(i);
            // Only histories that still mean something.
            let mut m = Model::new(SLOTS);
            if s.iter().all(|o| {
                let p = m.apply(o);
                m.gc();
                !p.skip
            }) && again(&s)
            {
                small = s;
            }
        }
        return Some(Bad::new(&["C19"], format!("each run of the history leaves {} bytes allocated", live[5] - live[4]), ops_text(&small)));
    }
    None
}
fn grows(v: &[i64]) -> bool {
    v.windows(2).skip(1).all(|w| w[1] > w[0])
}

// A document that lives on while much is done in it.

const CHURNS: usize = 24;

fn churn_once(what: usize, d: &RefNode, perm: &[RefNode], other: &RefNode, i: u64) {
    let dd = as_document(d).unwrap();
    let s = format!("v{:08}", i);
    let mut root = perm[0].clone();
    let mut leaf = perm[1].clone();
    let mut text = perm[2].clone();
    let make = |n: &str| dd.create_element(n).unwrap();
    match what {
        0 => {
            let e = root.append_child(make("e")).unwrap();
            let _ = root.remove_child(e).unwrap();
        }
        1 => {
            let mut e = make("e");
            as_element_mut(&mut e).unwrap().set_attribute("xml:id", &s).unwrap();
            let _ = root.append_child(e.clone()).unwrap();
            let _ = root.remove_child(e).unwrap();
        }
        2 => as_element_mut(&mut leaf).unwrap().set_attribute("a", &s).unwrap(),
        3 => as_element_mut(&mut leaf).unwrap().set_attribute("xml:id", &s).unwrap(),
        4 => {
            let e = as_element_mut(&mut leaf).unwrap();
            e.set_attribute_ns(XMLNS_NS, &format!("xmlns:{}", s), &s).unwrap();
            e.remove_attribute(&format!("xmlns:{}", s)).unwrap();
        }
        5 => {
            let a = dd.create_attribute_with("n", &s).unwrap();
            let _ = as_element_mut(&mut leaf).unwrap().set_attribute_node(a).unwrap();
        }
        6 => {
            let _ = root.clone_node(true);
            let _ = root.clone_node(false);
        }
        7 => {
            let t = as_text_mut(&mut text).unwrap();
            t.insert_data(1, &s).unwrap();
            t.delete_data(1, s.len()).unwrap();
            t.replace_data(0, 1, "t").unwrap();
            t.append_data("z").unwrap();
            let n = t.length();
            t.delete_data(n - 1, 1).unwrap();
        }
        8 => {
            let n = as_text_mut(&mut text).unwrap().split(1).unwrap();
            drop(n);
            root.normalize();
            leaf.normalize();
        }
        9 => {
            let _ = (dd.get_elements_by_tag_name(&s).len(), dd.get_elements_by_tag_name_ns("*", &s).len());
            let _ = (d.to_string(), format!("{:?}", leaf).len(), leaf.child_nodes(), leaf.attributes(), leaf.parent_node());
        }
        10 => {
            let mut l = leaf.clone();
            let e = as_element_mut(&mut l).unwrap();
            let _ = (e.set_attribute(&format!("{}<", s), "x"), e.set_attribute_ns("", &s, "x"), leaf.append_child(root.clone()));
            let _ = (dd.create_element(&format!("{} ", s)), leaf.remove_child(root.clone()), root.insert_before(make("x"), Some(d.clone())));
            let _ = (as_text_mut(&mut text).unwrap().delete_data(1000, 1), dd.create_processing_instruction("xml", Some(&s)));
        }
        11 => {
            let c = dd.create_comment(&s);
            let at = leaf.first_child().unwrap();
            let old = leaf.replace_child(c.clone(), at.clone()).unwrap();
            let _ = leaf.replace_child(old, c).unwrap();
        }
        12 => {
            let mut f = dd.create_document_fragment().unwrap();
            let _ = f.append_child(dd.create_text_node(&s)).unwrap();
            let _ = root.append_child(f);
            let mut a = dd.create_attribute("e").unwrap();
            let mut x = dd.create_entity_reference("x").unwrap();
            let _ = x.append_child(make("y")).unwrap();
            let _ = a.append_child(x).unwrap();
            let _ = as_element_mut(&mut leaf).unwrap().set_attribute_node(a).unwrap();
        }
        13 => {
            let n = as_element_namespaced(&leaf).unwrap();
            let _ = (n.resolve_namespace(Some(&s)), n.resolve_prefix(&s), n.get_namespace(None), n.contains_mapping(Some(&s)), n.get_prefix(&s));
        }
        14 => {
            let i = get_implementation();
            let t = i.create_document_type(&s, Some(&s), Some(&s)).unwrap();
            let x = i.create_document(Some("urn:x"), Some(&s), Some(t)).unwrap();
            let _ = x.to_string();
        }
        15 => {
            text.set_node_value(&s).unwrap();
            text.unset_node_value().unwrap();
            text.set_node_value("text").unwrap();
        }
        16 => {
            let mut x = d.clone();
            let _ = as_document_decl_mut(&mut x).unwrap().set_xml_declaration(XmlDecl::new(XmlVersion::V10, None, Some(i % 2 == 0)));
        }
        17 => {
            let _ = (dd.get_element_by_id(&s), as_element(&leaf).unwrap().get_attribute(&s), as_element(&leaf).unwrap().has_attribute_ns(&s, &s));
        }
        18 => {
            let e = perm[3].clone();
            let _ = root.append_child(e.clone()).unwrap();
            let _ = leaf.insert_before(e, leaf.first_child()).unwrap();
        }
        19 => {
            let e = as_element_mut(&mut leaf).unwrap();
            e.set_attribute("xml:id", &s).unwrap();
            e.remove_attribute("xml:id").unwrap();
        }
        20 => {
            let _ = (leaf.append_child(other.clone()), as_element_mut(&mut leaf).unwrap().set_attribute_node(as_document(other).unwrap().create_attribute("w").unwrap()));
        }
        21 => {
            let e = as_element_mut(&mut root).unwrap();
            e.set_attribute_ns(&s, &format!("p:{}", s), &s).unwrap();
            e.remove_attribute_ns(&s, &s).unwrap();
        }
        22 => {
            let mut a = as_element(&leaf).unwrap().get_attribute_node("a").unwrap();
            a.set_node_value(&s).unwrap();
            let _ = as_element_mut(&mut leaf).unwrap().remove_attribute_node(a.clone()).unwrap();
            let _ = as_element_mut(&mut leaf).unwrap().set_attribute_node_ns(a).unwrap();
        }
        _ => {
            let mut e = make("e");
            as_element_mut(&mut e).unwrap().set_attribute("xml:id", &s).unwrap();
            as_element_mut(&mut e).unwrap().set_attribute_ns(XMLNS_NS, "xmlns:p", &s).unwrap();
            let mut c = e.clone_node(true).unwrap();
            let _ = e.append_child(make("f")).unwrap();
            let _ = c.append_child(e).unwrap();
        }
    }
}

/// What a living document uses depends on what is in it, not on how much was done before.
pub fn churn(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut r = Rng::new(ctx.seed, "churn", idx);
    let what: Vec<usize> = if (idx as usize) < CHURNS { vec![idx as usize] } else { (0..r.range(2, 5)).map(|_| r.below(CHURNS)).collect() };
    let (warm, more) = (200, 600);
    let body = format!("calls {:?}, each {} times in a document that lives on", what, warm + more);
    ctx.evals += 1;
    ctx.count("operations", (warm + more) * what.len() as u64);
    ctx.count("observations_compared", 1);
    if ctx.distinct.insert(hash_str(9, &body)) {
        ctx.sample(|| body.clone());
    }
    let bits = r.below(4);
    let res = guard(|| {
        let mut o = ProcessingOptions::new();
        if bits & 1 == 0 {
            o.set_add_namespaces();
        }
        if bits & 2 == 0 {
            o.set_assume_ids();
        }
        let d = extdom::get_implementation_ext().create_document_with_options(None, Some("r"), None, o).unwrap();
        let other = doc();
        let mut root = as_document(&d).unwrap().document_element().unwrap();
        let mut leaf = root.append_child(as_document(&d).unwrap().create_element("leaf").unwrap()).unwrap();
        let text = leaf.append_child(as_document(&d).unwrap().create_text_node("text")).unwrap();
        let rover = root.append_child(as_document(&d).unwrap().create_element("rover").unwrap()).unwrap();
        as_element_mut(&mut leaf).unwrap().set_attribute("a", "v").unwrap();
        let perm = [root, leaf, text, rover];
        let mut i = 0;
        let mut rounds = |n: u64| {
            for _ in 0..n {
                for w in &what {
                    i += 1;
                    churn_once(*w, &d, &perm, &other, i);
                }
            }
            thread_live()
        };
        let a = rounds(warm);
        let b = rounds(more);
        b - a
    });
    match res {
        // Less than one small block each time is noise: tables that grow to their final size.
        Caught::Fine(n) if n < 8 * more as i64 => None,
        Caught::Fine(n) => Some(Bad::new(&["C19"], format!("{} more bytes are in use after {} rounds of calls that leave nothing behind", n, more), body)),
        Caught::Panicked(s) => Some(Bad::new(&["C18"], s, body)),
    }
}

// ------------------------------------------------------------------------------------------------
// C20: documents do not influence each other

pub fn outcome(r: &R<RVal>) -> String {
    match r {
        Ok(RVal::Unit) => "ok".into(),
        Ok(RVal::Node(n)) => format!("node {}", n.node_name()),
        Ok(RVal::OptNode(n)) => format!("{:?}", n.as_ref().map(|n| n.node_name().to_string())),
        Ok(RVal::Str(s)) => s.clone(),
        Err(e) => format!("{:?}", e),
    }
}

fn one_doc_history(ctx: &Ctx, stream: &str, idx: u64) -> Vec<Op> {
    let (mut p, _) = profile("C20");
    p.docs = 1;
    p.ops = (20, 50);
    p = p.without(&[K::CreateDoc]);
    Gen::new(&p, Rng::new(ctx.seed, stream, idx)).history()
}

/// Almost the same history.
fn twin(ctx: &Ctx, a: &[Op], idx: u64) -> Vec<Op> {
    let (p, _) = profile("C20");
    let mut g = Gen::new(&p, Rng::new(ctx.seed, "twin", idx));
    for op in a {
        let o = if g.r.chance(1, 4) { g.alter(op) } else { op.clone() };
        if !g.r.chance(1, 16) {
            let _ = g.push(o);
        }
    }
    g.ops
}

/// Everything that can be seen of the slots.
fn everything(w: &World, ops: &[Op]) -> Vec<String> {
    let mut pool = strings(ops);
    pool.truncate(6);
    facts(&w.slots, &pool, &mut Rng::new(1, "order", 0))
}

fn run_alone(ops: &[Op]) -> (Vec<String>, Vec<String>) {
    let mut w = World::new(SLOTS);
    let mut a = vec![];
    for o in ops {
        let r = w.exec(o);
        a.push(outcome(&r));
    }
    (a, everything(&w, ops))
}

/// Two histories over separate documents, interleaved, answer what each answers alone.
pub fn interleave(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let a = one_doc_history(ctx, "left", idx);
    let b = if idx % 2 == 0 { one_doc_history(ctx, "right", idx) } else { twin(ctx, &a, idx) };
    let mut r = Rng::new(ctx.seed, "merge", idx);
    ctx.evals += 1;
    ctx.count("operations", (a.len() + b.len()) as u64);
    ctx.count("observations_compared", (a.len() + b.len()) as u64);
    let body = format!("# left\n{}# right\n{}", ops_text(&a), ops_text(&b));
    if ctx.distinct.insert(hash_str(7, &body)) {
        ctx.sample(|| body.clone());
    }
    let res = guard(|| {
        // A thread of its own knows nothing of other documents.
        let fresh = |h: &Vec<Op>| {
            std::thread::scope(|s| match s.spawn(|| guard(|| run_alone(h))).join().unwrap() {
                Caught::Fine(x) => x,
                Caught::Panicked(t) => panic!("{}", t),
            })
        };
        let alone = [fresh(&a), fresh(&b)];
        let mut w = [World::new(SLOTS), World::new(SLOTS)];
        let mut at = [0, 0];
        let mut got = [vec![], vec![]];
        let l = [&a, &b];
        while at[0] < a.len() || at[1] < b.len() {
            let s = if at[0] >= a.len() {
                1
            } else if at[1] >= b.len() {
                0
            } else {
                r.below(2)
            };
            let x = w[s].exec(&l[s][at[s]]);
            got[s].push(outcome(&x));
            at[s] += 1;
        }
        for s in 0..2 {
            for (i, (x, y)) in got[s].iter().zip(&alone[s].0).enumerate() {
                if x != y {
                    return Some(format!("operation {} of history {} answers {} next to another document, {} alone", i, s, x, y));
                }
            }
            let d = everything(&w[s], l[s]);
            if d != alone[s].1 {
                let at = d.iter().zip(&alone[s].1).position(|(x, y)| x != y).unwrap_or(0);
                return Some(format!("history {} ends with {:?} next to another document, {:?} alone", s, d.get(at), alone[s].1.get(at)));
            }
        }
        None
    });
    match res {
        Caught::Fine(None) => None,
        Caught::Fine(Some(t)) => Some(Bad::new(&["C20"], t, body)),
        Caught::Panicked(s) => Some(Bad::new(&["C18"], s, body)),
    }
}

/// The same histories in four threads at once as one after the other.
pub fn threads(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    const T: u64 = 4;
    let hs: Vec<Vec<Op>> = (0..T).map(|t| one_doc_history(ctx, "thread", idx * T + t)).collect();
    ctx.evals += 1;
    ctx.count("operations", hs.iter().map(|h| h.len() as u64).sum::<u64>() * 9);
    ctx.count("threads_run", T);
    ctx.count("observations_compared", hs.iter().map(|h| h.len() as u64).sum::<u64>() * 8);
    let body = hs.iter().map(|h| ops_text(h)).collect::<Vec<_>>().join("# next thread\n");
    if ctx.distinct.insert(hash_str(8, &body)) {
        ctx.sample(|| body.clone());
    }
    let alone: Vec<_> = match guard(|| hs.iter().map(|h| run_alone(h)).collect()) {
        Caught::Fine(v) => v,
        Caught::Panicked(s) => return Some(Bad::new(&["C18"], s, body)),
    };
    let start = std::sync::Barrier::new(T as usize);
    let bad = std::thread::scope(|s| {
        let l: Vec<_> = hs
            .iter()
            .zip(&alone)
            .map(|(h, want)| {
                let start = &start;
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let _ = start.wait();
                        for round in 0..8 {
                            match guard(|| run_alone(h)) {
                                Caught::Fine(x) => {
                                    if &x != want {
                                        return Some(format!("round {} answers differently while other threads use other documents", round));
                                    }
                                }
                                Caught::Panicked(s) => return Some(s),
                            }
                        }
                        None
                    })
                    .unwrap()
            })
            .collect();
        l.into_iter().find_map(|h| h.join().unwrap())
    });
    bad.map(|t| Bad::new(&["C20"], t, body))
}

// ------------------------------------------------------------------------------------------------
// C25: options and features

fn opt_bits(o: &ProcessingOptions) -> u64 {
    o.has_assume_ids() as u64 | (o.has_parse_entities() as u64) << 1 | (o.has_add_namespaces() as u64) << 2
}
fn opt_set(o: &mut ProcessingOptions, i: u64) {
    match i {
        0 => o.set_assume_ids(),
        1 => o.set_parse_entities(),
        _ => o.set_add_namespaces(),
    }
}
const ONAMES: [&str; 3] = ["AssumeIDs", "ParseEntities", "AddNamespaces"];

fn check_options(o: &ProcessingOptions, want: u64, how: &str) -> Option<Bad> {
    let bad = |t: String| Some(Bad::new(&["C25"], format!("{}: {}", how, t), String::new()));
    if opt_bits(o) != want {
        return bad(format!("options {:03b}, expected {:03b}", opt_bits(o), want));
    }
    if o.has_none() != (want == 0) {
        return bad(format!("has_none is {}", o.has_none()));
    }
    let names: Vec<&str> = (0..3).filter(|i| want >> i & 1 == 1).map(|i| ONAMES[i]).collect();
    let t = o.to_string();
    if t != format!("ProcessingOptions {{{}}}", names.join(", ")) {
        return bad(format!("shown as {}", t));
    }
    // The binary form: one bit for each option, whichever.
    let num = |o: &ProcessingOptions| u64::from_str_radix(&format!("{:b}", o), 2).unwrap_or(u64::MAX);
    let mut all = 0;
    for i in 0..3 {
        let mut x = ProcessingOptions::new();
        opt_set(&mut x, i);
        let n = num(&x);
        if n.count_ones() != 1 || all & n != 0 {
            return bad(format!("option {} has the binary form {:b}", i, x));
        }
        if want >> i & 1 == 1 {
            all |= n;
        }
    }
    let mut fresh = ProcessingOptions::new();
    for i in 0..3 {
        if want >> i & 1 == 1 {
            opt_set(&mut fresh, i);
        }
    }
    if &fresh != o || o.clone() != fresh || (want != 0 && o == &ProcessingOptions::new()) {
        return bad("is not equal to the same options set one by one".into());
    }
    if format!("{:b}", o) != format!("{:08b}", all_bits(want)) || format!("{:#b}", o) != format!("{:#010b}", all_bits(want)) {
        return bad(format!("binary forms {:b} {:#b}", o, o));
    }
    None
}
fn all_bits(want: u64) -> u64 {
    let num = |o: &ProcessingOptions| u64::from_str_radix(&format!("{:b}", o), 2).unwrap_or(u64::MAX);
    (0..3)
        .filter(|i| want >> i & 1 == 1)
        .map(|i| {
            let mut x = ProcessingOptions::new();
            opt_set(&mut x, i);
            num(&x)
        })
        .fold(0, |a, b| a | b)
}

pub const OPTION_SEQS: u64 = 400;
/// All unions and intersections of all sets, and random sequences.
pub fn option_sets(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut r = Rng::new(ctx.seed, "options", idx);
    safely(&["C25"], || format!("options, case {}", idx), || {
        if idx < 64 {
            let (a, b) = (idx % 8, idx / 8);
            let (x, y) = (options(a), options(b));
            ctx.evals += 3;
            ctx.count("observations_compared", 9);
            let _ = ctx.distinct.insert(idx);
            return check_options(&x, a, "set")
                .or_else(|| check_options(&(x.clone() | y.clone()), a | b, &format!("{:03b} | {:03b}", a, b)))
                .or_else(|| check_options(&(x & y), a & b, &format!("{:03b} & {:03b}", a, b)))
                .or_else(|| check_options(&ProcessingOptions::default(), 0, "default"));
        }
        let mut o = ProcessingOptions::new();
        let mut w = 0;
        let mut how = String::new();
        for _ in 0..r.range(1, 12) {
            match r.below(5) {
                3 => {
                    let x = r.below(8) as u64;
                    o = o | options(x);
                    w |= x;
                    how += &format!(" |{:03b}", x);
                }
                4 => {
                    let x = r.below(8) as u64;
                    o = o & options(x);
                    w &= x;
                    how += &format!(" &{:03b}", x);
                }
                i => {
                    opt_set(&mut o, i as u64);
                    w |= 1 << i;
                    how += &format!(" +{}", i);
                }
            }
            ctx.count("observations_compared", 3);
            let b = check_options(&o, w, &how);
            if b.is_some() {
                return b;
            }
        }
        ctx.evals += 1;
        if ctx.distinct.insert(hash_str(9, &how)) {
            ctx.sample(|| format!("options:{}", how));
        }
        None
    })
}

const FEATURES: &[&str] = &["Core", "XML", "core", "xml", "CORE", "Xml", "HTML", "Events", "", " Core", "Core ", "XMLX", "COREXML", "Views", "+XML", "*", "DocumentLS", "LS", "Coré"];
const FVERSIONS: &[&str] = &["1.0", "2.0", "3.0", "", "1", "2", "1.00", "1.1", "2.0 ", " 2.0", "02.0", "*", "1.0.0", "2,0", "null"];
pub const FEATURE_CASES: u64 = 20;
/// Every node of every kind answers like the implementation.
pub fn features(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    safely(&["C25"], || "feature query".into(), || {
        let mut w = World::new(SLOTS);
        let _ = w.exec(&Op::new(K::CreateDoc).out(0).i(0, idx % 8));
        for (i, k) in KINDS.iter().enumerate() {
            let _ = w.exec(&crate::families::make(*k, 0, 4 + i));
        }
        if idx % 2 == 1 {
            w.slots[0] = None;
        }
        for f in FEATURES {
            for v in FVERSIONS {
                let want = (*f == "Core" || *f == "XML") && (*v == "1.0" || *v == "2.0");
                let bad = |t: String| Some(Bad::new(&["C25"], format!("feature {:?} {:?}: {}", f, v, t), String::new()));
                ctx.evals += 1;
                let _ = ctx.distinct.insert(hash_str(hash_str(10, f), v));
                ctx.count("observations_compared", 15);
                if get_implementation().has_feature(f, v) != want || extdom::get_implementation_ext().has_feature(f, v) != want {
                    return bad(format!("expected {}", want));
                }
                for n in w.slots.iter().flatten() {
                    if n.is_supported(f, v) != want {
                        return bad(format!("{:?} node does not answer {}", n.node_type(), want));
                    }
                    if let Ok(d) = as_document(n) {
                        if d.implementation().has_feature(f, v) != want {
                            return bad(format!("the document's implementation does not answer {}", want));
                        }
                    }
                }
            }
        }
        let v = xml_dom::level2::dom_impl::get_implementation_version();
        if v.split(':').next() != Some("xml_dom") || v.split(':').count() != 2 || v.ends_with(':') {
            return Some(Bad::new(&["C25"], format!("the implementation calls itself {:?}", v), String::new()));
        }
        ctx.sample(|| "every listed feature and version asked from every kind of node".into());
        None
    })
}

/// What the options mean for a document, whatever later happens to the value they came in.
pub const LIFE: u64 = 8 * 8 * 2;
pub fn option_life(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let (a, b, how) = (idx % 8, idx / 8 % 8, idx / 64);
    ctx.evals += 1;
    ctx.count("observations_compared", 8);
    let _ = ctx.distinct.insert(hash_str(idx, "life"));
    safely(&["C25"], || format!("document with options {:03b}", a), || {
        let mut o = options(a);
        let d = extdom::get_implementation_ext().create_document_with_options(None, Some("r"), None, o.clone()).unwrap();
        // Change the value, and make another document with it.
        for i in 0..3 {
            if b >> i & 1 == 1 {
                opt_set(&mut o, i)
            }
        }
        let e = extdom::get_implementation_ext().create_document_with_options(None, Some("r"), None, o.clone()).unwrap();
        drop(o);
        for (d, w) in if how == 0 { [(&d, a), (&e, a | b)] } else { [(&e, a | b), (&d, a)] } {
            let dd = as_document(d).unwrap();
            let mut root = dd.document_element().unwrap();
            for round in 0..2 {
                let el = as_element_mut(&mut root).unwrap();
                el.set_attribute("id", "one").unwrap();
                el.set_attribute_ns(XML_NS, "xml:id", "two").unwrap();
                el.set_attribute_ns(XMLNS_NS, "xmlns:p", "urn:p").unwrap();
                let lax = dd.get_element_by_id("one").is_some();
                let strict = dd.get_element_by_id("two").is_some();
                let n = xml_dom::level2::ext::convert::as_element_namespaced(&root).unwrap();
                let ns = n.get_namespace(Some("p")).is_some();
                let has = n.contains_mapping(Some("p"));
                let rs = n.resolve_namespace(Some("p")).is_some();
                let rp = n.resolve_prefix("urn:p").is_some();
                let want_ns = w & 4 != 0;
                if lax != (w & 1 != 0) || !strict || [ns, has, rs, rp].iter().any(|x| *x != want_ns) {
                    return Some(Bad::new(
                        &["C25"],
                        format!("a document made with options {:03b} (round {}): id found {}, xml:id found {}, namespaces {} {} {} {}", w, round, lax, strict, ns, has, rs, rp),
                        String::new(),
                    ));
                }
                let el = as_element_mut(&mut root).unwrap();
                el.remove_attribute("id").unwrap();
                el.remove_attribute("xml:id").unwrap();
                el.remove_attribute("xmlns:p").unwrap();
                if round == 0 {
                    let mut x = d.clone();
                    xml_dom::level2::ext::convert::as_document_decl_mut(&mut x).unwrap().set_xml_declaration(XmlDecl::default()).unwrap();
                    x.normalize();
                }
            }
        }
        None
    })
}

// ------------------------------------------------------------------------------------------------
// C26 and C09 also as plain calls

/// Length and substrings by brute force on strings of every width of character.
pub fn substrings(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    const CH: &[char] = &['a', 'é', '日', '𐀀', '&', '<', ' '];
    let per = 40;
    for i in idx * per..(idx + 1) * per {
        let s = nth_string(CH, i);
        ctx.evals += 1;
        if ctx.distinct.insert(hash_str(11, &s)) && s.len() > 5 {
            ctx.sample(|| format!("all ranges of {:?}", s));
        }
        let mut seen = 0;
        let b = safely(&["C09"], || format!("character data {:?}", s), || {
            let d = doc();
            let dd = as_document(&d).unwrap();
            let bad = |t: String| Some(Bad::new(&["C09"], format!("{:?}: {}", s, t), String::new()));
            for (k, n) in [dd.create_text_node(&s), dd.create_cdata_section(&s).unwrap(), dd.create_comment(&s)].iter().enumerate() {
                let c = as_character_data(n).unwrap();
                let len = s.len();
                for from in 0..len + 2 {
                    for count in (0..len + 2).chain([usize::MAX, usize::MAX - from, usize::MAX / 2]) {
                        let end = from.saturating_add(count).min(len);
                        let ok = from <= len && s.is_char_boundary(from) && s.is_char_boundary(end);
                        seen += 1;
                        let got = c.substring_data(from, count);
                        match got {
                            Ok(x) => {
                                if if ok { x != s[from..end] } else { count != 0 || !x.is_empty() } {
                                    return bad(format!("substring_data({}, {}) of node {} is {:?}", from, count, k, x));
                                }
                            }
                            Err(e) => {
                                if ok || e != Error::IndexSize {
                                    return bad(format!("substring_data({}, {}) of node {} is Err({:?})", from, count, k, e));
                                }
                            }
                        }
                    }
                }
            }
            None
        });
        ctx.count("observations_compared", seen);
        if b.is_some() {
            return b;
        }
    }
    None
}
pub const SUBSTRINGS_QUICK: u64 = strings_upto(7, 3).div_ceil(40);
pub const SUBSTRINGS_THOROUGH: u64 = strings_upto(7, 5).div_ceil(40);

#[allow(dead_code)]
pub const NOTHING: Cfg = Cfg { slots: SLOTS, ids: 0, ns: 0, search: 0, twice: false, display: false, prop: "", sparse: 0, tail: 0 };
