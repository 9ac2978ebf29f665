//! Thousands of children, identifiers and attributes, and very long strings: more than any table,
//! counter or buffer that was meant for ordinary sizes would hold. What is expected is a plain list.
use crate::ctx::{Bad, Ctx};
use crate::exec::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::runner::{guard, Caught};
use crate::xmlread::{read, Item};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::as_element_namespaced;
use xml_dom::level2::ext::dom_impl as extdom;
use xml_dom::level2::ext::ProcessingOptions;
use xml_dom::level2::*;

const SIZES: &[usize] = &[
    1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10_000, 12_000, 16_384, 16_385, 20_000, 32_767, 32_768, 32_769,
    65_535, 65_536, 65_537, 70_000,
];
const SHAPES: u64 = 5;

type Fail = (&'static [&'static str], String);
type Res = std::result::Result<u64, Fail>;

macro_rules! ask {
    ($n:expr, $tags:expr, $ok:expr, $($f:tt)*) => {
        $n += 1;
        if !$ok {
            return Err((&$tags, format!($($f)*)));
        }
    };
}

/// Some ways to write the library take a time that grows with the square of the size, which is no fault; then, do less.
struct Clock(std::time::Instant);
impl Clock {
    fn start() -> Clock {
        Clock(std::time::Instant::now())
    }
    fn past(&self, seconds: u64) -> bool {
        self.0.elapsed().as_secs() >= seconds
    }
}

/// Places where something could go wrong in a list of `n`.
fn places(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
    let mut p = 256;
    while p <= n + 1 {
        v.extend([p - 2, p - 1, p, p + 1]);
        p *= 2;
    }
    v.extend((0..6).map(|_| r.below(n)));
    v.retain(|i| *i < n);
    v.sort_unstable();
    v.dedup();
    v
}

fn check_list(p: &RefNode, want: &[RefNode], r: &mut Rng, n: &mut u64, when: &str) -> std::result::Result<(), Fail> {
    let real = p.child_nodes();
    ask!(*n, ["C02", "C01"], real == want, "{}: the child list is not as expected ({} children, {} expected)", when, real.len(), want.len());
    ask!(*n, ["C01"], p.first_child().as_ref() == want.first() && p.last_child().as_ref() == want.last(), "{}: first or last child", when);
    if want.is_empty() {
        return Ok(());
    }
    let mut at = places(r, want.len());
    if at.len() > 24 {
        at = (0..24).map(|_| *r.pick(&at)).collect();
    }
    for i in at {
        let c = &want[i];
        ask!(*n, ["C01"], c.parent_node().as_ref() == Some(p), "{}: parent of child {}", when, i);
        ask!(*n, ["C01"], c.next_sibling().as_ref() == want.get(i + 1), "{}: next sibling of child {} of {}", when, i, want.len());
        let prev = if i == 0 { None } else { want.get(i - 1) };
        ask!(*n, ["C01"], c.previous_sibling().as_ref() == prev, "{}: previous sibling of child {} of {}", when, i, want.len());
    }
    Ok(())
}

fn children(r: &mut Rng, size: usize) -> Res {
    let mut n = 0;
    let clock = Clock::start();
    let mut size = size;
    let mut o = ProcessingOptions::new();
    o.set_add_namespaces();
    let d = extdom::get_implementation_ext().create_document_with_options(None, Some("r"), None, o).unwrap();
    let dd = as_document(&d).unwrap();
    let mut root = dd.document_element().unwrap();
    let only = if r.chance(1, 3) { Some(r.below(6)) } else { None };
    let mut list: Vec<RefNode> = vec![];
    for i in 0..size {
        if i % 256 == 255 && clock.past(4) {
            size = i;
            break;
        }
        let c = match only.unwrap_or_else(|| r.below(6)) {
            0 | 1 => dd.create_element(if i % 3 == 0 { "a" } else { "b" }).unwrap(),
            2 => dd.create_element_ns("urn:n", "p:a").unwrap(),
            3 => dd.create_comment(&i.to_string()),
            4 => dd.create_cdata_section(&i.to_string()).unwrap(),
            _ => dd.create_text_node(&format!("t{}", i)),
        };
        let got = root.append_child(c.clone()).unwrap();
        ask!(n, ["C02"], got == c, "append answers another node");
        list.push(c);
    }
    check_list(&root, &list, r, &mut n, "after appending")?;
    // Edits at all the places.
    for i in places(r, size) {
        let c = dd.create_comment("new");
        let got = root.insert_before(c.clone(), Some(list[i].clone())).unwrap();
        ask!(n, ["C02"], got == c, "insert answers another node");
        list.insert(i, c);
    }
    check_list(&root, &list, r, &mut n, "after inserting")?;
    for i in places(r, list.len()) {
        let c = dd.create_element("a").unwrap();
        let got = root.replace_child(c.clone(), list[i].clone()).unwrap();
        ask!(n, ["C02"], got == list[i] && got.parent_node().is_none(), "replace answers another node");
        list[i] = c;
    }
    check_list(&root, &list, r, &mut n, "after replacing")?;
    for i in places(r, list.len() / 2).into_iter().rev() {
        let got = root.remove_child(list[i].clone()).unwrap();
        ask!(n, ["C02"], got == list[i] && got.parent_node().is_none(), "remove answers another node");
        let _ = list.remove(i);
    }
    for _ in 0..12 {
        let at = places(r, list.len());
        let (i, j) = (*r.pick(&at), *r.pick(&at));
        if i != j {
            let before = list[j].clone();
            let c = list.remove(i);
            let got = root.insert_before(c.clone(), Some(before.clone())).unwrap();
            ask!(n, ["C02"], got == c, "a move answers another node");
            let k = list.iter().position(|x| x == &before).unwrap();
            list.insert(k, c);
        }
    }
    check_list(&root, &list, r, &mut n, "after removing and moving")?;
    let stranger = dd.create_comment("x");
    ask!(n, ["C04", "C03"], root.insert_before(dd.create_comment("y"), Some(stranger.clone())).err() == Some(Error::NotFound), "a reference that is not a child");
    ask!(n, ["C04", "C03"], root.remove_child(stranger).err() == Some(Error::NotFound), "removing what is not a child");
    ask!(n, ["C04", "C03"], list[list.len() - 1].clone().append_child(root.clone()).is_err(), "a parent below its child");
    // What goes through all of them.
    let whole = |n: usize| n < 33_000 && !clock.past(6);
    let named = |f: &dyn Fn(&Name) -> bool| -> Vec<RefNode> { list.iter().filter(|c| c.node_type() == NodeType::Element && f(&c.node_name())).cloned().collect() };
    let el = as_element(&root).unwrap();
    for q in ["a", "p:a", "*", "b", "q"] {
        if !whole(size) {
            break;
        }
        let want = named(&|x| q == "*" || x.to_string() == q);
        let got = el.get_elements_by_tag_name(q);
        ask!(n, ["C13"], got == want, "search for {:?} among {} children finds {}, expected {}", q, list.len(), got.len(), want.len());
        let all = dd.get_elements_by_tag_name(q);
        ask!(n, ["C13"], all.len() == want.len() + (q == "*") as usize && all.ends_with(&want), "search of the document for {:?} finds {}", q, all.len());
    }
    for (u, l) in [("urn:n", "a"), ("*", "a"), ("*", "*"), ("urn:n", "*"), ("urn:m", "a")] {
        if !whole(size) {
            break;
        }
        let want = named(&|x| (u == "*" || x.namespace_uri().as_deref() == Some(u)) && (l == "*" || x.local_name() == l));
        let got = el.get_elements_by_tag_name_ns(u, l);
        ask!(n, ["C13"], got == want, "search for {:?} {:?} among {} children finds {}, expected {}", u, l, list.len(), got.len(), want.len());
    }
    // Text form.
    let mut items: Vec<Item> = vec![];
    for c in &list {
        match c.node_type() {
            NodeType::Element => items.push(Item::Elem { name: c.node_name().to_string(), attrs: Default::default(), children: vec![] }),
            NodeType::Comment => items.push(Item::Comment(c.node_value().unwrap())),
            NodeType::CData => items.push(Item::CData(c.node_value().unwrap())),
            _ => match items.last_mut() {
                Some(Item::Text(t)) => t.push_str(&c.node_value().unwrap()),
                _ => items.push(Item::Text(c.node_value().unwrap())),
            },
        }
    }
    if whole(size) {
        let got = read(&root.to_string());
        ask!(n, ["C16"], got == Ok(vec![Item::Elem { name: "r".into(), attrs: Default::default(), children: items.clone() }]), "the text form of {} children is of another tree", list.len());
    }
    // Clone.
    let c = root.clone_node(true).unwrap();
    let copies = c.child_nodes();
    ask!(n, ["C14"], copies.len() == list.len(), "the clone has {} children of {}", copies.len(), list.len());
    for (i, (x, y)) in copies.iter().zip(&list).enumerate() {
        let same = x != y && x.node_type() == y.node_type() && x.node_name() == y.node_name() && x.node_value() == y.node_value();
        ask!(n, ["C14"], same, "child {} of the clone", i);
        ask!(n, ["C01", "C14"], x.parent_node().as_ref() == Some(&c), "child {} of the clone has another parent", i);
        ask!(n, ["C05", "C14"], x.owner_document().as_ref() == Some(&d), "child {} of the clone has another owner", i);
    }
    ask!(n, ["C14"], root.clone_node(false).unwrap().child_nodes().is_empty(), "a shallow clone has children");
    // Normal form.
    let normal = whole(size);
    if normal {
        root.normalize();
    }
    let real = root.child_nodes();
    let mut k = 0;
    let mut text = String::new();
    let mut last_text = false;
    for c in real.iter().take(if normal { real.len() } else { 0 }) {
        let is_text = c.node_type() == NodeType::Text;
        ask!(n, ["C10"], !(is_text && last_text), "adjacent text remains among {}", real.len());
        last_text = is_text;
        if is_text {
            text = c.node_value().unwrap_or_default();
            ask!(n, ["C10"], !text.is_empty(), "empty text remains");
        } else {
            let mut was = String::new();
            while list[k].node_type() == NodeType::Text {
                was.push_str(&list[k].node_value().unwrap_or_default());
                k += 1;
            }
            let _ = was;
            ask!(n, ["C10"], &list[k] == c, "normalising loses or moves a node at {}", k);
            k += 1;
        }
    }
    let _ = text;
    let got = if normal && whole(size) { Some(read(&root.to_string())) } else { None };
    ask!(n, ["C10", "C16"], got.is_none() || got == Some(Ok(vec![Item::Elem { name: "r".into(), attrs: Default::default(), children: items }])), "normalising {} children changes text", list.len());
    // All of them go elsewhere, from either end.
    drop(list);
    let mut list = real;
    let mut to = dd.create_element("to").unwrap();
    let some: Vec<RefNode> = if r.chance(1, 2) { list.split_off(list.len() - list.len().min(400)) } else { list.drain(..list.len().min(400)).collect() };
    for c in &some {
        let got = to.append_child(c.clone()).unwrap();
        ask!(n, ["C02"], &got == c, "a move answers another node");
    }
    check_list(&to, &some, r, &mut n, "after moving many")?;
    check_list(&root, &list, r, &mut n, "after many have left")?;
    // Who stays.
    let weak: Vec<_> = list.iter().map(|c| c.clone().downgrade()).collect();
    let gone: Vec<_> = some.iter().map(|c| c.clone().downgrade()).collect();
    drop((some, to, copies, c));
    drop(list);
    for (i, w) in gone.into_iter().enumerate() {
        ask!(n, ["C19"], w.upgrade().is_none(), "node {} of a dropped tree is still there", i);
    }
    for (i, w) in weak.iter().enumerate() {
        ask!(n, ["C19"], w.clone().upgrade().is_some(), "child {} is gone although its parent is held", i);
    }
    drop((root, d));
    for (i, w) in weak.into_iter().enumerate() {
        ask!(n, ["C19"], w.upgrade().is_none(), "child {} of a dropped tree is still there", i);
    }
    Ok(n)
}

fn identifiers(r: &mut Rng, size: usize) -> Res {
    let mut n = 0;
    let clock = Clock::start();
    let mut size = size;
    let assume = r.chance(1, 2);
    let mut o = ProcessingOptions::new();
    if assume {
        o.set_assume_ids();
    }
    let d = extdom::get_implementation_ext().create_document_with_options(None, Some("r"), None, o).unwrap();
    let dd = as_document(&d).unwrap();
    let root = dd.document_element().unwrap();
    let q = if assume { "id" } else { "xml:id" };
    let long = r.chance(1, 3);
    let id = |i: usize| if long { format!("identifier-with-a-long-name-{:x}-of-an-element", i) } else { format!("i{}", i) };
    let attached = r.chance(1, 2);
    let mut top = root.clone();
    let mut held: Vec<RefNode> = vec![];
    for i in 0..size {
        if i % 256 == 255 && clock.past(4) {
            size = i;
            break;
        }
        let mut e = dd.create_element("e").unwrap();
        as_element_mut(&mut e).unwrap().set_attribute(q, &id(i)).map_err(|x| -> Fail { (&["C11"], format!("identifier {} of {} is refused: {:?}", i, size, x)) })?;
        if attached {
            let _ = top.append_child(e.clone()).unwrap();
        }
        held.push(e);
    }
    let look = |held: &[RefNode], n: &mut u64, when: &str| -> std::result::Result<(), Fail> {
        for (i, e) in held.iter().enumerate() {
            ask!(*n, ["C11"], dd.get_element_by_id(&id(i)).as_ref() == Some(e), "{}: identifier {} of {} is not found", when, i, size);
        }
        Ok(())
    };
    look(&held, &mut n, "after setting")?;
    for i in places(r, size) {
        let mut e = dd.create_element("e").unwrap();
        let el = as_element_mut(&mut e).unwrap();
        ask!(n, ["C11", "C03"], el.set_attribute(q, &id(i)).err() == Some(Error::Syntax), "identifier {} of {} can be set twice", i, size);
        ask!(n, ["C03"], !e.attributes().values().any(|_| true), "a refused identifier is there");
        as_element_mut(&mut held[i]).unwrap().set_attribute(q, &id(i)).map_err(|x| -> Fail { (&["C11"], format!("identifier {} again on its element: {:?}", i, x)) })?;
    }
    look(&held, &mut n, "after attempts")?;
    // Some lose theirs, or are dropped; others may have it then.
    let at = places(r, size);
    for (k, i) in at.iter().enumerate() {
        let mut e = dd.create_element("e").unwrap();
        match k % 3 {
            0 => as_element_mut(&mut held[*i]).unwrap().remove_attribute(q).unwrap(),
            1 => as_element_mut(&mut held[*i]).unwrap().set_attribute(q, &format!("other{}", i)).unwrap(),
            _ => {
                if attached {
                    let _ = top.remove_child(held[*i].clone()).unwrap();
                }
                let gone = std::mem::replace(&mut held[*i], root.clone());
                let w = gone.clone().downgrade();
                drop(gone);
                ask!(n, ["C19"], w.upgrade().is_none(), "a dropped element with an identifier is still there");
            }
        }
        ask!(n, ["C11"], dd.get_element_by_id(&id(*i)).is_none(), "identifier {} is found although it was given up", i);
        as_element_mut(&mut e).unwrap().set_attribute(q, &id(*i)).map_err(|x| -> Fail { (&["C11"], format!("identifier {} of {}, given up by another, is refused: {:?}", i, size, x)) })?;
        held[*i] = e;
    }
    look(&held, &mut n, "after reuse")?;
    // Many more come and go.
    for i in 0..size {
        if i % 256 == 255 && clock.past(8) {
            break;
        }
        let mut e = dd.create_element("e").unwrap();
        as_element_mut(&mut e).unwrap().set_attribute(q, &format!("x{}", i)).unwrap();
    }
    look(&held, &mut n, "after others came and went")?;
    ask!(n, ["C11"], dd.get_element_by_id("x1").is_none() && dd.get_element_by_id(&id(size)).is_none(), "an identifier nothing has is found");
    Ok(n)
}

fn long_string(r: &mut Rng, size: usize) -> String {
    let parts: &[&str] = match r.below(4) {
        0 => &["a"],
        1 => &["ab", "é", "日", "𐀀"],
        2 => &["&", "<", ">", "'", "\"", "x"],
        _ => &["a", "&#65;", "&amp;", "\r\n", "\n", "\t", " ", "é", "<", "&#x1F600;"],
    };
    let mut s = String::new();
    while s.len() < size {
        s.push_str(parts[r.below(parts.len())]);
    }
    s
}

fn strings(r: &mut Rng, size: usize) -> Res {
    let mut n = 0;
    let d = get_implementation().create_document(None, Some("r"), None).unwrap();
    let dd = as_document(&d).unwrap();
    let mut root = dd.document_element().unwrap();
    let mut s = long_string(r, size);
    // Something special at a place that matters.
    for i in places(r, size) {
        if r.chance(1, 4) && s.is_char_boundary(i) {
            s.insert_str(i, r.pick(&["&", "<", "&#66;", "\r\n", "é", "]]>", "--"]));
        }
    }
    let mut data = s.replace("]]>", "]] >");
    let mut nodes = [dd.create_text_node(&data), dd.create_cdata_section(&data).unwrap(), dd.create_comment(&data)];
    for _ in 0..30 {
        let at = places(r, data.len());
        let (mut from, mut count) = (*r.pick(&at), *r.pick(&at));
        if r.chance(1, 2) {
            while !data.is_char_boundary(from) {
                from -= 1;
            }
            while !data.is_char_boundary((from + count).min(data.len())) {
                count -= 1;
            }
        }
        let end = (from + count).min(data.len());
        let new = *r.pick(&["", "x", "日本", "&", "<"]);
        let want = data.get(from..end).map(|x| x.to_string());
        let how = r.below(4);
        let mut next = data.clone();
        if want.is_some() {
            match how {
                1 => next.replace_range(from..end, ""),
                2 => next.replace_range(from..end, new),
                3 => next.insert_str(from, new),
                _ => (),
            }
        } else if how == 3 && data.is_char_boundary(from) {
            next.insert_str(from, new);
        }
        for c in nodes.iter_mut() {
            let t = as_character_data_mut(c).unwrap();
            let got = match how {
                0 => match t.substring_data(from, count) {
                    Ok(x) => {
                        ask!(n, ["C09"], Some(&x) == want.as_ref() || count == 0 && x.is_empty(), "substring {}+{} of {} bytes", from, count, data.len());
                        continue;
                    }
                    Err(e) => Err(e),
                },
                1 => t.delete_data(from, count),
                2 => t.replace_data(from, count, new),
                _ => t.insert_data(from, new),
            };
            let fine = if how == 3 { data.is_char_boundary(from) } else { want.is_some() };
            let nothing = (how == 1 || how == 0) && count == 0 || how == 3 && new.is_empty();
            ask!(n, ["C09"], got.is_ok() == fine || nothing, "edit {} at {}+{} of {} bytes answers {:?}", how, from, count, data.len(), got);
        }
        data = next;
        for c in &nodes {
            let len = as_character_data(c).unwrap().data().map_or(0, |x| x.len());
            ask!(n, ["C09"], c.node_value().as_deref() == Some(&data) && as_character_data(c).unwrap().length() == len, "data after edit {} at {}+{} of {} bytes", how, from, count, data.len());
        }
    }
    for (k, c) in nodes.iter().enumerate() {
        let shown = as_character_data(c).unwrap().data();
        let want = if k == 1 { data.clone() } else { escape(&data) };
        ask!(n, ["C09"], shown.as_deref() == Some(&want), "reported data of {} bytes", data.len());
    }
    // Text forms.
    let text = nodes[0].clone();
    for c in &nodes {
        let _ = root.append_child(c.clone()).unwrap();
    }
    let mut want = vec![Item::Text(data.clone()), Item::CData(data.clone()), Item::Comment(escape(&data))];
    let got = read(&root.to_string());
    if !data.contains("]]>") && !data.contains("--") {
        ask!(n, ["C16"], got == Ok(vec![Item::Elem { name: "r".into(), attrs: Default::default(), children: want.clone() }]), "the text form of {} bytes reads back differently", data.len());
    }
    // Split and join.
    let mut cut = vec![];
    let mut at = places(r, data.len());
    at.retain(|i| data.is_char_boundary(*i));
    let mut rest = data.clone();
    let mut t = text.clone();
    let mut offset = 0;
    for i in at {
        let i = i - offset;
        let new = as_text_mut(&mut t).unwrap().split(i).map_err(|e| -> Fail { (&["C10"], format!("split at {} of {} bytes: {:?}", i, rest.len(), e)) })?;
        let tail = rest.split_off(i);
        ask!(n, ["C10"], t.node_value().as_deref() == Some(&rest) && new.node_value().as_deref() == Some(&tail), "split at {}", i);
        ask!(n, ["C10", "C01"], t.next_sibling() == Some(new.clone()), "split at {}: not the next sibling", i);
        cut.push(t);
        offset += i;
        t = new;
        rest = tail;
    }
    root.normalize();
    let first = root.first_child().unwrap();
    let joined = if data.is_empty() { None } else { first.node_value() };
    ask!(n, ["C10"], joined.as_deref() == Some(&data), "cut into {} and joined again", cut.len() + 1);
    ask!(n, ["C10"], root.child_nodes().len() == 3, "{} children after joining", root.child_nodes().len());
    // Attribute values.
    want.clear();
    let e = as_element_mut(&mut root).unwrap();
    e.set_attribute("a", &s).map_err(|x| -> Fail { (&["C08"], format!("a value of {} bytes: {:?}", s.len(), x)) })?;
    let value = escape(&normalize_attr(&s));
    ask!(n, ["C08"], e.get_attribute("a").as_deref() == Some(&value), "the value of an attribute of {} bytes", s.len());
    let mut empty = root.clone_node(false).unwrap();
    ask!(n, ["C14"], as_element(&empty).unwrap().get_attribute("a").as_deref() == Some(&value), "the value of a cloned attribute of {} bytes", s.len());
    let back = read(&empty.to_string());
    let attrs = [("a".to_string(), normalize_attr(&s))].into_iter().collect();
    ask!(n, ["C16"], back == Ok(vec![Item::Elem { name: "r".into(), attrs, children: vec![] }]), "an attribute of {} bytes reads back differently", s.len());
    // Names.
    let q = format!("p:{}", "n".repeat(size));
    let x = dd.create_element_ns("urn:n", &q).map_err(|x| -> Fail { (&["C15"], format!("a name of {} bytes: {:?}", q.len(), x)) })?;
    ask!(n, ["C15"], x.node_name().to_string() == q && x.node_name().local_name() == &q[2..], "a name of {} bytes", q.len());
    ask!(n, ["C15"], dd.create_element(&format!("{} ", &q[2..])).is_err() && dd.create_element(&format!("{}:", q)).is_err(), "a bad name of {} bytes", q.len());
    let _ = empty.append_child(x);
    Ok(n)
}

fn attributes(r: &mut Rng, size: usize) -> Res {
    let mut n = 0;
    // One at a time looks at all of them.
    let size = 300 + size % 1700;
    let mut o = ProcessingOptions::new();
    o.set_add_namespaces();
    let d = extdom::get_implementation_ext().create_document_with_options(None, Some("r"), None, o).unwrap();
    let dd = as_document(&d).unwrap();
    let mut root = dd.document_element().unwrap();
    let kind = r.below(3);
    let name = |i: usize| match kind {
        0 => (None, format!("a{}", i)),
        1 => (Some(format!("urn:n{}", i)), format!("p{}:a", i)),
        _ => (Some(XMLNS_NS.to_string()), format!("xmlns:p{}", i)),
    };
    let set = |e: &mut RefNode, i: usize, v: &str| {
        let (u, q) = name(i);
        let e = as_element_mut(e).unwrap();
        match u {
            None => e.set_attribute(&q, v),
            Some(u) => e.set_attribute_ns(&u, &q, v),
        }
        .map_err(|x| -> Fail { (&["C06"], format!("attribute {} is refused: {:?}", i, x)) })
    };
    let mut want: Vec<Option<String>> = vec![];
    for i in 0..size {
        let v = format!("urn:v{}", i);
        set(&mut root, i, &v)?;
        want.push(Some(v));
    }
    let check = |e: &RefNode, want: &[Option<String>], n: &mut u64, tags: &'static [&'static str], when: &str| -> std::result::Result<(), Fail> {
        let el = as_element(e).unwrap();
        let map = e.attributes();
        let there = want.iter().flatten().count();
        *n += 1;
        if map.len() != there {
            return Err((tags, format!("{}: {} attributes, {} expected", when, map.len(), there)));
        }
        for (i, w) in want.iter().enumerate() {
            if i > 40 && i % 16 != 0 && i + 40 < want.len() {
                continue;
            }
            let (u, q) = name(i);
            let l = q.rsplit(':').next().unwrap().to_string();
            let got = el.get_attribute(&q);
            *n += 2;
            if &got != w || el.has_attribute(&q) != w.is_some() {
                return Err((tags, format!("{}: {:?} is {:?}, expected {:?}", when, q, got, w)));
            }
            if let Some(u) = &u {
                if &el.get_attribute_ns(u, &l) != w || el.has_attribute_ns(u, &l) != w.is_some() {
                    return Err((tags, format!("{}: {:?} {:?}, expected {:?}", when, u, l, w)));
                }
            }
            if let Some(a) = el.get_attribute_node(&q) {
                if as_attribute(&a).unwrap().owner_element().as_ref() != Some(e) {
                    return Err((&["C07"], format!("{}: {:?} has another owner element", when, q)));
                }
            }
            if kind == 2 {
                let ns = as_element_namespaced(e).unwrap();
                let p = format!("p{}", i);
                if &ns.get_namespace(Some(&p)) != w || &ns.resolve_namespace(Some(&p)) != w || ns.contains_mapping(Some(&p)) != w.is_some() {
                    return Err((&["C12"], format!("{}: mapping of {:?}, expected {:?}", when, p, w)));
                }
                if let Some(w) = w {
                    if ns.get_prefix(w).some().as_deref() != Some(&p) {
                        return Err((&["C12"], format!("{}: prefix of {:?}, expected {:?}", when, w, p)));
                    }
                }
            }
        }
        Ok(())
    };
    check(&root, &want, &mut n, &["C06"], "after setting")?;
    for i in places(r, size) {
        match r.below(3) {
            0 => {
                let v = format!("urn:other{}", i);
                set(&mut root, i, &v)?;
                want[i] = Some(v);
            }
            1 => {
                as_element_mut(&mut root).unwrap().remove_attribute(&name(i).1).unwrap();
                want[i] = None;
            }
            _ => {
                let a = as_element(&root).unwrap().get_attribute_node(&name(i).1);
                if let Some(a) = a {
                    let got = as_element_mut(&mut root).unwrap().remove_attribute_node(a.clone()).unwrap();
                    ask!(n, ["C07"], got == a && as_attribute(&a).unwrap().owner_element().is_none(), "attribute {} keeps its owner", i);
                    if r.chance(1, 2) {
                        let _ = as_element_mut(&mut root).unwrap().set_attribute_node(a).unwrap();
                    } else {
                        want[i] = None;
                    }
                }
            }
        }
    }
    check(&root, &want, &mut n, &["C06"], "after changes")?;
    let c = root.clone_node(r.chance(1, 2)).unwrap();
    check(&c, &want, &mut n, &["C14"], "the clone")?;
    let got = read(&c.to_string());
    let attrs = want.iter().enumerate().filter_map(|(i, w)| Some((name(i).1, w.clone()?))).collect();
    ask!(n, ["C16"], got == Ok(vec![Item::Elem { name: "r".into(), attrs, children: vec![] }]), "the text form of {} attributes", size);
    let weak: Vec<_> = root.attributes().values().map(|a| a.clone().downgrade()).collect();
    drop(d);
    ask!(n, ["C19"], weak.iter().all(|w| w.clone().upgrade().is_some()), "an attribute is gone although its element is held");
    drop(root);
    ask!(n, ["C19"], weak.into_iter().all(|w| w.upgrade().is_none()), "an attribute of a dropped element is still there");
    Ok(n)
}

/// Many documents, one after the other and side by side.
fn documents(r: &mut Rng, size: usize) -> Res {
    let mut n = 0;
    let mut keep: Vec<(RefNode, u64, usize)> = vec![];
    let check = |d: &RefNode, bits: u64, i: usize, n: &mut u64| -> std::result::Result<(), Fail> {
        let dd = as_document(d).unwrap();
        let mut root = dd.document_element().unwrap();
        let what = format!("r{}", i);
        ask!(*n, ["C20", "C24"], root.node_name().to_string() == what, "the element of document {} is {}", i, root.node_name());
        let e = as_element_mut(&mut root).unwrap();
        e.set_attribute("id", "one").unwrap();
        e.set_attribute_ns(XMLNS_NS, "xmlns:p", "urn:p").unwrap();
        let lax = dd.get_element_by_id("one").is_some();
        let ns = as_element_namespaced(&root).unwrap();
        let tracks = [ns.contains_mapping(Some("p")), ns.get_namespace(Some("p")).is_some(), ns.resolve_namespace(Some("p")).is_some(), ns.resolve_prefix("urn:p").is_some()];
        ask!(*n, ["C25", "C20", "C11"], lax == (bits & 1 == 1), "document {} made with options {:03b}: identifier found {}", i, bits, lax);
        ask!(*n, ["C25", "C20", "C12"], tracks.iter().all(|x| *x == (bits & 4 == 4)), "document {} made with options {:03b}: namespaces {:?}", i, bits, tracks);
        ask!(*n, ["C20"], read(&d.to_string()).is_ok_and(|x| x.len() == 1), "document {} has other content", i);
        Ok(())
    };
    for i in 0..200 + size % 500 {
        let bits = r.below(8) as u64;
        let mut o = ProcessingOptions::new();
        if bits & 1 == 1 {
            o.set_assume_ids();
        }
        if bits & 2 == 2 {
            o.set_parse_entities();
        }
        if bits & 4 == 4 {
            o.set_add_namespaces();
        }
        let d = extdom::get_implementation_ext().create_document_with_options(None, Some(&format!("r{}", i)), None, o).unwrap();
        check(&d, bits, i, &mut n)?;
        if r.chance(1, 3) {
            keep.push((d, bits, i));
        }
        if keep.len() > 20 {
            let _ = keep.swap_remove(r.below(20));
        }
        if !keep.is_empty() && r.chance(1, 4) {
            let (d, b, k) = r.pick(&keep);
            check(d, *b, *k, &mut n)?;
        }
    }
    for (d, b, k) in &keep {
        check(d, *b, *k, &mut n)?;
    }
    Ok(n)
}

pub fn expanse(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut r = Rng::new(ctx.seed, "expanse", idx);
    let size = SIZES[(idx * 7 + 5) as usize % SIZES.len()];
    let (what, f): (_, fn(&mut Rng, usize) -> Res) = match (ctx.prop, idx % SHAPES) {
        // Each property sees more of what concerns it.
        ("C11", _) => ("identifiers", identifiers),
        ("C09" | "C08" | "C15", _) => ("bytes", strings),
        ("C06" | "C07" | "C12", 0..=2) => ("attributes", attributes),
        ("C02" | "C01" | "C13", 0..=2) => ("children", children),
        ("C20" | "C25", _) => ("documents", documents),
        (_, 0) => ("children", children),
        (_, 1) => ("identifiers", identifiers),
        (_, 2) => ("bytes", strings),
        (_, 3) => ("attributes", attributes),
        _ => ("documents", documents),
    };
    ctx.evals += 1;
    let _ = ctx.distinct.insert(0x4000_0000 + idx);
    ctx.sample(|| format!("about {} {}, {}", size, what, idx));
    ctx.count("large_cases", 1);
    match guard(|| f(&mut r, size)) {
        Caught::Fine(Ok(n)) => {
            ctx.count("observations_compared", n);
            None
        }
        Caught::Fine(Err((tags, t))) => Some(Bad::new(tags, format!("with about {} {}: {}", size, what, t), String::new())),
        Caught::Panicked(s) => Some(Bad::new(&["C18"], format!("with about {} {}: {}", size, what, s), String::new())),
    }
}
