//! Many threads which do the same small thing to documents of their own over and over, so that whatever
//! they might share without meaning to is shared at every moment. The answers are known beforehand.
use crate::ctx::{Bad, Ctx};

use crate::oracle::*;
use crate::rng::{hash_str, Rng};
use crate::runner::{guard, Caught};
use std::sync::atomic::{AtomicBool, Ordering};
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::{as_document_decl_mut, as_element_namespaced};
use xml_dom::level2::ext::dom_impl as extdom;
use xml_dom::level2::ext::{ProcessingOptions, XmlDecl, XmlVersion};
use xml_dom::level2::*;

use std::str::FromStr;

pub const KINDS: u64 = 22;
const THREADS: u64 = 8;

/// What a thread works with: a document of its own, and strings of its own.
struct Mine {
    d: RefNode,
    /// Options of the document: namespaces, identifiers.
    ns: bool,
    ids: bool,
    t: u64,
}

fn mine(t: u64, salt: u64) -> Mine {
    let (ns, ids) = ((t + salt) % 2 == 0, (t / 2 + salt) % 2 == 0);
    let mut o = ProcessingOptions::new();
    if ns {
        o.set_add_namespaces();
    }
    if ids {
        o.set_assume_ids();
    }
    let d = extdom::get_implementation_ext().create_document_with_options(None, None, None, o).unwrap();
    Mine { d, ns, ids, t }
}

/// One round: what was got and what it should be.
fn once(m: &Mine, kind: u64, round: u64) -> (String, String) {
    let t = m.t;
    let d = as_document(&m.d).unwrap();
    // Some strings are the same in all threads, others have the same length, others another one.
    let v = match round % 4 {
        0 => "same".to_string(),
        1 => format!("v{}{}", t, round % 10),
        2 => format!("w{}", "x".repeat(t as usize * 3 + 1)),
        _ => format!("u{}{}", round % 7, t),
    };
    let el = |n: &str| d.create_element(n).unwrap();
    match kind {
        0 => {
            let n = Name::from_str(&format!("{}:l{}", v, t));
            (format!("{:?}", n.map(|n| (n.prefix().clone(), n.local_name().clone(), n.to_string())).map_err(|_| ())), format!("{:?}", Ok::<_, ()>((Some(v.clone()), format!("l{}", t), format!("{}:l{}", v, t)))))
        }
        1 => {
            let ns = format!("urn:{}", t);
            let e = d.create_element_ns(&ns, &format!("{}:l", v)).unwrap().node_name();
            (format!("{:?} {:?} {:?}", e.namespace_uri(), e.prefix(), e.local_name()), format!("{:?} {:?} {:?}", Some(&ns), Some(&v), "l"))
        }
        2 => {
            let a = d.create_attribute_with("a", &format!(" {}\t&#{};\r\n<{} ", v, 65 + t, t)).unwrap();
            (format!("{:?}", a.node_value()), format!("{:?}", Some(format!("{} {} &#60;{}", v, (65 + t as u8) as char, t))))
        }
        3 => {
            let x = d.create_text_node(&format!("{}<{}&", v, t));
            (x.to_string(), format!("{}&#60;{}&#38;", v, t))
        }
        4 => {
            let mut e = el(&v);
            as_element_mut(&mut e).unwrap().set_attribute("a", &v).unwrap();
            let _ = e.append_child(d.create_text_node(&v)).unwrap();
            let _ = e.append_child(d.create_comment(&v)).unwrap();
            (e.to_string(), format!("<{v} a=\"{v}\">{v}<!--{v}--></{v}>"))
        }
        5 => {
            let mut e = el("e");
            let l = as_element_mut(&mut e).unwrap();
            let n = format!("a{}", t);
            l.set_attribute(&n, "first").unwrap();
            l.set_attribute(&n, &v).unwrap();
            let other = l.get_attribute(&format!("a{}", t + 1));
            let mine = l.get_attribute(&n);
            l.remove_attribute(&n).unwrap();
            (format!("{:?} {:?} {}", mine, other, l.has_attribute(&n)), format!("{:?} None false", Some(&v)))
        }
        6 => {
            let mut e = el("e");
            let uri = format!("urn:{}", v);
            as_element_mut(&mut e).unwrap().set_attribute_ns(XMLNS_NS, "xmlns:p", &uri).unwrap();
            let c = e.append_child(el("c")).unwrap();
            let n = as_element_namespaced(&c).unwrap();
            let want = if m.ns { Some(uri.clone()) } else { None };
            (format!("{:?} {}", n.resolve_namespace(Some("p")), n.resolve_prefix(&uri).is_some()), format!("{:?} {}", want, m.ns))
        }
        7 => {
            let mut e = el("e");
            as_element_mut(&mut e).unwrap().set_attribute("id", &v).unwrap();
            let found = d.get_element_by_id(&v) == Some(e.clone());
            as_element_mut(&mut e).unwrap().remove_attribute("id").unwrap();
            (format!("{} {}", found, d.get_element_by_id(&v).is_some()), format!("{} false", m.ids))
        }
        8 => {
            let mut e = el("e");
            for i in 0..6 {
                let _ = e.append_child(el(if i % 2 == t as usize % 2 { &v } else { "other" })).unwrap();
            }
            let l = as_element(&e).unwrap().get_elements_by_tag_name(&v);
            let k = as_element(&e).unwrap().get_elements_by_tag_name_ns("*", &v);
            let places: Vec<_> = l.iter().map(|x| e.child_nodes().iter().position(|c| c == x)).collect();
            let at = t as usize % 2;
            (format!("{:?} {}", places, l == k), format!("{:?} true", [Some(at), Some(at + 2), Some(at + 4)]))
        }
        9 => {
            let mut e = el(&v);
            as_element_mut(&mut e).unwrap().set_attribute("a", &v).unwrap();
            let _ = e.append_child(el("c")).unwrap();
            let c = e.clone_node(true).unwrap();
            (format!("{} {}", c, c == e), format!("<{v} a=\"{v}\"><c></c></{v}> false"))
        }
        10 => {
            let mut e = el("e");
            let mut x = e.append_child(d.create_text_node(&format!("{}{}", v, t))).unwrap();
            let y = as_text_mut(&mut x).unwrap().split(v.len()).unwrap();
            let two = (x.node_value(), y.node_value());
            e.normalize();
            (format!("{:?} {:?} {}", two, e.first_child().and_then(|c| c.node_value()), e.child_nodes().len()), format!("{:?} {:?} 1", (Some(&v), Some(t.to_string())), Some(format!("{}{}", v, t))))
        }
        11 => {
            let enc = format!("E{}", v);
            let (ver, name) = if t % 2 == 0 { (XmlVersion::V10, "1.0") } else { (XmlVersion::V11, "1.1") };
            let mut doc = m.d.clone();
            as_document_decl_mut(&mut doc).unwrap().set_xml_declaration(XmlDecl::new(ver, Some(enc.clone()), Some(t % 3 == 0))).unwrap();
            (m.d.to_string(), format!("<?xml version=\"{}\" encoding=\"{}\" standalone=\"{}\"?>", name, enc, if t % 3 == 0 { "yes" } else { "no" }))
        }
        12 => {
            let i = get_implementation();
            let y = i.create_document_type(&v, Some(&format!("p{}", t)), Some(&v)).unwrap();
            let n = extdom::create_notation(m.d.clone(), &v, None, Some(&v)).unwrap();
            (format!("{} {}", y, n), format!("<!DOCTYPE {v} PUBLIC \"p{t}\" SYSTEM \"{v}\"> <!NOTATION {v} SYSTEM \"{v}\">"))
        }
        13 => {
            let mut e = el("e");
            let l: Vec<_> = (0..4).map(|i| e.append_child(d.create_comment(&format!("{}{}", v, i))).unwrap()).collect();
            let at = t as usize % 3;
            let _ = e.insert_before(l[3].clone(), Some(l[at].clone())).unwrap();
            let mut want: Vec<_> = l[..3].to_vec();
            want.insert(at, l[3].clone());
            let links = e.child_nodes().windows(2).all(|w| w[0].next_sibling().as_ref() == Some(&w[1]) && w[1].previous_sibling().as_ref() == Some(&w[0]));
            (format!("{} {} {:?}", e.child_nodes() == want, links, e.child_nodes()[at].node_value()), format!("true true {:?}", Some(format!("{}3", v))))
        }
        14 => {
            let mut o = ProcessingOptions::new();
            let mut want = Vec::new();
            for (i, n) in ["AssumeIDs", "ParseEntities", "AddNamespaces"].iter().enumerate() {
                if (t + round) >> i & 1 == 1 {
                    match i {
                        0 => o.set_assume_ids(),
                        1 => o.set_parse_entities(),
                        _ => o.set_add_namespaces(),
                    }
                    want.push(*n);
                }
            }
            let f = if t % 2 == 0 { "Core" } else { "HTML" };
            (format!("{} {}", o, m.d.is_supported(f, "2.0")), format!("ProcessingOptions {{{}}} {}", want.join(", "), t % 2 == 0))
        }
        15 => {
            let mut x = d.create_comment(&format!("{}{}", v, t));
            let c = as_character_data_mut(&mut x).unwrap();
            c.insert_data(v.len(), "<").unwrap();
            c.replace_data(0, 1, "é").unwrap();
            let s = c.substring_data(2, 2).unwrap();
            c.delete_data(0, 2).unwrap();
            c.append_data("!").unwrap();
            let whole = format!("é{}<{}", &v[1..], t);
            (format!("{:?} {:?}", s, x.node_value()), format!("{:?} {:?}", &whole[2..4.min(whole.len())], Some(format!("{}!", &whole[2..]))))
        }
        16 => {
            let other = mine(t, round);
            let mut e = as_document(&other.d).unwrap().create_element("e").unwrap();
            as_element_mut(&mut e).unwrap().set_attribute_ns(XMLNS_NS, "xmlns:p", "urn:p").unwrap();
            as_element_mut(&mut e).unwrap().set_attribute("id", "i").unwrap();
            let found = as_document(&other.d).unwrap().get_element_by_id("i").is_some();
            (format!("{} {}", as_element_namespaced(&e).unwrap().contains_mapping(Some("p")), found), format!("{} {}", other.ns, other.ids))
        }
        17 => {
            let bad = ["a b", "", "a:", "1x", "a:b:c", "x"][(t as usize + round as usize) % 6];
            let want = match bad {
                "a b" | "1x" => "Some(InvalidCharacter)",
                "x" => "None",
                _ => "Some(Syntax)",
            };
            (format!("{:?}", d.create_element(bad).err()), want.to_string())
        }
        18 => {
            let x = match t % 3 {
                0 => d.create_text_node(&v),
                1 => d.create_comment(&v),
                _ => el(&v),
            };
            (format!("{} {} {} {:?}", as_text(&x).is_ok(), as_comment(&x).is_ok(), as_element(&x).is_ok(), x.node_name().local_name()), format!("{} {} {} {:?}", t % 3 == 0, t % 3 == 1, t % 3 == 2, ["#text", "#comment", &v][t as usize % 3]))
        }
        19 => {
            let mut n = Name::new_ns(format!("urn:{}", t), format!("p:{}", v)).unwrap();
            let ok = n.set_prefix(Some(&format!("q{}", t))).is_ok();
            let refused = n.set_prefix(Some("xml")).is_err();
            (format!("{} {} {}", ok, refused, n), format!("true true q{}:{}", t, v))
        }
        20 => {
            let mut p = d.create_processing_instruction(&v, Some(&v)).unwrap();
            let shown = p.to_string();
            p.unset_node_value().unwrap();
            (format!("{} {}", shown, p), format!("<?{v} {v}?> <?{v}?>"))
        }
        _ => {
            let mut e = el("e");
            let a = d.create_attribute_with("a", &v).unwrap();
            let _ = as_element_mut(&mut e).unwrap().set_attribute_node(a.clone()).unwrap();
            let own = as_attribute(&a).unwrap().owner_element() == Some(e.clone());
            let mut f = el("f");
            let refused = as_element_mut(&mut f).unwrap().set_attribute_node(a.clone()).err();
            drop(e);
            (format!("{} {:?} {} {}", own, refused, as_attribute(&a).unwrap().owner_element().is_none(), a.owner_document() == Some(m.d.clone())), "true Some(InUseAttribute) true true".to_string())
        }
    }
}

pub fn storm(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let mut r = Rng::new(ctx.seed, "storm", idx);
    let kind = idx % KINDS;
    // All the same, or each thread something else.
    let mixed = idx / KINDS % 3 == 2;
    let salt = r.below(4) as u64;
    let rounds = if ctx.thorough { 20_000u64 } else { 6_000 };
    let of = |t: u64| if mixed { (kind + t * 5) % KINDS } else { kind };
    let body = format!("{} threads, {} rounds each, of the calls {}\n", THREADS, rounds, (0..THREADS).map(|t| of(t).to_string()).collect::<Vec<_>>().join(" "));
    ctx.evals += 1;
    if ctx.distinct.insert(hash_str(77, &format!("{}{}{}", kind, mixed, salt))) {
        ctx.sample(|| body.clone());
    }
    ctx.count("threads_run", THREADS);
    ctx.count("operations", THREADS * rounds * 5);
    ctx.count("observations_compared", THREADS * rounds);
    // Alone, each of them is what it should be; if it is not, that is not for isolation to say.
    let alone = guard(|| (0..THREADS).all(|t| {
        let m = mine(t, salt);
        (0..40).all(|i| {
            let (got, want) = once(&m, of(t), i);
            got == want
        })
    }));
    match alone {
        Caught::Fine(true) => {}
        Caught::Fine(false) => {
            ctx.count("not_right_alone", 1);
            return None;
        }
        Caught::Panicked(s) => return Some(Bad::new(&["C18"], s, body)),
    }
    let start = std::sync::Barrier::new(THREADS as usize);
    let stop = AtomicBool::new(false);
    let bad = std::thread::scope(|s| {
        let l: Vec<_> = (0..THREADS)
            .map(|t| {
                let (start, stop) = (&start, &stop);
                let k = of(t);
                s.spawn(move || {
                    let _ = start.wait();
                    let res = guard(|| {
                        let mut m = mine(t, salt);
                        for i in 0..rounds {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let (got, want) = once(&m, k, i);
                            if got != want {
                                return Some(format!("round {} of call {} in thread {}: {} while other threads use other documents, {} alone", i, k, t, got, want));
                            }
                            if i % 500 == 499 {
                                m = mine(t, salt);
                            }
                        }
                        None
                    });
                    let res = match res {
                        Caught::Fine(x) => x,
                        Caught::Panicked(s) => Some(format!("call {} in thread {} while other threads use other documents: {}", k, t, s)),
                    };
                    if res.is_some() {
                        stop.store(true, Ordering::Relaxed);
                    }
                    res
                })
            })
            .collect();
        l.into_iter().find_map(|h| h.join().unwrap())
    });
    bad.map(|t| Bad::new(&["C20"], t, body))
}
