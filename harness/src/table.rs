//! Which families of cases each property is checked with, and how many of them.
use crate::ctx::{Bad, Ctx};
use crate::direct as d;
use crate::families as f;

pub struct Family {
    pub name: &'static str,
    pub f: fn(&mut Ctx, u64) -> Option<Bad>,
    pub quick: u64,
    pub thorough: u64,
    /// What it means when a case ends the process; nothing for histories, where the operation tells.
    pub crash: &'static [&'static str],
}

fn fam(name: &'static str, f: fn(&mut Ctx, u64) -> Option<Bad>, quick: u64, thorough: u64) -> Family {
    Family { name, f, quick, thorough, crash: &[] }
}
fn direct(name: &'static str, f: fn(&mut Ctx, u64) -> Option<Bad>, quick: u64, thorough: u64, crash: &'static [&'static str]) -> Family {
    Family { name, f, quick, thorough, crash }
}

pub fn families(prop: &str) -> Vec<Family> {
    let hist = |q: u64, t: u64| fam("hist", f::hist, q, t);
    let long = |q: u64, t: u64| fam("long", f::long, q, t);
    let crowd = |q: u64| fam("crowd", f::crowd, q, q * 30);
    let wide = |q: u64| fam("wide", f::wide, q, q * 30);
    let unicode = |q: u64| fam("unicode", f::unicode, q, f::PLANES);
    let bulk = |q: u64| fam("bulk", f::bulk, q, q * 30);
    let loose = |q: u64| direct("loose", crate::loose::loose, q, q * 40, &["C01", "C18"]);
    let abyss = |q: u64| direct("abyss", crate::abyss::abyss, q, q * 20, &["C18"]);
    let expanse = |q: u64| direct("expanse", crate::expanse::expanse, q, q * 20, &["C18"]);
    let seq = || fam("seq", f::seq, f::seq_count(prop, f::SEQ_QUICK), f::seq_count(prop, f::SEQ_THOROUGH));
    #[cfg(feature = "parser")]
    if let Some(v) = crate::parsefam::families(prop) {
        return v;
    }
    match prop {
        "C01" => vec![seq(), loose(6000), crowd(600), wide(300), bulk(900), abyss(140), expanse(48), hist(36_000, 400_000), long(1200, 15_000)],
        "C02" => vec![fam("moves", f::moves, f::MOVES, f::MOVES), seq(), crowd(1200), wide(300), bulk(900), abyss(140), expanse(48), hist(30_000, 400_000), long(1200, 15_000)],
        "C03" => vec![seq(), loose(5000), crowd(1200), wide(200), bulk(600), hist(36_000, 400_000), long(900, 15_000)],
        "C04" => vec![fam("pairs", f::pairs, f::PAIRS, f::PAIRS), seq(), crowd(2000), wide(160), bulk(400), abyss(140), hist(30_000, 400_000), long(900, 10_000)],
        "C05" => vec![seq(), loose(5000), crowd(400), wide(160), bulk(400), abyss(105), expanse(40), hist(36_000, 400_000), long(900, 10_000)],
        "C06" | "C07" => vec![seq(), loose(4000), wide(300), bulk(900), expanse(48), hist(36_000, 400_000), long(1200, 15_000)],
        "C08" => vec![
            direct("values", d::values, d::VALUES_QUICK, d::VALUES_THOROUGH, &["C08", "C18"]),
            direct("value_mix", d::value_mix, 2_000, 150_000, &["C08", "C18"]),
            unicode(f::PLANES),
            seq(),
            wide(300),
            expanse(24), hist(18_000, 200_000),
        ],
        "C09" => vec![
            direct("substrings", d::substrings, d::SUBSTRINGS_QUICK, d::SUBSTRINGS_THOROUGH, &["C09", "C18"]),
            fam("splices", f::splices, f::SPLICES, f::SPLICES),
            unicode(800), wide(200), bulk(600), expanse(48), hist(30_000, 400_000),
            long(600, 10_000),
        ],
        "C10" => vec![fam("splices", f::splices, f::SPLICES, f::SPLICES), unicode(800), seq(), wide(300), bulk(900), abyss(140), expanse(60), hist(36_000, 400_000), long(900, 10_000)],
        "C11" | "C12" => vec![unicode(800), seq(), wide(300), bulk(900), abyss(210), expanse(48), hist(36_000, 400_000), long(1200, 15_000)],
        "C13" => vec![seq(), wide(200), bulk(600), abyss(210), expanse(48), hist(24_000, 300_000), long(600, 8_000)],
        "C14" => vec![unicode(500), seq(), wide(200), bulk(600), abyss(140), expanse(60), hist(36_000, 400_000), long(900, 10_000)],
        "C15" => vec![
            direct("name_chars", d::name_chars, d::CHARS, d::CHARS, &["C15", "C18"]),
            direct("name_strings", d::name_strings, d::NAME_STRINGS, d::NAME_STRINGS, &["C15", "C18"]),
            direct("name_pairs", d::name_pairs, d::NAME_PAIRS, d::NAME_PAIRS, &["C15", "C18"]),
            direct("prefixes", d::prefixes, d::PREFIX_CASES, d::PREFIX_CASES, &["C15", "C18"]),
            fam("creators", d::creators, d::CREATORS, d::CREATORS),
            wide(160),
            expanse(24), hist(9_000, 300_000),
        ],
        "C16" => vec![fam("injections", d::injections, d::INJECTIONS, d::INJECTIONS), direct("writers", crate::faults::writers, 8_000, 150_000, &["C16", "C18"]), unicode(f::PLANES), wide(200), bulk(600), abyss(140), expanse(60), hist(36_000, 500_000), long(600, 8_000)],
        "C17" => vec![
            direct("encodings", d::encodings, d::ENCODINGS, d::ENCODINGS, &["C17"]),
            direct("versions", d::versions, d::VERSIONS, d::VERSIONS, &["C17"]),
            fam("prologs", d::prologs, d::PROLOGS, d::PROLOGS),
            fam("forms", d::forms, d::FORMS, d::FORMS),
            hist(24_000, 400_000),
        ],
        "C18" => vec![
            fam("matrix", d::matrix, d::MATRIX, d::MATRIX),
            direct("deep", d::deep, 40, 40, &["C18"]),
            direct("drop_deep", d::drop_deep, 60, 60, &["C18", "C19"]),
            direct("grow_deep", d::grow_deep, d::GROWN, d::GROWN, &["C18"]),
            fam("splices", f::splices, f::SPLICES, f::SPLICES),
            unicode(800), loose(8000), wide(200), bulk(600), abyss(105), expanse(60), hist(24_000, 300_000),
            long(900, 15_000),
        ],
        "C19" => vec![
            direct("drop_deep", d::drop_deep, 60, 60, &["C18", "C19"]),
            direct("churn", d::churn, 240, 6_000, &["C18"]),
            direct("balance", d::balance, 4_000, 150_000, &["C18"]),
            seq(),
            wide(200), bulk(600), abyss(140), expanse(60), hist(24_000, 300_000),
        ],
        "C20" => vec![
            direct("interleave", d::interleave, 6_000, 250_000, &["C18", "C20"]),
            direct("threads", d::threads, 400, 10_000, &["C18", "C20"]),
            direct("storm", crate::storm::storm, 132, 1320, &["C18", "C20"]),
            seq(),
            expanse(24), hist(24_000, 300_000),
        ],
        "C24" => vec![fam("matrix", d::matrix, d::MATRIX, d::MATRIX), unicode(500), seq(), loose(4000), wide(160), bulk(300), hist(24_000, 400_000)],
        "C25" => vec![
            direct("option_sets", d::option_sets, d::OPTION_SEQS, 100_000, &["C25", "C18"]),
            direct("features", d::features, d::FEATURE_CASES, d::FEATURE_CASES, &["C25", "C18"]),
            direct("option_life", d::option_life, d::LIFE, d::LIFE, &["C25", "C18"]),
            expanse(24), hist(18_000, 300_000),
        ],
        "C26" => vec![direct("purity", crate::purity::purity, 6_000, 250_000, &["C18", "C26"]), wide(160), bulk(400), hist(24_000, 300_000), long(600, 8_000)],
        _ => vec![],
    }
}

pub fn rule(prop: &str) -> String {
    let what = match prop {
        "C01" | "C02" | "C13" => "applies at least one successful insertion, replacement or removal",
        "C03" => "has at least one refused operation, after which every observable fact is compared with before",
        "C04" => "attempts at least one insertion, replacement or removal",
        "C05" => "creates, clones, splits or moves at least one node",
        "C06" => "calls at least one attribute operation of an element",
        "C07" => "calls at least one operation that attaches, detaches or clones attributes",
        "C08" => "sets the value of an attribute at least once (a string: is set in six ways and read in two)",
        "C09" => "calls at least one character data operation (a string: every range of it)",
        "C10" => "splits or normalises at least once",
        "C11" | "C12" => "changes attributes at least once",
        "C14" => "clones at least once",
        "C15" => "creates a node by name or sets an attribute (a string: is offered to every constructor of names)",
        "C17" => "is not empty (a string: is offered as an encoding or a version)",
        "C19" => "drops a handle or takes something out of a tree at least once",
        "C20" => "uses at least two documents",
        "C21" => "is an input that was read in full, from a string and from a stream in pieces",
        "C22" => "is a generated document whose tree was compared with what it was generated from",
        "C23" => "is a document with exactly one well-formedness error",
        "C24" => "creates a node, or sets or unsets a value",
        "C25" => "uses at least one option set or feature query",
        "C26" => "calls at least one reading operation, with everything compared twice",
        _ => "is not empty",
    };
    format!(
        "Families of cases run against the real library, the history families in lock step with a reference model whose complete observable state is compared after every operation: {}. A case counts when it {}; distinct by its text.",
        families(prop).iter().map(|f| f.name).collect::<Vec<_>>().join(", "),
        what
    )
}
