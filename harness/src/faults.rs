//! Writers that fail: what a text form does with them, and that the failure is told.
use crate::ctx::{Bad, Ctx};
use crate::exec::World;
use crate::gen::{Gen, SLOTS};
use crate::op::ops_text;
use crate::profiles::profile;
use crate::rng::{hash_str, Rng};
use crate::runner::{guard, Caught};
use std::fmt::Write;
use xml_dom::level2::*;

/// Takes so many bytes and fails from then on, or (picky) refuses what does not fit and would take what does.
struct Limited {
    left: usize,
    picky: bool,
    got: String,
    failed: bool,
}
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed && !self.picky {
            return Err(std::fmt::Error);
        }
        if s.len() <= self.left {
            self.left -= s.len();
            self.got.push_str(s);
            return Ok(());
        }
        if self.picky {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        let mut n = self.left;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        self.got.push_str(&s[..n]);
        self.failed = true;
        Err(std::fmt::Error)
    }
}

/// The order of attributes is not specified and could be another one each time.
fn several_attributes(x: &RefNode, depth: usize) -> bool {
    depth > 300 || x.attributes().len() > 1 || x.child_nodes().iter().any(|c| several_attributes(c, depth + 1))
}

pub fn writers(ctx: &mut Ctx, idx: u64) -> Option<Bad> {
    let base = ["C16", "C17", "C16", "C06"][(idx % 4) as usize];
    let (mut p, _) = profile(base);
    p.ops = (15, 40);
    let ops = Gen::new(&p, Rng::new(ctx.seed, "writers", idx)).history();
    let body = ops_text(&ops);
    ctx.evals += 1;
    if ctx.distinct.insert(hash_str(12, &body)) {
        ctx.sample(|| body.clone());
    }
    ctx.count("operations", ops.len() as u64);
    let mut r = Rng::new(ctx.seed, "writers-at", idx);
    let res = guard(|| {
        let mut w = World::new(SLOTS);
        for o in &ops {
            let _ = w.exec(o);
        }
        let mut n = 0u64;
        for x in w.slots.iter().flatten() {
            let full = x.to_string();
            let exact = !several_attributes(x, 0);
            let mut at: Vec<usize> = vec![0, 1, full.len() / 2, full.len().saturating_sub(1), full.len(), full.len() + 7];
            for _ in 0..4 {
                at.push(r.below(full.len() + 1));
            }
            for (i, k) in at.into_iter().enumerate() {
                let picky = i % 3 == 2 || i == 6;
                let mut l = Limited { left: k, picky, got: String::new(), failed: false };
                let told = write!(l, "{}", x).is_err();
                n += 1;
                let bad = if l.failed != (k < full.len()) {
                    "another text was written"
                } else if told != l.failed {
                    if l.failed { "the failure was not told" } else { "a failure was told" }
                } else if exact && !full.starts_with(&l.got) || (k >= full.len() && l.got.len() != full.len()) {
                    "another text was written"
                } else {
                    continue;
                };
                return (Some(format!("writing {:?} into a writer with room for {} bytes: {}, {:?}", full, k, bad, l.got)), n);
            }
        }
        (None, n)
    });
    match res {
        Caught::Fine((None, n)) => {
            ctx.count("failing_writers", n);
            ctx.count("observations_compared", n);
            None
        }
        Caught::Fine((Some(t), _)) => Some(Bad::new(&["C16"], t, body)),
        Caught::Panicked(s) => Some(Bad::new(&["C18"], s, body)),
    }
}
