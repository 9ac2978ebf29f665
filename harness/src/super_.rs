//! The supervisor of a check, and its workers.
use crate::alloc;
use crate::ctx::{Bad, Ctx, BEAT, CASE, PROPS};
use crate::op::parse_ops;
use crate::table::{families, rule, Family};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

const EXIT_HANG: i32 = 77;
const HANG_CPU_TICKS: u64 = 2000; // 20 s of processor time without one call coming back
const CASE_CPU_TICKS: u64 = 12000; // 120 s of processor time without finishing one case
const WORKERS: u64 = 8;
const STACK: usize = 8 << 20;
const MEMORY: i64 = 2 << 30;

fn property(p: &str) -> Option<&'static str> {
    PROPS.iter().copied().find(|x| *x == p)
}

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut case = (CASE.load(Ordering::Relaxed), cpu_ticks());
        let mut beat = (BEAT.load(Ordering::Relaxed), case.1);
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let (c, b, t) = (CASE.load(Ordering::Relaxed), BEAT.load(Ordering::Relaxed), cpu_ticks());
            if c != case.0 {
                case = (c, t);
                beat = (b, t);
            } else if b != beat.0 {
                beat = (b, t);
            }
            if t > beat.1 + HANG_CPU_TICKS || t > case.1 + CASE_CPU_TICKS {
                std::process::exit(EXIT_HANG);
            }
        }
    });
}

fn on_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(STACK).spawn(f).unwrap().join().unwrap()
}

/// worker PROP SEED TIER FROM_FAMILY FROM_IDX RESIDUE SECONDS OUT
pub fn worker(a: &[&str]) -> i32 {
    let prop = property(a[0]).unwrap();
    let n = |i: usize| -> u64 { a[i].parse().unwrap() };
    let (seed, thorough, ff, fi, residue, secs) = (n(1), a[2] == "thorough", n(3) as usize, n(4), n(5), n(6));
    let out = PathBuf::from(a[7]);
    alloc::LIMIT.store(MEMORY, Ordering::Relaxed);
    watchdog();
    on_stack(move || {
        let mut ctx = Ctx::new(prop, seed, thorough);
        let file = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(out.with_extension("progress"));
        ctx.progress = file.ok();
        ctx.early = Some(out.with_extension("early"));
        let start = Instant::now();
        let mut bad = None;
        'all: for (i, f) in families(prop).iter().enumerate().skip(ff) {
            let count = if thorough { f.thorough } else { f.quick };
            let mut idx = if i == ff { fi } else { 0 };
            while idx % WORKERS != residue {
                idx += 1;
            }
            while idx < count {
                if start.elapsed().as_secs() >= secs {
                    ctx.count("cases_left_for_lack_of_time", (count - idx).div_ceil(WORKERS));
                    break;
                }
                ctx.begin(i, idx);
                ctx.count(&format!("cases_{}", f.name), 1);
                // The harness may only panic when the library does what it does not expect: go on with
                // other cases, these may show what it is. Without a violation there is no answer.
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.f)(&mut ctx, idx)));
                let r = r.unwrap_or_else(|_| {
                    ctx.count("harness_panics", 1);
                    None
                });
                if let Some(b) = r {
                    if b.tags.contains(prop) {
                        bad = Some((i, idx, b));
                        break 'all;
                    }
                    ctx.count("foreign", 1);
                    let k: Vec<&str> = b.tags.iter().copied().collect();
                    ctx.count(&format!("foreign_{}", k.join("_")), 1);
                }
                idx += WORKERS;
            }
        }
        let set = |s: &HashSet<u64>| -> Vec<u8> { s.iter().flat_map(|x| x.to_le_bytes()).collect() };
        let _ = std::fs::write(out.with_extension("distinct"), set(&ctx.distinct));
        let _ = std::fs::write(out.with_extension("states"), set(&ctx.states));
        let mut t = format!("{}\u{1e}", ctx.evals);
        for (k, v) in &ctx.counts {
            let _ = write!(t, "{} {}\u{1f}", k, v);
        }
        t.push('\u{1e}');
        for s in &ctx.samples {
            let _ = write!(t, "{}\u{1f}", s);
        }
        t.push('\u{1e}');
        if let Some((i, idx, b)) = &bad {
            let _ = write!(t, "{}\u{1f}{}\u{1f}{}", i, idx, b.encode());
        }
        let _ = std::fs::write(&out, t);
        0
    })
}

fn run_one(prop: &'static str, seed: u64, thorough: bool, family: usize, idx: u64, verbose: bool) -> Option<Bad> {
    let f = families(prop).swap_remove(family);
    on_stack(move || {
        let mut ctx = Ctx::new(prop, seed, thorough);
        ctx.verbose = verbose;
        (f.f)(&mut ctx, idx)
    })
}

/// Run a single case: 0 nothing, 1 the property is violated, 3 something else is wrong.
pub fn one(prop: &str, seed: &str, tier: &str, family: &str, idx: &str) -> i32 {
    let Some(prop) = property(prop) else { return 2 };
    alloc::LIMIT.store(MEMORY, Ordering::Relaxed);
    watchdog();
    match run_one(prop, seed.parse().unwrap(), tier == "thorough", family.parse().unwrap(), idx.parse().unwrap(), true) {
        None => 0,
        Some(b) => {
            println!("{:?}\n{}\n{}", b.tags, b.text, b.body);
            if b.tags.contains(prop) {
                1
            } else {
                3
            }
        }
    }
}

/// Run the first cases of one family, for its development.
pub fn try_family(prop: &str, name: &str, from: u64, count: u64) -> i32 {
    let Some(prop) = property(prop) else { return 2 };
    alloc::LIMIT.store(MEMORY, Ordering::Relaxed);
    let name = name.to_string();
    on_stack(move || {
        let mut ctx = Ctx::new(prop, 1, false);
        let fams = crate::table::families(prop);
        let f = fams.iter().find(|f| f.name == name).unwrap();
        let mut times = vec![];
        let mut bad = 0;
        for i in from..from + count {
            let t = std::time::Instant::now();
            if let Some(b) = (f.f)(&mut ctx, i) {
                bad += 1;
                println!("{}: {:?} {}", i, b.tags, b.text.chars().take(300).collect::<String>());
            }
            times.push((t.elapsed().as_millis(), i));
        }
        let total: u128 = times.iter().map(|x| x.0).sum();
        times.sort();
        println!("bad {} total {} ms, slowest {:?}, {:?}", bad, total, &times[times.len().saturating_sub(3)..], ctx.counts);
        0
    })
}

/// Run a history from a file.
pub fn ops(prop: &str, file: &str) -> i32 {
    let Some(prop) = property(prop) else { return 2 };
    let ops = parse_ops(&std::fs::read_to_string(file).unwrap());
    let (_, cfg) = crate::profiles::profile(prop);
    let cfg = crate::runner::Cfg { ids: 1, ns: 1, search: 1, display: true, ..cfg };
    on_stack(move || match crate::runner::run(&ops, &cfg, None).found {
        None => {
            println!("nothing found");
            0
        }
        Some(f) => {
            println!("operation {} of {}: {:?}\n{}", f.at, ops.len(), f.tags, f.text());
            1
        }
    })
}

pub fn replay(file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let get = |k: &str| -> String {
        text.lines().find_map(|l| l.strip_prefix(&format!("# {}: ", k))).unwrap_or("").to_string()
    };
    let exe = std::env::current_exe().unwrap();
    let s = Command::new(exe)
        .args(["one", &get("property"), &get("seed"), &get("tier"), &get("family-number"), &get("case")])
        .status()
        .unwrap();
    println!("ended with {}", s);
    if s.success() {
        0
    } else {
        1
    }
}

struct W {
    child: Child,
    out: PathBuf,
    residue: u64,
}

#[derive(Default)]
struct Merged {
    evals: u64,
    counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    states: HashSet<u64>,
    samples: Vec<String>,
    bad: Option<(usize, u64, Bad)>,
}

fn merge(m: &mut Merged, out: &Path) -> Option<()> {
    let t = std::fs::read_to_string(out).ok()?;
    let p: Vec<&str> = t.split('\u{1e}').collect();
    if p.len() != 4 {
        return None;
    }
    m.evals += p[0].parse::<u64>().ok()?;
    for l in p[1].split('\u{1f}').filter(|l| !l.is_empty()) {
        let (k, v) = l.rsplit_once(' ')?;
        *m.counts.entry(k.to_string()).or_default() += v.parse::<u64>().ok()?;
    }
    for l in p[2].split('\u{1f}').filter(|l| !l.is_empty()) {
        if m.samples.len() < 3 {
            m.samples.push(l.to_string())
        }
    }
    if !p[3].is_empty() && m.bad.is_none() {
        let q: Vec<&str> = p[3].splitn(3, '\u{1f}').collect();
        m.bad = Some((q[0].parse().ok()?, q[1].parse().ok()?, Bad::decode(q[2])?));
    }
    for (set, ext) in [(&mut m.distinct, "distinct"), (&mut m.states, "states")] {
        let b = std::fs::read(out.with_extension(ext)).unwrap_or_default();
        set.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
    }
    Some(())
}

fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn spawn(prop: &str, seed: u64, tier: &str, ff: usize, fi: u64, residue: u64, secs: u64, dir: &Path, serial: usize) -> W {
    let out = dir.join(format!("w{}", serial));
    let child = Command::new(std::env::current_exe().unwrap())
        .arg("worker")
        .arg(prop)
        .args([seed.to_string(), tier.to_string(), ff.to_string(), fi.to_string(), residue.to_string(), secs.to_string()])
        .arg(&out)
        .stdin(Stdio::null())
        .spawn()
        .expect("cannot start a worker");
    W { child, out, residue }
}

fn ending(s: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (s.code(), s.signal()) {
        (Some(EXIT_HANG), _) => "it does not come to an end (20 s of processor time for one call, 120 s for one case)".into(),
        (Some(alloc::EXIT_MEMORY), _) => "it allocates more than 2 GB".into(),
        (_, Some(n)) => format!("the process is ended by signal {}", n),
        (c, _) => format!("the process ends with {:?}", c),
    }
}

pub fn check(prop: &str) -> i32 {
    let Some(prop) = property(prop) else {
        eprintln!("no property {}", prop);
        return 2;
    };
    let start = Instant::now();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let root = PathBuf::from(std::env::var("XDMON_ROOT").unwrap_or("/verif".into()));
    let fams = families(prop);
    if fams.is_empty() {
        eprintln!("{}: no families in this build", prop);
        return 2;
    }
    let secs: u64 = if tier == "quick" { 240 } else { 600 };
    let dir = std::env::temp_dir().join(format!("xdmon-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut serial = 0;
    let mut workers: Vec<W> = vec![];
    for r in 0..WORKERS {
        workers.push(spawn(prop, seed, tier, 0, r, r, secs, &dir, serial));
        serial += 1;
    }
    let mut m = Merged::default();
    let mut errors: Vec<String> = vec![];
    let mut restarts = 0;
    let mut crash: Option<(usize, u64, Bad)> = None;
    while !workers.is_empty() {
        let mut i = 0;
        while i < workers.len() {
            let Ok(Some(st)) = workers[i].child.try_wait() else {
                i += 1;
                continue;
            };
            let w = workers.swap_remove(i);
            if st.code() == Some(0) {
                if merge(&mut m, &w.out).is_none() {
                    errors.push("a worker left no result".into());
                }
                continue;
            }
            if st.code() == Some(2) || st.code() == Some(101) {
                errors.push(format!("a worker failed: {}", st));
                continue;
            }
            // The code under test ended the process. Where, and does it do so again?
            let p = std::fs::read(w.out.with_extension("progress")).unwrap_or_default();
            let g = |o: usize| p.get(o..o + 8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
            let (Some(f), Some(idx), Some(at)) = (g(0), g(8), g(16)) else {
                errors.push(format!("a worker ended with {} before its first case", st));
                continue;
            };
            let f = f as usize;
            // Whatever ends so late does not tell more about this property.
            if start.elapsed().as_secs() > secs + 150 {
                *m.counts.entry("workers_given_up".into()).or_default() += 1;
                continue;
            }
            if let Some(b) = std::fs::read_to_string(w.out.with_extension("early")).ok().and_then(|s| Bad::decode(&s)) {
                if b.tags.contains(prop) {
                    crash = Some((f, idx, b));
                    continue;
                }
            }
            let again = Command::new(std::env::current_exe().unwrap())
                .args(["one", prop, &seed.to_string(), tier, &f.to_string(), &idx.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .status()
                .expect("cannot run a case again");
            match again.code() {
                Some(0) | Some(1) | Some(2) | Some(3) | Some(101) => {
                    errors.push(format!("case {} {} ended its worker ({}) but not when run alone ({})", fams[f].name, idx, st, again))
                }
                _ => {
                    let b = crash_bad(prop, seed, tier == "thorough", f, idx, at, &fams[f], &ending(&again));
                    if b.tags.contains(prop) {
                        crash = Some((f, idx, b));
                    } else {
                        *m.counts.entry("foreign".into()).or_default() += 1;
                        *m.counts.entry("foreign_crash".into()).or_default() += 1;
                        restarts += 1;
                        if restarts <= 40 {
                            workers.push(spawn(prop, seed, tier, f, idx + WORKERS, w.residue, secs, &dir, serial));
                            serial += 1;
                        } else {
                            *m.counts.entry("workers_given_up".into()).or_default() += 1;
                        }
                    }
                }
            }
        }
        if (m.bad.is_some() || crash.is_some()) && !workers.is_empty() {
            for w in workers.iter_mut() {
                let _ = w.child.kill();
                let _ = w.child.wait();
            }
            workers.clear();
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let _ = std::fs::remove_dir_all(&dir);
    let bad = m.bad.take().or(crash);
    // The evidence.
    let distinct = m.distinct.len() as u64;
    let mut e = String::from("{\n");
    let _ = write!(
        e,
        " \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        json(prop),
        json(tier),
        seed
    );
    let _ = write!(e, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", m.evals, distinct, json(&rule(prop)));
    let samples: Vec<String> = m.samples.iter().map(|s| json(s)).collect();
    let _ = write!(e, "  \"samples\": [{}],\n", samples.join(", "));
    let _ = write!(e, "  \"distinct_states_observed\": {}", m.states.len());
    for (k, v) in &m.counts {
        let _ = write!(e, ",\n  {}: {}", json(k), v);
    }
    let _ = write!(
        e,
        "\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        json("Held on the executions described here; nothing is claimed about others."),
        start.elapsed().as_secs_f64(),
        bad.is_some() as u8
    );
    let _ = std::fs::create_dir_all(root.join("evidence"));
    let _ = std::fs::write(root.join("evidence").join(format!("{}.json", prop)), e);
    if let Some((f, idx, b)) = bad {
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}-{}.txt", prop, fams[f].name, idx, seed));
        let mut t = String::new();
        let _ = writeln!(t, "# property: {}\n# family: {}\n# family-number: {}\n# case: {}\n# seed: {}\n# tier: {}", prop, fams[f].name, f, idx, seed, tier);
        for l in b.text.lines() {
            let _ = writeln!(t, "# found: {}", l);
        }
        let _ = writeln!(t, "# run again with: /verif/run.sh replay {}\n{}", path.display(), b.body);
        let _ = std::fs::write(&path, t);
        println!("{}", b.text.lines().take(12).collect::<Vec<_>>().join("\n"));
        println!("VIOLATION property={} replay={}", prop, path.display());
        return 1;
    }
    let foreign = m.counts.get("foreign").copied().unwrap_or(0);
    if let Some(n) = m.counts.get("harness_panics") {
        errors.push(format!("{} cases ended in a panic of the monitor", n));
    }
    if foreign * 2 > m.evals.max(1) {
        errors.push(format!("no answer: {} of {} cases end early as they violate something else", foreign, m.evals));
    }
    for x in &errors {
        eprintln!("{}: {}", prop, x);
    }
    if !errors.is_empty() {
        return 2;
    }
    if m.evals == 0 || distinct == 0 {
        eprintln!("{}: nothing was observed", prop);
        return 2;
    }
    println!(
        "{} {}: held on {} cases ({} distinct and relevant), {} observations, {:.1} s{}",
        prop,
        tier,
        m.evals,
        distinct,
        m.counts.get("observations_compared").copied().unwrap_or(0),
        start.elapsed().as_secs_f64(),
        match m.counts.get("foreign") {
            Some(n) => format!("; {} cases violate something else", n),
            None => String::new(),
        }
    );
    0
}

fn crash_bad(prop: &'static str, seed: u64, thorough: bool, f: usize, idx: u64, at: u64, fam: &Family, what: &str) -> Bad {
    if !fam.crash.is_empty() {
        return Bad::new(fam.crash, format!("{} in case {} of {}", what, idx, fam.name), String::new());
    }
    let fam = families(prop).swap_remove(f);
    let b = on_stack(move || {
        let mut ctx = Ctx::new(prop, seed, thorough);
        ctx.crash_at = Some(at.min(1 << 40) as usize);
        (fam.f)(&mut ctx, idx)
    });
    match b {
        Some(mut b) => {
            b.text = format!("{}: {}", b.text, what);
            b
        }
        None => Bad::new(&["C18"], format!("{} in case {}", what, idx), String::new()),
    }
}
