//! Monitors for xml_dom. `xdmon check <property>` supervises workers that run the cases of the
//! property's families against the real library; see /verif/DESIGN.md.
mod abyss;
mod alloc;
mod compare;
mod ctx;
mod direct;
mod exec;
mod expanse;
mod storm;
mod faults;
mod families;
mod gen;
mod loose;
mod model;
mod op;
mod oracle;
#[cfg(feature = "parser")]
mod parsefam;
mod profiles;
mod purity;
mod rng;
mod runner;
mod super_;
mod table;
mod tags;
mod xmlread;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

struct Quiet;
impl log::Log for Quiet {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // Format the arguments as a real logger would, so that this code is observed, too.
        struct Sink;
        impl std::fmt::Write for Sink {
            fn write_str(&mut self, _: &str) -> std::fmt::Result {
                Ok(())
            }
        }
        let _ = std::fmt::write(&mut Sink, *r.args());
    }
    fn flush(&self) {}
}

fn main() {
    static Q: Quiet = Quiet;
    let _ = log::set_logger(&Q);
    log::set_max_level(log::LevelFilter::Trace);
    runner::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    std::process::exit(match a.as_slice() {
        ["check", prop] => super_::check(prop),
        ["worker", ..] => super_::worker(&a[1..]),
        ["one", prop, seed, tier, family, idx] => super_::one(prop, seed, tier, family, idx),
        ["try", prop, family, from, count] => super_::try_family(prop, family, from.parse().unwrap(), count.parse().unwrap()),
        ["ops", prop, file] => super_::ops(prop, file),
        ["replay", file] => super_::replay(file),
        ["families"] => {
            for p in ctx::PROPS {
                for f in table::families(p) {
                    println!("{} {} quick={} thorough={}", p, f.name, f.quick, f.thorough);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: xdmon check PROPERTY | replay FILE | ops PROPERTY FILE | families");
            2
        }
    });
}
