//! `pmv`: runtime monitors for the prosemirror crate.
//!
//!   pmv run <PID>          supervise: run all cases of the property in a monitored child process
//!   pmv worker <PID> ...   the child
//!   pmv one <PID> <idx>    one case, in this process
//!   pmv list               property ids
mod gen;
mod mdref;
mod meter;
mod model;
mod props;
mod rng;
mod spec;
mod spec_md;
mod spec_ts;
mod supervise;

#[global_allocator]
static METER: meter::Meter = meter::Meter;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["list"] => {
            for p in props::registry() {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        ["run", pid] => supervise::run(pid),
        ["worker", pid, dir] => supervise::worker(pid, dir),
        // one case of C19 in a process of its own
        ["fresh", idx, k] => {
            supervise::quiet_panics();
            props::hist::fresh(idx.parse().expect("index"), k.parse().expect("order"))
        }
        // a small concurrent workload, to be run under Miri
        ["miri", n] => supervise::miri(n.parse().expect("cases")),
        ["one", pid, idx] => supervise::one(pid, idx.parse().expect("index")),
        _ => {
            eprintln!("usage: pmv run|one|list");
            2
        }
    };
    std::process::exit(code)
}
