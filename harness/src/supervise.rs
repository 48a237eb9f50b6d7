//! Running the cases of a property in a child process and deciding what its ending means.
//!
//! A case is a pure function of (seed, property, index). A panic, a crash of the process, memory
//! exhaustion and a case that does not come to an end are observations like any other: the case is
//! run again alone, and if that reproduces it, it is a violation.
use crate::props::{registry, Cx, Prop};
use crate::rng::{hash64, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const CASE_LIMIT_S: u64 = 120;
const STACK: usize = 256 << 20;
const MEM_LIMIT: u64 = 14 << 30;
const MAX_FAILURES: usize = 4;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Call into the library, turning a panic into an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}
fn scale() -> f64 {
    std::env::var("PMV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}
fn find(pid: &str) -> Prop {
    registry().into_iter().find(|p| p.id == pid).unwrap_or_else(|| {
        eprintln!("unknown property {}", pid);
        std::process::exit(2)
    })
}
fn total(p: &Prop) -> u64 {
    let n = if thorough() { p.thorough } else { p.quick };
    ((n as f64 * scale()) as u64).max(1)
}
fn stream(pid: &str) -> u64 {
    hash64(&pid)
}

fn run_case(p: &Prop, cx: &mut Cx, idx: u64) -> Result<(), String> {
    cx.idx = idx;
    let mut rng = Rng::new(seed(), stream(p.id), idx);
    match catch_unwind(AssertUnwindSafe(|| (p.run)(cx, &mut rng, idx))) {
        Ok(r) => r,
        Err(_) => Err(format!("{} (in: {})", last_panic(), cx.doing)),
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit_memory() {
    let l = [MEM_LIMIT, MEM_LIMIT];
    unsafe {
        setrlimit(9, &l); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
}

// ---------------------------------------------------------------- child

pub fn worker(pid: &str, dir: &str) -> i32 {
    limit_memory();
    quiet_panics();
    let p = find(pid);
    let n = total(&p);
    let start = Instant::now();
    let budget: u64 = std::env::var("PMV_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough() { 600 } else { 150 });
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let failures: Arc<Mutex<Vec<(u64, String)>>> = Arc::new(Mutex::new(vec![]));
    let slots: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    let cxs: Arc<Mutex<Vec<Cx>>> = Arc::new(Mutex::new(vec![]));
    let slot_dir = PathBuf::from(dir);

    // watchdog: a case that does not end
    {
        let slots = slots.clone();
        let slot_dir = slot_dir.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = start.elapsed().as_secs();
            for s in slots.iter() {
                let i = s.0.load(Ordering::SeqCst);
                if i != u64::MAX && now.saturating_sub(s.1.load(Ordering::SeqCst)) > CASE_LIMIT_S {
                    let _ = std::fs::write(slot_dir.join("hang"), format!("{}", i));
                    std::process::abort();
                }
            }
        });
    }

    let mut hs = vec![];
    for t in 0..threads {
        let (next, stop, failures, slots, cxs) =
            (next.clone(), stop.clone(), failures.clone(), slots.clone(), cxs.clone());
        let p = p.clone();
        let slot_path = slot_dir.join(format!("slot{}", t));
        hs.push(
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn(move || {
                    use std::os::unix::fs::FileExt;
                    let f = std::fs::File::create(slot_path).expect("slot");
                    let mut cx = Cx::new();
                    loop {
                        if stop.load(Ordering::Relaxed) || start.elapsed().as_secs() > budget {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let _ = f.write_at(format!("{:020}", i).as_bytes(), 0);
                        slots[t].1.store(start.elapsed().as_secs(), Ordering::SeqCst);
                        slots[t].0.store(i, Ordering::SeqCst);
                        let began = Instant::now();
                        let outcome = run_case(&p, &mut cx, i);
                        if began.elapsed().as_millis() > 2000 && std::env::var("PMV_SLOW").is_ok() {
                            eprintln!("case {} took {:?}", i, began.elapsed());
                        }
                        if let Err(e) = outcome {
                            let mut v = failures.lock().unwrap();
                            v.push((i, e));
                            if v.len() >= MAX_FAILURES {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        cx.cases += 1;
                        slots[t].0.store(u64::MAX, Ordering::SeqCst);
                    }
                    let _ = f.write_at(format!("{:>20}", "done").as_bytes(), 0);
                    cxs.lock().unwrap().push(cx);
                })
                .expect("spawn"),
        );
    }
    for h in hs {
        h.join().expect("worker thread");
    }
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut evals, mut cases, mut distinct) = (0, 0, HashSet::new());
    let mut schedules = HashSet::new();
    let mut samples: Vec<(u64, String)> = vec![];
    for c in cxs.lock().unwrap().drain(..) {
        for (k, v) in c.counters {
            *counters.entry(k).or_default() += v;
        }
        evals += c.evals;
        cases += c.cases;
        distinct.extend(c.distinct);
        schedules.extend(c.schedules);
        samples.extend(c.samples);
    }
    if !schedules.is_empty() {
        counters.insert("distinct interleavings", schedules.len() as u64);
    }
    samples.sort();
    samples.truncate(6);
    let mut fl = failures.lock().unwrap().clone();
    fl.sort();
    let out = json!({
        "evaluations": evals, "cases": cases, "planned": n, "distinct": distinct.len(),
        "counters": counters,
        "samples": samples.iter().map(|s| s.1.clone()).collect::<Vec<_>>(),
        "failures": fl.iter().map(|(i, e)| json!({"case": i, "what": e})).collect::<Vec<_>>(),
        "threads": threads,
    });
    std::fs::write(slot_dir.join("result.json"), out.to_string()).expect("result");
    0
}

pub fn one(pid: &str, idx: u64) -> i32 {
    limit_memory();
    quiet_panics();
    let p = find(pid);
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            let mut cx = Cx::new();
            run_case(&p, &mut cx, idx)
        })
        .expect("spawn");
    match h.join().expect("case thread") {
        Ok(()) => {
            println!("case {} of {} (seed {}): no violation", idx, pid, seed());
            0
        }
        Err(e) => {
            println!("case {} of {} (seed {}): {}", idx, pid, seed(), e);
            1
        }
    }
}

/// A small concurrent workload without anything an interpreter would choke on.
pub fn miri(n: u64) -> i32 {
    quiet_panics();
    for i in 0..n {
        let mut cx = Cx::new();
        let mut rng = Rng::new(seed(), stream("C19"), 1_000_000 + i);
        if let Err(e) = crate::props::hist::c19_with(&mut cx, &mut rng, 3, 1, 5, None) {
            println!("case {}: {}", i, e);
            return 1;
        }
        println!("case {}: {:?}, {} interleavings", i, cx.counters, cx.schedules.len());
    }
    0
}

// ---------------------------------------------------------------- parent

enum Alone {
    Fine,
    Fails(String),
}

fn run_alone(pid: &str, idx: u64) -> Alone {
    let exe = std::env::current_exe().expect("exe");
    let mut ch = Command::new(exe)
        .args(["one", pid, &idx.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t = Instant::now();
    loop {
        match ch.try_wait().expect("wait") {
            Some(st) => {
                let mut s = String::new();
                use std::io::Read;
                let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
                return match st.code() {
                    Some(0) => Alone::Fine,
                    Some(_) => Alone::Fails(s.trim().to_string()),
                    None => Alone::Fails(format!("the process died: {}", st)),
                };
            }
            None if t.elapsed().as_secs() > CASE_LIMIT_S => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Alone::Fails(format!("did not come to an end within {} s", CASE_LIMIT_S));
            }
            None => std::thread::sleep(Duration::from_millis(20)),
        }
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("PMV_HOME").unwrap_or_else(|_| "/verif".into()))
}

/// Open findings: lines `finding: property=<id> match=<text> :: <description>`.
/// A violation is a known finding only if its text contains the match text. Lines `fixed: ...`
/// are a record and suppress nothing.
fn known(pid: &str) -> Vec<(String, String)> {
    let f = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    f.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (id, rest) = l.split_once(' ')?;
            if id != pid {
                return None;
            }
            let rest = rest.strip_prefix("match=")?;
            let (m, d) = rest.split_once(" :: ")?;
            Some((m.to_string(), d.to_string()))
        })
        .collect()
}

pub fn run(pid: &str) -> i32 {
    let p = find(pid);
    let start = Instant::now();
    let home = verif_dir();
    let work = home.join("work").join(format!("{}-{}", pid, std::process::id()));
    std::fs::create_dir_all(&work).expect("work dir");
    let replays = home.join("work").join("replay");
    std::fs::create_dir_all(&replays).expect("replay dir");
    std::fs::create_dir_all(home.join("evidence")).expect("evidence dir");

    let exe = std::env::current_exe().expect("exe");
    let st = Command::new(exe)
        .args(["worker", pid, work.to_str().unwrap()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .expect("worker");
    let mut failures: Vec<(u64, String)> = vec![];
    let mut res: Value = std::fs::read_to_string(work.join("result.json"))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(Value::Null);
    let mut trouble = None;
    if res.is_null() {
        // the child died: which case was it?
        let mut suspects: Vec<u64> = vec![];
        if let Ok(s) = std::fs::read_to_string(work.join("hang")) {
            suspects.extend(s.trim().parse::<u64>());
        }
        for t in 0..64 {
            if let Ok(s) = std::fs::read_to_string(work.join(format!("slot{}", t))) {
                if let Ok(i) = s.trim().parse::<u64>() {
                    if !suspects.contains(&i) {
                        suspects.push(i)
                    }
                }
            }
        }
        for i in suspects.iter().take(9) {
            if let Alone::Fails(e) = run_alone(pid, *i) {
                failures.push((*i, e));
                break;
            }
        }
        if failures.is_empty() {
            trouble = Some(format!("the worker ended with {} and no case reproduces it", st));
        }
        res = json!({"evaluations": 0, "cases": 0, "planned": total(&p), "distinct": 0,
            "counters": {}, "samples": [], "failures": []});
    }
    for f in res["failures"].as_array().cloned().unwrap_or_default() {
        failures.push((f["case"].as_u64().unwrap(), f["what"].as_str().unwrap().to_string()));
    }
    let _ = std::fs::remove_dir_all(&work);

    let known = known(pid);
    let mut hit: Vec<&(String, String)> = vec![];
    let mut fresh: Vec<(u64, String)> = vec![];
    for (i, e) in failures {
        match known.iter().find(|k| e.contains(&k.0)) {
            Some(k) => {
                if !hit.contains(&k) {
                    hit.push(k)
                }
            }
            None => fresh.push((i, e)),
        }
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", pid, k.1);
    }

    let full = res["cases"].as_u64() == res["planned"].as_u64();
    // what the monitors must have seen for the run to mean anything
    if fresh.is_empty() && trouble.is_none() && full && scale() >= 1.0 {
        for (k, min) in p.floors {
            let got = res["counters"][*k].as_u64().unwrap_or(0);
            if got < *min {
                trouble = Some(format!("monitor event {:?} seen {} times, expected at least {}", k, got, min));
            }
        }
    }
    let samples = match res["samples"].as_array() {
        Some(s) if !s.is_empty() => Value::Array(s.clone()),
        _ => json!([format!("case 0 of seed {}", seed())]),
    };
    let ev = json!({
        "property": pid,
        "tier": if thorough() { "thorough" } else { "quick" },
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"],
            "distinct_nontrivial": res["distinct"],
            "rule": p.rule,
            "samples": samples,
            "cases": res["cases"],
            "cases_planned": res["planned"],
            "events": res["counters"],
            "threads": res["threads"],
            "build": std::env::var("PMV_BUILD").unwrap_or_else(|_| "monitored".into()),
        },
        "assumptions": p.assumptions,
        "violations": fresh.len(),
        "wall_s": (start.elapsed().as_millis() as f64) / 1000.0,
    });
    write_atomic(&home.join("evidence").join(format!("{}.json", pid)), &serde_json::to_string_pretty(&ev).unwrap());

    println!(
        "{}: {} cases, {} evaluations, {} distinct non-trivial, {:.1} s",
        pid,
        res["cases"],
        res["evaluations"],
        res["distinct"],
        start.elapsed().as_secs_f64()
    );
    if !fresh.is_empty() {
        let (i, e) = &fresh[0];
        let path = replays.join(format!("{}-{}-{}.json", pid, seed(), i));
        write_atomic(
            &path,
            &serde_json::to_string_pretty(&json!({
                "property": pid, "seed": seed(), "case": i, "what": e,
                "again": format!("VERIF_SEED={} /verif/check.sh replay {} {}", seed(), pid, i),
                "others": fresh[1..].iter().map(|f| json!({"case": f.0, "what": f.1})).collect::<Vec<_>>(),
            }))
            .unwrap(),
        );
        println!("  case {}: {}", i, clip(e, 3000));
        println!("VIOLATION property={} replay={}", pid, path.display());
        return 1;
    }
    if let Some(t) = trouble {
        println!("ERROR: {}", t);
        return 2;
    }
    0
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

fn write_atomic(path: &Path, s: &str) {
    let tmp = path.with_extension(format!("tmp{}", std::process::id()));
    let mut f = std::fs::File::create(&tmp).expect("write");
    f.write_all(s.as_bytes()).expect("write");
    f.write_all(b"\n").expect("write");
    drop(f);
    std::fs::rename(&tmp, path).expect("rename");
}
