//! C19 purity and thread safety, C20 editing histories.
use super::replace::show_step;
use super::*;
use crate::gen;
use crate::supervise::guarded;
use crate::{both, ensure, mdref};
use prosemirror::markdown::{from_markdown, to_markdown, MarkdownMark, MarkdownNode, MD};
use prosemirror::model::{Fragment, MarkSet, Slice, Text};
use prosemirror::transform::Step;
use std::marker::PhantomData;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C19",
            quick: 40_000,
            thorough: 800_000,
            run: c19,
            rule: "A case is three documents with slices and steps, and about thirty operations on them: performed first one after another on private copies, then by four threads at once on the shared documents, each in its own order, twice; every result is compared with the first. Distinct non-trivial: distinct operations with their arguments.",
            floors: &[
                ("operation compared", 800_000),
                ("threads run", 70_000),
                ("arguments unchanged", 20_000),
                ("shareable between threads", 18_000),
                ("judged by the oracle", 200_000),
                ("overlapping operations", 20_000),
                ("compared with a fresh process", 100),
            ],
            assumptions: &["Races are looked for in native runs by their effects, and by Miri's race detector on a small workload (reported under tool_runs)."],
        },
        Prop {
            id: "C20",
            quick: 160_000,
            thorough: 3_200_000,
            run: both!(c20),
            rule: "A case is one history of about thirty editing steps from a valid document, followed by three replicas: one receives each step as JSON, one joins from a JSON snapshot on the way, one replays everything from the start. Every version is compared with the oracle's and checked for validity and canonical text. Distinct non-trivial: distinct (document, step) pairs applied.",
            floors: &[
                ("step applied", 120_000),
                ("step refused", 40_000),
                ("version compared on a replica", 120_000),
                ("late joiner", 8_000),
                ("offline replay", 9_000),
                ("mark step applied", 20_000),
                ("replace-around applied", 8_000),
            ],
            assumptions: &[],
        },
    ]
}

// ---------------------------------------------------------------- C20

/// Is what the step brings along valid and canonical? (Closed nodes of the slice, with the gap.)
fn step_content_ok(sd: &SchemaDesc, doc: &MNode, st: &MStep) -> bool {
    match st {
        MStep::Replace { slice, .. } => {
            gen::closed_valid(sd, slice) && sd.noncanonical_list(&slice.content).is_none()
        }
        MStep::Around { gap_from, gap_to, slice: sl, insert, .. } => {
            if sd.noncanonical_list(&sl.content).is_some() {
                return false;
            }
            let gap = match slice(doc, *gap_from, *gap_to, false, sd.text) {
                Some(g) => g,
                None => return false,
            };
            match insert_at(sl, *insert, &gap.content, sd.text) {
                Some(s) => gen::closed_valid(sd, &s),
                None => false,
            }
        }
        _ => true,
    }
}

fn c20<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let start = gen::small_doc(rng, sd);
    let mut m = start.clone();
    let mut doc = S::build(&start);
    let mut replica: S::Node = reread::<S>(&doc, "initial document")?;
    let mut joiner: Option<S::Node> = None;
    let mut log: Vec<String> = vec![];
    let mut versions: Vec<MNode> = vec![m.clone()];
    let n = rng.range(8, 40);
    for _ in 0..n {
        if m.size() > 600 {
            break;
        }
        let st = gen::gen_step(rng, sd, &m);
        let what = format!("{} applied to {}", show_step(sd, &st), S::show(&m));
        cx.doing = what.clone();
        let content_ok = step_content_ok(sd, &m, &st);
        let step = S::build_step(&st);
        let got = step.apply(&doc);
        cx.eval();
        ensure!(S::read(&doc) == m, "{}: changes the document it is given", what);
        match got {
            Err(_) => {
                if let StepVerdict::Ok(w) = apply(sd, &m, &st) {
                    return Err(format!("{}: refused, though it should give {}", what, S::show(&w)));
                }
                cx.ev("step refused");
            }
            Ok(next) => {
                let r = S::read(&next);
                match apply(sd, &m, &st) {
                    StepVerdict::Ok(w) => {
                        if content_ok {
                            ensure!(r == w, "{}: gives {} instead of {}", what, S::show(&r), S::show(&w));
                        }
                    }
                    StepVerdict::Refuse(why) => {
                        return Err(format!("{}: accepted, giving {}, although: {}", what, S::show(&r), why))
                    }
                    StepVerdict::Open => cx.ev("no claim"),
                }
                if !content_ok {
                    // would leave the claim's domain: this step is not taken
                    cx.ev("step with content of its own that is not valid");
                    continue;
                }
                if let Some(e) = sd.invalid(&r) {
                    return Err(format!("{}: gives an invalid document: {}: {}", what, e, S::show(&r)));
                }
                if let Some(e) = sd.noncanonical(&r) {
                    return Err(format!("{}: gives a document that is not canonical: {}: {}", what, e, S::show(&r)));
                }
                let json = serde_json::to_string(&step).map_err(|e| format!("{}: not serialisable: {}", what, e))?;
                let received: Step<S> = serde_json::from_str(&json)
                    .map_err(|e| format!("{}: cannot be read back from {}: {}", what, json, e))?;
                let follow = |d: &S::Node, who: &str| -> Result<S::Node, String> {
                    let x = received.apply(d).map_err(|e| format!("{}: refused by {}: {}", what, who, e))?;
                    ensure!(x == next, "{}: {} holds {} instead of {}", what, who, S::show(&S::read(&x)), S::show(&r));
                    Ok(x)
                };
                replica = follow(&replica, "the replica")?;
                cx.ev("version compared on a replica");
                if let Some(j) = &joiner {
                    joiner = Some(follow(j, "the late joiner")?);
                    cx.ev("version compared on a replica");
                }
                if rng.chance(8) || (joiner.is_none() && rng.chance(20)) {
                    if joiner.is_none() {
                        cx.ev("late joiner");
                    }
                    joiner = Some(reread::<S>(&next, "snapshot")?);
                }
                cx.ev("step applied");
                match &st {
                    MStep::AddMark { .. } | MStep::RemoveMark { .. } => cx.ev("mark step applied"),
                    MStep::Around { .. } => cx.ev("replace-around applied"),
                    _ => {}
                }
                cx.seen(&(&m, &st));
                log.push(json);
                doc = next;
                m = r;
                versions.push(m.clone());
            }
        }
    }
    // replay the whole log
    let mut d = S::build(&start);
    for (i, json) in log.iter().enumerate() {
        let s: Step<S> = serde_json::from_str(json).map_err(|e| format!("replay: {} from {}", e, json))?;
        d = s.apply(&d).map_err(|e| format!("replay of {} on version {}: refused: {}", json, i, e))?;
        let r = S::read(&d);
        cx.eval();
        ensure!(
            r == versions[i + 1],
            "replay of {} gives {} instead of {}",
            json,
            S::show(&r),
            S::show(&versions[i + 1])
        );
    }
    ensure!(d == doc, "the replayed document is not equal to the original: {}", S::show(&m));
    cx.ev("offline replay");
    cx.sample(|| format!("{} steps from {} to {}", log.len(), S::show(&start), S::show(&m)));
    Ok(())
}

fn reread<S: Spec>(d: &S::Node, what: &str) -> Result<S::Node, String> {
    let j = serde_json::to_string(d).map_err(|e| format!("{} cannot be written: {}", what, e))?;
    let n: S::Node = serde_json::from_str(&j).map_err(|e| format!("{} {} cannot be read: {}", what, j, e))?;
    ensure!(&n == d, "{} {} reads as another document: {}", what, j, S::show(&S::read(&n)));
    Ok(n)
}

// ---------------------------------------------------------------- C19

/// What is shared between threads; the compiler's own verdict is asked for separately, so that a
/// type that stops being shareable is reported instead of breaking the build of this check.
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait Fallback {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> Fallback for &Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    fn shareable(&self) -> bool {
        true
    }
}
macro_rules! shareable {
    ($($t:ty),*) => { [$((stringify!($t), (&Probe::<$t>(PhantomData)).shareable())),*] };
}

enum Op {
    Resolve(usize, usize),
    SliceOf(usize, usize, usize, bool),
    Replace(usize, usize, usize, usize),
    Apply(usize, usize),
    ToJson(usize),
    FromJson(String),
    StepJson(usize),
    ToMd(usize),
    FromMd(String),
    Text(usize),
    Visit(usize, usize, usize),
    Equal(usize, usize),
    Valid(usize),
    Between(usize, usize, usize, bool, bool, bool),
    Cut(usize, usize, usize),
    Fits(usize, usize, usize, usize),
    Marks(usize, usize),
}

struct World<S: Spec> {
    docs: Vec<S::Node>,
    slices: Vec<Slice<S>>,
    steps: Vec<Step<S>>,
}

fn build_world(docs: &[MNode], slices: &[MSlice], steps: &[MStep]) -> World<MD> {
    World {
        docs: docs.iter().map(MD::build).collect(),
        slices: slices.iter().map(|s| MD::build_slice(s)).collect(),
        steps: steps.iter().map(|s| MD::build_step(s)).collect(),
    }
}

/// The complete observable outcome of an operation, as text.
fn perform(w: &World<MD>, op: &Op) -> String {
    use prosemirror::model::NodeType;
    let sh = |n: &MarkdownNode| MD::show(&MD::read(n));
    let r = guarded(|| match op {
        Op::Resolve(d, p) => match w.docs[*d].resolve(*p) {
            Err(e) => format!("{:?}", e),
            Ok(r) => {
                let mut s = format!("{:?}", (r.text_offset(), r.node_before().map(|n| sh(&n)), r.node_after().map(|n| sh(&n))));
                s.push_str(&sh(r.parent()));
                let mut k = 0;
                while r.before(k + 1).is_some() && r.before(k + 1) != Some(*p) && k < 40 {
                    s.push_str(&format!("{:?}", (r.start(k), r.end(k), r.index(k), r.index_after(k), r.before(k), r.after(k))));
                    k += 1;
                }
                let size = w.docs[*d].content_size();
                for q in (0..=size).step_by(1 + size / 400) {
                    s.push_str(&format!(".{}", r.shared_depth(q)));
                }
                s
            }
        },
        Op::SliceOf(d, a, b, p) => match w.docs[*d].slice(*a..*b, *p) {
            Err(e) => format!("{:?}", e),
            Ok(s) => format!("{:?}", MD::read_slice(&s)),
        },
        Op::Replace(d, a, b, s) => match w.docs[*d].replace(*a..*b, &w.slices[*s]) {
            Err(e) => format!("{:?}", e),
            Ok(n) => sh(&n),
        },
        Op::Apply(d, s) => match w.steps[*s].apply(&w.docs[*d]) {
            Err(e) => format!("{:?}", e),
            Ok(n) => sh(&n),
        },
        Op::ToJson(d) => serde_json::to_string(&w.docs[*d]).unwrap_or_else(|e| e.to_string()),
        Op::FromJson(j) => match serde_json::from_str::<MarkdownNode>(j) {
            Ok(n) => sh(&n),
            Err(e) => e.to_string(),
        },
        Op::StepJson(s) => serde_json::to_string(&w.steps[*s]).unwrap_or_else(|e| e.to_string()),
        Op::ToMd(d) => format!("{:?}", to_markdown(&w.docs[*d])),
        Op::FromMd(t) => match from_markdown(t) {
            Ok(n) => sh(&n),
            Err(e) => format!("{:?}", e),
        },
        Op::Text(d) => w.docs[*d].text_content(),
        Op::Visit(d, a, b) => {
            let mut s = String::new();
            if let Some(c) = w.docs[*d].content() {
                c.nodes_between(
                    *a,
                    *b,
                    &mut |n, p| {
                        s.push_str(&format!("{}:{:?} ", p, n.r#type()));
                        true
                    },
                    0,
                );
            }
            s
        }
        Op::Between(d, a, b, separated, sep, leaf) => {
            let mut s = String::new();
            if let Some(c) = w.docs[*d].content() {
                c.text_between(&mut s, *separated, *a, *b, if *sep { Some("/") } else { None }, if *leaf { Some("*") } else { None });
            }
            s
        }
        Op::Cut(d, a, b) => sh(&w.docs[*d].cut(*a..*b)),
        Op::Fits(d, a, b, s) => {
            let mut t = String::new();
            fn all<'a>(n: &'a MarkdownNode, out: &mut Vec<&'a MarkdownNode>) {
                out.push(n);
                n.content().map(Fragment::children).unwrap_or_default().iter().for_each(|c| all(c, out));
            }
            let mut nodes = vec![];
            all(&w.docs[*d], &mut nodes);
            for n in nodes {
                let k = n.child_count();
                let (x, y) = (*a % (k + 1), *b % (k + 1));
                t.push_str(&format!(
                    "{:?} {:?};",
                    n.can_replace(x.min(y), x.max(y), Some(&w.slices[*s].content), ..),
                    { use prosemirror::model::ContentMatch; n.content_match_at(x).map(|m| m.valid_end()).ok() }
                ));
            }
            t
        }
        Op::Marks(s, t) => {
            use prosemirror::model::{Mark, MarkSet};
            use std::borrow::Cow;
            let mark = |i: usize| match &w.steps[i] {
                Step::AddMark(s) => Some(s.mark.clone()),
                Step::RemoveMark(s) => Some(s.mark.clone()),
                _ => None,
            };
            match (mark(*s), mark(*t)) {
                (Some(a), Some(b)) => {
                    let set: MarkSet<MD> = a.add_to_set(Cow::Owned(MarkSet::default())).into_owned();
                    let both = b.add_to_set(Cow::Borrowed(&set)).into_owned();
                    let less = a.remove_from_set(Cow::Borrowed(&both)).into_owned();
                    format!("{:?} {:?} {:?} {}", set, both, less, both.contains(&a))
                }
                _ => String::new(),
            }
        }
        Op::Equal(a, b) => format!("{}", w.docs[*a] == w.docs[*b]),
        Op::Valid(d) => {
            let n = &w.docs[*d];
            format!("{:?} {}", n.content().map(|c| n.r#type().valid_content(c)), n.node_size())
        }
    });
    r.unwrap_or_else(|e| format!("panic: {}", e))
}

pub fn c19(cx: &mut Cx, rng: &mut Rng, idx: u64) -> R {
    c19_with(cx, rng, 4, 2, 30, if idx % 400 == 7 { Some(idx) } else { None })
}

/// What the oracle says about an operation: its complete outcome, or that it is an error.
enum Told {
    Exactly(String),
    StartsWith(String),
    Refused,
}
fn told(docs: &[MNode], slices: &[MSlice], steps: &[MStep], op: &Op) -> Option<Told> {
    let sd = MD::desc();
    let plain = |s: &MSlice| s.well_formed() && sd.noncanonical_list(&s.content).is_none();
    Some(match op {
        Op::Resolve(d, p) => match resolve(&docs[*d], *p) {
            Err(_) => Told::Refused,
            Ok(r) => {
                let parent = r.parent();
                let off = p - r.lv[r.depth()].start;
                let toks = list_tokens(parent.children());
                let around = |a: usize, b: usize| -> Option<String> {
                    let l = parse(&toks[a..b], sd.text)?;
                    l.first().map(|n| sd.show(n))
                };
                let mut at = 0;
                let (mut before, mut after) = (None, None);
                for c in parent.children() {
                    let end = at + c.size();
                    if at < off && off <= end {
                        before = around(at, off);
                    }
                    if at <= off && off < end {
                        after = around(off, end);
                    }
                    at = end;
                }
                Told::StartsWith(format!("{:?}{}", (r.text_offset, before, after), sd.show(parent)))
            }
        },
        Op::SliceOf(d, a, b, p) => match slice(&docs[*d], *a, *b, *p, sd.text) {
            None => Told::Refused,
            Some(s) => Told::Exactly(format!("{:?}", s)),
        },
        Op::Replace(d, a, b, s) => match replace(sd, &docs[*d], *a, *b, &slices[*s]) {
            Verdict::Ok(n) if plain(&slices[*s]) => Told::Exactly(sd.show(&n)),
            Verdict::Ok(_) | Verdict::Malformed => return None,
            _ => Told::Refused,
        },
        Op::Apply(d, s) => {
            if let MStep::Replace { slice, .. } | MStep::Around { slice, .. } = &steps[*s] {
                if !plain(slice) {
                    return None;
                }
            }
            if matches!(&steps[*s], MStep::AddMark { .. } | MStep::RemoveMark { .. }) && sd.invalid(&docs[*d]).is_some() {
                return None;
            }
            match apply(sd, &docs[*d], &steps[*s]) {
                StepVerdict::Ok(n) => Told::Exactly(sd.show(&n)),
                StepVerdict::Refuse(_) => Told::Refused,
                StepVerdict::Open => return None,
            }
        }
        Op::Text(d) => {
            fn text(n: &MNode, s: &mut String) {
                if let Body::Text(t) = &n.body {
                    s.push_str(t)
                }
                n.children().iter().for_each(|c| text(c, s))
            }
            let mut s = String::new();
            text(&docs[*d], &mut s);
            Told::Exactly(s)
        }
        Op::Equal(a, b) => Told::Exactly(format!("{}", docs[*a] == docs[*b])),
        Op::Valid(d) => Told::Exactly(format!(
            "{:?} {}",
            Some(sd.children_ok(docs[*d].ty, docs[*d].children())),
            docs[*d].size()
        )),
        Op::FromJson(_) | Op::ToJson(_) | Op::StepJson(_) | Op::ToMd(_) | Op::FromMd(_) | Op::Visit(..) => return None,
        Op::Between(..) | Op::Cut(..) | Op::Fits(..) | Op::Marks(..) => return None,
    })
}

/// The operations of a case, in an order of their own, in a process that has done nothing before.
pub fn fresh(idx: u64, k: u64) -> i32 {
    let mut rng = Rng::new(crate::supervise::seed(), hash64(&"C19"), idx);
    let case = Case::new(&mut rng, 30);
    let mut order: Vec<usize> = (0..case.ops.len()).collect();
    Rng::new(k, 77, idx).shuffle(&mut order);
    let w = case.world();
    let mut out = vec![String::new(); case.ops.len()];
    for i in order {
        out[i] = perform(&w, &case.ops[i]);
    }
    println!("{}", serde_json::to_string(&out).unwrap());
    0
}
fn in_fresh_process(idx: u64, k: u64) -> Option<Vec<String>> {
    let o = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["fresh", &idx.to_string(), &k.to_string()])
        .stdin(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .output()
        .ok()?;
    serde_json::from_slice(&o.stdout).ok()
}

struct Case {
    docs: Vec<MNode>,
    slices: Vec<MSlice>,
    steps: Vec<MStep>,
    ops: Vec<Op>,
}

impl Case {
    fn new(rng: &mut Rng, nops: usize) -> Case {
        let sd = MD::desc();
        let nd = 3;
        let mut mdocs: Vec<MNode> = (0..nd).map(|_| gen::small_doc(rng, sd)).collect();
        if rng.chance(30) {
            // two documents that are nearly the same
            let st = gen::gen_step(rng, sd, &mdocs[0]);
            if let StepVerdict::Ok(n) = apply(sd, &mdocs[0], &st) {
                mdocs[1] = n;
            }
        }
        let mut mslices = vec![];
        let mut msteps = vec![];
        let mut ops = vec![];
        for _ in 0..nops {
            let d = rng.below(nd);
            let size = mdocs[d].content_size();
            let (a, b) = {
                let x = rng.below(size + 2);
                let y = rng.below(size + 2);
                (x.min(y), x.max(y))
            };
            let fine = positions(&mdocs[d]);
            ops.push(match rng.below(20) {
                0 => Op::Resolve(d, a),
                1 => Op::SliceOf(d, a, b, rng.chance(20)),
                2 => {
                    let (a, b, s) = gen::gen_replace(rng, sd, &mdocs[d]);
                    mslices.push(s);
                    Op::Replace(d, a, b, mslices.len() - 1)
                }
                3..=5 => {
                    msteps.push(gen::gen_step(rng, sd, &mdocs[d]));
                    Op::Apply(if rng.chance(80) { d } else { rng.below(nd) }, msteps.len() - 1)
                }
                6 => Op::ToJson(d),
                7 => Op::FromJson(serde_json::to_string(&MD::build(&mdocs[d])).unwrap_or_default()),
                8 if !msteps.is_empty() => Op::StepJson(rng.below(msteps.len())),
                9 => Op::ToMd(d),
                10 => {
                    let mut t = mdref::gen_markdown(rng);
                    while mdref::events(&t).is_none() {
                        t = mdref::gen_markdown(rng);
                    }
                    Op::FromMd(t)
                }
                11 => Op::Text(d),
                12 => Op::Visit(d, a, b),
                13 => Op::Equal(d, rng.below(nd)),
                14 | 15 => {
                    let (a, b) = gen::pick_range(rng, &fine);
                    Op::Between(d, a, b, rng.chance(70), rng.chance(70), rng.chance(40))
                }
                16 => {
                    let (a, b) = gen::pick_range(rng, &fine);
                    Op::Cut(d, a, b)
                }
                17 if !mslices.is_empty() => Op::Fits(d, a, b, rng.below(mslices.len())),
                18 if !msteps.is_empty() => Op::Marks(rng.below(msteps.len()), rng.below(msteps.len())),
                _ => Op::Valid(d),
            });
        }
        Case { docs: mdocs, slices: mslices, steps: msteps, ops }
    }
    fn world(&self) -> World<MD> {
        build_world(&self.docs, &self.slices, &self.steps)
    }
}

/// what ran while something else was running
struct Span {
    thread: usize,
    from: usize,
    to: usize,
}

pub fn c19_with(cx: &mut Cx, rng: &mut Rng, threads: usize, rounds: usize, nops: usize, again: Option<u64>) -> R {
    for (name, ok) in shareable!(
        MarkdownNode,
        MarkdownMark,
        Fragment<MD>,
        MarkSet<MD>,
        Text,
        Slice<MD>,
        Step<MD>
    ) {
        ensure!(ok, "{} cannot be shared between threads (not Send + Sync)", name);
    }
    cx.ev("shareable between threads");

    let sd = MD::desc();
    let case = Case::new(rng, nops);
    let Case { docs: mdocs, slices: mslices, steps: msteps, ops } = &case;
    cx.doing = format!("operations on {}", mdocs.iter().map(|d| sd.show(d)).collect::<Vec<_>>().join(" and "));
    let describe = |op: &Op| -> String {
        match op {
            Op::Resolve(d, p) => format!("resolve {} in {}", p, sd.show(&mdocs[*d])),
            Op::SliceOf(d, a, b, p) => format!("slice {}..{} (parents: {}) of {}", a, b, p, sd.show(&mdocs[*d])),
            Op::Replace(d, a, b, s) => format!("replace {}..{} by {:?} in {}", a, b, mslices[*s], sd.show(&mdocs[*d])),
            Op::Apply(d, s) => format!("{} applied to {}", show_step(sd, &msteps[*s]), sd.show(&mdocs[*d])),
            Op::ToJson(d) => format!("JSON of {}", sd.show(&mdocs[*d])),
            Op::FromJson(j) => format!("reading {}", j),
            Op::StepJson(s) => format!("JSON of {}", show_step(sd, &msteps[*s])),
            Op::ToMd(d) => format!("Markdown of {}", sd.show(&mdocs[*d])),
            Op::FromMd(t) => format!("reading Markdown {:?}", t),
            Op::Text(d) => format!("text of {}", sd.show(&mdocs[*d])),
            Op::Visit(d, a, b) => format!("visiting {}..{} of {}", a, b, sd.show(&mdocs[*d])),
            Op::Equal(a, b) => format!("comparing {} and {}", sd.show(&mdocs[*a]), sd.show(&mdocs[*b])),
            Op::Between(d, a, b, sd1, se, le) => format!("text {}..{} ({}, {}, {}) of {}", a, b, sd1, se, le, sd.show(&mdocs[*d])),
            Op::Cut(d, a, b) => format!("cutting {}..{} of {}", a, b, sd.show(&mdocs[*d])),
            Op::Fits(d, a, b, s) => format!("matching {} {} {:?} in {}", a, b, mslices[*s], sd.show(&mdocs[*d])),
            Op::Marks(a, b) => format!("marks of {} and {}", show_step(sd, &msteps[*a]), show_step(sd, &msteps[*b])),
            Op::Valid(d) => format!("validity of {}", sd.show(&mdocs[*d])),
        }
    };

    // the reference: every operation alone, on copies of its own
    let mut want = vec![];
    for op in ops {
        let w = case.world();
        let r = perform(&w, op);
        ensure!(!r.starts_with("panic: "), "{}: {}", describe(op), r);
        match told(mdocs, mslices, msteps, op) {
            Some(Told::Exactly(t)) => {
                ensure!(r == t, "{}: gives {} instead of {}", describe(op), r, t);
                cx.ev("judged by the oracle");
            }
            Some(Told::StartsWith(t)) => {
                ensure!(r.starts_with(&t), "{}: gives {} instead of {}", describe(op), r, t);
                cx.ev("judged by the oracle");
            }
            Some(Told::Refused) => {
                ensure!(!r.starts_with("doc("), "{}: gives {} instead of an error", describe(op), r);
                cx.ev("judged by the oracle");
            }
            None => {}
        }
        want.push(r);
        cx.seen(&describe(op));
    }
    if let Some(idx) = again {
        for k in 0..3 {
            if let Some(got) = in_fresh_process(idx, k) {
                for i in 0..ops.len() {
                    ensure!(
                        got.get(i) == Some(&want[i]),
                        "{}: gives {} here but {:?} in another process that did the operations in another order",
                        describe(&ops[i]),
                        want[i],
                        got.get(i)
                    );
                }
                cx.ev("compared with a fresh process");
            }
        }
    }

    cx.sample(|| {
        let l: Vec<String> = ops.iter().take(3).map(|o| describe(o)).collect();
        format!("{} threads, {} operations: {}, ...", threads, ops.len(), l.join("; "))
    });
    let world = Share(case.world());
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut v: Vec<usize> = vec![];
            for _ in 0..rounds {
                let mut o: Vec<usize> = (0..ops.len()).collect();
                rng.shuffle(&mut o);
                v.extend(o);
            }
            v
        })
        .collect();
    let clock = std::sync::atomic::AtomicUsize::new(0);
    let barrier = std::sync::Barrier::new(threads);
    let (wr, opr, wantr, br, clock) = (&world, Share(ops), &want, &barrier, &clock);
    let opr = &opr;
    let ran: Vec<(Vec<Span>, Option<(usize, String)>)> = std::thread::scope(|s| {
        let hs: Vec<_> = orders
            .iter()
            .enumerate()
            .map(|(thread, o)| {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                        br.wait();
                        let tick = || clock.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        let mut log = vec![];
                        for i in o {
                            let from = tick();
                            let r = perform(wr.get(), &opr.get()[*i]);
                            log.push(Span { thread, from, to: tick() });
                            if r != wantr[*i] {
                                return (log, Some((*i, r)));
                            }
                        }
                        (log, None)
                    })
                    .expect("spawn")
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or((vec![], Some((0, "thread died".into()))))).collect()
    });
    for _ in 0..threads {
        cx.ev("threads run");
    }
    let mut spans: Vec<&Span> = ran.iter().flat_map(|r| &r.0).collect();
    spans.sort_by_key(|s| s.from);
    for w in spans.windows(2) {
        if w[0].thread != w[1].thread {
            cx.ev("context switches");
            if w[1].from < w[0].to {
                cx.ev("overlapping operations");
            }
        }
    }
    cx.schedules.insert(hash64(&spans.iter().map(|s| s.thread).collect::<Vec<_>>()));
    for (_, b) in &ran {
        if let Some((i, r)) = b {
            return Err(format!(
                "{}: gives {} alone but {} on a shared document among other operations",
                describe(&ops[*i]),
                want[*i],
                r
            ));
        }
    }
    for _ in 0..threads * rounds * ops.len() {
        cx.ev("operation compared");
        cx.eval();
    }
    let world = world.0;
    for (i, d) in world.docs.iter().enumerate() {
        ensure!(MD::read(d) == mdocs[i], "document {} was changed by using it: now {}", sd.show(&mdocs[i]), MD::show(&MD::read(d)));
        cx.ev("arguments unchanged");
    }
    for (i, s) in world.slices.iter().enumerate() {
        ensure!(MD::read_slice(s) == mslices[i], "a slice was changed by using it: {:?}", mslices[i]);
    }
    for (i, s) in world.steps.iter().enumerate() {
        ensure!(s == &MD::build_step(&msteps[i]), "a step was changed by using it: {}", show_step(sd, &msteps[i]));
    }
    // and again, alone, afterwards
    for (i, op) in ops.iter().enumerate() {
        let r = perform(&world, op);
        ensure!(r == want[i], "{}: gives {} first and {} later", describe(op), want[i], r);
    }
    Ok(())
}
