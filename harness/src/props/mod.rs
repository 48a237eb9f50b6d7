//! The properties: one function per property that runs a case and judges what it observed.
use crate::model::*;
use crate::rng::{hash64, Rng};
use crate::spec::Spec;
use prosemirror::model::Node;
use std::collections::{BTreeMap, HashSet};
use std::hash::Hash;

mod errors;
pub mod hist;
pub mod nodes;
mod json;
mod marks;
mod md;
mod memory;
mod replace;
mod structure;

pub type R = Result<(), String>;

/// What the monitors saw.
pub struct Cx {
    pub idx: u64,
    pub cases: u64,
    pub evals: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(u64, String)>,
    /// orders in which threads took turns
    pub schedules: HashSet<u64>,
    /// what is being done now, to explain a panic
    pub doing: String,
}
impl Cx {
    pub fn new() -> Cx {
        Cx {
            idx: 0,
            cases: 0,
            evals: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            schedules: HashSet::new(),
            doing: String::new(),
        }
    }
    pub fn ev(&mut self, k: &'static str) {
        *self.counters.entry(k).or_default() += 1;
    }
    /// one judgement of the oracle
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// a distinct non-trivial input (counted by hash)
    pub fn seen<T: Hash>(&mut self, t: &T) {
        if self.distinct.len() < 1_000_000 {
            self.distinct.insert(hash64(t));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 400 && self.samples.len() < 3 && self.idx % 7 == 3 {
            let s = f();
            if s.len() < 600 {
                self.samples.push((self.idx, s));
            }
        }
    }
}

#[derive(Clone)]
pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Cx, &mut Rng, u64) -> R,
    pub rule: &'static str,
    /// monitor events a complete run must have seen, with minimum counts
    pub floors: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
}

pub fn registry() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(structure::props());
    v.extend(replace::props());
    v.extend(marks::props());
    v.extend(json::props());
    v.extend(md::props());
    v.extend(hist::props());
    v.extend(nodes::props());
    v.extend(errors::props());
    v.extend(memory::props());
    v.sort_by_key(|p| p.id);
    v
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

/// The library's node holds exactly this tree, by content and by the library's own equality.
pub fn same<S: Spec>(what: &str, got: &S::Node, want: &MNode) -> R {
    let r = S::read(got);
    ensure!(
        &r == want,
        "{}: got {} but expected {}",
        what,
        S::show(&r),
        S::show(want)
    );
    ensure!(
        got == &S::build(want),
        "{}: the result reads as {} but is not equal to that document",
        what,
        S::show(want)
    );
    Ok(())
}

/// The same tree up to how text is cut into nodes.
pub fn same_tokens<S: Spec>(what: &str, got: &S::Node, want: &MNode) -> R {
    let r = S::read(got);
    let mut a = vec![];
    let mut b = vec![];
    r.push_tokens(&mut a);
    want.push_tokens(&mut b);
    ensure!(a == b, "{}: got {} but expected {}", what, S::show(&r), S::show(want));
    Ok(())
}

/// Every reported size in the tree equals its token count.
pub fn sizes<S: Spec>(what: &str, n: &S::Node) -> R {
    let m = S::read(n);
    sizes_at::<S>(what, n, &m)
}
fn sizes_at<S: Spec>(what: &str, n: &S::Node, m: &MNode) -> R {
    let (got, want) = (n.node_size(), m.size());
    ensure!(got == want, "{}: {} has node_size {} but spans {} positions", what, S::show(m), got, want);
    if let Some(t) = n.text_node() {
        ensure!(
            t.text.len_utf16() == want,
            "{}: text {:?} reports length {}",
            what,
            t.text.as_str(),
            t.text.len_utf16()
        );
    }
    ensure!(
        n.content_size() == m.content_size(),
        "{}: {} has content_size {} instead of {}",
        what,
        S::show(m),
        n.content_size(),
        m.content_size()
    );
    ensure!(n.child_count() == m.children().len(), "{}: child_count of {}", what, S::show(m));
    if let Some(c) = n.content() {
        ensure!(
            c.size() == m.content_size(),
            "{}: the content of {} has size {} instead of {}",
            what,
            S::show(m),
            c.size(),
            m.content_size()
        );
        for (x, y) in c.children().iter().zip(m.children()) {
            sizes_at::<S>(what, x, y)?;
        }
    }
    Ok(())
}

/// Run `f` on the Markdown schema for two cases out of three and on the test schema otherwise.
#[macro_export]
macro_rules! both {
    ($f:ident) => {
        |cx, rng, idx| {
            if idx % 3 == 2 {
                $f::<$crate::spec_ts::TS>(cx, rng)
            } else {
                $f::<prosemirror::markdown::MD>(cx, rng)
            }
        }
    };
}

/// Split some texts of a document at character boundaries (adjacent texts with equal marks).
pub fn fray(rng: &mut Rng, n: &MNode) -> MNode {
    let mut m = n.clone();
    if let Body::Branch(ch) = &mut m.body {
        let mut out = vec![];
        for c in ch.iter() {
            match &c.body {
                Body::Text(t) if t.chars().count() > 1 && rng.chance(60) => {
                    let k = rng.range(1, t.chars().count() - 1);
                    let cut: usize = t.chars().take(k).map(|c| c.len_utf8()).sum();
                    let mut a = c.clone();
                    a.body = Body::Text(t[..cut].to_string());
                    let mut b = c.clone();
                    b.body = Body::Text(t[cut..].to_string());
                    out.push(a);
                    out.push(b);
                }
                Body::Branch(_) => out.push(fray(rng, c)),
                _ => out.push(c.clone()),
            }
        }
        *ch = out;
    }
    m
}

/// Remove empty texts.
pub fn no_empty(n: &MNode) -> MNode {
    let mut m = n.clone();
    if let Body::Branch(ch) = &mut m.body {
        *ch = ch
            .iter()
            .filter(|c| !matches!(&c.body, Body::Text(t) if t.is_empty()))
            .map(no_empty)
            .collect();
    }
    m
}

/// A document to work on: mostly valid and canonical, sometimes with split texts or any shape.
pub fn any_doc(rng: &mut Rng, sd: &'static SchemaDesc, cx: &mut Cx) -> MNode {
    if rng.below(3000) == 0 {
        let d = crate::gen::very_wide(rng, sd);
        if d.count() > 65_000 {
            cx.ev("some 65536 children");
        }
        return d;
    }
    match rng.below(20) {
        0 | 1 => {
            cx.ev("document with split texts");
            let d = crate::gen::doc(rng, sd);
            fray(rng, &d)
        }
        2 => {
            cx.ev("document of any shape");
            let n = rng.range(1, 4);
            let ch = crate::gen::wild_list(rng, sd, n, 4);
            no_empty(&MNode { ty: sd.doc, attrs: vec![], marks: vec![], body: Body::Branch(ch) })
        }
        _ => crate::gen::doc(rng, sd),
    }
}
