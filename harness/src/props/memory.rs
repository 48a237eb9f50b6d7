//! C25: operations keep nothing, and need memory in proportion to what they are given and give.
use super::json::{hostile_doc, hostile_slice, number, Style};
use super::replace::show_step;
use super::*;
use crate::gen;
use crate::mdref;
use crate::meter::{live, measure};
use crate::spec_md;
use crate::ensure;
use prosemirror::markdown::{from_markdown, to_markdown, MD};
use prosemirror::model::{Fragment, Mark, MarkSet, NodeType};
use prosemirror::transform::Step;
use std::borrow::Cow;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        quick: 6_000,
        thorough: 120_000,
        run: |cx, rng, idx| {
            if idx % 4 == 3 {
                session::<crate::spec_ts::TS>(cx, rng)
            } else {
                session::<MD>(cx, rng)
            }
        },
        rule: "A case is a session of some thousand operations on documents, slices, steps and texts that are all different (fresh strings in texts, attributes and marks), a counting allocator around every call. Distinct non-trivial: distinct operations that allocated.",
        floors: &[
            ("resolve", 50_000),
            ("slice", 50_000),
            ("replace", 50_000),
            ("step", 50_000),
            ("cut", 50_000),
            ("write json", 30_000),
            ("read json", 30_000),
            ("read damaged json", 1_000),
            ("text", 30_000),
            ("fragment", 30_000),
            ("mark set", 30_000),
            ("write markdown", 20_000),
            ("read markdown", 20_000),
            ("refused", 50_000),
            ("session", 2_000),
        ],
        assumptions: &[
            "Memory is what is allocated on the calling thread; the first third of a session is left out of the balance, so that tables built once are no violation.",
        ],
    }]
}

/// What is built once may stay; after that nothing does.
const KEEP_BYTES: i64 = 4096;
const KEEP_EVENTS: u64 = 6;
/// Peak: a fixed part, and so many times what goes in and comes out, per level of nesting.
const FIXED: i64 = 16 << 10;
const TIMES: i64 = 6;
/// A result holds at most so many times what a copy of it and the inputs do.
const HELD: i64 = 8;

struct Books {
    counting: bool,
    left: i64,
    events: u64,
}

impl Books {
    /// `base`: the bytes of the inputs; `weigh`: the bytes of a copy of the result.
    fn run<T>(
        &mut self,
        cx: &mut Cx,
        op: &'static str,
        what: &dyn Fn() -> String,
        base: i64,
        levels: i64,
        f: impl Fn() -> T,
        weigh: impl Fn(&T) -> Option<i64>,
    ) -> R {
        let before = live();
        let (r, peak, kept) = measure(&f);
        let own = weigh(&r);
        drop(r);
        let mut left = live() - before;
        cx.eval();
        cx.ev(op);
        let own = match own {
            Some(w) => {
                let held = kept - left;
                ensure!(
                    held <= 1024 + HELD * (w + base),
                    "{}: {}: the result holds {} bytes, a copy of it {}, the inputs {}",
                    op,
                    what(),
                    held,
                    w,
                    base
                );
                w
            }
            None => {
                cx.ev("refused");
                0
            }
        };
        let allowed = FIXED + TIMES * (base + own) * (levels + 2);
        ensure!(
            peak <= allowed,
            "{}: {}: needs {} bytes at once, for inputs of {} and a result of {} bytes nested {} levels deep",
            op,
            what(),
            peak,
            base,
            own,
            levels
        );
        if left != 0 {
            // again the very same: does it keep something each time?
            let mut each = 0;
            for _ in 0..6 {
                let b = live();
                drop(f());
                if live() != b {
                    each += 1;
                }
            }
            left = live() - before;
            ensure!(
                each < 5,
                "{}: {}: every call leaves memory behind ({} bytes after 7 calls)",
                op,
                what(),
                left
            );
            cx.ev("left something behind once");
            if self.counting {
                self.left += left;
                self.events += 1;
            }
        } else if peak > 0 {
            cx.ev("left nothing");
        }
        Ok(())
    }
}

fn fragment_weight<S: Spec>(f: &Fragment<S>) -> i64 {
    measure(|| f.clone()).2
}
fn node_weight<S: Spec>(n: &S::Node) -> i64 {
    measure(|| n.clone()).2
}

fn levels(n: &MNode) -> i64 {
    1 + n.children().iter().map(levels).max().unwrap_or(0)
}

/// A string that has not been seen before, of one of many looks
fn fresh_word(rng: &mut Rng, count: &mut u64) -> String {
    *count += 1;
    let n = *count * 0x9e37 + 0x51;
    match rng.below(16) {
        0 | 1 | 2 => format!("https://example.org/{:x}", n),
        3 => format!("mailto:{:x}@example.org", n),
        4 => format!("#part-{}", n),
        5 => format!("\u{1f600}\u{1f1e9}{:x}\u{e9}", n),
        6 => format!("e\u{301}\u{4e2d}{:x}", n),
        7 => format!("{:0300x}", n),
        8 if rng.chance(20) => format!("{:05000x}", n),
        9 => format!(" several words, {:x}. And more ", n),
        10 => format!("{}", n),
        11 => format!("ABC{:X}", n),
        12 => format!("image{}.png", n),
        13 => format!("line\n{:x}", n),
        _ => format!("{:x}", n),
    }
}
/// A Markdown text of which every part is new
fn fresh_markdown(rng: &mut Rng, count: &mut u64) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 4) {
        let mut w = || fresh_word(rng, count).replace('\n', " ").replace(' ', "_");
        let (a, b, c) = (w(), w(), w());
        match rng.below(20) {
            0 | 1 => s.push_str(&format!("[{}]({} \"{}\")\n\n", a, b, c)),
            2 => s.push_str(&format!("![{}]({} \"{}\")\n\n", a, b, c)),
            3 => s.push_str(&format!("[{}]\n\n[{}]: {} '{}'\n\n", a, a, b, c)),
            4 => s.push_str(&format!("<{}>\n\n", b)),
            5 => s.push_str(&format!("```{}\n{}\n{}\n```\n\n", a, b, c)),
            6 => s.push_str(&format!("    {}\n    {}\n\n", a, b)),
            7 => s.push_str(&format!("# {}\n\n{}\n---\n\n", a, b)),
            8 => s.push_str(&format!("* {}\n* {}\n  * {}\n\n", a, b, c)),
            9 => s.push_str(&format!("{}. {}\n1. {}\n\n", rng.below(1000), a, b)),
            10 => s.push_str(&format!("> {}\n>\n> > {}\n\n", a, b)),
            11 => s.push_str(&format!("*{}* **{}** `{}`\n\n", a, b, c)),
            12 => s.push_str(&format!("***{}** {}*\n\n", a, b)),
            13 => s.push_str(&format!("{}\\\n{}  \n{}\n\n", a, b, c)),
            14 => s.push_str(&format!("[*{}* ![{}]({})](/x)\n\n", a, b, c)),
            15 => s.push_str(&format!("{}\n\n***\n\n{} &amp; {}\n\n", a, b, c)),
            16 if rng.chance(30) => s.push_str(&format!("<!-- {} -->\n\n", a)),
            17 if rng.chance(30) => s.push_str(&format!("{} <b title=\"{}\">{}\n\n", a, b, c)),
            18 if rng.chance(30) => s.push_str(&format!("{}\n{}\n\n", a, b)),
            _ => s.push_str(&format!("{} {}\n\n", a, b)),
        }
    }
    s
}

/// Strings that have not been seen before, here and there.
fn fresh(rng: &mut Rng, n: &mut MNode, count: &mut u64) {
    let mut f = |rng: &mut Rng, s: &mut String| {
        if rng.chance(25) {
            let w = fresh_word(rng, count);
            if rng.chance(60) {
                s.push_str(&w);
            } else {
                *s = w;
            }
        }
    };
    for a in &mut n.attrs {
        if let AV::Str(s) = a {
            f(rng, s)
        }
    }
    for m in &mut n.marks {
        for s in &mut m.attrs {
            f(rng, s)
        }
    }
    match &mut n.body {
        Body::Text(t) if !t.is_empty() => f(rng, t),
        Body::Branch(c) => c.iter_mut().for_each(|c| fresh(rng, c, count)),
        _ => {}
    }
}

fn session<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let md = sd.name == "markdown";
    let mut b = Books { counting: false, left: 0, events: 0 };
    let mut count = (rng.below(1 << 30) as u64) << 10;
    let rounds = 240;
    for round in 0..rounds {
        b.counting = round * 3 >= rounds;
        let mut m = match rng.below(10) {
            0 => hostile_doc(cx, rng, sd),
            1..=5 => gen::small_doc(rng, sd),
            _ => gen::doc(rng, sd),
        };
        fresh(rng, &mut m, &mut count);
        one::<S>(cx, rng, &mut b, &m, &mut count)?;
        if md && rng.chance(50) {
            markdown(cx, rng, &mut b, &m, &mut count)?;
        }
    }
    ensure!(
        b.left < KEEP_BYTES && b.events < KEEP_EVENTS,
        "in a session of {} documents, all different, {} calls left memory behind after the first {} documents: {} bytes",
        rounds,
        b.events,
        rounds / 3,
        b.left
    );
    cx.ev("session");
    Ok(())
}

fn one<S: Spec>(cx: &mut Cx, rng: &mut Rng, b: &mut Books, m: &MNode, count: &mut u64) -> R {
    let sd = S::desc();
    let doc = S::build(m);
    let h = hash64(m);
    let size = m.content_size();
    let w = node_weight::<S>(&doc);
    let lv = levels(m);
    let pos = if m.is_branch() { positions(m) } else { vec![0] };
    let show = || S::show(m);
    cx.doing = format!("in a session: {}", show());
    cx.sample(|| show());
    for _ in 0..2 {
        let p = if rng.chance(80) { *rng.pick(&pos) } else { number(cx, rng, size) };
        let (x, y) = gen::pick_range(rng, &pos);
        let (x, y) = if rng.chance(85) { (x, y) } else { (number(cx, rng, size), number(cx, rng, size)) };
        cx.seen(&(h, p, x, y));
        b.run(cx, "resolve", &|| format!("{} in {}", p, show()), w, lv, || doc.resolve(p).is_ok(), |r| if *r { Some(0) } else { None })?;
        b.run(
            cx,
            "resolve",
            &|| format!("the nodes at {} in {}", p, show()),
            w,
            lv,
            || doc.resolve(p).ok().map(|r| (r.node_before().map(|n| n.into_owned()), r.node_after().map(|n| n.into_owned()))),
            |r| r.as_ref().map(|(a, c)| a.as_ref().map(node_weight::<S>).unwrap_or(0) + c.as_ref().map(node_weight::<S>).unwrap_or(0)),
        )?;
        let parents = rng.chance(30);
        b.run(cx, "slice", &|| format!("{}..{} of {}", x, y, show()), w, lv, || doc.slice(x..y, parents).ok(), |r| {
            r.as_ref().map(|s| fragment_weight(&s.content))
        })?;
        let fits = rng.chance(60) && m.is_branch();
        let (x, y, s) = if fits { gen::gen_replace(rng, sd, m) } else { (x, y, hostile_slice(cx, rng, sd, m)) };
        let ls = S::build_slice(&s);
        let sw = fragment_weight(&ls.content);
        let slv = s.content.iter().map(levels).max().unwrap_or(0);
        b.run(
            cx,
            "replace",
            &|| format!("{}..{} by {} in {}", x, y, super::replace::show_slice(sd, &s), show()),
            w + sw,
            lv + slv,
            || doc.replace(x..y, &ls).ok(),
            |r| r.as_ref().map(node_weight::<S>),
        )?;
        // a step
        let (x, y) = gen::pick_range(rng, &pos);
        let (x, y) = if rng.chance(80) { (x, y) } else { (number(cx, rng, size), number(cx, rng, size)) };
        let mut mark = gen::gen_mark(rng, sd);
        if rng.chance(50) {
            for a in &mut mark.attrs {
                *count += 1;
                a.push_str(&count.to_string());
            }
        }
        let st = match rng.below(8) {
            0 | 1 if m.is_branch() => gen::gen_step(rng, sd, m),
            2 | 3 if m.is_branch() => gen::gen_around(rng, sd, m),
            4 => {
                let slice = hostile_slice(cx, rng, sd, m);
                let insert = number(cx, rng, list_size(&slice.content));
                let (c, d) = (number(cx, rng, size), number(cx, rng, size));
                MStep::Around { from: x, to: y, gap_from: c, gap_to: d, slice, insert, structure: rng.chance(40) }
            }
            5 => MStep::Replace { from: x, to: y, slice: hostile_slice(cx, rng, sd, m), structure: rng.chance(40) },
            6 => MStep::AddMark { from: x, to: y, mark },
            _ => MStep::RemoveMark { from: x, to: y, mark },
        };
        let lst = S::build_step(&st);
        let (sw, slv) = match &st {
            MStep::Replace { slice, .. } | MStep::Around { slice, .. } => (
                fragment_weight(&S::build_slice(slice).content),
                slice.content.iter().map(levels).max().unwrap_or(0),
            ),
            MStep::AddMark { mark, .. } | MStep::RemoveMark { mark, .. } => {
                (64 + mark.attrs.iter().map(|a| a.len() as i64).sum::<i64>() * (1 + m.count() as i64), 1)
            }
        };
        cx.seen(&(h, &st));
        b.run(
            cx,
            "step",
            &|| format!("{} applied to {}", show_step(sd, &st), show()),
            w + sw,
            lv + slv,
            || lst.apply(&doc).ok(),
            |r| r.as_ref().map(node_weight::<S>),
        )?;
        if rng.chance(30) {
            let what = || format!("of {}", show_step(sd, &st));
            b.run(cx, "write json", &what, sw, slv, || serde_json::to_string(&lst).ok(), |r| r.as_ref().map(|s| s.len() as i64))?;
            let text = serde_json::to_string(&lst).map_err(|e| e.to_string())?;
            b.run(
                cx,
                "read json",
                &what,
                text.len() as i64 * 4 + sw,
                slv + 2,
                || serde_json::from_str::<Step<S>>(&text).is_ok(),
                |r| if *r { Some(0) } else { None },
            )?;
        }
        if m.is_branch() {
            let (x, y) = gen::pick_range(rng, &pos);
            b.run(cx, "cut", &|| format!("{}..{} of {}", x, y, show()), w, lv, || doc.cut(x..y).into_owned(), |r| Some(node_weight::<S>(r)))?;
            if let Some(c) = doc.content() {
                b.run(
                    cx,
                    "text",
                    &|| format!("between {} and {} in {}", x, y, show()),
                    w,
                    lv,
                    || {
                        let mut s = String::new();
                        c.text_between(&mut s, true, x, y, Some("/"), Some("*"));
                        s
                    },
                    |s| Some(s.len() as i64),
                )?;
                let other = ls.content.clone();
                b.run(
                    cx,
                    "fragment",
                    &|| format!("{} and {}", show(), sd.show_list(&s.content)),
                    w + sw + fragment_weight(&other),
                    lv + slv,
                    || c.clone().append(other.clone()),
                    |f| Some(fragment_weight(f)),
                )?;
                if c.child_count() > 0 {
                    let i = rng.below(c.child_count());
                    let j = rng.below(c.child_count());
                    b.run(
                        cx,
                        "fragment",
                        &|| format!("child {} of {} replaced by child {}", i, show(), j),
                        w,
                        lv,
                        || c.replace_child(i, c.child(j).clone()).into_owned(),
                        |f| Some(fragment_weight(f)),
                    )?;
                    b.run(
                        cx,
                        "fragment",
                        &|| format!("what fits between {} and {} in {}", i, j, show()),
                        w,
                        lv,
                        || {
                            (
                                doc.can_replace(i.min(j), i.max(j), Some(&other), ..).ok(),
                                doc.content_match_at(i).is_ok(),
                                doc.r#type().valid_content(c),
                            )
                        },
                        |_| Some(0),
                    )?;
                }
            }
        }
    }
    b.run(cx, "text", &|| format!("of {}", show()), w, lv, || doc.text_content(), |s| Some(s.len() as i64))?;
    b.run(cx, "write json", &show, w, lv, || serde_json::to_string(&doc).ok(), |r| r.as_ref().map(|s| s.len() as i64))?;
    let mut text = serde_json::to_string(&doc).map_err(|e| e.to_string())?;
    if sd.name == "markdown" && rng.chance(30) {
        // as a peer may write it
        let j = super::json::node_json(m, &mut Style(Some(&mut *rng)));
        text = String::new();
        j.text(rng, true, &mut text);
    }
    let mut op = "read json";
    if rng.chance(20) && text.len() > 4 {
        op = "read damaged json";
        let mut k = rng.below(text.len());
        while !text.is_char_boundary(k) {
            k -= 1;
        }
        if rng.chance(50) {
            text.truncate(k);
        } else {
            text.insert_str(k, rng.pick(&["1", "9999999999", "\"", "{", "]", ",", "null"]));
        }
    }
    b.run(
        cx,
        op,
        &|| text.clone(),
        text.len() as i64 * 4 + w,
        lv,
        || serde_json::from_str::<S::Node>(&text).ok(),
        |r| r.as_ref().map(node_weight::<S>),
    )?;
    // mark sets
    let mut marks: Vec<MMark> = (0..4).map(|_| gen::gen_mark(rng, sd)).collect();
    for k in &mut marks {
        for a in &mut k.attrs {
            *count += 1;
            a.push_str(&count.to_string());
        }
    }
    let lm: Vec<S::Mark> = marks.iter().map(|k| S::build_mark(k)).collect();
    let bytes: i64 = marks.iter().map(|k| 64 + k.attrs.iter().map(|a| a.len() as i64).sum::<i64>()).sum();
    b.run(
        cx,
        "mark set",
        &|| sd.show_marks(&marks),
        bytes,
        1,
        || {
            let mut s = MarkSet::<S>::default();
            for k in &lm {
                s.add(k);
            }
            let all = s.clone();
            let t = lm[0].remove_from_set(Cow::Borrowed(&s)).into_owned();
            let u = lm[1].add_to_set(Cow::Borrowed(&t)).into_owned();
            s.remove(&lm[2]);
            (s, t, u, all.contains(&lm[3]))
        },
        |_| Some(3 * bytes),
    )
}

fn markdown(cx: &mut Cx, rng: &mut Rng, b: &mut Books, m: &MNode, count: &mut u64) -> R {
    use crate::supervise::guarded;
    let lv = levels(m);
    if MD::desc().invalid(m).is_none() && m.ty == spec_md::DOC {
        let doc = MD::build(m);
        let w = node_weight::<MD>(&doc);
        // (with all indents, the text can be longer than the document by a factor per level)
        b.run(cx, "write markdown", &|| MD::show(m), w + 64 * m.count() as i64, lv, || to_markdown(&doc).ok(), |r| r.as_ref().map(|s| s.len() as i64))?;
    }
    let text = if rng.chance(40) { mdref::gen_markdown(rng) } else { fresh_markdown(rng, count) };
    if mdref::events(&text).is_none() {
        return Ok(());
    }
    cx.doing = format!("reading {:?}", text);
    // what the parser alone needs
    let parser = measure(|| guarded(|| pulldown_cmark::Parser::new(&text).count())).1;
    b.run(
        cx,
        "read markdown",
        &|| format!("{:?}", text),
        parser + text.len() as i64 * 16,
        1,
        || from_markdown(&text).ok(),
        |r| r.as_ref().map(node_weight::<MD>),
    )
}
