//! C24: a refusal names a condition that really fails, and what it carries is right.
use super::json::{hostile_doc, hostile_slice, number};
use super::replace::{base_doc, plan, show_slice, show_step};
use super::*;
use crate::gen;
use crate::mdref::{self, Expect};
use crate::{both, ensure};
use prosemirror::markdown::{from_markdown, FromMarkdownError};
use prosemirror::model::{ReplaceError, ResolveErr, SliceError};
use prosemirror::transform::StepError;
use pulldown_cmark::{Event, Tag};
use std::error::Error;
use std::ops::Bound;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C24",
        quick: 300_000,
        thorough: 6_000_000,
        run: |cx, rng, idx| {
            if idx % 4 == 3 {
                markdown(cx, rng)
            } else {
                let f: fn(&mut Cx, &mut Rng, u64) -> R = both!(edits);
                f(cx, rng, idx)
            }
        },
        rule: "A case is one document (valid, of any shape, any node as root) with positions, ranges, replacements and steps of every kind, many of them bad; or one Markdown text with things the schema cannot express. Every refusal met is compared with the list of conditions that fail for that call. Distinct non-trivial: distinct refused (document, call) pairs and refused texts.",
        floors: &[
            ("resolve refused", 20_000),
            ("slice refused", 20_000),
            ("replace refused", 50_000),
            ("step refused", 100_000),
            ("position: outside", 50_000),
            ("position: inside a character", 1_000),
            ("position: reversed", 5_000),
            ("too deep", 5_000),
            ("inconsistent depths", 20_000),
            ("join", 500),
            ("content", 5_000),
            ("would overwrite", 5_000),
            ("gap would overwrite", 3_000),
            ("gap not flat", 2_000),
            ("gap does not fit", 200),
            ("insert position", 3_000),
            ("markdown refused", 5_000),
            ("several kinds of condition fail", 1_000),
        ],
        assumptions: &[
            "Which of several failing conditions is named is left open.",
            "Where empty texts or malformed slices make the content to be judged ambiguous, a refusal for content is not judged.",
        ],
    }]
}

/// One failing condition per kind is enough; None: no claim.
type Why = Result<Option<&'static str>, String>;

fn bad_position(m: &MNode, pos: usize) -> Option<&'static str> {
    match resolve(m, pos) {
        Ok(_) => None,
        Err(Unresolved::OutOfRange) => Some("position: outside"),
        Err(Unresolved::InsideChar) => Some("position: inside a character"),
    }
}

/// A position is refused: is it one of these, and is something wrong with it?
fn position(e: &ResolveErr, m: &MNode, pairs: &[(usize, usize)]) -> Why {
    let named: Vec<usize> = match e {
        ResolveErr::RangeError { pos } => vec![*pos],
        // (the position is not reachable by path from here)
        ResolveErr::Index(i) => {
            let s = format!("{:?}", i);
            s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect()
        }
    };
    for (a, b) in pairs {
        for p in [a, b] {
            if named.contains(p) {
                if let Some(w) = bad_position(m, *p) {
                    return Ok(Some(w));
                }
                if a > b {
                    return Ok(Some("position: reversed"));
                }
            }
        }
    }
    Err(format!(
        "position {:?} is named, but the positions asked for are {:?} and those that cannot be addressed are {:?}",
        named,
        pairs,
        pairs
            .iter()
            .flat_map(|p| vec![p.0, p.1])
            .filter(|p| bad_position(m, *p).is_some())
            .collect::<Vec<_>>()
    ))
}

fn replacing<S: Spec>(e: &ReplaceError<S>, m: &MNode, from: usize, to: usize, sl: &MSlice) -> Why {
    let sd = S::desc();
    if let ReplaceError::Resolve(r) = e {
        return position(r, m, &[(from, to)]);
    }
    let (f, t) = (resolve(m, from), resolve(m, to));
    let (os, oe) = (sl.open_start, sl.open_end);
    if let (ReplaceError::InsertTooDeep, Ok(f)) = (e, &f) {
        ensure!(os > f.depth(), "open {} levels deep, which is not deeper than the position ({})", os, f.depth());
        return Ok(Some("too deep"));
    }
    let (f, t) = match (f, t) {
        (Ok(f), Ok(t)) if from <= to => (f, t),
        _ => return Err("there is no such range, so nothing in it can be wrong".into()),
    };
    let (fd, td) = (f.depth(), t.depth());
    let sound = sl.well_formed();
    let clear = sound && !empties(m) && !sl.content.iter().any(empties);
    match e {
        ReplaceError::InconsistentOpenDepths { from_depth, open_start, to_depth, open_end } => {
            ensure!(
                (*from_depth, *open_start, *to_depth, *open_end) == (fd, os, td, oe),
                "the depths are {} open {} and {} open {}",
                fd,
                os,
                td,
                oe
            );
            ensure!(
                !sound || os > fd || oe > td || fd - os != td - oe,
                "the depths are consistent: {} - {} and {} - {}",
                fd,
                os,
                td,
                oe
            );
            Ok(Some("inconsistent depths"))
        }
        ReplaceError::CannotJoin(sub, main) => match replace(sd, m, from, to, sl) {
            Verdict::Misfit(b) => {
                ensure!(
                    b.joins.iter().any(|(x, y)| S::node_type(*x) == *main && S::node_type(*y) == *sub),
                    "what cannot be joined (first, second) is {:?}",
                    b.joins.iter().map(|(x, y)| (S::node_type(*x), S::node_type(*y))).collect::<Vec<_>>()
                );
                if !b.contents.is_empty() {
                    return Ok(Some("several kinds of condition fail"));
                }
                Ok(Some("join"))
            }
            Verdict::Malformed => Ok(None),
            v => Err(format!("all nodes could be joined ({})", brief(&v))),
        },
        ReplaceError::InvalidContent(ty) => {
            if !clear {
                return Ok(None);
            }
            match replace(sd, m, from, to, sl) {
                Verdict::Misfit(b) => {
                    ensure!(
                        b.contents.iter().any(|x| S::node_type(*x) == *ty),
                        "the nodes that would get content they do not allow are {:?}",
                        b.contents.iter().map(|x| S::node_type(*x)).collect::<Vec<_>>()
                    );
                    if !b.joins.is_empty() {
                        return Ok(Some("several kinds of condition fail"));
                    }
                    Ok(Some("content"))
                }
                v => Err(format!("all content would be allowed ({})", brief(&v))),
            }
        }
        _ => Ok(None),
    }
}

fn brief(v: &Verdict) -> &'static str {
    match v {
        Verdict::Ok(_) => "it fits",
        Verdict::BadPos => "bad position",
        Verdict::TooDeep => "too deep",
        Verdict::Inconsistent => "inconsistent depths",
        Verdict::Misfit(_) => "does not fit",
        Verdict::Malformed => "malformed slice",
    }
}

fn empties(n: &MNode) -> bool {
    (n.is_text() && n.size() == 0) || n.children().iter().any(empties)
}

fn stepping<S: Spec>(e: &StepError<S>, m: &MNode, st: &MStep) -> Why {
    let sd = S::desc();
    let fine = |a: usize, b: usize| a <= b && resolve(m, a).is_ok() && resolve(m, b).is_ok();
    match st {
        MStep::Replace { from, to, slice, structure } => match e {
            StepError::WouldOverwrite => {
                ensure!(*structure, "the step is not structural");
                if empties(m) {
                    return Ok(None);
                }
                // (with no such range, what is left of it counts)
                ensure!(!fine(*from, *to) || has_content(m, *from, *to), "nothing but tokens would be deleted");
                Ok(Some("would overwrite"))
            }
            StepError::Resolve(r) | StepError::Slice(SliceError::Resolve(r)) => position(r, m, &[(*from, *to)]),
            StepError::Replace(r) => replacing::<S>(r, m, *from, *to, slice),
            _ => Err("a replace step has no gap and no insert position".into()),
        },
        MStep::Around { from, to, gap_from, gap_to, slice: sl, insert, structure } => {
            let gap = if gap_from == gap_to {
                Some(MSlice::empty())
            } else {
                slice(m, *gap_from, *gap_to, false, sd.text)
            };
            let flat = gap.as_ref().map(|g| g.open_start == 0 && g.open_end == 0);
            match e {
                StepError::WouldOverwrite => Err("this is not a replace step".into()),
                StepError::GapWouldOverwrite => {
                    ensure!(*structure, "the step is not structural");
                    if empties(m) {
                        return Ok(None);
                    }
                    let sides = [(*from, *gap_from), (*gap_to, *to)];
                    ensure!(
                        sides.iter().any(|s| !fine(s.0, s.1) || has_content(m, s.0, s.1)),
                        "nothing but tokens would be deleted on either side of the gap"
                    );
                    Ok(Some("gap would overwrite"))
                }
                StepError::Resolve(r) | StepError::Slice(SliceError::Resolve(r)) => {
                    position(r, m, &[(*gap_from, *gap_to), (*from, *to), (*from, *gap_from), (*gap_to, *to)])
                }
                StepError::GapNotFlat => {
                    ensure!(flat == Some(false), "the gap is flat, or none");
                    Ok(Some("gap not flat"))
                }
                _ => {
                    let gap = match (&gap, flat) {
                        (Some(g), Some(true)) => g,
                        _ => return Err("without a flat gap, there is nothing to insert".into()),
                    };
                    let whole = insert_at(sl, *insert, &gap.content, sd.text);
                    if let StepError::Insert(_) = e {
                        ensure!(whole.is_none(), "the insert position is in the slice");
                        return Ok(Some("insert position"));
                    }
                    let whole = match whole {
                        Some(w) => w,
                        None => return Err("the insert position is not in the slice".into()),
                    };
                    match e {
                        StepError::GapNotFit => {
                            if empties(m) || sl.content.iter().any(empties) {
                                return Ok(None);
                            }
                            ensure!(!gap_fits(sd, sl, *insert, &gap.content), "the gap fits into the slice");
                            Ok(Some("gap does not fit"))
                        }
                        // (what was inserted into an empty text is not as before)
                        StepError::Replace(
                            ReplaceError::InvalidContent(_)
                            | ReplaceError::InconsistentOpenDepths { .. }
                            | ReplaceError::CannotJoin(..),
                        ) if sl.content.iter().any(empties) => Ok(None),
                        StepError::Replace(r) => replacing::<S>(r, m, *from, *to, &whole),
                        _ => Ok(None),
                    }
                }
            }
        }
        MStep::AddMark { from, to, mark } | MStep::RemoveMark { from, to, mark } => match e {
            StepError::Resolve(r) | StepError::Slice(SliceError::Resolve(r)) => position(r, m, &[(*from, *to)]),
            StepError::Replace(r) => {
                if !fine(*from, *to) {
                    return replacing::<S>(r, m, *from, *to, &MSlice::empty());
                }
                let add = matches!(st, MStep::AddMark { .. });
                let mapped = map_marks(sd, m, *from, *to, &|p, ms| {
                    if !add {
                        mark_remove(ms, mark)
                    } else if sd.types[p as usize].allow >> mark.ty & 1 == 1 {
                        mark_add(ms, mark)
                    } else {
                        ms.clone()
                    }
                });
                match slice(&mapped, *from, *to, false, sd.text) {
                    Some(s) => replacing::<S>(r, m, *from, *to, &s),
                    None => Ok(None),
                }
            }
            _ => Err("a mark step has no gap, no insert position and overwrites nothing".into()),
        },
    }
}

/// The error can be shown, and leads to the error it was made from.
fn shown(e: &dyn Error, wraps: bool) -> R {
    let mut at: Option<&dyn Error> = Some(e);
    let mut n = 0;
    while let Some(x) = at {
        ensure!(!x.to_string().trim().is_empty(), "{:?} has an empty message", x);
        n += 1;
        ensure!(n < 9, "{:?} does not end", e);
        at = x.source();
    }
    ensure!(!wraps || n > 1, "{:?} does not give its cause", e);
    Ok(())
}

fn account<T: std::hash::Hash>(cx: &mut Cx, what: &str, call: &'static str, e: String, why: Why, key: &T) -> R {
    cx.eval();
    cx.ev(call);
    match why {
        Ok(Some(w)) => {
            cx.ev(w);
            cx.seen(key);
            cx.sample(|| format!("{}: {} ({})", what, e, w));
            Ok(())
        }
        Ok(None) => {
            cx.ev("not judged");
            Ok(())
        }
        Err(w) => Err(format!("{}: refused as {} although {}", what, e, w)),
    }
}

fn edits<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = if rng.chance(40) { hostile_doc(cx, rng, sd) } else { base_doc(rng, sd, cx) };
    let doc = S::build(&m);
    let h = hash64(&m);
    let size = m.content_size();
    let show = || S::show(&m);
    // positions
    let astral: Vec<usize> = {
        let mut v = vec![];
        for (i, t) in list_tokens(m.children()).iter().enumerate() {
            if let Tok::Unit(u, _) = t {
                if (0xDC00..0xE000).contains(u) {
                    v.push(i);
                }
            }
        }
        v
    };
    let pos_of = |cx: &mut Cx, rng: &mut Rng| {
        if !astral.is_empty() && rng.chance(20) {
            *rng.pick(&astral)
        } else {
            number(cx, rng, size)
        }
    };
    for _ in 0..4 {
        let p = pos_of(cx, rng);
        cx.doing = format!("resolve {} in {}", p, show());
        if let Err(e) = doc.resolve(p) {
            let what = cx.doing.clone();
            shown(&e, matches!(e, ResolveErr::Index(_)))?;
            account(cx, &what, "resolve refused", format!("{:?}", e), position(&e, &m, &[(p, p)]), &(h, p))?;
        }
    }
    for _ in 0..4 {
        let (a, b) = (pos_of(cx, rng), pos_of(cx, rng));
        let parents = rng.chance(40);
        cx.doing = format!("slice {}..{} of {}", a, b, show());
        // in any of the forms of a range
        let (got, pair) = match rng.below(8) {
            0 => (doc.slice(a.., parents), (a, size)),
            1 => (doc.slice(..b, parents), (0, b)),
            2 if a > 0 => (doc.slice((Bound::Excluded(a - 1), Bound::Excluded(b)), parents), (a, b)),
            3 if b > 0 => (doc.slice((Bound::Included(a), Bound::Included(b - 1)), parents), (a, b)),
            _ => (doc.slice(a..b, parents), (a, b)),
        };
        if let Err(e) = got {
            let what = cx.doing.clone();
            shown(&e, matches!(e, SliceError::Resolve(_)))?;
            let why = match &e {
                SliceError::Resolve(r) => position(r, &m, &[pair]),
                _ => Err("that names nothing that is wrong".into()),
            };
            account(cx, &what, "slice refused", format!("{:?}", e), why, &(h, a, b))?;
        }
    }
    // replacements
    let mut p = if m.is_branch() { plan(rng, sd, &m, cx) } else { vec![] };
    p.truncate(12);
    for _ in 0..4 {
        let (mut a, mut b) = (pos_of(cx, rng), pos_of(cx, rng));
        if a > b && rng.chance(70) {
            std::mem::swap(&mut a, &mut b);
        }
        p.push((a, b, hostile_slice(cx, rng, sd, &m)));
    }
    for (a, b, s) in p {
        let what = format!("replace {}..{} by {} in {}", a, b, show_slice(sd, &s), show());
        cx.doing = what.clone();
        let ls = S::build_slice(&s);
        let (got, (a, b)) = match rng.below(8) {
            0 => (doc.replace(a.., &ls), (a, size)),
            1 => (doc.replace(..b, &ls), (0, b)),
            2 if a > 0 => (doc.replace((Bound::Excluded(a - 1), Bound::Excluded(b)), &ls), (a, b)),
            3 if b > 0 => (doc.replace((Bound::Included(a), Bound::Included(b - 1)), &ls), (a, b)),
            _ => (doc.replace(a..b, &ls), (a, b)),
        };
        if let Err(e) = got {
            shown(&e, matches!(e, ReplaceError::Resolve(_)))?;
            let why = replacing::<S>(&e, &m, a, b, &s);
            account(cx, &what, "replace refused", format!("{:?}", e), why, &(h, a, b, &s))?;
        }
    }
    // steps
    for _ in 0..8 {
        let st = match rng.below(10) {
            0..=2 if m.is_branch() => {
                let mut st = gen::gen_around(rng, sd, &m);
                if let MStep::Around { from, to, gap_from, gap_to, slice, insert, structure } = &mut st {
                    *structure |= rng.chance(20);
                    match rng.below(12) {
                        0 => *insert = number(cx, rng, slice.size() + 1),
                        1 => *gap_to = pos_of(cx, rng),
                        2 => *gap_from = pos_of(cx, rng),
                        3 => *to = pos_of(cx, rng),
                        4 => *from = pos_of(cx, rng),
                        5 => std::mem::swap(gap_from, gap_to),
                        _ => {}
                    }
                }
                st
            }
            3 | 4 if m.is_branch() => gen::gen_step(rng, sd, &m),
            k => {
                let (mut a, mut b) = (pos_of(cx, rng), pos_of(cx, rng));
                if a > b && rng.chance(60) {
                    std::mem::swap(&mut a, &mut b);
                }
                match k {
                    5 | 6 => MStep::Replace { from: a, to: b, slice: hostile_slice(cx, rng, sd, &m), structure: rng.chance(40) },
                    0..=2 | 7 => {
                        let (mut c, mut d) = (pos_of(cx, rng), pos_of(cx, rng));
                        if c > d && rng.chance(60) {
                            std::mem::swap(&mut c, &mut d);
                        }
                        if rng.chance(50) && a <= b && b <= size {
                            c = a + rng.below(b - a + 1);
                            d = c + rng.below(b - c + 1);
                        }
                        let slice = hostile_slice(cx, rng, sd, &m);
                        let insert = number(cx, rng, list_size(&slice.content));
                        MStep::Around { from: a, to: b, gap_from: c, gap_to: d, slice, insert, structure: rng.chance(40) }
                    }
                    8 => MStep::AddMark { from: a, to: b, mark: gen::gen_mark(rng, sd) },
                    _ => {
                        let mark = if m.is_branch() && rng.chance(50) { gen::near_mark(rng, sd, &m) } else { gen::gen_mark(rng, sd) };
                        MStep::RemoveMark { from: a, to: b, mark }
                    }
                }
            }
        };
        let what = format!("{} applied to {}", show_step(sd, &st), show());
        cx.doing = what.clone();
        if let Err(e) = S::build_step(&st).apply(&doc) {
            let wraps =
                matches!(e, StepError::Resolve(_) | StepError::Replace(_) | StepError::Slice(_) | StepError::Insert(_));
            shown(&e, wraps)?;
            let why = stepping::<S>(&e, &m, &st);
            account(cx, &what, "step refused", format!("{:?}", e), why, &(h, &st))?;
        }
    }
    ensure!(S::read(&doc) == m, "{}: refused calls changed the document", show());
    Ok(())
}

// ---------------------------------------------------------------- Markdown

/// Is this named construct in the text? None: not a name known here.
fn construct(evs: &[Event], name: &str) -> Option<bool> {
    let tag = |f: &dyn Fn(&Tag) -> bool| {
        evs.iter().any(|e| match e {
            Event::Start(t) | Event::End(t) => f(t),
            _ => false,
        })
    };
    let ev = |f: &dyn Fn(&Event) -> bool| evs.iter().any(|e| f(e));
    let name: String = name.to_lowercase().chars().filter(|c| c.is_alphanumeric()).collect();
    Some(match name.as_str() {
        "footnotedefinition" => tag(&|t| matches!(t, Tag::FootnoteDefinition(_))),
        "table" => tag(&|t| matches!(t, Tag::Table(_))),
        "tablehead" => tag(&|t| matches!(t, Tag::TableHead)),
        "tablerow" => tag(&|t| matches!(t, Tag::TableRow)),
        "tablecell" => tag(&|t| matches!(t, Tag::TableCell)),
        "strikethrough" => tag(&|t| matches!(t, Tag::Strikethrough)),
        "html" => ev(&|e| matches!(e, Event::Html(_))),
        "softbreak" => ev(&|e| matches!(e, Event::SoftBreak)),
        "footnotereference" => ev(&|e| matches!(e, Event::FootnoteReference(_))),
        "tasklistmarker" => ev(&|e| matches!(e, Event::TaskListMarker(_))),
        "hardbreakinheading" => within(evs, &|t| matches!(t, Tag::Heading(_))),
        _ => return None,
    })
}

/// Is there a hard break between the start and the end of such a thing?
fn within(evs: &[Event], f: &dyn Fn(&Tag) -> bool) -> bool {
    let mut open = 0;
    for e in evs {
        match e {
            Event::Start(t) if f(t) => open += 1,
            Event::End(t) if f(t) => open -= 1,
            Event::HardBreak if open > 0 => return true,
            _ => {}
        }
    }
    false
}

fn markdown(cx: &mut Cx, rng: &mut Rng) -> R {
    let text = mdref::gen_markdown(rng);
    cx.doing = format!("reading {:?}", text);
    let evs = match mdref::events(&text) {
        Some(e) => e,
        None => return Ok(()),
    };
    let e = match from_markdown(&text) {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    shown(&e, matches!(e, FromMarkdownError::LevelMismatch(_)))?;
    let want = mdref::expect(&text);
    let why: Why = match &e {
        FromMarkdownError::NotSupported(name) => match construct(&evs, name) {
            Some(true) => Ok(Some("not supported")),
            Some(false) => Err(format!("there is no such thing in {:?}", evs)),
            None => Ok(None),
        },
        FromMarkdownError::NoChildrenAllowed(_) => {
            if within(&evs, &|t| matches!(t, Tag::Image(..))) {
                Ok(Some("hard break in an image description"))
            } else {
                Err(format!("every image description is text: {:?}", evs))
            }
        }
        FromMarkdownError::LevelMismatch(_) => Err("all levels and numbers are small enough".into()),
        FromMarkdownError::StackEmpty | FromMarkdownError::MisplacedEndTag(..) => match want {
            Expect::Doc(_) => Err(format!("everything is nested as it should be: {:?}", evs)),
            Expect::Odd => Ok(Some("misnested")),
            _ => Ok(None),
        },
    };
    let what = format!("from_markdown({:?})", text);
    account(cx, &what, "markdown refused", format!("{:?}", e), why, &text)
}
