//! C04 exact splice, C05 acceptance, C06 inversion, C07 replace-around, C08 structural steps.
use super::*;
use crate::gen;
use crate::{both, ensure};
use prosemirror::model::{ReplaceError, Slice};
use prosemirror::transform::{StepError, StepKind};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            quick: 240_000,
            thorough: 4_800_000,
            run: both!(c04),
            rule: "A case is one document and several (range, slice) pairs biased to depths that fit (all ranges of small documents for a quarter of the cases); every successful replacement is compared with the token splice. Distinct non-trivial: distinct successful (document, range, slice) with a non-empty range or slice.",
            floors: &[("replaced", 100_000), ("replaced across blocks", 10_000), ("open slice replaced", 10_000), ("texts joined at a seam", 5_000), ("all ranges of a document", 2_000)],
            assumptions: &["Slices are as deep as their open depths claim (the constructor's documented precondition)."],
        },
        Prop {
            id: "C05",
            quick: 240_000,
            thorough: 4_800_000,
            run: both!(c05),
            rule: "As C04, also with slices and ranges that do not fit; acceptance and the kind of error are compared with an independent decision from the schema's content expressions. Distinct non-trivial: distinct judged (document, range, slice) with a non-empty slice or a range across nodes.",
            floors: &[("accepted", 100_000), ("refused: too deep", 2_000), ("refused: inconsistent", 5_000), ("refused: join", 1_000), ("refused: position", 5_000), ("refused: content", 2_000), ("stayed valid", 50_000)],
            assumptions: &["Slices are as deep as their open depths claim; which of several failing conditions is named is left open."],
        },
        Prop {
            id: "C06",
            quick: 240_000,
            thorough: 4_800_000,
            run: both!(c06),
            rule: "A case is one valid document; ranges replaced by their own slice, and successful replacements undone by the original slice. Distinct non-trivial: distinct (document, range, slice) undone.",
            floors: &[("identity", 100_000), ("undone", 50_000), ("undone across blocks", 5_000)],
            assumptions: &["In the second test schema, whose joinability is not symmetric in effect, the undo is only required where the oracle accepts it."],
        },
        Prop {
            id: "C07",
            quick: 500_000,
            thorough: 10_000_000,
            run: both!(c07),
            rule: "A case is one document and several replace-around steps (retype, wrap, lift, arbitrary gaps and insert positions), judged for acceptance and result against the token rewrite. Distinct non-trivial: distinct (document, step) accepted.",
            floors: &[("accepted", 60_000), ("refused", 20_000), ("gap not flat refused", 1_000), ("insert outside refused", 1_000), ("wrap, lift or retype", 20_000)],
            assumptions: &["Gaps outside the step's range are only required not to crash (C14)."],
        },
        Prop {
            id: "C08",
            quick: 400_000,
            thorough: 8_000_000,
            run: both!(c08),
            rule: "A case is one document and structural replace and replace-around steps over random ranges (biased to token boundaries); refusal is judged by the tokens between, and results against the unmarked step. Distinct non-trivial: distinct (document, ranges) with at least one token to delete.",
            floors: &[("content refused", 50_000), ("only tokens allowed", 20_000), ("range starts in text", 5_000), ("replace-around", 20_000), ("same as unmarked", 20_000)],
            assumptions: &[],
        },
    ]
}

pub fn show_slice(sd: &SchemaDesc, s: &MSlice) -> String {
    format!("{} open {}/{}", sd.show_list(&s.content), s.open_start, s.open_end)
}

pub fn plan(rng: &mut Rng, sd: &'static SchemaDesc, m: &MNode, cx: &mut Cx) -> Vec<(usize, usize, MSlice)> {
    let pos = positions(m);
    if pos.len() <= 14 && rng.chance(50) {
        let s = gen::gen_slice(rng, sd, m);
        cx.ev("all ranges of a document");
        let mut v = vec![];
        for a in &pos {
            for b in &pos {
                if a <= b {
                    v.push((*a, *b, s.clone()))
                }
            }
        }
        v
    } else {
        (0..6).map(|_| gen::gen_replace(rng, sd, m)).collect()
    }
}

pub fn base_doc(rng: &mut Rng, sd: &'static SchemaDesc, cx: &mut Cx) -> MNode {
    match rng.below(10) {
        0..=2 => gen::small_doc(rng, sd),
        3 => any_doc(rng, sd, cx),
        _ => gen::doc(rng, sd),
    }
}

fn canonical(sd: &SchemaDesc, m: &MNode, s: &MSlice) -> bool {
    sd.noncanonical(m).is_none() && sd.noncanonical_list(&s.content).is_none()
}

fn c04<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = base_doc(rng, sd, cx);
    let doc = S::build(&m);
    let h = hash64(&m);
    for (a, b, s) in plan(rng, sd, &m, cx) {
        if !s.well_formed() {
            continue;
        }
        let what = format!("replace {}..{} by {} in {}", a, b, show_slice(sd, &s), S::show(&m));
        cx.doing = what.clone();
        cx.sample(|| what.clone());
        let ls = S::build_slice(&s);
        // the range, in any of its forms
        use std::ops::Bound;
        let size = m.content_size();
        let got = match rng.below(10) {
            0 if b == size => doc.replace(a.., &ls),
            1 if a == 0 => doc.replace(..b, &ls),
            2 if a == 0 && b == size => doc.replace(.., &ls),
            3 if a > 0 => doc.replace((Bound::Excluded(a - 1), Bound::Excluded(b)), &ls),
            4 if b > 0 => doc.replace((Bound::Included(a), Bound::Included(b - 1)), &ls),
            _ => doc.replace(a..b, &ls),
        };
        if let Ok(got) = got {
            let want = splice(sd, &m, a, b, &s);
            if canonical(sd, &m, &s) {
                same::<S>(&what, &got, &want)?;
            } else {
                same_tokens::<S>(&what, &got, &want)?;
            }
            ensure!(
                got.content_size() + (b - a) == m.content_size() + s.size(),
                "{}: the size changes from {} to {}",
                what,
                m.content_size(),
                got.content_size()
            );
            cx.ev("replaced");
            cx.eval();
            let (f, t) = (resolve(&m, a).unwrap(), resolve(&m, b).unwrap());
            if !std::ptr::eq(f.parent(), t.parent()) {
                cx.ev("replaced across blocks");
            }
            if s.open_start + s.open_end > 0 {
                cx.ev("open slice replaced");
            }
            if m.children().len() + s.content.len() > 0 && want.count() < m.count() && a < b {
                cx.ev("nodes removed");
            }
            let texts = |n: &MNode| {
                fn go(n: &MNode) -> usize {
                    n.is_text() as usize + n.children().iter().map(go).sum::<usize>()
                }
                go(n)
            };
            let st: usize = s.content.iter().map(texts).sum();
            if a == b && st > 0 && texts(&want) < texts(&m) + st {
                cx.ev("texts joined at a seam");
            }
            if b > a || s.size() > 0 {
                cx.seen(&(h, a, b, &s));
            }
            if b == m.content_size() {
                let got = doc
                    .replace(a.., &ls)
                    .map_err(|e| format!("open-ended form of {}: refused: {}", what, e))?;
                same_tokens::<S>(&format!("open-ended form of {}", what), &got, &want)?;
                cx.ev("open-ended range");
            }
        }
        ensure!(S::read(&doc) == m, "{}: changes the original document", what);
    }
    Ok(())
}

/// Does the named error hold of this replacement?
fn kind_fits<S: Spec>(e: &ReplaceError<S>, v: &Verdict, os: usize, oe: usize, fd: usize, td: usize) -> bool {
    match e {
        ReplaceError::InsertTooDeep => os > fd,
        ReplaceError::InconsistentOpenDepths { from_depth, open_start, to_depth, open_end } => {
            (*from_depth, *open_start, *to_depth, *open_end) == (fd, os, td, oe)
                && (os > fd || oe > td || fd - os != td - oe)
        }
        ReplaceError::CannotJoin(..) => match v {
            Verdict::Misfit(b) => !b.joins.is_empty(),
            v => *v == Verdict::BadPos,
        },
        ReplaceError::InvalidContent(_) => match v {
            Verdict::Misfit(b) => !b.contents.is_empty(),
            v => *v == Verdict::BadPos,
        },
        ReplaceError::Resolve(_) => *v == Verdict::BadPos,
    }
}

fn c05<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = base_doc(rng, sd, cx);
    let doc = S::build(&m);
    let h = hash64(&m);
    let valid = sd.invalid(&m).is_none();
    let mut p = plan(rng, sd, &m, cx);
    // and some that will not fit
    let pos = positions(&m);
    for _ in 0..3 {
        let (a, b) = gen::pick_range(rng, &pos);
        p.push((a, b, gen::gen_slice(rng, sd, &m)));
    }
    if rng.chance(30) {
        let (a, b) = gen::pick_range(rng, &pos);
        let content = gen::wild_list(rng, sd, 2, 3).iter().map(no_empty).collect();
        p.push((a, b, gen::random_opens(rng, content)));
    }
    // and ranges that are none: reversed, past the end, inside a character
    for _ in 0..2 {
        let (a, b) = gen::pick_range(rng, &pos);
        let s = if rng.chance(50) { gen::gen_slice(rng, sd, &m) } else { MSlice { content: vec![], open_start: 0, open_end: 0 } };
        let size = m.content_size();
        match rng.below(4) {
            0 | 1 if a < b => p.push((b, a, s)),
            2 => p.push((a, size + rng.range(1, 3), s)),
            3 => p.push((rng.below(size + 2), rng.below(size + 2), s)),
            _ => {}
        }
    }
    for (a, b, s) in p {
        if !s.well_formed() || s.content.iter().any(|n| n.is_text() && n.size() == 0) {
            continue;
        }
        let what = format!("replace {}..{} by {} in {}", a, b, show_slice(sd, &s), S::show(&m));
        cx.doing = what.clone();
        let want = replace(sd, &m, a, b, &s);
        let got = doc.replace(a..b, &S::build_slice(&s));
        cx.eval();
        let (fd, td) = match (resolve(&m, a), resolve(&m, b)) {
            (Ok(f), Ok(t)) => {
                if s.size() > 0 || !std::ptr::eq(f.parent(), t.parent()) {
                    cx.seen(&(h, a, b, &s));
                }
                (f.depth(), t.depth())
            }
            _ => (0, 0),
        };
        match (&got, &want) {
            (Ok(n), Verdict::Ok(_)) => {
                cx.ev("accepted");
                cx.sample(|| format!("accepted: {}", what));
                if valid && gen::closed_valid(sd, &s) {
                    if let Some(e) = sd.invalid(&S::read(n)) {
                        return Err(format!("{}: makes the document invalid: {}", what, e));
                    }
                    cx.ev("stayed valid");
                }
            }
            (Err(e), Verdict::Ok(_)) => return Err(format!("{}: refused ({}) although it fits", what, e)),
            (Ok(n), v) => {
                return Err(format!("{}: accepted, giving {}, although {:?}", what, S::show(&S::read(n)), v))
            }
            (Err(e), v) => {
                ensure!(
                    kind_fits(e, v, s.open_start, s.open_end, fd, td),
                    "{}: refused as \"{}\" ({:?}) although the reason is {:?}",
                    what,
                    e,
                    e,
                    v
                );
                cx.ev(match e {
                    ReplaceError::InsertTooDeep => "refused: too deep",
                    ReplaceError::InconsistentOpenDepths { .. } => "refused: inconsistent",
                    ReplaceError::CannotJoin(..) => "refused: join",
                    ReplaceError::InvalidContent(_) => "refused: content",
                    ReplaceError::Resolve(_) => "refused: position",
                });
                cx.sample(|| format!("refused ({}): {}", e, what));
            }
        }
    }
    Ok(())
}

fn c06<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = if rng.chance(30) { gen::small_doc(rng, sd) } else { gen::doc(rng, sd) };
    let doc = S::build(&m);
    let pos = positions(&m);
    let h = hash64(&m);
    let ranges: Vec<(usize, usize)> = if pos.len() <= 14 {
        pos.iter().flat_map(|a| pos.iter().filter(move |b| *b >= a).map(move |b| (*a, *b))).collect()
    } else {
        (0..6).map(|_| gen::pick_range(rng, &pos)).collect()
    };
    for (a, b) in ranges {
        for parents in [false, true] {
            let what = format!("replace {}..{} of {} by its own slice (parents: {})", a, b, S::show(&m), parents);
            cx.doing = what.clone();
            let s = doc.slice(a..b, parents).map_err(|e| format!("{}: cannot slice: {}", what, e))?;
            let got = doc.replace(a..b, &s).map_err(|e| format!("{}: refused: {}", what, e))?;
            same::<S>(&what, &got, &m)?;
            ensure!(got == doc, "{}: not equal to the original", what);
            cx.ev("identity");
            cx.eval();
        }
    }
    for _ in 0..6 {
        let (a, b, s) = gen::gen_replace(rng, sd, &m);
        let what = format!("replace {}..{} by {} in {}", a, b, show_slice(sd, &s), S::show(&m));
        cx.doing = what.clone();
        cx.sample(|| format!("undo: {}", what));
        let d2 = match doc.replace(a..b, &S::build_slice(&s)) {
            Ok(d) => d,
            Err(_) => continue,
        };
        let end = a + s.size();
        let back: Slice<S> = doc.slice(a..b, false).map_err(|e| format!("{}: cannot slice: {}", what, e))?;
        let m2 = S::read(&d2);
        let must = sd.name == "markdown"
            || matches!(replace(sd, &m2, a, end, &S::read_slice(&back)), Verdict::Ok(_));
        cx.doing = format!("undo {}", what);
        match d2.replace(a..end, &back) {
            Ok(d3) => {
                same::<S>(&format!("undo of {}", what), &d3, &m)?;
                cx.ev("undone");
                cx.eval();
                cx.seen(&(h, a, b, &s));
                let (f, t) = (resolve(&m, a).unwrap(), resolve(&m, b).unwrap());
                if !std::ptr::eq(f.parent(), t.parent()) {
                    cx.ev("undone across blocks");
                }
            }
            Err(e) => ensure!(!must, "undo of {} (giving {}): refused: {}", what, S::show(&m2), e),
        }
    }
    Ok(())
}

pub fn show_step(sd: &SchemaDesc, s: &MStep) -> String {
    match s {
        MStep::Replace { from, to, slice, structure } => {
            format!("replace {}..{} by {}{}", from, to, show_slice(sd, slice), if *structure { " (structure)" } else { "" })
        }
        MStep::Around { from, to, gap_from, gap_to, slice, insert, structure } => format!(
            "replaceAround {}..{} gap {}..{} by {} insert {}{}",
            from,
            to,
            gap_from,
            gap_to,
            show_slice(sd, slice),
            insert,
            if *structure { " (structure)" } else { "" }
        ),
        MStep::AddMark { from, to, mark } => format!("addMark {} to {}..{}", sd.show_marks(&vec![mark.clone()]), from, to),
        MStep::RemoveMark { from, to, mark } => {
            format!("removeMark {} from {}..{}", sd.show_marks(&vec![mark.clone()]), from, to)
        }
    }
}

/// Apply a step through the library and judge it against the oracle. Returns the new document.
pub fn judge_step<S: Spec>(cx: &mut Cx, doc: &S::Node, m: &MNode, st: &MStep) -> Result<Option<S::Node>, String> {
    let sd = S::desc();
    let what = format!("{} applied to {}", show_step(sd, st), S::show(m));
    cx.doing = what.clone();
    let got = S::build_step(st).apply(doc);
    cx.eval();
    ensure!(&S::read(doc) == m, "{}: changes the original document", what);
    let canon = sd.noncanonical(m).is_none()
        && match st {
            MStep::Replace { slice, .. } | MStep::Around { slice, .. } => sd.noncanonical_list(&slice.content).is_none(),
            _ => true,
        };
    match (got, apply(sd, m, st)) {
        (Ok(n), StepVerdict::Ok(w)) => {
            if canon {
                same::<S>(&what, &n, &w)?;
            } else {
                same_tokens::<S>(&what, &n, &w)?;
            }
            Ok(Some(n))
        }
        (Err(_), StepVerdict::Refuse(_)) => Ok(None),
        (Ok(n), StepVerdict::Refuse(r)) => {
            Err(format!("{}: accepted, giving {}, although: {}", what, S::show(&S::read(&n)), r))
        }
        (Err(e), StepVerdict::Ok(w)) => {
            Err(format!("{}: refused ({}) although it should give {}", what, e, S::show(&w)))
        }
        (Ok(_), StepVerdict::Open) | (Err(_), StepVerdict::Open) => {
            cx.ev("no claim");
            Ok(None)
        }
    }
}

fn c07<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = base_doc(rng, sd, cx);
    let doc = S::build(&m);
    let h = hash64(&m);
    for _ in 0..6 {
        let mut st = gen::gen_around(rng, sd, &m);
        if let MStep::Around { slice, structure, insert, .. } = &mut st {
            *structure &= rng.chance(50);
            if !slice.well_formed() {
                continue;
            }
            if rng.chance(2) {
                *insert = *rng.pick(&[slice.size() + 1 + slice.open_end, 1 << 33, usize::MAX]);
            }
        }
        let r = judge_step::<S>(cx, &doc, &m, &st)?;
        if let MStep::Around { from, to, gap_from, gap_to, slice: sl, insert, .. } = &st {
            match &r {
                Some(n) => {
                    cx.ev("accepted");
                    cx.sample(|| format!("accepted: {} on {}", show_step(sd, &st), S::show(&m)));
                    cx.seen(&(h, &st));
                    if sl.open_start + sl.open_end == 0 && from != to {
                        cx.ev("wrap, lift or retype");
                    }
                    // the gap is still there, unchanged
                    let at = from + insert;
                    let toks = list_tokens(m.children());
                    let new = list_tokens(S::read(n).children());
                    ensure!(
                        new.get(at..at + (gap_to - gap_from)) == Some(&toks[*gap_from..*gap_to]),
                        "{} on {}: the gap's content is not at {}: {}",
                        show_step(sd, &st),
                        S::show(&m),
                        at,
                        S::show(&S::read(n))
                    );
                    ensure!(new[..*from] == toks[..*from], "{}: changes what is before", show_step(sd, &st));
                    ensure!(
                        new[new.len() - (toks.len() - to)..] == toks[*to..],
                        "{}: changes what is after",
                        show_step(sd, &st)
                    );
                }
                None => {
                    cx.ev("refused");
                    match apply(sd, &m, &st) {
                        StepVerdict::Refuse("gap not flat") => cx.ev("gap not flat refused"),
                        StepVerdict::Refuse("insert position") => cx.ev("insert outside refused"),
                        _ => {}
                    }
                }
            }
        }
    }
    Ok(())
}

fn c08<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = base_doc(rng, sd, cx);
    let doc = S::build(&m);
    let h = hash64(&m);
    let pos = positions(&m);
    for _ in 0..8 {
        // a step with a range likely to be mostly tokens
        let st = match rng.below(4) {
            0 => gen::gen_around(rng, sd, &m),
            1 => {
                let (a, b, s) = gen::gen_replace(rng, sd, &m);
                MStep::Replace { from: a, to: b, slice: s, structure: true }
            }
            2 => {
                // around a boundary
                let i = rng.below(pos.len());
                let j = (i + rng.range(1, 4)).min(pos.len() - 1);
                MStep::Replace { from: pos[i], to: pos[j], slice: MSlice::empty(), structure: true }
            }
            _ => {
                // the closing and opening tokens at a place, and what is next to them
                let toks = list_tokens(m.children());
                let cands: Vec<usize> =
                    (0..toks.len()).filter(|i| matches!(toks[*i], Tok::Close | Tok::Open(..))).collect();
                if cands.is_empty() {
                    continue;
                }
                let i = *rng.pick(&cands);
                let mut j = i + 1;
                while j < toks.len() && matches!(toks[j], Tok::Close | Tok::Open(..)) && rng.chance(70) {
                    j += 1;
                }
                let a = if rng.chance(25) { i.saturating_sub(rng.range(1, 2)) } else { i };
                let b = if rng.chance(25) { (j + 1).min(toks.len()) } else { j };
                if resolve(&m, a).is_err() || resolve(&m, b).is_err() {
                    continue;
                }
                MStep::Replace { from: a, to: b, slice: MSlice::empty(), structure: true }
            }
        };
        let with = |st: &MStep, v: bool| {
            let mut s = st.clone();
            match &mut s {
                MStep::Replace { structure, .. } | MStep::Around { structure, .. } => *structure = v,
                _ => {}
            }
            s
        };
        let marked = with(&st, true);
        let plain = with(&st, false);
        let ranges = match &st {
            MStep::Replace { from, to, slice, .. } => {
                if !slice.well_formed() {
                    continue;
                }
                vec![(*from, *to)]
            }
            MStep::Around { from, to, gap_from, gap_to, slice, .. } => {
                if !slice.well_formed() || gap_from < from || gap_to > to || gap_from > gap_to {
                    continue;
                }
                cx.ev("replace-around");
                vec![(*from, *gap_from), (*gap_to, *to)]
            }
            _ => continue,
        };
        let content = ranges.iter().any(|r| has_content(&m, r.0, r.1));
        let what = format!("{} applied to {}", show_step(sd, &marked), S::show(&m));
        cx.doing = what.clone();
        let got = S::build_step(&marked).apply(&doc);
        cx.eval();
        for r in &ranges {
            if r.0 < r.1 {
                cx.seen(&(h, &ranges));
                if resolve(&m, r.0).map(|p| p.text_offset > 0).unwrap_or(false) {
                    cx.ev("range starts in text");
                }
            }
        }
        if content {
            match got {
                Ok(n) => {
                    return Err(format!("{}: would overwrite content but gives {}", what, S::show(&S::read(&n))))
                }
                Err(_) => {
                    cx.ev("content refused");
                    cx.sample(|| format!("refused: {}", what));
                }
            }
        } else {
            cx.ev("only tokens allowed");
            if let Err(e) = &got {
                ensure!(
                    !matches!(e, StepError::WouldOverwrite | StepError::GapWouldOverwrite),
                    "{}: refused as overwriting although it deletes only closing and opening tokens",
                    what
                );
            }
            let other = S::build_step(&plain).apply(&doc);
            match (got, other) {
                (Ok(a), Ok(b)) => {
                    ensure!(
                        a == b,
                        "{}: gives {} but without the mark {}",
                        what,
                        S::show(&S::read(&a)),
                        S::show(&S::read(&b))
                    );
                    cx.ev("same as unmarked");
                }
                (Err(_), Err(_)) => {}
                (Ok(_), Err(e)) => return Err(format!("{}: accepted but refused without the mark: {}", what, e)),
                (Err(e), Ok(_)) => return Err(format!("{}: refused ({}) but accepted without the mark", what, e)),
            }
            judge_step::<S>(cx, &doc, &m, &marked)?;
        }
    }
    // the step types on their own agree with the step
    if rng.chance(10) {
        let (a, b, s) = gen::gen_replace(rng, sd, &m);
        let st = MStep::Replace { from: a, to: b, slice: s, structure: rng.chance(50) };
        if let prosemirror::transform::Step::Replace(r) = S::build_step(&st) {
            let x = r.apply(&doc);
            let y = S::build_step(&st).apply(&doc);
            ensure!(x.ok() == y.ok(), "{}: the step type and the step differ", show_step(sd, &st));
        }
    }
    Ok(())
}
