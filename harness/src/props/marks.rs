//! C09 adding marks, C10 removing marks, C11 mark sets.
use super::replace::{judge_step, show_step};
use super::*;
use crate::gen;
use crate::{both, ensure};
use prosemirror::model::{Mark, MarkSet};
use std::borrow::Cow;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            quick: 400_000,
            thorough: 8_000_000,
            run: both!(c09),
            rule: "A case is one valid document and several (span, mark) pairs (all spans of small documents for a third of the cases); the result is compared with the marks computed token by token. Distinct non-trivial: distinct (document, span, mark) that changes the document.",
            floors: &[("added", 100_000), ("other marks kept", 10_000), ("same type replaced", 1_000), ("parent disallows", 2_000), ("again changes nothing", 50_000), ("span across blocks", 10_000)],
            assumptions: &["In the Markdown schema only text can carry marks (the crate keeps none on images and breaks)."],
        },
        Prop {
            id: "C10",
            quick: 400_000,
            thorough: 8_000_000,
            run: both!(c10),
            rule: "As C09 for removal, with marks taken from the document most of the time and same-type marks with other attributes; add-then-remove round trips. Distinct non-trivial: distinct (document, span, mark) that changes the document.",
            floors: &[("removed", 50_000), ("absent: unchanged", 10_000), ("other attributes kept", 300), ("add then remove", 10_000)],
            assumptions: &["In the Markdown schema only text can carry marks."],
        },
        Prop {
            id: "C11",
            quick: 1_600_000,
            thorough: 32_000_000,
            run: both!(c11),
            rule: "A case is a sequence of up to 12 additions and removals performed in place and by value next to a model, plus reading sets from JSON in random order and with duplicate types. Distinct non-trivial: distinct resulting (set, operation) pairs with at least two marks.",
            floors: &[("added in place", 100_000), ("removed in place", 100_000), ("borrowed set unchanged", 100_000), ("replaced same type", 5_000), ("exact mark not in set", 5_000), ("sorted from json", 20_000), ("duplicate type refused", 20_000)],
            assumptions: &[],
        },
    ]
}

fn spans(rng: &mut Rng, m: &MNode) -> Vec<(usize, usize)> {
    let pos = positions(m);
    if pos.len() <= 14 && rng.chance(60) {
        pos.iter().flat_map(|a| pos.iter().filter(move |b| *b >= a).map(move |b| (*a, *b))).collect()
    } else {
        (0..6).map(|_| gen::pick_range(rng, &pos)).collect()
    }
}

fn mark_doc(rng: &mut Rng, sd: &'static SchemaDesc) -> MNode {
    let mut o = if rng.chance(40) { gen::Opts::small(rng) } else { gen::Opts::random(rng) };
    o.marks = *rng.pick(&[0, 40, 80, 100]);
    gen::gen_doc(rng, sd, o)
}

/// marks of each markable inline token in the span, with the parent's type
fn in_span(sd: &SchemaDesc, m: &MNode, a: usize, b: usize) -> Vec<(u8, Marks)> {
    let toks = list_tokens(m.children());
    let mut st = vec![m.ty];
    let mut out = vec![];
    for (i, t) in toks.iter().enumerate() {
        let inr = i >= a && i < b;
        let p = *st.last().unwrap();
        let markable = |ty: &u8| sd.types[*ty as usize].inline && sd.types[*ty as usize].markable;
        match t {
            Tok::Open(ty, _, mk) => {
                if inr && markable(ty) {
                    out.push((p, mk.clone()));
                }
                st.push(*ty);
            }
            Tok::Close => {
                st.pop();
            }
            Tok::Leaf(ty, _, mk) if inr && markable(ty) => out.push((p, mk.clone())),
            Tok::Unit(_, mk) if inr => out.push((p, mk.clone())),
            _ => {}
        }
    }
    out
}

fn c09<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = mark_doc(rng, sd);
    let doc = S::build(&m);
    let h = hash64(&m);
    let mut mark = gen::gen_mark(rng, sd);
    for (a, b) in spans(rng, &m) {
        if rng.chance(30) {
            mark = if rng.chance(40) { gen::near_mark(rng, sd, &m) } else { gen::gen_mark(rng, sd) };
        }
        let st = MStep::AddMark { from: a, to: b, mark: mark.clone() };
        let what = format!("{} in {}", show_step(sd, &st), S::show(&m));
        cx.sample(|| what.clone());
        let n = match judge_step::<S>(cx, &doc, &m, &st)? {
            Some(n) => n,
            None => return Err(format!("{}: refused", what)),
        };
        cx.ev("added");
        let r = S::read(&n);
        if r != m {
            cx.seen(&(h, a, b, &mark));
        }
        for (p, mk) in in_span(sd, &m, a, b) {
            if sd.types[p as usize].allow >> mark.ty & 1 == 0 {
                cx.ev("parent disallows");
            } else {
                if mk.iter().any(|x| x.ty != mark.ty) {
                    cx.ev("other marks kept");
                }
                if mk.iter().any(|x| x.ty == mark.ty && *x != mark) {
                    cx.ev("same type replaced");
                }
            }
        }
        let (f, t) = (resolve(&m, a).unwrap(), resolve(&m, b).unwrap());
        if !std::ptr::eq(f.parent(), t.parent()) {
            cx.ev("span across blocks");
        }
        if let Some(e) = sd.invalid(&r) {
            return Err(format!("{}: makes the document invalid: {}", what, e));
        }
        let again = S::build_step(&st)
            .apply(&n)
            .map_err(|e| format!("{}: refused the second time: {}", what, e))?;
        ensure!(again == n, "{}: applied again changes {} to {}", what, S::show(&r), S::show(&S::read(&again)));
        cx.ev("again changes nothing");
        cx.eval();
    }
    Ok(())
}

fn c10<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = mark_doc(rng, sd);
    let doc = S::build(&m);
    let h = hash64(&m);
    for (a, b) in spans(rng, &m) {
        let mut mark = gen::near_mark(rng, sd, &m);
        if !mark.attrs.is_empty() && rng.chance(30) {
            mark = if rng.chance(50) { gen::gen_mark_of(rng, sd, mark.ty) } else { gen::like_mark(rng, &mark) };
        }
        let st = MStep::RemoveMark { from: a, to: b, mark: mark.clone() };
        let what = format!("{} in {}", show_step(sd, &st), S::show(&m));
        cx.sample(|| what.clone());
        let n = match judge_step::<S>(cx, &doc, &m, &st)? {
            Some(n) => n,
            None => return Err(format!("{}: refused", what)),
        };
        cx.ev("removed");
        let span = in_span(sd, &m, a, b);
        if span.iter().any(|(_, mk)| mk.iter().any(|x| x.ty == mark.ty && *x != mark)) {
            cx.ev("other attributes kept");
        }
        if !span.iter().any(|(_, mk)| mk.contains(&mark)) {
            ensure!(n == doc, "{}: there is no such mark, but the result is {}", what, S::show(&S::read(&n)));
            cx.ev("absent: unchanged");
        } else {
            cx.seen(&(h, a, b, &mark));
        }
        if !span.iter().any(|(_, mk)| mk.iter().any(|x| x.ty == mark.ty)) {
            let add = MStep::AddMark { from: a, to: b, mark: mark.clone() };
            let d2 = S::build_step(&add).apply(&doc).map_err(|e| format!("{}: {}", show_step(sd, &add), e))?;
            let d3 = S::build_step(&st).apply(&d2).map_err(|e| format!("{}: {}", what, e))?;
            ensure!(
                d3 == doc,
                "add then {}: gives {} by way of {}",
                what,
                S::show(&S::read(&d3)),
                S::show(&S::read(&d2))
            );
            cx.ev("add then remove");
            cx.eval();
        }
    }
    Ok(())
}

fn c11<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let show = |m: &Marks| sd.show_marks(m);
    let mut set = MarkSet::<S>::default();
    let mut model: Marks = vec![];
    let judge = |what: &str, s: &MarkSet<S>, want: &Marks| -> R {
        let got = S::read_marks(s);
        ensure!(&got == want, "{}: the set is {} but expected {}", what, show(&got), show(want));
        for ty in 0..sd.n_marks {
            for attrs in [0, 1, 2] {
                let k = sd.mark_attrs[ty as usize];
                let mk = MMark { ty, attrs: (0..k).map(|_| ["", "u", "v"][attrs].to_string()).collect() };
                ensure!(
                    s.contains(&S::build_mark(&mk)) == want.contains(&mk),
                    "{}: membership of {} in {}",
                    what,
                    show(&vec![mk.clone()]),
                    show(want)
                );
            }
        }
        Ok(())
    };
    let n = rng.range(1, 12);
    let mut log = String::new();
    for _ in 0..n {
        let mark = if !model.is_empty() && rng.chance(40) {
            let t = rng.pick(&model).ty;
            match rng.below(5) {
                0 | 1 => rng.pick(&model).clone(),
                2 => {
                    let m = rng.pick(&model).clone();
                    gen::like_mark(rng, &m)
                }
                _ => gen::gen_mark_of(rng, sd, t),
            }
        } else {
            gen::gen_mark(rng, sd)
        };
        let lm = S::build_mark(&mark);
        let add = rng.chance(60);
        let before = set.clone();
        let want = if add { mark_add(&model, &mark) } else { mark_remove(&model, &mark) };
        log.push_str(&format!("{}{} ", if add { "+" } else { "-" }, show(&vec![mark.clone()])));
        let what = format!("[{}] {} {}", show(&model), if add { "add" } else { "remove" }, show(&vec![mark.clone()]));
        cx.doing = what.clone();
        // by value, from a borrowed and from an owned set
        let by_ref = if add { lm.add_to_set(Cow::Borrowed(&set)) } else { lm.remove_from_set(Cow::Borrowed(&set)) };
        judge(&format!("{} (borrowed)", what), &by_ref, &want)?;
        let by_ref = by_ref.into_owned();
        judge(&format!("{}: the borrowed set", what), &set, &model)?;
        ensure!(set == before, "{}: the borrowed set is changed", what);
        cx.ev("borrowed set unchanged");
        let owned = if add {
            lm.add_to_set(Cow::Owned(set.clone()))
        } else {
            lm.remove_from_set(Cow::Owned(set.clone()))
        };
        judge(&format!("{} (owned)", what), &owned, &want)?;
        let owned = owned.into_owned();
        if add {
            set.add(&lm);
            cx.ev("added in place");
        } else {
            set.remove(&lm);
            cx.ev("removed in place");
        }
        judge(&format!("{} (in place)", what), &set, &want)?;
        ensure!(owned == set && by_ref == set, "{}: by value and in place differ", what);
        if model.iter().any(|x| x.ty == mark.ty && *x != mark) {
            cx.ev(if add { "replaced same type" } else { "exact mark not in set" });
        }
        cx.eval();
        if want.len() > 1 {
            cx.seen(&(&model, &mark, add));
        }
        model = want;
    }
    cx.sample(|| format!("{} = [{}]", log.trim(), show(&model)));
    // equality is by content
    let mut order = model.clone();
    rng.shuffle(&mut order);
    let mut other = MarkSet::<S>::default();
    for x in &order {
        other.add(&S::build_mark(x));
    }
    ensure!(other == set, "sets of {} built in different orders differ", show(&model));
    if let Some(x) = model.first() {
        let mut less = set.clone();
        less.remove(&S::build_mark(x));
        ensure!(less != set, "[{}] equals itself without {}", show(&model), show(&vec![x.clone()]));
    }
    // a set of one
    let one = gen::gen_mark(rng, sd);
    judge("into_set", &S::build_mark(&one).into_set(), &vec![one.clone()])?;
    // JSON
    let arr = |l: &[MMark]| -> serde_json::Value {
        l.iter().map(|x| serde_json::to_value(S::build_mark(x)).unwrap()).collect::<Vec<_>>().into()
    };
    let v = arr(&order);
    cx.doing = format!("read {}", v);
    let read: MarkSet<S> = serde_json::from_value(v.clone()).map_err(|e| format!("{}: refused: {}", v, e))?;
    judge(&format!("read from {}", v), &read, &model)?;
    ensure!(read == set, "the set read from {} is not equal", v);
    ensure!(serde_json::to_value(&set).unwrap() == arr(&model), "[{}] is written in another order", show(&model));
    cx.ev("sorted from json");
    if !model.is_empty() {
        let mut dup = order.clone();
        let t = rng.pick(&model).ty;
        let extra = if rng.chance(50) { model.iter().find(|x| x.ty == t).unwrap().clone() } else { gen::gen_mark_of(rng, sd, t) };
        let at = rng.below(dup.len() + 1);
        dup.insert(at, extra);
        let v = arr(&dup);
        cx.doing = format!("read {}", v);
        let r: Result<MarkSet<S>, _> = serde_json::from_value(v.clone());
        ensure!(r.is_err(), "{} has a mark type twice but is accepted", v);
        cx.ev("duplicate type refused");
        cx.eval();
    }
    Ok(())
}
