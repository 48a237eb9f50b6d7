//! C01 positions, C02 sizes, C03 cutting and slicing, C15 traversal, C18 content matching,
//! C21 fragments, C22 UTF-16 text.
use super::*;
use crate::gen;
use crate::spec_md as md;
use crate::supervise::guarded;
use crate::{both, ensure};
use prosemirror::markdown::MD;
use prosemirror::model::{ContentMatch, Fragment, NodeType, Slice, Text};
use std::borrow::Cow;
use std::ops::Bound;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 120_000,
            thorough: 2_400_000,
            run: both!(c01),
            rule: "A case is one document (Markdown schema or a second test schema, random shape, marks and astral text; a tenth with split texts, a twentieth of any shape); every position of it and positions outside are resolved and judged at every level. Distinct non-trivial: distinct (document, position) pairs at depth 1 or more or inside text.",
            floors: &[("position resolved", 500_000), ("position inside a character refused", 1000), ("position outside refused", 50_000), ("shared depth judged", 500_000), ("cut node judged", 20_000)],
            assumptions: &["Documents have no empty text nodes (their child index is not determined by counting tokens)."],
        },
        Prop {
            id: "C02",
            quick: 300_000,
            thorough: 6_000_000,
            run: both!(c02),
            rule: "A case is one document; sizes of every node and fragment are compared with the token count after building, JSON, cutting, slicing, appending, child replacement, steps, and Markdown. Distinct non-trivial: distinct (operation, value) pairs with at least two children or astral text.",
            floors: &[("built", 20_000), ("json", 20_000), ("cut", 40_000), ("slice", 40_000), ("append", 20_000), ("replace_child", 10_000), ("step", 20_000), ("markdown", 1000)],
            assumptions: &[],
        },
        Prop {
            id: "C03",
            quick: 100_000,
            thorough: 2_000_000,
            run: both!(c03),
            rule: "A case is one document; all (small documents) or many pairs of positions are cut and sliced, with every range form, and the results compared with the tokens between the positions. Distinct non-trivial: distinct (document, from, to) with from < to.",
            floors: &[("slice judged", 200_000), ("cut judged", 200_000), ("open-ended range", 20_000), ("reversed range refused", 5_000), ("outside refused", 5_000), ("with parents", 50_000), ("excluded start", 100_000)],
            assumptions: &["Positions handed to cut lie on character boundaries and in range (its documented domain)."],
        },
        Prop {
            id: "C15",
            quick: 600_000,
            thorough: 12_000_000,
            run: both!(c15),
            rule: "A case is one document and several ranges; visits (node, position, order, pruning) and extracted text are compared with the tokens. Distinct non-trivial: distinct (document, range) with at least three visited nodes.",
            floors: &[("traversal judged", 200_000), ("pruned traversal", 50_000), ("text extraction judged", 200_000), ("separator judged", 20_000), ("separator near a leaf without text", 5_000), ("leaf text judged", 20_000), ("text content judged", 40_000)],
            assumptions: &["Whether the start of a block before the range counts, when the caller says that no separator came before, is not judged."],
        },
        Prop {
            id: "C18",
            quick: 2_400_000,
            thorough: 40_000_000,
            run: c18,
            rule: "Case 0 judges every child sequence up to length 3 over all node types, for every parent type of the Markdown schema; the others random sequences up to length 8 (1 in 200 up to 600) with marks, split at random points, and replacement ranges. Distinct non-trivial: distinct (type, child types, split) with at least one child.",
            floors: &[("exhaustive sequence", 10_000), ("accepted", 10_000), ("refused", 10_000), ("match in pieces", 30_000), ("can_replace yes", 3_000), ("can_replace no", 3_000), ("refused for marks", 300), ("long content", 500)],
            assumptions: &["Mark permissions are not judged for node types that cannot have children."],
        },
        Prop {
            id: "C21",
            quick: 1_200_000,
            thorough: 24_000_000,
            run: both!(c21),
            rule: "A case is a pair of child lists (valid or not, with split and empty texts); append, replace_child, accessors and conversions are compared with lists. Distinct non-trivial: distinct pairs, both non-empty.",
            floors: &[("append merged", 3_000), ("append unmerged texts", 2_000), ("append other", 20_000), ("replace_child", 40_000), ("replace_child same", 2_000)],
            assumptions: &[],
        },
        Prop {
            id: "C22",
            quick: 1_000_000,
            thorough: 20_000_000,
            run: both!(c22),
            rule: "A case is a set of random Unicode strings (weighted to astral characters, combining characters and boundary code points) and a document of them, edited at UTF-16 positions next to an array of UTF-16 units as a JavaScript peer would hold; cuts at every boundary, refusals inside characters. Distinct non-trivial: distinct strings with astral characters.",
            floors: &[("text cut at every boundary", 40_000), ("inside a character refused", 20_000), ("peer edit", 50_000), ("joined", 40_000), ("json text", 40_000), ("every position of the peer", 40_000)],
            assumptions: &[],
        },
    ]
}

// ---------------------------------------------------------------- C01

/// Positions at the ends of the node with the most children
fn wide_ends(m: &MNode) -> Vec<usize> {
    fn go(n: &MNode, start: usize, best: &mut (usize, usize, usize)) {
        let ch = n.children();
        if ch.len() > best.0 {
            *best = (ch.len(), start, start + n.content_size());
        }
        let mut at = start;
        for c in ch {
            go(c, at + 1, best);
            at += c.size();
        }
    }
    let mut best = (0, 0, 0);
    go(m, 0, &mut best);
    let (_, a, b) = best;
    (a..=(a + 4).min(b)).chain(b.saturating_sub(12).max(a)..=b).collect()
}

fn c01<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = any_doc(rng, sd, cx);
    let doc = S::build(&m);
    let size = m.content_size();
    cx.sample(|| format!("all positions of {}", S::show(&m)));
    let h = hash64(&m);
    let shown = S::show(&m);
    let others: Vec<usize> = {
        let mut v = vec![0, size, size + 1, size + 5, usize::MAX];
        for _ in 0..8 {
            v.push(rng.below(size + 1));
        }
        v
    };
    let all: Vec<usize> = if size <= 300 {
        (0..=size + 3).collect()
    } else {
        cx.ev("large document");
        let (some, ends) = if m.count() > 8000 { (12, 6) } else { (150, 20) };
        let mut v: Vec<usize> = (0..some).map(|_| rng.below(size + 1)).collect();
        v.extend((0..ends).chain(size - ends..=size + 3));
        if m.count() > 8000 {
            // the ends of the longest list of children
            cx.ev("very wide node");
            v.extend(wide_ends(&m));
        }
        v
    };
    for pos in all.into_iter().chain(vec![size * 2 + 7, 1 << 31, 1 << 32, usize::MAX - 1, usize::MAX]) {
        cx.doing = format!("resolve {} in {}", pos, shown);
        cx.eval();
        let got = doc.resolve(pos);
        let o = match resolve(&m, pos) {
            Err(e) => {
                ensure!(got.is_err(), "position {} of {} is {:?} but resolves", pos, shown, e);
                cx.ev(if e == Unresolved::OutOfRange {
                    "position outside refused"
                } else {
                    "position inside a character refused"
                });
                continue;
            }
            Ok(o) => o,
        };
        let rp = match got {
            Ok(r) => r,
            Err(e) => return Err(format!("position {} of {} refused: {}", pos, shown, e)),
        };
        cx.ev("position resolved");
        let at = || format!("position {} of {}", pos, shown);
        // the chain of nodes
        let mut cur = &doc;
        for d in 0..=o.depth() {
            let l = &o.lv[d];
            ensure!(std::ptr::eq(rp.node(d), cur), "{}: node({}) is not the enclosing node", at(), d);
            ensure!(rp.index(d) == l.index, "{}: index({}) is {} not {}", at(), d, rp.index(d), l.index);
            ensure!(
                rp.index_after(d) == l.index_after,
                "{}: index_after({}) is {} not {}",
                at(),
                d,
                rp.index_after(d),
                l.index_after
            );
            ensure!(rp.start(d) == l.start, "{}: start({}) is {} not {}", at(), d, rp.start(d), l.start);
            ensure!(rp.end(d) == o.end(d), "{}: end({}) is {} not {}", at(), d, rp.end(d), o.end(d));
            let (b, a) = if d == 0 { (None, None) } else { (Some(l.start - 1), Some(o.end(d) + 1)) };
            ensure!(rp.before(d) == b, "{}: before({}) is {:?} not {:?}", at(), d, rp.before(d), b);
            ensure!(rp.after(d) == a, "{}: after({}) is {:?} not {:?}", at(), d, rp.after(d), a);
            cx.eval();
            if d < o.depth() {
                cur = match cur.maybe_child(l.index) {
                    Some(c) => c,
                    None => return Err(format!("{}: no child {} at level {}", at(), l.index, d)),
                };
            }
        }
        ensure!(std::ptr::eq(rp.parent(), cur), "{}: parent is not the innermost node", at());
        ensure!(std::ptr::eq(rp.doc(), &doc), "{}: doc is not the root", at());
        let k = o.depth() + 1;
        ensure!(rp.before(k) == Some(pos), "{}: before({}) is {:?}", at(), k, rp.before(k));
        ensure!(rp.after(k) == Some(pos), "{}: after({}) is {:?}", at(), k, rp.after(k));
        ensure!(
            rp.text_offset() == o.text_offset,
            "{}: text_offset is {} not {}",
            at(),
            rp.text_offset(),
            o.text_offset
        );
        // the nodes around it
        let l = o.lv.last().unwrap();
        let (wb, wa) = if o.text_offset > 0 {
            cx.ev("cut node judged");
            let c = &l.node.children()[l.index];
            let t = match &c.body {
                Body::Text(t) => t,
                _ => unreachable!(),
            };
            let (x, y) = u16split(t, o.text_offset);
            let mk = |s: String| {
                let mut n = c.clone();
                n.body = Body::Text(s);
                n
            };
            (Some(mk(x)), Some(mk(y)))
        } else {
            (
                if l.index > 0 { l.node.children().get(l.index - 1).cloned() } else { None },
                l.node.children().get(l.index).cloned(),
            )
        };
        for (name, got, want) in [("node_before", rp.node_before(), wb), ("node_after", rp.node_after(), wa)] {
            match (got, want) {
                (None, None) => {}
                (Some(g), Some(w)) => same::<S>(&format!("{}: {}", at(), name), &g, &w)?,
                (g, w) => {
                    return Err(format!(
                        "{}: {} is {:?} but expected {:?}",
                        at(),
                        name,
                        g.map(|g| S::show(&S::read(&g))),
                        w.map(|w| S::show(&w))
                    ))
                }
            }
            cx.eval();
        }
        for q in &others {
            let (g, w) = (rp.shared_depth(*q), o.shared(*q));
            ensure!(g == w, "{}: shared_depth({}) is {} not {}", at(), q, g, w);
            cx.ev("shared depth judged");
            cx.eval();
        }
        if pos % 17 == 3 {
            // a copy, and the position resolved again, are the same position
            let (copy, again) = (rp.clone(), doc.resolve(pos).map_err(|e| e.to_string())?);
            for (name, r) in [("a clone", &copy), ("the same position resolved again", &again)] {
                ensure!(*r == rp, "{}: {} is not equal to it", at(), name);
                for d in 0..=o.depth() {
                    ensure!(
                        r.start(d) == rp.start(d) && r.index(d) == rp.index(d) && std::ptr::eq(r.node(d), rp.node(d)),
                        "{}: {} differs at level {}",
                        at(),
                        name,
                        d
                    );
                }
                ensure!(r.text_offset() == o.text_offset, "{}: {} has another text offset", at(), name);
            }
            ensure!(!format!("{:?}", copy).is_empty(), "{}: shown as nothing", at());
            cx.ev("copied and compared");
        }
        if o.depth() > 0 || o.text_offset > 0 {
            cx.seen(&(h, pos));
        }
    }
    // a node without content as root: no crash
    if rng.chance(5) {
        let ty = *rng.pick(&(0..sd.types.len() as u8).collect::<Vec<_>>());
        let n = { let o = gen::Opts::small(rng); gen::gen_node(rng, sd, ty, o) };
        let root = S::build(&n);
        for pos in [0, 1, 2, 7, usize::MAX] {
            cx.doing = format!("resolve {} in the root {}", pos, S::show(&n));
            let r = root.resolve(pos);
            ensure!(
                pos <= n.content_size() || r.is_err(),
                "position {} outside the root {} resolves",
                pos,
                S::show(&n)
            );
            cx.ev("any node as root");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn interesting(n: &MNode) -> bool {
    n.children().len() >= 2 || n.text().chars().any(|c| c as u32 > 0xFFFF)
}

fn c02<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let mut m = any_doc(rng, sd, cx);
    if rng.chance(4) {
        let mut left = 20;
        m = gen::wild_node(rng, sd, 4, &mut left);
    }
    let doc = S::build(&m);
    cx.sample(|| format!("sizes in everything derived from {}", S::show(&m)));
    let see = |cx: &mut Cx, op: &'static str, n: &S::Node| -> R {
        cx.doing = format!("{} {}", op, S::show(&m));
        cx.ev(op);
        cx.eval();
        sizes::<S>(op, n)?;
        let r = S::read(n);
        if interesting(&r) {
            cx.seen(&(op, r));
        }
        Ok(())
    };
    let frag = |cx: &mut Cx, op: &'static str, f: &Fragment<S>| -> R {
        cx.ev(op);
        cx.eval();
        let l = S::read_list(f);
        ensure!(
            f.size() == list_size(&l),
            "{}: fragment {} has size {} but spans {} positions",
            op,
            sd.show_list(&l),
            f.size(),
            list_size(&l)
        );
        ensure!(f.child_count() == l.len(), "{}: child_count", op);
        for c in f.children() {
            sizes::<S>(op, c)?;
        }
        if l.len() > 1 {
            cx.seen(&(op, l));
        }
        Ok(())
    };
    see(cx, "built", &doc)?;
    // JSON
    let s = serde_json::to_string(&doc).map_err(|e| format!("cannot write {}: {}", S::show(&m), e))?;
    let back: S::Node = match serde_json::from_str(&s) {
        Ok(n) => n,
        // serde_json itself refuses more than 128 nested levels
        Err(e) if e.to_string().contains("recursion limit") => return Ok(()),
        Err(e) => return Err(format!("cannot read back {}: {}", s, e)),
    };
    see(cx, "json", &back)?;
    let pos = positions(&m);
    if m.is_branch() {
        for _ in 0..3 {
            let (a, b) = gen::pick_range(rng, &pos);
            cx.doing = format!("cut/slice {}..{} of {}", a, b, S::show(&m));
            see(cx, "cut", &doc.cut(a..b))?;
            frag(cx, "cut", &doc.content().unwrap().cut(a..b))?;
            let sl = doc
                .slice(a..b, rng.chance(30))
                .map_err(|e| format!("slice {}..{} of {}: {}", a, b, S::show(&m), e))?;
            frag(cx, "slice", &sl.content)?;
            // append
            let (c, d) = gen::pick_range(rng, &pos);
            let x = doc.content().unwrap().cut(a..b);
            let y = doc.content().unwrap().cut(c..d);
            frag(cx, "append", &x.clone().append(y))?;
            frag(cx, "append", &x.append(sl.content))?;
        }
        let c = doc.content().unwrap();
        if c.child_count() > 0 {
            let mut left = 10;
            let n = gen::wild_node(rng, sd, 3, &mut left);
            let i = rng.below(c.child_count());
            frag(cx, "replace_child", &c.replace_child(i, S::build(&n)))?;
        }
        for _ in 0..3 {
            let st = S::build_step(&gen::gen_step(rng, sd, &m));
            cx.doing = format!("apply {:?} to {}", st, S::show(&m));
            if let Ok(n) = st.apply(&doc) {
                see(cx, "step", &n)?;
            }
        }
    }
    if rng.chance(10) {
        let t = crate::mdref::gen_markdown(rng);
        cx.doing = format!("from_markdown {:?}", t);
        if let Ok(Ok(d)) = guarded(|| prosemirror::markdown::from_markdown(&t)) {
            cx.ev("markdown");
            cx.eval();
            sizes::<MD>(&format!("from_markdown {:?}", t), &d)?;
        }
    }
    // texts
    let t1 = gen::gen_text(rng, 2);
    let t2 = gen::gen_text(rng, 1);
    let j = Text::from(t1.clone()).join(&Text::from(t2.clone()));
    ensure!(j.len_utf16() == u16len(&t1) + u16len(&t2), "size of the join of {:?} and {:?}", t1, t2);
    cx.eval();
    Ok(())
}

// ---------------------------------------------------------------- C03

fn c03<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = if rng.chance(50) { gen::small_doc(rng, sd) } else { any_doc(rng, sd, cx) };
    let doc = S::build(&m);
    let size = m.content_size();
    let pos = positions(&m);
    cx.sample(|| format!("ranges of {}", S::show(&m)));
    let h = hash64(&m);
    let shown = S::show(&m);
    let mut pairs = vec![];
    if pos.len() <= 16 {
        for a in &pos {
            for b in &pos {
                if a <= b {
                    pairs.push((*a, *b))
                }
            }
        }
    } else {
        for _ in 0..if m.count() > 8000 { 5 } else { 60 } {
            pairs.push(gen::pick_range(rng, &pos));
        }
        pairs.push((0, size));
    }
    let want_slice = |a, b, p| slice(&m, a, b, p, sd.text).expect("oracle slice");
    let judge = |what: String, got: Result<Slice<S>, String>, w: &MSlice| -> R {
        let g = match got {
            Ok(g) => S::read_slice(&g),
            Err(e) => return Err(format!("{}: refused: {}", what, e)),
        };
        let same = g.open_start == w.open_start
            && g.open_end == w.open_end
            && list_tokens(&g.content) == list_tokens(&w.content);
        ensure!(
            same,
            "{}: got {} open {}/{} but expected {} open {}/{}",
            what,
            sd.show_list(&g.content),
            g.open_start,
            g.open_end,
            sd.show_list(&w.content),
            w.open_start,
            w.open_end
        );
        Ok(())
    };
    for (a, b) in pairs {
        let parents = rng.chance(30);
        let what = format!("slice {}..{} (parents: {}) of {}", a, b, parents, shown);
        cx.doing = what.clone();
        let w = want_slice(a, b, parents);
        judge(what.clone(), doc.slice(a..b, parents).map_err(|e| e.to_string()), &w)?;
        cx.ev("slice judged");
        if parents {
            cx.ev("with parents");
        }
        cx.eval();
        if a < b {
            cx.seen(&(h, a, b));
            judge(what.clone(), doc.slice(a..=b - 1, parents).map_err(|e| e.to_string()), &w)?;
        }
        if a > 0 {
            // an excluded start
            let r = (Bound::Excluded(a - 1), Bound::Excluded(b));
            judge(what.clone(), doc.slice(r, parents).map_err(|e| e.to_string()), &w)?;
            if a < b {
                let r = (Bound::Excluded(a - 1), Bound::Included(b - 1));
                judge(what.clone(), doc.slice(r, parents).map_err(|e| e.to_string()), &w)?;
            }
            cx.ev("excluded start");
        }
        if a == 0 {
            judge(what.clone(), doc.slice(..b, parents).map_err(|e| e.to_string()), &w)?;
        }
        if b == size {
            let what = format!("slice {}.. (parents: {}) of {}", a, parents, shown);
            judge(what, doc.slice(a.., parents).map_err(|e| e.to_string()), &w)?;
            cx.ev("open-ended range");
            if a == 0 {
                judge("slice ..".into(), doc.slice(.., parents).map_err(|e| e.to_string()), &w)?;
            }
        }
        // cutting keeps all enclosing nodes
        let w = MNode { ..m.with_children(want_slice(a, b, true).content) };
        let what = format!("cut {}..{} of {}", a, b, shown);
        cx.doing = what.clone();
        same_tokens::<S>(&what, &doc.cut(a..b), &w)?;
        cx.ev("cut judged");
        let f = doc.content().unwrap().cut(a..b);
        ensure!(
            list_tokens(&S::read_list(&f)) == list_tokens(w.children()),
            "fragment {}: got {}",
            what,
            sd.show_list(&S::read_list(&f))
        );
        if a > 0 {
            same_tokens::<S>(&what, &doc.cut((Bound::Excluded(a - 1), Bound::Excluded(b))), &w)?;
            let f = doc.content().unwrap().cut((Bound::Excluded(a - 1), Bound::Excluded(b)));
            ensure!(list_tokens(&S::read_list(&f)) == list_tokens(w.children()), "fragment {} (excluded start)", what);
        }
        if b > 0 {
            same_tokens::<S>(&what, &doc.cut(a..=b - 1), &w)?;
        }
        if b == size {
            same_tokens::<S>(&what, &doc.cut(a..), &w)?;
        }
        if a == 0 {
            same_tokens::<S>(&what, &doc.cut(..b), &w)?;
        }
        cx.eval();
    }
    // refusals
    for _ in 0..if m.count() > 8000 { 1 } else { 6 } {
        let (a, b) = gen::pick_range(rng, &pos);
        let parents = rng.chance(30);
        if a < b {
            cx.doing = format!("slice {}..{} of {}", b, a, shown);
            ensure!(
                doc.slice(b..a, parents).is_err(),
                "the reversed range {}..{} of {} is not refused",
                b,
                a,
                shown
            );
            ensure!(
                a == 0 || doc.slice(b..=a - 1, parents).is_err(),
                "the reversed range {}..={} of {} is not refused",
                b,
                a.wrapping_sub(1),
                shown
            );
            cx.ev("reversed range refused");
            cx.eval();
        }
        let out = size + 1 + *rng.pick(&[0, 1, 5, 1 << 33]);
        cx.doing = format!("slice {}..{} of {}", a, out, shown);
        ensure!(
            doc.slice(a..out, parents).is_err(),
            "the range {}..{} outside {} is not refused",
            a,
            out,
            shown
        );
        for (name, got) in [
            ("inclusive", doc.slice(a..=out - 1, parents)),
            ("inclusive, largest", doc.slice(a..=usize::MAX, parents)),
            ("largest", doc.slice(a..usize::MAX, parents)),
            ("only an end", doc.slice(..out, parents)),
            ("only an inclusive end", doc.slice(..=out - 1, parents)),
            ("excluded start", doc.slice((Bound::Excluded(out), Bound::Unbounded), parents)),
            ("excluded start and end", doc.slice((Bound::Excluded(a), Bound::Excluded(out + 1)), parents)),
            ("excluded start, included end", doc.slice((Bound::Excluded(a), Bound::Included(out)), parents)),
            ("largest excluded start", doc.slice((Bound::Excluded(usize::MAX), Bound::Unbounded), parents)),
            ("only a start", doc.slice(out.., parents)),
        ] {
            ensure!(
                got.is_err(),
                "a range outside {} (from {}, to {}; {}) is not refused",
                shown,
                a,
                out,
                name
            );
        }
        cx.ev("outside refused");
        cx.eval();
        let out2 = out + 1 + rng.below(3);
        ensure!(
            doc.slice(out..out2, parents).is_err(),
            "the range {}..{} outside {} is not refused",
            out,
            out2,
            shown
        );
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn visit(n: &MNode, start: usize, from: usize, to: usize, skip: &dyn Fn(usize) -> bool, out: &mut Vec<(usize, usize, u64)>) {
    let mut at = start;
    for c in n.children() {
        let end = at + c.size();
        if end > from && at < to {
            out.push((at, c.size(), hash64(c)));
            if c.is_branch() && !skip(at) {
                visit(c, at + 1, from, to, skip, out);
            }
        }
        at = end;
    }
}

fn c15<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = any_doc(rng, sd, cx);
    let doc = S::build(&m);
    let frag = doc.content().unwrap();
    let pos = positions(&m);
    let h = hash64(&m);
    cx.sample(|| format!("traversals of {}", S::show(&m)));
    for k in 0..6 {
        let (from, to) = if k == 0 { (0, m.content_size()) } else { gen::pick_range(rng, &pos) };
        // which nodes to skip
        let salt = rng.next();
        let prune = rng.chance(40);
        let skip = |p: usize| prune && hash64(&(salt, p)) % 3 == 0;
        let base = *rng.pick(&[0usize, 0, 1, 17]);
        cx.doing = format!("nodes_between {}..{} of {}", from, to, S::show(&m));
        let mut want = vec![];
        visit(&m, 0, from, to, &|p| skip(p), &mut want);
        let mut got = vec![];
        frag.nodes_between(
            from,
            to,
            &mut |n: &S::Node, p: usize| {
                let p = p.wrapping_sub(base);
                got.push((p, n.node_size(), hash64(&S::read(n))));
                !skip(p)
            },
            base,
        );
        // an empty range overlaps no node; nodes around the point may or may not be reported
        if from < to {
            ensure!(
                got == want,
                "nodes_between {}..{} of {} (skipping: {}) visits (position, size) {:?} but expected {:?}",
                from,
                to,
                S::show(&m),
                prune,
                got.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(),
                want.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>()
            );
            cx.ev("traversal judged");
            if prune {
                cx.ev("pruned traversal");
            }
            cx.eval();
            if want.len() >= 3 {
                cx.seen(&(h, from, to));
            }
        } else {
            cx.ev("empty range");
        }
        text_between::<S>(cx, rng, &m, frag, from, to)?;
    }
    cx.doing = format!("text_content of {}", S::show(&m));
    fn all_text<S: Spec>(cx: &mut Cx, n: &S::Node, m: &MNode) -> R {
        let (g, w) = (n.text_content(), m.text());
        ensure!(g == w, "text_content of {} is {:?} but expected {:?}", S::show(m), g, w);
        cx.ev("text content judged");
        cx.eval();
        for (i, c) in m.children().iter().enumerate() {
            all_text::<S>(cx, n.child(i).unwrap(), c)?;
        }
        Ok(())
    }
    all_text::<S>(cx, &doc, &m)
}

const SEP: char = '\u{E123}';
const LEAF: char = '\u{E456}';

fn text_between<S: Spec>(cx: &mut Cx, rng: &mut Rng, m: &MNode, frag: &Fragment<S>, from: usize, to: usize) -> R {
    let sd = S::desc();
    // the separator and the leaf text must be recognisable
    if m.text().contains(|c| c == SEP || c == LEAF) {
        return Ok(());
    }
    let sep = match rng.below(3) {
        0 => None,
        1 => Some(String::new()),
        _ => Some(SEP.to_string()),
    };
    // (a leaf counts also where its text is empty or there is none)
    let leaf = match rng.below(5) {
        0 | 1 => Some(LEAF.to_string()),
        2 => Some(String::new()),
        _ => None,
    };
    let separated = rng.chance(70);
    let what = format!(
        "text_between {}..{} (separated: {}, separator: {:?}, leaf: {:?}) of {}",
        from,
        to,
        separated,
        sep,
        leaf,
        S::show(m)
    );
    cx.doing = what.clone();
    let mut got = String::from("pre");
    frag.text_between(&mut got, separated, from, to, sep.as_deref(), leaf.as_deref());
    ensure!(got.starts_with("pre"), "{}: what was in the buffer is gone: {:?}", what, got);
    let got = got[3..].to_string();
    // what is in the range, as the documentation says: the characters, the leaf text for every
    // leaf, and the separator where a block starts after any of these. Every leaf counts, whether
    // or not there is a leaf text for it.
    let has_sep = matches!(&sep, Some(s) if !s.is_empty());
    let mut want: Vec<u16> = vec![];
    let (mut texts, mut leaves, mut seps) = (0, 0, 0);
    let mut pending = false;
    for t in &list_tokens(m.children())[from..to] {
        match t {
            Tok::Open(ty, ..) => {
                if pending && has_sep && !sd.types[*ty as usize].inline {
                    want.push(SEP as u16);
                    seps += 1;
                    pending = false;
                }
            }
            Tok::Close => {}
            Tok::Leaf(..) => {
                leaves += 1;
                pending = true;
                if matches!(&leaf, Some(t) if !t.is_empty()) {
                    want.push(LEAF as u16);
                }
            }
            Tok::Unit(u, _) => {
                texts += 1;
                pending = true;
                want.push(*u);
            }
        }
    }
    let want = String::from_utf16(&want).expect("boundaries");
    if from == to {
        // an empty range holds no characters; leaf text of a neighbour is not judged
        ensure!(
            got.chars().all(|c| c == LEAF || (has_sep && c == SEP)),
            "{}: {:?} from an empty range",
            what,
            got
        );
        return Ok(());
    }
    // whether a block that starts before the range counts as the start of a block is not fixed
    let first = !separated && has_sep && got.strip_prefix(SEP) == Some(&want);
    ensure!(first || got == want, "{}: got {:?} but expected {:?}", what, got, want);
    cx.ev("text extraction judged");
    if leaf.is_some() && leaves > 0 {
        cx.ev("leaf text judged");
    }
    if seps > 0 && texts > 0 {
        cx.ev("separator judged");
    }
    if has_sep && leaf.is_none() && leaves > 0 && seps > 0 {
        cx.ev("separator near a leaf without text");
    }
    cx.eval();
    Ok(())
}

// ---------------------------------------------------------------- C18

fn child_of(rng: &mut Rng, sd: &'static SchemaDesc, ty: u8, marks: usize) -> MNode {
    let spec = &sd.types[ty as usize];
    MNode {
        ty,
        attrs: gen::gen_attrs(rng, sd, ty),
        marks: if spec.markable { gen::gen_marks(rng, sd, u32::MAX, marks) } else { vec![] },
        body: match spec.kind {
            Kind::Text => Body::Text(gen::gen_text(rng, 1)),
            Kind::Leaf => Body::Leaf,
            Kind::Branch(_) => Body::Branch(vec![]),
        },
    }
}

fn c18_accepts<S: Spec>(cx: &mut Cx, ty: u8, children: &[MNode]) -> R {
    let sd = S::desc();
    let f = S::build_list(children);
    let nt = S::node_type(ty);
    let want = sd.children_ok(ty, children);
    let got = nt.valid_content(&f);
    ensure!(
        got == want,
        "valid_content of {} for {} is {}",
        sd.types[ty as usize].name,
        sd.show_list(children),
        got
    );
    cx.ev(if want { "accepted" } else { "refused" });
    if !want && sd.rex(ty).after(children.iter().map(|c| c.ty)).nullable() {
        cx.ev("refused for marks");
    }
    cx.eval();
    // the match state
    let m = nt.content_match().match_fragment(&f);
    let r = sd.rex(ty).after(children.iter().map(|c| c.ty));
    judge_match::<S>(&format!("match of {} in {}", sd.show_list(children), sd.types[ty as usize].name), m, &r)
}

fn dead(r: &Rex) -> bool {
    matches!(r, Rex::Nul)
}

fn judge_match<S: Spec>(what: &str, got: Option<S::ContentMatch>, r: &Rex) -> R {
    match got {
        None => ensure!(dead(r), "{}: no match although more content could follow", what),
        Some(g) => {
            ensure!(!dead(r), "{}: matches although it cannot be continued to valid content", what);
            ensure!(
                g.valid_end() == r.nullable(),
                "{}: valid_end is {} but content {} required",
                what,
                g.valid_end(),
                if r.nullable() { "is no longer" } else { "is still" }
            );
        }
    }
    Ok(())
}

fn c18(cx: &mut Cx, rng: &mut Rng, idx: u64) -> R {
    if idx == 0 {
        c18_exhaustive(cx, rng)
    } else if idx % 4 == 3 {
        c18_random::<crate::spec_ts::TS>(cx, rng)
    } else {
        c18_random::<MD>(cx, rng)
    }
}

fn c18_exhaustive(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = md::desc();
    let n = sd.types.len() as u8;
    let protos: Vec<MNode> = (0..n).map(|t| child_of(rng, sd, t, 0)).collect();
    for ty in 0..n {
        // types
        for o in 0..n {
            let (g, w) = (MD::node_type(ty).compatible_content(MD::node_type(o)), sd.compat(ty, o));
            ensure!(
                g == w,
                "compatible_content of {} and {} is {}",
                sd.types[ty as usize].name,
                sd.types[o as usize].name,
                g
            );
            cx.eval();
        }
        let inl = sd.types[ty as usize].inline;
        // doc and list_item are neither in the group `block` nor inline
        ensure!(
            MD::node_type(ty).is_inline() == inl,
            "is_inline of {} is {}",
            sd.types[ty as usize].name,
            !inl
        );
        let mut seqs: Vec<Vec<u8>> = vec![vec![]];
        let mut from = 0;
        for _ in 0..3 {
            let to = seqs.len();
            for i in from..to {
                for t in 0..n {
                    let mut s = seqs[i].clone();
                    s.push(t);
                    seqs.push(s);
                }
            }
            from = to;
        }
        for s in &seqs {
            let ch: Vec<MNode> = s.iter().map(|t| protos[*t as usize].clone()).collect();
            cx.doing = format!("{} in {}", sd.show_list(&ch), sd.types[ty as usize].name);
            c18_accepts::<MD>(cx, ty, &ch)?;
            // type by type
            let mut m = Some(MD::node_type(ty).content_match());
            let mut r = sd.rex(ty);
            for t in s {
                m = m.and_then(|m| m.match_type(MD::node_type(*t)));
                r = r.d(*t);
                judge_match::<MD>(&cx.doing, m, &r)?;
            }
            cx.ev("exhaustive sequence");
            if !s.is_empty() {
                cx.seen(&(ty, s));
            }
        }
        // marks
        if matches!(sd.types[ty as usize].kind, Kind::Branch(_)) {
            for k in 0..sd.n_marks {
                let want = sd.types[ty as usize].allow >> k & 1 == 1;
                let nt = MD::node_type(ty);
                ensure!(
                    nt.allows_mark_type(MD::mark_type(k)) == want,
                    "allows_mark_type of {} for mark {}",
                    sd.types[ty as usize].name,
                    k
                );
                let set = MD::build_marks(&vec![gen::gen_mark_of(rng, sd, k)]);
                ensure!(
                    nt.allow_marks(&set) == want,
                    "allow_marks of {} for mark {}",
                    sd.types[ty as usize].name,
                    k
                );
                let mut t = protos[md::TEXT as usize].clone();
                t.marks = vec![gen::gen_mark_of(rng, sd, k)];
                c18_accepts::<MD>(cx, ty, &[t])?;
            }
        }
    }
    Ok(())
}

fn c18_random<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let n = sd.types.len();
    let mut ty = rng.below(n) as u8;
    if rng.chance(20) {
        // types that restrict marks
        let r: Vec<u8> = (0..n as u8)
            .filter(|t| matches!(sd.types[*t as usize].kind, Kind::Branch(_)) && sd.types[*t as usize].allow != u32::MAX)
            .collect();
        if !r.is_empty() {
            ty = *rng.pick(&r);
        }
    }
    // children: a word of the expression, a damaged word, or anything
    let marks = *rng.pick(&[0, 0, 40]);
    let mut ch = match rng.below(3) {
        0 if matches!(sd.types[ty as usize].kind, Kind::Branch(_)) => {
            { let o = gen::Opts::small(rng); gen::gen_children(rng, sd, ty, o) }
        }
        1 => {
            let k = rng.below(n) as u8;
            if matches!(sd.types[k as usize].kind, Kind::Branch(_)) {
                { let o = gen::Opts::small(rng); gen::gen_children(rng, sd, k, o) }
            } else {
                vec![]
            }
        }
        _ => {
            let k = rng.below(6);
            (0..k).map(|_| { let t = rng.below(n) as u8; child_of(rng, sd, t, marks) }).collect()
        }
    };
    if rng.chance(30) && !ch.is_empty() {
        let i = rng.below(ch.len());
        match rng.below(3) {
            0 => {
                ch.remove(i);
            }
            1 => {
                let t = rng.below(n) as u8;
                ch.insert(i, child_of(rng, sd, t, marks));
            }
            _ => {
                let j = rng.below(ch.len());
                ch.swap(i, j);
            }
        }
    }
    ch.truncate(8);
    if rng.below(200) == 0 && !ch.is_empty() {
        // far more of the same, with one more change
        let n = rng.range(9, 600);
        let k = rng.below(ch.len());
        let unit = ch[k].clone();
        ch.splice(k..k, std::iter::repeat(unit).take(n));
        if rng.chance(60) {
            let i = rng.below(ch.len());
            let t = rng.below(sd.types.len()) as u8;
            ch[i] = child_of(rng, sd, t, 40);
        }
        cx.ev("long content");
    }
    if rng.chance(25) {
        // perhaps one mark too many somewhere
        let only = if rng.chance(50) { rng.below(8) } else { usize::MAX };
        for (_, c) in ch.iter_mut().filter(|c| c.is_text()).enumerate().filter(|(i, _)| only > 7 || *i == only % 3) {
            c.marks = gen::gen_marks(rng, sd, u32::MAX, 60);
        }
    }
    cx.sample(|| format!("{} in {}", sd.show_list(&ch), sd.types[ty as usize].name));
    cx.doing = format!("{} in {}", sd.show_list(&ch), sd.types[ty as usize].name);
    if !matches!(sd.types[ty as usize].kind, Kind::Branch(_)) {
        // marks are no question for a leaf
        for c in ch.iter_mut() {
            c.marks = vec![];
        }
    }
    c18_accepts::<S>(cx, ty, &ch)?;
    let f = S::build_list(&ch);
    let nt = S::node_type(ty);
    let whole = nt.content_match().match_fragment(&f);
    // in pieces
    let k = rng.below(ch.len() + 1);
    let r1 = sd.rex(ty).after(ch[..k].iter().map(|c| c.ty));
    let r2 = sd.rex(ty).after(ch.iter().map(|c| c.ty));
    let first = nt.content_match().match_fragment_range(&f, ..k);
    judge_match::<S>(&format!("first {} of {}", k, cx.doing), first, &r1)?;
    let second = first.and_then(|m| m.match_fragment_range(&f, k..));
    judge_match::<S>(&format!("{} in pieces of {}", cx.doing, k), second, &r2)?;
    ensure!(
        second.map(|m| m.valid_end()) == whole.map(|m| m.valid_end()),
        "{}: matching in pieces of {} differs from matching at once",
        cx.doing,
        k
    );
    let mut step = Some(nt.content_match());
    for c in &ch {
        step = step.and_then(|m| m.match_type(S::node_type(c.ty)));
    }
    ensure!(
        step.map(|m| m.valid_end()) == whole.map(|m| m.valid_end()),
        "{}: matching type by type differs",
        cx.doing
    );
    cx.ev("match in pieces");
    cx.eval();
    cx.seen(&(ty, ch.iter().map(|c| c.ty).collect::<Vec<_>>(), k, sd.name));
    // a sub-range
    let a = rng.below(ch.len() + 1);
    let b = rng.range(a, ch.len());
    let r = sd.rex(ty).after(ch[a..b].iter().map(|c| c.ty));
    judge_match::<S>(
        &format!("{}..{} of {}", a, b, cx.doing),
        nt.content_match().match_fragment_range(&f, a..b),
        &r,
    )?;
    if b > a {
        judge_match::<S>(
            &format!("{}..={} of {}", a, b - 1, cx.doing),
            nt.content_match().match_fragment_range(&f, a..=b - 1),
            &r,
        )?;
    }

    // questions to a node
    if matches!(sd.types[ty as usize].kind, Kind::Branch(_)) {
        let node = MNode {
            ty,
            attrs: gen::gen_attrs(rng, sd, ty),
            marks: vec![],
            body: Body::Branch(ch.clone()),
        };
        let ln = S::build(&node);
        let i = rng.below(ch.len() + 1);
        let ri = sd.rex(ty).after(ch[..i].iter().map(|c| c.ty));
        match ln.content_match_at(i) {
            Ok(m) => judge_match::<S>(&format!("content_match_at({}) of {}", i, S::show(&node)), Some(m), &ri)?,
            Err(_) => ensure!(dead(&ri), "content_match_at({}) of {} is refused", i, S::show(&node)),
        }
        cx.eval();
        let from = rng.below(ch.len() + 1);
        let to = rng.range(from, ch.len());
        let repl: Vec<MNode> = match rng.below(4) {
            0 => vec![],
            1 => {
                let k = rng.below(n) as u8;
                if matches!(sd.types[k as usize].kind, Kind::Branch(_)) {
                    { let o = gen::Opts::small(rng); gen::gen_children(rng, sd, k, o) }
                } else {
                    vec![]
                }
            }
            2 => { let o = gen::Opts::small(rng); gen::gen_children(rng, sd, ty, o) },
            _ => {
                let k = rng.below(3);
                (0..k).map(|_| { let t = rng.below(n) as u8; child_of(rng, sd, t, 30) }).collect()
            }
        };
        let (ra, rb) = {
            let a = rng.below(repl.len() + 1);
            (a, rng.range(a, repl.len()))
        };
        let used = &repl[ra..rb];
        let what = format!(
            "can_replace {}..{} of {} by {}..{} of {}",
            from,
            to,
            S::show(&node),
            ra,
            rb,
            sd.show_list(&repl)
        );
        cx.doing = what.clone();
        let rf = S::build_list(&repl);
        let tys: Vec<u8> =
            ch[..from].iter().chain(used).chain(&ch[to..]).map(|c| c.ty).collect();
        let want = sd.rex(ty).after(tys).nullable() && used.iter().all(|c| sd.marks_allowed(ty, &c.marks));
        let prefix_dead = dead(&sd.rex(ty).after(ch[..from].iter().map(|c| c.ty)));
        let judge = |got: Result<bool, _>| -> R {
            let _: &Result<bool, prosemirror::model::ContentMatchError> = &got;
            match got {
                Err(_) => ensure!(prefix_dead, "{}: refused", what),
                Ok(g) => {
                    ensure!(g == (want && !prefix_dead), "{}: {}", what, g);
                }
            }
            Ok(())
        };
        judge(ln.can_replace(from, to, Some(&rf), ra..rb))?;
        if ra == 0 && rb == repl.len() {
            judge(ln.can_replace(from, to, Some(&rf), ..))?;
            judge(ln.can_replace(from, to, Some(&rf), ra..))?;
        }
        if ra > 0 {
            judge(ln.can_replace(from, to, Some(&rf), (Bound::Excluded(ra - 1), Bound::Excluded(rb))))?;
        }
        if rb > 0 && ra < rb {
            judge(ln.can_replace(from, to, Some(&rf), ra..=rb - 1))?;
        }
        if used.is_empty() {
            judge(ln.can_replace(from, to, None, ..))?;
        }
        cx.ev(if want { "can_replace yes" } else { "can_replace no" });
        cx.eval();
    }
    let o = rng.below(n) as u8;
    ensure!(
        nt.compatible_content(S::node_type(o)) == sd.compat(ty, o),
        "compatible_content of {} and {}",
        sd.types[ty as usize].name,
        sd.types[o as usize].name
    );
    Ok(())
}

// ---------------------------------------------------------------- C21

fn list_for_append(rng: &mut Rng, sd: &'static SchemaDesc) -> Vec<MNode> {
    match rng.below(4) {
        0 => {
            let d = gen::small_doc(rng, sd);
            let pos = positions(&d);
            let (a, b) = gen::pick_range(rng, &pos);
            slice(&d, a, b, false, sd.text).unwrap().content
        }
        1 => {
            // texts with few different marks
            let k = rng.below(4);
            (0..k)
                .map(|_| MNode {
                    ty: sd.text,
                    attrs: vec![],
                    marks: if rng.chance(50) { vec![] } else { gen::gen_marks(rng, sd, 0b11, 60) },
                    body: Body::Text(if rng.chance(6) { String::new() } else { gen::gen_text(rng, 1) }),
                })
                .collect()
        }
        _ => {
            let k = rng.below(5);
            gen::wild_list(rng, sd, k, 3)
        }
    }
}

fn c21<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let a = list_for_append(rng, sd);
    let b = list_for_append(rng, sd);
    let (fa, fb) = (S::build_list(&a), S::build_list(&b));
    let show = |l: &[MNode]| sd.show_list(l);
    let judge = |what: &str, f: &Fragment<S>, want: &[MNode]| -> R {
        let got = S::read_list(f);
        ensure!(got == want, "{}: got {} but expected {}", what, show(&got), show(want));
        ensure!(f == &S::build_list(want), "{}: not equal to a fragment of {}", what, show(want));
        ensure!(f.size() == list_size(want), "{}: size {} not {}", what, f.size(), list_size(want));
        ensure!(f.child_count() == want.len(), "{}: child_count", what);
        ensure!(f.children().len() == want.len(), "{}: children", what);
        let r = |n: Option<&S::Node>| n.map(S::read);
        ensure!(r(f.first_child()).as_ref() == want.first(), "{}: first_child", what);
        ensure!(r(f.last_child()).as_ref() == want.last(), "{}: last_child", what);
        for i in 0..want.len() + 2 {
            ensure!(r(f.maybe_child(i)).as_ref() == want.get(i), "{}: maybe_child({})", what, i);
            if i < want.len() {
                ensure!(S::read(f.child(i)) == want[i], "{}: child({})", what, i);
            }
        }
        let v: Vec<S::Node> = f.clone().into();
        ensure!(v.len() == want.len(), "{}: conversion to a list", what);
        ensure!(&Fragment::from(v) == f, "{}: conversion to a list and back", what);
        Ok(())
    };
    cx.doing = format!("fragment {}", show(&a));
    judge("built", &fa, &a)?;
    cx.sample(|| format!("append {} and {}", show(&a), show(&b)));
    let what = format!("append {} and {}", show(&a), show(&b));
    cx.doing = what.clone();
    let mut want = a.clone();
    let mut rest = b.clone();
    let mut kind = "append other";
    if let (Some(x), Some(y)) = (want.last_mut(), rest.first()) {
        if let (Body::Text(s), Body::Text(t)) = (&mut x.body, &y.body) {
            if x.marks == y.marks {
                s.push_str(t);
                rest.remove(0);
                kind = "append merged";
            } else {
                kind = "append unmerged texts";
            }
        }
    }
    want.extend(rest);
    judge(&what, &fa.clone().append(fb.clone()), &want)?;
    cx.ev(kind);
    cx.eval();
    if !a.is_empty() && !b.is_empty() {
        cx.seen(&(&a, &b));
    }
    judge(&what, &fa.clone().append(Fragment::new()), &a)?;
    judge(&what, &Fragment::<S>::default().append(fb.clone()), &b)?;
    judge("EMPTY", &Fragment::<S>::EMPTY, &[])?;
    judge("EMPTY_REF", Fragment::<S>::EMPTY_REF, &[])?;
    judge("new", &Fragment::<S>::new(), &[])?;
    // arguments unchanged
    judge("an appended fragment", &fb, &b)?;
    if !a.is_empty() {
        let i = rng.below(a.len());
        let mut left = 6;
        let n = if rng.chance(20) { a[i].clone() } else { gen::wild_node(rng, sd, 2, &mut left) };
        let what = format!("replace_child({}, {}) of {}", i, S::show(&n), show(&a));
        cx.doing = what.clone();
        let mut want = a.clone();
        want[i] = n.clone();
        let got: Cow<Fragment<S>> = fa.replace_child(i, S::build(&n));
        judge(&what, &got, &want)?;
        cx.ev("replace_child");
        if n == a[i] {
            cx.ev("replace_child same");
        }
        cx.eval();
        judge("a fragment after replace_child", &fa, &a)?;
    }
    if a.len() == 1 {
        judge("from one", &Fragment::from((S::build(&a[0]),)), &a)?;
    }
    if a.len() == 2 {
        judge("from two", &Fragment::from((S::build(&a[0]), S::build(&a[1]))), &a)?;
    }
    // equality
    ensure!((fa == fb) == (a == b), "equality of {} and {}", show(&a), show(&b));
    Ok(())
}

// ---------------------------------------------------------------- C22

fn astral_text(rng: &mut Rng) -> String {
    let k = *rng.pick(&[1, 1, 2]);
    let mut s = gen::gen_text(rng, k);
    if rng.chance(20) {
        // what readers take for one character
        for _ in 0..rng.range(1, 3) {
            s.push_str(rng.pick(gen::SEQUENCES));
        }
    }
    if rng.chance(50) {
        s.push(*rng.pick(gen::ASTRAL));
        s.push_str(&gen::gen_text(rng, 2));
    }
    if rng.below(40) == 0 {
        // plain for long, and then not
        let n = gen::magnitude(rng, 4, 9);
        let mut t: String = (0..n).map(|_| *rng.pick(&['a', 'b', ' ', 'z'])).collect();
        t.push_str(&s);
        s = t;
    }
    s
}

fn c22<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let s = astral_text(rng);
    let t = astral_text(rng);
    let us: Vec<u16> = s.encode_utf16().collect();
    cx.sample(|| format!("text {:?}", s));
    if s.chars().any(|c| c as u32 > 0xFFFF) {
        cx.seen(&s);
    }
    cx.doing = format!("text {:?} and {:?}", s, t);
    let (ls, lt) = (Text::from(s.clone()), Text::from(t.clone()));
    ensure!(ls.len_utf16() == us.len(), "length of {:?} is {}", s, ls.len_utf16());
    ensure!(ls.as_str() == s, "text {:?} reads as {:?}", s, ls.as_str());
    let j = ls.join(&lt);
    ensure!(j.as_str() == format!("{}{}", s, t), "join of {:?} and {:?} is {:?}", s, t, j.as_str());
    ensure!(
        j.len_utf16() == u16len(&s) + u16len(&t),
        "length of the join of {:?} and {:?} is {}",
        s,
        t,
        j.len_utf16()
    );
    ensure!(j == Text::from(format!("{}{}", s, t)), "the join of {:?} and {:?} is not equal to their text", s, t);
    ensure!((ls == lt) == (s == t), "equality of {:?} and {:?}", s, t);
    cx.ev("joined");
    cx.eval();
    // JSON, including escaped surrogate pairs as a JavaScript peer may write them
    let mut esc = String::from("\"");
    for u in &us {
        esc.push_str(&format!("\\u{:04x}", u));
    }
    esc.push('"');
    let back: Text = serde_json::from_str(&esc).map_err(|e| format!("{}: {}", esc, e))?;
    ensure!(back == ls, "{} is read as {:?}", esc, back.as_str());
    ensure!(back.len_utf16() == us.len(), "{} has length {}", esc, back.len_utf16());
    let w: String = serde_json::from_str(&serde_json::to_string(&ls).unwrap()).unwrap();
    ensure!(w == s, "{:?} is written as {:?}", s, w);
    cx.ev("json text");
    cx.eval();
    // cutting at every boundary
    let mk = |s: &str, marks: Marks| MNode { ty: sd.text, attrs: vec![], marks, body: Body::Text(s.into()) };
    let marks = gen::gen_marks(rng, sd, u32::MAX, 50);
    let n = S::build(&mk(&s, marks.clone()));
    let long = us.len() > 60;
    if long {
        cx.ev("long text cut");
    }
    let ks: Vec<usize> =
        if long { (0..25).map(|_| rng.below(us.len() + 1)).chain(us.len() - 12..=us.len()).collect() } else { (0..=us.len()).collect() };
    for k in ks {
        if inside_char(&s, k) {
            continue;
        }
        let (a, b) = u16split(&s, k);
        cx.doing = format!("cut {:?} at {}", s, k);
        same::<S>(&cx.doing, &n.cut(..k), &mk(&a, marks.clone()))?;
        same::<S>(&cx.doing, &n.cut(k..), &mk(&b, marks.clone()))?;
        for l in k..=us.len() {
            if long && !(l == k + 1 || rng.below(us.len()) < 3) {
                continue;
            }
            if !inside_char(&s, l) {
                let (mid, _) = u16split(&b, l - k);
                same::<S>(&cx.doing, &n.cut(k..l), &mk(&mid, marks.clone()))?;
            }
        }
    }
    cx.ev("text cut at every boundary");
    cx.eval();
    // with_text and same_markup
    if let Some(tn) = n.text_node() {
        let x = tn.with_text(lt.clone());
        ensure!(x.text == lt && S::read_marks(&x.marks) == marks, "with_text of {:?}", t);
    }

    // next to a JavaScript peer: arrays of units in a paragraph
    let o = gen::Opts { text: *rng.pick(&[1, 1, 2]), ..gen::Opts::small(rng) };
    let mut m = gen::gen_doc(rng, sd, o);
    let mut doc = S::build(&m);
    for turn in 0..4 {
        if turn == 3 {
            // what the peer can address can be addressed, and nothing else
            let size = m.content_size();
            let all: Vec<usize> = if size <= 80 {
                (0..=size).collect()
            } else {
                (0..80).map(|_| rng.below(size + 1)).collect()
            };
            for p in all {
                cx.doing = format!("resolve {} in {}", p, S::show(&m));
                let (got, want) = (doc.resolve(p), resolve(&m, p));
                ensure!(got.is_ok() == want.is_ok(), "{}: refused {}, but should be {}", cx.doing, got.is_err(), want.is_err());
                if let (Ok(g), Ok(w)) = (got, want) {
                    ensure!(g.text_offset() == w.text_offset, "{}: offset {} in the text", cx.doing, g.text_offset());
                }
            }
            cx.ev("every position of the peer");
            cx.eval();
        }
        let toks = list_tokens(m.children());
        let size = toks.len();
        let (mut a, mut b) = (rng.below(size + 1), rng.below(size + 1));
        if rng.chance(70) {
            b = (a + rng.below(5)).min(size);
        }
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let ins = if rng.chance(60) { astral_text(rng) } else { String::new() };
        let bad = |p| matches!(resolve(&m, p), Err(Unresolved::InsideChar));
        let refuse = bad(a) || bad(b);
        let sl = if ins.is_empty() { MSlice::empty() } else { MSlice::flat(vec![mk(&ins, vec![])]) };
        cx.doing = format!("replace {}..{} by {:?} in {}", a, b, ins, S::show(&m));
        let got = doc.replace(a..b, &S::build_slice(&sl));
        if refuse {
            ensure!(got.is_err(), "{}: a position inside a character is not refused", cx.doing);
            if a < b {
                ensure!(doc.slice(a..b, false).is_err(), "slice instead of {}: not refused", cx.doing);
            }
            let mark = gen::gen_mark(rng, sd);
            for add in [true, false] {
                let st = if add {
                    MStep::AddMark { from: a, to: b, mark: mark.clone() }
                } else {
                    MStep::RemoveMark { from: a, to: b, mark: mark.clone() }
                };
                // an empty range touches nothing
                if a < b {
                    ensure!(S::build_step(&st).apply(&doc).is_err(), "{:?} is not refused in {}", st, S::show(&m));
                }
            }
            cx.ev("inside a character refused");
            cx.eval();
            continue;
        }
        // the peer: splice its array of units and tokens
        let mut peer = toks.clone();
        peer.splice(a..b, list_tokens(&sl.content));
        match got {
            Ok(d) => {
                let r = S::read(&d);
                ensure!(
                    list_tokens(r.children()) == peer,
                    "{}: got {}",
                    cx.doing,
                    S::show(&r)
                );
                cx.ev("peer edit");
                cx.eval();
                m = r;
                doc = d;
            }
            Err(e) => {
                ensure!(
                    !matches!(replace(sd, &m, a, b, &sl), Verdict::Ok(_)),
                    "{}: refused ({}) though it fits",
                    cx.doing,
                    e
                );
                cx.ev("edit refused")
            }
        }
    }
    Ok(())
}
