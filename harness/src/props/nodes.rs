//! C23 nodes say what they are, and are equal exactly when they are alike.
use super::*;
use crate::gen;
use crate::spec_md as md;
use crate::{both, ensure};
use prosemirror::markdown::{helper, MarkdownMark, MarkdownNode, MD};
use prosemirror::model::{Fragment, Mark, MarkSet, Text, TextNode};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        quick: 300_000,
        thorough: 6_000_000,
        run: both!(c23),
        rule: "A case is a document (any shape, any marks, empty texts too): every node of it is asked for its type, kind, content, children, text and marks; copied, re-marked, given other content; and compared with a clone, with nodes differing in one place (a type, an attribute, a mark, a character, a child), and with nodes rebuilt by another route (the helpers, JSON). Distinct non-trivial: distinct nodes with children or marks.",
        floors: &[("node judged", 300_000), ("copy judged", 300_000), ("re-marked", 100_000), ("one difference told apart", 200_000), ("differs in a type", 5_000), ("differs in an attribute", 20_000), ("differs in marks", 10_000), ("differs in text", 20_000), ("differs in children", 20_000), ("differs in an empty text", 5_000), ("helper judged", 50_000), ("mark hashed", 100_000)],
        assumptions: &["Node types' own notion of block (the group used in content expressions) is judged through content matching (C18), not here."],
    }]
}

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    hash64(t)
}

/// `n` with one thing changed somewhere
fn tweak(rng: &mut Rng, sd: &'static SchemaDesc, n: &MNode) -> Option<(MNode, &'static str)> {
    let mut out = n.clone();
    // pick a node: walk down at random
    let mut at = &mut out;
    loop {
        let down = matches!(&at.body, Body::Branch(c) if !c.is_empty()) && rng.chance(75);
        if !down {
            break;
        }
        at = match &mut at.body {
            Body::Branch(c) => {
                let i = rng.below(c.len());
                &mut c[i]
            }
            _ => unreachable!(),
        };
    }
    let what = match rng.below(5) {
        0 => {
            // another type of the same make
            let same: Vec<u8> = (0..sd.types.len() as u8)
                .filter(|t| {
                    *t != at.ty
                        && *t != sd.text
                        && at.ty != sd.text
                        && matches!(
                            (&sd.types[*t as usize].kind, &sd.types[at.ty as usize].kind),
                            (Kind::Leaf, Kind::Leaf) | (Kind::Branch(_), Kind::Branch(_))
                        )
                })
                .collect();
            if same.is_empty() {
                return None;
            }
            at.ty = *rng.pick(&same);
            let made = gen::gen_attrs(rng, sd, at.ty);
            at.attrs = made;
            if !sd.types[at.ty as usize].markable {
                at.marks.clear();
            }
            "differs in a type"
        }
        1 => {
            if at.attrs.is_empty() {
                return None;
            }
            let k = rng.below(at.attrs.len());
            match &mut at.attrs[k] {
                AV::Int(i) => *i = if *i > 1 && (rng.chance(50) || *i == 255 || *i == u64::MAX) { *i - 1 } else { *i + 1 },
                AV::Bool(b) => *b = !*b,
                AV::Str(s) => match rng.below(4) {
                    3 => *s = gen::similar(rng, s),
                    0 if !s.is_empty() => {
                        s.pop();
                    }
                    1 => s.insert(0, ' '),
                    _ => s.push(*rng.pick(&['a', ' ', '\u{0}', 'é', '😀'])),
                },
            }
            "differs in an attribute"
        }
        2 => {
            if !sd.types[at.ty as usize].markable {
                return None;
            }
            let before = at.marks.clone();
            if before.iter().any(|m| !m.attrs.is_empty()) && rng.chance(50) {
                let k = rng.below(before.len());
                at.marks[k] = gen::like_mark(rng, &before[k]);
            } else {
                at.marks = gen::gen_marks(rng, sd, u32::MAX, 50);
            }
            if at.marks == before {
                return None;
            }
            "differs in marks"
        }
        3 => match &mut at.body {
            Body::Text(s) => {
                let mut c: Vec<char> = s.chars().collect();
                let k = rng.below(c.len() + 1);
                match rng.below(3) {
                    0 if k < c.len() => c[k] = if c[k] == 'q' { 'Q' } else { 'q' },
                    1 if k < c.len() => {
                        c.remove(k);
                    }
                    _ => c.insert(k, *rng.pick(&['x', ' ', '😀', '\u{301}'])),
                }
                *s = c.into_iter().collect();
                "differs in text"
            }
            _ => return None,
        },
        _ => match &mut at.body {
            Body::Branch(c) if rng.chance(15) => {
                // nothing but an empty text more
                let k = if rng.chance(60) { c.len() } else { rng.below(c.len() + 1) };
                let mut t = MNode { ty: sd.text, attrs: vec![], marks: vec![], body: Body::Text(String::new()) };
                if rng.chance(30) {
                    t.marks = gen::gen_marks(rng, sd, u32::MAX, 50);
                }
                c.insert(k, t);
                "differs in an empty text"
            }
            Body::Branch(c) if !c.is_empty() => {
                let k = rng.below(c.len());
                match rng.below(4) {
                    0 => {
                        c.remove(k);
                    }
                    1 => {
                        let x = c[k].clone();
                        c.insert(k, x);
                    }
                    2 => {
                        let j = rng.below(c.len());
                        c.swap(k, j);
                    }
                    _ => {
                        // the same text in two pieces is another document
                        let x = c[k].clone();
                        if let Body::Text(s) = &x.body {
                            let mut it = s.chars();
                            let first: String = it.next().into_iter().collect();
                            let rest: String = it.collect();
                            if rest.is_empty() {
                                return None;
                            }
                            c[k].body = Body::Text(first);
                            let mut y = x.clone();
                            y.body = Body::Text(rest);
                            c.insert(k + 1, y);
                        } else {
                            c.remove(k);
                        }
                    }
                }
                "differs in children"
            }
            _ => return None,
        },
    };
    if out == *n {
        None
    } else {
        Some((out, what))
    }
}

fn judge<S: Spec>(cx: &mut Cx, rng: &mut Rng, n: &S::Node, m: &MNode) -> R {
    let sd = S::desc();
    let what = || S::show(m);
    let t = &sd.types[m.ty as usize];
    cx.doing = format!("node {}", what());
    ensure!(n.r#type() == S::node_type(m.ty), "type of {} is {:?}", what(), n.r#type());
    ensure!(n.is_block() == !t.inline, "is_block of {} is {}", what(), n.is_block());
    ensure!(n.is_inline() == t.inline, "is_inline of {} is {}", what(), n.is_inline());
    ensure!(n.is_text() == (m.ty == sd.text), "is_text of {} is {}", what(), n.is_text());
    ensure!(n.is_leaf() == !matches!(m.body, Body::Branch(_)), "is_leaf of {} is {}", what(), n.is_leaf());
    ensure!(n.text_node().is_some() == (m.ty == sd.text), "text_node of {}", what());
    ensure!(n.content().is_some() == matches!(m.body, Body::Branch(_)), "content of {}", what());
    ensure!(n.child_count() == m.children().len(), "child_count of {} is {}", what(), n.child_count());
    ensure!(n.content_size() == m.content_size(), "content_size of {} is {}", what(), n.content_size());
    ensure!(n.node_size() == m.size(), "node_size of {} is {}", what(), n.node_size());
    ensure!(
        n.first_child().map(S::read).as_ref() == m.children().first(),
        "first_child of {} is {:?}",
        what(),
        n.first_child()
    );
    for i in 0..m.children().len() + 2 {
        ensure!(n.maybe_child(i).map(S::read).as_ref() == m.children().get(i), "maybe_child({}) of {}", i, what());
        if i < m.children().len() {
            ensure!(n.child(i).map(S::read).as_ref() == m.children().get(i), "child({}) of {}", i, what());
        }
    }
    match n.marks() {
        Some(set) => ensure!(S::read_marks(set) == m.marks, "marks of {} are {:?}", what(), set),
        None => ensure!(m.marks.is_empty() && m.ty != sd.text, "marks of {} are None", what()),
    }
    cx.ev("node judged");
    cx.eval();

    // copies with the same and with other content
    let same_c = n.copy(|c| c.clone());
    ensure!(S::read(&same_c) == *m && same_c == *n, "copy of {} with its content is {}", what(), S::show(&S::read(&same_c)));
    let mut calls = 0;
    let mut other = m.clone();
    let seen = |c: &Fragment<S>| S::read_list(c);
    let mut given = vec![];
    let put = match &mut other.body {
        Body::Branch(c) => {
            if rng.chance(50) {
                c.clear()
            } else {
                *c = gen::wild_list(rng, sd, 2, 2);
            }
            c.clone()
        }
        _ => vec![],
    };
    let o = n.copy(|c| {
        calls += 1;
        given = seen(c);
        S::build_list(&put)
    });
    ensure!(S::read(&o) == other, "copy of {} with content {} is {}", what(), sd.show_list(&put), S::show(&S::read(&o)));
    if let Body::Branch(c) = &m.body {
        ensure!(calls == 1 && given == *c, "copy of {} maps {} instead of its content", what(), sd.show_list(&given));
    }
    cx.ev("copy judged");
    cx.eval();

    // other marks
    let marks = gen::gen_marks(rng, sd, u32::MAX, 40);
    let set = S::build_marks(&marks);
    let r = n.mark(set.clone());
    let mut want = m.clone();
    if sd.types[m.ty as usize].markable {
        want.marks = marks.clone();
        cx.ev("re-marked");
    }
    ensure!(S::read(&r) == want, "{} with marks {:?} is {}", what(), set, S::show(&S::read(&r)));
    ensure!(S::read(n) == *m, "{} was changed by copying it to {}", what(), S::show(&S::read(n)));
    cx.eval();

    if let (Some(tn), Body::Text(s)) = (n.text_node(), &m.body) {
        ensure!(tn.text.as_str() == s, "text of {} is {:?}", what(), tn.text);
        let again: S::Node = TextNode { marks: tn.marks.clone(), text: tn.text.clone() }.into();
        ensure!(again == *n, "{} made from its text and marks is {}", what(), S::show(&S::read(&again)));
        let again = S::Node::new_text_node(tn.clone());
        ensure!(again == *n, "{} made from its text node is {}", what(), S::show(&S::read(&again)));
        let t2 = gen::gen_text(rng, 1);
        let w = S::Node::new_text_node(tn.with_text(Text::from(t2.clone())));
        let mut want = m.clone();
        want.body = Body::Text(t2);
        ensure!(S::read(&w) == want, "{} with other text is {}", what(), S::show(&S::read(&w)));
        let plain = S::Node::text(s.clone());
        ensure!(
            S::read(&plain) == MNode { ty: sd.text, attrs: vec![], marks: vec![], body: m.body.clone() },
            "text({:?}) is {}",
            s,
            S::show(&S::read(&plain))
        );
        ensure!((plain == *n) == m.marks.is_empty(), "equality of {} and the same text without marks", what());
        // same markup exactly when the marks are equal
        let same = tn.same_markup(&r);
        ensure!(same.is_some() == (marks == m.marks), "same_markup of {} and {}", what(), S::show(&S::read(&r)));
    }
    if !m.children().is_empty() || !m.marks.is_empty() {
        cx.seen(m);
    }
    for (i, c) in m.children().iter().enumerate() {
        judge::<S>(cx, rng, &n.content().unwrap().children()[i], c)?;
    }
    Ok(())
}

fn c23<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = if rng.chance(70) { any_doc(rng, sd, cx) } else { gen::small_doc(rng, sd) };
    let n = S::build(&m);
    cx.sample(|| format!("nodes of {}", S::show(&m)));
    judge::<S>(cx, rng, &n, &m)?;
    // equality
    cx.doing = format!("comparing {}", S::show(&m));
    let twin = S::build(&m);
    ensure!(n == twin && twin == n, "{} is not equal to the same document built again", S::show(&m));
    ensure!(!(n != twin), "{} is unequal to the same document built again", S::show(&m));
    let cl = n.clone();
    ensure!(cl == n && S::read(&cl) == m, "a clone of {} is {}", S::show(&m), S::show(&S::read(&cl)));
    for _ in 0..6 {
        if let Some((o, kind)) = tweak(rng, sd, &m) {
            let b = S::build(&o);
            ensure!(
                b != n && n != b && !(b == n),
                "{} and {} are reported equal ({})",
                S::show(&m),
                S::show(&o),
                kind
            );
            cx.ev("one difference told apart");
            cx.ev(kind);
            cx.eval();
            // and in slices and fragments
            let (fa, fb) = (n.content().unwrap(), b.content());
            if let Some(fb) = fb {
                ensure!(
                    (fa == fb) == (m.children() == o.children()),
                    "equality of the contents of {} and {}",
                    S::show(&m),
                    S::show(&o)
                );
            }
        }
    }
    // marks
    let (a, b) = (gen::gen_marks(rng, sd, u32::MAX, 50), gen::gen_marks(rng, sd, u32::MAX, 50));
    for x in a.iter().chain(&b) {
        let mx = S::build_mark(x);
        ensure!(mx.r#type() == S::mark_type(x.ty), "type of mark {:?} is {:?}", x, mx.r#type());
        let one: MarkSet<S> = mx.clone().into_set();
        ensure!(S::read_marks(&one) == vec![x.clone()], "the set of the mark {:?} is {:?}", x, one);
        for y in &b {
            let my = S::build_mark(y);
            ensure!((mx == my) == (x == y), "equality of marks {:?} and {:?}", x, y);
            ensure!(mx != my || hash_of(&mx) == hash_of(&my), "equal marks {:?} and {:?} have different hashes", x, y);
        }
        // the same mark made again, and one that looks like it
        let again = S::build_mark(x);
        ensure!(again == mx && hash_of(&again) == hash_of(&mx), "the mark {:?} built again is another or has another hash", x);
        ensure!(hash_of(&mx.clone()) == hash_of(&mx), "a clone of the mark {:?} has another hash", x);
        let y = gen::like_mark(rng, x);
        let my = S::build_mark(&y);
        ensure!((mx == my) == (*x == y), "equality of marks {:?} and {:?}", x, y);
        let set: std::collections::HashSet<S::Mark> = vec![mx.clone(), again, my.clone()].into_iter().collect();
        ensure!(
            set.len() == if *x == y { 1 } else { 2 } && set.contains(&my) && set.contains(&S::build_mark(x)),
            "a hash set of the marks {:?} (twice) and {:?} holds {}",
            x,
            y,
            set.len()
        );
        cx.ev("mark hashed");
    }
    ensure!((S::build_marks(&a) == S::build_marks(&b)) == (a == b), "equality of mark sets {:?} and {:?}", a, b);
    helpers(cx, rng)
}

/// The constructors of the Markdown schema.
fn helpers(cx: &mut Cx, rng: &mut Rng) -> R {
    use md::*;
    let s = gen::gen_text(rng, 1);
    let sd = MD::desc();
    let list = gen::wild_list(rng, sd, 3, 2);
    let frag = || MD::build_list(&list);
    let branch = |ty: u8, attrs: Vec<AV>, c: &[MNode]| MNode { ty, attrs, marks: vec![], body: Body::Branch(c.to_vec()) };
    let text = |ty: Option<u8>| MNode {
        ty: TEXT,
        attrs: vec![],
        marks: ty.map(|ty| MMark { ty, attrs: vec![] }).into_iter().collect(),
        body: Body::Text(s.clone()),
    };
    let lv = rng.below(8) as u8;
    let made: Vec<(&str, MarkdownNode, MNode)> = vec![
        ("doc", helper::doc(frag()), branch(DOC, vec![], &list)),
        ("p", helper::p(frag()), branch(PARA, vec![], &list)),
        ("p of a string", helper::p(s.as_str()), branch(PARA, vec![], &[text(None)])),
        ("p of a node", helper::p(helper::em(&s)), branch(PARA, vec![], &[text(Some(EM))])),
        ("h", helper::h(lv, frag()), branch(HEADING, vec![AV::Int(lv as u64)], &list)),
        ("h1", helper::h1(frag()), branch(HEADING, vec![AV::Int(1)], &list)),
        ("h2", helper::h2(frag()), branch(HEADING, vec![AV::Int(2)], &list)),
        ("em", helper::em(&s), text(Some(EM))),
        ("strong", helper::strong(&s), text(Some(STRONG))),
        ("node", helper::node(s.as_str()), text(None)),
        ("li", helper::li(frag()), branch(LI, vec![], &list)),
        ("ul", helper::ul(frag()), branch(UL, vec![AV::Bool(false)], &list)),
        ("code_block", helper::code_block(&s, frag()), branch(CODE, vec![AV::Str(s.clone())], &list)),
        ("blockquote", helper::blockquote(frag()), branch(QUOTE, vec![], &list)),
    ];
    for (name, got, want) in made {
        ensure!(MD::read(&got) == want, "helper {} makes {} instead of {}", name, MD::show(&MD::read(&got)), MD::show(&want));
        ensure!(got.node_size() == want.size(), "helper {}: size {} instead of {}", name, got.node_size(), want.size());
        cx.ev("helper judged");
        cx.eval();
    }
    for m in [MarkdownMark::Strong, MarkdownMark::Em, MarkdownMark::Code] {
        ensure!(hash_of(&m) == hash_of(&m.clone()), "hash of {:?}", m);
    }
    Ok(())
}
