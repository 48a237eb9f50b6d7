//! C16 reading Markdown, C17 writing it and reading it back.
use super::*;
use crate::{ensure, gen};
use crate::mdref::{self, Expect};
use crate::spec_md::*;
use crate::supervise::guarded;
use prosemirror::markdown::{from_markdown, to_markdown, MD};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C16",
            quick: 1_600_000,
            thorough: 32_000_000,
            run: c16,
            rule: "A case is one text: CommonMark of every construct (some damaged, some soup, some written by the library itself), read by the library and compared with an independent reading of the same parser's events. Distinct non-trivial: distinct texts that yield a document of at least three nodes.",
            floors: &[
                ("document compared", 70_000),
                ("unsupported refused", 10_000),
                ("with image", 5_000),
                ("with list", 15_000),
                ("with marks", 15_000),
                ("with code block", 5_000),
                ("with hard break", 2_000),
                ("filled in", 2_000),
            ],
            assumptions: &[
                "The event list of pulldown-cmark 0.7.2 is taken as what the text says; inputs on which that crate itself panics are skipped.",
                "Nesting stays below about 30 levels.",
            ],
        },
        Prop {
            id: "C17",
            quick: 1_600_000,
            thorough: 32_000_000,
            run: c17,
            rule: "A case is a valid document written as Markdown: any document (must succeed), or one of the unambiguous subset, whose text must say the same document according to an independent reading of the parser's events, and read back equal (list tightness aside). Distinct non-trivial: distinct subset documents of at least four nodes.",
            floors: &[
                ("any document written", 40_000),
                ("subset document written", 80_000),
                ("with image", 10_000),
                ("with list", 10_000),
                ("with marks", 30_000),
                ("with overlapping marks", 10_000),
                ("with code block", 10_000),
                ("with hard break", 10_000),
            ],
            assumptions: &[
                "pulldown-cmark-to-cmark 4.0.2 escapes little and formats some blocks in ways that read differently; the subset leaves those out (see DESIGN.md).",
            ],
        },
    ]
}

fn untight(n: &MNode) -> MNode {
    let mut m = n.clone();
    match m.ty {
        UL => m.attrs[0] = AV::Bool(false),
        OL => m.attrs[1] = AV::Bool(false),
        _ => {}
    }
    if let Body::Branch(c) = &mut m.body {
        for x in c {
            *x = untight(x);
        }
    }
    m
}

fn any(n: &MNode, f: &dyn Fn(&MNode) -> bool) -> bool {
    f(n) || n.children().iter().any(|c| any(c, f))
}

fn note(cx: &mut Cx, d: &MNode) {
    if any(d, &|n| n.ty == IMG) {
        cx.ev("with image");
    }
    if any(d, &|n| n.ty == UL || n.ty == OL) {
        cx.ev("with list");
    }
    if any(d, &|n| !n.marks.is_empty()) {
        cx.ev("with marks");
    }
    if any(d, &|n| n.marks.len() > 1) {
        cx.ev("with overlapping marks");
    }
    if any(d, &|n| n.ty == CODE) {
        cx.ev("with code block");
    }
    if any(d, &|n| n.ty == BR) {
        cx.ev("with hard break");
    }
    if any(d, &|n| n.ty == PARA && n.children().is_empty()) {
        cx.ev("filled in");
    }
}

fn c16(cx: &mut Cx, rng: &mut Rng, _idx: u64) -> R {
    let sd = MD::desc();
    let text = if rng.chance(12) {
        let d = if rng.chance(50) { gen::doc(rng, sd) } else { subset_doc(rng) };
        match to_markdown(&MD::build(&d)) {
            Ok(t) => t,
            Err(_) => return Ok(()),
        }
    } else {
        mdref::gen_markdown(rng)
    };
    cx.doing = format!("reading {:?}", text);
    let want = mdref::expect(&text);
    if let Expect::Unjudged = want {
        cx.ev("parser itself failed");
        return Ok(());
    }
    let got = guarded(|| from_markdown(&text)).map_err(|e| format!("from_markdown({:?}) panicked: {}", text, e))?;
    cx.eval();
    match (want, got) {
        (Expect::Doc(want), Ok(got)) => {
            let r = MD::read(&got);
            if let Some(e) = sd.invalid(&r) {
                return Err(format!("from_markdown({:?}) is not valid: {} in {}", text, e, sd.show(&r)));
            }
            if let Some(e) = sd.noncanonical(&r) {
                return Err(format!("from_markdown({:?}) is not canonical: {} in {}", text, e, sd.show(&r)));
            }
            ensure!(
                untight(&r) == want,
                "from_markdown({:?}) is {} but the text says {}",
                text,
                sd.show(&r),
                sd.show(&want)
            );
            sizes::<MD>("from_markdown", &got)?;
            cx.ev("document compared");
            note(cx, &want);
            if want.count() >= 3 {
                cx.seen(&text);
            }
            cx.sample(|| format!("{:?} reads as {}", text, sd.show(&want)));
        }
        (Expect::Unsupported(what), Err(_)) => {
            let _ = what;
            cx.ev("unsupported refused");
        }
        (Expect::Doc(want), Err(e)) => {
            return Err(format!(
                "from_markdown({:?}) fails ({}) though the text says {}",
                text,
                e,
                sd.show(&want)
            ))
        }
        (Expect::Unsupported(what), Ok(got)) => {
            return Err(format!(
                "from_markdown({:?}) gives {} though the text has a {} that the schema cannot express",
                text,
                sd.show(&MD::read(&got)),
                what
            ))
        }
        (Expect::Odd, Ok(got)) => {
            let r = MD::read(&got);
            if let Some(e) = sd.invalid(&r) {
                return Err(format!("from_markdown({:?}) is not valid: {} in {}", text, e, sd.show(&r)));
            }
            if let Some(e) = sd.noncanonical(&r) {
                return Err(format!("from_markdown({:?}) is not canonical: {} in {}", text, e, sd.show(&r)));
            }
            sizes::<MD>("from_markdown", &got)?;
            cx.ev("misnested events: document judged for validity");
        }
        (Expect::Odd, Err(_)) => cx.ev("misnested events: refused"),
        (Expect::Unjudged, _) => {}
    }
    Ok(())
}

fn c17(cx: &mut Cx, rng: &mut Rng, _idx: u64) -> R {
    let sd = MD::desc();
    if rng.chance(35) {
        let d = gen::doc(rng, sd);
        let n = MD::build(&d);
        cx.doing = format!("writing {}", sd.show(&d));
        let got = guarded(|| to_markdown(&n)).map_err(|e| format!("to_markdown({}) panicked: {}", sd.show(&d), e))?;
        cx.eval();
        ensure!(got.is_ok(), "to_markdown({}) failed: {:?}", sd.show(&d), got);
        cx.ev("any document written");
        return Ok(());
    }
    let d = subset_doc(rng);
    if let Some(e) = sd.invalid(&d).or_else(|| sd.noncanonical(&d)) {
        panic!("subset generator: {}", e);
    }
    let n = MD::build(&d);
    cx.doing = format!("writing {}", sd.show(&d));
    let text = guarded(|| to_markdown(&n))
        .map_err(|e| format!("to_markdown({}) panicked: {}", sd.show(&d), e))?
        .map_err(|e| format!("to_markdown({}) failed: {}", sd.show(&d), e))?;
    cx.ev("subset document written");
    let want = untight(&d);
    match mdref::expect(&text) {
        Expect::Doc(says) => {
            cx.eval();
            ensure!(
                says == want,
                "to_markdown({}) is {:?}, which says {}",
                sd.show(&want),
                text,
                sd.show(&says)
            )
        }
        other => return Err(format!("to_markdown({}) is {:?}, which reads as {:?}", sd.show(&want), text, other)),
    }
    let back = guarded(|| from_markdown(&text)).map_err(|e| format!("from_markdown({:?}) panicked: {}", text, e))?;
    cx.eval();
    match back {
        Ok(b) => {
            let r = untight(&MD::read(&b));
            ensure!(
                r == want,
                "{} written and read back is {} (text {:?})",
                sd.show(&want),
                sd.show(&r),
                text
            );
        }
        Err(e) => return Err(format!("{} written as {:?} cannot be read back: {}", sd.show(&want), text, e)),
    }
    note(cx, &d);
    if d.count() >= 4 {
        cx.seen(&d);
    }
    cx.sample(|| format!("{} is written {:?}", sd.show(&want), text));
    Ok(())
}

// ---------------------------------------------------------------- the unambiguous subset

fn br(ty: u8, attrs: Vec<AV>, ch: Vec<MNode>) -> MNode {
    MNode { ty, attrs, marks: vec![], body: Body::Branch(ch) }
}
fn leaf(ty: u8, attrs: Vec<AV>) -> MNode {
    MNode { ty, attrs, marks: vec![], body: Body::Leaf }
}
fn word(rng: &mut Rng) -> String {
    let plain = ["a", "foo", "bar", "lorem", "ipsum", "x1", "été", "漢字", "😀", "z𝒜z"];
    // letters with punctuation that means nothing in Markdown where it stands
    let more = ["a.b", "it's", "1st", "(x)", "e-mail", "50%", "a,b", "$5", "end.", "oh!", "x/y", "x=1", "\"q\"", "a+b", "a;b", "{x}", "a:b", "x@y", "a^b", "Ab2", "ß", "e\u{301}", "\u{200d}x"];
    // characters that Markdown uses, where they cannot mean anything
    let special = ["a_b", "a|b", "a~b", "a#b", "a&b", "&"];
    if rng.chance(10) {
        rng.pick(&special).to_string()
    } else if rng.chance(25) {
        rng.pick(&more).to_string()
    } else {
        rng.pick(&plain).to_string()
    }
}

/// Words with marks, single spaces between them; the space carries the marks that stay open
/// from one word to the next whichever way marks are nested.
fn inlines(rng: &mut Rng, hard_breaks: bool) -> Vec<MNode> {
    let n = rng.range(1, 7);
    let mut out: Vec<MNode> = vec![];
    let text = |s: String, marks: Marks| MNode { ty: TEXT, attrs: vec![], marks, body: Body::Text(s) };
    let marky = *rng.pick(&[0, 30, 60, 90]);
    let leafy = *rng.pick(&[0, 0, 15, 40]);
    // marks open in nesting order, outermost first
    let mut open: Marks = vec![];
    let mut after_leaf = true;
    for i in 0..n {
        if i > 0 && rng.chance(leafy / 2) && !after_leaf {
            // an image that touches the words before and after it
            open.clear();
            out.push(image(rng));
            after_leaf = true;
            continue;
        }
        if i > 0 && i + 1 < n && rng.chance(leafy) && !after_leaf {
            // a leaf closes all marks
            open.clear();
            if hard_breaks && rng.chance(50) {
                out.push(leaf(BR, vec![]));
                after_leaf = true;
                continue;
            }
            out.push(text(" ".into(), vec![]));
            out.push(image(rng));
            after_leaf = false;
            continue;
        }
        // the next word's marks
        let mut marks: Marks = vec![];
        if rng.chance(marky) {
            for m in &open {
                if rng.chance(70) {
                    marks = mark_add(&marks, m);
                }
            }
            for ty in [STRONG, EM, CODEMARK, LINK] {
                if !marks.iter().any(|m| m.ty == ty) && rng.chance(25) {
                    let attrs = if ty == LINK {
                        vec![
                            rng.pick(&["u", "http://x.y/z", "/p?q=r", "#f", "t", "a", "foo", "mailto:a@b.c"]).to_string(),
                            rng.pick(&["", "", "t", "two words", "u", "a", "foo", "😀 x", "it's", "a (b)"]).to_string(),
                        ]
                    } else {
                        vec![]
                    };
                    marks = mark_add(&marks, &MMark { ty, attrs });
                }
            }
        }
        if open.last().map(|m| m.ty == LINK).unwrap_or(false) && rng.chance(15) {
            // the same marks but another link
            marks = vec![];
            for m in &open[..open.len() - 1] {
                marks = mark_add(&marks, m);
            }
            let attrs = vec![rng.pick(&["u", "v", "a"]).to_string(), rng.pick(&["", "t"]).to_string()];
            marks = mark_add(&marks, &MMark { ty: LINK, attrs });
        }
        let before = open.clone();
        let keep = open.iter().take_while(|m| marks.contains(m)).count();
        open.truncate(keep);
        let prev: Marks = out.last().filter(|_| !after_leaf).map(|n| n.marks.clone()).unwrap_or_default();
        let has = |ms: &Marks, ty: u8| ms.iter().any(|m| m.ty == ty);
        let but = |ms: &Marks, ty: u8| ms.iter().filter(|m| m.ty != ty).cloned().collect::<Marks>();
        // two links, or code and no code, may touch where nothing else ends or begins between them
        let links = has(&prev, LINK)
            && has(&marks, LINK)
            && prev != marks
            && but(&prev, LINK) == but(&marks, LINK)
            && before.last().map(|m| m.ty == LINK).unwrap_or(false);
        let code = has(&prev, CODEMARK) != has(&marks, CODEMARK) && but(&prev, CODEMARK) == but(&marks, CODEMARK);
        let touch = !after_leaf && (links || code) && rng.chance(40);
        if !after_leaf && !touch {
            let mut sp: Marks = vec![];
            for m in &open {
                sp = mark_add(&sp, m);
            }
            out.push(text(" ".into(), sp));
        }
        for m in &marks {
            if m.ty != CODEMARK && !open.contains(m) {
                open.push(m.clone());
            }
        }
        out.push(text(word(rng), marks));
        after_leaf = false;
    }
    if out.last().map(|n| n.ty == BR).unwrap_or(false) {
        out.push(text(word(rng), vec![]));
    }
    canon(&out, TEXT)
}

fn image(rng: &mut Rng) -> MNode {
    leaf(
        IMG,
        vec![
            AV::Str(rng.pick(&["i.png", "http://x.y/z.jpg", "u", "alt", "t", "a_b", "?a=1&b=2", "#i", "data:image/png;base64,iVBORw0KGgo="]).to_string()),
            AV::Str(rng.pick(&["", "alt", "two words", "été", "t", "u", "i.png", "😀 x"]).to_string()),
            AV::Str(rng.pick(&["", "", "t", "alt", "two words", "été", "u", "i.png", "😀 x", "it's", "a (b)"]).to_string()),
        ],
    )
}

fn code_text(rng: &mut Rng) -> String {
    // blank lines anywhere, at the ends too
    let n = if rng.chance(20) { rng.range(1, 9) } else { rng.range(1, 4) };
    let blank = *rng.pick(&[0, 0, 30, 60]);
    (0..n)
        .map(|_| if rng.chance(blank) { String::new() } else { rng.pick(&["let x = 1;", "  indented", "*no* _marks_", "&amp; <b>", "# no", "- no", "> no", "😀", "a\\b", "``", "\ttab", "end  ", "1. x", "~~~", "---", "===", "+ y", "<div>", "[a]: b"]).to_string() })
        .collect::<Vec<_>>()
        .join("\n")
}

fn blocks(rng: &mut Rng, depth: usize, max: usize, first_para: bool) -> Vec<MNode> {
    let n = rng.range(1, max);
    let mut out: Vec<MNode> = vec![];
    while out.len() < n {
        let k = if first_para && out.is_empty() {
            0
        } else if depth == 0 {
            rng.below(7)
        } else {
            rng.below(11)
        };
        let b = match k {
            0..=2 => br(PARA, vec![], inlines(rng, true)),
            3 => br(HEADING, vec![AV::Int(rng.range(1, 6) as u64)], if rng.chance(6) { vec![] } else { inlines(rng, false) }),
            4 => {
                let t = code_text(rng);
                br(
                    CODE,
                    vec![AV::Str(rng.pick(&["", "", "rust", "js", "rust no_run", "c++", "{.x}", "été"]).to_string())],
                    if t.is_empty() { vec![] } else { vec![MNode { ty: TEXT, attrs: vec![], marks: vec![], body: Body::Text(t) }] },
                )
            }
            5 => leaf(HR, vec![]),
            6 => br(PARA, vec![], { let mut v = inlines(rng, false); v.insert(0, image(rng)); 
                   v.insert(1, MNode { ty: TEXT, attrs: vec![], marks: vec![], body: Body::Text(" ".into()) }); canon(&v, TEXT) }),
            7 | 8 => br(QUOTE, vec![], blocks(rng, depth - 1, 3, false)),
            _ => {
                if matches!(out.last().map(|n| n.ty), Some(UL) | Some(OL)) {
                    continue;
                }
                let m = if rng.chance(3) { rng.range(8, 14) } else { rng.range(1, 3) };
                let items = (0..m).map(|_| br(LI, vec![], blocks(rng, depth - 1, 3, true))).collect();
                if k == 9 {
                    br(UL, vec![AV::Bool(rng.chance(50))], items)
                } else {
                    br(OL, vec![AV::Int(*rng.pick(&[1, 1, 2, 7, 0, 9, 10, 99, 1000, 999_999_999])), AV::Bool(rng.chance(50))], items)
                }
            }
        };
        out.push(b);
    }
    out
}

pub fn subset_doc(rng: &mut Rng) -> MNode {
    let depth = if rng.chance(1) { rng.range(4, 7) } else { rng.below(4) };
    let max = if rng.below(300) == 0 { rng.range(15, 40) } else { rng.range(1, 4) };
    br(DOC, vec![], blocks(rng, depth, max, false))
}
