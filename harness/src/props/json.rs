//! C12 documents as JSON, C13 steps and slices as JSON, C14 hostile steps.
use super::replace::show_step;
use super::*;
use crate::gen;
use crate::spec_md as md;
use crate::{both, ensure};
use prosemirror::markdown::{MarkdownMark, MarkdownNode, MD};
use prosemirror::model::Slice;
use prosemirror::transform::Step;
use serde_json::Value;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            quick: 600_000,
            thorough: 12_000_000,
            run: c12,
            rule: "A case is one document (any shape, any Unicode text): written by the library and compared with an independent writer of the ProseMirror format, read back, and read from text written as a peer may write it (optional fields absent or null, keys and marks shuffled, escapes, whitespace); plus damaged JSON that must be refused. Distinct non-trivial: distinct documents with at least three nodes.",
            floors: &[("round trip", 40_000), ("shape judged", 40_000), ("peer's JSON read", 40_000), ("malformed refused", 60_000), ("marks shuffled", 5_000)],
            assumptions: &["Reading does not validate content against the schema (as in the JavaScript library, that is a separate check)."],
        },
        Prop {
            id: "C13",
            quick: 600_000,
            thorough: 12_000_000,
            run: c13,
            rule: "A case is one step of each kind on a document: written, compared with an independent writer, read back, read from a peer's text with defaults left out, and applied both ways. Distinct non-trivial: distinct steps.",
            floors: &[("round trip", 60_000), ("shape judged", 60_000), ("peer's JSON read", 60_000), ("applied alike", 60_000), ("slice round trip", 60_000), ("malformed refused", 40_000), ("slice of nothing", 5_000)],
            assumptions: &[],
        },
        Prop {
            id: "C14",
            quick: 1_200_000,
            thorough: 24_000_000,
            run: both!(c14),
            rule: "A case is a document (valid, of any shape, with empty texts, deeply nested, or a leaf or text as root) and six hostile steps read from JSON: reversed, huge and mid-character positions, open depths beyond the content, gaps anywhere, invalid and empty content. Any panic, overflow, crash, or failure to return within a minute is a violation. Distinct non-trivial: distinct (document, step) pairs.",
            floors: &[("step refused", 300_000), ("step applied", 100_000), ("open depths beyond the content", 100_000), ("huge position", 100_000), ("reversed span", 100_000), ("leaf as root", 2_000), ("deep nesting", 2_000)],
            assumptions: &["Nesting is limited to 100 levels: the recursion of the library (and of JSON reading, which stops at 128) is bounded by the stack."],
        },
    ]
}

// ---------------------------------------------------------------- a JSON writer of our own

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(u64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
impl J {
    pub fn value(&self) -> Value {
        match self {
            J::Null => Value::Null,
            J::Bool(b) => (*b).into(),
            J::Num(n) => (*n).into(),
            J::Str(s) => s.as_str().into(),
            J::Arr(a) => a.iter().map(|x| x.value()).collect::<Vec<_>>().into(),
            J::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.to_string(), v.value())).collect()),
        }
    }
    /// as text, in the order given, with optional white space and escapes
    pub fn text(&self, rng: &mut Rng, odd: bool, out: &mut String) {
        let ws = |rng: &mut Rng, out: &mut String| {
            if odd && rng.chance(10) {
                out.push_str(*rng.pick(&[" ", "\n", "\t", "  "]))
            }
        };
        ws(rng, out);
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(&b.to_string()),
            J::Num(n) => out.push_str(&n.to_string()),
            J::Str(s) => {
                if odd && rng.chance(20) {
                    out.push('"');
                    for u in s.encode_utf16() {
                        out.push_str(&format!("\\u{:04X}", u));
                    }
                    out.push('"');
                } else {
                    out.push_str(&Value::from(s.as_str()).to_string())
                }
            }
            J::Arr(a) => {
                out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',')
                    }
                    x.text(rng, odd, out);
                }
                ws(rng, out);
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',')
                    }
                    ws(rng, out);
                    out.push_str(&format!("\"{}\"", k));
                    ws(rng, out);
                    out.push(':');
                    v.text(rng, odd, out);
                }
                ws(rng, out);
                out.push('}');
            }
        }
    }
}

/// How a peer writes: None = the plain form with every field.
pub struct Style<'a>(pub Option<&'a mut Rng>);
impl<'a> Style<'a> {
    fn chance(&mut self, p: usize) -> bool {
        self.0.as_mut().map(|r| r.chance(p)).unwrap_or(false)
    }
    fn obj(&mut self, mut o: Vec<(&'static str, J)>) -> J {
        if let Some(r) = self.0.as_mut() {
            if r.chance(50) {
                r.shuffle(&mut o);
            }
        }
        J::Obj(o)
    }
    fn peer(&self) -> bool {
        self.0.is_some()
    }
}

pub fn mark_json(m: &MMark, st: &mut Style) -> J {
    let name = ["strong", "em", "code", "link"][m.ty as usize];
    let mut o = vec![("type", J::Str(name.into()))];
    if m.ty == md::LINK {
        let mut a = vec![("href", J::Str(m.attrs[0].clone()))];
        optional(&mut a, "title", &m.attrs[1], st);
        let a = st.obj(a);
        o.push(("attrs", a));
    }
    st.obj(o)
}

/// a string whose default is the empty one: JavaScript writes null there
fn optional(o: &mut Vec<(&'static str, J)>, k: &'static str, v: &str, st: &mut Style) {
    if v.is_empty() && st.peer() {
        if st.chance(50) {
            o.push((k, J::Null));
        } else if st.chance(50) {
            o.push((k, J::Str(String::new())));
        }
    } else {
        o.push((k, J::Str(v.into())));
    }
}

pub fn node_json(n: &MNode, st: &mut Style) -> J {
    let name = md::desc().types[n.ty as usize].name;
    let mut o = vec![("type", J::Str(name.into()))];
    let mut attrs: Vec<(&'static str, J)> = vec![];
    for (k, v) in md::desc().types[n.ty as usize].attrs.iter().zip(&n.attrs) {
        match v {
            AV::Int(i) => attrs.push((k, J::Num(*i))),
            AV::Bool(b) => attrs.push((k, J::Bool(*b))),
            AV::Str(s) => {
                if n.ty == md::IMG && *k != "src" {
                    optional(&mut attrs, k, s, st)
                } else {
                    attrs.push((k, J::Str(s.clone())))
                }
            }
        }
    }
    if !attrs.is_empty() {
        let a = st.obj(attrs);
        o.push(("attrs", a));
    }
    match &n.body {
        Body::Text(t) => o.push(("text", J::Str(t.clone()))),
        Body::Leaf => {}
        Body::Branch(c) => {
            if !(c.is_empty() && (st.chance(70) || !st.peer())) {
                o.push(("content", J::Arr(c.iter().map(|x| node_json(x, st)).collect())))
            }
        }
    }
    if !n.marks.is_empty() || (n.is_text() && st.chance(10)) {
        let mut ms = n.marks.clone();
        if let Some(r) = st.0.as_mut() {
            r.shuffle(&mut ms);
        }
        o.push(("marks", J::Arr(ms.iter().map(|m| mark_json(m, st)).collect())));
    }
    st.obj(o)
}

/// Drop what the format lets a writer leave out.
fn normal(v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(normal).collect::<Vec<_>>().into(),
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, v)| (k.clone(), normal(v)))
                .filter(|(k, v)| match k.as_str() {
                    "marks" | "content" => v.as_array().map(|a| !a.is_empty()).unwrap_or(true),
                    "alt" | "title" => !(v.is_null() || v.as_str() == Some("")),
                    "openStart" | "openEnd" => v.as_u64() != Some(0),
                    "structure" => v.as_bool() != Some(false),
                    "slice" => v.as_object().map(|o| !o.is_empty()).unwrap_or(true),
                    _ => true,
                })
                .collect(),
        ),
        v => v.clone(),
    }
}

fn json_doc(rng: &mut Rng, sd: &'static SchemaDesc) -> MNode {
    match rng.below(8) {
        0 => {
            let mut left = 25;
            gen::wild_node(rng, sd, 5, &mut left)
        }
        1 => {
            let o = gen::Opts { text: 2, marks: 80, ..gen::Opts::random(rng) };
            let d = gen::gen_doc(rng, sd, o);
            fray(rng, &d)
        }
        _ => {
            let o = gen::Opts { text: 2, ..gen::Opts::random(rng) };
            gen::gen_doc(rng, sd, o)
        }
    }
}

/// Give attributes values that stress the format.
fn odd_attrs(rng: &mut Rng, n: &mut MNode) {
    for (k, a) in md::desc().types[n.ty as usize].attrs.iter().zip(n.attrs.iter_mut()) {
        if !rng.chance(25) {
            continue;
        }
        match a {
            AV::Int(i) => {
                *i = if *k == "level" {
                    rng.below(256) as u64
                } else {
                    *rng.pick(&[0, 1, 999_999_999, 1 << 53, u64::MAX])
                }
            }
            AV::Str(s) => *s = gen::gen_text(rng, 2),
            _ => {}
        }
    }
    for m in n.marks.iter_mut() {
        for a in m.attrs.iter_mut() {
            if rng.chance(25) {
                *a = gen::gen_text(rng, 2)
            }
        }
    }
    if let Body::Branch(c) = &mut n.body {
        for x in c {
            odd_attrs(rng, x)
        }
    }
}

fn c12(cx: &mut Cx, rng: &mut Rng, idx: u64) -> R {
    if idx % 8 == 7 {
        // the schema-independent parts with another schema
        let m = json_doc(rng, crate::spec_ts::desc());
        type T = crate::spec_ts::TS;
        let d = T::build(&m);
        let s = serde_json::to_string(&d).map_err(|e| e.to_string())?;
        cx.doing = format!("read {}", s);
        let back = serde_json::from_str(&s).map_err(|e| format!("{}: {}", s, e))?;
        same::<T>(&format!("read {}", s), &back, &m)?;
        cx.ev("round trip in the test schema");
        return Ok(());
    }
    let mut m = json_doc(rng, md::desc());
    odd_attrs(rng, &mut m);
    let d = MD::build(&m);
    let what = format!("JSON of {}", MD::show(&m));
    cx.doing = what.clone();
    cx.sample(|| what.clone());
    if m.count() >= 3 {
        cx.seen(&m);
    }
    // written by the library
    let s = serde_json::to_string(&d).map_err(|e| format!("{}: cannot be written: {}", what, e))?;
    let v: Value = serde_json::from_str(&s).map_err(|e| format!("{}: not JSON: {}: {}", what, e, s))?;
    let want = node_json(&m, &mut Style(None)).value();
    ensure!(
        normal(&v) == normal(&want),
        "{}: written as {} but the format is {}",
        what,
        s,
        want
    );
    ensure!(serde_json::to_value(&d).ok().as_ref() == Some(&v), "{}: text and value forms differ", what);
    cx.ev("shape judged");
    cx.eval();
    // and read back
    let back: MarkdownNode = serde_json::from_str(&s).map_err(|e| format!("{}: cannot read back {}: {}", what, s, e))?;
    same::<MD>(&what, &back, &m)?;
    ensure!(back == d, "{}: not equal after a round trip", what);
    let back: MarkdownNode = serde_json::from_value(v).map_err(|e| format!("{}: {}", what, e))?;
    ensure!(back == d, "{}: not equal after a round trip by value", what);
    let pretty = serde_json::to_vec_pretty(&d).map_err(|e| e.to_string())?;
    let back: MarkdownNode = serde_json::from_slice(&pretty).map_err(|e| format!("{}: {}", what, e))?;
    ensure!(back == d, "{}: not equal after a pretty round trip", what);
    cx.ev("round trip");
    cx.eval();
    // written by a peer
    let j = node_json(&m, &mut Style(Some(rng)));
    let mut t = String::new();
    j.text(rng, true, &mut t);
    cx.doing = format!("read {}", t);
    let got: MarkdownNode = serde_json::from_str(&t).map_err(|e| format!("a peer's {}: refused: {}", t, e))?;
    same::<MD>(&format!("a peer's {}", t), &got, &m)?;
    let got: MarkdownNode = serde_json::from_value(j.value()).map_err(|e| format!("a peer's {}: refused: {}", t, e))?;
    ensure!(got == d, "a peer's {} as a value: read as {}", t, MD::show(&MD::read(&got)));
    cx.ev("peer's JSON read");
    fn multi(n: &MNode) -> bool {
        n.marks.len() > 1 || n.children().iter().any(multi)
    }
    if multi(&m) {
        cx.ev("marks shuffled");
    }
    cx.eval();
    // damaged
    for _ in 0..2 {
        if let Some(bad) = damage_node(rng, &j) {
            let mut t = String::new();
            bad.text(rng, false, &mut t);
            cx.doing = format!("read {}", t);
            let r: Result<MarkdownNode, _> = serde_json::from_str(&t);
            ensure!(r.is_err(), "malformed {} is read as {}", t, MD::show(&MD::read(&r.unwrap())));
            let r: Result<MarkdownNode, _> = serde_json::from_value(bad.value());
            ensure!(r.is_err(), "malformed {} is accepted as a value", t);
            cx.ev("malformed refused");
            cx.eval();
        }
    }
    let mut k = rng.below(s.len());
    while !s.is_char_boundary(k) {
        k -= 1
    }
    let r: Result<MarkdownNode, _> = serde_json::from_str(&s[..k]);
    ensure!(r.is_err(), "truncated {} is accepted", &s[..k]);
    cx.ev("malformed refused");
    Ok(())
}

/// paths to all node objects
fn objs<'a>(j: &'a mut J, out: &mut Vec<*mut Vec<(&'static str, J)>>) {
    match j {
        J::Obj(o) => {
            if o.iter().any(|(k, _)| *k == "type") {
                out.push(o as *mut _);
            }
            for (_, v) in o.iter_mut() {
                objs(v, out)
            }
        }
        J::Arr(a) => a.iter_mut().for_each(|x| objs(x, out)),
        _ => {}
    }
}

/// Make one node or mark malformed, beyond doubt.
fn damage_node(rng: &mut Rng, j: &J) -> Option<J> {
    let mut j = j.clone();
    let mut all = vec![];
    objs(&mut j, &mut all);
    // Safety: one of the disjointly collected objects of our own tree is changed at a time
    let o: &mut Vec<(&'static str, J)> = unsafe { &mut **rng.pick(&all) };
    let ty = match &o.iter().find(|(k, _)| *k == "type").unwrap().1 {
        J::Str(s) => s.clone(),
        _ => return None,
    };
    let set = |o: &mut Vec<(&'static str, J)>, k: &'static str, v: J| {
        o.retain(|x| x.0 != k);
        o.push((k, v));
    };
    let wrong = |rng: &mut Rng| match rng.below(3) {
        0 => J::Null,
        1 => J::Bool(true),
        _ => J::Arr(vec![J::Num(1)]),
    };
    match rng.below(6) {
        0 => o.retain(|x| x.0 != "type"),
        1 => {
            let w = *rng.pick(&["Paragraph", "nosuch", "", "list item", "horizontalRule", "codeBlock", "STRONG", "Doc"]);
            set(o, "type", J::Str(w.into()))
        }
        2 => {
            let w = wrong(rng);
            set(o, "type", w)
        }
        3 => match ty.as_str() {
            "text" => {
                if rng.chance(50) {
                    o.retain(|x| x.0 != "text")
                } else {
                    let w = wrong(rng);
                    set(o, "text", w)
                }
            }
            "heading" | "code_block" | "image" | "link" => {
                if rng.chance(50) {
                    o.retain(|x| x.0 != "attrs")
                } else {
                    set(o, "attrs", J::Obj(vec![]))
                }
            }
            "doc" | "paragraph" | "blockquote" | "list_item" | "bullet_list" | "ordered_list" => {
                let w = if rng.chance(50) { J::Str("x".into()) } else { J::Arr(vec![J::Num(1)]) };
                set(o, "content", w)
            }
            _ => return None,
        },
        4 => {
            let v = match ty.as_str() {
                "heading" => ("level", vec![J::Num(256), J::Num(u64::MAX), J::Str("1".into()), J::Null, J::Bool(true)]),
                "code_block" => ("params", vec![J::Num(1), J::Bool(false), J::Arr(vec![])]),
                "bullet_list" => ("tight", vec![J::Str("true".into()), J::Num(1)]),
                "ordered_list" => ("order", vec![J::Str("1".into()), J::Bool(true)]),
                "image" => ("src", vec![J::Num(1), J::Bool(true)]),
                "link" => ("href", vec![J::Num(1), J::Bool(true)]),
                _ => return None,
            };
            let val = rng.pick(&v.1).clone();
            if let Some((_, J::Obj(a))) = o.iter_mut().find(|x| x.0 == "attrs") {
                set(a, v.0, val)
            } else {
                return None;
            }
        }
        _ => {
            if ty == "text" {
                let w = match rng.below(3) {
                    0 => J::Str("strong".into()),
                    1 => J::Arr(vec![J::Str("strong".into())]),
                    _ => J::Arr(vec![J::Obj(vec![("type", J::Str("underline".into()))])]),
                };
                set(o, "marks", w)
            } else {
                return None;
            }
        }
    }
    Some(j)
}

// ---------------------------------------------------------------- C13

fn slice_json(s: &MSlice, st: &mut Style) -> J {
    let mut o = vec![];
    // (an empty slice is left out by the caller; the format has no form for one without content)
    o.push(("content", J::Arr(s.content.iter().map(|n| node_json(n, st)).collect())));
    for (k, v) in [("openStart", s.open_start), ("openEnd", s.open_end)] {
        if v != 0 || !st.peer() || st.chance(30) {
            o.push((k, J::Num(v as u64)));
        }
    }
    st.obj(o)
}

pub fn step_json(s: &MStep, st: &mut Style) -> J {
    let mut o = vec![];
    let num = |n: &usize| J::Num(*n as u64);
    let slice = |o: &mut Vec<(&'static str, J)>, s: &MSlice, st: &mut Style| {
        if !s.content.is_empty() || s.open_start > 0 || s.open_end > 0 || st.chance(30) {
            let j = slice_json(s, st);
            o.push(("slice", j));
        }
    };
    let structure = |o: &mut Vec<(&'static str, J)>, v: bool, st: &mut Style| {
        if v || st.chance(30) {
            o.push(("structure", J::Bool(v)));
        }
    };
    match s {
        MStep::Replace { from, to, slice: sl, structure: b } => {
            o.push(("stepType", J::Str("replace".into())));
            o.push(("from", num(from)));
            o.push(("to", num(to)));
            slice(&mut o, sl, st);
            structure(&mut o, *b, st);
        }
        MStep::Around { from, to, gap_from, gap_to, slice: sl, insert, structure: b } => {
            o.push(("stepType", J::Str("replaceAround".into())));
            o.push(("from", num(from)));
            o.push(("to", num(to)));
            o.push(("gapFrom", num(gap_from)));
            o.push(("gapTo", num(gap_to)));
            o.push(("insert", num(insert)));
            slice(&mut o, sl, st);
            structure(&mut o, *b, st);
        }
        MStep::AddMark { from, to, mark } | MStep::RemoveMark { from, to, mark } => {
            let name = if matches!(s, MStep::AddMark { .. }) { "addMark" } else { "removeMark" };
            o.push(("stepType", J::Str(name.into())));
            o.push(("mark", mark_json(mark, st)));
            o.push(("from", num(from)));
            o.push(("to", num(to)));
        }
    }
    st.obj(o)
}

fn read_step(s: &Step<MD>) -> MStep {
    match s {
        Step::Replace(r) => MStep::Replace {
            from: r.span.from,
            to: r.span.to,
            slice: MD::read_slice(&r.slice),
            structure: r.structure,
        },
        Step::ReplaceAround(r) => MStep::Around {
            from: r.span.from,
            to: r.span.to,
            gap_from: r.gap_from,
            gap_to: r.gap_to,
            slice: MD::read_slice(&r.slice),
            insert: r.insert,
            structure: r.structure,
        },
        Step::AddMark(r) => MStep::AddMark { from: r.span.from, to: r.span.to, mark: MD::read_mark(&r.mark) },
        Step::RemoveMark(r) => MStep::RemoveMark { from: r.span.from, to: r.span.to, mark: MD::read_mark(&r.mark) },
    }
}

fn c13(cx: &mut Cx, rng: &mut Rng, _idx: u64) -> R {
    let sd = md::desc();
    let o = gen::Opts { text: 2, ..gen::Opts::small(rng) };
    let m = gen::gen_doc(rng, sd, o);
    let doc = MD::build(&m);
    for _ in 0..3 {
        let mut st = gen::gen_step(rng, sd, &m);
        if rng.chance(4) {
            // a slice of nothing, or of a text of nothing, that claims to be open
            let (os, oe) = *rng.pick(&[(1, 1), (0, 1), (2, 0), (2, 2), (7, 7)]);
            if let MStep::Replace { slice, .. } | MStep::Around { slice, .. } = &mut st {
                slice.open_start = os;
                slice.open_end = oe;
                slice.content = if rng.chance(75) {
                    vec![]
                } else {
                    vec![MNode { ty: sd.text, attrs: vec![], marks: vec![], body: Body::Text(String::new()) }]
                };
                cx.ev("slice of nothing");
            }
        }
        if rng.chance(10) {
            // any numbers survive
            let n = *rng.pick(&[0usize, 1 << 31, 1 << 53, usize::MAX]);
            match &mut st {
                MStep::Replace { to, slice, .. } => {
                    *to = n;
                    slice.open_start = n;
                }
                MStep::Around { gap_to, insert, slice, .. } => {
                    *gap_to = n;
                    *insert = n;
                    slice.open_end = n;
                }
                MStep::AddMark { to, .. } | MStep::RemoveMark { to, .. } => *to = n,
            }
        }
        let what = format!("JSON of {}", show_step(sd, &st));
        cx.doing = what.clone();
        cx.sample(|| what.clone());
        cx.seen(&st);
        let ls = MD::build_step(&st);
        let s = serde_json::to_string(&ls).map_err(|e| format!("{}: cannot be written: {}", what, e))?;
        let v: Value = serde_json::from_str(&s).map_err(|e| format!("{}: not JSON: {}", what, e))?;
        let want = step_json(&st, &mut Style(None)).value();
        ensure!(normal(&v) == normal(&want), "{}: written as {} but the format is {}", what, s, want);
        cx.ev("shape judged");
        cx.eval();
        let judge = |what: &str, got: &Step<MD>| -> R {
            let r = read_step(got);
            ensure!(r == st, "{}: read as {}", what, show_step(sd, &r));
            ensure!(got == &ls, "{}: the step read is not equal", what);
            Ok(())
        };
        let back: Step<MD> = serde_json::from_str(&s).map_err(|e| format!("{}: cannot read back {}: {}", what, s, e))?;
        judge(&what, &back)?;
        let back2: Step<MD> = serde_json::from_value(v).map_err(|e| format!("{}: {}", what, e))?;
        judge(&what, &back2)?;
        cx.ev("round trip");
        cx.eval();
        let j = step_json(&st, &mut Style(Some(rng)));
        let mut t = String::new();
        j.text(rng, true, &mut t);
        cx.doing = format!("read {}", t);
        let peer: Step<MD> = serde_json::from_str(&t).map_err(|e| format!("a peer's {}: refused: {}", t, e))?;
        judge(&format!("a peer's {}", t), &peer)?;
        cx.ev("peer's JSON read");
        cx.eval();
        // the same effect on this and another document
        let o2 = gen::small_doc(rng, sd);
        let other = MD::build(&o2);
        for (d, dm) in [(&doc, &m), (&other, &o2)] {
            cx.doing = format!("{} applied to {}", show_step(sd, &st), MD::show(dm));
            let (a, b, c) = (ls.apply(d).ok(), back.apply(d).ok(), peer.apply(d).ok());
            ensure!(a == b, "{}: has another effect after a JSON round trip", cx.doing);
            ensure!(a == c, "{}: has another effect when read from a peer's {}", cx.doing, t);
            cx.ev("applied alike");
            cx.eval();
        }
        // slices on their own
        let mut sl = gen::gen_slice(rng, sd, &m);
        if rng.chance(4) {
            sl.open_start = rng.below(3);
            sl.open_end = rng.below(3);
        }
        if rng.chance(2) {
            sl.content = vec![];
        }
        let l = MD::build_slice(&sl);
        let sj = serde_json::to_string(&l).map_err(|e| e.to_string())?;
        cx.doing = format!("read the slice {}", sj);
        let back: Slice<MD> = serde_json::from_str(&sj).map_err(|e| format!("{}: refused: {}", sj, e))?;
        ensure!(MD::read_slice(&back) == sl && back == l, "slice {}: not equal after a round trip", sj);
        let sv: Value = serde_json::from_str(&sj).unwrap();
        let sw = slice_json(&sl, &mut Style(None)).value();
        ensure!(normal(&sv) == normal(&sw), "slice written as {} but the format is {}", sj, sw);
        let j2 = slice_json(&sl, &mut Style(Some(rng)));
        let mut t2 = String::new();
        j2.text(rng, true, &mut t2);
        let back: Slice<MD> = serde_json::from_str(&t2).map_err(|e| format!("a peer's slice {}: refused: {}", t2, e))?;
        ensure!(back == l, "a peer's slice {}: read as {:?}", t2, MD::read_slice(&back));
        cx.ev("slice round trip");
        cx.eval();
        // a mark on its own
        let mk = gen::gen_mark(rng, sd);
        let lm = MD::build_mark(&mk);
        let mj = serde_json::to_string(&lm).map_err(|e| e.to_string())?;
        let back: MarkdownMark = serde_json::from_str(&mj).map_err(|e| format!("{}: refused: {}", mj, e))?;
        ensure!(back == lm, "mark {} not equal after a round trip", mj);
        // damaged steps
        if let J::Obj(o) = &j {
            let mut o = o.clone();
            let keys: Vec<&'static str> =
                o.iter().map(|x| x.0).filter(|k| !["slice", "structure"].contains(k)).collect();
            let k = *rng.pick(&keys);
            let how = rng.below(3);
            match how {
                0 => o.retain(|x| x.0 != k),
                1 => o.iter_mut().filter(|x| x.0 == k).for_each(|x| x.1 = J::Arr(vec![])),
                _ => o.iter_mut().filter(|x| x.0 == k).for_each(|x| x.1 = J::Str("nosuch".into())),
            }
            let mut t = String::new();
            J::Obj(o).text(rng, false, &mut t);
            cx.doing = format!("read {}", t);
            let r: Result<Step<MD>, _> = serde_json::from_str(&t);
            ensure!(r.is_err(), "malformed step {} is accepted", t);
            cx.ev("malformed refused");
            cx.eval();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

pub fn hostile_doc(cx: &mut Cx, rng: &mut Rng, sd: &'static SchemaDesc) -> MNode {
    match rng.below(10) {
        0 => {
            cx.ev("any node as root");
            let mut left = 15;
            gen::wild_node(rng, sd, 4, &mut left)
        }
        1 => {
            let n = rng.range(0, 4);
            MNode { ty: sd.doc, attrs: vec![], marks: vec![], body: Body::Branch(gen::wild_list(rng, sd, n, 4)) }
        }
        2 => {
            let d = gen::doc(rng, sd);
            fray(rng, &d)
        }
        3 if rng.chance(20) => {
            // deep
            cx.ev("deep nesting");
            let k = rng.range(20, 100);
            let bt: Vec<u8> = (0..sd.types.len() as u8)
                .filter(|t| matches!(sd.types[*t as usize].kind, Kind::Branch(_)) && *t != sd.doc)
                .collect();
            let ty = *rng.pick(&bt);
            let mut inner = { let o = gen::Opts::small(rng); gen::gen_children(rng, sd, ty, o) };
            for _ in 0..k {
                let t = if rng.chance(80) { ty } else { *rng.pick(&bt) };
                inner = vec![MNode { ty: t, attrs: gen::gen_attrs(rng, sd, t), marks: vec![], body: Body::Branch(inner) }];
            }
            MNode { ty: sd.doc, attrs: vec![], marks: vec![], body: Body::Branch(inner) }
        }
        _ => gen::small_doc(rng, sd),
    }
}

pub fn number(cx: &mut Cx, rng: &mut Rng, size: usize) -> usize {
    match rng.below(12) {
        0 => {
            cx.ev("huge position");
            *rng.pick(&[
                usize::MAX,
                usize::MAX - 1,
                usize::MAX / 2,
                1 << 63,
                (1 << 63) - 1,
                1 << 32,
                (1 << 32) - 1,
                1 << 31,
                1 << 16,
            ])
        }
        1 => size + rng.below(4),
        2 => 0,
        3 => size,
        _ => rng.below(size + 1),
    }
}

pub fn hostile_slice(cx: &mut Cx, rng: &mut Rng, sd: &'static SchemaDesc, doc: &MNode) -> MSlice {
    let mut s = match rng.below(6) {
        0 => MSlice::empty(),
        1 if doc.is_branch() => gen::gen_slice(rng, sd, doc),
        2 => MSlice::flat(vec![MNode {
            ty: sd.text,
            attrs: vec![],
            marks: gen::gen_marks(rng, sd, u32::MAX, 40),
            body: Body::Text(if rng.chance(30) { String::new() } else { gen::gen_text(rng, 1) }),
        }]),
        _ => {
            let n = rng.below(4);
            let l = gen::wild_list(rng, sd, n, 4);
            gen::random_opens(rng, l)
        }
    };
    for side in 0..2 {
        let v = match rng.below(8) {
            0 => rng.below(4),
            1 => rng.below(8),
            2 if rng.chance(30) => *rng.pick(&[100, 1 << 32, usize::MAX, usize::MAX - 1, 1 << 63]),
            _ => continue,
        };
        if side == 0 {
            s.open_start = v
        } else {
            s.open_end = v
        }
    }
    if !s.well_formed() {
        cx.ev("open depths beyond the content");
    }
    s
}

fn c14<S: Spec>(cx: &mut Cx, rng: &mut Rng) -> R {
    let sd = S::desc();
    let m = hostile_doc(cx, rng, sd);
    // as read from JSON
    let text = serde_json::to_string(&S::build(&m)).map_err(|e| e.to_string())?;
    let doc: S::Node = match serde_json::from_str(&text) {
        Ok(d) => d,
        // serde_json itself refuses more than 128 nested levels
        Err(e) if e.to_string().contains("recursion limit") => return Ok(()),
        Err(e) => return Err(format!("cannot read back {}: {}", text, e)),
    };
    if !m.is_branch() {
        cx.ev("leaf as root");
    }
    let h = hash64(&m);
    let size = m.content_size();
    for _ in 0..6 {
        let mut from = number(cx, rng, size);
        let mut to = number(cx, rng, size);
        if from > to {
            if rng.chance(70) {
                std::mem::swap(&mut from, &mut to)
            } else {
                cx.ev("reversed span");
            }
        }
        let st = match rng.below(8) {
            0..=2 => MStep::Replace { from, to, slice: hostile_slice(cx, rng, sd, &m), structure: rng.chance(30) },
            3..=5 => {
                let mut gap_from = number(cx, rng, size);
                let mut gap_to = number(cx, rng, size);
                if gap_from > gap_to && rng.chance(70) {
                    std::mem::swap(&mut gap_from, &mut gap_to)
                }
                if rng.chance(50) && from <= to && to <= size {
                    gap_from = from + rng.below(to - from + 1);
                    gap_to = gap_from + rng.below(to - gap_from + 1);
                }
                let slice = hostile_slice(cx, rng, sd, &m);
                let insert = number(cx, rng, list_size(&slice.content));
                MStep::Around { from, to, gap_from, gap_to, slice, insert, structure: rng.chance(40) }
            }
            6 => MStep::AddMark { from, to, mark: gen::gen_mark(rng, sd) },
            _ => MStep::RemoveMark { from, to, mark: gen::gen_mark(rng, sd) },
        };
        let what = format!("{} applied to {}", show_step(sd, &st), S::show(&m));
        cx.doing = what.clone();
        cx.sample(|| what.clone());
        cx.seen(&(h, &st));
        // as read from JSON
        let js = serde_json::to_string(&S::build_step(&st)).map_err(|e| e.to_string())?;
        let step: Step<S> = match serde_json::from_str(&js) {
            Ok(s) => s,
            Err(e) if e.to_string().contains("recursion limit") => continue,
            Err(e) => return Err(format!("cannot read back {}: {}", js, e)),
        };
        cx.eval();
        match step.apply(&doc) {
            Ok(n) => {
                cx.ev("step applied");
                sizes::<S>(&what, &n)?;
                let _ = serde_json::to_string(&n).map_err(|e| format!("{}: the result cannot be written: {}", what, e))?;
            }
            Err(e) => {
                cx.ev("step refused");
                ensure!(!format!("{} {:?}", e, e).is_empty(), "{}: an empty error", what);
            }
        }
        ensure!(S::read(&doc) == m, "{}: changes the authority's document", what);
    }
    Ok(())
}
