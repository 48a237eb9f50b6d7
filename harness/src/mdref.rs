//! Markdown: a text generator, and an independent reading of the parser's events as the document
//! they say, to compare `from_markdown` with.
use crate::model::*;
use crate::rng::Rng;
use crate::spec_md::*;
use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug)]
pub enum Expect {
    /// the parser itself gave up (a panic in the third-party crate): nothing to judge
    Unjudged,
    /// the parser's events are not those of a document (a mark around blocks of a tight list
    /// item): nothing to compare with
    Odd,
    /// uses something the schema has no node or mark for
    Unsupported(&'static str),
    Doc(MNode),
}

pub fn events(text: &str) -> Option<Vec<Event<'_>>> {
    catch_unwind(AssertUnwindSafe(|| Parser::new(text).collect::<Vec<_>>())).ok()
}

pub fn expect(text: &str) -> Expect {
    let evs = match events(text) {
        Some(e) => e,
        None => return Expect::Unjudged,
    };
    let mut r = Reader { evs: &evs, at: 0, marks: vec![] };
    match r.blocks() {
        Err(ODD) => Expect::Odd,
        Err(e) => Expect::Unsupported(e),
        Ok(b) => {
            if r.at != evs.len() {
                return Expect::Odd;
            }
            Expect::Doc(node(DOC, vec![], fill(DOC, b)))
        }
    }
}

fn node(ty: u8, attrs: Vec<AV>, ch: Vec<MNode>) -> MNode {
    MNode { ty, attrs, marks: vec![], body: Body::Branch(ch) }
}

/// Where the schema demands a paragraph that the text does not have, an empty one stands in.
fn fill(ty: u8, mut ch: Vec<MNode>) -> Vec<MNode> {
    let need = match ty {
        LI => ch.first().map(|c| c.ty != PARA).unwrap_or(true),
        _ => ch.is_empty(),
    };
    if need {
        ch.insert(0, node(PARA, vec![], vec![]));
    }
    ch
}

struct Reader<'a> {
    evs: &'a [Event<'a>],
    at: usize,
    /// every mark opened and not closed yet, one entry per opening
    marks: Vec<MMark>,
}

/// events out of place
const ODD: &str = "odd";

type Res<T> = Result<T, &'static str>;

impl<'a> Reader<'a> {
    fn next(&mut self) -> Option<&'a Event<'a>> {
        let e = self.evs.get(self.at);
        self.at += 1;
        e
    }
    /// the matching end event
    fn end(&mut self, t: &Tag) -> Res<()> {
        match self.next() {
            Some(Event::End(e)) if std::mem::discriminant(e) == std::mem::discriminant(t) => Ok(()),
            _ => Err(ODD),
        }
    }
    fn blocks(&mut self) -> Res<Vec<MNode>> {
        let mut out = vec![];
        while let Some(e) = self.evs.get(self.at) {
            match e {
                Event::End(_) => break,
                Event::Rule => {
                    self.at += 1;
                    out.push(MNode { ty: HR, attrs: vec![], marks: vec![], body: Body::Leaf });
                }
                Event::Start(t @ Tag::Paragraph) => {
                    self.at += 1;
                    let c = self.inlines()?;
                    self.end(t)?;
                    out.push(node(PARA, vec![], c));
                }
                Event::Start(t @ Tag::Heading(l)) => {
                    self.at += 1;
                    let c = self.inlines()?;
                    self.end(t)?;
                    if c.iter().any(|n| n.ty == BR) {
                        return Err("hard break in heading");
                    }
                    out.push(node(HEADING, vec![AV::Int(*l as u64)], c));
                }
                Event::Start(Tag::CodeBlock(k)) => {
                    self.at += 1;
                    let params = match k {
                        CodeBlockKind::Fenced(p) => p.to_string(),
                        CodeBlockKind::Indented => String::new(),
                    };
                    let mut s = String::new();
                    loop {
                        match self.next() {
                            Some(Event::Text(t)) => s.push_str(t),
                            Some(Event::End(_)) => break,
                            _ => return Err(ODD),
                        }
                    }
                    if s.ends_with('\n') {
                        s.pop();
                    }
                    let ch = if s.is_empty() {
                        vec![]
                    } else {
                        vec![MNode { ty: TEXT, attrs: vec![], marks: vec![], body: Body::Text(s) }]
                    };
                    out.push(node(CODE, vec![AV::Str(params)], ch));
                }
                Event::Start(t @ Tag::BlockQuote) => {
                    self.at += 1;
                    let c = self.blocks()?;
                    self.end(t)?;
                    out.push(node(QUOTE, vec![], fill(QUOTE, c)));
                }
                Event::Start(Tag::List(o)) => {
                    self.at += 1;
                    let mut items = vec![];
                    while let Some(Event::Start(t @ Tag::Item)) = self.evs.get(self.at) {
                        self.at += 1;
                        let c = self.blocks()?;
                        self.end(t)?;
                        items.push(node(LI, vec![], fill(LI, c)));
                    }
                    match self.next() {
                        Some(Event::End(Tag::List(_))) => {}
                        _ => return Err(ODD),
                    }
                    out.push(match o {
                        None => node(UL, vec![AV::Bool(false)], items),
                        Some(o) => node(OL, vec![AV::Int(*o), AV::Bool(false)], items),
                    });
                }
                Event::Html(_) => return Err("html"),
                Event::Start(Tag::FootnoteDefinition(_)) => return Err("footnote"),
                Event::Start(Tag::Table(_)) => return Err("table"),
                _ => {
                    // text of a tight list item: a paragraph without its tags
                    let before = self.at;
                    let c = self.inlines()?;
                    if self.at == before {
                        return Err(ODD);
                    }
                    // (the parser can find an empty code span here; that is no paragraph)
                    if !c.is_empty() {
                        out.push(node(PARA, vec![], c));
                    }
                }
            }
        }
        Ok(out)
    }
    fn text(&self, out: &mut Vec<MNode>, t: &str, code: bool) {
        if t.is_empty() {
            return;
        }
        let mut marks: Marks = vec![];
        for m in &self.marks {
            marks = mark_add(&marks, m);
        }
        if code {
            marks = mark_add(&marks, &MMark { ty: CODEMARK, attrs: vec![] });
        }
        out.push(MNode { ty: TEXT, attrs: vec![], marks, body: Body::Text(t.to_string()) });
    }
    fn inlines(&mut self) -> Res<Vec<MNode>> {
        let mut out = vec![];
        while let Some(e) = self.evs.get(self.at) {
            match e {
                Event::Text(t) => self.text(&mut out, t, false),
                Event::Code(t) => self.text(&mut out, t, true),
                Event::HardBreak => out.push(MNode { ty: BR, attrs: vec![], marks: vec![], body: Body::Leaf }),
                Event::SoftBreak => return Err("soft break"),
                Event::Html(_) => return Err("html"),
                Event::FootnoteReference(_) => return Err("footnote reference"),
                Event::TaskListMarker(_) => return Err("task list marker"),
                Event::Start(Tag::Emphasis) => self.marks.push(MMark { ty: EM, attrs: vec![] }),
                Event::Start(Tag::Strong) => self.marks.push(MMark { ty: STRONG, attrs: vec![] }),
                Event::Start(Tag::Link(_, h, t)) => {
                    self.marks.push(MMark { ty: LINK, attrs: vec![h.to_string(), t.to_string()] })
                }
                Event::Start(Tag::Strikethrough) => return Err("strikethrough"),
                Event::End(Tag::Emphasis) | Event::End(Tag::Strong) | Event::End(Tag::Link(..)) => {
                    self.marks.pop().ok_or(ODD)?;
                }
                Event::Start(Tag::Image(_, src, title)) => {
                    self.at += 1;
                    let saved = std::mem::take(&mut self.marks);
                    let c = self.inlines()?;
                    self.marks = saved;
                    let mut alt = String::new();
                    for n in &c {
                        match n.ty {
                            TEXT => alt.push_str(&n.text()),
                            IMG => alt.push_str(&string(&n.attrs[1])),
                            _ => return Err("hard break in an image description"),
                        }
                    }
                    out.push(MNode {
                        ty: IMG,
                        attrs: vec![AV::Str(src.to_string()), AV::Str(alt), AV::Str(title.to_string())],
                        marks: vec![],
                        body: Body::Leaf,
                    });
                }
                // a block: the end of a tight item's text
                Event::Start(_) | Event::End(_) | Event::Rule => break,
            }
            self.at += 1;
        }
        if !self.marks.is_empty() {
            return Err(ODD);
        }
        Ok(canon(&out, TEXT))
    }
}

// ---------------------------------------------------------------- text generator

const WORDS: &[&str] = &["a", "foo", "bar", "lorem", "x1", "é", "漢字", "😀", "𝒜b", "I", "end."];

struct T<'a> {
    rng: &'a mut Rng,
    left: isize,
    /// percent of constructs that the schema cannot express
    exotic: usize,
    refs: bool,
    /// the labels that references used
    labels: Vec<&'static str>,
}

impl<'a> T<'a> {
    fn word(&mut self) -> String {
        self.rng.pick(WORDS).to_string()
    }
    fn words(&mut self) -> String {
        let n = self.rng.range(1, 3);
        (0..n).map(|_| self.word()).collect::<Vec<_>>().join(" ")
    }
    fn dest(&mut self) -> String {
        self.rng
            .pick(&["u", "http://a.b/c", "/x?y=z&w", "<a b>", "<>", "", "a(b)c", "é", "\\(x", "#f", "a&amp;b"])
            .to_string()
    }
    fn title(&mut self) -> String {
        self.rng
            .pick(&["", "", " \"t\"", " 'two words'", " (p)", " \"q \\\" q\"", " \"&lt;\"", " \"\""])
            .to_string()
    }
    /// address and title in brackets; at times the title is the address
    fn target(&mut self) -> String {
        if self.rng.chance(8) {
            let d = *self.rng.pick(&["u", "/x", "é", "#f"]);
            return format!("{} \"{}\"", d, d);
        }
        let (d, ti) = (self.dest(), self.title());
        format!("{}{}", d, ti)
    }
    /// a definition for a label
    fn definition(&mut self, label: &str) -> String {
        if label == "r" && self.rng.chance(30) {
            return "[r]: /dest \"rt\"".to_string();
        }
        let l = match self.rng.below(6) {
            0 => label.to_uppercase(),
            1 => format!(" {} ", label),
            _ => label.to_string(),
        };
        let d = match self.rng.below(4) {
            0 => "<a b>".to_string(),
            _ => self.rng.pick(&["/x", "u", "http://a.b/c", "#f", "é", "a"]).to_string(),
        };
        let t = match self.rng.below(7) {
            0 | 1 => String::new(),
            2 => " \"t\"".into(),
            3 => " 'two words'".into(),
            4 => format!(" ({})", label),
            _ => format!(" \"{}\"", d.trim_matches(|c| c == '<' || c == '>')),
        };
        format!("[{}]: {}{}", l, d, t)
    }
    fn inline(&mut self, depth: usize, one_line: bool) -> String {
        let n = self.rng.range(1, 4);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 && self.rng.chance(75) {
                s.push(' ');
            }
            let p = self.atom(depth, one_line);
            s.push_str(&p);
        }
        s
    }
    fn atom(&mut self, depth: usize, one_line: bool) -> String {
        self.left -= 1;
        if depth == 0 || self.left < 0 {
            return self.word();
        }
        match self.rng.below(30) {
            0 | 1 => format!("*{}*", self.inline(depth - 1, one_line)),
            2 => format!("_{}_", self.inline(depth - 1, one_line)),
            3 | 4 => format!("**{}**", self.inline(depth - 1, one_line)),
            5 => format!("__{}__", self.inline(depth - 1, one_line)),
            6 => format!("***{}***", self.inline(depth - 1, one_line)),
            7 | 8 => {
                let w = self.words();
                match self.rng.below(4) {
                    0 => format!("`` {} ` ``", w),
                    1 => format!("` {} `", w),
                    _ => format!("`{}`", w),
                }
            }
            9..=11 => {
                let (t, d) = (self.inline(depth - 1, one_line), self.target());
                format!("[{}]({})", t, d)
            }
            12..=14 => {
                let alt = if self.rng.chance(15) { String::new() } else { self.inline(depth - 1, one_line) };
                let d = self.target();
                format!("![{}]({})", alt, d)
            }
            15 => {
                self.refs = true;
                let l = *self.rng.pick(&["r", "r", "r", "a", "é s"]);
                if !self.labels.contains(&l) {
                    self.labels.push(l);
                }
                match self.rng.below(6) {
                    0 => format!("[{}]", l),
                    1 => format!("[{}][]", l),
                    2 => format!("![{}]", l),
                    3 => format!("![{}][]", l),
                    4 => format!("[{}][{}]", self.inline(depth - 1, one_line), l),
                    _ => format!("![{}][{}]", self.inline(depth - 1, one_line), l),
                }
            }
            16 => self.rng.pick(&["<http://a.b>", "<me@x.org>", "http://a.b", "<mailto:a@b>"]).to_string(),
            17 => self
                .rng
                .pick(&["&amp;", "&lt;", "&#65;", "&#x1F600;", "&copy;", "&nbsp;", "&#0;", "&nope;", "&"])
                .to_string(),
            18 | 19 => self.rng.pick(&["\\*", "\\\\", "\\[", "\\_", "\\`", "\\a", "\\#", "\\<"]).to_string(),
            20 if !one_line => {
                let (a, b) = (self.word(), self.word());
                format!("{}{}{}", a, self.rng.pick(&["\\\n", "  \n", "    \n"]), b)
            }
            21 if !one_line && self.rng.chance(self.exotic) => "a\nb".into(),
            22 if self.rng.chance(self.exotic) => self.rng.pick(&["<b>", "</i>", "<!-- c -->", "<br/>"]).to_string(),
            23 => self.rng.pick(&["~~a~~", "[^1]", "|", "[ ]", "$x$", "!", "***", "**", "*", "_", "]", "[", "``"]).to_string(),
            24 => format!("{}*{}*", self.word(), self.word()),
            25 => format!("*{} *{}* {}*", self.word(), self.word(), self.word()),
            26 => format!("**{} **{}** {}**", self.word(), self.word(), self.word()),
            _ => self.words(),
        }
    }
    fn indent(s: &str, first: &str, rest: &str) -> String {
        let mut out = String::new();
        for (i, l) in s.split('\n').enumerate() {
            if i > 0 {
                out.push('\n');
            }
            if i == 0 {
                out.push_str(first);
            } else if !l.is_empty() || rest.contains('>') {
                out.push_str(rest);
            }
            out.push_str(l);
        }
        out
    }
    fn code(&mut self) -> String {
        let n = self.rng.below(5);
        (0..n)
            .map(|_| {
                self.rng
                    .pick(&["let x = 1;", "", "  ind", "*no*", "&amp;", "\ttab", "😀", "``", "<b>", "   ", "\\n", "| a |", "x  "])
                    .to_string()
            })
            .collect::<Vec<_>>()
            .join("\n")
    }
    fn block(&mut self, depth: usize) -> String {
        self.left -= 1;
        let k = if depth == 0 || self.left < 0 { self.rng.below(9) } else { self.rng.below(19) };
        match k {
            0..=3 => self.inline(3, false),
            4 => {
                let l = self.rng.range(1, 6);
                let h = "#".repeat(l);
                match self.rng.below(6) {
                    0 => h,
                    1 => format!("{} {} {}", h, self.inline(2, true), h),
                    _ => format!("{} {}", h, self.inline(2, true)),
                }
            }
            5 => format!("{}\n{}", self.inline(2, !self.rng.clone().chance(20)), self.rng.pick(&["===", "---", "=", "-"])),
            6 => {
                let f = self.rng.pick(&["```", "~~~", "````"]).to_string();
                let info = self.rng.pick(&["", "rust", " js x", "a&amp;b", "\\*", "é"]).to_string();
                let c = self.code();
                if self.rng.chance(10) {
                    format!("{}{}\n{}", f, info, c)
                } else if c.is_empty() {
                    format!("{}{}\n{}", f, info, f)
                } else {
                    format!("{}{}\n{}\n{}", f, info, c, f)
                }
            }
            7 => {
                let c = self.code();
                Self::indent(&c, "    ", "    ")
            }
            8 => self.rng.pick(&["---", "***", "* * *", "___"]).to_string(),
            9..=11 => {
                if self.rng.chance(8) {
                    return ">".into();
                }
                let b = self.blocks(depth - 1);
                Self::indent(&b, "> ", "> ")
            }
            12..=17 => {
                let n = self.rng.range(1, 3);
                let loose = self.rng.chance(40);
                let ord = self.rng.chance(45);
                let start = *self.rng.pick(&[1usize, 1, 2, 0, 7, 123456789]);
                let bul = *self.rng.pick(&["-", "*", "+"]);
                let del = *self.rng.pick(&[".", ")"]);
                let mut items = vec![];
                for i in 0..n {
                    let m = if ord { format!("{}{} ", start + i, del) } else { format!("{} ", bul) };
                    let body = match self.rng.below(10) {
                        0 => String::new(),
                        1..=4 => self.inline(2, false),
                        5 => {
                            let sub = self.block(depth - 1);
                            format!("{}\n{}", self.inline(2, false), sub)
                        }
                        _ => self.blocks(depth - 1),
                    };
                    items.push(Self::indent(&body, &m, &" ".repeat(m.len())));
                }
                items.join(if loose { "\n\n" } else { "\n" })
            }
            _ => {
                if self.rng.chance(self.exotic) {
                    self.rng.pick(&["<div>\nx\n</div>", "<!-- c -->", "a | b\n--|--\n1 | 2", "[^1]: note", "- [ ] task"]).to_string()
                } else {
                    self.inline(3, false)
                }
            }
        }
    }
    fn blocks(&mut self, depth: usize) -> String {
        let n = match self.rng.below(10) {
            0..=5 => 1,
            6..=8 => 2,
            _ => 3,
        };
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push_str(self.rng.pick(&["\n\n", "\n\n", "\n\n", "\n", "\n\n\n"]));
            }
            let b = self.block(depth);
            s.push_str(&b);
        }
        s
    }
}

const SOUP: &[&str] = &[
    "*", "**", "_", "`", "```", "~~~", "[", "]", "(", ")", "!", "![", "](", "<", ">", "> ", "- ", "1. ", "#", "# ", "\n",
    "\n\n", " ", "  \n", "\\", "\\\n", "&", "&amp;", ";", "\"", "'", "a", "b", "foo", "é", "😀", "\t", "    ", "---", "===", ":",
    "[a]: u", "|", "~", "\r\n", "\r", "\u{0}", "\u{a0}", "http://x", "+", "=", "-", "0", "9)",
];

/// Markdown text: mostly well-formed constructs, some damaged, some soup.
/// Quotes, items and emphasis nested far deeper than by the usual rules, and long runs of everything
fn gen_nested(rng: &mut Rng) -> String {
    let mut s = String::new();
    match rng.below(6) {
        0 | 1 => {
            let n = rng.range(5, 70);
            for _ in 0..n {
                s.push_str(*rng.pick(&["> ", "> ", ">", "- ", "* ", "1. ", "12345. "]));
            }
            s.push_str(*rng.pick(&["a", "# b", "***", "```\nx\n```", "![i](s)", ""]));
        }
        2 => {
            let n = rng.range(5, 40);
            for i in 0..n {
                s.push_str(&"  ".repeat(i));
                s.push_str(*rng.pick(&["- ", "* "]));
                s.push_str(*rng.pick(&["a\n", "b c\n", "*d*\n"]));
            }
        }
        3 => {
            let n = rng.range(5, 60);
            let k = rng.range(1, 3);
            let open: String = (0..n).map(|_| *rng.pick(&["*a ", "**b ", "[c "])).collect();
            s.push_str(&open);
            s.push('x');
            for _ in 0..n {
                s.push_str(*rng.pick(&["*", "**", "](u)", "](v \"t\")"]));
                if k == 2 {
                    s.push(' ');
                }
            }
        }
        4 => {
            // very many blocks, items or lines of one sort
            let n = crate::gen::magnitude(rng, 5, 10);
            let kind = rng.below(9);
            let head = rng.chance(30);
            for i in 0..n {
                match kind {
                    0 => s.push_str(*rng.pick(&["- a\n", "- b\n", "- *c*\n", "  d\n", "\n"])),
                    1 => s.push_str(*rng.pick(&["* a\n", "* **b**\n"])),
                    2 => s.push_str(*rng.pick(&["1. a\n", "1. b\n", "7. c\n"])),
                    3 => s.push_str(*rng.pick(&["- a\n\n", "- b\n\n", "- c\n\n  d\n\n"])),
                    4 => s.push_str(*rng.pick(&["a\n\n", "b *c*\n\n"])),
                    5 => s.push_str(*rng.pick(&["> a\n", "> b\n", ">\n"])),
                    6 => s.push_str(*rng.pick(&["# a\n", "***\n", "## b\n"])),
                    7 => s.push_str(*rng.pick(&["    a\n", "    b\n", "     c\n"])),
                    _ => s.push_str(*rng.pick(&["a\n", "b  \n", "![i](s)\n", "*c*\n"])),
                }
                if head && i % 97 == 96 {
                    s.push_str("\n# h\n\n");
                }
            }
        }
        _ => {
            let n = rng.range(100, 3000);
            for _ in 0..n {
                s.push_str(*rng.pick(&["word ", "w ", "*e* ", "**s** ", "`c` ", "é ", "😀 ", "a", "![i](s)", "[l](u) "]));
            }
        }
    }
    s
}

pub fn gen_markdown(rng: &mut Rng) -> String {
    let kind = rng.below(20);
    if kind == 0 {
        let n = rng.range(0, 30);
        return (0..n).map(|_| *rng.pick(SOUP)).collect();
    }
    if rng.chance(1) {
        return gen_nested(rng);
    }
    let left = *rng.pick(&[3, 8, 15, 30, 60]);
    let exotic = *rng.pick(&[0, 0, 0, 60]);
    let depth = rng.below(4);
    let n = *rng.pick(&[1, 1, 2, 3, 4]);
    let mut t = T { rng, left, exotic, refs: false, labels: vec![] };
    let mut parts = vec![];
    for _ in 0..n {
        parts.push(t.block(depth));
    }
    if t.refs {
        for l in t.labels.clone() {
            if t.rng.chance(85) {
                let d = t.definition(l);
                let p = t.rng.below(parts.len() + 1);
                parts.insert(p, d);
            }
        }
    }
    let mut s = parts.join("\n\n");
    if rng.chance(60) {
        s.push('\n');
    }
    if kind <= 4 {
        let mut cs: Vec<char> = s.chars().collect();
        for _ in 0..rng.range(1, 4) {
            let p = rng.below(cs.len() + 1);
            match rng.below(4) {
                0 if p < cs.len() => {
                    cs.remove(p);
                }
                1 if p < cs.len() => {
                    let c = cs[p];
                    cs.insert(p, c);
                }
                2 => {
                    let q = rng.below(cs.len() + 1);
                    let (a, b) = (p.min(q), p.max(q).min(p.min(q) + 8));
                    let piece: Vec<char> = cs[a..b].to_vec();
                    let r = rng.below(cs.len() + 1);
                    for (k, c) in piece.into_iter().enumerate() {
                        cs.insert(r + k, c);
                    }
                }
                _ => {
                    let piece: Vec<char> = rng.pick(SOUP).chars().collect();
                    for (k, c) in piece.into_iter().enumerate() {
                        cs.insert(p + k, c);
                    }
                }
            }
        }
        s = cs.into_iter().collect();
    }
    s
}
