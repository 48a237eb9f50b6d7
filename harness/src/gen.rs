//! Workload generators. Everything is produced on the oracle's side and then built for the
//! library, so a defect of the library cannot hide itself in the inputs.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy)]
pub struct Opts {
    pub budget: usize,
    pub max_depth: usize,
    /// 0 plain ascii, 1 mixed with astral characters, 2 anything
    pub text: u8,
    /// percent chance for text to carry marks
    pub marks: usize,
    pub canonical: bool,
    /// percent chance to end a list of children wherever it may end; 0 for a usual one
    pub stop: usize,
    /// prefer nodes with content
    pub nest: bool,
}

impl Opts {
    pub fn random(rng: &mut Rng) -> Opts {
        let o = Opts::usual(rng);
        // now and then something out of the ordinary
        match rng.below(700) {
            0 => Opts { budget: rng.range(60, 400), max_depth: rng.range(1, 3), stop: 1, ..o },
            1 => Opts { budget: rng.range(20, 120), max_depth: rng.range(20, 60), stop: 60, nest: true, ..o },
            2 => Opts { budget: 4, text: 3, ..o },
            3 if rng.below(20) == 0 => Opts { budget: 3, text: 4, ..o },
            3 if rng.below(10) == 0 => Opts { budget: rng.range(600, 2000), max_depth: rng.range(1, 2), stop: 1, ..o },
            _ => o,
        }
    }
    fn usual(rng: &mut Rng) -> Opts {
        let budget = match rng.below(10) {
            0 => 2,
            1..=4 => 6,
            5..=7 => 14,
            8 => 30,
            _ => 60,
        };
        Opts {
            budget,
            max_depth: rng.range(1, 6),
            text: *rng.pick(&[0, 0, 1, 1, 2]),
            marks: *rng.pick(&[0, 20, 50, 80]),
            canonical: true,
            stop: 0,
            nest: false,
        }
    }
    pub fn small(rng: &mut Rng) -> Opts {
        Opts { budget: rng.range(2, 10), max_depth: rng.range(1, 4), ..Opts::usual(rng) }
    }
}

pub const ASTRAL: &[char] = &['😀', '𝒜', '🇩', '👩', '\u{10000}', '\u{10FFFF}', '🦀'];
const WEIRD: &[char] = &[
    '\u{0}', '\u{7f}', '\u{80}', '\u{301}', '\u{200d}', '\u{2028}', '\u{d7ff}', '\u{e000}', '\u{fffd}',
    '\u{ffff}', '\n', '\r', '\t', '"', '\\', '/', '<', '&', 'é', 'ß', '☃', '漢', '\u{feff}',
];

/// What something along the way may take for one thing, or take away
pub const SEQUENCES: &[&str] = &[
    "\r\n", "e\u{301}", "👨\u{200d}👩\u{200d}👧", "🇩🇪", "\u{feff}x", "  ", "\n\n", "\u{0}\u{0}", "\\u0041", "&amp;", "ﬀ", "İ", "\u{1100}\u{1161}",
    "👍🏽", "a\u{200d}b", "a\u{fe0f}", "\u{200b}", "x\u{ad}y", "\u{2028}", "\u{a0}", "\u{1f3f4}\u{e0067}\u{e007f}", "\u{202e}x\u{202c}", "\u{fffe}", "\u{1fffe}", "\u{e0001}",
];

pub fn gen_text(rng: &mut Rng, kind: u8) -> String {
    let n = match rng.below(8) {
        0..=2 => 1,
        3..=5 => rng.range(2, 4),
        6 => rng.range(3, 9),
        _ => rng.range(5, 20),
    };
    let (n, kind) = match kind {
        3 => (rng.range(20, 2500), rng.below(3) as u8),
        // beyond what 16 bits can count
        4 => (rng.range(40_000, 70_000), rng.below(2) as u8),
        _ => (n, kind),
    };
    let mut s = String::new();
    for _ in 0..n {
        if kind > 1 && rng.chance(6) {
            s.push_str(rng.pick(SEQUENCES));
            continue;
        }
        let c = match kind {
            0 => *rng.pick(&['a', 'b', 'c', 'x', ' ']),
            1 => {
                if rng.chance(35) {
                    *rng.pick(ASTRAL)
                } else {
                    *rng.pick(&['a', 'b', 'é', '☃', ' '])
                }
            }
            _ => match rng.below(4) {
                0 => *rng.pick(ASTRAL),
                1 => *rng.pick(WEIRD),
                2 => char::from_u32(rng.below(0x110000) as u32).unwrap_or('z'),
                _ => (b'a' + rng.below(26) as u8) as char,
            },
        };
        s.push(c);
    }
    s
}

pub fn gen_mark(rng: &mut Rng, sd: &SchemaDesc) -> MMark {
    let ty = rng.below(sd.n_marks as usize) as u8;
    gen_mark_of(rng, sd, ty)
}
pub fn gen_mark_of(rng: &mut Rng, sd: &SchemaDesc, ty: u8) -> MMark {
    let n = sd.mark_attrs[ty as usize];
    MMark { ty, attrs: (0..n).map(|_| gen_string(rng, &["", "u", "v"])).collect() }
}
/// One of the usual strings, or now and then an unusual one
fn gen_string(rng: &mut Rng, usual: &[&str]) -> String {
    if !rng.chance(4) {
        return rng.pick(usual).to_string();
    }
    match rng.below(4) {
        0 => {
            let kind = rng.below(3) as u8;
            gen_text(rng, kind)
        }
        1 => rng.pick(&["null", "true", "0", " ", "  two  words ", "\"q\"", "\\", "type", "a\nb", "\u{0}", "'", "é", "😀"]).to_string(),
        2 => {
            // differs from a usual one in case, in trailing space, in a suffix
            let s = rng.pick(usual).to_string();
            match rng.below(4) {
                0 => s.to_uppercase(),
                1 => s + " ",
                2 => s + "?",
                _ => format!(" {}", s),
            }
        }
        _ => rng.pick(usual).repeat(rng.range(2, 300)),
    }
}
/// Another string, that a careless comparison could take for the same
pub fn similar(rng: &mut Rng, s: &str) -> String {
    let out = match rng.below(12) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => s.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        3 => format!("{}{}", s, rng.pick(&[" ", "/", "#", "?", ".", "\n", "\u{0}", "\u{301}", "\u{200b}", "\u{fe0f}", "%20"])),
        4 => format!("{}{}", rng.pick(&[" ", "/", "./", "http://", "\u{feff}", "\t", "<"]), s),
        5 => s.trim().to_string(),
        6 => s.chars().rev().collect(),
        7 => s.chars().skip(1).collect(),
        8 => s.replace('/', "\\").replace('é', "e\u{301}").replace('&', "&amp;").replace("  ", " "),
        9 => s.chars().chain(s.chars().last()).collect(),
        10 => {
            // one character in the middle
            let mut c: Vec<char> = s.chars().collect();
            if !c.is_empty() {
                let k = rng.below(c.len());
                c[k] = char::from_u32(c[k] as u32 ^ *rng.pick(&[1, 0x20, 0x100, 0x10000])).unwrap_or('x');
            }
            c.into_iter().collect()
        }
        _ => {
            let mut c: Vec<char> = s.chars().collect();
            c.pop();
            c.into_iter().collect()
        }
    };
    if out == s {
        out + "'"
    } else {
        out
    }
}
/// The mark with one attribute a little different
pub fn like_mark(rng: &mut Rng, m: &MMark) -> MMark {
    let mut m = m.clone();
    if !m.attrs.is_empty() {
        let k = rng.below(m.attrs.len());
        m.attrs[k] = similar(rng, &m.attrs[k].clone());
    }
    m
}
fn like_attrs(rng: &mut Rng, attrs: &[AV]) -> Vec<AV> {
    let mut a = attrs.to_vec();
    if !a.is_empty() {
        let k = rng.below(a.len());
        a[k] = match &a[k] {
            AV::Str(s) => AV::Str(similar(rng, s)),
            AV::Int(1) => AV::Int(2),
            AV::Bool(b) => AV::Bool(!b),
            x => x.clone(),
        };
    }
    a
}
pub fn gen_marks(rng: &mut Rng, sd: &SchemaDesc, allow: u32, percent: usize) -> Marks {
    let mut m = vec![];
    if rng.chance(percent) {
        for ty in 0..sd.n_marks {
            if allow >> ty & 1 == 1 && rng.chance(40) {
                m.push(gen_mark_of(rng, sd, ty));
            }
        }
    }
    m
}
pub fn gen_attrs(rng: &mut Rng, sd: &SchemaDesc, ty: u8) -> Vec<AV> {
    sd.types[ty as usize]
        .attrs
        .iter()
        .map(|a| match *a {
            "level" if rng.chance(3) => AV::Int(*rng.pick(&[0, 7, 10, 127, 128, 255])),
            "level" => AV::Int(rng.range(1, 6) as u64),
            "order" if rng.chance(5) => AV::Int(*rng.pick(&[
                10,
                255,
                256,
                65_535,
                65_536,
                999_999_999,
                (1 << 31) - 1,
                1 << 31,
                1 << 32,
                (1 << 53) - 1,
                (1 << 53) + 1,
                u64::MAX >> 1,
                u64::MAX,
            ])),
            "order" => AV::Int(*rng.pick(&[1, 1, 2, 7, 0])),
            "tight" => AV::Bool(rng.chance(30)),
            "src" => AV::Str(gen_string(rng, &["i.png", "j.png", ""])),
            _ => AV::Str(gen_string(rng, &["", "p", "q"])),
        })
        .collect()
}

struct G<'a> {
    sd: &'static SchemaDesc,
    rng: &'a mut Rng,
    o: Opts,
    left: isize,
}
impl<'a> G<'a> {
    fn list(&mut self, parent: u8, depth: usize) -> Vec<MNode> {
        let mut r = self.sd.rex(parent);
        let allow = self.sd.types[parent as usize].allow;
        let mut out = vec![];
        let stop = if self.o.stop > 0 { self.o.stop } else { *self.rng.pick(&[15, 30, 50]) };
        loop {
            let first = r.first();
            if r.nullable() && (first == 0 || self.left <= 0 || self.rng.chance(stop)) {
                break;
            }
            let mut cands: Vec<u8> = (0..32).filter(|t| first >> t & 1 == 1).collect();
            if self.left <= 0 || depth >= self.o.max_depth {
                let sh: Vec<u8> =
                    cands.iter().copied().filter(|t| self.sd.types[*t as usize].shallow).collect();
                if !sh.is_empty() {
                    cands = sh;
                }
            }
            // favour text among inline content
            let ty = if cands.contains(&self.sd.text) && self.rng.chance(60) {
                self.sd.text
            } else {
                if self.o.nest && self.left > 0 && depth < self.o.max_depth && self.rng.chance(80) {
                    let deep: Vec<u8> =
                        cands.iter().copied().filter(|t| !self.sd.types[*t as usize].shallow).collect();
                    if !deep.is_empty() {
                        cands = deep;
                    }
                }
                *self.rng.pick(&cands)
            };
            let mut n = self.node(ty, allow, depth + 1);
            if let Some(last) = out.last().filter(|l: &&MNode| l.ty == ty) {
                if self.rng.chance(3) {
                    // nearly like the one before
                    n.attrs = like_attrs(self.rng, &last.attrs);
                    n.marks = last.marks.clone();
                    if !n.marks.is_empty() {
                        let k = self.rng.below(n.marks.len());
                        n.marks[k] = like_mark(self.rng, &n.marks[k].clone());
                    }
                }
            }
            out.push(n);
            r = r.d(ty);
        }
        if self.o.canonical {
            canon(&out, self.sd.text)
        } else {
            out
        }
    }
    fn node(&mut self, ty: u8, allow: u32, depth: usize) -> MNode {
        self.left -= 1;
        let spec = &self.sd.types[ty as usize];
        let attrs = gen_attrs(self.rng, self.sd, ty);
        let marks = if spec.markable {
            gen_marks(self.rng, self.sd, allow, self.o.marks)
        } else {
            vec![]
        };
        let body = match &spec.kind {
            Kind::Text => Body::Text(gen_text(self.rng, self.o.text)),
            Kind::Leaf => Body::Leaf,
            Kind::Branch(_) => Body::Branch(self.list(ty, depth)),
        };
        MNode { ty, attrs, marks, body }
    }
}

pub fn gen_node(rng: &mut Rng, sd: &'static SchemaDesc, ty: u8, o: Opts) -> MNode {
    let left = o.budget as isize;
    G { sd, rng, o, left }.node(ty, u32::MAX, 0)
}
pub fn gen_doc(rng: &mut Rng, sd: &'static SchemaDesc, o: Opts) -> MNode {
    let mut d = gen_node(rng, sd, sd.doc, o);
    if rng.below(STRETCH) == 0 {
        stretch(rng, sd, &mut d);
    }
    d
}
/// One document out of so many is large in one respect
const STRETCH: usize = 150;

/// A size, small ones as likely as large ones, often close to a power of two
pub fn magnitude(rng: &mut Rng, lo: u32, hi: u32) -> usize {
    let e = rng.range(lo as usize, hi as usize);
    let b = 1usize << e;
    match rng.below(3) {
        0 => (b + rng.below(6)).saturating_sub(2),
        1 if e > 6 => 10usize.pow((e as u32) * 30103 / 100000) + rng.below(4),
        _ => rng.range(b, 2 * b),
    }
}

fn branches<'a>(n: &'a mut MNode, out: &mut Vec<*mut MNode>) {
    let me: *mut MNode = n;
    if let Body::Branch(ch) = &mut n.body {
        out.push(me);
        for c in ch.iter_mut() {
            branches(c, out);
        }
    }
}

/// Make one list of children very long, or one text, or both, keeping the document valid.
pub fn stretch(rng: &mut Rng, sd: &'static SchemaDesc, doc: &mut MNode) {
    let mode = rng.below(4);
    stretch_as(rng, sd, doc, mode, false)
}
/// A document in which one node has some 65 536 children, if one is found
pub fn very_wide(rng: &mut Rng, sd: &'static SchemaDesc) -> MNode {
    let mut d = MNode { ty: sd.doc, attrs: vec![], marks: vec![], body: Body::Branch(vec![]) };
    for _ in 0..40 {
        d = small_doc(rng, sd);
        stretch_as(rng, sd, &mut d, 0, true);
        if d.count() > 65_000 {
            break;
        }
    }
    d
}
fn stretch_as(rng: &mut Rng, sd: &'static SchemaDesc, doc: &mut MNode, mode: usize, wide: bool) {
    for _ in 0..12 {
        let mut all = vec![];
        branches(doc, &mut all);
        let at: *mut MNode = *rng.pick(&all);
        // SAFETY: the one node of the tree that is changed, while nothing else refers to it
        let b = unsafe { &mut *at };
        let ty = b.ty;
        let allow = sd.types[ty as usize].allow;
        let mut ch = b.children().to_vec();
        if mode < 2 {
            if ch.is_empty() {
                continue;
            }
            let i = rng.below(ch.len());
            let unit = ch[i..(i + rng.range(1, 3)).min(ch.len())].to_vec();
            let small = unit.iter().all(|u| !u.is_text() && u.size() <= 2);
            if wide && !(small && unit.len() == 1) {
                continue;
            }
            let n = match rng.below(6) {
                _ if wide => 65_530 + rng.below(100),
                0 if small && rng.chance(15) => 65_530 + rng.below(100),
                0 => magnitude(rng, 10, 12),
                _ => magnitude(rng, 5, 10),
            } / unit.len();
            let fresh = rng.chance(50);
            let mut out = ch[..i].to_vec();
            for _ in 0..n.max(1) {
                for u in &unit {
                    out.push(if fresh {
                        let o = Opts { budget: 2, max_depth: 1, marks: 40, ..Opts::usual(rng) };
                        let left = 2;
                        G { sd, rng, o, left }.node(u.ty, allow, 0)
                    } else {
                        u.clone()
                    });
                }
            }
            out.extend(ch.drain(i..));
            ch = out;
        } else {
            if sd.rex(ty).first() >> sd.text & 1 == 0 {
                continue;
            }
            let mut text = MNode { ty: sd.text, attrs: vec![], marks: gen_marks(rng, sd, allow, 20), body: Body::Leaf };
            let n = match rng.below(4) {
                0 => magnitude(rng, 14, 16),
                _ => magnitude(rng, 5, 13),
            };
            let k = rng.below(2) as u8;
            let mut s = String::new();
            if rng.chance(40) {
                // plain for long, then not
                while s.len() < n {
                    s.push_str(*rng.pick(&["abc ", "d", "ef gh", "xyz "]));
                }
                s.push_str(&gen_text(rng, 1));
                s.push_str(rng.pick(SEQUENCES));
                s.push(*rng.pick(ASTRAL));
            }
            while s.len() < n {
                s.push_str(&gen_text(rng, k));
            }
            text.body = Body::Text(s);
            let i = rng.below(ch.len() + 1);
            if mode == 2 {
                ch.insert(i, text);
            } else {
                let o = Opts { budget: 8, ..Opts::usual(rng) };
                let more = gen_children(rng, sd, ty, o);
                ch.insert(i, text);
                ch.splice(i + 1..i + 1, more);
            }
        }
        let ch = canon(&ch, sd.text);
        if sd.children_ok(ty, &ch) {
            b.body = Body::Branch(ch);
            return;
        }
    }
}
pub fn doc(rng: &mut Rng, sd: &'static SchemaDesc) -> MNode {
    let o = Opts::random(rng);
    gen_doc(rng, sd, o)
}
pub fn small_doc(rng: &mut Rng, sd: &'static SchemaDesc) -> MNode {
    let o = Opts::small(rng);
    gen_doc(rng, sd, o)
}
/// A valid list of children for a node of type `ty`
pub fn gen_children(rng: &mut Rng, sd: &'static SchemaDesc, ty: u8, o: Opts) -> Vec<MNode> {
    let left = o.budget as isize;
    G { sd, rng, o, left }.list(ty, 0)
}

/// Any tree, valid or not, possibly with empty or split text.
pub fn wild_node(rng: &mut Rng, sd: &'static SchemaDesc, depth: usize, left: &mut isize) -> MNode {
    *left -= 1;
    let ty = if depth == 0 || *left <= 0 {
        *rng.pick(&(0..sd.types.len() as u8).filter(|t| sd.types[*t as usize].shallow).collect::<Vec<_>>())
    } else {
        rng.below(sd.types.len()) as u8
    };
    let spec = &sd.types[ty as usize];
    let attrs = gen_attrs(rng, sd, ty);
    let marks = if spec.markable { gen_marks(rng, sd, u32::MAX, 40) } else { vec![] };
    let body = match &spec.kind {
        Kind::Text => Body::Text(if rng.chance(8) { String::new() } else { gen_text(rng, 1) }),
        Kind::Leaf => Body::Leaf,
        Kind::Branch(_) => {
            let n = rng.below(4);
            let d = depth.saturating_sub(1);
            Body::Branch((0..n).map(|_| wild_node(rng, sd, d, left)).collect())
        }
    };
    MNode { ty, attrs, marks, body }
}
pub fn wild_list(rng: &mut Rng, sd: &'static SchemaDesc, n: usize, depth: usize) -> Vec<MNode> {
    let mut left = 20;
    (0..n).map(|_| wild_node(rng, sd, depth, &mut left)).collect()
}

// ---------------------------------------------------------------- positions and slices

pub fn pick_pos(rng: &mut Rng, pos: &[usize]) -> usize {
    match rng.below(10) {
        0 => pos[0],
        1 => *pos.last().unwrap(),
        2 | 3 if pos.len() > 64 => {
            // near one end
            let e = rng.range(1, 6);
            let k = rng.below(1 << e);
            pos[if rng.chance(50) { k } else { pos.len() - 1 - k }]
        }
        _ => *rng.pick(pos),
    }
}
pub fn pick_range(rng: &mut Rng, pos: &[usize]) -> (usize, usize) {
    let a = pick_pos(rng, pos);
    let b = if rng.chance(50) {
        // near
        let i = pos.binary_search(&a).unwrap();
        pos[(i + rng.below(6)).min(pos.len() - 1)]
    } else {
        pick_pos(rng, pos)
    };
    (a.min(b), a.max(b))
}

/// A node of the given type whose closed parts are valid but whose own content may be partial:
/// the sort of node an open side of a slice consists of.
fn open_node(rng: &mut Rng, sd: &'static SchemaDesc, ty: u8) -> MNode {
    let o = Opts::small(rng);
    let mut n = gen_node(rng, sd, ty, o);
    n.marks = vec![];
    if let Body::Branch(ch) = &mut n.body {
        match rng.below(4) {
            0 => {
                let k = rng.below(ch.len() + 1);
                ch.truncate(k);
            }
            1 => {
                let k = rng.below(ch.len() + 1);
                ch.drain(..k);
            }
            _ => {}
        }
    }
    n
}

fn branch_types(sd: &SchemaDesc) -> Vec<u8> {
    (0..sd.types.len() as u8)
        .filter(|t| matches!(sd.types[*t as usize].kind, Kind::Branch(_)) && *t != sd.doc)
        .collect()
}

/// A well-formed slice: any open depths that its content supports, closed nodes valid.
pub fn gen_slice(rng: &mut Rng, sd: &'static SchemaDesc, doc: &MNode) -> MSlice {
    match rng.below(12) {
        0 => MSlice::empty(),
        1..=3 => {
            // cut from the same document
            let pos = positions(doc);
            let (a, b) = pick_range(rng, &pos);
            slice(doc, a, b, rng.chance(15), sd.text).unwrap()
        }
        4..=6 => {
            let d = small_doc(rng, sd);
            let pos = positions(&d);
            let (a, b) = pick_range(rng, &pos);
            slice(&d, a, b, rng.chance(15), sd.text).unwrap()
        }
        7 => {
            // inline content
            let tys: Vec<u8> = branch_types(sd)
                .into_iter()
                .filter(|t| sd.rex(*t).first() >> sd.text & 1 == 1)
                .collect();
            let ty = *rng.pick(&tys);
            let o = Opts::small(rng);
            MSlice::flat(gen_children(rng, sd, ty, o))
        }
        8 => {
            // whole blocks
            let o = Opts::small(rng);
            let ty = *rng.pick(&branch_types(sd));
            MSlice::flat(gen_children(rng, sd, ty, o))
        }
        9 => {
            // the pieces of a split: two (or more) levels opened on both sides
            let k = rng.range(1, 3);
            let tys: Vec<u8> = (0..k).map(|_| *rng.pick(&branch_types(sd))).collect();
            let mk = |rng: &mut Rng| {
                let mut inner: Vec<MNode> = vec![];
                for t in tys.iter().rev() {
                    inner = vec![MNode {
                        ty: *t,
                        attrs: gen_attrs(rng, sd, *t),
                        marks: vec![],
                        body: Body::Branch(inner),
                    }];
                }
                inner.remove(0)
            };
            let l = mk(rng);
            let r = mk(rng);
            MSlice { content: vec![l, r], open_start: k, open_end: k }
        }
        10 => {
            // a split that follows the document's own ancestors
            let pos = positions(doc);
            let p = pick_pos(rng, &pos);
            let r = resolve(doc, p).unwrap();
            let k = r.depth().min(rng.range(1, 3));
            let mut inner: Vec<MNode> = vec![];
            for j in 0..k {
                let n = r.lv[r.depth() - j].node;
                inner = vec![n.with_children(inner)];
            }
            if inner.is_empty() {
                return MSlice::empty();
            }
            let one = inner.remove(0);
            if rng.chance(25) {
                MSlice { content: vec![one], open_start: k, open_end: k }
            } else {
                MSlice { content: vec![one.clone(), one], open_start: k, open_end: k }
            }
        }
        _ => {
            let n = rng.range(1, 3);
            let bt = branch_types(sd);
            let content: Vec<MNode> = (0..n)
                .map(|_| {
                    let ty = *rng.pick(&bt);
                    open_node(rng, sd, ty)
                })
                .collect();
            random_opens(rng, content)
        }
    }
}

/// Give a content list random open depths that it supports.
pub fn random_opens(rng: &mut Rng, content: Vec<MNode>) -> MSlice {
    let mut s = MSlice { content, open_start: 0, open_end: 0 };
    let mut l: &[MNode] = &s.content;
    let mut os = 0;
    while let Some(n) = l.first() {
        if !n.is_branch() || rng.chance(35) {
            break;
        }
        os += 1;
        l = n.children();
    }
    let mut l: &[MNode] = &s.content;
    let mut oe = 0;
    while let Some(n) = l.last() {
        if !n.is_branch() || rng.chance(35) {
            break;
        }
        oe += 1;
        l = n.children();
    }
    s.open_start = os;
    s.open_end = oe;
    // an interior closed node that is partial would be invalid: only the open chains may be
    s
}

/// Are all closed nodes of the slice valid?
pub fn closed_valid(sd: &SchemaDesc, s: &MSlice) -> bool {
    fn go(sd: &SchemaDesc, l: &[MNode], os: usize, oe: usize) -> bool {
        let n = l.len();
        l.iter().enumerate().all(|(i, c)| {
            let cs = if i == 0 { os } else { 0 };
            let ce = if i + 1 == n { oe } else { 0 };
            if cs == 0 && ce == 0 {
                sd.invalid(c).is_none()
            } else {
                go(sd, c.children(), cs.saturating_sub(1), ce.saturating_sub(1))
            }
        })
    }
    s.well_formed() && go(sd, &s.content, s.open_start, s.open_end)
}

/// Range and slice, biased so that depths are consistent most of the time.
pub fn gen_replace(rng: &mut Rng, sd: &'static SchemaDesc, doc: &MNode) -> (usize, usize, MSlice) {
    let pos = positions(doc);
    let mut s = gen_slice(rng, sd, doc);
    for _ in 0..4 {
        if closed_valid(sd, &s) {
            break;
        }
        s = gen_slice(rng, sd, doc);
    }
    if !closed_valid(sd, &s) {
        s = MSlice::empty();
    }
    if rng.chance(15) {
        let (a, b) = pick_range(rng, &pos);
        return (a, b, s);
    }
    let mut last = None;
    let deep = positions_and_depths(doc);
    for _ in 0..8 {
        let from = pick_pos(rng, &pos);
        let fd = resolve(doc, from).unwrap().depth();
        if fd < s.open_start {
            continue;
        }
        let want = fd - s.open_start + s.open_end;
        let cands: Vec<usize> =
            deep.iter().filter(|(p, d)| *p >= from && *d == want).map(|x| x.0).collect();
        if cands.is_empty() {
            continue;
        }
        let to = if rng.chance(40) { cands[0] } else { *rng.pick(&cands) };
        last = Some((from, to));
        if matches!(replace(sd, doc, from, to, &s), Verdict::Ok(_)) || rng.chance(30) {
            break;
        }
    }
    match last {
        Some((a, b)) => (a, b, s),
        None => {
            let (a, b) = pick_range(rng, &pos);
            (a, b, s)
        }
    }
}

// ---------------------------------------------------------------- editing steps

/// Steps as an editor would make them (most fit the document), plus arbitrary ones.
pub fn gen_step(rng: &mut Rng, sd: &'static SchemaDesc, doc: &MNode) -> MStep {
    let pos = positions(doc);
    match rng.below(16) {
        0..=2 => {
            // type text
            let p = pick_pos(rng, &pos);
            let r = resolve(doc, p).unwrap();
            let allow = sd.types[r.parent().ty as usize].allow;
            let kind = *rng.pick(&[0, 1]);
            let t = MNode {
                ty: sd.text,
                attrs: vec![],
                marks: gen_marks(rng, sd, allow, 40),
                body: Body::Text(gen_text(rng, kind)),
            };
            MStep::Replace { from: p, to: p, slice: MSlice::flat(vec![t]), structure: false }
        }
        3 | 4 => {
            // delete
            let (a, b) = pick_range(rng, &pos);
            MStep::Replace { from: a, to: b, slice: MSlice::empty(), structure: rng.chance(15) }
        }
        5 => {
            // split
            let p = pick_pos(rng, &pos);
            let r = resolve(doc, p).unwrap();
            let k = r.depth().min(rng.range(1, 2));
            let mut inner: Vec<MNode> = vec![];
            for j in 0..k {
                inner = vec![r.lv[r.depth() - j].node.with_children(inner)];
            }
            let slice = if inner.is_empty() {
                MSlice::empty()
            } else {
                MSlice { content: vec![inner[0].clone(), inner[0].clone()], open_start: k, open_end: k }
            };
            MStep::Replace { from: p, to: p, slice, structure: rng.chance(50) }
        }
        6 => {
            // join: close and reopen tokens around a boundary
            let p = pick_pos(rng, &pos);
            let k = rng.range(1, 2);
            let a = p.saturating_sub(k);
            let b = (p + k).min(doc.content_size());
            MStep::Replace { from: a, to: b, slice: MSlice::empty(), structure: rng.chance(60) }
        }
        7 | 8 => gen_around(rng, sd, doc),
        9 | 10 => {
            let (a, b) = pick_range(rng, &pos);
            MStep::AddMark { from: a, to: b, mark: gen_mark(rng, sd) }
        }
        11 | 12 => {
            let (a, b) = pick_range(rng, &pos);
            MStep::RemoveMark { from: a, to: b, mark: near_mark(rng, sd, doc) }
        }
        _ => {
            let (a, b, s) = gen_replace(rng, sd, doc);
            MStep::Replace { from: a, to: b, slice: s, structure: rng.chance(10) }
        }
    }
}

/// A mark that is likely to occur in the document.
pub fn near_mark(rng: &mut Rng, sd: &'static SchemaDesc, doc: &MNode) -> MMark {
    let mut ms = vec![];
    for t in list_tokens(doc.children()) {
        if let Tok::Unit(_, m) | Tok::Leaf(_, _, m) | Tok::Open(_, _, m) = t {
            ms.extend(m);
        }
    }
    if ms.is_empty() || rng.chance(40) {
        gen_mark(rng, sd)
    } else {
        let m = rng.pick(&ms).clone();
        if rng.chance(5) {
            like_mark(rng, &m)
        } else {
            m
        }
    }
}

fn nodes_at<'a>(n: &'a MNode, start: usize, out: &mut Vec<(&'a MNode, &'a MNode, usize)>) {
    let mut at = start;
    for c in n.children() {
        out.push((n, c, at));
        nodes_at(c, at + 1, out);
        at += c.size();
    }
}

pub fn gen_around(rng: &mut Rng, sd: &'static SchemaDesc, doc: &MNode) -> MStep {
    let mut nodes = vec![];
    nodes_at(doc, 0, &mut nodes);
    let branches: Vec<_> = nodes.iter().filter(|x| x.1.is_branch()).collect();
    let bt = branch_types(sd);
    if !branches.is_empty() {
        let (parent, n, at) = **rng.pick(&branches);
        match rng.below(6) {
            0 | 1 => {
                // retype the node: keep its content
                let cands: Vec<u8> = bt
                    .iter()
                    .copied()
                    .filter(|t| sd.rex(parent.ty).first() >> t & 1 == 1 || rng.chance(10))
                    .collect();
                let ty = if cands.is_empty() { n.ty } else { *rng.pick(&cands) };
                let shell = MNode { ty, attrs: gen_attrs(rng, sd, ty), marks: vec![], body: Body::Branch(vec![]) };
                return MStep::Around {
                    from: at,
                    to: at + n.size(),
                    gap_from: at + 1,
                    gap_to: at + n.size() - 1,
                    slice: MSlice::flat(vec![shell]),
                    insert: 1,
                    structure: rng.chance(60),
                };
            }
            2 | 3 => {
                // wrap a run of siblings
                let k = rng.range(1, 3);
                let i = parent.children().iter().position(|c| std::ptr::eq(c, n)).unwrap();
                let end = (i + k).min(parent.children().len());
                let to = at + list_size(&parent.children()[i..end]);
                let depth = rng.range(1, 2);
                let mut inner: Vec<MNode> = vec![];
                for _ in 0..depth {
                    let ty = *rng.pick(&bt);
                    inner = vec![MNode { ty, attrs: gen_attrs(rng, sd, ty), marks: vec![], body: Body::Branch(inner) }];
                }
                return MStep::Around {
                    from: at,
                    to,
                    gap_from: at,
                    gap_to: to,
                    slice: MSlice::flat(inner),
                    insert: depth,
                    structure: rng.chance(60),
                };
            }
            4 => {
                // lift: drop the node's own tokens
                return MStep::Around {
                    from: at,
                    to: at + n.size(),
                    gap_from: at + 1,
                    gap_to: at + n.size() - 1,
                    slice: MSlice::empty(),
                    insert: 0,
                    structure: rng.chance(60),
                };
            }
            _ => {}
        }
    }
    let pos = positions_and_depths(doc);
    let (from, to, sl) = gen_replace(rng, sd, doc);
    let inner: Vec<usize> = pos.iter().map(|x| x.0).filter(|p| *p >= from && *p <= to).collect();
    let (a, b) = if rng.chance(70) && !inner.is_empty() {
        // a flat gap if there is one
        let a = *rng.pick(&inner);
        let da = resolve(doc, a).unwrap();
        let (depth, last) = (da.depth(), da.lv.last().unwrap());
        let end = last.start + last.node.content_size();
        let c: Vec<usize> = pos
            .iter()
            .filter(|(p, d)| *p >= a && *p <= to && *p <= end && *d == depth)
            .map(|x| x.0)
            .collect();
        (a, *rng.pick(&c))
    } else {
        let x = *rng.pick(&inner);
        let y = *rng.pick(&inner);
        (x.min(y), x.max(y))
    };
    let size = sl.size();
    let insert = if rng.chance(92) { rng.below(size + 1) } else { rng.below(size + 6) };
    MStep::Around { from, to, gap_from: a, gap_to: b, slice: sl, insert, structure: rng.chance(40) }
}
