//! The oracle's own picture of documents: a plain tree, and its flattening into one token per
//! position. Nothing in here calls the library under test.

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct MMark {
    pub ty: u8,
    pub attrs: Vec<String>,
}
/// Sorted by type, at most one per type.
pub type Marks = Vec<MMark>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AV {
    Int(u64),
    Bool(bool),
    Str(String),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Body {
    Text(String),
    Leaf,
    Branch(Vec<MNode>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MNode {
    pub ty: u8,
    pub attrs: Vec<AV>,
    pub marks: Marks,
    pub body: Body,
}

pub fn mark_add(marks: &Marks, m: &MMark) -> Marks {
    let mut out: Marks = marks.iter().filter(|x| x.ty != m.ty).cloned().collect();
    out.push(m.clone());
    out.sort_by_key(|x| x.ty);
    out
}
pub fn mark_remove(marks: &Marks, m: &MMark) -> Marks {
    marks.iter().filter(|x| *x != m).cloned().collect()
}

/// Content expressions, as regular expressions over sets of node types (bit masks).
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Rex {
    Nul,
    Eps,
    One(u32),
    Seq(Box<Rex>, Box<Rex>),
    Alt(Box<Rex>, Box<Rex>),
    Star(Box<Rex>),
}
impl Rex {
    pub fn one(m: u32) -> Rex {
        Rex::One(m)
    }
    pub fn seq(a: Rex, b: Rex) -> Rex {
        match (a, b) {
            (Rex::Nul, _) | (_, Rex::Nul) => Rex::Nul,
            (Rex::Eps, b) => b,
            (a, Rex::Eps) => a,
            (a, b) => Rex::Seq(Box::new(a), Box::new(b)),
        }
    }
    pub fn alt(a: Rex, b: Rex) -> Rex {
        match (a, b) {
            (Rex::Nul, b) => b,
            (a, Rex::Nul) => a,
            (a, b) if a == b => a,
            (a, b) => Rex::Alt(Box::new(a), Box::new(b)),
        }
    }
    pub fn star(a: Rex) -> Rex {
        Rex::Star(Box::new(a))
    }
    pub fn plus(a: Rex) -> Rex {
        Rex::seq(a.clone(), Rex::star(a))
    }
    pub fn opt(a: Rex) -> Rex {
        Rex::alt(Rex::Eps, a)
    }
    pub fn nullable(&self) -> bool {
        match self {
            Rex::Nul | Rex::One(_) => false,
            Rex::Eps | Rex::Star(_) => true,
            Rex::Seq(a, b) => a.nullable() && b.nullable(),
            Rex::Alt(a, b) => a.nullable() || b.nullable(),
        }
    }
    /// Brzozowski derivative by a node type.
    pub fn d(&self, ty: u8) -> Rex {
        match self {
            Rex::Nul | Rex::Eps => Rex::Nul,
            Rex::One(m) => {
                if m >> ty & 1 == 1 {
                    Rex::Eps
                } else {
                    Rex::Nul
                }
            }
            Rex::Seq(a, b) => {
                let l = Rex::seq(a.d(ty), (**b).clone());
                if a.nullable() {
                    Rex::alt(l, b.d(ty))
                } else {
                    l
                }
            }
            Rex::Alt(a, b) => Rex::alt(a.d(ty), b.d(ty)),
            Rex::Star(a) => Rex::seq(a.d(ty), self.clone()),
        }
    }
    pub fn after<I: IntoIterator<Item = u8>>(&self, tys: I) -> Rex {
        let mut r = self.clone();
        for t in tys {
            r = r.d(t);
        }
        r
    }
    pub fn first(&self) -> u32 {
        match self {
            Rex::Nul | Rex::Eps => 0,
            Rex::One(m) => *m,
            Rex::Seq(a, b) => a.first() | if a.nullable() { b.first() } else { 0 },
            Rex::Alt(a, b) => a.first() | b.first(),
            Rex::Star(a) => a.first(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    Text,
    Leaf,
    Branch(Rex),
}

#[derive(Clone, Debug)]
pub struct TypeSpec {
    pub name: &'static str,
    pub attrs: &'static [&'static str],
    pub kind: Kind,
    /// inline (may appear among text)
    pub inline: bool,
    /// a node of this type can carry marks
    pub markable: bool,
    /// mark types allowed on its children
    pub allow: u32,
    /// a type to prefer when the size budget is exhausted
    pub shallow: bool,
}

/// The static description of a schema, used by generators and oracles.
pub struct SchemaDesc {
    pub name: &'static str,
    pub types: Vec<TypeSpec>,
    pub text: u8,
    pub doc: u8,
    pub n_marks: u8,
    /// number of string attributes per mark type
    pub mark_attrs: Vec<usize>,
}

impl SchemaDesc {
    pub fn rex(&self, ty: u8) -> Rex {
        match &self.types[ty as usize].kind {
            Kind::Branch(r) => r.clone(),
            _ => Rex::Eps,
        }
    }
    /// `joinable`: same type or contents that can start with a common type
    pub fn compat(&self, a: u8, b: u8) -> bool {
        a == b || self.rex(a).first() & self.rex(b).first() != 0
    }
    pub fn marks_allowed(&self, parent: u8, marks: &Marks) -> bool {
        marks
            .iter()
            .all(|m| self.types[parent as usize].allow >> m.ty & 1 == 1)
    }
    pub fn children_ok(&self, ty: u8, children: &[MNode]) -> bool {
        self.rex(ty).after(children.iter().map(|c| c.ty)).nullable()
            && children.iter().all(|c| self.marks_allowed(ty, &c.marks))
    }
    pub fn shape_ok(&self, n: &MNode) -> bool {
        match (&n.body, &self.types[n.ty as usize].kind) {
            (Body::Text(_), Kind::Text) | (Body::Leaf, Kind::Leaf) => true,
            (Body::Branch(_), Kind::Branch(_)) => true,
            _ => false,
        }
    }
    /// Every node has allowed content and marks. Returns the first offender.
    pub fn invalid(&self, n: &MNode) -> Option<String> {
        if !self.shape_ok(n) {
            return Some(format!("{} has a body of the wrong kind", self.types[n.ty as usize].name));
        }
        if let Body::Branch(ch) = &n.body {
            if !self.children_ok(n.ty, ch) {
                return Some(format!(
                    "{} has content or marks its schema does not allow: {}",
                    self.types[n.ty as usize].name,
                    ch.iter().map(|c| self.show(c)).collect::<Vec<_>>().join(", ")
                ));
            }
            for c in ch {
                if let Some(e) = self.invalid(c) {
                    return Some(e);
                }
            }
        }
        None
    }
    /// No empty text, no adjacent texts with equal marks.
    pub fn noncanonical(&self, n: &MNode) -> Option<String> {
        if let Body::Text(t) = &n.body {
            if t.is_empty() {
                return Some("empty text node".into());
            }
        }
        if let Body::Branch(ch) = &n.body {
            if let Some(e) = self.noncanonical_list(ch) {
                return Some(format!("{}: {}", self.types[n.ty as usize].name, e));
            }
        }
        None
    }
    pub fn noncanonical_list(&self, ch: &[MNode]) -> Option<String> {
        for w in ch.windows(2) {
            if let (Body::Text(a), Body::Text(b)) = (&w[0].body, &w[1].body) {
                if w[0].marks == w[1].marks {
                    return Some(format!("adjacent texts {:?} and {:?} with equal marks", a, b));
                }
            }
        }
        ch.iter().find_map(|c| self.noncanonical(c))
    }
    pub fn show_marks(&self, m: &Marks) -> String {
        m.iter()
            .map(|m| {
                if m.attrs.is_empty() {
                    format!("{}", m.ty)
                } else {
                    format!("{}({})", m.ty, m.attrs.join("|"))
                }
            })
            .collect::<Vec<_>>()
            .join("+")
    }
    pub fn show(&self, n: &MNode) -> String {
        let mut s = String::new();
        match &n.body {
            Body::Text(t) => s.push_str(&format!("{:?}", t)),
            Body::Leaf => s.push_str(self.types[n.ty as usize].name),
            Body::Branch(ch) => {
                s.push_str(self.types[n.ty as usize].name);
                s.push('(');
                s.push_str(&ch.iter().map(|c| self.show(c)).collect::<Vec<_>>().join(", "));
                s.push(')');
            }
        }
        if !n.attrs.is_empty() {
            s.push_str(&format!("{{{}}}", n.attrs.iter().map(|a| match a {
                AV::Int(i) => i.to_string(),
                AV::Bool(b) => b.to_string(),
                AV::Str(s) => format!("{:?}", s),
            }).collect::<Vec<_>>().join(",")));
        }
        if !n.marks.is_empty() {
            s.push_str(&format!("^{}", self.show_marks(&n.marks)));
        }
        s
    }
    pub fn show_list(&self, ns: &[MNode]) -> String {
        format!("[{}]", ns.iter().map(|c| self.show(c)).collect::<Vec<_>>().join(", "))
    }
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Tok {
    Open(u8, Vec<AV>, Marks),
    Close,
    Leaf(u8, Vec<AV>, Marks),
    Unit(u16, Marks),
}

pub fn u16len(s: &str) -> usize {
    s.chars().map(|c| if (c as u32) >= 0x10000 { 2 } else { 1 }).sum()
}

impl MNode {
    pub fn children(&self) -> &[MNode] {
        match &self.body {
            Body::Branch(c) => c,
            _ => &[],
        }
    }
    pub fn is_text(&self) -> bool {
        matches!(self.body, Body::Text(_))
    }
    pub fn is_branch(&self) -> bool {
        matches!(self.body, Body::Branch(_))
    }
    pub fn size(&self) -> usize {
        match &self.body {
            Body::Text(t) => u16len(t),
            Body::Leaf => 1,
            Body::Branch(c) => 2 + list_size(c),
        }
    }
    pub fn content_size(&self) -> usize {
        list_size(self.children())
    }
    pub fn push_tokens(&self, out: &mut Vec<Tok>) {
        match &self.body {
            Body::Text(t) => {
                let mut buf = [0u16; 2];
                for c in t.chars() {
                    for u in c.encode_utf16(&mut buf) {
                        out.push(Tok::Unit(*u, self.marks.clone()));
                    }
                }
            }
            Body::Leaf => out.push(Tok::Leaf(self.ty, self.attrs.clone(), self.marks.clone())),
            Body::Branch(c) => {
                out.push(Tok::Open(self.ty, self.attrs.clone(), self.marks.clone()));
                for x in c {
                    x.push_tokens(out);
                }
                out.push(Tok::Close);
            }
        }
    }
    #[allow(dead_code)]
    pub fn depth(&self) -> usize {
        self.children().iter().map(|c| c.depth() + 1).max().unwrap_or(0)
    }
    pub fn text(&self) -> String {
        match &self.body {
            Body::Text(t) => t.clone(),
            Body::Leaf => String::new(),
            Body::Branch(c) => c.iter().map(|c| c.text()).collect(),
        }
    }
    pub fn count(&self) -> usize {
        1 + self.children().iter().map(|c| c.count()).sum::<usize>()
    }
    pub fn with_children(&self, ch: Vec<MNode>) -> MNode {
        MNode { ty: self.ty, attrs: self.attrs.clone(), marks: self.marks.clone(), body: Body::Branch(ch) }
    }
}

pub fn list_size(c: &[MNode]) -> usize {
    c.iter().map(|x| x.size()).sum()
}
pub fn list_tokens(c: &[MNode]) -> Vec<Tok> {
    let mut v = vec![];
    for x in c {
        x.push_tokens(&mut v);
    }
    v
}

/// Rebuild the (canonical) node list from tokens. `None` if unbalanced or a surrogate is alone.
pub fn parse(toks: &[Tok], text_ty: u8) -> Option<Vec<MNode>> {
    let mut stack: Vec<(Option<MNode>, Vec<MNode>)> = vec![(None, vec![])];
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            Tok::Open(ty, attrs, marks) => {
                stack.push((
                    Some(MNode { ty: *ty, attrs: attrs.clone(), marks: marks.clone(), body: Body::Leaf }),
                    vec![],
                ));
                i += 1;
            }
            Tok::Close => {
                let (n, ch) = stack.pop()?;
                let mut n = n?;
                n.body = Body::Branch(ch);
                stack.last_mut()?.1.push(n);
                i += 1;
            }
            Tok::Leaf(ty, attrs, marks) => {
                stack.last_mut()?.1.push(MNode {
                    ty: *ty,
                    attrs: attrs.clone(),
                    marks: marks.clone(),
                    body: Body::Leaf,
                });
                i += 1;
            }
            Tok::Unit(_, marks) => {
                let mut us = vec![];
                while let Some(Tok::Unit(u, m)) = toks.get(i) {
                    if m != marks {
                        break;
                    }
                    us.push(*u);
                    i += 1;
                }
                let s = String::from_utf16(&us).ok()?;
                stack.last_mut()?.1.push(MNode {
                    ty: text_ty,
                    attrs: vec![],
                    marks: marks.clone(),
                    body: Body::Text(s),
                });
            }
        }
    }
    if stack.len() != 1 {
        return None;
    }
    let (n, ch) = stack.pop()?;
    if n.is_some() {
        return None;
    }
    Some(ch)
}

/// Re-join adjacent equal-mark texts (and drop empty ones): the canonical form of a list.
pub fn canon(c: &[MNode], text_ty: u8) -> Vec<MNode> {
    parse(&list_tokens(c), text_ty).expect("canon")
}

// ---------------------------------------------------------------- positions

#[derive(Clone, Debug)]
pub struct Lvl<'a> {
    pub node: &'a MNode,
    /// absolute position of the start of the node's content
    pub start: usize,
    /// number of children that end at or before the position
    pub index: usize,
    /// number of children that start before the position
    pub index_after: usize,
}

#[derive(Clone, Debug)]
pub struct RPos<'a> {
    pub lv: Vec<Lvl<'a>>,
    /// offset into the text node at the position (0 between nodes)
    pub text_offset: usize,
}

impl<'a> RPos<'a> {
    pub fn depth(&self) -> usize {
        self.lv.len() - 1
    }
    pub fn parent(&self) -> &'a MNode {
        self.lv.last().unwrap().node
    }
    pub fn end(&self, d: usize) -> usize {
        self.lv[d].start + self.lv[d].node.content_size()
    }
    /// deepest level whose node's content contains both positions
    pub fn shared(&self, other: usize) -> usize {
        let mut best = 0;
        for d in 0..self.lv.len() {
            if self.lv[d].start <= other && other <= self.end(d) {
                best = d;
            }
        }
        best
    }
    pub fn same_node(&self, o: &RPos<'a>, d: usize) -> bool {
        d < self.lv.len() && d < o.lv.len() && std::ptr::eq(self.lv[d].node, o.lv[d].node)
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Unresolved {
    OutOfRange,
    InsideChar,
}

pub fn inside_char(s: &str, off: usize) -> bool {
    let mut p = 0;
    for c in s.chars() {
        if p == off {
            return false;
        }
        if (c as u32) >= 0x10000 && p + 1 == off {
            return true;
        }
        p += if (c as u32) >= 0x10000 { 2 } else { 1 };
    }
    false
}

/// Split a string at a UTF-16 offset on a character boundary.
pub fn u16split(s: &str, off: usize) -> (String, String) {
    let mut p = 0;
    let mut a = String::new();
    let mut b = String::new();
    for c in s.chars() {
        if p < off {
            a.push(c)
        } else {
            b.push(c)
        }
        p += if (c as u32) >= 0x10000 { 2 } else { 1 };
    }
    (a, b)
}

pub fn resolve(doc: &MNode, pos: usize) -> Result<RPos<'_>, Unresolved> {
    if pos > doc.content_size() {
        return Err(Unresolved::OutOfRange);
    }
    let mut lv = vec![];
    let mut node = doc;
    let mut start = 0;
    let mut text_offset = 0;
    loop {
        let mut at = start;
        let mut index = 0;
        let mut index_after = 0;
        let mut inside: Option<(&MNode, usize)> = None;
        for c in node.children() {
            let end = at + c.size();
            if end <= pos {
                index += 1;
            }
            if at < pos {
                index_after += 1;
            }
            if at < pos && pos < end {
                inside = Some((c, at));
            }
            at = end;
        }
        lv.push(Lvl { node, start, index, index_after });
        match inside {
            Some((c, at)) if c.is_text() => {
                text_offset = pos - at;
                if let Body::Text(t) = &c.body {
                    if inside_char(t, text_offset) {
                        return Err(Unresolved::InsideChar);
                    }
                }
                break;
            }
            Some((c, at)) => {
                node = c;
                start = at + 1;
            }
            None => break,
        }
    }
    Ok(RPos { lv, text_offset })
}

/// All positions at which the document can be addressed.
pub fn positions(doc: &MNode) -> Vec<usize> {
    positions_and_depths(doc).into_iter().map(|x| x.0).collect()
}

/// The same with the number of nodes around each
pub fn positions_and_depths(doc: &MNode) -> Vec<(usize, usize)> {
    fn go(n: &MNode, at: &mut usize, depth: usize, out: &mut Vec<(usize, usize)>) {
        match &n.body {
            Body::Text(t) => {
                for c in t.chars() {
                    *at += c.len_utf16();
                    out.push((*at, depth));
                }
            }
            Body::Leaf => {
                *at += 1;
                out.push((*at, depth));
            }
            Body::Branch(ch) => {
                *at += 1;
                out.push((*at, depth + 1));
                for c in ch {
                    go(c, at, depth + 1, out);
                }
                *at += 1;
                out.push((*at, depth));
            }
        }
    }
    let mut out = vec![(0, 0)];
    let mut at = 0;
    for c in doc.children() {
        go(c, &mut at, 0, &mut out);
    }
    out
}

// ---------------------------------------------------------------- slices

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MSlice {
    pub content: Vec<MNode>,
    pub open_start: usize,
    pub open_end: usize,
}
impl MSlice {
    pub fn empty() -> MSlice {
        MSlice { content: vec![], open_start: 0, open_end: 0 }
    }
    pub fn flat(content: Vec<MNode>) -> MSlice {
        MSlice { content, open_start: 0, open_end: 0 }
    }
    /// Chain of nodes opened at the start, outermost first; None if the content is not that deep.
    pub fn start_chain(&self) -> Option<Vec<&MNode>> {
        let mut v = vec![];
        let mut l: &[MNode] = &self.content;
        for _ in 0..self.open_start {
            let n = l.first()?;
            if !n.is_branch() {
                return None;
            }
            v.push(n);
            l = n.children();
        }
        Some(v)
    }
    pub fn end_chain(&self) -> Option<Vec<&MNode>> {
        let mut v = vec![];
        let mut l: &[MNode] = &self.content;
        for _ in 0..self.open_end {
            let n = l.last()?;
            if !n.is_branch() {
                return None;
            }
            v.push(n);
            l = n.children();
        }
        Some(v)
    }
    pub fn well_formed(&self) -> bool {
        self.start_chain().is_some() && self.end_chain().is_some()
    }
    /// tokens without the open starts and ends
    pub fn inner(&self) -> Option<Vec<Tok>> {
        if !self.well_formed() {
            return None;
        }
        let t = list_tokens(&self.content);
        Some(t[self.open_start..t.len() - self.open_end].to_vec())
    }
    pub fn size(&self) -> usize {
        list_size(&self.content) - self.open_start - self.open_end
    }
}

/// The slice of `doc` between two resolvable positions.
pub fn slice(doc: &MNode, from: usize, to: usize, parents: bool, text_ty: u8) -> Option<MSlice> {
    if from > to {
        return None;
    }
    let f = resolve(doc, from).ok()?;
    let t = resolve(doc, to).ok()?;
    if from == to {
        return Some(MSlice::empty());
    }
    let sd = if parents { 0 } else { f.shared(to) };
    let toks = list_tokens(doc.children());
    let mut out = vec![];
    for d in sd + 1..=f.depth() {
        let n = f.lv[d].node;
        out.push(Tok::Open(n.ty, n.attrs.clone(), n.marks.clone()));
    }
    out.extend_from_slice(&toks[from..to]);
    for _ in sd + 1..=t.depth() {
        out.push(Tok::Close);
    }
    let content = parse(&out, text_ty)?;
    Some(MSlice { content, open_start: f.depth() - sd, open_end: t.depth() - sd })
}

// ---------------------------------------------------------------- replace

/// What does not fit in a replacement
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Misfits {
    /// pairs of node types that would have to be joined and cannot be: the second onto the first
    pub joins: Vec<(u8, u8)>,
    /// types of rebuilt nodes whose content is not allowed
    pub contents: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Ok(MNode),
    BadPos,
    TooDeep,
    Inconsistent,
    /// does not fit: some join impossible / some rebuilt content invalid
    Misfit(Misfits),
    /// the slice is not deep enough for its open sides: no claim
    Malformed,
}

pub fn replace(sd: &SchemaDesc, doc: &MNode, from: usize, to: usize, sl: &MSlice) -> Verdict {
    if from > to {
        return Verdict::BadPos;
    }
    let (f, t) = match (resolve(doc, from), resolve(doc, to)) {
        (Ok(f), Ok(t)) => (f, t),
        _ => return Verdict::BadPos,
    };
    let (fd, td) = (f.depth(), t.depth());
    let (os, oe) = (sl.open_start, sl.open_end);
    let (a, b) = match (sl.start_chain(), sl.end_chain()) {
        (Some(a), Some(b)) => (a, b),
        _ => return Verdict::Malformed,
    };
    if os > fd {
        return Verdict::TooDeep;
    }
    if oe > td || fd - os != td - oe {
        return Verdict::Inconsistent;
    }
    let base = fd - os;
    let mut bad = Misfits::default();
    let mut join = |main: u8, sub: u8| {
        if !sd.compat(sub, main) {
            bad.joins.push((main, sub))
        }
    };
    for i in 1..=base {
        if !f.same_node(&t, i) {
            join(f.lv[i].node.ty, t.lv[i].node.ty);
        }
    }
    for j in 1..=os {
        join(f.lv[base + j].node.ty, a[j - 1].ty);
    }
    for j in 1..=oe {
        join(b[j - 1].ty, t.lv[base + j].node.ty);
    }
    let res = splice(sd, doc, from, to, sl);
    // every rebuilt node: the ancestors of both seams in the result, from the innermost node that
    // encloses the whole change (what is further out keeps its children's types)
    let mut outer = 0;
    while outer < base && f.same_node(&t, outer + 1) {
        outer += 1;
    }
    for p in [from, from + sl.size()] {
        // ancestors by counting, not by `resolve`, so that texts merging at seams do not matter
        for n in ancestors(&res, p).into_iter().skip(outer) {
            if !sd.children_ok(n.ty, n.children()) {
                bad.contents.push(n.ty)
            }
        }
    }
    if bad == Misfits::default() {
        Verdict::Ok(res)
    } else {
        Verdict::Misfit(bad)
    }
}

fn ancestors(doc: &MNode, pos: usize) -> Vec<&MNode> {
    let mut v = vec![doc];
    let mut at = 0;
    let mut node = doc;
    'outer: loop {
        for c in node.children() {
            let end = at + c.size();
            if c.is_branch() && at < pos && pos < end {
                v.push(c);
                node = c;
                at += 1;
                continue 'outer;
            }
            at = end;
        }
        return v;
    }
}

/// before ++ slice ++ after, re-read as a tree (closing tokens carry no type).
pub fn splice(sd: &SchemaDesc, doc: &MNode, from: usize, to: usize, sl: &MSlice) -> MNode {
    let toks = list_tokens(doc.children());
    let mut out = toks[..from].to_vec();
    out.extend(sl.inner().expect("well-formed"));
    out.extend_from_slice(&toks[to..]);
    doc.with_children(parse(&out, sd.text).expect("balanced"))
}

// ---------------------------------------------------------------- steps

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MStep {
    Replace { from: usize, to: usize, slice: MSlice, structure: bool },
    Around { from: usize, to: usize, gap_from: usize, gap_to: usize, slice: MSlice, insert: usize, structure: bool },
    AddMark { from: usize, to: usize, mark: MMark },
    RemoveMark { from: usize, to: usize, mark: MMark },
}

/// Does the range hold anything but closing tokens followed by opening tokens?
pub fn has_content(doc: &MNode, from: usize, to: usize) -> bool {
    let toks = list_tokens(doc.children());
    let mut opened = false;
    for t in &toks[from..to] {
        match t {
            Tok::Close if !opened => {}
            Tok::Open(..) => opened = true,
            _ => return true,
        }
    }
    false
}

/// Insert the gap into the slice at `insert` (counted after the open starts).
/// None: outside of the slice or inside a character.
pub fn insert_at(sl: &MSlice, insert: usize, gap: &[MNode], text_ty: u8) -> Option<MSlice> {
    let toks = list_tokens(&sl.content);
    let dist = insert.checked_add(sl.open_start)?;
    if dist > toks.len().checked_sub(sl.open_end)? {
        return None;
    }
    let mut out = toks[..dist].to_vec();
    out.extend(list_tokens(gap));
    out.extend_from_slice(&toks[dist..]);
    if dist > 0 && dist < toks.len() {
        if let Tok::Unit(u, _) = toks[dist] {
            if (0xDC00..0xE000).contains(&u) {
                return None;
            }
        }
    }
    Some(MSlice { content: parse(&out, text_ty)?, open_start: sl.open_start, open_end: sl.open_end })
}

/// The closed node of the slice that receives the gap, with the gap in it: is its content allowed?
/// (A node on an open side is judged once it is complete, by the replace.)
pub fn gap_fits(sd: &SchemaDesc, sl: &MSlice, insert: usize, gap: &[MNode]) -> bool {
    let mut l: &[MNode] = &sl.content;
    let mut dist = insert + sl.open_start;
    let (mut os, mut oe) = (sl.open_start, sl.open_end);
    let mut node: Option<&MNode> = None;
    'down: loop {
        let mut at = 0;
        for (i, c) in l.iter().enumerate() {
            let end = at + c.size();
            if c.is_branch() && at < dist && dist < end {
                os = if i == 0 { os } else { 0 };
                oe = if i + 1 == l.len() { oe } else { 0 };
                node = if os == 0 && oe == 0 { Some(c) } else { None };
                os = os.saturating_sub(1);
                oe = oe.saturating_sub(1);
                dist -= at + 1;
                l = c.children();
                continue 'down;
            }
            at = end;
        }
        break;
    }
    match node {
        None => true,
        Some(n) => {
            let mut toks = list_tokens(l);
            toks.splice(dist..dist, list_tokens(gap));
            match parse(&toks, sd.text) {
                Some(ch) => sd.children_ok(n.ty, &ch),
                None => false,
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum StepVerdict {
    Ok(MNode),
    /// must be refused
    Refuse(&'static str),
    /// no claim about the outcome
    Open,
}

/// map every inline token in [from, to) whose parent satisfies the predicate
pub fn map_marks(
    sd: &SchemaDesc,
    doc: &MNode,
    from: usize,
    to: usize,
    f: &dyn Fn(u8, &Marks) -> Marks,
) -> MNode {
    let mut toks = list_tokens(doc.children());
    let mut stack = vec![doc.ty];
    for (i, t) in toks.iter_mut().enumerate() {
        let inr = i >= from && i < to;
        match t {
            Tok::Open(ty, _, m) => {
                let parent = *stack.last().unwrap();
                stack.push(*ty);
                if inr && sd.types[*ty as usize].inline && sd.types[*ty as usize].markable {
                    *m = f(parent, m);
                }
            }
            Tok::Close => {
                stack.pop();
            }
            Tok::Leaf(ty, _, m) => {
                if inr && sd.types[*ty as usize].inline && sd.types[*ty as usize].markable {
                    *m = f(*stack.last().unwrap(), m);
                }
            }
            Tok::Unit(_, m) => {
                if inr {
                    *m = f(*stack.last().unwrap(), m);
                }
            }
        }
    }
    doc.with_children(parse(&toks, sd.text).expect("balanced"))
}

pub fn apply(sd: &SchemaDesc, doc: &MNode, step: &MStep) -> StepVerdict {
    match step {
        MStep::Replace { from, to, slice, structure } => {
            if *structure
                && from <= to
                && resolve(doc, *from).is_ok()
                && resolve(doc, *to).is_ok()
                && has_content(doc, *from, *to)
            {
                return StepVerdict::Refuse("structural replace over content");
            }
            lift_verdict(replace(sd, doc, *from, *to, slice))
        }
        MStep::Around { from, to, gap_from, gap_to, slice: sl, insert, structure } => {
            if from > to || gap_from > gap_to {
                return StepVerdict::Refuse("reversed range");
            }
            if gap_from < from || gap_to > to {
                return StepVerdict::Open;
            }
            for p in [from, to, gap_from, gap_to] {
                if gap_from == gap_to && p != from && p != to {
                    // an empty gap: where it is does not matter
                    continue;
                }
                if resolve(doc, *p).is_err() {
                    return StepVerdict::Refuse("position");
                }
            }
            if *structure && (has_content(doc, *from, *gap_from) || has_content(doc, *gap_to, *to)) {
                return StepVerdict::Refuse("structural replace-around over content");
            }
            let gap = if gap_from == gap_to {
                MSlice::empty()
            } else {
                slice(doc, *gap_from, *gap_to, false, sd.text).expect("gap")
            };
            if gap.open_start != 0 || gap.open_end != 0 {
                return StepVerdict::Refuse("gap not flat");
            }
            match insert_at(sl, *insert, &gap.content, sd.text) {
                None => StepVerdict::Refuse("insert position"),
                Some(_) if !sl.well_formed() => StepVerdict::Open,
                Some(_) if !gap_fits(sd, sl, *insert, &gap.content) => {
                    StepVerdict::Refuse("gap does not fit the slice")
                }
                Some(s) => lift_verdict(replace(sd, doc, *from, *to, &s)),
            }
        }
        MStep::AddMark { from, to, mark } => {
            if from > to || resolve(doc, *from).is_err() || resolve(doc, *to).is_err() {
                return StepVerdict::Refuse("position");
            }
            StepVerdict::Ok(map_marks(sd, doc, *from, *to, &|p, m| {
                if sd.types[p as usize].allow >> mark.ty & 1 == 1 {
                    mark_add(m, mark)
                } else {
                    m.clone()
                }
            }))
        }
        MStep::RemoveMark { from, to, mark } => {
            if from > to || resolve(doc, *from).is_err() || resolve(doc, *to).is_err() {
                return StepVerdict::Refuse("position");
            }
            StepVerdict::Ok(map_marks(sd, doc, *from, *to, &|_, m| mark_remove(m, mark)))
        }
    }
}

fn lift_verdict(v: Verdict) -> StepVerdict {
    match v {
        Verdict::Ok(n) => StepVerdict::Ok(n),
        Verdict::BadPos => StepVerdict::Refuse("position"),
        Verdict::TooDeep => StepVerdict::Refuse("inserted content too deep"),
        Verdict::Inconsistent => StepVerdict::Refuse("inconsistent open depths"),
        Verdict::Misfit(_) => StepVerdict::Refuse("does not fit"),
        Verdict::Malformed => StepVerdict::Open,
    }
}
