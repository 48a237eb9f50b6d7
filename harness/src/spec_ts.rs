//! A second schema, implemented here against the crate's public traits, to drive the
//! schema-generic code with shapes the Markdown schema does not have: marks on every inline node,
//! inline nodes with content, per-node mark restrictions and counted content expressions.
use crate::model::*;
use crate::spec::Spec;
use prosemirror::model::{
    ContentMatch, Fragment, Mark, MarkSet, MarkType, Node, NodeType, Schema, Text, TextNode,
};
use serde::{Deserialize, Serialize};
use std::ops::{Bound, RangeBounds};
use std::sync::OnceLock;

pub const DOC: u8 = 0;
pub const PARA: u8 = 1;
pub const TITLE: u8 = 2;
pub const CODE: u8 = 3;
pub const QUOTE: u8 = 4;
pub const SECT: u8 = 5;
pub const PAIR: u8 = 6;
pub const SOLO: u8 = 7;
pub const ROW: u8 = 8;
pub const CELL: u8 = 9;
pub const LIST: u8 = 10;
pub const ITEM: u8 = 11;
pub const BOX: u8 = 12;
pub const HR: u8 = 13;
pub const TEXT: u8 = 14;
pub const IMG: u8 = 15;
pub const BR: u8 = 16;
pub const NOTE: u8 = 17;
const N: usize = 18;

fn set(t: &[u8]) -> Rex {
    Rex::one(t.iter().fold(0, |m, t| m | 1 << t))
}

pub fn desc() -> &'static SchemaDesc {
    static D: OnceLock<SchemaDesc> = OnceLock::new();
    D.get_or_init(|| {
        let block = || set(&[PARA, TITLE, CODE, QUOTE, SECT, PAIR, SOLO, ROW, LIST, BOX, HR]);
        let inline = || set(&[TEXT, IMG, BR, NOTE]);
        let b = |name, attrs, rex: Rex, allow, shallow| TypeSpec {
            name,
            attrs,
            kind: Kind::Branch(rex),
            inline: false,
            markable: false,
            allow,
            shallow,
        };
        let l = |name, attrs, inline| TypeSpec {
            name,
            attrs,
            kind: if name == "text" { Kind::Text } else { Kind::Leaf },
            inline,
            markable: inline,
            allow: 0,
            shallow: true,
        };
        let all = 0b111111;
        // blocks that can carry marks themselves (inside parents that allow those)
        let mb = |name, attrs, rex: Rex, allow, shallow| TypeSpec { markable: true, ..b(name, attrs, rex, allow, shallow) };
        SchemaDesc {
            name: "test-schema",
            types: vec![
                b("doc", &[], Rex::plus(block()), 0, false),
                b("para", &[], Rex::star(inline()), all, true),
                b("title", &["id"], Rex::star(set(&[TEXT, IMG])), 0b000011, true),
                b("code", &["lang"], Rex::star(set(&[TEXT])), 0, true),
                mb("quote", &[], Rex::plus(block()), 0b100001, false),
                b("sect", &["id"], Rex::seq(set(&[TITLE]), Rex::star(block())), 0, false),
                b("pair", &[], Rex::seq(set(&[PARA]), Rex::opt(set(&[PARA, QUOTE]))), 0, false),
                b("solo", &[], set(&[PARA, TITLE, CODE]), 0, false),
                b("row", &[], Rex::seq(set(&[CELL]), set(&[CELL])), 0b001001, false),
                mb("cell", &["id"], Rex::plus(set(&[PARA])), 0, false),
                b("list", &["id"], Rex::plus(set(&[ITEM])), 0, false),
                b("item", &[], Rex::seq(set(&[PARA]), Rex::star(set(&[PARA, LIST]))), 0, false),
                mb("box", &[], Rex::star(block()), 0b010110, false),
                l("hr", &[], false),
                l("text", &[], true),
                l("img", &["src"], true),
                l("br", &[], true),
                TypeSpec {
                    name: "note",
                    attrs: &["id"],
                    kind: Kind::Branch(Rex::star(set(&[TEXT]))),
                    inline: true,
                    markable: true,
                    allow: 0b001101,
                    shallow: true,
                },
            ],
            text: TEXT,
            doc: DOC,
            n_marks: 6,
            mark_attrs: vec![0, 0, 0, 2, 1, 0],
        }
    })
}

pub struct TS;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct TType(pub u8);

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct TMarkType(pub u8);
impl MarkType for TMarkType {}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct TMark {
    pub ty: u8,
    pub attrs: Vec<String>,
}
impl Mark<TS> for TMark {
    fn r#type(&self) -> TMarkType {
        TMarkType(self.ty)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum TAttr {
    Int(u64),
    Bool(bool),
    Str(String),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum TNode {
    Text(TextNode<TS>),
    Leaf { ty: u8, attrs: Vec<TAttr>, marks: MarkSet<TS> },
    Branch { ty: u8, attrs: Vec<TAttr>, marks: MarkSet<TS>, content: Fragment<TS> },
}

impl From<TextNode<TS>> for TNode {
    fn from(t: TextNode<TS>) -> Self {
        TNode::Text(t)
    }
}

impl Schema for TS {
    type Mark = TMark;
    type MarkType = TMarkType;
    type Node = TNode;
    type NodeType = TType;
    type ContentMatch = TMatch;
}

/// DFA over node types, compiled from the content expressions.
struct Dfa {
    states: Vec<Rex>,
    next: Vec<[Option<u16>; N]>,
    start: [u16; N],
}
fn dfa() -> &'static Dfa {
    static D: OnceLock<Dfa> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dfa { states: vec![], next: vec![], start: [0; N] };
        fn add(d: &mut Dfa, r: Rex) -> u16 {
            if let Some(i) = d.states.iter().position(|x| *x == r) {
                return i as u16;
            }
            let i = d.states.len();
            d.states.push(r.clone());
            d.next.push([None; N]);
            for t in 0..N {
                let n = r.d(t as u8);
                if n != Rex::Nul {
                    let j = add(d, n);
                    d.next[i][t] = Some(j);
                }
            }
            i as u16
        }
        for t in 0..N {
            let r = desc().rex(t as u8);
            d.start[t] = add(&mut d, r);
        }
        d
    })
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TMatch(u16);

impl ContentMatch<TS> for TMatch {
    fn match_fragment_range<R: RangeBounds<usize>>(self, f: &Fragment<TS>, range: R) -> Option<Self> {
        let start = match range.start_bound() {
            Bound::Unbounded => 0,
            Bound::Included(x) => *x,
            Bound::Excluded(x) => x + 1,
        };
        let end = match range.end_bound() {
            Bound::Unbounded => f.child_count(),
            Bound::Included(x) => x + 1,
            Bound::Excluded(x) => *x,
        };
        let mut m = self;
        for c in &f.children()[start..end] {
            m = m.match_type(c.r#type())?;
        }
        Some(m)
    }
    fn valid_end(self) -> bool {
        dfa().states[self.0 as usize].nullable()
    }
    fn match_type(self, t: TType) -> Option<Self> {
        dfa().next[self.0 as usize][t.0 as usize].map(TMatch)
    }
}

impl NodeType<TS> for TType {
    fn compatible_content(self, other: Self) -> bool {
        desc().compat(self.0, other.0)
    }
    fn valid_content(self, f: &Fragment<TS>) -> bool {
        match self.content_match().match_fragment(f) {
            Some(m) if m.valid_end() => f
                .children()
                .iter()
                .all(|c| c.marks().map_or(true, |m| self.allow_marks(m))),
            _ => false,
        }
    }
    fn allows_mark_type(self, m: TMarkType) -> bool {
        desc().types[self.0 as usize].allow >> m.0 & 1 == 1
    }
    fn content_match(self) -> TMatch {
        TMatch(dfa().start[self.0 as usize])
    }
    fn allow_marks(self, marks: &MarkSet<TS>) -> bool {
        marks.into_iter().all(|m| self.allows_mark_type(TMarkType(m.ty)))
    }
    fn is_block(self) -> bool {
        !desc().types[self.0 as usize].inline
    }
}

impl Eq for TNode {}
impl Node<TS> for TNode {
    fn mark(&self, set: MarkSet<TS>) -> Self {
        let mut n = self.clone();
        match &mut n {
            TNode::Text(t) => t.marks = set,
            TNode::Leaf { ty, marks, .. } | TNode::Branch { ty, marks, .. } => {
                if desc().types[*ty as usize].markable {
                    *marks = set
                }
            }
        }
        n
    }
    fn copy<F>(&self, map: F) -> Self
    where
        F: FnOnce(&Fragment<TS>) -> Fragment<TS>,
    {
        match self {
            TNode::Branch { ty, attrs, marks, content } => TNode::Branch {
                ty: *ty,
                attrs: attrs.clone(),
                marks: marks.clone(),
                content: map(content),
            },
            n => n.clone(),
        }
    }
    fn text_node(&self) -> Option<&TextNode<TS>> {
        match self {
            TNode::Text(t) => Some(t),
            _ => None,
        }
    }
    fn new_text_node(node: TextNode<TS>) -> Self {
        TNode::Text(node)
    }
    fn text<A: Into<String>>(text: A) -> Self {
        TNode::Text(TextNode { marks: MarkSet::default(), text: Text::from(text.into()) })
    }
    fn content(&self) -> Option<&Fragment<TS>> {
        match self {
            TNode::Branch { content, .. } => Some(content),
            _ => None,
        }
    }
    fn marks(&self) -> Option<&MarkSet<TS>> {
        match self {
            TNode::Text(t) => Some(&t.marks),
            TNode::Leaf { marks, .. } | TNode::Branch { marks, .. } => Some(marks),
        }
    }
    fn r#type(&self) -> TType {
        match self {
            TNode::Text(_) => TType(TEXT),
            TNode::Leaf { ty, .. } | TNode::Branch { ty, .. } => TType(*ty),
        }
    }
    fn is_block(&self) -> bool {
        self.r#type().is_block()
    }
}

fn bt(a: &AV) -> TAttr {
    match a {
        AV::Int(i) => TAttr::Int(*i),
        AV::Bool(i) => TAttr::Bool(*i),
        AV::Str(i) => TAttr::Str(i.clone()),
    }
}
fn rt(a: &TAttr) -> AV {
    match a {
        TAttr::Int(i) => AV::Int(*i),
        TAttr::Bool(i) => AV::Bool(*i),
        TAttr::Str(i) => AV::Str(i.clone()),
    }
}

impl Spec for TS {
    fn desc() -> &'static SchemaDesc {
        desc()
    }
    fn build_mark(m: &MMark) -> TMark {
        TMark { ty: m.ty, attrs: m.attrs.clone() }
    }
    fn read_mark(m: &TMark) -> MMark {
        MMark { ty: m.ty, attrs: m.attrs.clone() }
    }
    fn build(n: &MNode) -> TNode {
        let attrs = || n.attrs.iter().map(bt).collect();
        match &n.body {
            Body::Text(t) => TNode::Text(TextNode {
                marks: Self::build_marks(&n.marks),
                text: Text::from(t.clone()),
            }),
            Body::Leaf => TNode::Leaf { ty: n.ty, attrs: attrs(), marks: Self::build_marks(&n.marks) },
            Body::Branch(c) => TNode::Branch {
                ty: n.ty,
                attrs: attrs(),
                marks: Self::build_marks(&n.marks),
                content: Self::build_list(c),
            },
        }
    }
    fn read(n: &TNode) -> MNode {
        match n {
            TNode::Text(t) => MNode {
                ty: TEXT,
                attrs: vec![],
                marks: Self::read_marks(&t.marks),
                body: Body::Text(t.text.as_str().to_string()),
            },
            TNode::Leaf { ty, attrs, marks } => MNode {
                ty: *ty,
                attrs: attrs.iter().map(rt).collect(),
                marks: Self::read_marks(marks),
                body: Body::Leaf,
            },
            TNode::Branch { ty, attrs, marks, content } => MNode {
                ty: *ty,
                attrs: attrs.iter().map(rt).collect(),
                marks: Self::read_marks(marks),
                body: Body::Branch(Self::read_list(content)),
            },
        }
    }
    fn node_type(ty: u8) -> TType {
        TType(ty)
    }
    fn mark_type(ty: u8) -> TMarkType {
        TMarkType(ty)
    }
}
