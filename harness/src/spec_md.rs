//! The crate's Markdown schema, as described by prosemirror-markdown.
use crate::model::*;
use crate::spec::Spec;
use prosemirror::markdown::*;
use prosemirror::model::{AttrNode, Block, Leaf, Text, TextNode};
use std::sync::OnceLock;

pub const DOC: u8 = 0;
pub const HEADING: u8 = 1;
pub const CODE: u8 = 2;
pub const TEXT: u8 = 3;
pub const QUOTE: u8 = 4;
pub const PARA: u8 = 5;
pub const UL: u8 = 6;
pub const OL: u8 = 7;
pub const LI: u8 = 8;
pub const HR: u8 = 9;
pub const BR: u8 = 10;
pub const IMG: u8 = 11;

pub const STRONG: u8 = 0;
pub const EM: u8 = 1;
pub const CODEMARK: u8 = 2;
pub const LINK: u8 = 3;

fn set(t: &[u8]) -> Rex {
    Rex::one(t.iter().fold(0, |m, t| m | 1 << t))
}

pub fn desc() -> &'static SchemaDesc {
    static D: OnceLock<SchemaDesc> = OnceLock::new();
    D.get_or_init(|| {
        let block = || set(&[PARA, QUOTE, HEADING, HR, CODE, OL, UL]);
        let inline = || set(&[TEXT, IMG, BR]);
        let b = |name, attrs, rex: Rex, allow, shallow| TypeSpec {
            name,
            attrs,
            kind: Kind::Branch(rex),
            inline: false,
            markable: false,
            allow,
            shallow,
        };
        let l = |name, attrs, inline, markable| TypeSpec {
            name,
            attrs,
            kind: if name == "text" { Kind::Text } else { Kind::Leaf },
            inline,
            markable,
            allow: 0,
            shallow: true,
        };
        SchemaDesc {
            name: "markdown",
            types: vec![
                b("doc", &[], Rex::plus(block()), 0, false),
                b("heading", &["level"], Rex::star(set(&[TEXT, IMG])), 15, true),
                b("code_block", &["params"], Rex::star(set(&[TEXT])), 0, true),
                l("text", &[], true, true),
                b("blockquote", &[], Rex::plus(block()), 0, false),
                b("paragraph", &[], Rex::star(inline()), 15, true),
                b("bullet_list", &["tight"], Rex::plus(set(&[LI])), 0, false),
                b("ordered_list", &["order", "tight"], Rex::plus(set(&[LI])), 0, false),
                b("list_item", &[], Rex::seq(set(&[PARA]), Rex::star(block())), 0, false),
                l("horizontal_rule", &[], false, false),
                l("hard_break", &[], true, false),
                l("image", &["src", "alt", "title"], true, false),
            ],
            text: TEXT,
            doc: DOC,
            n_marks: 4,
            mark_attrs: vec![0, 0, 0, 2],
        }
    })
}

pub fn int(a: &AV) -> u64 {
    match a {
        AV::Int(i) => *i,
        _ => panic!("int attr"),
    }
}
pub fn boolean(a: &AV) -> bool {
    match a {
        AV::Bool(i) => *i,
        _ => panic!("bool attr"),
    }
}
pub fn string(a: &AV) -> String {
    match a {
        AV::Str(i) => i.clone(),
        _ => panic!("str attr"),
    }
}

impl Spec for MD {
    fn desc() -> &'static SchemaDesc {
        desc()
    }
    fn build_mark(m: &MMark) -> MarkdownMark {
        match m.ty {
            STRONG => MarkdownMark::Strong,
            EM => MarkdownMark::Em,
            CODEMARK => MarkdownMark::Code,
            _ => MarkdownMark::Link {
                attrs: LinkAttrs { href: m.attrs[0].clone(), title: m.attrs[1].clone() },
            },
        }
    }
    fn read_mark(m: &MarkdownMark) -> MMark {
        let (ty, attrs) = match m {
            MarkdownMark::Strong => (STRONG, vec![]),
            MarkdownMark::Em => (EM, vec![]),
            MarkdownMark::Code => (CODEMARK, vec![]),
            MarkdownMark::Link { attrs } => (LINK, vec![attrs.href.clone(), attrs.title.clone()]),
        };
        MMark { ty, attrs }
    }
    fn build(n: &MNode) -> MarkdownNode {
        let content = || Self::build_list(n.children());
        match n.ty {
            DOC => MarkdownNode::Doc(Block { content: content() }),
            HEADING => MarkdownNode::Heading(AttrNode {
                attrs: HeadingAttrs { level: int(&n.attrs[0]) as u8 },
                content: content(),
            }),
            CODE => MarkdownNode::CodeBlock(AttrNode {
                attrs: CodeBlockAttrs { params: string(&n.attrs[0]) },
                content: content(),
            }),
            TEXT => MarkdownNode::Text(TextNode {
                marks: Self::build_marks(&n.marks),
                text: Text::from(match &n.body {
                    Body::Text(t) => t.clone(),
                    _ => panic!("text body"),
                }),
            }),
            QUOTE => MarkdownNode::Blockquote(Block { content: content() }),
            PARA => MarkdownNode::Paragraph(Block { content: content() }),
            UL => MarkdownNode::BulletList(AttrNode {
                attrs: BulletListAttrs { tight: boolean(&n.attrs[0]) },
                content: content(),
            }),
            OL => MarkdownNode::OrderedList(AttrNode {
                attrs: OrderedListAttrs { order: int(&n.attrs[0]) as usize, tight: boolean(&n.attrs[1]) },
                content: content(),
            }),
            LI => MarkdownNode::ListItem(Block { content: content() }),
            HR => MarkdownNode::HorizontalRule,
            BR => MarkdownNode::HardBreak,
            IMG => MarkdownNode::Image(Leaf {
                attrs: ImageAttrs {
                    src: string(&n.attrs[0]),
                    alt: string(&n.attrs[1]),
                    title: string(&n.attrs[2]),
                },
            }),
            _ => panic!("type"),
        }
    }
    fn read(n: &MarkdownNode) -> MNode {
        let br = |ty, attrs, c| MNode { ty, attrs, marks: vec![], body: Body::Branch(Self::read_list(c)) };
        let leaf = |ty, attrs| MNode { ty, attrs, marks: vec![], body: Body::Leaf };
        match n {
            MarkdownNode::Doc(b) => br(DOC, vec![], &b.content),
            MarkdownNode::Heading(b) => br(HEADING, vec![AV::Int(b.attrs.level as u64)], &b.content),
            MarkdownNode::CodeBlock(b) => br(CODE, vec![AV::Str(b.attrs.params.clone())], &b.content),
            MarkdownNode::Text(t) => MNode {
                ty: TEXT,
                attrs: vec![],
                marks: Self::read_marks(&t.marks),
                body: Body::Text(t.text.as_str().to_string()),
            },
            MarkdownNode::Blockquote(b) => br(QUOTE, vec![], &b.content),
            MarkdownNode::Paragraph(b) => br(PARA, vec![], &b.content),
            MarkdownNode::BulletList(b) => br(UL, vec![AV::Bool(b.attrs.tight)], &b.content),
            MarkdownNode::OrderedList(b) => {
                br(OL, vec![AV::Int(b.attrs.order as u64), AV::Bool(b.attrs.tight)], &b.content)
            }
            MarkdownNode::ListItem(b) => br(LI, vec![], &b.content),
            MarkdownNode::HorizontalRule => leaf(HR, vec![]),
            MarkdownNode::HardBreak => leaf(BR, vec![]),
            MarkdownNode::Image(l) => leaf(
                IMG,
                vec![
                    AV::Str(l.attrs.src.clone()),
                    AV::Str(l.attrs.alt.clone()),
                    AV::Str(l.attrs.title.clone()),
                ],
            ),
        }
    }
    fn node_type(ty: u8) -> MarkdownNodeType {
        use MarkdownNodeType::*;
        [
            Doc, Heading, CodeBlock, Text, Blockquote, Paragraph, BulletList, OrderedList, ListItem,
            HorizontalRule, HardBreak, Image,
        ][ty as usize]
    }
    fn mark_type(ty: u8) -> MarkdownMarkType {
        use MarkdownMarkType::*;
        [Strong, Em, Code, Link][ty as usize]
    }
}
