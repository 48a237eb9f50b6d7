//! Bridges between the oracle's trees and the library's nodes, per schema.
use crate::model::*;
use prosemirror::model::{Fragment, MarkSet, Schema, Slice};
use prosemirror::transform::{AddMarkStep, RemoveMarkStep, ReplaceAroundStep, ReplaceStep, Span, Step};

pub trait Spec: Schema + Sized {
    fn desc() -> &'static SchemaDesc;
    fn build(n: &MNode) -> Self::Node;
    fn read(n: &Self::Node) -> MNode;
    fn build_mark(m: &MMark) -> Self::Mark;
    fn read_mark(m: &Self::Mark) -> MMark;
    fn node_type(ty: u8) -> Self::NodeType;
    fn mark_type(ty: u8) -> Self::MarkType;

    fn build_marks(m: &Marks) -> MarkSet<Self> {
        let mut s = MarkSet::<Self>::default();
        for x in m {
            s.add(&Self::build_mark(x));
        }
        s
    }
    fn read_marks(s: &MarkSet<Self>) -> Marks {
        s.into_iter().map(|m| Self::read_mark(m)).collect()
    }
    fn build_list(c: &[MNode]) -> Fragment<Self> {
        Fragment::from(c.iter().map(|x| Self::build(x)).collect::<Vec<_>>())
    }
    fn read_list(f: &Fragment<Self>) -> Vec<MNode> {
        f.children().iter().map(|x| Self::read(x)).collect()
    }
    fn build_slice(s: &MSlice) -> Slice<Self> {
        Slice::new(Self::build_list(&s.content), s.open_start, s.open_end)
    }
    fn read_slice(s: &Slice<Self>) -> MSlice {
        MSlice { content: Self::read_list(&s.content), open_start: s.open_start, open_end: s.open_end }
    }
    fn build_step(s: &MStep) -> Step<Self> {
        match s {
            MStep::Replace { from, to, slice, structure } => Step::Replace(ReplaceStep {
                span: Span { from: *from, to: *to },
                slice: Self::build_slice(slice),
                structure: *structure,
            }),
            MStep::Around { from, to, gap_from, gap_to, slice, insert, structure } => {
                Step::ReplaceAround(ReplaceAroundStep {
                    span: Span { from: *from, to: *to },
                    gap_from: *gap_from,
                    gap_to: *gap_to,
                    slice: Self::build_slice(slice),
                    insert: *insert,
                    structure: *structure,
                })
            }
            MStep::AddMark { from, to, mark } => Step::AddMark(AddMarkStep {
                span: Span { from: *from, to: *to },
                mark: Self::build_mark(mark),
            }),
            MStep::RemoveMark { from, to, mark } => Step::RemoveMark(RemoveMarkStep {
                span: Span { from: *from, to: *to },
                mark: Self::build_mark(mark),
            }),
        }
    }
    fn show(n: &MNode) -> String {
        Self::desc().show(n)
    }
}
