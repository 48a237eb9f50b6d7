#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

M='src/model/'; T='src/transform/'; K='src/markdown/'
p('C01','Resolved positions agree with the document tree',
  'For every document, every position from 0 to the size of its content resolves (except one inside a UTF-16 surrogate pair) and every other position is refused with an error, never a crash. A resolved position names the exact chain of enclosing nodes, and at every level its child index, index after, start, end, before and after positions, the (text-cut) node before and after it, and the depth it shares with any other position are what counting the document\'s tokens gives.',
  ['inputs'],'all documents of a schema (any nesting, any text incl. non-BMP, leaf roots), all positions, all pairs of positions for shared depth',
  'test_resolve checks 13 positions of one ASCII document; nothing reaches astral text, leaf nodes, empty blocks, deep nesting or out-of-range positions.',
  [M+'resolved_pos.rs',M+'fragment.rs'],[('ResolvedPos::resolve walk',M+'resolved_pos.rs'),('Fragment::find_index',M+'fragment.rs')],
  [('path','ancestor chain with index and offset per level',M+'resolved_pos.rs')],['Node::resolve','ResolvedPos accessors'])
p('C02','Node and fragment sizes always equal their token count',
  'The size reported for any node or fragment equals the number of positions it spans: UTF-16 code units for text, 1 for other leaves, content plus 2 for everything else; a fragment\'s size is the sum over its children. This holds however the value was produced: built, parsed from JSON, cut, sliced, appended, child-replaced, changed by a step, or read from Markdown.',
  ['inputs','histories'],'all documents and all sequences of operations producing nodes or fragments',
  'test_size checks a handful of literal documents; the cached sizes kept by cut, append, replace_child and the step machinery are never compared with a recount.',
  [M+'fragment.rs',M+'node.rs',M+'schema.rs'],[('cached Fragment::size maintained by each operation',M+'fragment.rs'),('Text::len_utf16 cache',M+'node.rs')],
  [('Fragment.size','cached sum of child sizes',M+'fragment.rs'),('Text.len_utf16','cached UTF-16 length',M+'node.rs')],['Node::node_size','Fragment::size','Node::content_size'])
p('C03','Cutting and slicing return exactly the requested range',
  'Cutting a node or fragment between two positions keeps exactly the content between them, with the enclosing nodes\' types and attributes and the text\'s marks unchanged. Slicing a document gives content and open depths which, once the open sides are stripped, are exactly the document\'s tokens between the two positions; open depths are counted from the deepest node containing both ends (from the root when parents are requested), an open-ended range runs to the end of the content, an empty range gives the empty slice, and a range that is reversed or outside the document is refused with an error.',
  ['inputs'],'all documents, all position pairs, all range forms (a..b, a.., ..b, ..), both parent modes',
  'slicing is exercised only as a helper of about 20 replace tests, always with explicit in-range bounds in ASCII text.',
  [M+'node.rs',M+'fragment.rs',M+'util.rs'],[('Node::cut / Fragment::cut',M+'fragment.rs'),('Node::slice via resolve and shared_depth',M+'node.rs')],(),['Node::slice','Node::cut','Fragment::cut'])
p('C04','Replace splices exactly the slice into exactly the range',
  'Whenever replacing a range of a document by a slice succeeds, the result is exactly: everything before the range, then the slice\'s content without its open starts and ends, then everything after the range; every node that continues across a seam keeps the type and attributes of its left part. Nothing outside the range changes, no slice content is lost, duplicated or reordered, and the size changes by the slice size minus the range length.',
  ['inputs'],'all valid documents, all position pairs (and open-ended ranges), all well-formed slices: cut from the same or another document, or hand-built with any open depths',
  'about 20 fixed examples from the original test-suite, all short ASCII paragraphs; most combinations of depth, open sides, text offsets and sibling counts are never run.',
  [M+'replace.rs',M+'node.rs'],[('replace_outer / replace_two_way / replace_three_way',M+'replace.rs'),('add_range / add_node seams',M+'replace.rs')],(),['Node::replace','ReplaceStep::apply'])
p('C05','Replace accepts a slice exactly when it fits',
  'Replacing succeeds if and only if the range runs forward inside the document, the slice is not opened deeper than the position, both open depths lead to the same level, every pair of nodes joined across a seam is joinable (same type, or contents that can start with a common type), and every node so rebuilt has content and marks its schema allows. Otherwise it is refused with an error whose kind names a condition that really fails, so a document that was valid is never turned into an invalid one.',
  ['inputs'],'all valid documents, all ranges, all well-formed slices whose closed nodes are valid, over the Markdown schema and other schemas',
  'six fixed rejection examples; no test shows that an accepted replacement is valid, nor that a fitting one is always accepted.',
  [M+'replace.rs',K+'schema.rs',K+'content.rs'],[('depth checks in replace',M+'replace.rs'),('check_join / joinable',M+'replace.rs'),('close validates content',M+'replace.rs'),('valid_content',K+'schema.rs')],(),['Node::replace','ReplaceStep::apply'])
p('C06','Replacing is reversible',
  'Replacing any range of a valid document by the slice cut from that same range gives back an equal document. After any successful replacement, replacing the inserted range by the slice cut from the original document\'s range succeeds and restores a document equal to the original.',
  ['inputs','histories'],'all valid documents, ranges and fitting slices; chains of edits undone in reverse order',
  'no test applies an inverse; undo correctness depends on slice and replace agreeing on depths at every position pair.',
  [M+'node.rs',M+'replace.rs'],[('Node::slice open depths',M+'node.rs'),('Node::replace',M+'replace.rs')],(),['Node::slice','Node::replace'])
p('C07','Replace-around keeps the gap and rewrites only what surrounds it',
  'A successful replace-around step yields exactly the document with the range replaced by the step\'s slice into which the gap\'s content has been inserted, unchanged, at the insert position. A gap that is not flat is refused, and so are an insert position outside the slice and a gap that the slice node receiving it cannot hold; where the resulting slice fits, the step succeeds.',
  ['inputs'],'all valid documents, ranges, gaps inside them, slices and insert positions: wrapping, lifting, retyping and random ones',
  'no test applies a replace-around step at all.',
  [T+'replace_step.rs',M+'replace.rs'],[('ReplaceAroundStep::apply',T+'replace_step.rs'),('Slice::insert_at / insert_into',M+'replace.rs')],(),['ReplaceAroundStep::apply','Step::apply'])
p('C08','Structural steps never overwrite content',
  'A replace or replace-around step marked as structural is refused whenever the part of the document it would delete (for replace-around: on either side of the gap) contains anything other than closing tokens followed by opening tokens. When those parts contain only such tokens, the structural step behaves exactly like the same step without the mark.',
  ['inputs'],'all documents, all ranges (including ends inside text), all gaps',
  'the structure flag is only ever false in the tests.',
  [T+'replace_step.rs'],[('content_between',T+'replace_step.rs')],(),['ReplaceStep::apply','ReplaceAroundStep::apply'])
p('C09','Adding a mark changes exactly the marks it should',
  'Applying an add-mark step over any in-range span of a valid document succeeds and adds the mark to every piece of inline content in the span whose parent allows that mark and which can carry marks, replacing only a mark of the same type and keeping all other marks. Text outside the span, content in parents that disallow the mark, the characters and the node structure are unchanged, and applying the step again changes nothing.',
  ['inputs'],'all valid documents, all spans (partial text, across blocks, lists and code blocks), all marks including links with different attributes',
  'one test, on one unmarked paragraph.',
  [T+'mark_step.rs',M+'marks.rs',K+'mod.rs'],[('map_fragment_parent',T+'mark_step.rs'),('Mark::add_to_set',M+'marks.rs'),('Node::marks / Node::mark',K+'mod.rs')],(),['AddMarkStep::apply','Step::apply'])
p('C10','Removing a mark changes exactly the marks it should',
  'Applying a remove-mark step over any in-range span of a valid document succeeds and removes exactly that mark (same type and attributes) from all inline content in the span. Every other mark, content outside the span, the characters and the node structure are unchanged; removing a mark that is nowhere in the span changes nothing, and removing a mark just added to a span that had none of its type restores the document.',
  ['inputs'],'all valid documents, all spans, all marks including links that differ only in attributes',
  'no test applies a remove-mark step.',
  [T+'mark_step.rs',M+'marks.rs'],[('map_fragment',T+'mark_step.rs'),('Mark::remove_from_set',M+'marks.rs')],(),['RemoveMarkStep::apply','Step::apply'])
p('C11','Mark sets behave as ordered sets with one mark per type',
  'Under any sequence of additions and removals a mark set holds at most one mark per type, in the schema\'s mark-type order, where adding replaces the mark of the same type and removing takes out only that exact mark; membership, iteration and equality follow from the contents, not the order of operations. The by-value and the in-place operations agree, never change the set they were given a reference to, and reading a set from JSON sorts it and refuses duplicate types.',
  ['inputs','histories'],'all sequences of add/remove over all marks (same type, different attributes included), all JSON mark arrays',
  'no test exercises MarkSet directly.',
  [M+'marks.rs'],[('binary search by type',M+'marks.rs'),('TryFrom<Vec<Mark>> on deserialize',M+'marks.rs')],[('MarkSet.content','marks sorted by type',M+'marks.rs')],['MarkSet::{add,remove,contains,into_iter}','Mark::{add_to_set,remove_from_set,into_set}'])
p('C12','Documents survive JSON in the ProseMirror format',
  'Writing any document as JSON and reading it back gives an equal document, and the JSON has the ProseMirror shape: type names, attribute names, text, marks and content as a ProseMirror peer writes and reads them. JSON as a peer writes it (optional fields absent or null, marks in any order, keys in any order) is read as the same document, and malformed JSON is refused with an error.',
  ['inputs'],'all documents, all node and mark types and attribute values, all texts, and JSON variants and mutations',
  'two literal snippets are parsed and none is written.',
  [K+'mod.rs',K+'attrs.rs',M+'schema.rs',M+'fragment.rs','src/de.rs'],[('serde derives with tag/rename attributes',K+'mod.rs'),('Fragment from Vec recomputes size',M+'fragment.rs'),('deserialize_or_default','src/de.rs')],(),['serde_json to/from MarkdownNode'])
p('C13','Steps and slices survive JSON in the ProseMirror format',
  'Writing any step as JSON and reading it back gives an equal step that does the same to every document, and the JSON has the ProseMirror shape (stepType, from, to, gapFrom, gapTo, insert, slice with openStart and openEnd, structure, mark). Steps as a peer writes them, with defaulted fields left out, are read as the same step.',
  ['inputs'],'all four step kinds, all field values, all slices and marks',
  'two literal steps are parsed; none is written, and replace-around and remove-mark steps never appear.',
  [T+'mod.rs',T+'replace_step.rs',T+'mark_step.rs',T+'util.rs',M+'replace.rs'],[('serde derives on Step, Slice, Span',T+'mod.rs')],(),['serde_json to/from Step'])
p('C14','Applying any step ends in a document or an error, never a crash',
  'For every document and every step that can be read from JSON, however hostile (reversed, huge or out-of-range positions, positions inside a character, open depths deeper than the content, gaps outside the range, invalid or empty content), applying the step returns a document or an error. It never panics, overflows or fails to return, and a failed step leaves the authority\'s document as it was.',
  ['inputs','fault_sequences'],'all step values representable in JSON against all documents up to moderate nesting',
  'every test applies a well-formed step; the rejection tests only use well-formed slices with in-range positions.',
  [T+'replace_step.rs',T+'mark_step.rs',M+'replace.rs',M+'node.rs',M+'resolved_pos.rs',M+'util.rs'],[('error returns for bad positions and depths',M+'node.rs'),('ResolvedPos::resolve range check',M+'resolved_pos.rs')],(),['Step::apply'])
p('C15','Traversal and text extraction visit exactly the requested content',
  'Visiting the nodes between two positions calls back, in document order and exactly once with the right start position, for every node that overlaps the range, skipping the inside of nodes for which the callback returns false. Extracting text between two positions yields exactly the characters in the range, with the leaf text (if any) for each non-text leaf and one block separator wherever a block starts after text or a leaf; the text content of a node is all its characters.',
  ['inputs'],'all documents, all position pairs on character boundaries, all callback decisions, all separator and leaf-text choices',
  'text_content is only called on bare text nodes and the range forms never.',
  [M+'fragment.rs',M+'node.rs'],[('Fragment::nodes_between',M+'fragment.rs'),('Fragment::text_between',M+'fragment.rs')],(),['Fragment::nodes_between','Fragment::text_between','Node::text_content'])
p('C16','Reading Markdown gives a faithful, valid document or an error',
  'For every input text, reading Markdown returns an error (only when the text uses something the schema cannot express) or a document that is valid for the schema, has no empty or needlessly split text, and says exactly what the Markdown parser found: the same blocks, nesting and attributes, the same text and marks, and images with their source, title and alternative text (an empty paragraph stands in where the schema demands one). It never crashes.',
  ['inputs'],'all strings: generated CommonMark of every construct, mutations of it, and arbitrary text',
  'the only test checks the third-party parser\'s event list; the conversion itself is never run.',
  [K+'from_markdown.rs',K+'attrs.rs'],[('MarkdownDeserializer stack machine',K+'from_markdown.rs')],[('stack','open containers with their content',K+'from_markdown.rs'),('mark_set','marks currently open',K+'from_markdown.rs')],['markdown::from_markdown'])
p('C17','Writing Markdown and reading it back preserves the document',
  'Writing any schema-valid document as Markdown succeeds without crashing. For documents that Markdown can express unambiguously (plain words as text, marks on whole words, no adjacent lists), reading the written text back gives a document with the same blocks, order, attributes, text, marks, links and images; only list tightness may differ.',
  ['inputs'],'all schema-valid documents for totality; all documents of the expressible subset (all block types, nesting, mark overlaps, links, images) for the round trip',
  'one document with one mark is written and compared with a literal.',
  [K+'to_markdown.rs',K+'from_markdown.rs'],[('MarkdownSerializer event stream with mark stack',K+'to_markdown.rs')],[('marks','stack of marks currently open in the output',K+'to_markdown.rs')],['markdown::to_markdown','markdown::from_markdown'])
p('C18','Content matching decides the content expressions',
  'For every node type, a sequence of children is accepted as content exactly when it is a word of that type\'s content expression and its marks are allowed there; matching in pieces gives the same result as matching at once, and a match state is a valid end exactly when nothing more is required. Whether a range of children can be replaced, and whether two types can be joined, is answered accordingly.',
  ['inputs'],'all node types, all child sequences and sub-ranges, all mark sets, all pairs of types',
  'validity is only touched through two rejection tests.',
  [K+'content.rs',K+'schema.rs',M+'node.rs',M+'content.rs'],[('MarkdownContentMatch state machine',K+'content.rs'),('valid_content / compatible_content',K+'schema.rs'),('Node::can_replace / content_match_at',M+'node.rs')],(),['NodeType::valid_content','ContentMatch','Node::can_replace'])
p('C19','Operations are pure: same inputs, same result, on any thread, in any order',
  'Documents, slices and steps are never changed by using them, and the result of resolving, slicing, replacing, applying a step, or converting to or from JSON or Markdown depends only on its arguments: not on earlier calls, on other documents, on object addresses, or on what other threads do with the same shared document at the same time. Sharing documents between threads involves no data race.',
  ['schedules','histories'],'all interleavings of operations from several threads on shared documents, and all call histories before an operation',
  'tests run each operation once, on its own document, from one thread.',
  ['src/model/','src/transform/','src/markdown/'],[('values are immutable behind & references; no global state','src/model/')],(),['all public operations'])
p('C20','Any editing history keeps documents valid, canonical and convergent',
  'Starting from a valid document, along any sequence of steps, each applied step leaves a document that is valid for its schema and canonical (no empty text, no adjacent text with equal marks) when the step\'s own content is, and each refused step leaves it as it was. A replica that receives the same steps as JSON, or joins from a JSON snapshot at any version, holds an equal document at every version.',
  ['histories'],'all sequences of editing steps (typing, deleting, splitting, joining, wrapping, lifting, retyping, marking, pasting) and all snapshot points',
  'no test applies two steps in a row.',
  ['src/transform/','src/model/'],[('add_node / append join equal text','src/model/replace.rs'),('close validates rebuilt nodes','src/model/replace.rs'),('mark steps map fragments','src/transform/mark_step.rs')],(),['Step::apply','serde_json'])
p('C21','Fragment operations are exact',
  'Appending two fragments gives the children of the first followed by those of the second, merging only the two texts that meet at the seam and only when their marks are equal. Replacing a child changes that child alone; child access, first and last child, counts, the empty fragment, and conversion from and to a list of nodes agree with the children.',
  ['inputs'],'all pairs of fragments (empty, text at either side of the seam, equal or different marks), all child indices',
  'append and replace_child are only run inside the replace examples.',
  [M+'fragment.rs'],[('Fragment::append seam merge',M+'fragment.rs'),('Fragment::replace_child',M+'fragment.rs')],[('Fragment.inner','children',M+'fragment.rs')],['Fragment API'])
p('C22','Text is counted in UTF-16 units and never corrupted',
  'The length of any text is the number of its UTF-16 code units, joining texts concatenates them and adds the lengths, and every operation that cuts text at positions counts in those units, so that a position means the same as in a JavaScript peer. Characters outside the basic plane are never split, altered or lost: a document position inside such a character is refused with an error.',
  ['inputs'],'all Unicode strings and all cut points, alone and inside documents',
  'no test contains a character outside ASCII.',
  [M+'util.rs',M+'node.rs',M+'resolved_pos.rs'],[('split_at_utf16',M+'util.rs'),('Text::from / Text::join',M+'node.rs')],[('Text.len_utf16','cached UTF-16 length',M+'node.rs')],['Text','Node::cut','Node::replace','Node::slice','Node::resolve'])
p('C23','Nodes and marks say what they are, and are equal exactly when alike',
  'For every node, its type, whether it is block or inline, text or leaf, its content, children, text and marks are those it was built with. Copying it with other content changes only the content, giving it marks changes only its marks (and nothing on a node that carries none), and the original stays as it was; the constructor helpers build exactly the node they name. Two nodes, fragments, marks or mark sets are equal exactly when type, attributes, marks, text and children are all equal: a clone is equal, and any single difference anywhere makes them unequal.',
  ['inputs'],'all nodes of both schemas (any shape, any attributes, any marks), and all pairs of nodes that differ in one place',
  'tests compare a few hand-written documents, nearly always equal ones; an equality that ignored an attribute would pass them all.',
  ['src/markdown/mod.rs','src/markdown/schema.rs','src/model/node.rs','src/model/schema.rs','src/markdown/helper.rs'],[('Node accessors',M+'node.rs'),('MarkdownNode','src/markdown/mod.rs'),('helper constructors','src/markdown/helper.rs')],[],['Node','Block::copy','AttrNode::copy','TextNode::same_markup','TextNode::with_text','markdown::helper'])
p('C24','Every refusal names what is wrong',
  'Whenever resolving a position, slicing, replacing, applying a step or reading Markdown is refused, the error names a condition that really fails for that very call, and what it carries is right: a position that was asked for and is outside the document, inside a character or the end of a reversed range; the open depths and position depths of the call; the types of two nodes that cannot be joined; the type of a rebuilt node whose content is not allowed; a gap that is not flat or does not fit, content a structural step would overwrite, an insert position outside the slice; a Markdown construct that stands in the text. Which of several failing conditions is named is left open. Errors can be shown as text and lead to their cause, and the refused call leaves document, slice and step as they were.',
  ['inputs'],'all documents, positions, ranges, slices and steps that are refused (bad positions, reversed ranges, wrong depths, misfits at any level, structural overwrites, bad gaps), and all Markdown texts with constructs the schema has no place for',
  'the tests compare the kind of six errors of replace; no test reads what an error carries, nor any error of a step or of reading Markdown.',
  [M+'replace.rs',M+'resolved_pos.rs',M+'node.rs',T+'step.rs',T+'replace_step.rs',K+'from_markdown.rs'],[('ReplaceError and its construction',M+'replace.rs'),('ResolveErr',M+'resolved_pos.rs'),('StepError',T+'step.rs'),('FromMarkdownError',K+'from_markdown.rs')],(),['Node::resolve','Node::slice','Node::replace','Step::apply','from_markdown'])
p('C25','Operations keep nothing and stay within their means',
  'After an operation has ended and its result is dropped, the memory it used is free again, whether it succeeded or was refused: what the library keeps does not grow with the number of different operations on different documents that went before. While it runs, an operation needs memory in proportion to the documents, slices and texts it is given and gives back, never in proportion to numbers that stand inside a step, a slice or JSON; and a result holds memory in proportion to its own content and that of its inputs.',
  ['inputs','histories'],'all operations (resolve, slice, cut, replace, steps, marks, JSON and Markdown in both directions, fragments, texts) on documents of any size, with hostile numbers, in histories of any length',
  'tests never measure memory and each runs one operation; a cache that only grows, a leak on an error path or a buffer sized by an attacker\'s number passes them all.',
  ['src/'],[('no global state, no caches','src/'),('buffers sized by content',M+'fragment.rs'),('open depths and positions of steps',T+'replace_step.rs')],(),['all public operations'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
print(len(P))
