prop("C04", "Operations never modify their inputs and keep no hidden state",
     "No operation modifies the document, content list, slice, step or marks it is given through a shared reference, "
     "and none reads or writes state outside its arguments. The result of every operation is a function of its "
     "arguments alone, so documents can be shared between threads and histories.",
     ["inputs", "schedules", H], "every public operation, called concurrently or repeatedly on shared documents",
     "A test sees one call on one thread; interior mutability, statics or unsafe aliasing only show under sharing.",
     ["src/lib.rs", "src/model/fragment.rs", "src/model/node.rs", "src/model/marks.rs", "src/model/replace.rs", "src/transform/step.rs"],
     [("whole crate", "src/lib.rs (every function and every type definition)")])

prop("C05", "An accepted replace leaves every changed node's content schema-valid",
     "When a replacement succeeds, every node whose child list was assembled anew (the innermost node around the range, "
     "and every node opened by the range or the slice) has had that list accepted by its type's content rule: the content "
     "expression to its end, and the marks of every child. Nodes further out only exchange one child for a rebuilt one of "
     "the same type and marks. A replacement that would leave any of them with content or marks its type does not allow "
     "fails instead.",
     [I], "every document, range and slice",
     "The suite tries about twenty replacements; validity must hold at every depth of every splice.",
     ["src/model/replace.rs", "src/model/schema.rs"],
     [("closing nodes", "src/model/replace.rs close"), ("content rule", "src/model/schema.rs NodeType::{valid_content,check_content}")])

prop("C06", "A failure inside an operation is never swallowed",
     "When resolving a position, slicing, fitting a slice, replacing or checking content fails inside an operation, the "
     "operation reports failure; it never returns a document as if it had succeeded. Steps "
     "either apply completely or return an error and leave the given document untouched.",
     [I, "fault_sequences"], "every operation, at every point where an inner operation can fail",
     "Each inner failure must be provoked at each call site; the suite provokes a handful of replace errors.",
     ["src/transform/replace_step.rs", "src/transform/mark_step.rs", "src/model/replace.rs", "src/model/node.rs"],
     [("steps", "src/transform/step.rs Step::apply, replace_step.rs, mark_step.rs"),
      ("replace", "src/model/replace.rs replace and its helpers")])

prop("C07", "The JSON wire format is ProseMirror's",
     "Nodes, marks, slices and steps use exactly the field names, tags and defaults of ProseMirror's JSON, and "
     "writing is symmetric to reading: each field written is read back under the same name, and a field left out when "
     "it has its default value is one that reads back as that default.",
     [I], "every node, mark, slice and step value",
     "The tests parse three literals and never serialise a document; every field of every variant needs its name and default checked.",
     ["src/model/node.rs", "src/model/fragment.rs", "src/model/replace.rs", "src/transform/step.rs",
      "src/transform/replace_step.rs", "src/transform/mark_step.rs", "src/markdown/schema.rs", "src/markdown/attrs.rs"],
     [("derived serialisers", "serde derives and attributes on the listed types"), ("span default", "src/transform/util.rs")])

prop("C08", "Content matching agrees with each node type's content expression",
     "For every node type of the markdown schema, matching a child list accepts exactly the lists its content expression "
     "describes, and rejects all others; partial matches and end-of-content checks agree with the same expression. "
     "Two types are join-compatible exactly when their expressions share a possible first child, and each type allows exactly its marks.",
     [I, C], "every node type and every sequence of child types",
     "The suite checks a few sequences for two node types; the language of every type is an infinite set of sequences.",
     ["src/markdown/content.rs", "src/markdown/schema.rs", "src/model/content.rs", "src/model/schema.rs"],
     [("automaton", "src/markdown/content.rs MarkdownContentMatch::{match_type,match_fragment_range,valid_end,compatible}"),
      ("start states and marks", "src/markdown/schema.rs MarkdownNodeType::{content_match,compatible_content,allow_marks}")])

prop("C09", "Copies keep type, attributes and marks; conversions are exact",
     "Copying a node with new content, replacing its marks, cloning it, or building one from a type keeps its type, "
     "every attribute, and (unless replaced) its marks. The type, the content, the text and the marks an accessor "
     "reports are those of that very node, for every node kind.",
     [I], "every node of every kind with every attribute value",
     "Tests copy only plain blocks; an attribute dropped for one of the dozen node kinds is invisible to them.",
     ["src/markdown/schema.rs", "src/markdown/mod.rs", "src/model/node.rs"],
     [("node constructors and accessors", "src/markdown/mod.rs impl Node for MarkdownNode"),
      ("kinds", "src/markdown/schema.rs MarkdownNodeType, MarkdownMark")])

prop("C10", "A position resolves to exactly the path of nodes that contains it",
     "Resolving a position yields, for every depth, the node, child index and start that contain the position, and an "
     "error exactly when the position lies outside the document. Every accessor (node, index, start, end, before, after, "
     "offset, neighbouring nodes, shared depth) reports the value those definitions give at each depth.",
     [I], "every document and every position",
     "One small document is resolved in the suite; accessors at other depths and boundaries are never called.",
     ["src/model/resolved_pos.rs", "src/model/fragment.rs", "src/model/node.rs"],
     [("resolution", "src/model/resolved_pos.rs ResolvedPos::resolve"), ("index lookup", "src/model/fragment.rs Fragment::find_index"),
      ("accessors", "src/model/resolved_pos.rs ResolvedPos::*")])

prop("C11", "Structural steps refuse to delete content",
     "A replace or replace-around step flagged as structural applies only if the ranges it deletes contain nothing but "
     "node boundaries: whenever any leaf, text or closed node content lies between the two ends, it fails. Without the flag, "
     "the check does not run.",
     [I], "every document, step and flag value",
     "No test sets the flag; the check walks arbitrary nesting.",
     ["src/transform/replace_step.rs"],
     [("boundary walk", "src/transform/replace_step.rs content_between"), ("flag", "src/transform/replace_step.rs apply")])

prop("C12", "Mark steps change marks on exactly the inline nodes in their range",
     "Adding or removing a mark over a range changes only the marks of inline nodes inside the range; types, attributes, "
     "text and structure stay the same, the rest of the document is untouched, and the mark is added only where the "
     "parent type allows it. Applying the step covers exactly the characters between its two positions.",
     [I], "every document, range and mark",
     "The suite applies two mark steps on one document.",
     ["src/transform/mark_step.rs", "src/model/fragment.rs"],
     [("mark steps", "src/transform/mark_step.rs AddMarkStep, RemoveMarkStep, map_fragment")])

prop("C13", "Adjacent text nodes with equal markup are always joined",
     "When replacing, deleting, inserting, appending a fragment, changing marks or importing markdown puts two text nodes "
     "next to each other that have the same marks, the result holds one "
     "text node with the concatenated text; text nodes whose markup differs are never joined, and joining never loses, repeats or reorders characters.",
     [I, H], "every operation that concatenates child lists",
     "Depends on the marks on both sides of every seam; tests only see seams of unmarked text.",
     ["src/model/fragment.rs", "src/model/replace.rs", "src/transform/mark_step.rs"],
     [("seams", "src/model/fragment.rs Fragment::append, src/model/replace.rs add_node")])

prop("C14", "Slicing and cutting return exactly the requested range",
     "Cutting content or slicing a document between two positions returns exactly the tokens between them: whole children "
     "inside, partly covered ones cut at the ends, nothing else. The open depths of a slice are the depths of its ends "
     "below the deepest shared node (or the root on request).",
     [I], "every document and range",
     "Only a couple of flat ranges are sliced in the suite.",
     ["src/model/fragment.rs", "src/model/node.rs", "src/model/replace.rs"],
     [("cut", "src/model/fragment.rs Fragment::cut, src/model/node.rs Node::cut"), ("slice", "src/model/node.rs Node::slice")])

prop("C15", "No operation panics on positions taken from a client",
     "Resolving a position, taking a slice, replacing a range, inserting into a slice and applying a step never panic, "
     "overflow or index out of bounds, whatever positions, open depths and insertion points they are given (for example "
     "from a client's JSON): numbers that do not fit the document are reported as errors. (Excepted: positions between "
     "the two UTF-16 halves of one character.)",
     [I], "every document and every combination of numbers in a step, slice or range",
     "The space of positions and open depths is unbounded; the suite uses numbers that fit.",
     ["src/transform/replace_step.rs", "src/model/replace.rs", "src/model/resolved_pos.rs", "src/model/node.rs"],
     [("entry points", "src/transform/step.rs Step::apply; src/model/node.rs Node::resolve, slice, replace"),
      ("depth checks", "src/model/replace.rs replace, replace_outer, prepare_slice_for_replace"),
      ("neighbours", "src/model/resolved_pos.rs ResolvedPos::node_before, node_after")])

prop("C16", "Markdown import keeps every construct it accepts and rejects the rest",
     "Every construct the markdown parser reports that has a counterpart in the schema (paragraph, heading, block quote, "
     "code block, numbered and plain list, list item, image, emphasis, strong, link, text, inline code, hard break, rule) "
     "is turned into that node or mark, with its text and attributes (level, info string, first number, source, title, "
     "target, description). Any other construct (tables, footnotes, strikethrough, HTML, soft breaks, task markers) makes "
     "the import fail; none is silently dropped. Every opened node is closed around exactly the content reported inside "
     "it (a code block without its final newline); a mark is on exactly the texts reported between its start and its end.",
     [I], "every markdown text",
     "Each combination of event and open block is a separate path; the suite imports one document.",
     ["src/markdown/from_markdown.rs"],
     [("event loop", "src/markdown/from_markdown.rs from_markdown, MarkdownDeserializer::deserialize")])

prop("C17", "Markdown export emits every node, mark and attribute",
     "Exporting a document hands the markdown writer the events of every node in document order, each with its kind, heading level, "
     "code block info string, first list number, image or link target and title, and image description; every opened node and mark "
     "is closed exactly once, marks are open around exactly the runs of text that carry them, inline code and text keep their "
     "characters. Export returns exactly what the writer wrote and fails when the writer fails.",
     [I], "every document",
     "The suite exports one document.",
     ["src/markdown/to_markdown.rs"],
     [("export events", "src/markdown/to_markdown.rs MarkdownSerializer::next"), ("entry point", "src/markdown/to_markdown.rs to_markdown")])

prop("C18", "Replace-around keeps the gap content and puts it at the insert point",
     "A replace-around step replaces its outer range by its slice with the untouched gap content put in at the insertion "
     "offset, at the depth that offset denotes. It fails when the gap does not have flat ends, or does not fit there.",
     [I], "every document and step",
     "No test applies a replace-around step.",
     ["src/transform/replace_step.rs", "src/model/replace.rs"],
     [("application", "src/transform/replace_step.rs ReplaceAroundStep::apply"), ("insertion", "src/model/replace.rs Slice::insert_at, insert_into")])

prop("C19", "A replacement keeps everything outside the range and puts in the slice",
     "The result of a replacement is the tokens before the start, the slice's tokens, and the tokens after the end, with "
     "open nodes joined pairwise; content outside the range is unchanged. It fails when the open depths do not line up or "
     "the joined types are incompatible.",
     [I], "every document, range and slice",
     "About twenty literal replacements are tried; splicing recurses over unbounded nesting.",
     ["src/model/replace.rs"],
     [("splicing", "src/model/replace.rs replace, replace_outer, replace_two_way, replace_three_way")])

prop("C20", "Range traversals visit exactly the nodes and text of the range",
     "Traversing a range visits each node that overlaps it once, in document order, with its true position, and descends "
     "exactly when told to. Extracting text between two positions returns exactly the characters between them, with separators only "
     "between blocks and leaf substitutes where given.",
     [I], "every document and range",
     "One text extraction is tested.",
     ["src/model/fragment.rs", "src/model/node.rs"],
     [("traversal", "src/model/fragment.rs Fragment::nodes_between"), ("text extraction", "src/model/fragment.rs Fragment::text_between, text_content")])

prop("C90", "Slicing a range out and putting it back restores the document",
     "Replacing a range by the slice taken from that same range yields an equal document.",
     [I], "every document and range", "Quantifies over pairs of whole-document computations.",
     ["src/model/node.rs", "src/model/replace.rs"], [("slice and replace", "src/model/replace.rs replace, src/model/node.rs slice")])

prop("C91", "JSON round trips reproduce the document",
     "Deserialising the JSON of any document yields an equal document, and markdown export followed by import yields an "
     "equal document for the subset markdown can express.",
     [I], "every document", "Equality of values produced by external serialisers and parsers.",
     ["src/markdown/to_markdown.rs", "src/markdown/from_markdown.rs"], [("converters", "src/markdown/")])

prop("C92", "Deep documents cannot exhaust the stack",
     "No document, however deeply nested, makes an operation overflow the stack.",
     [I], "every nesting depth", "Needs documents of extreme depth and a bound on the stack.",
     ["src/model/node.rs", "src/model/replace.rs"], [("recursion", "src/model/")])
