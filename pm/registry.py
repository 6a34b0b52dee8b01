"""property id -> (module under pm.props, function, the rule it applies)"""
CHECKS = {
    "C01": ("sizes", "check_c01",
            "Every function that builds a child list or writes one of its fields leaves the recorded size equal to the "
            "sum of the children's sizes, on every path, for arbitrary arguments; node sizes follow the size table."),
    "C02": ("sizes", "check_c02",
            "Every function that builds a text or writes one of its fields leaves the recorded length equal to the "
            "number of UTF-16 units of the characters; splitting at an offset gives the two exact halves."),
    "C03": ("marks", "check",
            "Every function that builds a mark set or touches its list leaves it strictly ordered by mark type; adding, "
            "removing, membership and conversion agree with the operations on ordered sets on every path."),
    "C08": ("content", "check",
            "The content-expression tables of the markdown schema, the match function and the queries built on it are "
            "evaluated from the code for every node type and every state, and compared with the reference expressions; "
            "child lists are folded left to right, mark checks cover every child."),
    "C09": ("kinds", "check",
            "Every accessor, copy, constructor and conversion is interpreted for an arbitrary value and compared, node kind "
            "by node kind, with its definition; clones return the value they were given, equality compares every field, "
            "the order of mark types is total and agrees with equality."),
    "C04": ("purity", "check",
            "No unsafe code, no cell inside a type that callers hold, no mutable, cell-carrying or thread-local static, no "
            "call that reaches the outside world or depends on hash-table order or addresses; document, slice and step "
            "types are Send and Sync (decided by the compiler's trait solver)."),
    "C11": ("steps", "check_c11",
            "The apply function of the replacement steps is interpreted for an arbitrary step and document: a step that "
            "carries the structure flag succeeds only where the content check on each structural range reported none; the "
            "boundary walk behind that check moves one node boundary at a time and decides content exactly."),
    "C18": ("steps", "check_c18",
            "Replace-around is interpreted for an arbitrary step and document and compared with its definition: the gap's "
            "slice must be flat, is inserted at the step's insertion point and replaces the step's range; the insertion is "
            "interpreted for arbitrary content and compared with cut ++ inserted ++ rest or the rebuilt child."),
    "C06": ("failures", "check",
            "Every function returning a Result is interpreted with each fallible crate call replaced by success-or-failure: any path on which a call, a content check or a join check failed must end in an error (or in 'does not fit'); an applied step is exactly its rule's result."),
    "C05": ("replace", "check_c05",
            "Each function behind replace is interpreted with the others as uninterpreted results: every node it builds is closed over its new child list after the type's check accepted it, or exchanges exactly one child for the recursive result; the check itself folds the match over all children and tests every child's marks."),
    "C19": ("replace", "check_c19",
            "Each function behind replace is interpreted for arbitrary positions and slices and compared with ProseMirror's definition: which ranges are collected, which nodes are joined and closed around which recursive result, under which depth conditions, and which inputs are refused."),
    "C13": ("join", "check_c13",
            'Appending a child and appending a fragment are compared with the definition of joining for arbitrary lists; every list of children that replacing, inserting, mark steps and import build is taken apart, and wherever two pieces meet the later one was put there by a joining function, continues the same list, or one of the two is not a text.'),
    "C12": ("marksteps", "check_c12",
            "The apply functions of the mark steps are interpreted for an arbitrary step and document: they put back the same slice with its content mapped, and the parent handed to the map is the innermost node around the whole range; the mapped function is interpreted for an arbitrary node and parent; the map's loop visits every child once, descends into every child with content as the new parent and applies the function to inline children only."),
    "C10": ("positions", "check_c10",
            'find_index is interpreted for an arbitrary fragment and position; resolve with find_index standing for that definition: every round of its walk must record the entry of the node at hand and go on with the child the position lies in; the accessors are interpreted for an arbitrary path and compared with their definitions'),
    "C14": ("slices", "check_c14",
            'Fragment::cut is interpreted for an arbitrary fragment and range and decided by induction over its loop (each round appends exactly what its child contributes, the loop ends only when nothing later can contribute); Node::cut and Node::slice are interpreted with that definition'),
    "C20": ("traverse", "check_c20",
            "nodes_between is interpreted for an arbitrary fragment, range and callback and decided by induction over its loop (each overlapping child visited once with its position, content traversed exactly when told to); the callback text_between passes to it is interpreted for an arbitrary node of the range and state and must append exactly the node's share; text_content against the same definition"),
    "C07": ("wire", "check",
            "The serialisers and deserialisers (derived or not) are interpreted in their generic form over an arbitrary data format: keys, tags, the member each key is written from and read into, what a missing key becomes and which inputs are refused are compared with ProseMirror's table, for every struct and enum variant of the wire format."),
    "C16": ("importer", "check_c16",
            'from_markdown is interpreted with the parser as an arbitrary source of events; every round of its event loop, for an arbitrary stack of unfinished nodes, arbitrary active marks and each kind of event, must leave exactly the stack and marks the event stands for, events without a counterpart must end in an error, and the loop may be left only as specified.'),
    "C17": ("exporter", "check_c17",
            'The iterator that to_markdown hands to the markdown writer is interpreted for one call in an arbitrary state (nodes still to be written, open marks, events put aside) and an arbitrary node on top; each way through must emit exactly the event that is due and leave exactly the rest to be emitted. to_markdown must start it with the document alone and return what the writer wrote.'),
    "C15": ("panics", "check_c15",
            "Each operation that takes positions, ranges, slices or steps is interpreted for arbitrary numbers, with its "
            "resolved positions on a node boundary, inside a text or in a leaf: no path may reach a failing index, a "
            "subtraction below zero or an unwrap of nothing, and every call must meet what the callee relies on (the "
            "requirement each private function is itself interpreted under), so that the obligations chain up to the "
            "public entry points, which require nothing."),
}
