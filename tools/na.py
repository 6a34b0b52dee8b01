NA = {
    "C90": "An equality between the results of two composed recursive computations on the same document: the static "
           "argument would need an inductive proof over trees relating cutting, slicing and splicing at every depth; the "
           "pieces are decided separately by C14 and C19, their composition is not.",
    "C91": "Depends on the byte-level behaviour of serde_json and pulldown-cmark (parsing, escaping), which is outside "
           "the analysed source; what the crate contributes is decided by C07, C16 and C17.",
    "C92": "Stack consumption is a runtime quantity proportional to the depth of the input; recursion here is structural "
           "and has no static bound to check.",
}
