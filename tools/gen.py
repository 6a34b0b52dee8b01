"""writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pm.registry import CHECKS

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, na=None, level_note=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [
             {"name": a, "where": b} for a, b in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b} for a, b in state]
    assert len(title) <= 80, title
    P.append((d, na, level_note))


I, H, C = "inputs", "histories", "configurations"

prop("C01", "Recorded content sizes always equal the sum of the child sizes",
     "The recorded size of every child list equals the sum of the sizes of its children, however the list was made "
     "(built from nodes, deserialised, appended, cut, one child replaced, cloned, defaulted). A node's size is its "
     "UTF-16 length for text, 1 for a leaf and its content's size plus 2 otherwise.",
     [I, H], "every node tree and every sequence of list operations on it",
     "Tests compare a few literal sizes; a stale size only shows as a wrong position in some later edit.",
     ["src/model/fragment.rs", "src/model/node.rs", "src/markdown/schema.rs"],
     [("child list constructors and editors", "src/model/fragment.rs Fragment::{from,deserialize,append,cut,replace_child,cut_by_index}"),
      ("size table", "src/model/node.rs Node::node_size, src/markdown/schema.rs MarkdownNode::node_size")],
     [("Fragment.size", "recorded sum of the children's sizes")])

prop("C02", "Text lengths and offsets count UTF-16 code units",
     "The recorded length of every text value is the number of UTF-16 code units of its characters, however the text "
     "was made. Cutting or splitting a text at an offset yields exactly the characters before and after that UTF-16 "
     "offset, with nothing lost, duplicated or reordered.",
     [I], "every string, including astral characters, and every offset on a character boundary",
     "Tests use a handful of short strings, nearly all in the basic plane, where bytes, chars and units rarely differ.",
     ["src/model/node.rs", "src/model/util.rs", "src/util.rs"],
     [("text values", "src/model/node.rs Text::{from,len_utf16,split_at,remove_first_utf16}"),
      ("UTF-16 splitting", "src/util.rs EncodeUtf16::len_utf16, split_at_utf16, src/model/util.rs")],
     [("Text.len_utf16", "recorded UTF-16 length of the content")])

prop("C03", "Mark sets are ordered, hold one mark per type, and behave as sets",
     "A mark set holds at most one mark of each type, ordered by type. Adding a mark makes exactly it present (replacing "
     "one of its type), removing takes out exactly an equal mark and nothing else, membership is exact, and a list with two marks of "
     "one type is refused.",
     [I, H], "every mark set and every sequence of additions and removals",
     "Tests never remove a mark and add at most one; order and uniqueness depend on the history of the set.",
     ["src/model/marks.rs"],
     [("set operations", "src/model/marks.rs MarkSet::{add,remove,contains}, Mark::{add_to_set,remove_from_set,into_set}"),
      ("list conversion", "src/model/marks.rs MarkSet::try_from")],
     [("MarkSet.content", "marks strictly ordered by type")])

exec(open(os.path.join(HERE, "tools", "more_props.py")).read())

NA = {}
exec(open(os.path.join(HERE, "tools", "na.py")).read())


TECH = {"C04": "effect and type analysis of MIR: reachable calls, statics, interior mutability in types"}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, why, note in P:
        i = d["id"]
        if i in CHECKS:
            checks.append({
                "property": i,
                "quick_cmd": "python3 -m pm.check %s" % i,
                "thorough_cmd": "python3 -m pm.check %s --tier thorough" % i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH.get(i, "abstract interpretation of MIR (value numbering, linear relations, loop fixpoints)"),
                "level": "other",
                "level_note": note or ("Every obligation listed in the evidence holds on all paths of the analysed "
                                       "functions, for arbitrary arguments; trusts the extractor, the abstract "
                                       "domain and the summaries of std/serde/pulldown-cmark calls. Obligations the "
                                       "analysis cannot decide are listed as undecided and are not claimed."),
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet")})
    m = {"version": 1, "setup_cmd": "python3 -m pm.check --setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
