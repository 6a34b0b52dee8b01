"""fills the generated parts of DESIGN.md: the table of checks (from evidence/), the properties that do not apply
(from MANIFEST.json) and the planted bugs (from seeded/, with the results of a run in the file given as argument)"""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pm.registry import CHECKS


def put(s, name, body):
    return re.sub(r"(<!-- %s[^>]*-->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + body + m.group(2), s, flags=re.S)


def main():
    path = os.path.join(HERE, "DESIGN.md")
    s = open(path).read()
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    titles = {}
    for l in open(os.path.join(HERE, "properties.jsonl")):
        d = json.loads(l)
        titles[d["id"]] = d["title"]
    rows = ["| id | property | functions interpreted | obligations | analysis time |\n|---|---|---|---|---|\n"]
    for i in sorted(CHECKS):
        try:
            e = json.load(open(os.path.join(HERE, "evidence", i + ".json")))
        except OSError:
            continue
        c = json.dumps(e)
        rows.append("| %s | %s | %s | %s | %s |\n" % (i, titles[i], *summary(e)))
    s = put(s, "table", "".join(rows))
    s = put(s, "na", "".join("* **%s** (%s): %s\n" % (x["property"], titles.get(x["property"], ""), x["reason"]) for x in man["not_applicable"]))
    res = {}
    if len(sys.argv) > 1:
        res = json.load(open(sys.argv[1]))
    rows = ["| planted bug | breaks | needs | caught by |\n|---|---|---|---|\n"]
    d = os.path.join(HERE, "seeded")
    for b in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, b, "meta.json")))
        rows.append("| %s | %s | %s | %s |\n" % (b, m["property"], m["needs"], ", ".join(res.get(b, [])) or "-"))
    s = put(s, "seeds", "".join(rows))
    open(path, "w").write(s)


def summary(e):
    c = e["coverage"]
    n = c.get("functions_analysed", "?")
    return (len(n) if isinstance(n, list) else n, c.get("obligations", "?"),
            "%.0f s" % max(1, e["wall_s"] - c.get("extraction_s", 0)))


main()
