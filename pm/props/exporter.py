"""C17 markdown export.

The iterator that to_markdown hands to the markdown writer is interpreted for one call, in an arbitrary state
(nodes still to be written, marks that are open, events put aside) with an arbitrary node on top.  Each way
through the call must emit exactly the event that is due and leave exactly the rest to be emitted; by
induction the events of the whole document follow.  to_markdown itself must start with the document alone
and return what the writer wrote."""
from ..parts import *
from .kinds import same
import re
from .importer import Wrong, need

TAG = {"Heading": "Heading", "CodeBlock": "CodeBlock", "Blockquote": "BlockQuote", "Paragraph": "Paragraph",
       "BulletList": "List", "OrderedList": "List", "ListItem": "Item"}
MTAG = {"Strong": "Strong", "Em": "Emphasis", "Link": "Link"}


def cmark_hook(eng, st, c, args, dty):
    """the markdown writer: an arbitrary outcome, what was written is named by the events it was given"""
    p, d = eng.p, eng.d
    pt = (c.get("rpath") or c["path"]).lstrip("<&")
    if pt.startswith("pulldown_cmark_to_cmark::") and dty is not None and last(norm(pt)) == "cmark" and len(args) == 3:
        t = p.types[dty]
        if args[1].k == "mref" and vname(eng, args[2]) == "None" and t["k"] == "adt" and last(t["path"]) == "Result":
            eng.store(st, args[1].a[0], args[1].a[1], d.mk_sym(d.p.strty, ("written", args[0])))
            okv = p.variant_ix(dty, "Ok")
            return result(eng, st, dty, d.mk_sym(p.field_tys(dty, okv)[0], ("state",)), "cmark", (args[0],))
    return None


def writer_hook(eng, st, c, args, dty):
    """strings of the markdown crates and the writer"""
    path = c.get("rpath") or c["path"]
    p = eng.p
    pt = path.lstrip("<&")
    r = cmark_hook(eng, st, c, args, dty)
    if r is not None:
        return r
    if not (pt.startswith("pulldown_cmark::") or "pulldown_cmark::strings::" in pt) or dty is None:
        return None
    nm = c.get("name") or last(norm(c["path"]))
    t = p.types[dty]
    if nm == "clone":
        return None
    if nm in ("from", "into", "new") and len(args) == 1 and t["k"] == "adt" and last(t["path"]) == "CowStr":
        v = strip(eng, st, args[0])
        if v.k == "seq":
            return [(st, mk("agg", dty, p.variant_ix(dty, "Borrowed"), (ref(v),)))]
    return parser_hook(eng, st, c, args, dty)


class Pre(object):
    """an arbitrary state of the iterator: bases of the nodes to be written, the open marks, the events aside"""

    def __init__(self, run, inner, marks, aside):
        self.run, self.eng, self.d, self.p = run, run.eng, run.d, run.eng.p
        self.inner, self.marks, self.aside = inner, marks, aside

    def entry(self, s, v):
        """(node, index) of an entry"""
        t = self.p.types[v.a[0]]
        n = len(t["elems"]) if t["k"] == "tuple" else len(self.p.fields(v.a[0]))
        xs = [v.a[2][i] if v.k == "agg" else self.d.proj(v, i) for i in range(n)]
        node = [strip(self.eng, s, x) for x in xs if x.k in ("ref", "mref")]
        ix = [x for x in xs if x.k == "int"]
        if len(node) != 1 or len(ix) != 1 or n != 2:
            raise Undecided("shape of an entry")
        return node[0], ix[0]

    def top(self):
        return self.d.elem(self.inner, addc(self.d.blen(self.inner), -1))

    def mark(self, s):
        """the innermost open mark"""
        return strip(self.eng, s, self.d.elem(self.marks, addc(self.d.blen(self.marks), -1)))


def lists(d, x):
    """the sequence a membership test was about"""
    return d.seq([x]) if isinstance(x, T) and x.k in ("sub", "one") else x


ROLES = ("inner", "marks", "aside")


def mentions(q):
    """the lists a sequence is made of"""
    return [g.a[0] for g in q.a[0] if g.k == "sub"]


def roles(p, ty):
    """{role: field index} of the iterator's fields"""
    out = {}
    for i, ft in enumerate(p.field_tys(ty)):
        e = p.seq_elem(ft)
        if e is None:
            return None
        t = p.types[e]
        if t["k"] == "ref" and p.is_local_adt(t["elem"], "MarkdownMark") or p.is_local_adt(e, "MarkdownMark"):
            r = "marks"
        elif t["k"] == "adt" and last(t["path"]) == "Event":
            r = "aside"
        else:
            r = "inner"
        if r in out:
            return None
        out[r] = i
    return out if len(out) == 3 else None


def name(p, s, v):
    if v is None or v.k not in ("sym", "agg") or not p.is_enum(v.a[0]):
        return None
    vs = s.variants(v)
    return p.types[v.a[0]]["variants"][next(iter(vs))]["name"] if vs and len(vs) == 1 else None


def pay(d, s, v, i=0):
    return d.proj(v, i, next(iter(s.variants(v))))


def chars(P, s, v):
    """characters of a CowStr"""
    nm = name(P.p, s, v)
    if nm is None:
        raise Undecided("string %s" % show(v)[:60])
    x = strip(P.eng, s, pay(P.d, s, v))
    if x.k == "seq":
        return x
    if x.k == "sym" and isinstance(x.a[1], tuple) and x.a[1][0] == "app" and "InlineStr" in x.a[1][1]:
        ch = [y for y in x.a[1][2:] if y.k == "int"]
        if len(ch) == 1:
            return P.d.seq([P.d.one(ch[0])])
    raise Undecided("string %s" % show(v)[:60])


def is_str(P, s, v, w):
    return s.seq_eq(chars(P, s, v), w) is True


def mark_tag(P, s, tag, m):
    """tag is the one of mark m"""
    mn = name(P.p, s, m)
    if mn is None:
        out = None
        for vi in s.variants(m):
            s2 = s.copy()
            if s2.refine(m, frozenset([vi])) and s2.feasible():
                out = out or mark_tag(P, s2, tag, m)
        return out
    if mn == "Code":
        return None  # never open
    tn = name(P.p, s, tag)
    if tn != MTAG.get(mn):
        return "the mark %s is written as %s" % (mn, tn)
    if mn == "Link":
        at = pay(P.d, s, m)
        if name(P.p, s, pay(P.d, s, tag, 0)) != "Inline":
            return "a link is not written in place"
        for i, k in ((1, "href"), (2, "title")):
            if not is_str(P, s, pay(P.d, s, tag, i), P.d.named(at, k)):
                return "the %s of a link is written as %s" % (k, show(pay(P.d, s, tag, i))[:80])
    return None


def node_tag(P, s, tag, n, nn):
    """tag is the one of the node n of kind nn"""
    d, p = P.d, P.p
    tn = name(p, s, tag)
    if tn != TAG[nn]:
        return "%s is written as %s" % (nn, tn)
    if nn in ("Blockquote", "Paragraph", "ListItem"):
        return None
    at = d.named(pay(d, s, n), "attrs")
    if nn == "Heading":
        v = pay(d, s, tag)
        return None if s.eq(v, d.named(at, "level")) else "a heading is given the level %s" % show(v)[:60]
    if nn == "CodeBlock":
        k = pay(d, s, tag)
        if name(p, s, k) != "Fenced":
            return "a code block is not written as a fenced one"
        return None if is_str(P, s, pay(d, s, k), d.named(at, "params")) else \
            "a code block is given the info string %s" % show(pay(d, s, k))[:80]
    o = pay(d, s, tag)
    if nn == "BulletList":
        return None if name(p, s, o) == "None" else "a plain list is numbered"
    if name(p, s, o) != "Some":
        return "a numbered list is written without its first number"
    v = pay(d, s, o)
    return None if s.eq(v, d.named(at, "order")) else "a numbered list starts at %s" % show(v)[:60]


def kept(P, s, v, b, drop):
    """the elements of v behind b[..len-drop], which must come first"""
    d = P.d
    n = addc(d.blen(b), -drop)
    segs = list(v.a[0])
    rest = []
    pos = ZERO
    while segs and segs[0].k == "sub" and segs[0].a[0] is b and s.eq(segs[0].a[1], pos) and not s.eq(pos, n):
        pos = segs[0].a[2]
        segs.pop(0)
    if not s.eq(pos, n):
        if s.entails(addc(sub(pos, n), -1)) and s.eq(pos, addc(n, drop)) and drop == 1:
            return [d.elem(b, n)] + [g for g in tail(P, s, segs, b)]
        return None
    return tail(P, s, segs, b)


def tail(P, s, segs, b):
    out = []
    for g in segs:
        if g.k == "one":
            out.append(g.a[0])
        elif g.k == "sub" and s.eq(addc(g.a[1], 1), g.a[2]):
            out.append(P.d.elem(g.a[0], g.a[1]))
        elif g.k == "sub" and s.eq(g.a[1], g.a[2]):
            continue
        else:
            return None
    return out


def judge(P, s, ev, post):
    """one way through the call: ev = event emitted, "again" (nothing yet) or None (the end)"""
    d, p = P.d, P.p
    inner, marks, aside = post
    I, M, Q = d.blen(P.inner), d.blen(P.marks), d.blen(P.aside)
    same_inner = s.seq_eq(inner, d.whole(P.inner)) is True
    same_marks = s.seq_eq(marks, d.whole(P.marks)) is True
    same_aside = s.seq_eq(aside, d.whole(P.aside)) is True
    # events that were put aside come first
    for s1 in s.copy().assume(ge(addc(Q, -1))):
        if s1.feasible():
            need(ev is not None and ev != "again", "does not emit the event that was put aside")
            need(same(d, s1, ev, d.elem(P.aside, addc(Q, -1))) is True, "emits %s although an event was put aside" % show(ev)[:80])
            need(same_inner and same_marks, "changes the rest when emitting the event that was put aside")
            need(s1.seq_eq(aside, d.seq_slice(s1, d.whole(P.aside), ZERO, addc(Q, -1))) is True,
                 "keeps the events aside as %s" % show(aside)[:80])
    for s1 in s.copy().assume(eq0(Q)):
        for s2 in s1.copy().assume(eq0(I)):
            if s2.feasible():
                need(ev is None, "goes on behind the end")
        for s2 in s1.copy().assume(ge(addc(I, -1))):
            if s2.feasible():
                node, ix = P.entry(s2, P.top())
                for vi in sorted(s2.variants(node)):
                    s3 = s2.copy()
                    if s3.refine(node, frozenset([vi])) and s3.feasible():
                        nn = p.types[node.a[0]]["variants"][vi]["name"]
                        P.run.ctx.count("ways through the iterator judged")
                        P.seen.add((nn, "again" if ev == "again" else name(p, s3, ev)))
                        step(P, s3, ev, inner, marks, aside, node, ix, nn)


def step(P, s, ev, inner, marks, aside, node, ix, nn):
    d, p = P.d, P.p
    M = d.blen(P.marks)
    en = "again" if ev == "again" else "the end" if ev is None else name(p, s, ev)
    what = "on %s, " % nn
    ones = kept(P, s, inner, P.inner, 1)
    need(ones is not None, what + "the nodes to be written become %s" % show(inner)[:140])
    ents = [P.entry(s, x) for x in ones]
    unmarked = s.seq_eq(marks, d.whole(P.marks)) is True
    put = kept(P, s, aside, P.aside, 0)
    need(put is not None, what + "the events aside become %s" % show(aside)[:100])

    def is_entry(e, n, i):
        return same(d, s, e[0], n) is True and s.eq(e[1], i)

    def stays(i=None):
        return len(ents) == 1 and same(d, s, ents[0][0], node) is True and (
            s.eq(ents[0][1], ix if i is None else i))

    def closes_mark():
        """End(innermost mark), everything else as before"""
        tag = pay(d, s, ev)
        need(s.entails(addc(M, -1)), what + "a mark is closed where none is open")
        msg = mark_tag(P, s, tag, P.mark(s))
        need(msg is None, what + "closing the innermost mark: %s" % msg)
        need(s.seq_eq(marks, d.seq_slice(s, d.whole(P.marks), ZERO, addc(M, -1))) is True,
             what + "closing a mark leaves the open marks %s" % show(marks)[:80])
        need(not put, what + "closing a mark puts an event aside")
        need(stays(), what + "closing a mark leaves %s to be written" % show(inner)[:120])

    def mark_end():
        return en == "End" and name(p, s, pay(d, s, ev)) in MTAG.values()

    if nn == "Text":
        text(P, s, ev, en, ents, marks, put, node, ix, stays, closes_mark, mark_end, unmarked)
        return
    if nn in ("HardBreak", "HorizontalRule"):
        if mark_end():
            closes_mark()
            return
        need(en == {"HardBreak": "HardBreak", "HorizontalRule": "Rule"}[nn], what + "%s is emitted" % en)
        need(not ents and not put and unmarked, what + "the rest changes")
        return
    if nn == "Image":
        if mark_end():
            closes_mark()
            return
        need(en == "Start", what + "%s is emitted" % en)
        tag = pay(d, s, ev)
        need(name(p, s, tag) == "Image" and name(p, s, pay(d, s, tag, 0)) == "Inline", what + "%s is opened" % name(p, s, tag))
        at = d.named(pay(d, s, node), "attrs")
        for i, k in ((1, "src"), (2, "title")):
            need(is_str(P, s, pay(d, s, tag, i), d.named(at, k)), what + "the %s is written as %s" % (
                k, show(pay(d, s, tag, i))[:80]))
        need(not ents and unmarked, what + "the rest changes")
        need(put and name(p, s, put[0]) == "End" and same(d, s, pay(d, s, put[0]), tag) is True,
             what + "the end tag is %s" % (show(put[0])[:80] if put else "missing"))
        alt = d.named(at, "alt")
        if len(put) == 1:
            need(s.eq(d.seq_len(alt), ZERO), what + "the description is left out")
        else:
            need(len(put) == 2 and name(p, s, put[1]) == "Text" and is_str(P, s, pay(d, s, put[1]), alt),
                 what + "the description is written as %s" % show(put[1])[:80])
        return
    # nodes with content
    b = kids(P.eng, s, node)
    n = d.blen(b)
    child = d.elem(b, ix)
    if nn == "Doc":
        need(unmarked and not put, what + "marks or events change")
        for s1 in s.copy().assume(ge(addc(sub(n, ix), -1))):
            if s1.feasible():
                need(ev == "again", what + "%s is emitted before the children" % en)
                need(len(ents) == 2 and is_entry(ents[0], node, addc(ix, 1)) and same(d, s1, ents[1][0], child) is True and
                     s1.eq(ents[1][1], ZERO), what + "with a child left, %s is to be written" % show(inner)[:140])
        for s1 in s.copy().assume(ge(sub(ix, n))):
            if s1.feasible():
                need(ev in ("again", None) and not ents, what + "with no child left, %s is to be written" % show(inner)[:140])
        return
    for s0 in s.copy().assume(eq0(ix)):
        if not s0.feasible():
            continue
        for s1 in s0.copy().assume(ge(addc(M, -1))):
            if s1.feasible():
                need(mark_end(), what + "%s is emitted while a mark is open" % en)
                closes_mark()
        for s1 in s0.copy().assume(eq0(M)):
            if not s1.feasible():
                continue
            need(en == "Start", what + "%s is emitted first" % en)
            msg = node_tag(P, s1, pay(d, s1, ev), node, nn)
            need(msg is None, what + "%s" % msg)
            need(unmarked and not put, what + "marks or events change")
            for s2 in s1.copy().assume(ge(addc(n, -1))):
                if s2.feasible():
                    need(len(ents) == 2 and same(d, s2, ents[0][0], node) is True and s2.eq(ents[0][1], addc(ZERO, 1)) and
                         same(d, s2, ents[1][0], child) is True and s2.eq(ents[1][1], ZERO),
                         what + "behind the start tag %s is to be written" % show(inner)[:140])
            for s2 in s1.copy().assume(eq0(n)):
                if s2.feasible():
                    need(len(ents) == 1 and same(d, s2, ents[0][0], node) is True and s2.entails(addc(ents[0][1], -1)),
                         what + "behind the start tag of an empty node %s is to be written" % show(inner)[:140])
    for s0 in s.copy().assume(ge(addc(ix, -1))):
        if not s0.feasible():
            continue
        for s1 in s0.copy().assume(ge(addc(sub(n, ix), -1))):
            if s1.feasible():
                need(ev == "again", what + "%s is emitted between the children" % en)
                need(unmarked and not put, what + "marks or events change")
                need(len(ents) == 2 and same(d, s1, ents[0][0], node) is True and s1.eq(ents[0][1], addc(ix, 1)) and
                     same(d, s1, ents[1][0], child) is True and s1.eq(ents[1][1], ZERO),
                     what + "with a child left, %s is to be written" % show(inner)[:140])
        for s1 in s0.copy().assume(ge(sub(ix, n))):
            if not s1.feasible():
                continue
            for s2 in s1.copy().assume(ge(addc(M, -1))):
                if s2.feasible():
                    need(mark_end(), what + "%s is emitted while a mark is open" % en)
                    closes_mark()
            for s2 in s1.copy().assume(eq0(M)):
                if not s2.feasible():
                    continue
                need(not ents and unmarked, what + "behind the last child %s is to be written" % show(inner)[:120])
                if nn == "CodeBlock" and en == "Text":
                    need(s2.seq_eq(chars(P, s2, pay(d, s2, ev)), d.seq([d.one(num(10))])) is True,
                         what + "the text %s is put behind the code" % show(ev)[:60])
                    need(len(put) == 1 and name(p, s2, put[0]) == "End", what + "the end tag is missing")
                    tag = pay(d, s2, put[0])
                else:
                    need(en == "End", what + "%s is emitted behind the last child" % en)
                    if nn == "CodeBlock":
                        need(s2.eq(n, ZERO), what + "the closing fence is not put on a line of its own")
                    need(not put, what + "an event is put aside")
                    tag = pay(d, s2, ev)
                msg = node_tag(P, s2, tag, node, nn)
                need(msg is None, what + "at the end, %s" % msg)


def text(P, s, ev, en, ents, marks, put, node, ix, stays, closes_mark, mark_end, unmarked):
    d, p = P.d, P.p
    tn = d.node_textnode(node)
    tmarks = d.named(d.named(tn, "marks"), "content")
    tb = tmarks.a[0][0].a[0]
    M = d.blen(P.marks)
    what = "on a text, "

    def holds(st, seq_base, e):
        """True / False / None: e is among the elements of the list"""
        for k, v in st.bools.items():
            if k.k == "bv" and k.a[0][0] == "contains" and len(k.a[0]) >= 3:
                lst, x = lists(d, k.a[0][1]), k.a[0][2]
                if not isinstance(lst, T) or lst.k != "seq" or not st.seq_eq(lst, d.whole(seq_base)):
                    continue
                y = strip(P.eng, st, x)
                if y is strip(P.eng, st, e):
                    return v
        return None

    def fresh():
        """every open mark is on the text"""
        return forall(P.run, s, P.marks, ZERO, M, lambda bs, e: holds(bs, tb, e) is True)

    if mark_end():
        need(not s.eq(M, ZERO), what + "a mark is closed where none is open")
        closes_mark()
        stale = [k for k, v in s.bools.items() if k.k == "bv" and k.a[0][0] == "contains" and v is False and
                 any(x.a[1][1] is P.marks for x in elems_in(k.a[0][2]))]
        need(stale, what + "a mark is closed although all open marks may be on it")
        return
    f = fresh()
    if f is None:
        raise Undecided("marks that are open but not on the text")
    need(f, what + "%s is emitted while a mark that is not on it may be open" % en)
    if en == "Start":
        tag = pay(d, s, ev)
        add_ = kept(P, s, marks, P.marks, 0)
        need(add_ and len(add_) == 1, what + "the open marks become %s" % show(marks)[:100])
        m = strip(P.eng, s, add_[0])
        msg = mark_tag(P, s, tag, m)
        need(msg is None, what + "opening a mark: %s" % msg)
        need(name(p, s, m) != "Code" and p.variant_ix(m.a[0], "Code") not in s.variants(m), what + "inline code is opened like a mark")
        e = d.as_elem(m) if m.k == "sym" else None
        need(e is not None and e[0] is tb, what + "the mark %s is opened, which is not on it" % show(m)[:80])
        need(holds(s, P.marks, m) is False, what + "a mark is opened that may be open already")
        need(stays() and not put, what + "opening a mark changes the rest")
        return
    need(en in ("Text", "Code"), what + "%s is emitted" % en)
    code = p.variant_ix(p.find_adt("MarkdownMark"), "Code")
    f = forall(P.run, s, tb, ZERO, d.blen(tb), lambda bs, e: holds(bs, P.marks, e) is True or bs.variants(e) == {code} or
               bs.variants(strip(P.eng, bs, e)) == {code})
    if f is None:
        need(not early(P.run, s, tb, d.blen(tb)), what + "%s is emitted before all marks of the text were looked at" % en)
        raise Undecided("marks of the text that are not open")
    need(f, what + "it is emitted before all of its marks are open")
    need(s.seq_eq(chars(P, s, pay(d, s, ev)), d.tchars(d.named(tn, "text"))) is True,
         what + "%s is emitted" % show(ev)[:80])
    need(not ents and not put and unmarked, what + "the rest changes")
    c = is_code(P, s, tb, code)
    need(c is not None, what + "%s is emitted without looking for inline code" % en)
    need((en == "Code") == c, what + "%s is emitted although it is %sinline code" % (en, "" if c else "no "))


def is_code(P, s, tb, code):
    """True / False / None: the text carries the code mark, as far as the path has tested it"""
    d = P.d
    for k, v in s.bools.items():
        if k.k != "bv":
            continue
        if k.a[0][0] == "contains" and len(k.a[0]) >= 3:
            x = strip(P.eng, s, k.a[0][2])
            lst = lists(d, k.a[0][1])
            if isinstance(lst, T) and lst.k == "seq" and s.seq_eq(lst, d.whole(tb)) and x.k == "agg" and x.a[1] == code:
                return v
        if k.a[0][0] == "phi":
            # a flag set by the walk over the marks exactly at the code mark
            for rec in P.eng.loop_log:
                if k not in rec["phis"] or rec["Be"].get(k) is not FF:
                    continue
                for a, i0, cur in loop_index(rec):
                    if not rec["entry"].eq(i0, ZERO) or not s.entails(sub(cur, d.blen(tb))):
                        continue
                    good = True
                    for bs, B in rec["backs"]:
                        e = d.elem(tb, cur)
                        vs = bs.variants(e)
                        nv = B.get(k)
                        if vs == {code}:
                            good = good and nv is TT
                        elif code not in vs:
                            good = good and nv is k
                        else:
                            good = False
                    if good:
                        return v
    # found by a search that stopped there, or not found by one that went through
    for e, vs in s.var.items():
        x = d.as_elem(e) if e.k == "sym" else None
        if x is not None and x[0] is tb and vs == {code}:
            return True
    f = forall(P.run, s, tb, ZERO, d.blen(tb), lambda bs, e: code not in bs.variants(e))
    return False if f else None


def again_hook(path):
    def rec(eng, st, c, args, dty):
        g = eng.p.fns.get(c.get("f"))
        if g is None or g["owner"] != path:
            return None
        m = [a for a in args if a.k == "mref"]
        if len(m) != 1:
            return None
        st.note(("again", eng.load(st, m[0].a[0], m[0].a[1])))
        return [(st, mk("sym", dty, ("again",)))]
    return rec


def check_c17(ctx):
    it0 = ctx.item("to_markdown")
    it = check_outer(ctx, it0)
    if it is None:
        return
    ty = {}

    def setup(eng, st):
        eng.recursion = again_hook(it["path"])
    r = ctx.run(it, setup=setup, recursion=False, hooks=(writer_hook,))
    if not r:
        return
    p, d, eng = ctx.p, r.d, r.eng
    r.ctx = ctx
    where, nm = loc(it), short(it["path"])
    me = r.sym[0]
    ro = roles(p, me.a[0])
    if ro is None:
        ctx.unk(it["path"], "the iterator's state is not a list of nodes, open marks and events")
        return
    bases = {k: d.proj(me, i).a[0][0].a[0] for k, i in ro.items()}
    ets = {k: b.a[0] for k, b in bases.items()}
    seen = set()

    def fields(v):
        return tuple(v.a[2][ro[k]] if v.k == "agg" else d.proj(v, ro[k]) for k in ("inner", "marks", "aside"))
    ways = []
    main = None
    for rec in eng.loop_log:
        ph = {k.a[0]: k for k, q in rec["phis"].items() if q.kind == "seq"}
        if ets["inner"] in ph:
            main = (rec, ph)
    P0 = Pre(r, bases["inner"], bases["marks"], bases["aside"])
    P = P0
    if main is not None:
        rec, ph = main
        P = Pre(r, ph[ets["inner"]], ph.get(ets["marks"], bases["marks"]), ph.get(ets["aside"], bases["aside"]))
        for k in ph.values():
            if k.a[0] in ets.values():
                want = d.whole([b for b in bases.values() if b.a[0] == k.a[0]][0])
                if not rec["entry"].seq_eq(rec["Be"][k], want):
                    ctx.unk(it["path"], "something happens before the loop over the nodes")
                    return
        for s, B in rec["backs"]:
            if B is not None:
                ways.append((s, "again", tuple(B.get(k, d.whole(k)) for k in (P.inner, P.marks, P.aside))))
    P.seen = P0.seen = seen
    for s, v in r.outs:
        post = fields(eng.load(s, r.args[0].a[0], r.args[0].a[1]))
        ag = [q[1] for q in s.notes if isinstance(q, tuple) and q[0] == "again"]
        if ag:
            if len(ag) != 1 or v.k != "sym" or v.a[1] != ("again",) or not all(
                    s.seq_eq(x, y) for x, y in zip(fields(ag[0]), post)):
                ctx.unk(it["path"], "the rest of the events is not passed on as it is")
                continue
            ways.append((s, "again", post))
            continue
        k, x = res(eng, v)
        if k is None:
            ctx.unk(it["path"], "result %s" % show(v)[:60])
            continue
        ways.append((s, x if k == "Some" else None, post))
    phis = [b for k, b in vars(P).items() if k in ROLES and b is not getattr(P0, k)]
    for s, ev, post in ways:
        try:
            # a way that ends before the loop starts from the state as it was
            ms = [b for x in post for b in mentions(x)]
            early = phis and ev != "again" and not any(b in ms for b in phis) and any(b in ms for b in bases.values())
            judge(P0 if early else P, s, ev, post)
            ctx.ok(1)
        except Wrong as e:
            why = inexact(s, None)
            if why:
                ctx.unk(it["path"], "%s (%s)" % (e, why))
            else:
                ctx.bad("export:%s" % re.sub(r"\W+", "-", str(e).split(":")[0])[:48], where, "%s: %s" % (nm, e))
        except Undecided as e:
            ctx.unk(it["path"], str(e))
    for k, w, _, s in r.panics:
        mine = [m for m in s.var if m.k == "sym" and p.is_local_adt(m.a[0], "MarkdownMark") and
                s.variants(m) == {p.variant_ix(m.a[0], "Code")} and any(x.a[1][1] is P.marks for x in elems_in(m))]
        if mine:
            ctx.ok(1)  # the code mark is never open (every mark that is opened is checked above)
        elif inexact(s, None):
            ctx.unk(it["path"], "may panic")
        else:
            ctx.bad("export:panic", where, "%s panics (%s) at line %s" % (nm, k, w[1] if isinstance(w, tuple) else w))
    for kind in [v["name"] for v in p.types[p.node_ty]["variants"]]:
        if kind == "Doc":
            continue
        ctx.covered(any(k == kind and e not in ("again", None) for k, e in seen), it["path"], "export:%s:never" % kind, where,
                  "%s never emits anything for %s" % (nm, kind))


def check_outer(ctx, it):
    """to_markdown hands the document alone to the writer and returns what it wrote; -> the iterator's next"""
    r = ctx.run(it, hooks=(writer_hook,))
    if not r:
        return None
    p, d, eng = ctx.p, r.d, r.eng
    where, nm = loc(it), short(it["path"])
    doc = r.sym[0]
    ty = None
    for s, v in r.outs:
        ns = [q for q in s.notes if isinstance(q, tuple) and q[0] in ("done", "fail") and q[1] == "cmark"]
        k, x = res(eng, v)
        if len(ns) != 1 or k is None:
            ctx.unk(it["path"], "the writer is not called once")
            continue
        ev = ns[0][2]
        if ev.k in ("agg", "sym") and p.types[ev.a[0]]["k"] == "adt":
            ty = ev.a[0]
            ro = roles(p, ty)
        else:
            ro = None
        if ro is None:
            ctx.unk(it["path"], "the writer is given something else than the iterator over the document")
            continue
        if ns[0][0] == "fail":
            ctx.check(k == "Err", "export:fail", where, "%s succeeds although the writer failed" % nm)
            continue
        why = inexact(s, v)
        try:
            P = Pre(r, None, None, None)
            inner, marks, aside = [d.proj(ev, ro[q]) if ev.k == "sym" else ev.a[2][ro[q]] for q in ("inner", "marks", "aside")]
            need(s.eq(d.seq_len(marks), ZERO) and s.eq(d.seq_len(aside), ZERO), "starts with open marks or events")
            need(len(inner.a[0]) == 1 and inner.a[0][0].k == "one", "starts with %s" % show(inner)[:100])
            n, i = P.entry(s, inner.a[0][0].a[0])
            need(n is doc and s.eq(i, ZERO), "starts with %s" % show(inner)[:100])
            need(k == "Ok", "fails although everything was written")
            need(x.k == "seq" and s.seq_eq(x, d.mk_sym(p.strty, ("written", ev))) is True, "returns %s" % show(x)[:100])
            ctx.ok(1)
        except Wrong as e:
            if why:
                ctx.unk(it["path"], "%s (%s)" % (e, why))
            else:
                ctx.bad("export:start", where, "%s %s" % (nm, e))
        except Undecided as e:
            ctx.unk(it["path"], str(e))
    if ty is None:
        return None
    return ctx.item("next", owner=p.adt_name(ty), trait="Iterator")
