"""C16 markdown import.

from_markdown is interpreted with the parser as an arbitrary source of events.  Its loop is judged round by
round: for an arbitrary stack of unfinished nodes, arbitrary active marks and one arbitrary event, what the
round leaves on the stack and which marks it leaves active must be what the event stands for.  By induction
over the rounds that is the imported document.  Joining adjacent texts and the mark-set operations stand for
their definitions (C13, C03); a round fed an event the schema has no construct for must end in an error."""
from ..parts import *
from .kinds import same

# which frame a start tag opens / which node an end tag closes
FRAME = {"Paragraph": "Paragraph", "Heading": "Heading", "BlockQuote": "Blockquote", "CodeBlock": "CodeBlock",
         "Item": "ListItem"}
MARK = {"Emphasis": "Em", "Strong": "Strong", "Link": "Link"}
UNSUPPORTED_TAG = ("FootnoteDefinition", "Table", "TableHead", "TableRow", "TableCell", "Strikethrough")
UNSUPPORTED = ("Html", "FootnoteReference", "SoftBreak", "TaskListMarker")


def events_hook(eng, st, c, args, dty):
    """the markdown parser and its strings"""
    path = c.get("rpath") or c["path"]
    p, d = eng.p, eng.d
    if not path.lstrip("<&").startswith("pulldown_cmark::") or dty is None:
        return None
    nm = c.get("name") or last(norm(c["path"]))
    t = p.types[dty]
    if nm == "next" and t["k"] == "adt" and last(t["path"]) == "Option" and args and args[0].k == "mref":
        et = p.field_tys(dty, p.variant_ix(dty, "Some"))[0]
        if last(p.types[et].get("path", "")) != "Event":
            return parser_hook(eng, st, c, args, dty)
        cur = eng.load(st, args[0].a[0], args[0].a[1])
        s2 = st.copy()
        s2.note(("end",))
        if cur.k != "sym":
            return None
        ev = mk("sym", et, ("event", cur))
        st.note(("ev", ev))
        eng.store(st, args[0].a[0], args[0].a[1], mk("sym", cur.a[0], ("after", cur)))
        return [(s2, none(dty)), (st, some(dty, ev))]
    if nm in ("deref", "as_ref", "borrow", "into_string", "to_string") and len(args) == 1:
        v = strip(eng, st, args[0])
        if v.k == "sym" and last(p.types[v.a[0]].get("path", "")) == "CowStr":
            if t["k"] == "ref":
                return [(st, ref(d.mk_sym(t["elem"], ("display", v))))]
            return [(st, d.mk_sym(dty, ("display", v)))]
    if nm in ("new", "new_ext") and args and last(t.get("path", "")) == "Parser":
        return [(st, mk("sym", dty, ("parse", strip(eng, st, args[0]))))]
    return parser_hook(eng, st, c, args, dty)


def mset(op):
    """adding / removing a mark, as an uninterpreted function of the list before and the mark"""
    def f(eng, st, c, a, t):
        if len(a) != 2 or a[0].k != "mref":
            return None
        d, p = eng.d, eng.p
        cur = eng.load(st, a[0].a[0], a[0].a[1])
        m = val(eng, st, a[1])
        if cur.k not in ("sym", "agg") or m.k not in ("sym", "agg"):
            return None
        ty = cur.a[0]
        vals = []
        for i, fl in enumerate(p.fields(ty)):
            v = cur.a[2][i] if cur.k == "agg" else d.proj(cur, i)
            if fl["name"] == "content":
                if v.k != "seq":
                    return None
                v = d.whole(base(m.a[0], ("mset", op, m, v)))
            vals.append(v)
        eng.store(st, a[0].a[0], a[0].a[1], mk("agg", ty, 0, tuple(vals)))
        return [(st, UNITV(eng, t))]
    return f


EXTRA[("MarkSet", "add")] = mset("add")
EXTRA[("MarkSet", "remove")] = mset("remove")


class Round(object):
    """one round of the import loop"""

    def __init__(self, ctx, r, rec, stack, marks):
        self.ctx, self.r, self.rec = ctx, r, rec
        self.p, self.d, self.eng = ctx.p, r.d, r.eng
        self.stack, self.marks = stack, marks          # bases of the loop's unknowns

    def top(self, k=1):
        return self.d.elem(self.stack, addc(self.d.blen(self.stack), -k))

    def name(self, s, v):
        """the variant an enum value has, or None"""
        if v is None or not self.p.is_enum(v.a[0]):
            return None
        vs = s.variants(v)
        if not vs or len(vs) != 1:
            return None
        return self.p.types[v.a[0]]["variants"][next(iter(vs))]["name"]

    def payload(self, s, v, i=0):
        vs = s.variants(v)
        return self.d.proj(v, i, next(iter(vs)))

    def event(self, s):
        """the event of this round, or None"""
        evs = [q[1] for q in s.notes if isinstance(q, tuple) and q[0] == "ev"]
        mine = [e for e in evs if e.a[1][1] is self.parser]
        return mine[0] if len(mine) == 1 else None

    def refine(self, s, v, names):
        s2 = s.copy()
        vs = frozenset(i for i, x in enumerate(self.p.types[v.a[0]]["variants"]) if x["name"] in names)
        return s2 if s2.refine(v, vs & s2.variants(v)) and vs & s.variants(v) else None

    # ---------------------------------------------------------------- values a round builds
    def strv(self, v):
        """the characters of a string value"""
        return v if v.k == "seq" else self.d.tchars(v) if hasattr(self.d, "tchars") and v.k == "agg" else v

    def split_stack(self, s, v):
        """(frames kept untouched, list of frames on top) of the stack after the round"""
        d = self.d
        n = d.blen(self.stack)
        keep, ones = None, []
        for g in v.a[0]:
            if g.k == "sub" and g.a[0] is self.stack:
                if keep is None and not ones and s.eq(g.a[1], ZERO):
                    keep = g.a[2]
                elif s.eq(addc(g.a[1], 1), g.a[2]):
                    ones.append(d.elem(self.stack, g.a[1]))
                elif s.entails(addc(g.a[1], -1)) and not s.entails(sub(g.a[1], g.a[2])):
                    raise Wrong("the frames further down change: %s" % show(v)[:120])
                else:
                    raise Undecided("frames taken apart")
            elif g.k == "one":
                ones.append(g.a[0])
            else:
                raise Undecided("stack built from %s" % show(g)[:80])
        return (ZERO if keep is None else keep), ones

    def frame(self, s, fr):
        """(nodes, attrs) of a frame"""
        d, p = self.d, self.p
        t = p.types[fr.a[0]]
        n = len(t["elems"]) if t["k"] == "tuple" else len(p.fields(fr.a[0]))
        xs = [fr.a[2][i] if fr.k == "agg" else d.proj(fr, i) for i in range(n)]
        nodes = [x for x in xs if x.k == "seq"]
        attrs = [x for x in xs if x.k in ("sym", "agg")]
        if len(nodes) != 1 or len(attrs) != 1 or n != 2:
            raise Undecided("shape of a frame")
        return nodes[0], attrs[0]

    def added(self, s, before, after):
        """the one node put behind `before`"""
        d = self.d
        A, B = list(after.a[0]), list(before.a[0])
        if len(A) != len(B) + 1 or not s.seq_eq(mk("seq", tuple(A[:-1])), before) or A[-1].k != "one":
            return None
        n = A[-1].a[0]
        if n.k == "sym" and isinstance(n.a[1], tuple) and n.a[1][0] == "joined":
            n = n.a[1][1]
        return n

    def same_str(self, s, v, w):
        d = self.d
        a = v if v.k == "seq" else None
        if a is None:
            raise Undecided("text %s" % show(v)[:60])
        return s.seq_eq(a, w)

    def node_text(self, s, n):
        """(characters, marks) of a text node"""
        d = self.d
        tn = d.node_textnode(n)
        return d.tchars(d.named(tn, "text")), d.named(d.named(tn, "marks"), "content")

    def display(self, ty, v):
        return self.d.mk_sym(ty, ("display", v))


class Wrong(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Wrong(msg)


def start(R, s, tag, tn, stackv, marks):
    """what a start tag leaves behind"""
    d = R.d
    if tn in MARK:
        unchanged(R, s, stackv)
        mark_op(R, s, tag, tn, "add", marks)
        return
    keep, ones = R.split_stack(s, stackv)
    need(s.eq(keep, d.blen(R.stack)) and len(ones) == 1, "the stack becomes %s" % show(stackv)[:120])
    nodes, attrs = R.frame(s, ones[0])
    need(s.eq(d.seq_len(nodes), ZERO), "the new node starts with the content %s" % show(nodes)[:100])
    need(same_marks(R, s, marks, d.whole(R.marks)), "the active marks become %s" % show(marks)[:100])
    an = R.name(s, attrs)
    if tn == "List":
        for s2, order in options(R, s, R.payload(s, tag)):
            if order is None:
                need(an == "BulletList", "an unnumbered list is opened as %s" % an)
            else:
                need(an == "OrderedList", "a numbered list is opened as %s" % an)
                got = d.named(R.payload(s2, attrs), "order")
                need(s2.eq(got, order), "a list starting at %s is given the number %s" % (show(order)[:60], show(got)[:60]))
        return
    if tn == "Image":
        need(an == "Image", "an image is opened as %s" % an)
        im = R.payload(s, attrs)
        for key, i in (("src", 1), ("title", 2)):
            w = d.mk_sym(R.p.strty, ("display", R.payload(s, tag, i)))
            need(R.same_str(s, d.named(im, key), w), "the %s of an image is %s" % (key, show(d.named(im, key))[:80]))
        need(s.eq(d.seq_len(d.named(im, "alt")), ZERO), "an image starts with the description %s" % show(d.named(im, "alt"))[:60])
        return
    need(an == FRAME[tn], "%s is opened as %s" % (tn, an))
    if tn == "Heading":
        got = d.named(R.payload(s, attrs), "level")
        need(s.eq(got, R.payload(s, tag)), "a heading is given the level %s" % show(got)[:60])
    elif tn == "CodeBlock":
        got = d.named(R.payload(s, attrs), "params")
        kind = R.payload(s, tag)
        for vi in sorted(s.variants(kind)):
            s2 = s.copy()
            if not s2.refine(kind, frozenset([vi])):
                continue
            if R.p.types[kind.a[0]]["variants"][vi]["fields"]:
                w = d.mk_sym(R.p.strty, ("display", d.proj(kind, 0, vi)))
                need(R.same_str(s2, got, w), "a fenced code block is given the info string %s" % show(got)[:80])
            else:
                need(s2.eq(d.seq_len(got), ZERO), "an indented code block is given the info string %s" % show(got)[:80])


def options(R, s, v):
    """(state, payload or None) for each way an Option can be"""
    for vi in sorted(s.variants(v)):
        s2 = s.copy()
        if s2.refine(v, frozenset([vi])):
            yield s2, (R.d.proj(v, 0, vi) if R.p.types[v.a[0]]["variants"][vi]["fields"] else None)


def unchanged(R, s, stackv):
    need(s.seq_eq(stackv, R.d.whole(R.stack)), "the stack becomes %s" % show(stackv)[:120])


def same_marks(R, s, a, b):
    return s.seq_eq(a, b) is True


def mset_of(R, marks):
    """(add / remove, mark, list before) when the marks are the result of such an operation"""
    segs = marks.a[0]
    k = segs[0].a[0].a[1] if len(segs) == 1 and segs[0].k == "sub" else None
    if not isinstance(k, tuple):
        return None
    if k[0] == "mset":
        return k[1:4]
    if k[0] == "fld" and k[3] == "content" and k[1].k == "sym" and isinstance(k[1].a[1], tuple) and \
            k[1].a[1][0] in ("add_to_set", "remove_from_set"):
        op, m, old = k[1].a[1]
        old = R.d.named(old, "content")
        return (op.split("_")[0], m, old) if old is not None and old.k == "seq" else None
    return None


def mark_op(R, s, tag, tn, op, marks):
    """the active marks are the ones before with the tag's mark added / removed"""
    d = R.d
    k = mset_of(R, marks)
    if k is None:
        need(False, "the active marks become %s" % show(marks)[:100])
    need(k[0] == op, "%s ends up with the mark %s" % (tn, {"add": "added", "remove": "removed"}[k[0]]))
    need(same_marks(R, s, k[2], d.whole(R.marks)), "the marks before are taken to be %s" % show(k[2])[:100])
    m = k[1]
    need(R.name(s, m) == MARK[tn], "%s stands for the mark %s" % (tn, R.name(s, m)))
    if tn == "Link":
        at = R.payload(s, m)
        for key, i in (("href", 1), ("title", 2)):
            w = d.mk_sym(R.p.strty, ("display", R.payload(s, tag, i)))
            need(R.same_str(s, d.named(at, key), w), "the %s of a link is %s" % (key, show(d.named(at, key))[:80]))


def grown(R, s, stackv, popped):
    """the node a round puts behind the children of the frame that is on top once `popped` frames are gone"""
    d = R.d
    n = d.blen(R.stack)
    keep, ones = R.split_stack(s, stackv)
    need(s.eq(keep, addc(n, -(popped + 1))) and len(ones) == 1, "the stack becomes %s" % show(stackv)[:140])
    nodes, attrs = R.frame(s, ones[0])
    before, battrs = R.frame(s, R.top(popped + 1))
    need(same(d, s, attrs, battrs) is True, "the enclosing node's attributes become %s" % show(attrs)[:100])
    node = R.added(s, before, nodes)
    need(node is not None, "the enclosing node's children become %s" % show(nodes)[:140])
    return node


def textnode(R, s, node, chars, marks, what):
    need(s.variants(node) == R.p.TEXT, "%s becomes %s" % (what, R.name(s, node)))
    ch, m = R.node_text(s, node)
    need(R.same_str(s, ch, chars), "%s reads %s" % (what, show(ch)[:80]))
    if marks is not None:
        need(same_marks(R, s, m, marks), "%s is given the marks %s" % (what, show(m)[:100]))
    return m


def end(R, s, tag, tn, stackv, marks):
    d, p = R.d, R.p
    if tn in MARK:
        unchanged(R, s, stackv)
        mark_op(R, s, tag, tn, "remove", marks)
        return
    need(same_marks(R, s, marks, d.whole(R.marks)), "the active marks become %s" % show(marks)[:100])
    content, attrs = R.frame(s, R.top())
    kinds = {"List": ("BulletList", "OrderedList"), "Image": ("Image",)}.get(tn) or (FRAME[tn],)
    for fk in kinds:
        s2 = R.refine(s, attrs, (fk,))
        if s2 is None or not s2.feasible():
            continue  # a frame of another kind: the parser's tags are balanced
        node = grown(R, s2, stackv, 1)
        nk = R.name(s2, node)
        need(nk == fk, "%s is closed as %s" % (fk, nk))
        if fk == "Image":
            # Leaf { attrs }
            at = d.named(R.payload(s2, node), "attrs")
            top = R.payload(s2, attrs)
            for key in ("src", "title"):
                need(R.same_str(s2, d.named(at, key), d.named(top, key)), "the %s of an image becomes %s" % (
                    key, show(d.named(at, key))[:80]))
            description(R, s2, content, d.named(at, "alt"), d.named(top, "alt"))
            continue
        got = d.finner(d.node_frag(node))
        for s3, want in closing(R, s2, content) if fk == "CodeBlock" else [(s2, content)]:
            need(nodes_eq(R, s3, got, want), "%s is given the content %s" % (fk, show(got)[:140]))
        pay = R.payload(s2, node)
        if fk in ("Heading", "CodeBlock", "OrderedList", "BulletList"):
            at, top = d.named(pay, "attrs"), R.payload(s2, attrs)
            for i, fl in enumerate(p.fields(at.a[0])):
                if fl["name"] == "tight":
                    continue
                x, y = d.named(at, fl["name"]), d.named(top, fl["name"])
                need(s2.seq_eq(x, y) if x.k == "seq" else s2.eq(x, y), "the %s of %s becomes %s" % (
                    fl["name"], fk, show(x)[:80]))


def nodes_eq(R, s, a, b):
    if s.seq_eq(a, b) is True:
        return True
    A, B = a.a[0], b.a[0]
    if len(A) != len(B):
        return False
    for x, y in zip(A, B):
        if s.seq_eq(mk("seq", (x,)), mk("seq", (y,))) is True:
            continue
        if x.k != "one" or y.k != "one" or s.variants(x.a[0]) != R.p.TEXT or s.variants(y.a[0]) != R.p.TEXT:
            return False
        (c1, m1), (c2, m2) = R.node_text(s, x.a[0]), R.node_text(s, y.a[0])
        if not s.seq_eq(c1, c2) or not s.seq_eq(m1, m2):
            return False
    return True


def closing(R, s, content):
    """the content of a code block: as collected, without the last text's trailing newline"""
    d, p = R.d, R.p
    n = d.seq_len(content)
    for s1 in s.copy().assume(eq0(n)):
        if s1.feasible():
            yield s1, content
    for s1 in s.copy().assume(ge(addc(n, -1))):
        if not s1.feasible():
            continue
        lst = d.seq_get(s1, content, addc(n, -1))
        s2 = s1.copy()
        if s2.refine(lst, s2.variants(lst) - p.TEXT) and s2.feasible():
            yield s2, content
        s2 = s1.copy()
        if not s2.refine(lst, p.TEXT) or not s2.feasible():
            continue
        ch, m = R.node_text(s2, lst)
        k = d.seq_len(ch)
        for s3 in s2.copy().assume(eq0(k)):
            if s3.feasible():
                yield s3, content
        for s3 in s2.copy().assume(ge(addc(k, -1))):
            c = d.seq_get(s3, ch, addc(k, -1))
            for s4 in s3.copy().assume(mk("not", eq0(addc(c, -10)))):
                if s4.feasible():
                    yield s4, content
            for s4 in s3.copy().assume(eq0(addc(c, -10))):
                if not s4.feasible():
                    continue
                short_ = d.seq_slice(s4, ch, ZERO, addc(k, -1))
                tn = d.node_textnode(lst)
                tx = d.named(tn, "text")
                ntx = mk("agg", tx.a[0], 0, tuple(
                    short_ if p.seq_elem(ft) is not None else d.proj(tx, i) for i, ft in enumerate(p.field_tys(tx.a[0]))))
                ntn = mk("agg", tn.a[0], 0, tuple(
                    ntx if fl["name"] == "text" else d.proj(tn, i) for i, fl in enumerate(p.fields(tn.a[0]))))
                vi = next(iter(p.TEXT))
                nn = mk("agg", lst.a[0], vi, (ntn,))
                yield s4, d.concat(d.seq_slice(s4, content, ZERO, addc(n, -1)), d.seq([d.one(nn)]))


def description(R, s, content, alt, alt0):
    """the description of an image is the text of its children, in order"""
    d = R.d
    segs = [g for g in alt.a[0]]
    if len(segs) != 1 or segs[0].k != "sub":
        if s.eq(d.seq_len(content), ZERO) and s.seq_eq(alt, alt0):
            return
        need(False, "the description of an image becomes %s" % show(alt)[:120])
    b = segs[0].a[0]
    if not s.eq(segs[0].a[1], ZERO) or not s.eq(segs[0].a[2], d.blen(b)):
        need(False, "the description of an image becomes %s" % show(alt)[:120])
    rec = next((x for x in R.eng.loop_log if b in x["phis"]), None)
    if rec is None:
        if s.seq_eq(alt, alt0):
            need(s.eq(d.seq_len(content), ZERO), "an image loses its description")
            return
        raise Undecided("description %s" % show(alt)[:80])
    e0 = rec["Be"][b]
    need(rec["entry"].eq(d.seq_len(e0), ZERO) or rec["entry"].seq_eq(e0, alt0), "the description starts with %s" % show(e0)[:80])
    ix = loop_index(rec)
    if len(ix) != 1:
        raise Undecided("loop over the children of an image")
    a, i0, cur = ix[0]
    need(rec["entry"].eq(i0, ZERO), "the description starts at child %s" % show(i0)[:40])
    for s2, B in rec["backs"]:
        child = d.seq_get(s2, content, ia(a))
        if not s2.variants(child) <= R.p.TEXT:
            s3 = s2.copy()
            if s3.refine(child, s3.variants(child) - R.p.TEXT) and s3.feasible() and B is not None:
                need(not s3.seq_eq(B[b], d.whole(b)), "a child of an image that is no text is dropped silently")
                raise Undecided("child of an image")
            s2.refine(child, R.p.TEXT)
        want = d.concat(d.whole(b), R.node_text(s2, child)[0])
        need(B is not None and s2.seq_eq(B[b], want), "a child adds %s to the description" % show(B[b])[:100])
    # left only behind the last child
    need(s.eq(cur, d.seq_len(content)) or s.eq(ia(a), d.seq_len(content)), "the description stops before child %s" % show(cur)[:40])


def plain(R, s, ev, en, stackv, marks):
    """events outside tags"""
    d = R.d
    need(same_marks(R, s, marks, d.whole(R.marks)), "the active marks become %s" % show(marks)[:100])
    if en in ("Text", "Code") and s.seq_eq(stackv, d.whole(R.stack)) is True and s.eq(
            d.seq_len(d.mk_sym(R.p.strty, ("display", R.payload(s, ev)))), ZERO):
        return  # no text
    node = grown(R, s, stackv, 0)
    if en in ("HardBreak", "Rule"):
        want = {"HardBreak": "HardBreak", "Rule": "HorizontalRule"}[en]
        need(R.name(s, node) == want, "%s becomes %s" % (en, R.name(s, node)))
        return
    chars = d.mk_sym(R.p.strty, ("display", R.payload(s, ev)))
    if en == "Text":
        textnode(R, s, node, chars, d.whole(R.marks), "text")
        return
    m = textnode(R, s, node, chars, None, "inline code")
    k = mset_of(R, m)
    need(k is not None and k[0] == "add" and R.name(s, k[1]) == "Code" and
         same_marks(R, s, k[2], d.whole(R.marks)), "inline code is given the marks %s" % show(m)[:100])


def cases(R, s, ev):
    """(state, event name, tag, tag name) for each kind of event the state allows"""
    p = R.p
    for vi in sorted(s.variants(ev)):
        s2 = s.copy()
        if not s2.refine(ev, frozenset([vi])):
            continue
        en = p.types[ev.a[0]]["variants"][vi]["name"]
        if en not in ("Start", "End"):
            yield s2, en, None, None
            continue
        tag = R.d.proj(ev, 0, vi)
        for ti in sorted(s2.variants(tag)):
            s3 = s2.copy()
            if s3.refine(tag, frozenset([ti])) and s3.feasible():
                yield s3, en, tag, p.types[tag.a[0]]["variants"][ti]["name"]


def supported(en, tn):
    return en not in UNSUPPORTED if tn is None else tn not in UNSUPPORTED_TAG


def check_c16(ctx):
    it = ctx.item("from_markdown")
    r = ctx.run(it, with_=summaries("add_node", "add", "remove"), hooks=(events_hook,))
    if not r:
        return
    d, p, eng = r.d, ctx.p, r.eng
    where = loc(it)
    mains = []
    for rec in eng.loop_log:
        for k, ph in rec["phis"].items():
            if ph.kind == "sym" and last(p.types[k.a[0]].get("path", "")) == "Parser":
                mains.append((rec, k))
    if not mains or len(set(k for _, k in mains)) != 1:
        ctx.unk(it["path"], "no single loop over the events")
        return
    rec, pk = mains[-1]
    stack = [k for k, ph in rec["phis"].items() if ph.kind == "seq" and p.types[k.a[0]]["k"] == "tuple"]
    marks = [k for k, ph in rec["phis"].items() if ph.kind == "seq" and p.is_local_adt(k.a[0], "MarkdownMark")]
    if len(stack) != 1 or len(marks) != 1:
        ctx.unk(it["path"], "the loop carries something else than a stack and marks")
        return
    R = Round(ctx, r, rec, stack[0], marks[0])
    R.parser = pk

    # the start
    se = rec["entry"]
    try:
        segs = rec["Be"][R.stack].a[0]
        need(len(segs) == 1 and segs[0].k == "one", "the import starts with the stack %s" % show(rec["Be"][R.stack])[:100])
        nodes, attrs = R.frame(se, segs[0].a[0])
        need(se.eq(d.seq_len(nodes), ZERO) and R.name(se, attrs) == "Doc",
             "the import starts with the frame %s" % show(segs[0].a[0])[:100])
        need(se.eq(d.seq_len(rec["Be"][R.marks]), ZERO), "the import starts with the marks %s" % show(rec["Be"][R.marks])[:100])
        k = rec["Be"][pk]
        if k.k != "sym" or k.a[1][0] != "parse":
            raise Undecided("parser built from something else than the text")
        need(k.a[1][1] is r.sym[0], "the parser is given %s" % show(k.a[1][1])[:100])
        ctx.ok(1)
    except Wrong as e:
        ctx.bad("import:start", where, str(e))
    except Undecided as e:
        ctx.unk(it["path"], str(e))

    seen = set()
    for s, B in rec["backs"]:
        ev = R.event(s)
        if B is None or ev is None:
            ctx.unk(it["path"], "a round that reads no event or several")
            continue
        for s2, en, tag, tn in cases(R, s, ev):
            what = en if tn is None else "%s(%s)" % (en, tn)
            ctx.count("rounds judged")
            seen.add(what)
            try:
                if not supported(en, tn):
                    raise Wrong("the import goes on")
                if tn is None:
                    plain(R, s2, ev, en, B[R.stack], B[R.marks])
                elif en == "Start":
                    start(R, s2, tag, tn, B[R.stack], B[R.marks])
                else:
                    end(R, s2, tag, tn, B[R.stack], B[R.marks])
                ctx.ok(1)
            except Wrong as e:
                why = inexact(s2, None)
                if why:
                    ctx.unk(it["path"], "%s: %s (%s)" % (what, e, why))
                else:
                    ctx.bad("import:" + what, where, "%s: on %s, %s" % (short(it["path"]), what, e))
            except Undecided as e:
                ctx.unk(it["path"], "%s: %s" % (what, e))
    # every construct of the schema is accepted
    et = next(iter(R.event(s) for s, B in rec["backs"] if R.event(s) is not None), None)
    if et is not None:
        for s2, en, tag, tn in cases(R, rec["entry"].copy(), et):
            what = en if tn is None else "%s(%s)" % (en, tn)
            if supported(en, tn):
                ctx.covered(what in seen, it["path"], "import:%s:never" % what, where, "%s: %s is never accepted" % (short(it["path"]), what))
    # where the import ends
    for s, v in list(r.outs) + [(q[3], None) for q in r.panics]:
        try:
            leave(R, s, v)
            ctx.ok(1)
        except Wrong as e:
            why = inexact(s, v)
            if why:
                ctx.unk(it["path"], "%s (%s)" % (e, why))
            else:
                ctx.bad("import:leave", where, "%s %s" % (short(it["path"]), e))
        except Undecided as e:
            ctx.unk(it["path"], str(e))


def leave(R, s, v):
    d, p = R.d, R.p
    n = d.blen(R.stack)
    nm, x = res(R.eng, v) if v is not None else ("Err", None)
    how = "fails" if v is not None else "panics"
    evs = [q[1] for q in s.notes if isinstance(q, tuple) and q[0] == "ev"]
    ended = ("end",) in s.notes
    if nm == "Ok":
        need(ended and not evs, "succeeds before the last event")
        content, attrs = R.frame(s, R.top())
        s2 = R.refine(s, attrs, ("Doc",))
        if s2 is None or not s2.feasible():
            raise Wrong("succeeds with an unfinished node")
        need(R.name(s2, x) == "Doc", "gives %s" % R.name(s2, x))
        got = d.finner(d.node_frag(x))
        need(s2.seq_eq(got, content), "gives a document with the content %s" % show(got)[:140])
        return
    if nm != "Err":
        raise Undecided("result")
    if ended and not evs:
        _, attrs = R.frame(s, R.top())
        for s1 in s.copy().assume(ge(addc(n, -1))):
            s2 = R.refine(s1, attrs, ("Doc",))
            need(s2 is None or not s2.feasible(), "%s at the end of a complete document" % how)
        return
    ev = R.event(s)
    if ev is None:
        raise Undecided("a failure without an event")
    for s2, en, tag, tn in cases(R, s, ev):
        if not supported(en, tn):
            need(v is not None, "panics on %s" % (tn or en))
            continue
        what = en if tn is None else "%s(%s)" % (en, tn)
        least = 2 if en == "End" and tn not in MARK else 1
        for s3 in s2.copy().assume(ge(addc(n, -least))):
            if tn == "Heading" and en == "Start":  # CommonMark has six levels
                lv = R.payload(s3, tag)
                ss = [y for x in s3.copy().assume(ge(addc(neg(lv), 6))) for y in x.assume(ge(addc(lv, -1)))]
            elif tn == "List" and en == "Start":  # at most nine digits
                ss = []
                for s4, o in options(R, s3, R.payload(s3, tag)):
                    ss += [s4] if o is None else s4.assume(ge(addc(neg(o), 999999999)))
            else:
                ss = [s3]
            for s4 in ss:
                _, attrs = R.frame(s4, R.top())
                if en == "End" and tn not in MARK:
                    s4 = R.refine(s4, attrs, {"List": ("BulletList", "OrderedList"), "Image": ("Image",)}.get(tn) or (FRAME[tn],))
                if s4 is None or not s4.feasible():
                    continue
                if tn == "Image" and en == "End" and stray(R, s4):
                    continue
                need(False, "%s on %s" % (how, what))


def stray(R, s):
    """some child of the image at hand is no text"""
    content, _ = R.frame(s, R.top())
    for k in s.var:
        e = R.d.as_elem(k) if k.k == "sym" else None
        if e is not None and R.d.whole(e[0]) is content and not s.variants(k) & R.p.TEXT:
            return True
    return False
