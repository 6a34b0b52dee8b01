"""C08: content expressions.

The finite tables (matching one type, valid end, compatibility, allowed mark types) are computed
from the bodies for every concrete state / type, and the resulting automata are compared with the
content expressions of the schema as languages.  The functions over child lists are interpreted for
an arbitrary list: they must be the fold of that automaton."""
from ..spec import *

BLOCK = ("Paragraph", "Blockquote", "HorizontalRule", "Heading", "CodeBlock", "OrderedList", "BulletList")
INLINE = ("Text", "Image", "HardBreak")
# the schema's content expressions (prosemirror-markdown): DFA = (start, {(state, type): state}, accepting)
EXPR = {
    "Doc": ("plus", BLOCK), "Blockquote": ("plus", BLOCK),
    "Paragraph": ("star", INLINE), "Heading": ("star", ("Text", "Image")), "CodeBlock": ("star", ("Text",)),
    "BulletList": ("plus", ("ListItem",)), "OrderedList": ("plus", ("ListItem",)),
    "ListItem": ("first", ("Paragraph",), BLOCK),
    "Text": ("none",), "HorizontalRule": ("none",), "HardBreak": ("none",), "Image": ("none",),
}
MARKS = {"Doc": False, "Blockquote": False, "BulletList": False, "OrderedList": False, "ListItem": False,
         "CodeBlock": False, "Heading": True, "Paragraph": True}


def dfa(e):
    k = e[0]
    if k == "none":
        return 0, {}, {0}
    if k == "star":
        return 0, {(0, t): 0 for t in e[1]}, {0}
    if k == "plus":
        return 0, dict([((0, t), 1) for t in e[1]] + [((1, t), 1) for t in e[1]]), {1}
    return 0, dict([((0, t), 1) for t in e[1]] + [((1, t), 1) for t in e[2]]), {1}


def first(e):
    return set() if e[0] == "none" else set(e[1])


def impl(ctx, name, trait, enum=True):
    its = [i for i in ctx.p.items if i["name"] == name and i.get("trait") and last(norm(i["trait"])) == trait
           and i["insts"]]
    if len(its) != 1:
        raise Missing("%s::%s" % (trait, name))
    return its[0]


def variants(p, ty):
    return [v["name"] for v in p.types[ty]["variants"]]


class Table(object):
    def __init__(self, ctx):
        self.ctx = ctx
        p = self.p = ctx.p
        self.nt = p.ntype_ty
        self.types = variants(p, self.nt)

    def concrete(self, it, *vals):
        """the one value a function returns on concrete arguments"""
        r = self.ctx.run(it, values=dict(enumerate(vals)), bound=False, quiet=True, recursion=False)
        if r is None or len(r.outs) != 1:
            raise Undecided("%s is not a table" % it["path"])
        s, v = r.outs[0]
        return r, s, v

    def enum(self, ty, name):
        return mk("agg", ty, self.p.variant_ix(ty, name), ())

    def boolean(self, it, *vals):
        r, s, v = self.concrete(it, *vals)
        b = s.decide(v)
        if b is None:
            raise Undecided("%s is not a table" % it["path"])
        return b


def check(ctx):
    ctx._guard("automata", automata)
    ctx._guard("marks", mark_tables)
    ctx._guard("lists", lists)


def automata(ctx):
    p = ctx.p
    tb = Table(ctx)
    cm = impl(ctx, "content_match", "NodeType")
    mt = impl(ctx, "match_type", "ContentMatch")
    ve = impl(ctx, "valid_end", "ContentMatch")
    cc = impl(ctx, "compatible_content", "NodeType")
    missing = [t for t in EXPR if t not in tb.types]
    if missing:
        raise Missing("node types " + ", ".join(missing))
    step, end = {}, {}

    def go(state, t):
        k = (state, t)
        if k not in step:
            r, s, v = tb.concrete(mt, state, tb.enum(tb.nt, t))
            nm, x = res(r.eng, v)
            if nm not in ("Some", "None"):
                raise Undecided("match_type of %s, %s" % (show(state), t))
            step[k] = x if nm == "Some" else None
        return step[k]

    def fin(state):
        if state not in end:
            end[state] = tb.boolean(ve, state)
        return end[state]

    for ty in sorted(EXPR):
        try:
            _, _, s0 = tb.concrete(cm, tb.enum(tb.nt, ty))
            q0, tr, acc = dfa(EXPR[ty])
            todo, seen = [(s0, q0, ())], set()
            while todo:
                s, q, path = todo.pop(0)
                if (s, q) in seen:
                    continue
                seen.add((s, q))
                ctx.count("automaton states", 1)
                where = "%s after [%s]" % (ty, ", ".join(path))
                if ctx.check(fin(s) == (q in acc), "end:%s:%s" % (ty, "/".join(path)), loc(ve),
                             "content of %s: ending is %s" % (where, "accepted" if fin(s) else "refused")):
                    pass
                for t in tb.types:
                    n, m = go(s, t), tr.get((q, t))
                    if ctx.check((n is None) == (m is None), "step:%s:%s" % (ty, "/".join(path + (t,))), loc(mt),
                                 "content of %s: child %s is %s" % (where, t, "refused" if n is None else "accepted")) \
                            and n is not None:
                        todo.append((n, m, path + (t,)))
        except Undecided as e:
            ctx.unk(ty, str(e))
    for a in sorted(EXPR):
        for b in sorted(EXPR):
            try:
                want = a == b or bool(first(EXPR[a]) & first(EXPR[b]))
                got = tb.boolean(cc, tb.enum(tb.nt, a), tb.enum(tb.nt, b))
                ctx.check(got == want, "compatible:%s:%s" % (a, b), loc(cc),
                          "content of %s and %s is %s" % (a, b, "compatible" if got else "not compatible"))
            except Undecided as e:
                ctx.unk(cc["path"], str(e))
    ctx.samples.append("automata of %d node types compared with their expressions" % len(EXPR))


def mark_tables(ctx):
    tb = Table(ctx)
    am = impl(ctx, "allows_mark_type", "NodeType")
    p = ctx.p
    fid = am["insts"][0][1]
    mty = p.fns[fid]["locals"][2]
    for t, want in sorted(MARKS.items()):
        for m in variants(p, mty):
            try:
                got = tb.boolean(am, tb.enum(tb.nt, t), tb.enum(mty, m))
                ctx.check(got == want, "marks:%s:%s" % (t, m), loc(am),
                          "%s %s mark %s on its children" % (t, "allows" if got else "forbids", m))
            except Undecided as e:
                ctx.unk(am["path"], str(e))


def set_base(d, v):
    """the list behind a mark set"""
    for i, ft in enumerate(d.p.field_tys(v.a[0])):
        if d.p.seq_elem(ft) is not None:
            s = d.proj(v, i)
            if s.k == "seq" and len(s.a[0]) == 1 and s.a[0][0].k == "sub":
                return s.a[0][0].a[0], d.seq_len(s)
    raise Undecided("mark set")


def bkey(b):
    return b.a[0] if b.k == "bv" and isinstance(b.a[0], tuple) else (None,)


def in_range(s, e, b, lo, hi):
    k = e.a[1]
    return k[0] == "elem" and k[1] is b and s.entails(sub(k[2], lo)) and s.entails(addc(sub(hi, k[2]), -1))


def marks_of(d, e):
    """the mark set of node e, seen as a text"""
    return d.named(d.node_textnode(e), "marks")


def allowed(d, ty):
    """pred: the marks of node e are allowed in ty in this state"""
    def f(s, e):
        if not (s.variants(e) & d.p.TEXT):
            return True
        m = marks_of(d, e)
        for b, v in s.bools.items():
            k = bkey(b)
            if v is True and k[0] == "allowset" and s.eqv_decide(k[1], ty) is True and k[2] is m:
                return True
        return False
    return f


def forbidden(d, s, ty, b, lo, hi):
    """some child in lo..hi carries marks that ty forbids"""
    for bb, v in s.bools.items():
        k = bkey(bb)
        if v is False and k[0] == "allowset" and s.eqv_decide(k[1], ty) is True:
            for e in elems_in(k[2]):
                if e.a[1][1] is b and k[2] is marks_of(d, e) and in_range(s, e, b, lo, hi):
                    return True
    return False


def mfr(s, which, m, inner, lo, hi, d):
    """the match state after inner[lo..hi] from m, if the state knows it is Some (which=1) / None (0)"""
    for x, vs in s.var.items():
        if x.k == "sym" and isinstance(x.a[1], tuple) and x.a[1][0] == "mfr" and vs == frozenset([which]):
            _, m2, f, lo2, hi2 = x.a[1]
            same = m2 is m or s.eqv_decide(m2, m) is True
            if same and s.seq_eq(d.finner(f), inner) and s.eq(lo, lo2) and s.eq(hi, hi2):
                return d.proj(x, 0, 1) if which == 1 else x
    return None


def lists(ctx):
    folding(ctx)
    valid_lists(ctx)
    mark_sets(ctx)
    partial(ctx)


def folding(ctx):
    # one type at a time over the list
    it = impl(ctx, "match_fragment_range", "ContentMatch")
    for inst in [i[0] for i in it["insts"]]:
        r = ctx.run(it, inst=inst)
        if not r:
            continue
        d, eng = r.d, r.eng
        inner = d.finner(r.sym[1])
        n = d.seq_len(inner)

        def f(s, v):
            lo, hi = range_of(eng, s, r.args[2], n)
            nm, x = res(eng, v)
            if nm == "Some":
                return folded(d, s, x, r.sym[0], inner, lo, hi)
            if nm == "None":
                for t, vs in s.var.items():
                    if t.k == "sym" and t.a[1][0] == "mt" and vs == frozenset([0]):
                        _, m, ty = t.a[1]
                        for e in elems_in(ty):
                            b = inner.a[0][0].a[0]
                            if ty is d.ntype(e) and in_range(s, e, b, lo, hi) and \
                                    folded(d, s, m, r.sym[0], inner, lo, e.a[1][2]) is None:
                                return None
                return "fails without a child that does not match"
            raise Undecided("result")

        ctx.judge(r, "match_range:%s" % inst, f)
        ctx.cover(r, "match_range:%s" % inst, [("matches", lambda s, v: res(eng, v)[0] == "Some"),
                                               ("fails", lambda s, v: res(eng, v)[0] == "None")])
    # whole list
    its = [i for i in ctx.p.items if i["name"] == "match_fragment" and i["insts"]]
    for it in its:
        r = ctx.run(it)
        if r:
            d = r.d
            n = d.seq_len(d.finner(r.sym[1]))

            def f(s, v):
                if v.k == "sym" and v.a[1][0] == "mfr":
                    _, m, fr, lo, hi = v.a[1]
                    if m is r.sym[0] and fr is r.sym[1] and s.eq(lo, ZERO) and s.eq(hi, n):
                        return None
                    return "matches %s..%s of the list instead of all of it" % (show(lo), show(hi))
                raise Undecided("result")

            ctx.judge(r, "match_all", f)


def valid_lists(ctx):
    it = impl(ctx, "valid_content", "NodeType")
    r = ctx.run(it)
    if r:
        d = r.d
        inner = d.finner(r.sym[1])
        n = d.seq_len(inner)
        b = inner.a[0][0].a[0]
        ty = r.sym[0]

        def f(s, v):
            m0 = cmatch(s, ty)
            bv = s.decide(v)
            if bv is None:
                raise Undecided("result %s" % show(v))
            m = m0 and mfr(s, 1, m0, inner, ZERO, n, d)
            if bv:
                if m is None:
                    return "content is valid without having matched all of it"
                if not vend(s, m, True):
                    return "content is valid although it may not end there"
                ok = forall(r, s, b, ZERO, n, allowed(d, ty))
                if ok is None and early(r, s, b, n):
                    return "content is valid before every child was looked at"
                if ok is None:
                    raise Undecided("walk over the children")
                return None if ok else "content is valid without checking the marks of every child"
            if m0 and mfr(s, 0, m0, inner, ZERO, n, d) is not None:
                return None
            if m is not None and vend(s, m, False):
                return None
            if forbidden(d, s, ty, b, ZERO, n) or caused(r, s, lambda x: forbidden(d, x, ty, b, ZERO, n)):
                return None
            return "content is refused for no reason of its type"

        ctx.judge(r, "valid_content", f)
        ctx.cover(r, "valid_content", [("accepts", lambda s, v: s.decide(v) is True),
                                       ("refuses", lambda s, v: s.decide(v) is False)])


def mark_sets(ctx):
    it = impl(ctx, "allow_marks", "NodeType")
    r = ctx.run(it)
    if r:
        d = r.d
        b, n = set_base(d, r.sym[1])
        ty = r.sym[0]

        def allows(want):
            def g(s, e):
                for bb, v in s.bools.items():
                    k = bkey(bb)
                    if v is want and k[0] == "allows" and s.eqv_decide(k[1], ty) is True and k[2].k == "sym" \
                            and k[2].a[1] == ("mtype", e):
                        return True
                return False
            return g

        def f(s, v):
            bv = s.decide(v)
            if bv is None:
                raise Undecided("result %s" % show(v))
            if bv:
                ok = forall(r, s, b, ZERO, n, allows(True))
                if ok is None and early(r, s, b, n):
                    return "a mark set is allowed before every mark was looked at"
                if ok is None:
                    raise Undecided("walk over the marks")
                return None if ok else "a mark set is allowed without checking every mark"
            for bb, v2 in s.bools.items():
                k = bkey(bb)
                if k[0] == "allows" and v2 is False:
                    for e in elems_in(k[2]):
                        if in_range(s, e, b, ZERO, n) and allows(False)(s, e):
                            return None
            return "a mark set is refused although none of its marks is forbidden"

        ctx.judge(r, "allow_marks", f)
        ctx.cover(r, "allow_marks", [("accepts", lambda s, v: s.decide(v) is True),
                                     ("refuses", lambda s, v: s.decide(v) is False)])


def partial(ctx):
    # partial match at an index, and replacing children
    p = ctx.p
    for it in [i for i in p.items if i["name"] == "content_match_at" and i["insts"]]:
        r = ctx.run(it)
        if r:
            d, eng = r.d, r.eng
            ctx.judge(r, "match_at", lambda s, v: at_spec(r, s, v))
            ctx.cover(r, "match_at", [("succeeds", lambda s, v: res(eng, v)[0] == "Ok"),
                                      ("fails", lambda s, v: res(eng, v)[0] == "Err")])
    for it in [i for i in p.items if i["name"] == "can_replace" and i["insts"]]:
        for inst in [i[0] for i in it["insts"]]:
            r = ctx.run(it, inst=inst)
            if r:
                ctx.judge(r, "can_replace:%s" % inst, lambda s, v: can_spec(r, s, v))
                ctx.cover(r, "can_replace:%s" % inst, [
                    ("accepts", lambda s, v: res(r.eng, v)[0] == "Ok" and s.decide(res(r.eng, v)[1]) is True),
                    ("refuses", lambda s, v: res(r.eng, v)[0] == "Ok" and s.decide(res(r.eng, v)[1]) is False)])


def cmatch(s, ty):
    for x in set(list(s.var)):
        k = x.a[1] if x.k == "sym" else None
        while isinstance(k, tuple) and k and k[0] in ("mfr", "fld"):
            y = k[1]
            if isinstance(y, T) and y.k == "sym":
                k = y.a[1]
                if k[0] == "cmatch" and s.eqv_decide(k[1], ty) is True:
                    return y
            elif isinstance(y, T) and y.k == "agg":
                break
            else:
                break
    return None


def vend(s, m, want):
    for b, v in s.bools.items():
        k = bkey(b)
        if k[0] == "vend" and v is want and (k[1] is m or s.eqv_decide(k[1], m) is True):
            return True
    return False


def folded(d, s, x, init, inner, lo, hi):
    """x = the state reached from init over inner[lo..hi]"""
    if x is init:
        return None if s.entails(sub(lo, hi)) else "no child is matched"
    if x.k == "sym" and x.a[1][0] == "fold":
        _, i0, tm, b, l2, h2 = x.a[1]
        if i0 is not init:
            return "matching does not start from the given state"
        if not (tm.k == "sym" and tm.a[1][0] == "fld" and tm.a[1][1].a[1][0] == "mt"):
            raise Undecided("step %s" % show(tm))
        _, m, ty = tm.a[1][1].a[1]
        if not (m.k == "sym" and m.a[1] == ("acc",)):
            return "a child is not matched from the state before it"
        if not (ty.k == "sym" and ty.a[1][0] == "ntype" and ty.a[1][1].k == "sym" and
                ty.a[1][1].a[1] == ("generic",)):
            raise Undecided("step %s" % show(tm))
        if b is not inner.a[0][0].a[0]:
            raise Undecided("other list")
        if not (s.eq(l2, lo) and s.eq(h2, hi)):
            if s.entails(sub(lo, hi)) and s.entails(sub(l2, h2)):
                return None
            return "children %s..%s are matched instead of %s..%s" % (show(l2), show(h2), show(lo), show(hi))
        return None
    raise Undecided("state %s" % show(x)[:200])


def inner_of(d, s, n):
    """children of node n in this state"""
    p = d.p
    if s.variants(n) <= p.CONTENT:
        return d.finner(d.node_frag(n))
    if not (s.variants(n) & p.CONTENT):
        return d.seq([])
    raise Undecided("node kind")


def at_spec(r, s, v):
    d, eng = r.d, r.eng
    inner = inner_of(d, s, r.sym[0])
    m0 = cmatch(s, d.ntype(r.sym[0]))
    if m0 is None:
        return "does not use the content expression of its type"
    nm, x = res(eng, v)
    if nm == "Ok":
        m = mfr(s, 1, m0, inner, ZERO, r.args[1], d)
        return None if m is not None and m is x else "does not report the state after the children before the index"
    if nm == "Err":
        return None if mfr(s, 0, m0, inner, ZERO, r.args[1], d) is not None else \
            "fails although the children before the index match"
    raise Undecided("result")


def can_spec(r, s, v):
    d, eng = r.d, r.eng
    n = r.sym[0]
    inner = inner_of(d, s, n)
    ty = d.ntype(n)
    m0 = cmatch(s, ty)
    frm, to = r.args[1], r.args[2]
    rep = r.args[3]
    if m0 is None:
        return "does not use the content expression of its type"
    nm, x = res(eng, v)
    one = mfr(s, 1, m0, inner, ZERO, frm, d)
    if nm == "Err":
        return None if mfr(s, 0, m0, inner, ZERO, frm, d) is not None else \
            "fails although the children before the range match"
    vs = s.variants(rep)
    if len(vs) != 1:
        raise Undecided("replacement given or not")
    if p_variant(d, rep, vs) == "Some":
        fr = strip(eng, s, d.proj(rep, 0, next(iter(vs))))
        rinner = d.finner(fr)
    else:
        rinner = d.seq([])
    lo, hi = range_of(eng, s, r.args[4], d.seq_len(rinner))
    bv = s.decide(x)
    if bv is None:
        raise Undecided("result %s" % show(x))
    if one is None:
        return "answers without matching the children before the range"
    two = mfr(s, 1, one, rinner, lo, hi, d)
    three = two and mfr(s, 1, two, inner, to, d.seq_len(inner), d)
    if bv:
        if not three:
            return "accepts without matching the replacement and the children after the range"
        if not vend(s, three, True):
            return "accepts content that may not end there"
        if not rinner.a[0]:
            return None
        ok = forall(r, s, rinner.a[0][0].a[0], lo, hi, allowed(d, ty))
        if ok is None and early(r, s, rinner.a[0][0].a[0], hi):
            return "accepts before every new child was looked at"
        if ok is None:
            raise Undecided("walk over the replacement")
        return None if ok else "accepts without checking the marks of every new child"
    if mfr(s, 0, one, rinner, lo, hi, d) is not None:
        return None
    if two and mfr(s, 0, two, inner, to, d.seq_len(inner), d) is not None:
        return None
    if three and vend(s, three, False):
        return None
    if rinner.a[0] and (forbidden(d, s, ty, rinner.a[0][0].a[0], lo, hi) or
                        caused(r, s, lambda x: forbidden(d, x, ty, rinner.a[0][0].a[0], lo, hi))):
        return None
    return "refuses for no reason of its type"


def p_variant(d, v, vs):
    return d.p.types[v.a[0]]["variants"][next(iter(vs))]["name"]
