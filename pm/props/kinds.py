"""C09: node kinds, accessors, copies, clones, equality and conversions.

Every accessor and constructor is interpreted on an arbitrary value; its result is compared, for
each node kind separately, with the definition.  Clones must return the value they were given and
equality must compare every field: both are decided for every data type of the crate."""
from ..spec import *
from .content import impl, variants, Table

BLOCK_NODE = {"Doc", "Paragraph", "Blockquote", "HorizontalRule", "Heading", "CodeBlock", "OrderedList",
              "BulletList", "ListItem"}
BLOCK_TYPE = BLOCK_NODE - {"Doc", "ListItem"}
INLINE = {"Text", "Image", "HardBreak"}


def same(d, s, v, w):
    """True / False / None: the value v is exactly w"""
    if v is w:
        return True
    if v.k == "ref" and w.k == "ref":
        return same(d, s, v.a[0], w.a[0])
    if v.k == "agg" and w.k == "agg" and v.a[0] == w.a[0]:
        if v.a[1] != w.a[1]:
            return False
        rs = [same(d, s, x, y) for x, y in zip(v.a[2], w.a[2])]
        return False if False in rs else None if None in rs else True
    if {v.k, w.k} == {"agg", "sym"} and v.a[0] == w.a[0]:
        p = d.p
        a, y = (v, w) if v.k == "agg" else (w, v)
        if p.is_enum(y.a[0]):
            vs = s.variants(y)
            if a.a[1] not in vs:
                return False
            if len(vs) > 1:
                return None if a is v else False
        rs = [same(d, s, x, d.proj(y, i, a.a[1])) for i, x in enumerate(a.a[2])]
        return False if False in rs else None if None in rs else True
    r = s.eqv_decide(v, w)
    if r is not None:
        return r
    if v.k == "sym" and w.k == "sym" and v.a[0] == w.a[0] and d.p.is_enum(v.a[0]):
        vs, ws = s.variants(v), s.variants(w)
        if len(vs) == 1 and vs == ws:
            i = next(iter(vs))
            if not d.p.field_tys(v.a[0], i):
                return True
    return None


def split(s, n):
    """one state for each kind node n may have"""
    for v in sorted(s.variants(n)):
        s2 = s.copy()
        if s2.refine(n, frozenset([v])):
            yield v, s2


def sameres(d, s, v, w, what):
    r = same(d, s, v, w)
    if r is True:
        return None
    # two different projections of arbitrary inputs are different values
    return "%s is %s instead of %s" % (what, show(v)[:160], show(w)[:160])


def per_kind(ctx, it, key, want, **kw):
    """want(d, r, s, variant name, node) -> expected value"""
    r = ctx.run(it, **kw)
    if not r:
        return None
    d, p = r.d, ctx.p
    n = r.sym[0]
    seen = set()
    for s, v in r.outs:
        for vi, s2 in split(s, n):
            nm = p.types[n.a[0]]["variants"][vi]["name"]
            seen.add(nm)
            try:
                w = want(d, r, s2, nm, n)
                if w is None:
                    continue
                if not isinstance(w, list):
                    w = [w]
                bad = [sameres(d, s2, v, x, "%s of %s" % (it["name"], nm)) for x in w]
            except Undecided as e:
                ctx.unk(it["path"], str(e))
                continue
            if None in bad:
                ctx.ok()
            elif inexact(s, v):
                ctx.unk(it["path"], "%s (%s)" % (bad[0], inexact(s, v)))
            else:
                ctx.bad("%s:%s" % (key, nm), loc(it), bad[0])
    ctx.count("node kinds", len(seen))
    return r


def opt(d, r, v):
    """Some(v) / None of the function's return type"""
    ty = r.f["locals"][0]
    return none(ty) if v is None else some(ty, v)


def check(ctx):
    ctx.par([("accessors", accessors), ("copies", copies), ("constructors", constructors), ("lists", lists),
             ("orders", orders), ("clones", clones), ("equality", equality)])


# ---------------------------------------------------------------- accessors
def tables(ctx, name, trait, good, key):
    p = ctx.p
    it = impl(ctx, name, trait)

    def want(d, r, s, nm, n):
        return TT if nm in good else FF
    per_kind(ctx, it, key, want)


def accessors(ctx):
    p = ctx.p
    for nm in sorted(BLOCK_NODE | INLINE):
        if nm not in variants(p, p.node_ty) or nm not in variants(p, p.ntype_ty):
            raise Missing("node kind " + nm)
    it = impl(ctx, "r#type", "Node") if any(i["name"] == "r#type" for i in p.items) else impl(ctx, "type", "Node")
    per_kind(ctx, it, "type", lambda d, r, s, nm, n: mk("agg", p.ntype_ty, p.variant_ix(p.ntype_ty, nm), ()))
    tables(ctx, "is_block", "Node", BLOCK_NODE, "is_block")
    tables(ctx, "is_block", "NodeType", BLOCK_TYPE, "type_is_block")
    tables(ctx, "is_inline", "NodeType", INLINE, "type_is_inline")

    def is_content(s, n):
        return s.variants(n) <= p.CONTENT

    def is_text(s, n):
        return s.variants(n) <= p.TEXT

    per_kind(ctx, impl(ctx, "text_node", "Node"), "text_node",
             lambda d, r, s, nm, n: opt(d, r, ref(d.node_textnode(n)) if is_text(s, n) else None))
    per_kind(ctx, impl(ctx, "content", "Node"), "content",
             lambda d, r, s, nm, n: opt(d, r, ref(d.node_frag(n)) if is_content(s, n) else None))
    per_kind(ctx, impl(ctx, "marks", "Node"), "marks",
             lambda d, r, s, nm, n: opt(d, r, ref(d.named(d.node_textnode(n), "marks")) if is_text(s, n) else None))
    prov = lambda name: ctx.item(name, trait="Node")
    per_kind(ctx, prov("is_inline"), "is_inline", lambda d, r, s, nm, n: TT if nm in INLINE else FF)
    per_kind(ctx, prov("is_text"), "is_text", lambda d, r, s, nm, n: TT if nm == "Text" else FF)
    per_kind(ctx, prov("is_leaf"), "is_leaf", lambda d, r, s, nm, n: FF if is_content(s, n) else TT)

    def inner(d, s, n):
        return d.finner(d.node_frag(n)) if is_content(s, n) else d.seq([])
    per_kind(ctx, prov("child_count"), "child_count", lambda d, r, s, nm, n: d.seq_len(inner(d, s, n)))
    per_kind(ctx, prov("content_size"), "content_size",
             lambda d, r, s, nm, n: d.fsize(d.node_frag(n)) if is_content(s, n) else ZERO)

    def nth(ix, strict):
        def f(d, r, s, nm, n):
            if not is_content(s, n):
                return opt(d, r, None)
            sq = inner(d, s, n)
            i = ix(r)
            if s.entails(sub(i, d.seq_len(sq))):
                return opt(d, r, None)
            if strict or s.entails(addc(sub(d.seq_len(sq), i), -1)):
                return opt(d, r, ref(d.elem(sq.a[0][0].a[0], i)))
            raise Undecided("which index")
        return f
    per_kind(ctx, prov("first_child"), "first_child", nth(lambda r: ZERO, False))
    per_kind(ctx, prov("maybe_child"), "maybe_child", nth(lambda r: r.args[1], False))
    per_kind(ctx, prov("child"), "child", nth(lambda r: r.args[1], True))
    # marks
    it = [i for i in p.items if i["name"] in ("type", "r#type") and i.get("trait") and
          last(norm(i["trait"])) == "Mark" and i["insts"]]
    if len(it) != 1:
        raise Missing("Mark::type")
    mt = p.fns[it[0]["insts"][0][1]]["locals"][0]
    per_kind(ctx, it[0], "mark_type", lambda d, r, s, nm, n: mk("agg", mt, p.variant_ix(mt, nm), ()))
    # same markup
    it = ctx.item("same_markup", owner="TextNode")
    r = ctx.run(it)
    if r:
        d = r.d
        me, other = r.sym[0], r.sym[1]

        def f(s, v):
            txt = d.node_textnode(other)
            nm, x = res(r.eng, v)
            m = s.eqv_decide(d.named(txt, "marks"), d.named(me, "marks"))
            if nm == "Some":
                if not s.variants(other) <= p.TEXT:
                    return "a node that is not text has the same markup"
                if x is not ref(txt):
                    return "reports another node"
                return None if m is True else "text with other marks has the same markup"
            if not (s.variants(other) & p.TEXT) or m is False:
                return None
            return "text with the same marks has another markup"
        ctx.judge(r, "same_markup", f)
        ctx.cover(r, "same_markup", [("finds text", lambda s, v: res(r.eng, v)[0] == "Some")])


# ---------------------------------------------------------------- copies
def copies(ctx):
    p = ctx.p

    def mapped(r, fr):
        f = r.sym[1]
        return mk("sym", fr.a[0], ("call", f, ref(fr)))

    def copied(d, r, s, nm, n):
        if not s.variants(n) <= p.CONTENT:
            return n
        v = next(iter(s.variants(n)))
        ft = p.field_tys(n.a[0], v)
        fr = d.node_frag(n)
        new = mapped(r, fr)
        fs = []
        for i, t in enumerate(ft):
            x = d.proj(n, i, v)
            if p.is_local_adt(t, "Fragment"):
                x = new
            elif p.has_fragment(t):
                x = mk("agg", t, 0, tuple(new if p.is_local_adt(t2, "Fragment") else d.proj(x, j)
                                          for j, t2 in enumerate(p.field_tys(t))))
            fs.append(x)
        return mk("agg", n.a[0], v, tuple(fs))
    r = per_kind(ctx, impl(ctx, "copy", "Node"), "copy", copied)
    for own in ("Block", "AttrNode"):
        it = ctx.item("copy", owner=own)
        r = ctx.run(it)
        if r:
            def f(s, v):
                n = r.sym[0]
                want = mk("agg", n.a[0], 0, tuple(
                    mapped(r, r.d.proj(n, i)) if p.is_local_adt(t, "Fragment") else r.d.proj(n, i)
                    for i, t in enumerate(p.field_tys(n.a[0]))))
                return sameres(r.d, s, v, want, "copy")
            ctx.judge(r, "copy:" + own, f)

    def marked(d, r, s, nm, n):
        if nm != "Text":
            return n
        v = next(iter(s.variants(n)))
        tn = d.node_textnode(n)
        fs = tuple(r.args[1] if p.is_local_adt(fl["ty"], "MarkSet") else d.proj(tn, i)
                   for i, fl in enumerate(p.fields(tn.a[0])))
        return mk("agg", n.a[0], v, (mk("agg", tn.a[0], 0, fs),))
    per_kind(ctx, impl(ctx, "mark", "Node"), "mark", marked)
    it = ctx.item("with_text", owner="TextNode")
    r = ctx.run(it)
    if r:
        def g(s, v):
            n = r.sym[0]
            want = mk("agg", n.a[0], 0, tuple(
                r.args[1] if p.is_local_adt(fl["ty"], "Text") else r.d.proj(n, i)
                for i, fl in enumerate(p.fields(n.a[0]))))
            return sameres(r.d, s, v, want, "text node")
        ctx.judge(r, "with_text", g)
    for it in [i for i in p.items if i.get("trait") and last(norm(i["trait"])) == "From" and
               last(norm(i["self_ty"] or "")) == "MarkdownNode" and "TextNode" in i["sig"]] + \
            [impl(ctx, "new_text_node", "Node")]:
        r = ctx.run(it)
        if r:
            tv = p.variant_ix(p.node_ty, "Text")
            ctx.judge(r, "text_node:" + it["name"], lambda s, v: sameres(
                r.d, s, v, mk("agg", p.node_ty, tv, (r.args[0],)), "node"))


# ---------------------------------------------------------------- constructors
def text_value(d, chars, marks=()):
    """Text node with these characters and marks"""
    p = d.p
    tv = p.variant_ix(p.node_ty, "Text")
    tn = p.field_tys(p.node_ty, tv)[0]
    fs = []
    for f in p.fields(tn):
        if p.is_local_adt(f["ty"], "MarkSet"):
            fs.append(mk("agg", f["ty"], 0, tuple(d.seq([d.one(m) for m in marks]) for _ in p.fields(f["ty"]))))
        else:
            fs.append(mk("agg", f["ty"], 0, tuple(
                chars if p.seq_elem(x["ty"]) is not None else d.seq_measure(chars, "U") for x in p.fields(f["ty"]))))
    return mk("agg", p.node_ty, tv, (mk("agg", tn, 0, tuple(fs)),))


def frag_value(d, nodes):
    p = d.p
    ty = p.find_adt("Fragment")
    sq = d.seq([d.one(x) for x in nodes])
    return mk("agg", ty, 0, tuple(sq if p.seq_elem(t) is not None else d.seq_measure(sq, "size")
                                  for t in p.field_tys(ty)))


def node_value(d, kind, fr, **attrs):
    p = d.p
    v = p.variant_ix(p.node_ty, kind)

    def build(t):
        if p.is_local_adt(t, "Fragment"):
            return fr
        if p.is_local_adt(t) and any(f["name"] in attrs for f in p.fields(t)):
            return mk("agg", t, 0, tuple(attrs[f["name"]] for f in p.fields(t)))
        if p.is_local_adt(t):
            return mk("agg", t, 0, tuple(build(f["ty"]) for f in p.fields(t)))
        raise Undecided("attribute of " + kind)
    return mk("agg", p.node_ty, v, tuple(build(t) for t in p.field_tys(p.node_ty, v)))


def constructors(ctx):
    p = ctx.p

    def judge(it, key, want):
        r = ctx.run(it)
        if r:
            ctx.judge(r, key, lambda s, v: sameres(r.d, s, v, want(r.d, r), it["name"]))

    def free(name):
        its = [i for i in p.items if i["name"] == name and "::helper::" in i["path"]]
        if len(its) != 1:
            raise Missing("helper::" + name)
        return its[0]
    fr = lambda r, i=0: r.sym[i]
    judge(free("doc"), "doc", lambda d, r: node_value(d, "Doc", fr(r)))
    judge(free("p"), "p", lambda d, r: node_value(d, "Paragraph", fr(r)))
    judge(free("li"), "li", lambda d, r: node_value(d, "ListItem", fr(r)))
    judge(free("blockquote"), "blockquote", lambda d, r: node_value(d, "Blockquote", fr(r)))
    judge(free("h"), "h", lambda d, r: node_value(d, "Heading", fr(r, 1), level=r.args[0]))
    judge(free("h1"), "h1", lambda d, r: node_value(d, "Heading", fr(r), level=ONE))
    judge(free("h2"), "h2", lambda d, r: node_value(d, "Heading", fr(r), level=num(2)))
    judge(free("ul"), "ul", lambda d, r: node_value(d, "BulletList", fr(r), tight=FF))
    judge(free("code_block"), "code_block", lambda d, r: node_value(d, "CodeBlock", fr(r, 1), params=r.sym[0]))
    judge(free("node"), "node", lambda d, r: r.sym[0])
    mk_ty = p.find_adt("MarkdownMark")
    for nm, m in (("em", "Em"), ("strong", "Strong")):
        judge(free(nm), nm, lambda d, r: text_value(d, r.sym[0], [mk("agg", mk_ty, p.variant_ix(mk_ty, m), ())]))
    judge(impl(ctx, "text", "Node"), "text", lambda d, r: text_value(d, r.sym[0]))
    for it in p.items:
        if it["name"] != "from" or not it.get("trait") or last(norm(it["trait"])) != "From" or not it["insts"]:
            continue
        f = p.fns[it["insts"][0][1]]
        rt, at = f["locals"][0], f["locals"][1]
        a = p.types[at]
        arg_str = a["k"] == "ref" and p.types[a["elem"]]["k"] == "str"
        if rt == p.node_ty and arg_str:
            judge(it, "node_from_str", lambda d, r: text_value(d, r.sym[0]))
        elif p.is_local_adt(rt, "Fragment"):
            if arg_str:
                judge(it, "list_from_str", lambda d, r: frag_value(d, [text_value(d, r.sym[0])]))
            elif at == p.node_ty:
                judge(it, "list_from_node", lambda d, r: frag_value(d, [r.sym[0]]))
            elif a["k"] == "tuple":
                judge(it, "list_from_tuple%d" % len(a["elems"]),
                      lambda d, r: frag_value(d, [d.proj(r.sym[0], i) for i in range(len(a["elems"]))]))
            elif p.seq_elem(at) is not None:
                r = ctx.run(it)
                if r:
                    ctx.judge(r, "list_from_vec", lambda s, v: None if s.seq_eq(r.d.finner(v), r.sym[0]) else
                              "the list built from %s is %s" % (show(r.sym[0]), show(r.d.finner(v))[:200]))
        elif p.seq_elem(rt) == p.node_ty and p.is_local_adt(at, "Fragment"):
            judge(it, "vec_from_list", lambda d, r: d.finner(r.sym[0]))
    for own in ("Block", "AttrNode", "TextNode", "MarkSet", "Fragment", "Text", "Slice"):
        for it in [i for i in p.items if i["name"] == "default" and last(norm(i.get("self_ty") or "")) == own]:
            r = ctx.run(it)
            if r:
                ctx.judge(r, "default:" + own, lambda s, v: empty(r.d, s, v))


def empty(d, s, v):
    """nothing in v: empty lists and texts, zero numbers"""
    if v.k == "seq":
        return None if s.eq(d.seq_len(v), ZERO) else "a default value is not empty"
    if v.k == "int":
        return None if s.eq(v, ZERO) else "a default number is not 0"
    if v.k == "agg":
        for x in v.a[2]:
            r = empty(d, s, x)
            if r:
                return r
        return None
    if v.k == "sym" and isinstance(v.a[1], tuple) and v.a[1] and (
            v.a[1][0] == "default" or "Default::default" in str(v.a[1][1:2])):
        return None
    if v in (FF, TT):
        return None if v is FF else "a default flag is set"
    raise Undecided("default value %s" % show(v))


# ---------------------------------------------------------------- child lists
def lists(ctx):
    p = ctx.p

    def judge(name, want, **kw):
        it = ctx.item(name, owner="Fragment")
        r = ctx.run(it)
        if r:
            def f(s, v):
                sq = r.d.finner(r.sym[0])
                w = want(r, s, sq)
                return sameres(r.d, s, v, w, name)
            ctx.judge(r, "list:" + name, f)

    def at(r, s, sq, i):
        d = r.d
        n = d.seq_len(sq)
        if s.entails(sub(i, n)):
            return opt(d, r, None)
        if i.a[0] < 0 and s.eq(n, ZERO):
            return opt(d, r, None)
        if s.entails(addc(sub(n, i), -1)) and s.entails(i):
            return opt(d, r, ref(d.elem(sq.a[0][0].a[0], i)))
        raise Undecided("which index")
    judge("size", lambda r, s, sq: r.d.seq_measure(sq, "size"))
    judge("child_count", lambda r, s, sq: r.d.seq_len(sq))
    judge("first_child", lambda r, s, sq: at(r, s, sq, ZERO))
    judge("last_child", lambda r, s, sq: at(r, s, sq, addc(r.d.seq_len(sq), -1)))
    judge("maybe_child", lambda r, s, sq: at(r, s, sq, r.args[1]))
    judge("child", lambda r, s, sq: ref(r.d.elem(sq.a[0][0].a[0], r.args[1])))
    judge("children", lambda r, s, sq: ref(sq))
    it = ctx.item("new", owner="Fragment")
    r = ctx.run(it)
    if r:
        ctx.judge(r, "list:new", lambda s, v: empty(r.d, s, v))
    # iterating over a mark set
    its = [i for i in p.items if i["name"] == "into_iter" and "MarkSet" in (i.get("self_ty") or "")]
    for it in its:
        r = ctx.run(it)
        if r:
            def f(s, v):
                want = None
                for i, t in enumerate(p.field_tys(r.sym[0].a[0])):
                    if p.seq_elem(t) is not None:
                        want = r.d.proj(r.sym[0], i)
                if v.k == "it" and v.a[0] == "seq":
                    return None if v.a[1] is want else "iterates over %s" % show(v.a[1])
                raise Undecided("iterator %s" % show(v))
            ctx.judge(r, "markset_iter", f)
    # pairs
    for name, ok in (("left", {"Both": 0, "Left": 0}), ("right", {"Both": 1, "Right": 0}),
                     ("right_or_left", {"Both": 1, "Left": 0, "Right": 0})):
        for it in [i for i in p.items if i["name"] == name and
                   last(norm(i.get("self_ty") or "")) == "EitherOrBoth"]:
            def want(d, r, s, nm, n):
                ty = r.f["locals"][0]
                vi = p.variant_ix(n.a[0], nm)
                x = ref(d.proj(n, ok[nm], vi)) if nm in ok else None
                if name == "right_or_left":
                    return x
                return opt(d, r, x)
            per_kind(ctx, it, "pair:" + name, want)


# ---------------------------------------------------------------- orders
def orders(ctx):
    """the order on mark types is total and agrees with equality"""
    p = ctx.p
    cmp_ = [i for i in p.items if i["name"] == "cmp" and "MarkType" in (i.get("self_ty") or "") and i["insts"]]
    if len(cmp_) != 1:
        raise Missing("order of mark types")
    tb = Table(ctx)
    mt = p.types[p.fns[cmp_[0]["insts"][0][1]]["locals"][1]]["elem"]
    vs = variants(p, mt)
    val = lambda n: mk("agg", mt, p.variant_ix(mt, n), ())
    got = {}
    for it, nm in ((cmp_[0], "cmp"),) + tuple(
            (i, "partial_cmp") for i in p.items if i["name"] == "partial_cmp" and "MarkType" in (i.get("self_ty") or "")):
        try:
            for a in vs:
                for b in vs:
                    r, s, v = tb.concrete(it, ref(val(a)), ref(val(b)))
                    if nm == "partial_cmp":
                        k, v = res(r.eng, v)
                        if not ctx.check(k == "Some", "order:partial:%s:%s" % (a, b), loc(it),
                                         "%s and %s are not comparable" % (a, b)):
                            continue
                    o = vname(r.eng, v)
                    if o is None:
                        raise Undecided("order %s" % show(v))
                    if nm == "cmp":
                        got[a, b] = o
                    else:
                        ctx.check(o == got[a, b], "order:agree:%s:%s" % (a, b), loc(it),
                                  "the two orders of %s and %s differ" % (a, b))
        except Undecided as e:
            ctx.unk(it["path"], str(e))
            return
    opp = {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}
    for a in vs:
        for b in vs:
            ctx.check((got[a, b] == "Equal") == (a == b), "order:eq:%s:%s" % (a, b), loc(cmp_[0]),
                      "%s and %s compare %s" % (a, b, got[a, b]))
            ctx.check(got[b, a] == opp[got[a, b]], "order:anti:%s:%s" % (a, b), loc(cmp_[0]),
                      "%s and %s are each %s than the other" % (a, b, got[a, b].lower()))
            for c in vs:
                if got[a, b] == "Less" and got[b, c] == "Less":
                    ctx.check(got[a, c] == "Less", "order:trans:%s:%s:%s" % (a, b, c), loc(cmp_[0]),
                              "the order of %s, %s, %s is not transitive" % (a, b, c))


# ---------------------------------------------------------------- clones and equality
def data_types(p, trait, name):
    for it in p.items:
        if it["name"] == name and it.get("trait") and last(norm(it["trait"])) == trait and it["insts"]:
            st = last(norm((it["self_ty"] or "").split("<")[0]))
            if st.endswith(("Error", "Err", "Field")) or "&" in it["self_ty"]:
                continue
            yield st, it


def clones(ctx):
    p = ctx.p
    for st, it in data_types(p, "Clone", "clone"):
        r = ctx.run(it, bound=False)
        if not r:
            continue
        x = r.sym[0]
        ctx.count("clone", 1)

        def f(s, v):
            if p.is_enum(x.a[0]):
                for vi, s2 in split(s, x):
                    m = sameres(r.d, s2, v, x, "the clone of a " + p.types[x.a[0]]["variants"][vi]["name"])
                    if m:
                        return m
                return None
            return sameres(r.d, s, v, x, "the clone")
        ctx.judge(r, "clone:" + st, f)


def derived_field(p, ty, i):
    """a field whose value follows from the others (C01, C02)"""
    return p.adt_name(ty) in ("Fragment", "Text") and p.is_local_adt(ty) and p.seq_elem(p.field_tys(ty)[i]) is None


def equality(ctx):
    p = ctx.p
    for st, it in data_types(p, "PartialEq", "eq"):
        fid = it["insts"][0][1]
        t = p.types[p.fns[fid]["locals"][1]]
        ty = t["elem"]
        ctx.count("equality", 1)
        if p.is_enum(ty):
            vs = variants(p, ty)
            pairs = [(a, b) for a in vs for b in vs]
        else:
            pairs = [(None, None)]
        for a, b in pairs:
            def setup(eng, s):
                x, y = (mk("sym", ty, ("arg", n)) for n in ("x", "y"))
                if a:
                    s.refine(x, frozenset([p.variant_ix(ty, a)]))
                    s.refine(y, frozenset([p.variant_ix(ty, b)]))
                return {0: ref(x), 1: ref(y)}
            r = ctx.run(it, bound=False, setup=setup)
            if not r:
                continue
            x, y = r.sym
            vi = p.variant_ix(ty, a) if a else 0

            def f(s, v):
                if a != b:
                    return None if v is FF or s.decide(v) is False else "%s equals %s" % (a, b)
                n = len(p.field_tys(ty, vi))
                fs = [(r.d.proj(x, i, vi), r.d.proj(y, i, vi)) for i in range(n)]
                nms = [fl["name"] for fl in p.fields(ty, vi)]
                what = a or st
                msg = None
                for s2, got in both(s, v):
                    eqs = [s2.eqv_decide(u, w) for u, w in fs]
                    if got:
                        for i, e in enumerate(eqs):
                            if e is not True and not derived_field(p, ty, i):
                                msg = "two values of %s are equal although their %s may differ" % (what, nms[i])
                    elif False not in eqs:
                        msg = "two values of %s may differ although all their fields are equal" % what
                return msg
            ctx.judge(r, "eq:%s:%s:%s" % (st, a, b), f)


def both(s, v):
    for want in (True, False):
        for s2 in s.copy().assume(v if want else b_not(v)):
            if s2.feasible():
                yield s2, want
