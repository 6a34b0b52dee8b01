"""C13 joining of adjacent texts.

The two functions that join (appending a child to a list, appending a fragment) are compared with the
definition for arbitrary lists.  Everywhere else each list of children an operation builds is taken apart
into the pieces it was built from, in the results and in what a loop carries round: wherever two pieces
meet, the later one was put there by one of the joining functions, continues the same list, or one of the
two is certainly not a text."""
from ..parts import *
from .replace import private, positions, range_setup, run_outer, RP


# ---------------------------------------------------------------- the joining functions
def texts(d, n):
    tn = d.node_textnode(n)
    return d.named(tn, "marks"), d.tchars(d.named(tn, "text"))


def seam(eng, s, xs, ys, got):
    """got is the concatenation of xs and ys (both one list), joined where they meet"""
    d, p = eng.d, eng.p
    xb, yb = xs, ys

    def same(u, w):
        return s.seq_eq(u, w) is True or (len(u.a[0]) == len(w.a[0]) and all(
            key_eq(eng, s, a, b) for a, b in zip(u.a[0], w.a[0])))
    lx, ly = d.seq_len(xb), d.seq_len(yb)
    both = d.concat(xb, yb)
    if s.eq(lx, ZERO) or s.eq(ly, ZERO):
        return None if same(got, yb if s.eq(lx, ZERO) else xb) or same(got, both) else "does not keep the other list"
    a, b = d.seq_get(s, xb, addc(lx, -1)), d.seq_get(s, yb, ZERO)
    va, vb = s.variants(a), s.variants(b)
    text = None
    if not va & p.TEXT or not vb & p.TEXT:
        text = False
    elif va <= p.TEXT and vb <= p.TEXT:
        text = s.eqv_decide(texts(d, a)[0], texts(d, b)[0])
        if text is None:
            text = s.eqv_decide(texts(d, b)[0], texts(d, a)[0])
    if same(got, both):
        return None if text is False else "puts the lists side by side without comparing the markup where they meet"
    if text is not True:
        return "gives %s" % show(got)[:200] if text is False else "joins without comparing kinds and marks: %s" % show(got)[:160]
    segs = got.a[0]
    for i, g in enumerate(segs):
        if g.k == "one" and g.a[0].k == "agg" and s.variants(g.a[0]) <= p.TEXT:
            l, r = mk("seq", segs[:i]), mk("seq", segs[i + 1:])
            if not s.eq(d.seq_len(l), addc(lx, -1)):
                continue
            wl, wr = d.seq_slice(s, xb, ZERO, addc(lx, -1)), d.seq_slice(s, yb, ONE_, ly)
            if not same(trim(d, s, l), trim(d, s, wl)) or not same(trim(d, s, r), trim(d, s, wr)):
                return "the joined text stands in %s" % show(got)[:200]
            m, ch = texts(d, g.a[0])
            if s.eqv_decide(m, texts(d, a)[0]) is not True and s.eqv_decide(m, texts(d, b)[0]) is not True:
                return "the joined text has the marks %s" % show(m)[:120]
            want = d.concat(texts(d, a)[1], texts(d, b)[1])
            return None if same(ch, want) else "the joined text reads %s" % show(ch)[:200]
    return "gives %s where two texts with the same marks meet" % show(got)[:200]


ONE_ = addc(ZERO, 1)


def trim(d, s, v):
    return mk("seq", tuple(g for g in v.a[0] if not (g.k == "sub" and s.entails(sub(g.a[1], g.a[2])))))


def joining(ctx):
    it = ctx.item("append", owner="Fragment")
    r = ctx.run(it, open_=[("Fragment", "append")])
    if r:
        eng, d, p = r.eng, r.d, ctx.p
        x, y = r.sym[:2]

        def spec(s, v):
            got = d.finner(v) if v.k == "agg" else None
            X, Y = d.finner(x), d.finner(y)
            if got is None:
                for u, w in ((x, y), (y, x)):
                    if v is u and (s.eq(d.fsize(w), ZERO) or s.eq(d.seq_len(d.finner(w)), ZERO)):
                        return None
                return "gives %s" % show(v)[:160]
            return seam(eng, s, X, Y, got)
        ctx.judge(r, "append", spec)
        ctx.cover(r, "append", [("joins", lambda s, v: v.k == "agg" and any(
            g.k == "one" and g.a[0].k == "agg" for g in d.finner(v).a[0]))])
    it = private(ctx, "add_node")
    r = ctx.run(it)
    if r:
        eng, d, p = r.eng, r.d, ctx.p
        refs = [i for i, a in enumerate(r.args) if a.k == "mref"]
        if len(refs) != 1:
            ctx.unk(it["path"], "arguments")
            return
        ti = refs[0]
        n0, t0 = r.sym[1 - ti], r.sym[ti]

        def spec2(s, v):
            n = n0
            if n.k == "sym" and last(p.types[n.a[0]].get("path", "")) == "Cow":
                vs = s.variants(n)
                if len(vs) != 1:
                    return "ignores the node"
                n = strip(eng, s, d.proj(n, 0, next(iter(vs))))
            cur = s.mem.get(("arg", ti))
            if cur is None or cur.k != "seq":
                return "leaves %s" % show(cur)[:100]
            return seam(eng, s, t0, d.seq([d.one(n)]), cur)
        ctx.judge(r, "add_node", spec2)
        ctx.cover(r, "add_node", [("joins", lambda s, v: any(g.k == "one" and g.a[0].k == "agg"
                                                            for g in s.mem[("arg", ti)].a[0]))])


# ---------------------------------------------------------------- everything that builds a list of children
def lists(eng, v, seen=None, depth=0):
    """the lists of nodes inside a value"""
    p = eng.p
    if not isinstance(v, T) or depth > 14:
        return
    if v.k == "seq":
        if any(seg_is_nodes(eng, g) for g in v.a[0]):
            yield v
        for g in v.a[0]:
            if g.k == "one":
                yield from lists(eng, g.a[0], seen, depth + 1)
            elif g.k == "sub" and g.a[0].a[1][0] == "mapseq":
                yield from lists(eng, g.a[0].a[1][2], seen, depth + 1)
    elif v.k == "agg":
        for x in v.a[2]:
            yield from lists(eng, x, seen, depth + 1)
    elif v.k == "ref":
        yield from lists(eng, v.a[0], seen, depth + 1)
    elif v.k == "sym" and isinstance(v.a[1], tuple) and v.a[1][0] in ("copyf", "closed", "joined", "cutrep"):
        for x in v.a[1][1:]:
            yield from lists(eng, x, seen, depth + 1)
    elif v.k == "sym" and isinstance(v.a[1], tuple) and v.a[1][0] == "app":
        for x in v.a[1][1]:
            yield from lists(eng, x, seen, depth + 1)


def seg_is_nodes(eng, g):
    nt = eng.p.node_ty
    if g.k == "one":
        return g.a[0].k in ("sym", "agg") and g.a[0].a[0] == nt
    return g.k == "sub" and g.a[0].a[0] == nt


def nontext(eng, s, n):
    if n.k == "sym" and isinstance(n.a[1], tuple):
        k = n.a[1]
        if k[0] in ("closed", "two", "three", "outer"):
            return True  # only nodes with children are closed: a resolved position's ancestors
        if k[0] == "rec":
            return True
        if k[0] == "copyf":
            return s.variants(n) <= eng.p.CONTENT or nontext(eng, s, k[1])
    return not s.variants(n) & eng.p.TEXT


def joined(g):
    """the piece was added by a function that joins"""
    if g.k == "one":
        n = g.a[0]
        return n.k == "sym" and isinstance(n.a[1], tuple) and n.a[1][0] == "joined"
    k = g.a[0].a[1]
    return isinstance(k, tuple) and (k[0] == "range" or (k[0] == "mapseq" and inner_ok(g)))


def inner_ok(g):
    t = g.a[0].a[1][2]
    return t.k == "sym" and isinstance(t.a[1], tuple) and t.a[1][0] == "joined"


def markup_of(eng, s, g):
    """(base, index) of the element whose markup a single node has"""
    n = g.a[0]
    if n.k == "sym":
        e = eng.d.as_elem(n)
        if e is None and isinstance(n.a[1], tuple) and n.a[1][0] == "ncut":
            return markup_of(eng, s, mk("one", n.a[1][1]))
        return e
    if n.k == "agg" and s.variants(n) <= eng.p.TEXT:
        m = texts(eng.d, n)[0]
        if m.k == "sym":  # ...elem.TextNode.0.marks
            k = m
            for _ in range(8):
                if isinstance(k, T) and k.k == "sym":
                    e = eng.d.as_elem(k)
                    if e is not None and e[0].a[0] == eng.p.node_ty:
                        return e if s.variants(k) <= eng.p.TEXT else None
                    k = k.a[1]
                if not isinstance(k, tuple) or len(k) < 2:
                    return None
                k = k[1]
    return None


def span(eng, s, g):
    """(base, lo, hi) of the children a piece stands for"""
    if g.k == "sub":
        return (g.a[0], g.a[1], g.a[2])
    e = markup_of(eng, s, g)
    return (e[0], e[1], addc(e[1], 1)) if e is not None else None


def broken(eng, s, v):
    """a seam of the list at which two texts with the same markup may meet, or None"""
    segs = [g for g in v.a[0] if not (g.k == "sub" and s.entails(sub(g.a[1], g.a[2])))]
    for g in segs:
        if g.k == "sub" and isinstance(g.a[0].a[1], tuple) and g.a[0].a[1][0] == "mapseq" and not inner_ok(g):
            t = g.a[0].a[1][2]
            if not nontext(eng, s, t):
                return "children computed one by one (%s) are put side by side" % show(t)[:160]
    for g, h in zip(segs, segs[1:]):
        if joined(h):
            continue
        if (g.k == "one" and nontext(eng, s, g.a[0])) or (h.k == "one" and nontext(eng, s, h.a[0])):
            continue
        a, b = span(eng, s, g), span(eng, s, h)
        if a and b and a[0] is b[0] and s.eq(a[2], b[1]):
            continue
        return "%s is put after %s without joining" % (show(h)[:140], show(g)[:140])
    return None


def judge_lists(ctx, r, key, extra=()):
    """all lists in results, in what is left behind and in what loops carry round"""
    eng = r.eng
    where = loc(r.it)
    n = 0
    bad = {}

    def see(s, v, what):
        nonlocal n
        for q in lists(eng, v):
            try:
                m = broken(eng, s, q)
            except Undecided as e:
                ctx.unk(r.it["path"], "%s" % e)
                continue
            n += 1
            if m is None:
                ctx.ok()
            elif inexact(s, v):
                ctx.unk(r.it["path"], m)
            else:
                bad.setdefault(what, m)
    for s, v in r.outs:
        nm, x = res(eng, v)
        if nm == "Err":
            continue
        see(s, v, "result")
        for q, m in s.mem.items():
            if q[0] == "arg":
                see(s, m, "left")
    for rec in eng.loop_log:
        for s, B in rec["backs"]:
            for ph, x in (B or {}).items():
                see(s, x, "loop")
    for what, m in bad.items():
        ctx.bad(key + ":" + what, where, "%s: %s" % (short(r.it["path"]), m))
    ctx.count("lists", n)
    return n


def seams_private(ctx):
    w = summaries("close", "add_range", "add_node", "check_join", "replace_two_way", "replace_three_way", "cut")
    for name, n in (("replace_two_way", 2), ("replace_three_way", 4)):
        it = private(ctx, name)
        ww = {k: f for k, f in w.items() if k[1] != name}
        r = ctx.run(it, with_=ww, assume=positions(range(n)))
        if r:
            ctx.check(judge_lists(ctx, r, name) > 0, name + ":builds", loc(it), "no list of children is built")
    r = run_outer(ctx)
    if r:
        judge_lists(ctx, r, "replace_outer")
    it = private(ctx, "insert_into")
    r = ctx.run(it)
    if r:
        judge_lists(ctx, r, "insert_into")


def seams_range(ctx):
    it = private(ctx, "add_range")
    for kind in ("Left", "Right", "Both"):
        for deep in ([(0,), (1,)] if kind != "Both" else [(0, 0), (0, 1), (1, 0), (1, 1)]):
            r = ctx.run(it, with_=summaries("cut", "add_node"), setup=range_setup(ctx, it, kind, deep))
            if r:
                tag = "add_range:" + kind + "".join("deeper" if x else "here" for x in deep)
                ctx.check(judge_lists(ctx, r, tag) > 0, tag + ":builds", loc(it), "no list of children is built")


def seams_steps(ctx):
    for nm in ("AddMarkStep", "RemoveMarkStep", "ReplaceStep", "ReplaceAroundStep"):
        it = ctx.item("apply", owner=nm, trait="StepKind")
        r = ctx.run(it, with_=summaries("map_fragment", "map_fragment_parent"))
        if r:
            judge_lists(ctx, r, nm)
    found = 0
    for it in [i for i in ctx.p.items if i["name"].startswith("map_fragment") and i["insts"] and i.get("local", True)]:
        for inst in it["insts"]:
            r = ctx.run(it, inst=inst[0], with_=summaries("add_node"))
            if r:
                found += 1
                ctx.check(judge_lists(ctx, r, it["name"]) > 0, it["name"] + ":builds", loc(it), "no list of children is built")
    if not found:
        raise MissingPrivate("map_fragment")


def seams_frag(ctx):
    its = [ctx.item("replace", trait="Node"), ctx.item("slice", trait="Node"), ctx.item("cut", trait="Node")]
    for it in its:
        key = (it.get("self_ty") and "Fragment" or "Node", it["name"])
        r = ctx.run(it, open_=[key], with_=summaries("replace"))
        if r:
            judge_lists(ctx, r, "%s::%s" % key)
    it = ctx.item("insert_at", owner="Slice")
    r = ctx.run(it, open_=[("Slice", "insert_at")], with_=summaries("insert_into"))
    if r:
        judge_lists(ctx, r, "insert_at")


def seams_import(ctx):
    it = ctx.item("deserialize", owner="MarkdownDeserializer")
    r = ctx.run(it, with_=summaries("add_node"), hooks=(parser_hook,))
    if r:
        ctx.check(judge_lists(ctx, r, "import") > 0, "import:builds", loc(it), "no list of children is built")


def check_c13(ctx):
    ctx.par([("joining", joining), ("seams", seams_private), ("range", seams_range), ("steps", seams_steps),
             ("fragments", seams_frag), ("import", seams_import)])
