"""C19 replace assembly, C05 validity of replaced content.

The functions behind `replace` are interpreted one by one for arbitrary resolved positions and slices, the
others standing for uninterpreted results, and each outcome is compared with ProseMirror's definition:
ranges before and after, joined nodes closed around the recursive result, and the conditions each case
needs."""
from ..parts import *
from ..models import range_of

PRIV = ("replace", "replace_outer", "replace_two_way", "replace_three_way", "close", "joinable", "check_join",
        "add_range", "prepare_slice_for_replace")


def private(ctx, name, **kw):
    try:
        return ctx.item(name, **kw)
    except Missing:
        raise MissingPrivate(name)


def positions(n):
    """assume for the first n arguments being resolved positions: one path entry per depth"""
    def mk_(i):
        def f(eng, st, sym):
            return RP(eng, sym[i]).wellformed()[0]
        return f
    return [mk_(i) for i in n]


def rps(r, *ix):
    return [RP(r.eng, r.sym[i]) for i in ix]


def done(s, tag):
    return [n for n in s.notes if isinstance(n, tuple) and n[0] == "done" and n[1] == tag]


def anyfail(s):
    return [n for n in s.notes if isinstance(n, tuple) and n[0] in ("fail", "none")]


# ---------------------------------------------------------------- entry points
def entry(ctx):
    it = ctx.item("replace", trait="Node")
    for inst, _ in it["insts"]:  # one for each type of range
        r = ctx.run(it, inst=inst, open_=[("Node", "replace")], with_=summaries("replace"))
        if not r:
            continue
        eng, d = r.eng, r.d
        doc, rng, sl = r.sym[:3]

        def spec(s, v, eng=eng, d=d, doc=doc, rng=rng, sl=sl):
            end = mk("sym", doc.a[0], "end")
            lo, hi = range_of(eng, s, rng, end)
            if hi is end:  # the end of the content
                vs = s.variants(doc)
                if not vs & eng.p.CONTENT:
                    hi = ZERO
                elif vs <= eng.p.CONTENT:
                    hi = d.fsize(d.node_frag(doc))
                else:
                    for part in (vs & eng.p.CONTENT, vs - eng.p.CONTENT):
                        s2 = s.copy()
                        m = spec(s2, v) if s2.refine(doc, part) and s2.feasible() else None
                        if m:
                            return m
                    return None
            nm, x = res(eng, v)
            if nm == "Ok":
                k = x.a[1] if x.k == "sym" else None
                if not (isinstance(k, tuple) and k[0] == "rep" and len(k) == 4):
                    return "gives %s" % show(x)[:200]
                f, t = RP(eng, k[1]), RP(eng, k[2])
                for q, pos in ((f, lo), (t, hi)):
                    bk = q.base.a[1]
                    if not (bk[0] == "path" and bk[1] is doc and s.eq(bk[2], pos) and s.eq(q.pos, pos)):
                        return "replaces between %s and %s" % (show(f.pos), show(t.pos))
                if k[3] is not sl:
                    return "puts in another slice"
                if not s.entails(sub(hi, lo)):
                    return "accepts a range that ends before it starts"
                return None
            if anyfail(s) or s.entails(addc(sub(lo, hi), -1)):
                return None
            return "fails although both positions resolve"
        ctx.judge(r, "entry", spec)
        ctx.cover(r, "entry", [("replaces", lambda s, v, eng=eng: res(eng, v)[0] == "Ok")])
    it = private(ctx, "replace", sig="ResolvedPos")
    r = ctx.run(it, with_=summaries("replace_outer"), assume=positions((0, 1)))
    if not r:
        return
    eng, d = r.eng, r.d
    f, t = rps(r, 0, 1)
    sl = r.sym[2]
    os, oe = d.named(sl, "open_start"), d.named(sl, "open_end")

    def spec(s, v):
        nm, x = res(eng, v)
        fits = s.entails(sub(f.depth, os)) and s.entails(sub(t.depth, oe)) and \
            s.eq(sub(f.depth, os), sub(t.depth, oe))
        if nm == "Ok":
            if not fits:
                return "goes on although the open depths do not line up"
            k = x.a[1] if x.k == "sym" else None
            if isinstance(k, tuple) and k[0] == "outer" and len(k) == 5 and k[1] is r.sym[0] and k[2] is r.sym[1] and \
                    k[3] is sl and s.eq(k[4], ZERO):
                return None
            return "gives %s" % show(x)[:200]
        if anyfail(s):
            return None
        if fits:
            return "refuses a slice whose open depths line up"
        if s.entails(addc(sub(os, f.depth), -1)):
            return None if vname(eng, x) in ("InsertTooDeep", "InconsistentOpenDepths") else "fails with %s" % vname(eng, x)
        if vname(eng, x) == "InconsistentOpenDepths":
            return None
        return "fails with %s although the slice is not too deep" % vname(eng, x)
    ctx.judge(r, "depths", spec)
    ctx.cover(r, "depths", [("goes on", lambda s, v: res(eng, v)[0] == "Ok"),
                            ("refuses", lambda s, v: res(eng, v)[0] == "Err" and not anyfail(s))])


# ---------------------------------------------------------------- cases
def outer_assume():
    def f1(eng, st, sym):
        return ge(sub(RP(eng, sym[0]).depth, eng.d.named(sym[2], "open_start")))

    def f2(eng, st, sym):
        return ge(sub(RP(eng, sym[1]).depth, eng.d.named(sym[2], "open_end")))

    def f3(eng, st, sym):
        a, b = RP(eng, sym[0]), RP(eng, sym[1])
        return eq0(sub(sub(a.depth, eng.d.named(sym[2], "open_start")), sub(b.depth, eng.d.named(sym[2], "open_end"))))

    def f4(eng, st, sym):
        return ge(sub(sub(RP(eng, sym[0]).depth, eng.d.named(sym[2], "open_start")), sym[3]))
    return positions((0, 1)) + [f1, f2, f3, f4]


def run_outer(ctx):
    it = private(ctx, "replace_outer")
    return ctx.run(it, with_=summaries("replace_two_way", "replace_three_way", "close", "prepare_slice_for_replace"),
                   assume=outer_assume())


def outer(ctx):
    r = run_outer(ctx)
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    f, t = rps(r, 0, 1)
    fv, tv, sl, depth = r.sym[0], r.sym[1], r.sym[2], r.sym[3]
    os, oe, sc = (d.named(sl, n) for n in ("open_start", "open_end", "content"))
    node = f.node(depth)
    case = {}

    def spec(s, v):
        nm, x = res(eng, v)
        if nm == "Err":
            return None if anyfail(s) or shallow(s) else "fails without cause"
        k = x.a[1] if x.k == "sym" and isinstance(x.a[1], tuple) else (None,)
        if k[0] == "copyf":
            if not node_eq(eng, s, k[1], node):
                return "rebuilds %s" % show(k[1])[:160]
            rc = done(s, "rec")
            if len(rc) != 1:
                return "rebuilds the node without replacing inside a child"
            a = rc[0][3:]
            if not (a[0] is fv and a[1] is tv and a[2] is sl and s.eq(a[3], addc(depth, 1))):
                return "descends with other arguments"
            if not (s.eq(f.index(depth), t.index(depth)) and s.entails(addc(sub(sub(f.depth, os), depth), -1))):
                return "descends although the range does not lie in one child above the open depth"
            c = kids(eng, s, node)
            i = f.index(depth)
            new = mk("sym", p.node_ty, ("rec", rc[0][2]) + a)
            want = parts(eng, s, d.seq([mk("sub", c, ZERO, i), d.one(new), mk("sub", c, addc(i, 1), d.blen(c))]))
            got = parts(eng, s, k[2])
            case["inner"] = 1
            if len(got) == len(want) and all(part_eq(eng, s, u, w) for u, w in zip(got, want)):
                return None
            if frag_eq(eng, s, k[2], d.node_frag(node)) and any(b and q.k == "eqv" and new in q.a for q, b in s.bools.items()):
                return None
            return "puts the rebuilt child back as %s" % show_parts(got)[:300]
        if k[0] != "closed":
            same = [q for q, b in s.bools.items() if b and q.k == "eqv" and
                    any(z.k == "sym" and isinstance(z.a[1], tuple) and z.a[1][0] == "rec" for z in q.a)]
            if x is node and done(s, "rec") and same:
                return None  # the rebuilt child is the one that was there
            if not s.variants(node) & p.CONTENT:
                return None  # a node without children has no position inside it
            return "gives %s" % show(x)[:200]
        n, c = k[1], k[2]
        if c.k == "sym" and c.a[1][0] == "two":
            a = c.a[1]
            if not s.eq(d.fsize(sc), ZERO):
                return "drops the slice's content"
            if not (a[1] is fv and a[2] is tv and s.eq(a[3], depth) and node_eq(eng, s, n, node)):
                return "deletes with other arguments"
            case["delete"] = 1
            return None
        if c.k == "sym" and c.a[1][0] == "three":
            a = c.a[1]
            pr = done(s, "prep") or [q for q in (prep_of(a[2]),) if q]
            if not pr:
                return "assembles with a start that does not come from the slice"
            if not (a[1] is fv and a[4] is tv and s.eq(a[5], depth) and node_eq(eng, s, n, node)):
                return "assembles with other arguments"
            pa, pb = RP(eng, a[2]), RP(eng, a[3])
            ka, kb = pa.base.a[1], pb.base.a[1]
            pv = prep_of(a[2])
            if pv is None or prep_of(a[3]) is not pv:
                return "assembles positions of different nodes"
            pn, p0, p1 = (d.proj(pv, i) for i in range(3))
            if not (ka[1] is pn and kb[1] is pn and s.eq(ka[2], p0) and s.eq(kb[2], p1)):
                return "assembles between %s and %s of the prepared slice" % (show(ka[2])[:80], show(kb[2])[:80])
            if not (pv.a[1][1] is sl and pv.a[1][2] in (fv, tv)):
                return "prepares another slice"
            case["general"] = 1
            return None
        if not (s.eq(f.depth, depth) and s.eq(t.depth, depth) and s.eq(os, ZERO) and s.eq(oe, ZERO)):
            return "treats open ends as flat"
        if not node_eq(eng, s, n, node):
            return "closes %s" % show(n)[:160]
        if kids(eng, s, n) is None:
            fr = parts(eng, s, c)
            want = parts(eng, s, sc)
        else:
            F = p.find_adt("Fragment")
            pc = d.node_frag(n)
            want = parts(eng, s, mk("sym", F, ("app", (mk("sym", F, ("cut", pc, ZERO, f.poff)), sc,
                                                       mk("sym", F, ("cut", pc, t.poff, d.fsize(pc)))))))
            fr = parts(eng, s, c)
        case["flat"] = 1
        if len(fr) == len(want) and all(part_eq(eng, s, u, w) for u, w in zip(fr, want)):
            return None
        return "gives %s in the flat case" % show_parts(fr)[:300]

    def shallow(s):
        """the slice's content is certainly not nested as deep as the slice is open"""
        if s.eq(d.fsize(sc), ZERO) and s.decide(eq0(sub(f.depth, t.depth))) is False:
            return True
        for n in done(s, "resolve"):
            if prep_of(n[2]) is None:
                continue
            q = addc(d.blen(rp_value(eng, fv.a[0], n[2], n[3])[1]), -1)
            pv = prep_of(n[2])
            for at, want in ((1, f.depth), (2, t.depth)):
                if s.eq(n[3], d.proj(pv, at)) and s.decide(eq0(sub(q, want))) is False:
                    return True
        return False

    def prep_of(rp):
        if rp.k == "sym" and p.adt_name(rp.a[0]) != "ResolvedPos":
            return within(rp)
        q = RP(eng, rp).base.a[1]
        if q[0] != "path" or q[1].k != "sym":
            return None
        return within(q[1])

    def within(n):
        k = n.a[1]
        while isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], T):
            if k[1].k == "sym" and isinstance(k[1].a[1], tuple) and k[1].a[1][0] == "prep":
                return k[1]
            k = k[1].a[1]
        return None

    ctx.judge(r, "outer", spec)
    for nm in ("inner", "flat", "general"):
        ctx.covered(nm in case, r.it["path"], "outer:" + nm, loc(r.it), "no path handles the %s case" % nm)


# ---------------------------------------------------------------- ranges
def ranges(ctx):
    it = private(ctx, "add_range")
    w = summaries("cut")
    w[("replace", "add_node")] = x_add_plain
    for kind in ("Left", "Right", "Both"):
        # per end: the position lies at this depth, or deeper
        for deep in ([(0,), (1,)] if kind != "Both" else [(0, 0), (0, 1), (1, 0), (1, 1)]):
            r = ctx.run(it, with_=w, setup=range_setup(ctx, it, kind, deep))
            if r:
                range_spec(ctx, r, kind, deep)


def range_setup(ctx, it, kind, deep):
    p = ctx.p

    def setup(eng, st):
        f = p.fns[it["insts"][0][1]]
        ty = f["locals"][1]
        depth = eng.d.mk_sym(f["locals"][2], ("arg", "depth"))
        vi = p.variant_ix(ty, kind)
        if vi is None:
            raise Undecided("range argument")
        xs = []
        for j, ft in enumerate(p.field_tys(ty, vi)):
            n, t = 0, ft
            while p.types[t]["k"] == "ref":
                n, t = n + 1, p.types[t]["elem"]
            v = position_at(eng, t, ("arg", "rp%d" % j), depth, addc(add(depth, eng.d.mk_sym(f["locals"][2], ("arg", "k%d" % j))), 1)
                            if deep[j] else depth)
            at = RP(eng, v)
            kids = eng.d.finner(eng.d.node_frag(at.node(depth))).a[0][0].a[0]
            st.facts = st.facts | {sub(eng.d.blen(kids), at.index(depth))}  # an index of its node
            for _ in range(n):
                v = ref(v)
            xs.append(v)
        return {0: mk("agg", ty, vi, tuple(xs)), 1: depth}
    return setup


def position_at(eng, ty, key, level, depth):
    """an arbitrary resolved position of the given depth"""
    p = eng.p
    fs = []
    for f in p.fields(ty):
        e = p.seq_elem(f["ty"])
        if e is not None:
            fs.append(eng.d.seq([mk("sub", base(e, key + ("path",)), ZERO, addc(depth, 1))]))
        elif f["name"] == "depth":
            fs.append(depth)
        else:
            fs.append(eng.d.mk_sym(f["ty"], key + (f["name"],)))
    return mk("agg", ty, 0, tuple(fs))


def rp_fields(eng, rg, kind):
    i = eng.p.variant_ix(rg.a[0], kind)
    n = 2 if kind == "Both" else 1
    return [RP(eng, strip(eng, None, eng.d.proj(rg, j, i))) for j in range(n)]


def range_spec(ctx, r, kind, deep):
    eng, d, p = r.eng, r.d, ctx.p
    rg, depth = r.sym[0], r.sym[1]
    xs = rp_fields(eng, rg, kind)
    lo = xs[0] if kind != "Right" else None
    hi = xs[-1] if kind != "Left" else None
    init = r.sym[2]

    def pieces(s, n):
        c = maybe_kids(eng, s, n)
        out = []
        a, b = ZERO, d.blen(c) if c is not None else ZERO
        if lo is not None:
            i = lo.index(depth)
            if s.entails(addc(sub(lo.depth, depth), -1)):
                a = addc(i, 1)
            elif s.entails(addc(lo.toff(), -1)):
                out.append(("from", i, lo.toff()))
                a = addc(i, 1)
            elif s.eq(lo.toff(), ZERO):
                a = i
            else:
                raise Split(ge(addc(sub(lo.depth, depth), -1)) if s.decide(ge(addc(sub(lo.depth, depth), -1))) is None
                            else eq0(lo.toff()))
        if hi is not None:
            b = hi.index(depth)
        if c is not None and not s.entails(sub(a, b)):
            out.append(("sub", c, a, b))
        elif c is None and hi is not None and not s.eq(a, b) and not s.entails(sub(a, b)):
            return None
        if hi is not None:
            if s.eq(hi.depth, depth):
                if s.entails(addc(hi.toff(), -1)):
                    out.append(("to", hi.index(depth), hi.toff()))
                elif not s.eq(hi.toff(), ZERO):
                    raise Split(eq0(hi.toff()))
            elif not s.entails(addc(sub(hi.depth, depth), -1)):
                raise Split(eq0(sub(hi.depth, depth)))
        return out

    def spec(s, v):
        cur = s.mem.get(("arg", 2))
        n = (hi or lo).node(depth)
        alt = lo.node(depth) if lo is not None and hi is not None else None
        msg = None
        for m in [n] + ([alt] if alt is not None else []):
            msg = one(s, cur, m)
            if msg is None:
                return None
        return msg

    def one(s, cur, n):
        for q, e in ((lo, 0), (hi, 1)):  # a position inside a child that is not a text cannot exist
            if q is not None and s.eq(q.depth, depth) and s.entails(addc(q.toff(), -1)):
                c = maybe_kids(eng, s, q.node(depth))
                if c is None or not s.variants(d.elem(c, q.index(depth))) & p.TEXT or \
                        s.entails(sub(q.index(depth), d.blen(c))):
                    return None
        want = pieces(s, n)
        if want is None:
            return None
        segs = list(cur.a[0])
        if any(g.k == "sub" and isinstance(g.a[0].a[1], tuple) and g.a[0].a[1][:1] == ("phi",) for g in segs):
            raise Undecided("a list whose rounds are not recognised")
        if not segs or segs[0].k != "sub" or not s.eq(d.seg_len(segs[0]), d.seq_len(init)):
            if not s.eq(d.seq_len(init), ZERO):
                return "what was collected before is not kept"
        else:
            segs = segs[1:]
        got = [g for g in segs if not (g.k == "sub" and s.entails(sub(g.a[1], g.a[2])))]
        if len(got) != len(want):
            return "contributes %s" % show(cur)[:300]
        for g, w in zip(got, want):
            if w[0] == "sub":
                if g.k == "one":
                    e = d.as_elem(g.a[0])
                    if not (e and e[0] is w[1] and s.eq(e[1], w[2]) and s.eq(addc(w[2], 1), w[3])):
                        return "contributes %s where the children %s..%s are due" % (show(g)[:160], show(w[2]), show(w[3]))
                elif not (g.k == "sub" and g.a[0] is w[1] and s.eq(g.a[1], w[2]) and (
                        s.eq(g.a[2], w[3]) or (w[3] is d.blen(w[1]) and s.entails(sub(g.a[2], w[3]))))):
                    return "contributes %s where the children %s..%s are due" % (show(g)[:160], show(w[2]), show(w[3]))
            else:
                x = g.a[0] if g.k == "one" else None
                c = maybe_kids(eng, s, (lo if w[0] == "from" else hi).node(depth))
                ch = d.elem(c, w[1])
                if x is None or x.k != "sym" or x.a[1][0] != "ncut" or x.a[1][1] is not ch:
                    return "contributes %s where part of a text is due" % show(g)[:200]
                a, b = x.a[1][2:]
                tl = d.tlen(d.node_text(ch))
                okk = (s.eq(a, w[2]) and s.eq(b, tl)) if w[0] == "from" else (s.eq(a, ZERO) and s.eq(b, w[2]))
                if not okk:
                    return "contributes the text from %s to %s" % (show(a)[:100], show(b)[:100])
        return None
    tag = "range:" + kind + "".join("deeper" if x else "here" for x in deep)
    ctx.judge(r, tag, spec)
    ctx.cover(r, tag, [("contributes children", lambda s, v: len(s.mem[("arg", 2)].a[0]) > 1)])


def maybe_kids(eng, s, n):
    """child list a node has if it can have children at all"""
    if not s.variants(n) & eng.p.CONTENT:
        return None
    return eng.d.finner(eng.d.node_frag(n)).a[0][0].a[0]


# ---------------------------------------------------------------- joins and closing
def joins(ctx):
    it = private(ctx, "check_join")
    r = ctx.run(it)
    if r:
        eng = r.eng
        a, b = (r.d.ntype(x) for x in r.sym[:2])

        def spec(s, v):
            c = compat(s, a, b)
            nm = res(eng, v)[0]
            if nm == "Ok" and c is not True:
                return "lets nodes be joined whose types are not compatible"
            if nm == "Err" and c is not False:
                return "refuses to join compatible types"
            return None
        ctx.judge(r, "check_join", spec)
        ctx.cover(r, "check_join", [("joins", lambda s, v: res(eng, v)[0] == "Ok"), ("refuses", lambda s, v: res(eng, v)[0] == "Err")])
    it = private(ctx, "joinable")
    r = ctx.run(it, with_=summaries("check_join"), assume=positions((0, 1)))
    if r:
        eng = r.eng
        f, t = rps(r, 0, 1)
        k = r.sym[2]

        def spec(s, v):
            nm, x = res(eng, v)
            if nm == "Err":
                return None if anyfail(s) else "fails although the nodes join"
            x = strip(eng, s, x)
            if not node_eq(eng, s, x, f.node(k)):
                return "gives %s, not the node on the left" % show(x)[:160]
            return None if joined_pair(eng, s, f.node(k), t.node(k)) else "joins nodes without checking their types"
        ctx.judge(r, "joinable", spec)
        ctx.cover(r, "joinable", [("joins", lambda s, v: res(eng, v)[0] == "Ok")])


def compat(s, a, b):
    for x, y in ((a, b), (b, a)):
        t = s.decide(mk("bv", ("compat", x, y)))
        if t is not None:
            return t
    return None


def joined_pair(eng, s, x, y):
    """the types of x and y were checked for compatibility"""
    if compat(s, eng.d.ntype(x), eng.d.ntype(y)) is True:
        return True
    for n in done(s, "join"):
        if {n[2], n[3]} == {x, y} or (node_eq(eng, s, n[2], x) and node_eq(eng, s, n[3], y)) or \
                (node_eq(eng, s, n[2], y) and node_eq(eng, s, n[3], x)):
            return True
    return False


def collected(eng, s, v):
    """the list a fragment result was collected in"""
    return [g for g in (v.a[0] if v.k == "seq" else eng.d.finner(v).a[0])
            if not (g.k == "sub" and s.entails(sub(g.a[1], g.a[2])))]


def match_list(eng, s, v, want):
    """v's children are the wanted contributions: ("range", lo, hi, depth) | ("node", node)"""
    got = collected(eng, s, v)
    if len(got) != len(want):
        return "collects %d parts where %d are due: %s" % (len(got), len(want), " ++ ".join(show(g)[:100] for g in got))
    for g, w in zip(got, want):
        if w[0] == "range":
            k = g.a[0].a[1] if g.k == "sub" else None
            if not (isinstance(k, tuple) and k[0] == "range" and g.a[1] is ZERO and s.eq(g.a[2], eng.d.blen(g.a[0]))):
                return "collects %s where a range is due" % show(g)[:160]
            if not (k[1] is w[1] and k[2] is w[2] and s.eq(k[3], w[3])):
                return "collects the range %s..%s at depth %s" % (show(k[1])[:60], show(k[2])[:60], show(k[3])[:60])
        else:
            x = g.a[0] if g.k == "one" else None
            if x is None or x.k != "sym" or x.a[1][0] != "joined":
                return "collects %s where a rebuilt node is due" % show(g)[:160]
            if not node_eq(eng, s, x.a[1][1], w[1]):
                return "collects %s, not %s" % (show(x.a[1][1])[:260], show(w[1])[:260])
    return None


def closed_rec(eng, s, node, kind, args):
    """closed(node, <recursion or two-way>(args))"""
    F = eng.p.find_adt("Fragment")
    if kind == "rec":
        for n in done(s, "rec"):
            if all(a is b or (a.k == "int" and s.eq(a, b)) for a, b in zip(n[3:], args)):
                return mk("sym", eng.p.node_ty, ("closed", node, mk("sym", F, ("rec", n[2]) + n[3:])))
        return None
    return mk("sym", eng.p.node_ty, ("closed", node, mk("sym", F, (kind,) + tuple(args))))


def two_way(ctx):
    it = private(ctx, "replace_two_way")
    r = ctx.run(it, with_=summaries("close", "add_range", "add_node", "check_join"), assume=positions((0, 1)))
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    fv, tv, depth = r.sym[:3]
    f, t = rps(r, 0, 1)
    up = addc(depth, 1)

    def spec(s, v):
        nm, x = res(eng, v)
        if nm == "Err":
            return None if anyfail(s) or any(b.k == "bv" and b.a[0][0] == "compat" and q is False for b, q in s.bools.items()) \
                else "fails without cause"
        want = [("range", ZERO, fv, depth)]
        if s.entails(addc(sub(f.depth, depth), -1)):
            if not joined_pair(eng, s, f.node(up), t.node(up)):
                return "joins nodes without checking their types"
            c = closed_rec(eng, s, f.node(up), "rec", (fv, tv, up))
            if c is None:
                return "joins nodes without descending one level with the same positions"
            want.append(("node", c))
        elif not s.entails(sub(depth, f.depth)):
            raise Split(ge(sub(depth, f.depth)))
        want.append(("range", tv, ZERO, depth))
        return match_list(eng, s, x, want)
    ctx.judge(r, "two-way", spec)
    ctx.cover(r, "two-way", [("joins", lambda s, v: res(eng, v)[0] == "Ok" and s.entails(addc(sub(f.depth, depth), -1))),
                             ("innermost level", lambda s, v: res(eng, v)[0] == "Ok" and s.entails(sub(depth, f.depth)))])


def three_way(ctx):
    it = private(ctx, "replace_three_way")
    r = ctx.run(it, with_=summaries("close", "add_range", "add_node", "check_join", "replace_two_way"),
                assume=positions((0, 1, 2, 3)))
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    fv, sv, ev, tv, depth = r.sym[:5]
    f, st, en, t = rps(r, 0, 1, 2, 3)
    up = addc(depth, 1)
    seen = set()

    def spec(s, v):
        nm, x = res(eng, v)
        if nm == "Err":
            return None if anyfail(s) or any(b.k == "bv" and b.a[0][0] == "compat" and q is False for b, q in s.bools.items()) \
                else "fails without cause"
        os_ = s.entails(addc(sub(f.depth, depth), -1))
        oe_ = s.entails(addc(sub(t.depth, depth), -1))
        if not os_ and not s.entails(sub(depth, f.depth)) or not oe_ and not s.entails(sub(depth, t.depth)):
            raise Split(ge(sub(depth, (f if s.decide(ge(sub(depth, f.depth))) is None else t).depth)))
        if os_ and not joined_pair(eng, s, f.node(up), st.node(up)):
            return "joins the start without checking the types"
        if oe_ and not joined_pair(eng, s, en.node(up), t.node(up)):
            return "joins the end without checking the types"
        want = [("range", ZERO, fv, depth)]
        if os_ and oe_ and s.eq(st.index(depth), en.index(depth)):
            seen.add("one")
            if not joined_pair(eng, s, f.node(up), en.node(up)):
                return "joins the two ends without checking their types"
            c = closed_rec(eng, s, f.node(up), "rec", (fv, sv, ev, tv, up))
            if c is None:
                return "joins both ends without descending one level with the same positions"
            want.append(("node", c))
        else:
            if os_ and oe_ and not (s.entails(addc(sub(st.index(depth), en.index(depth)), -1)) or
                                    s.entails(addc(sub(en.index(depth), st.index(depth)), -1))
                                    or ne_known(s, st.index(depth), en.index(depth))):
                raise Split(eq0(sub(st.index(depth), en.index(depth))))
            if os_:
                want.append(("node", closed_rec(eng, s, f.node(up), "two", (fv, sv, up))))
            want.append(("both", sv, ev, depth))
            if oe_:
                want.append(("node", closed_rec(eng, s, en.node(up), "two", (ev, tv, up))))
            seen.add(("start" if os_ else "") + ("end" if oe_ else ""))
        want = [("range",) + w[1:] if w[0] == "both" else w for w in want]
        want.append(("range", tv, ZERO, depth))
        return match_list(eng, s, x, want)
    ctx.judge(r, "three-way", spec)
    for k in ("one", "start", "end", "startend", ""):
        ctx.covered(k in seen, it["path"], "three-way:" + (k or "flat"), loc(it), "no path handles the case of %s" % (k or "two flat ends"))


def ne_known(s, a, b):
    return s.decide(eq0(sub(a, b))) is False


def closing(ctx):
    it = private(ctx, "close")
    r = ctx.run(it)
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    n, f = r.sym[:2]

    def spec(s, v):
        nm, x = res(eng, v)
        ok = s.decide(mk("bv", ("valid", d.ntype(n), f)))
        if nm == "Err":
            return None if ok is False else "refuses content that the type allows"
        if ok is not True:
            return "accepts content without the type's check"
        if x.k == "sym" and x.a[1][0] == "copyf" and node_eq(eng, s, x.a[1][1], n) and frag_eq(eng, s, x.a[1][2], f):
            return None
        if x is n and not s.variants(n) & p.CONTENT:
            return None
        return "gives %s, not the node with the content" % show(x)[:200]
    ctx.judge(r, "close", spec)
    ctx.cover(r, "close", [("closes", lambda s, v: res(eng, v)[0] == "Ok"), ("refuses", lambda s, v: res(eng, v)[0] == "Err")])


def prepare(ctx):
    it = private(ctx, "prepare_slice_for_replace")

    def f1(eng, st, sym):
        return ge(sub(RP(eng, sym[1]).depth, eng.d.named(sym[0], "open_start")))
    r = ctx.run(it, assume=[lambda eng, st, sym: RP(eng, sym[1]).wellformed()[0], f1])
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    sl = r.sym[0]
    al = RP(eng, r.sym[1])
    os, oe, sc = (d.named(sl, n) for n in ("open_start", "open_end", "content"))
    extra = sub(al.depth, os)
    where = loc(it)
    recs = [x for x in eng.loop_log if any(ph.kind == "sym" and ph.ty == p.node_ty for ph in x["phis"].values())]
    if not recs:
        ctx.unk(it["path"], "no loop carries the node being wrapped")
        return
    wrapped = {}
    for rec in recs:
        nd = [q for q, ph in rec["phis"].items() if ph.kind == "sym" and ph.ty == p.node_ty]
        if len(nd) != 1:
            ctx.unk(it["path"], "wrapped node")
            return
        nd = nd[0]
        es = rec["entry"]
        b0 = rec["Be"][nd]
        if b0.k == "sym" and level(al, b0) is not None and not es.variants(b0) & p.CONTENT:
            continue  # a node on a path has children
        ctx.check(b0.k == "sym" and isinstance(b0.a[1], tuple) and b0.a[1][0] == "copyf" and b0.a[1][2] is sc and
                  node_eq(eng, es, b0.a[1][1], al.node(extra)),
                  "prepare:inner", where, "the slice's content is first put in %s, not in the node at the open depth" % show(b0)[:200])
        for s, B in rec["backs"]:
            if B is None:
                continue
            x = B[nd]
            lv = level(al, x)
            if lv is not None and x.a[1][0] != "copyf" and not s.variants(x) & p.CONTENT:
                continue
            if x.k != "sym" or x.a[1][0] != "copyf":
                ctx.bad("prepare:wrap", where, "a level is wrapped as %s" % show(x)[:200])
                continue
            pts = parts(eng, s, x.a[1][2])
            lv = level(al, x.a[1][1])
            if not (lv is not None and len(pts) == 1 and pts[0][0] == "one" and node_eq(eng, s, pts[0][1], nd)):
                ctx.bad("prepare:wrap", where, "a level is wrapped as %s" % show(x)[:200])
                continue
            # the integer the level is read from counts down by one from extra
            at = [a for a, _ in lv.a[1] if a in rec["phis"]]
            if len(at) != 1:
                ctx.unk(it["path"], "level counter")
                continue
            wrapped[nd] = lv
            first = d.subst(lv, {at[0]: rec["Be"][at[0]]})
            nxt = d.subst(lv, {at[0]: B[at[0]]})
            ctx.check(s.eq(nxt, addc(lv, -1)) and es.eq(first, addc(extra, -1)), "prepare:levels", where,
                      "the levels wrapped start at %s and go on with %s after %s" % (
                          show(first)[:100], show(nxt)[:100], show(lv)[:60]))
    # the levels wrapped are extra-1 down to 0
    for s, v in r.outs:
        if v.k == "agg" and p.adt_name(v.a[0]) == "Option":
            if res(eng, v)[0] == "None":
                ns = [(B or {}).get(q) for x in recs for q, ph in x["phis"].items() if ph.kind == "sym" for _, B in x["backs"]]
                ns += [q for x in recs for q, ph in x["phis"].items() if ph.kind == "sym"] + [x["Be"][q] for x in recs for q in x["phis"]]
                if any(n is not None and n.k == "sym" and n.a[0] == p.node_ty and
                       s.entails(addc(sub(add(oe, extra), d.fsize(d.node_frag(n)) if s.variants(n) & p.CONTENT else ZERO), -1))
                       for n in ns):
                    ctx.ok()
                else:
                    ctx.unk(it["path"], "why no node is prepared")
                continue
            v = res(eng, v)[1]
        try:
            a, b, c = (d.proj(v, i) for i in range(3))
        except Exception:
            ctx.unk(it["path"], "result")
            continue
        if a in wrapped and any(s2.feasible() for s2 in s.copy().assume(ge(wrapped[a]))):
            ctx.bad("prepare:outermost", where, "the levels from %s outwards are not wrapped" % show(wrapped[a])[:60])
        elif not s.eq(b, al.depth):
            ctx.bad("prepare:start", where, "the start in the prepared node is %s" % show(b)[:160])
        elif s.variants(a) <= p.CONTENT and not s.eq(c, sub(sub(d.fsize(d.node_frag(a)), oe), extra)):
            ctx.bad("prepare:end", where, "the end in the prepared node is %s" % show(c)[:200])
        else:
            ctx.ok()


def level(al, n):
    """i when n is the path's node at level i"""
    k = n
    for _ in range(6):
        if isinstance(k, T):
            if k.k != "sym" or not isinstance(k.a[1], tuple):
                return None
            if k.a[1][0] == "elem" and k.a[1][1] is al.base:
                return k.a[1][2]
            k = k.a[1]
        if k[0] not in ("deref", "fld"):
            return None
        k = k[1]
    return None


def check_c19(ctx):
    ctx.par([("entry", entry), ("outer", outer), ("ranges", ranges), ("joins", joins), ("two", two_way),
             ("three", three_way), ("close", closing), ("prepare", prepare)])


# ---------------------------------------------------------------- C05
def spliced(ctx):
    """every node the replacement functions build is closed over its new children, or exchanges one child for a
    rebuilt one"""
    r = run_outer(ctx)
    if r:
        eng, d, p = r.eng, r.d, ctx.p
        f = rps(r, 0)[0]
        depth = r.sym[3]
        node = f.node(depth)

        def spec(s, v):
            nm, x = res(eng, v)
            if nm == "Err":
                return None
            k = x.a[1] if x.k == "sym" and isinstance(x.a[1], tuple) else (None,)
            if k[0] == "closed":
                return None
            if k[0] == "rec":
                return None
            if k[0] == "copyf" and node_eq(eng, s, k[1], node):
                if frag_eq(eng, s, k[2], d.node_frag(node)):
                    return None
                c = maybe_kids(eng, s, node)
                got = parts(eng, s, k[2])
                i = f.index(depth)
                for n in done(s, "rec"):
                    if not s.eq(n[6], addc(depth, 1)) or n[3] is not r.sym[0]:
                        continue
                    new = mk("sym", p.node_ty, ("rec", n[2]) + n[3:])
                    want = parts(eng, s, d.seq([mk("sub", c, ZERO, i), d.one(new), mk("sub", c, addc(i, 1), d.blen(c))]))
                    if len(got) == len(want) and all(part_eq(eng, s, u, w) for u, w in zip(got, want)):
                        return None
                return "gives the node new children without the check of its type"
            if not s.variants(node) & p.CONTENT or x is node:
                return None
            return "gives %s without the check of its type" % show(x)[:200]
        ctx.judge(r, "outer", spec)
        ctx.cover(r, "outer", [("closes a node", lambda s, v: res(eng, v)[0] == "Ok" and "closed(" in show(v))])
    for name, n, extra in (("replace_two_way", 2, ()), ("replace_three_way", 4, ("replace_two_way",))):
        it = private(ctx, name)
        r = ctx.run(it, with_=summaries("close", "add_range", "add_node", "check_join", *extra), assume=positions(range(n)))
        if not r:
            continue
        eng, d = r.eng, r.d

        def spec(s, v):
            nm, x = res(eng, v)
            if nm == "Err":
                return None
            for g in collected(eng, s, x):
                if g.k == "sub" and g.a[0].a[1][0] == "range":
                    continue
                y = g.a[0] if g.k == "one" else None
                if y is not None and y.k == "sym" and y.a[1][0] == "joined":
                    y = y.a[1][1]
                if y is not None and y.k == "sym" and y.a[1][0] == "closed":
                    continue
                return "puts in %s without the check of its type" % show(g)[:200]
            return None
        ctx.judge(r, name, spec)
        ctx.cover(r, name, [("builds a list", lambda s, v: res(eng, v)[0] == "Ok")])


def delegates(ctx):
    """a replaced document is what replace_outer gave"""
    it = ctx.item("replace", trait="Node")
    r = ctx.run(it, open_=[("Node", "replace")], with_=summaries("replace"))
    r2 = ctx.run(private(ctx, "replace", sig="ResolvedPos"), with_=summaries("replace_outer"), assume=positions((0, 1)))
    for q, tag in ((r, "rep"), (r2, "outer")):
        if not q:
            continue
        eng = q.eng

        def spec(s, v, tag=tag, eng=eng):
            nm, x = res(eng, v)
            if nm == "Ok" and not (x.k == "sym" and isinstance(x.a[1], tuple) and x.a[1][0] == tag):
                return "gives %s, which no check has seen" % show(x)[:200]
            return None
        ctx.judge(q, "delegates:" + tag, spec)
        ctx.cover(q, "delegates:" + tag, [("replaces", lambda s, v, eng=eng: res(eng, v)[0] == "Ok")])


def check_c05(ctx):
    from . import content
    ctx.par([("delegates", delegates), ("spliced", spliced), ("close", closing), ("matching", content.folding),
             ("valid", content.valid_lists), ("marks", content.mark_sets)])
