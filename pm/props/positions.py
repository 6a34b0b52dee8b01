"""C10 position resolution.

find_index is interpreted for an arbitrary fragment and position: the index it gives is the child the position
lies in or before, its offset the sum of the sizes before it.  resolve is interpreted with find_index standing
for that definition: every round of its loop and its exit must extend the path by the entry of the node at
hand and go on with the child the position lies in.  The accessors are interpreted for an arbitrary path and
compared with their definitions."""
from ..parts import *
from ..dom import unkey
from .replace import private, positions, position_at, anyfail


# ---------------------------------------------------------------- find_index
def lookup(ctx):
    try:
        it = ctx.item("find_index", owner="Fragment")
    except Missing:
        raise MissingPrivate("find_index")
    r = ctx.run(it)
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    fr, pos, rnd = r.sym[0], r.args[1], r.args[2]
    b = d.finner(fr).a[0][0].a[0]
    size = d.fsize(fr)

    def spec(s, v):
        nm, x = res(eng, v)
        if nm == "Err":
            return None if s.entails(addc(sub(pos, size), -1)) else "fails although the position lies inside"
        i, o = d.named(x, "index"), d.named(x, "offset")
        if not s.entails(sub(size, pos)):
            return "accepts a position behind the end"
        if not s.eq(o, pre(d, s, b, i)):
            return "gives the offset %s for the child %s" % (show(o)[:120], show(i)[:80])
        if not (s.entails(i) and s.entails(sub(d.blen(b), i))):
            return "gives the index %s" % show(i)[:100]
        if s.eq(o, pos):
            return None
        on = s.decide(rnd)
        down = s.entails(addc(sub(d.blen(b), i), -1)) and s.entails(addc(sub(pos, o), -1)) and \
            s.entails(addc(sub(add(o, d.size(d.elem(b, i))), pos), -1))
        up = s.entails(addc(i, -1)) and s.entails(addc(sub(o, pos), -1)) and \
            s.entails(addc(sub(pos, d.P(b, "size", addc(i, -1))), -1))
        if on is False and down or on is True and up or on is None and down and up:
            return None
        return "gives the child %s at %s for a position inside a child" % (show(i)[:80], show(o)[:120])
    ctx.judge(r, "find_index", spec)
    ctx.cover(r, "find_index", [
        ("finds a child", lambda s, v: res(eng, v)[0] == "Ok" and not s.eq(d.named(res(eng, v)[1], "offset"), pos)),
        ("finds a boundary", lambda s, v: res(eng, v)[0] == "Ok" and s.eq(d.named(res(eng, v)[1], "offset"), pos)),
        ("refuses", lambda s, v: res(eng, v)[0] == "Err")])


def pre(d, s, b, i):
    if s.eq(i, ZERO):
        return ZERO
    return d.P(b, "size", i)


# ---------------------------------------------------------------- resolve
def resolving(ctx):
    it = ctx.item("resolve", trait="Node")
    r = ctx.run(it, open_=[("Node", "resolve")])
    if r is None:
        return
    it = ctx.item("resolve", owner="ResolvedPos")
    r = ctx.run(it, with_=summaries("find_index"), open_=[("ResolvedPos", "resolve"), ("Node", "resolve")])
    if not r:
        return
    walk(ctx, r)


def walk(ctx, r):
    eng, d, p = r.eng, r.d, ctx.p
    doc, pos = r.sym[0], r.args[1]
    where = loc(r.it)
    nm = short(r.it["path"])

    def csizes(s, n):
        """[(state, content size)] by kind of node"""
        out = []
        for part in (p.CONTENT, p.TEXT | p.LEAF):
            s2 = s.copy()
            vs = s2.variants(n) & part
            if vs and s2.refine(n, vs) and s2.feasible():
                out.append((s2, d.fsize(d.node_frag(n)) if part is p.CONTENT else ZERO))
        return out

    def entry(s, e):
        """(node, X): the entry is that of node for the relative position X"""
        n = d.named(e, "node")
        n = n.a[0] if n.k == "ref" else strip(eng, s, n)
        i, bf = d.named(e, "index"), d.named(e, "before")
        x = None
        for a, _ in i.a[1]:
            k = unkey(a.a[1]) if len(a.a) > 1 else None
            if isinstance(k, tuple) and k[0] == "fidx":
                x = k
        if x is None:
            if s.eq(i, ZERO) and not s.variants(n) & p.CONTENT:
                return n, None, ZERO, None  # no children: nothing to look up
            if s.eq(i, ZERO):
                return n, None, ZERO, None
            raise Undecided("index of a path entry")
        _, f, X = x
        if not (i.a[0] == 0 and len(i.a[1]) == 1 and i.a[1][0][1] == 1):
            return "the entry's index is %s" % show(i)[:100]
        if not frag_same_obj(eng, s, f, d.node_frag(n)):
            return "the entry's index belongs to another node"
        b = d.finner(f).a[0][0].a[0]
        off = d.P(b, "size", i)
        if not s.eq(bf, add(sub(pos, X), off)):
            return "the entry starts at %s" % show(bf)[:160]
        return n, X, off, (b, i)

    loops = {}
    for rec in eng.loop_log:
        for q, ph in rec["phis"].items():
            if ph.kind == "seq":
                loops[q] = rec

    def grown(s, v):
        """(loop symbol or None, the new entry) of a path that grew by one"""
        segs = v.a[0]
        if segs and segs[-1].k == "one":
            if len(segs) == 1:
                return None, segs[-1].a[0]
            if len(segs) == 2 and segs[0].k == "sub" and segs[0].a[0] in loops and segs[0].a[1] is ZERO and \
                    s.eq(segs[0].a[2], d.blen(segs[0].a[0])):
                return segs[0].a[0], segs[-1].a[0]
        raise Undecided("how the path grows")

    def at_head(s, q, n, X, e):
        """the entry is for the node and position of this round"""
        if q is None:
            if n is not doc or (X is not None and not s.eq(X, pos)):
                return "the path starts with %s" % show(n)[:120]
            return None
        rec = loops[q]
        if n not in rec["phis"] and n is not doc:
            return "a round adds %s, not the node at hand" % show(n)[:120]
        return None
    used = []
    for q, rec in loops.items():
        es = rec["entry"]
        b0 = rec["Be"][q]
        for s, B in rec["backs"]:
            if B is None or q not in B:
                continue
            try:
                q2, e = grown(s, B[q])
                if q2 is not q:
                    raise Undecided("how the path grows")
                x = entry(s, e)
                if isinstance(x, str):
                    ctx.bad("walk", where, "%s: %s" % (nm, x))
                    continue
                n, X, off, at = x
                m = at_head(s, q, n, X, e)
                if m:
                    ctx.bad("walk", where, "%s: %s" % (nm, m))
                    continue
                if n not in rec["phis"] or X is None or at is None:
                    raise Undecided("the node at hand")
            except Undecided as ex:
                ctx.unk(r.it["path"], "%s" % ex)
                continue
            ch = d.elem(*at)
            used.append((rec, n, X))
            n0, X0 = rec["Be"][n], d.subst(X, rec["Be"])
            n1, X1 = B[n], d.subst(X, {k: v for k, v in B.items()})
            n0, n1 = (strip(eng, s, z) for z in (n0, n1))
            ctx.check(n1 is ch, "walk:child", where, "%s goes on with %s, not with the child the position lies in" % (nm, show(n1)[:160]))
            ctx.check(s.eq(X1, addc(sub(X, off), -1)), "walk:offset", where,
                      "%s goes on with the position %s inside the child" % (nm, show(X1)[:160]))
            ctx.check(not s.variants(ch) & p.TEXT, "walk:text", where, "%s descends into a text" % nm)
            # the position stays inside: the next look-up does not fail
            for s2, c1 in csizes(s, ch):
                s3 = s2.copy()
                good = s3.entails(sub(c1, X1)) and s3.entails(X1)
                if not good and not s.variants(ch) & p.TEXT and c1 is ZERO:
                    good = not s3.assume(addc_ok(d, s3, ch)) or not s3.feasible()
                ctx.check(good, "walk:inside", where, "%s may go on with a position outside the child" % nm)
            if n0 is not doc or not es.eq(X0, pos):
                # a first round before the loop
                try:
                    q3, e0 = grown(es, b0)
                    y = entry(es, e0)
                    if isinstance(y, str):
                        ctx.bad("walk:first", where, "%s: %s" % (nm, y))
                        continue
                    ok0 = q3 is None and y[0] is doc and y[3] is not None and es.eq(y[1], pos) and n0 is d.elem(*y[3]) and \
                        es.eq(X0, addc(sub(y[1], y[2]), -1))
                except Undecided as ex:
                    ctx.unk(r.it["path"], "%s" % ex)
                    continue
                ctx.check(ok0, "walk:first", where, "%s starts with %s" % (nm, show(n0)[:120]))
            else:
                ctx.check(b0.k == "seq" and es.eq(d.seq_len(b0), ZERO), "walk:first", where,
                          "%s starts with the path %s" % (nm, show(b0)[:120]))

    def spec(s, v):
        k, x = res(eng, v)
        if k == "Err":
            nme = vname(eng, x)
            if nme == "RangeError":
                if not s.eq(d.proj(x, 0, x.a[1]), pos):
                    return "reports another position"
                dc = csizes(s, doc)
                return None if all(z.entails(addc(sub(pos, c), -1)) for z, c in dc) else "refuses a position inside the document"
            for n in anyfail(s):
                if n[1] == "findidx":
                    f, X = n[2], n[3]
                    for rec, nn, X2 in used:
                        if X2 is X or s.eq(X2, X):
                            return None  # cannot happen: the position stays inside the node (checked per round)
                    if s.eq(X, pos):
                        return None if s.entails(addc(sub(pos, d.fsize(f)), -1)) else "fails on a position inside"
            return "fails with %s" % nme
        q = RPL(eng, x)
        if not s.eq(q[0], pos):
            return "records the position %s" % show(q[0])[:100]
        lpath, e = grown(s, q[1])
        z = entry(s, e)
        if isinstance(z, str):
            return z
        n, X, off, at = z
        m = at_head(s, lpath, n, X, e)
        if m:
            return m
        if not s.eq(q[3], addc(d.seq_len(q[1]), -1)):
            return "records the depth %s" % show(q[3])[:100]
        if lpath is None and not all(y.entails(sub(c, pos)) for y, c in csizes(s, doc)):
            return "resolves a position behind the end"
        if X is None:
            # a node without children, or an empty list: only position 0
            if s.eq(d.named(e, "before"), pos) or not s.eq(q[2], ZERO) or True:
                return None if s.eq(q[2], ZERO) and s.eq(d.named(e, "before"), pos) else \
                    "stops in a node without children with the offset %s" % show(q[2])[:80]
        if not s.eq(q[2], X):
            return "records the parent offset %s" % show(q[2])[:100]
        if s.eq(off, X):
            return None
        if at is not None and s.variants(d.elem(*at)) <= p.TEXT:
            return None
        return "stops although the position lies inside a child"
    ctx.judge(r, "resolve", spec)
    ctx.cover(r, "resolve", [("resolves", lambda s, v: res(eng, v)[0] == "Ok"),
                             ("refuses", lambda s, v: res(eng, v)[0] == "Err" and vname(eng, res(eng, v)[1]) == "RangeError")])
    ctx.covered(bool(used), r.it["path"], "walk:deeper", where, "%s never descends into a child" % nm)


def addc_ok(d, s, ch):
    """a leaf has size one"""
    return eq0(addc(d.size(ch), -1))


def RPL(eng, v):
    d = eng.d
    return d.named(v, "pos"), d.named(v, "path"), d.named(v, "parent_offset"), d.named(v, "depth")


# ---------------------------------------------------------------- accessors
ACC = "parent doc node index index_after start end before after text_offset node_before node_after".split()


def accessors(ctx):
    for n in ACC:
        accessor(ctx, n)


def at_position(ctx, it):
    """the receiver is an arbitrary resolved position: one path entry per level, the position not before the
    innermost entry, that entry's index inside its node"""
    p = ctx.p
    f = p.fns[it["insts"][0][1]]

    def setup(eng, st):
        ty, n = f["locals"][1], 0
        while p.types[ty]["k"] == "ref":
            n, ty = n + 1, p.types[ty]["elem"]
        us = next(x["ty"] for x in p.fields(ty) if x["name"] == "depth")
        v = position_at(eng, ty, ("arg", "a0"), None, eng.d.mk_sym(us, ("arg", "depth")))
        for _ in range(n):
            v = ref(v)
        return {0: v}
    return setup


def setup_acc(n):
    def rp(eng, sym):
        return RP(eng, strip(eng, None, sym[0]))

    asm = [lambda eng, st, sym: ge(rp(eng, sym).toff())]
    if n in ("node", "index", "index_after", "start", "end"):
        asm.append(lambda eng, st, sym: ge(sub(rp(eng, sym).depth, sym[1])))
    if n in ("before", "after"):
        asm.append(lambda eng, st, sym: ge(sub(addc(rp(eng, sym).depth, 1), sym[1])))
    return asm


def accessor(ctx, n):
    it = ctx.item(n, owner="ResolvedPos")
    r = ctx.run(it, with_=summaries("cut"), setup=at_position(ctx, it), assume=setup_acc(n))
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    R = RP(eng, strip(eng, None, r.sym[0]))
    k = r.sym[1] if len(r.sym) > 1 else None

    def node_is(s, v, x):
        y = strip(eng, s, v)
        return y is x or node_eq(eng, s, y, x)

    def start(s, k):
        if s.eq(k, ZERO):
            return ZERO
        if s.entails(addc(k, -1)):
            return addc(R.before(addc(k, -1)), 1)
        raise Split(eq0(k))

    def csize(s, n):
        vs = s.variants(n)
        if vs <= p.CONTENT:
            return d.fsize(d.node_frag(n))
        if not vs & p.CONTENT:
            return ZERO
        raise SplitKind(n, p.CONTENT)

    def at_level(s, v):
        nm, x = res(eng, v)
        if s.eq(k, ZERO):
            return nm, x, None
        if s.eq(k, addc(R.depth, 1)):
            return nm, x, R.pos
        if s.entails(addc(k, -1)) and s.entails(sub(R.depth, k)):
            return nm, x, addc(R.before(addc(k, -1)), 0)
        raise Split(eq0(k) if s.decide(eq0(k)) is None else eq0(sub(k, addc(R.depth, 1))))

    def neighbour(s, v, after):
        nm, x = res(eng, v)
        par = R.node(R.depth)
        i, t = R.index(R.depth), R.toff()
        c = maybe_kids_(eng, s, par)
        if nm == "None":
            if c is None:
                if s.variants(par) & p.CONTENT:
                    raise SplitKind(par, p.CONTENT)
                return None  # no children at all
            n_ = d.blen(c)
            if s.eq(i, n_) if after else s.eq(i, ZERO) and s.entails(neg(t)):
                return None
            if s.entails(addc(sub(i, n_), -1)) or s.entails(addc(t, -1)) and s.entails(sub(i, n_)):
                return None  # no position has this index
            if s.decide(eq0(t)) is None:
                raise Split(eq0(t))
            if s.decide(eq0(i)) is None:
                raise Split(eq0(i))
            if s.decide(eq0(sub(i, n_))) is None:
                raise Split(eq0(sub(i, n_)))
            return "gives nothing although a child %s" % ("follows" if after else "precedes")
        y = x.a[2][0] if x.k == "agg" else x
        y = strip(eng, s, y)
        if c is None:
            return "gives a child of a node without children"
        if s.entails(addc(t, -1)):
            ch = d.elem(c, i)
            kk = y.a[1] if y.k == "sym" and isinstance(y.a[1], tuple) else (None,)
            if kk[0] != "ncut" or kk[1] is not ch:
                return "gives %s inside a text" % show(y)[:160]
            if not after:
                lo, hi = ZERO, t
            elif not (s.variants(ch) <= p.TEXT or s.variants(ch) <= p.CONTENT):
                for part in (p.TEXT, p.CONTENT):  # a position is inside a child with a size
                    s2 = s.copy()
                    vs = s2.variants(ch) & part
                    m = neighbour(s2, v, after) if vs and s2.refine(ch, vs) and s2.feasible() else None
                    if m:
                        return m
                return None
            else:
                lo, hi = t, d.tlen(d.node_text(ch)) if s.variants(ch) <= p.TEXT else csize(s, ch)
            return None if s.eq(kk[2], lo) and s.eq(kk[3], hi) else "gives the part %s..%s" % (show(kk[2])[:80], show(kk[3])[:80])
        if not s.entails(neg(t)):
            raise Undecided("offset in the text")
        want = d.elem(c, i if after else addc(i, -1))
        return None if node_is(s, y, want) else "gives %s" % show(y)[:160]

    def spec(s, v):
        if n == "parent":
            return None if node_is(s, v, R.node(R.depth)) else "gives %s" % show(v)[:160]
        if n == "doc":
            return None if node_is(s, v, R.node(ZERO)) else "gives %s" % show(v)[:160]
        if n == "node":
            return None if node_is(s, v, R.node(k)) else "gives %s" % show(v)[:160]
        if n == "node_before" or n == "node_after":
            return neighbour(s, v, n == "node_after")
        if n == "before" or n == "after":
            nm, x, w = at_level(s, v)
            if w is None:
                return None if nm == "None" else "gives a position around the root"
            if nm != "Some":
                return "gives nothing for an inner level"
            if n == "after" and w is not R.pos:
                w = add(w, d.size(R.node(k)))
            return None if s.eq(x, w) else "gives %s" % show(x)[:160]
        want = {"index": lambda: R.index(k), "start": lambda: start(s, k), "text_offset": lambda: R.toff(),
                "end": lambda: add(start(s, k), csize(s, R.node(k)))}.get(n)
        if want:
            w = want()
        else:  # index_after
            here = s.decide(eq0(sub(k, R.depth)))
            flat = s.decide(eq0(R.toff())) if here is not False else False
            for b, dec in ((eq0(sub(k, R.depth)), here), (eq0(R.toff()), flat)):
                if dec is None:
                    for c in (b, mk("not", b)):
                        for s2 in s.copy().assume(c):
                            m = spec(s2, v) if s2.feasible() else None
                            if m:
                                return m
                    return None
            w = R.index(k) if here and flat else addc(R.index(k), 1)
        return None if v.k == "int" and s.eq(v, w) else "gives %s" % show(v)[:200]
    ctx.judge(r, "accessor:" + n, spec)
    ctx.covered(bool(r.outs), it["path"], "accessor:%s:returns" % n, loc(it), "%s never returns" % n)
    if n in ("before", "after"):
        ctx.cover(r, "accessor:" + n, [("gives the position itself below the innermost level", lambda s, v: any(
            x.feasible() for x in s.copy().assume(eq0(sub(k, addc(R.depth, 1)))))),
            ("gives a position at the innermost level", lambda s, v: any(
                y.feasible() for x in s.copy().assume(eq0(sub(k, R.depth))) for y in x.assume(ge(addc(k, -1)))))])
    # every level a position has is answered
    for kind, w, stack, s in r.panics:
        s = s.copy()
        if n in ("node_before", "node_after"):  # where a position has a text offset, it is inside a child
            par = R.node(R.depth)
            for s1 in s.assume(ge(addc(R.toff(), -1))):
                if s1.feasible() and s1.variants(par) & p.CONTENT:
                    c = maybe_kids_(eng, s1, par)
                    s1.refine(par, s1.variants(par) & p.CONTENT)
                    if any(x.feasible() for x in s1.assume(ge(addc(sub(d.blen(c), R.index(R.depth)), -1)))):
                        break
            else:
                s = s.copy()
                if not any(x.feasible() for x in s.assume(eq0(R.toff()))):
                    continue
        if not s.feasible():
            continue
        if inexact(s, None):
            ctx.unk(it["path"], "panic: %s" % kind)
        else:
            ctx.bad("accessor:%s:panics" % n, loc(it), "%s panics (%s) at a position or level there is" % (n, kind))
    if n in ("before", "after", "node_before", "node_after"):
        ctx.cover(r, "accessor:" + n, [("gives something", lambda s, v: res(eng, v)[0] == "Some"),
                                       ("gives nothing", lambda s, v: res(eng, v)[0] == "None")])


def maybe_kids_(eng, s, n):
    if not s.variants(n) & eng.p.CONTENT:
        return None
    return eng.d.finner(eng.d.node_frag(n)).a[0][0].a[0]


def shared(ctx):
    it = ctx.item("shared_depth", owner="ResolvedPos")
    r = ctx.run(it, assume=positions((0,)))
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    R = RP(eng, r.sym[0])
    pos = r.sym[1]
    where = loc(it)

    def cond(s, k):
        """does the node at level k contain pos?  True / False / None"""
        n = R.node(k)
        st = addc(R.before(addc(k, -1)), 1)
        got = set()
        for part in (p.CONTENT, p.TEXT | p.LEAF):
            s2 = s.copy()
            vs = s2.variants(n) & part
            if not vs or not s2.refine(n, vs) or not s2.feasible():
                continue
            en = add(st, d.fsize(d.node_frag(n)) if part is p.CONTENT else ZERO)
            if s2.entails(sub(pos, st)) and s2.entails(sub(en, pos)):
                got.add(True)
            elif s2.entails(addc(sub(st, pos), -1)) or s2.entails(addc(sub(pos, en), -1)):
                got.add(False)
            else:
                got.add(None)
        return got.pop() if len(got) == 1 else None

    def loop_facts(s, k):
        """(contains at k, does not contain at k+1) as the loops give them"""
        a = b = False
        for rec in eng.loop_log:
            for q, ph in rec["phis"].items():
                if ph.kind != "int" or not rec["backs"]:
                    continue
                x = ia(q)
                off = sub(k, x)
                if not is_const(off):
                    off = None
                    for c in (-1, 0, 1):
                        if s.eq(k, addc(x, c)):
                            off = c
                    if off is None:
                        continue
                else:
                    off = off.a[0]
                at0 = addc(rec["Be"][q], off)
                down = all(B and rec["phis"] and s2.eq(B[q], addc(x, -1)) and cond(s2, addc(x, off)) is False for s2, B in rec["backs"])
                up = all(B and s2.eq(B[q], addc(x, 1)) and cond(s2, addc(x, off + 1)) is True for s2, B in rec["backs"])
                if down and rec["entry"].eq(at0, R.depth):
                    b = True
                if up and rec["entry"].eq(at0, ZERO):
                    a = True
        return a, b

    def spec(s, v):
        ks = [v]
        for rec in eng.loop_log:  # a constant result stands for the loop's own counter
            for q, ph in rec["phis"].items():
                if ph.kind == "int":
                    for c in (-1, 0, 1):
                        if s.eq(v, addc(ia(q), c)):
                            ks.append(addc(ia(q), c))
        if not s.entails(sub(R.depth, v)):
            return "gives %s, which may be deeper than the position" % show(v)[:80]
        A = s.eq(v, ZERO) or cond(s, v) is True
        Bq = s.eq(v, R.depth) or cond(s, addc(v, 1)) is False
        for k in ks:
            a, b = loop_facts(s, k)
            A, Bq = A or a, Bq or b
        if not A:
            return "gives a level whose node may not contain the other position"
        if not Bq:
            return "gives a level although a deeper node may contain both positions"
        return None
    ctx.judge(r, "shared_depth", spec)
    ctx.cover(r, "shared_depth", [("gives the root", lambda s, v: s.eq(v, ZERO)), ("gives a deeper level", lambda s, v: not s.eq(v, ZERO))])


def check_c10(ctx):
    ctx.par([("lookup", lookup), ("resolve", resolving), ("accessors", accessors), ("shared", shared)])
