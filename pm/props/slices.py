"""C14 cutting and slicing.

Fragment::cut is interpreted for an arbitrary fragment and range; by induction over its loop: before any child
the result is empty, every round appends exactly what the child at hand contributes to the range, and the loop
only ends when no later child can contribute.  Node::cut and Node::slice are interpreted with that definition."""
from ..parts import *
from ..models import range_of
from ..dom import mkkey
from .positions import pre
from .replace import anyfail


def contribution(eng, s, b, k, lo, hi, segs):
    """None when segs is what the child k gives to the range lo..hi"""
    d, p = eng.d, eng.p
    n = d.elem(b, k)
    o = pre(d, s, b, k)
    e = add(o, d.size(n))
    if not segs:
        if s.entails(sub(lo, e)) or s.entails(sub(o, hi)) or s.entails(sub(lo, hi)):
            return None
        return "drops a child inside the range"
    if len(segs) != 1:
        return "adds several nodes for one child"
    if not (s.entails(addc(sub(hi, o), -1)) and s.entails(addc(sub(e, lo), -1)) and s.entails(addc(sub(hi, lo), -1))):
        return "keeps a child outside the range"
    x = segs[0]
    if x.k == "sub":
        if not (x.a[0] is b and s.eq(x.a[1], k) and s.eq(x.a[2], addc(k, 1))):
            return "adds %s" % show(x)[:120]
        x = n
    else:
        x = strip(eng, s, x.a[0])
    if x is not n and not (x.k == "sym" and isinstance(x.a[1], tuple) and x.a[1][0] == "ncut"):
        return "adds %s" % show(x)[:120]
    if x is not n and x.a[1][1] is not n:
        return "adds a part of another node"
    if s.entails(sub(o, lo)) and s.entails(sub(hi, e)) and x is n:
        return None
    for part in (p.TEXT, p.CONTENT, p.LEAF):
        s2 = s.copy()
        vs = s2.variants(n) & part
        if not vs or not s2.refine(n, vs) or not s2.feasible():
            continue
        if part is p.LEAF:
            continue  # no inside
        t = o if part is p.TEXT else addc(o, 1)
        end = d.tlen(d.node_text(n)) if part is p.TEXT else d.fsize(d.node_frag(n))
        a, z = (ZERO, end) if x is n else (x.a[1][2], x.a[1][3])
        if not (s2.eq(a, ZERO) and s2.entails(sub(t, lo)) or s2.eq(a, sub(lo, t)) and s2.entails(sub(lo, t))):
            return "cuts a child from %s" % show(a)[:120]
        if not (s2.eq(z, end) and s2.entails(sub(sub(hi, t), end)) or s2.eq(z, sub(hi, t)) and s2.entails(sub(end, sub(hi, t)))):
            return "cuts a child up to %s" % show(z)[:120]
    return None


def cutting(ctx):
    it = ctx.item("cut", owner="Fragment")
    n = 0
    for i, _ in it["insts"]:
        r = ctx.run(it, inst=i, with_=summaries("cut"), open_=[("Fragment", "cut")])
        if r:
            n += rounds(ctx, r)
        if ctx.violations:
            return
    ctx.check(n, "cut:walks", loc(it), "%s does not walk the children" % short(it["path"]))


def rounds(ctx, r):
    eng, d, p = r.eng, r.d, ctx.p
    where, nm = loc(r.it), short(r.it["path"])
    fr = r.sym[0]
    b = d.finner(fr).a[0][0].a[0]
    size = d.fsize(fr)
    lo, hi = range_of(eng, r.st0, r.sym[1], size)
    loops = {}
    for rec in eng.loop_log:
        q = [x for x, ph in rec["phis"].items() if ph.kind == "seq"]
        k = loop_index(rec)
        if len(q) == 1 and len(k) >= 1:
            loops[q[0]] = (rec, k[0])

    def inside(s):
        return [z for z in s.copy().assume(ge(sub(size, hi))) if z.feasible()]

    for q, (rec, (ka, k0, _)) in loops.items():
        if not rec["entry"].eq(k0, ZERO) or rec["Be"][q].k != "seq" or rec["Be"][q].a[0]:
            if not (rec["Be"][q].k == "seq" and rec["entry"].eq(d.seq_len(rec["Be"][q]), ZERO) and rec["entry"].eq(k0, ZERO)):
                ctx.unk(r.it["path"], "start of the loop")
                continue
        for s, B in rec["backs"]:
            if B is None or q not in B:
                ctx.unk(r.it["path"], "a round of the loop")
                continue
            segs = B[q].a[0] if B[q].k == "seq" else ()
            if not (segs and segs[0].k == "sub" and segs[0].a[0] is q and s.eq(segs[0].a[1], ZERO) and s.eq(segs[0].a[2], d.blen(q))):
                # nothing at all, or another list
                ctx.bad("cut:round", where, "%s: a round makes the result %s" % (nm, show(B[q])[:160]))
                continue
            for z in inside(s):
                m = contribution(eng, z, b, ia(ka), lo, hi, segs[1:])
                ctx.check(m is None, "cut:round", where, "%s: %s" % (nm, m))

    def spec(s, v):
        v = strip(eng, s, v)
        for z in inside(s):
            if v is fr:
                m = None if z.eq(lo, ZERO) and z.eq(hi, size) or z.entails(addc(neg(size), 0)) else "gives everything"
            else:
                m = whole(z, d.finner(v))
            if m:
                return m
        return None

    def whole(s, inner):
        segs = inner.a[0] if inner.k == "seq" else None
        if segs is None:
            raise Undecided("children of the result")
        if not segs:
            return None if s.entails(sub(lo, hi)) else "gives nothing for a range"
        if not (segs[0].k == "sub" and segs[0].a[0] in loops):
            if s.eq(d.seq_len(inner), ZERO):
                return None if s.entails(sub(lo, hi)) else "gives nothing for a range"
            if len(segs) == 1 and segs[0].k == "sub" and segs[0].a[0] is b and s.eq(segs[0].a[1], ZERO) and \
                    s.eq(segs[0].a[2], d.blen(b)) and s.eq(lo, ZERO) and s.eq(hi, size):
                return None
            raise Undecided("children of the result")
        rec, (ka, _, _) = loops[segs[0].a[0]]
        if not (s.eq(segs[0].a[1], ZERO) and s.eq(segs[0].a[2], d.blen(segs[0].a[0]))):
            return "loses children at the end"
        k = ia(ka)
        if len(segs) > 1:
            m = contribution(eng, s, b, k, lo, hi, segs[1:])
            if m:
                return m
            k = addc(k, 1)
        if s.eq(k, d.blen(b)) or s.entails(sub(pre(d, s, b, k), hi)) or s.entails(sub(lo, hi)):
            return None
        return "stops although a later child may be inside the range"
    ctx.judge(r, "cut", spec)
    return len(loops)


# ---------------------------------------------------------------- Node::cut
def node_cut(ctx):
    it = ctx.item("cut", trait="Node")
    for i, _ in it["insts"]:
        r = ctx.run(it, inst=i, open_=[("Node", "cut")])
        if not r:
            continue
        eng, d, p = r.eng, r.d, ctx.p
        n = r.sym[0]

        def spec(s, v):
            x = strip(eng, s, d.proj(v, 0, v.a[1])) if v.k == "agg" and p.adt_name(v.a[0]) == "Cow" else strip(eng, s, v)
            for part in (p.TEXT, p.CONTENT, p.LEAF):
                s2 = s.copy()
                vs = s2.variants(n) & part
                if not vs or not s2.refine(n, vs):
                    continue
                end = d.tlen(d.node_text(n)) if part is p.TEXT else d.fsize(d.node_frag(n)) if part is p.CONTENT else ZERO
                lo, hi = range_of(eng, s2, r.sym[1], end)
                for s3 in s2.assume(ge(sub(end, hi))):
                    for s4 in s3.assume(ge(sub(hi, lo))):
                        if s4.feasible():
                            m = one(s4, x, part, lo, hi, end)
                            if m:
                                return m
            return None

        def one(s, x, part, lo, hi, end):
            if x is n:
                return None if s.eq(lo, ZERO) and s.eq(hi, end) or s.eq(end, ZERO) else "gives the whole node"
            if part is p.CONTENT:
                k = x.a[1] if x.k == "sym" and isinstance(x.a[1], tuple) else (None,)
                if k[0] != "copyf" or k[1] is not n:
                    return "gives %s" % show(x)[:160]
                f = k[2]
                if f is d.node_frag(n):
                    return None if s.eq(lo, ZERO) and s.eq(hi, end) else "keeps the whole content"
                k = f.a[1] if f.k == "sym" and isinstance(f.a[1], tuple) else (None,)
                if k[0] != "cut" or k[1] is not d.node_frag(n) or not (s.eq(k[2], lo) and s.eq(k[3], hi)):
                    return "keeps the content %s" % show(f)[:160]
                return None
            if part is p.LEAF:
                return "changes a node without content: %s" % show(x)[:120]
            if x.k != "agg" or not {x.a[1]} <= p.TEXT:
                return "makes %s of a text" % show(x)[:120]
            if marks_of(x) is not marks_of(n) and not same_marks(eng, s, marks_of(x), marks_of(n)):
                return "changes the marks of a text"
            old, new = d.tchars(d.node_text(n)), d.tchars(d.node_text(x))
            b = old.a[0][0].a[0]
            if s.eq(lo, hi):
                return None if s.eq(d.seq_len(new), ZERO) else "keeps %s of an empty range" % show(new)[:120]
            if len(new.a[0]) != 1 or new.a[0][0].k != "sub" or new.a[0][0].a[0] is not b:
                return "gives the text %s" % show(new)[:120]
            i, j = new.a[0][0].a[1:3]
            if not (s.eq(upre(i, s), lo) and s.eq(upre(j, s), hi)):
                return "gives the characters %s..%s" % (show(i)[:80], show(j)[:80])
            return None

        def upre(i, s):
            b = d.tchars(d.node_text(n)).a[0][0].a[0]
            return ZERO if s.eq(i, ZERO) else d.P(b, "U", i)

        def marks_of(x):
            return strip(eng, None, d.named(d.proj(x, 0, next(iter(p.TEXT))), "marks"))
        ctx.judge(r, "node_cut", spec)
        ctx.covered(bool(r.outs), it["path"], "node_cut:returns", loc(it), "Node::cut never returns")
        if ctx.violations:
            return


def same_marks(eng, s, a, b):
    return a is b or key_eq(eng, s, a, b)


# ---------------------------------------------------------------- Node::slice
def slicing(ctx):
    it = ctx.item("slice", trait="Node")
    for i, _ in it["insts"]:
        r = ctx.run(it, inst=i, with_=summaries("shared_depth"), open_=[("Node", "slice")])
        if r:
            slice_spec(ctx, r)
        if ctx.violations:
            return


def slice_spec(ctx, r):
    eng, d, p = r.eng, r.d, ctx.p
    n, ip = r.sym[0], r.sym[2]

    def rng(s):
        out = []
        for part in (p.CONTENT, p.TEXT | p.LEAF):
            s2 = s.copy()
            vs = s2.variants(n) & part
            if vs and s2.refine(n, vs):
                end = d.fsize(d.node_frag(n)) if part is p.CONTENT else ZERO
                lo, hi = range_of(eng, s2, r.sym[1], end)
                for s3 in s2.assume(ge(sub(end, hi))):
                    for s4 in s3.assume(ge(sub(hi, lo))):
                        if s4.feasible():
                            out.append((s4, lo, hi))
        return out

    def spec(s, v):
        k, x = res(eng, v)
        if k == "Err":
            for s2, lo, hi in rng(s):
                bad = [f for f in anyfail(s2) if f[1] == "resolve"]
                if not any(s2.eq(f[3], lo) or s2.eq(f[3], hi) for f in bad):
                    return "fails although both ends resolve"
            return None
        for s2, lo, hi in rng(s):
            m = one(s2, x, lo, hi)
            if m:
                return m
        return None

    def one(s, x, lo, hi):
        f, os_, oe = (d.named(x, z) for z in ("content", "open_start", "open_end"))
        if s.eq(lo, hi):
            if s.eq(d.fsize(f), ZERO) and s.eq(os_, ZERO) and s.eq(oe, ZERO):
                return None
            return "gives %s for an empty range" % show(x)[:120]
        ty = p.find_adt("ResolvedPos")
        A, Z = (rp_value(eng, ty, n, q)[0] for q in (lo, hi))
        ra, rz = RP(eng, A), RP(eng, Z)
        levels = [ia(atom("u", mkkey(("shared", A, hi)))), ia(atom("u", mkkey(("shared", Z, lo))))]
        for inc in (True, False):
            for s2 in s.copy().assume(ip if inc else mk("not", ip)):
                if s2.feasible() and not any(
                        s2.eq(os_, sub(ra.depth, D)) and s2.eq(oe, sub(rz.depth, D)) and any(content(s2, f, w, D, lo, hi) for w in (ra, rz))
                        for D in ([ZERO] if inc else levels)):
                    return "gives %s" % show(x)[:300]
        return None

    def content(s, f, b, D, lo, hi):
        nd = b.node(D)
        out = []
        for s2 in s.copy().assume(eq0(D)):
            out.append((s2, ZERO))
        for s2 in s.copy().assume(ge(addc(D, -1))):
            out.append((s2, addc(b.before(addc(D, -1)), 1)))
        return all(content_at(s2, f, nd, start, lo, hi) for s2, start in out if s2.feasible())

    def content_at(s, f, nd, start, lo, hi):
        if not s.variants(nd) & p.CONTENT:
            return s.eq(d.fsize(f), ZERO)
        g = d.node_frag(nd)
        a, z = sub(lo, start), sub(hi, start)
        if f is g or frag_eq(eng, s, f, g):
            return s.eq(a, ZERO) and s.eq(z, d.fsize(g))
        k = f.a[1] if f.k == "sym" and isinstance(f.a[1], tuple) else (None,)
        return k[0] == "cut" and (k[1] is g) and s.eq(k[2], a) and s.eq(k[3], z)
    ctx.judge(r, "slice", spec)
    ctx.cover(r, "slice", [("slices", lambda s, v: res(eng, v)[0] == "Ok"), ("refuses", lambda s, v: res(eng, v)[0] == "Err")])


def check_c14(ctx):
    ctx.par([("cut", cutting), ("node_cut", node_cut), ("slice", slicing)])
