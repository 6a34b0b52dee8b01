"""C20 range traversal and text extraction.

nodes_between is interpreted for an arbitrary fragment, range and callback: in every round of its loop the child
at hand is given to the callback once, with its true position, exactly when it overlaps the range, and its
content is traversed exactly when the callback says so.  text_between is interpreted with the traversal standing
for that definition; the callback it passes is interpreted for an arbitrary node of the range and an arbitrary
state, and must append exactly the node's share of the text."""
from ..parts import *
from .positions import pre
from .kinds import BLOCK_NODE

GHOST = ("ghost", "callback")


class Callback(object):
    """an arbitrary callback: its calls are recorded, its answers arbitrary"""
    key = "callback"

    @staticmethod
    def fn(eng, st, args):
        xs = tuple(strip(eng, st, x) for x in args)
        n = sum(1 for q in st.notes if isinstance(q, tuple) and q[0] == "visit" and q[2:] == xs)
        st.note(("visit", n) + xs)
        return [(st, eng.d.mk_sym(eng.p.boolty, ("descend",) + xs))]


def traversal(ctx):
    it = ctx.item("nodes_between", owner="Fragment")

    def again(eng, st, c, a, t):
        fr = val(eng, st, a[0])
        ints = [x for x in a[1:] if x.k == "int"]
        cb = [x for x in a[1:] if x.k != "int"]
        if len(ints) != 3 or len(cb) != 1:
            return None
        f = cb[0]
        for _ in range(4):
            if f.k == "mref":
                f = eng.load(st, f.a[0], f.a[1])
            elif f.k == "ref":
                f = f.a[0]
        if f is not hook:
            raise Undecided("another callback")
        n = sum(1 for q in st.notes if isinstance(q, tuple) and q[0] == "again" and q[2] is fr)
        st.note(("again", n, fr) + tuple(ints))
        return [(st, mk("agg", t, 0, ()))]
    hook = mk("hook", Callback)

    def setup(eng, st):
        f = ctx.p.fns[it["insts"][0][1]]
        ix = [i for i, ty in enumerate(f["locals"][1:6]) if ctx.p.types[ty]["k"] == "ref" and ctx.p.types[ty].get("mut")]
        if len(ix) != 1:
            raise Undecided("callback argument")
        st.mem[GHOST] = hook
        return {ix[0]: mk("mref", GHOST, ())}
    r = ctx.run(it, setup=setup, with_={("Fragment", "nodes_between"): again})
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    where, nm = loc(it), short(it["path"])
    fr = r.sym[0]
    lo, hi, base_ = [x for x in r.args if x.k == "int"]
    panics(ctx, it, r.panics, "walk", "the traversal", ge(sub(hi, lo)))
    b = d.finner(fr).a[0][0].a[0]
    seen = {"visit": 0, "again": 0, "skip": 0}

    def notes(s, tag, pick):
        return [q for q in s.notes if isinstance(q, tuple) and q[0] == tag and pick(q)]

    def one(s, k):
        """what happened to child k"""
        n = d.elem(b, k)
        o = pre(d, s, b, k)
        e = add(o, d.size(n))
        vs = notes(s, "visit", lambda q: True)
        ag = notes(s, "again", lambda q: True)
        if not vs:
            if ag:
                return "descends into a node that was not visited"
            seen["skip"] += 1
            if s.entails(sub(lo, e)) or s.entails(sub(o, hi)):
                return None
            return "does not visit a child that overlaps the range"
        if len(vs) > 1:
            return "visits a child more than once"
        seen["visit"] += 1
        _, _, x, at = vs[0]
        if x is not n:
            return "visits %s for a child" % show(x)[:120]
        if not s.eq(at, add(base_, o)):
            return "visits a child with the position %s" % show(at)[:160]
        if not (s.entails(addc(sub(e, lo), -1)) and s.entails(addc(sub(hi, o), -1))):
            return "visits a child outside the range"
        ans = d.mk_sym(p.boolty, ("descend", x, at))
        go = s.decide(ans)
        if not ag:
            if go is False:
                return None
            for s2 in s.copy().assume(ans) if go is None else [s.copy()]:
                vs2 = s2.variants(n) & p.CONTENT
                if vs2 and s2.refine(n, vs2) and s2.feasible():
                    c = d.fsize(d.node_frag(n))
                    t = addc(o, 1)
                    if not (s2.entails(neg(c)) or s2.entails(sub(t, hi)) or s2.entails(sub(sub(lo, t), c))):
                        return "does not descend although told to"
            return None
        seen["again"] += 1
        if go is not True:
            return "descends although not told to"
        if len(ag) > 1:
            return "traverses the content of a child more than once"
        _, _, f, lo2, hi2, base2 = ag[0]
        if not s.variants(n) <= p.CONTENT or f is not d.node_frag(n):
            return "descends into %s" % show(f)[:120]
        c = d.fsize(f)
        t = addc(o, 1)
        if not s.eq(base2, add(base_, t)):
            return "traverses the content from the position %s" % show(base2)[:160]
        x, y = sub(lo, t), sub(hi, t)
        if not (s.eq(lo2, x) or s.eq(lo2, ZERO) and s.entails(neg(x))):
            return "traverses the content from %s" % show(lo2)[:160]
        if not (s.eq(hi2, y) or s.eq(hi2, c) and s.entails(sub(y, c))):
            return "traverses the content up to %s" % show(hi2)[:160]
        return None
    loops = []
    for rec in eng.loop_log:
        ks = loop_index(rec)
        if not ks:
            continue
        ka, k0, _ = ks[0]
        loops.append((rec, ka))
        ctx.check(rec["entry"].eq(k0, ZERO), "traverse:start", where, "%s starts with the child %s" % (nm, show(k0)[:80]))
        for s, B in rec["backs"]:
            m = one(s, ia(ka))
            ctx.check(m is None, "traverse:round", where, "%s: %s" % (nm, m))

    def spec(s, v):
        for rec, ka in loops:
            k = ia(ka)
            if notes(s, "visit", lambda q: True):
                m = one(s, k)
                if m:
                    return m
                k = addc(k, 1)
            if s.eq(k, d.blen(b)) or s.entails(sub(d.blen(b), k)) and s.entails(sub(k, d.blen(b))):
                return None
            if s.entails(sub(pre(d, s, b, k), hi)):
                return None
            if s.eq(d.blen(b), ZERO) or s.entails(neg(d.blen(b))):
                return None
        if s.entails(neg(hi)) or s.entails(sub(lo, d.fsize(fr))) or s.entails(sub(lo, hi)) or s.eq(d.blen(b), ZERO):
            return None
        return "ends although a later child may be inside the range"
    ctx.judge(r, "traverse", spec)
    for k in seen:
        ctx.covered(seen[k], it["path"], "traverse:" + k, where, "%s: never seen to %s a child" % (nm, {"again": "descend into"}.get(k, k)))


# ---------------------------------------------------------------- text
def cells(eng, s, cb):
    """[(root, projection, type, value)] of what a closure holds, through by-reference captures"""
    root, prj = cb
    v = eng.load(s, root, prj)
    if v.k != "agg" or eng.p.types[v.a[0]]["k"] != "closure":
        raise Undecided("callback of the traversal")
    out = []
    for i, x in enumerate(v.a[2]):
        r_, p_ = root, tuple(prj) + (("f", i),)
        for _ in range(3):
            if x.k == "mref":
                r_, p_ = x.a[0], x.a[1]
                x = eng.load(s, r_, p_)
            else:
                break
        out.append((i, r_, p_, x))
    return out


def texts(ctx):
    it = ctx.item("text_between", owner="Fragment")
    calls = []

    def visit(eng, st, c, a, t):
        fr = val(eng, st, a[0])
        ints = [x for x in a[1:] if x.k == "int"]
        cb = [x for x in a[1:] if x.k != "int"]
        if len(ints) != 3 or len(cb) != 1 or cb[0].k != "mref":
            raise Undecided("call of the traversal")
        x = cb[0]
        while True:
            y = eng.load(st, x.a[0], x.a[1])
            if y.k != "mref":
                break
            x = y
        calls.append((st.copy(), fr, ints, (x.a[0], x.a[1]), eng.depth))
        st.note(("traversed", len(calls)))
        return [(st, mk("agg", t, 0, ()))]
    r = ctx.run(it, with_={("Fragment", "nodes_between"): visit})
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    where, nm = loc(it), short(it["path"])
    f = r.f
    lo, hi = [x for x in r.args if x.k == "int"]
    sep0 = [x for x, ty in zip(r.args, f["locals"][1:]) if p.types[ty]["k"] == "bool"]
    opts = [x for x in r.args if x.k == "sym" and p.adt_name(x.a[0]) == "Option"]
    out = [x for x in r.args if x.k == "mref"]
    if len(sep0) != 1 or len(opts) != 2 or len(out) != 1:
        ctx.unk(it["path"], "arguments")
        return
    sep0, (blk, leaf), out = sep0[0], opts, out[0]

    def spec(s, v):
        n = [q for q in s.notes if isinstance(q, tuple) and q[0] == "traversed"]
        if len(n) != 1:
            if s.entails(sub(lo, hi)):
                return None
            return "does not traverse the range once"
        st, fr, (a, z, b), cb, _ = calls[n[0][1] - 1]
        if fr is not r.sym[0]:
            return "traverses another fragment"
        if not (s.eq(a, lo) and s.eq(z, hi) and s.eq(b, ZERO)):
            return "traverses %s..%s from %s" % tuple(show(q)[:60] for q in (a, z, b))
        return None
    ctx.judge(r, "text", spec)
    seen = set()
    for st, fr, ints, cb, depth in calls:
        eng.depth = depth  # the caller's frame is still there
        callback(ctx, r, st, cb, lo, hi, sep0, blk, leaf, out, seen)
    for k in ("text", "substitute", "separator", "nothing"):
        ctx.covered(k in seen, it["path"], "text:callback:" + k, where, "%s: never adds %s" % (nm, k))


def panics(ctx, it, found, key, what, cond):
    """every range is gone through (a range that ends inside a character is the caller's mistake, which has its own
    message)"""
    for kind, w, _, s in found:
        if kind == "panic" or not any(x.feasible() for x in s.copy().assume(cond)):
            continue
        if inexact(s, None):
            ctx.unk(it["path"], "panic: %s" % kind)
        else:
            ctx.bad(key + ":panics", loc(it), "%s: %s panics (%s)" % (short(it["path"]), what, kind))


def callback(ctx, r, st, cb, lo, hi, sep0, blk, leaf, out, seen):
    eng, d, p = r.eng, r.d, ctx.p
    where, nm = loc(r.it), short(r.it["path"])
    cs = cells(eng, st, cb)
    bools = [c for c in cs if c[3] is sep0]
    if len(bools) != 1:
        ctx.unk(r.it["path"], "state of the callback")
        return
    _, sr, sp, _ = bools[0]
    st = st.copy()
    flag = d.mk_sym(p.boolty, ("arg", "separated"))
    eng.store(st, sr, sp, flag)
    node = d.mk_sym(p.node_ty, ("arg", "node"))
    pos = d.mk_sym(r.f["locals"][[i for i, x in enumerate(r.args) if x is lo][0] + 1], ("arg", "pos"))
    old = eng.load(st, out.a[0], out.a[1])
    def split(s):
        outs = []
        for part in (p.TEXT, p.CONTENT, p.LEAF):
            s2 = s.copy()
            vs = s2.variants(node) & part
            if vs and s2.refine(node, vs) and s2.feasible():
                outs.append((part, s2))
        return outs

    def effect(s, v):
        new = eng.load(s, out.a[0], out.a[1])
        now = eng.load(s, sr, sp)
        for part, s2 in split(s):
            m = kind(s2, v, part, new, now)
            if m:
                return m
        return None

    def added(s, new):
        ob, nb = d.tchars(old) if old.k != "seq" else old, d.tchars(new) if new.k != "seq" else new
        osegs, nsegs = ob.a[0], nb.a[0]
        if nsegs[:len(osegs)] != osegs:
            raise Undecided("the text so far")
        return nsegs[len(osegs):]

    def option(s, o):
        vs = s.variants(o)
        if len(vs) != 1:
            return None
        return next(iter(vs)) == p.variant_ix(o.a[0], "Some")

    def chars(s, o):
        x = strip(eng, s, d.proj(o, 0, p.variant_ix(o.a[0], "Some")))
        return x if x.k == "seq" else d.tchars(x)

    def is_text(s, segs, q):
        return s.seq_eq(d.seq(list(segs)), q)

    def cases(s, o):
        """(given?, state) for an optional argument"""
        outs = []
        for name in ("None", "Some"):
            s2 = s.copy()
            if s2.refine(o, frozenset([p.variant_ix(o.a[0], name)])) and s2.feasible():
                outs.append((name == "Some", s2))
        return outs

    def truth(s, b):
        x = s.decide(b)
        if x is not None:
            return [(x, s)]
        return [(y, s2) for y in (True, False) for s2 in s.copy().assume(b if y else mk("not", b)) if s2.feasible()]

    def kind(s, v, part, new, now):
        segs = added(s, new)
        if part is p.CONTENT and s.decide(v) is not True:
            return "does not descend"
        for has_b, s in cases(s, blk):
            if part is p.TEXT:
                m = text_share(s, segs)
                if m:
                    return m
                seen.add("text")
                want = False
            elif part is p.LEAF and any(h for h, _ in cases(s, leaf)):
                want = None
                for has_l, s2 in cases(s, leaf):
                    if has_l:
                        if not is_text(s2, segs, chars(s2, leaf)):
                            return "adds %s for a leaf with a substitute" % show(d.seq(list(segs)))[:120]
                        seen.add("substitute")
                        if has_b and s2.decide(now) is not False:
                            return "takes a substitute for a separator"
                    else:
                        m = block(s2, segs, now, has_b)
                        if m:
                            return m
                continue
            else:
                m = block(s, segs, now, has_b)
                if m:
                    return m
                continue
            if has_b and s.decide(now) is not want:
                return "leaves the text after it without a separator"
        return None

    def block(s, segs, now, has_b):
        for isb, s1 in blocks(s):
            for fl, s2 in truth(s1, flag):
                if isb and not fl:
                    if not is_text(s2, segs, chars(s2, blk) if has_b else d.seq([])):
                        return "adds %s before a block" % show(d.seq(list(segs)))[:120]
                    if has_b:
                        seen.add("separator")
                        if s2.decide(now) is not True:
                            return "may add two separators in a row"
                else:
                    if not is_text(s2, segs, d.seq([])):
                        return "adds %s without need" % show(d.seq(list(segs)))[:120]
                    seen.add("nothing")
                    if has_b and not same_flag(s2, now, fl):
                        return "changes whether a separator is due"
        return None

    def same_flag(s, now, fl):
        return now is flag or s.decide(now) is fl

    def blocks(s):
        outs = []
        for isb in (True, False):
            s2 = s.copy()
            vs = frozenset(i for i in s2.variants(node) if (i in BLOCKS) is isb)
            if vs and s2.refine(node, vs) and s2.feasible():
                outs.append((isb, s2))
        return outs
    BLOCKS = block_kinds(ctx)

    def text_share(s, segs):
        q = d.tchars(d.node_text(node))
        b = q.a[0][0].a[0]
        n = d.tlen(d.node_text(node))
        x, y = sub(lo, pos), sub(hi, pos)
        if not segs:
            return None if s.entails(sub(lo, hi)) else "adds nothing of a text"
        if len(segs) != 1 or segs[0].k != "sub" or segs[0].a[0] is not b:
            return "adds %s of a text" % show(d.seq(list(segs)))[:120]
        i, j = (ZERO if s.eq(t, ZERO) else d.P(b, "U", t) for t in segs[0].a[1:3])
        if not (s.eq(i, x) and s.entails(x) or s.eq(i, ZERO) and s.entails(neg(x))):
            return "adds a text from %s" % show(i)[:120]
        if not (s.eq(j, y) and s.entails(sub(n, y)) or s.eq(j, n) and s.entails(sub(y, n))):
            return "adds a text up to %s" % show(j)[:120]
        return None

    for s0 in st.assume(ge(addc(sub(hi, pos), -1))):
        for s in s0.assume(ge(addc(sub(add(pos, d.size(node)), lo), -1))):
            eng.active, eng.stack = [], []
            eng.deadline = time.time() + ctx.budget
            depth = eng.depth
            before = len(eng.panics)
            try:
                outs = eng.call_value(s, mk("mref", cb[0], cb[1]), [ref(node), pos], p.boolty)
            except Undecided as ex:
                ctx.unk(r.it["path"], "callback: %s" % ex)
                return
            finally:
                eng.depth = depth
            panics(ctx, r.it, eng.panics[before:], "text:callback", "the text callback", ge(sub(hi, lo)))
            del eng.panics[before:]
            for s2, v in outs:
                if not s2.feasible():
                    continue
                try:
                    m = effect(s2, v)
                except Undecided as ex:
                    ctx.unk(r.it["path"], "callback: %s" % ex)
                    continue
                ctx.check(m is None, "text:callback", where, "%s: for a node of the range it %s" % (nm, m))


def block_kinds(ctx):
    p = ctx.p
    return frozenset(p.variant_ix(p.node_ty, n) for n in BLOCK_NODE)


def content_text(ctx):
    """text_content gives the text of all text nodes, nothing in between"""
    it = ctx.item("text_content", trait="Node")
    p = ctx.p

    def between(eng, st, c, a, t):
        fr = val(eng, st, a[0])
        ints = [x for x in a[1:] if x.k == "int"]
        out = [x for x in a[1:] if x.k == "mref"]
        opts = [x for x in a[1:] if x.k in ("agg", "sym") and eng.p.adt_name(x.a[0]) == "Option"]
        if len(ints) != 2 or len(out) != 1 or len(opts) != 2:
            raise Undecided("call of text_between")
        old = eng.load(st, out[0].a[0], out[0].a[1])
        cs = old if old.k == "seq" else eng.d.tchars(old)
        st.note(("texts", fr, ints[0], ints[1], opts[0], opts[1], cs))
        eng.store(st, out[0].a[0], out[0].a[1], eng.d.concat(cs, TEXTS(eng, st, fr)))
        return [(st, mk("agg", t, 0, ()))]

    def TEXTS(eng, st, fr):
        d = eng.d
        n = d.tchars(d.node_text(d.mk_sym(p.node_ty, ("arg", "any")))).a[0][0].a[0]
        return d.whole(base(n.a[0], ("texts", fr)))
    r = ctx.run(it, with_={("Fragment", "text_between"): between})
    if not r:
        return
    eng, d = r.eng, r.d
    n = r.sym[0]

    def spec(s, v):
        v = v if v.k == "seq" else d.tchars(strip(eng, s, v))
        for part in (p.TEXT, p.CONTENT, p.LEAF):
            s2 = s.copy()
            vs = s2.variants(n) & part
            if not vs or not s2.refine(n, vs) or not s2.feasible():
                continue
            if part is p.TEXT:
                if not s2.seq_eq(v, d.tchars(d.node_text(n))):
                    return "gives %s for a text" % show(v)[:120]
            elif part is p.LEAF:
                if not s2.eq(d.seq_len(v), ZERO):
                    return "gives %s for a leaf" % show(v)[:120]
            else:
                f = d.node_frag(n)
                cs = [q for q in s2.notes if isinstance(q, tuple) and q[0] == "texts"]
                if s2.eq(d.seq_len(v), ZERO) and s2.eq(d.fsize(f), ZERO):
                    continue
                if len(cs) != 1 or cs[0][1] is not f:
                    return "does not collect the texts of the content"
                _, _, lo, hi, blk, leaf, old = cs[0]
                if not (s2.eq(lo, ZERO) and s2.entails(sub(hi, d.fsize(f)))):
                    return "collects the texts of %s..%s" % (show(lo)[:60], show(hi)[:60])
                for o, what in ((blk, "separator"), (leaf, "substitute")):
                    if s2.variants(o) == frozenset([p.variant_ix(o.a[0], "None")]):
                        continue
                    x = strip(eng, s2, d.proj(o, 0, p.variant_ix(o.a[0], "Some")))
                    if what == "substitute" or not s2.eq(d.seq_len(x if x.k == "seq" else d.tchars(x)), ZERO):
                        return "adds a %s" % what
                if not s2.seq_eq(v, TEXTS(eng, s2, f)):
                    return "gives %s" % show(v)[:120]
        return None
    ctx.judge(r, "content", spec)
    ctx.covered(bool(r.outs), it["path"], "content:returns", loc(it), "%s never returns" % short(it["path"]))


def check_c20(ctx):
    ctx.par([("traverse", traversal), ("text", texts), ("content", content_text)])
