"""Normal form of child lists built from other child lists, and optional call summaries.

`parts` turns a fragment (or a list of nodes) into a list of
   ("cut", fragment, lo, hi)   the tokens lo..hi of a fragment
   ("one", node)               one node
   ("range", start, end, d)    what add_range contributes
   ("seq", segment)            anything else
ignoring how seams between texts are treated (property C13).  Summaries listed in EXTRA are used only
by the checks that ask for them; each summarised function has a check of its own."""
from .spec import *

EXTRA = {}


def extra(owner, name):
    def deco(f):
        EXTRA[(owner, name)] = f
        return f
    return deco


def summaries(*names):
    """{key: model} for Ctx.run(with_=...)"""
    return {k: EXTRA[k] for k in EXTRA if k[1] in names}


# ---------------------------------------------------------------- summaries
@extra("Node", "cut")
def x_ncut(eng, st, c, a, t):
    n = val(eng, st, a[0])
    if n.k not in ("sym", "agg"):
        return None
    p, d = eng.p, eng.d
    ow = p.variant_ix(t, "Owned")
    out = []
    for part in (p.TEXT, p.CONTENT, p.LEAF):
        s2 = st.copy()
        vs = s2.variants(n) & part
        if not vs or not s2.refine(n, vs):
            continue
        end = d.tlen(d.node_text(n)) if part is p.TEXT else d.fsize(d.node_frag(n)) if part is p.CONTENT else ZERO
        lo, hi = range_of(eng, s2, a[1], end)
        x = n if s2.eq(lo, ZERO) and s2.eq(hi, end) else mk("sym", p.node_ty, ("ncut", n, lo, hi))
        out.append((s2, mk("agg", t, ow, (x,))))
    return out


@extra("ResolvedPos", "shared_depth")
def x_shared(eng, st, c, a, t):
    rp, pos = val(eng, st, a[0]), val(eng, st, a[1])
    x = ia(atom("u", mkkey(("shared", rp, pos))))
    dep = eng.d.named(rp, "depth")
    s2 = st.assume(ge(sub(dep, x)))
    return [(s, x) for s in s2]


@extra("Node", "can_replace")
def x_can_replace(eng, st, c, a, t):
    n = val(eng, st, a[0])
    key = tuple(val(eng, st, x) for x in a)
    return result(eng, st, t, mk("bv", ("canrep",) + key), "canrep", key)


@extra("replace", "insert_into")
def x_insert_into(eng, st, c, a, t):
    f = val(eng, st, a[0])
    key = (f,) + tuple(a[1:])
    ot = eng.p.field_tys(t, eng.p.variant_ix(t, "Ok"))[0]
    s2 = st.copy()
    s2.note(("none", "insinto") + key)
    return [(s2, mk("agg", t, eng.p.variant_ix(t, "Ok"), (none(ot),)))] + result(
        eng, st, t, some(ot, mk("sym", eng.p.find_adt("Fragment"), ("insinto",) + key)), "insinto", key)


@extra("replace", "add_node")
def x_add_node(eng, st, c, a, t):
    n, tgt = val(eng, st, a[0]), a[1]
    if tgt.k != "mref":
        return None
    n = cow(eng, n) if n.k == "agg" else n
    if n.k == "sym" and last(eng.p.types[n.a[0]].get("path", "")) == "Cow":
        n = mk("sym", eng.p.node_ty, ("uncow", n))
    cur = eng.load(st, tgt.a[0], tgt.a[1])
    if cur.k != "seq":
        return None
    eng.store(st, tgt.a[0], tgt.a[1],
              eng.d.concat(cur, eng.d.seq([eng.d.one(mk("sym", eng.p.node_ty, ("joined", n)))])))
    return [(st, UNITV(eng, t))]


def UNITV(eng, t):
    return mk("agg", t, 0, ()) if t is not None else UNDEF


@extra("replace", "add_range")
def x_add_range(eng, st, c, a, t):
    if len(a) != 3 or a[2].k != "mref":
        return None
    r = val(eng, st, a[0])
    nm = vname(eng, r)
    if nm not in ("Both", "Left", "Right"):
        return None
    xs = [val(eng, st, x) for x in r.a[2]]
    lo = xs[0] if nm != "Right" else None
    hi = xs[-1] if nm != "Left" else None
    cur = eng.load(st, a[2].a[0], a[2].a[1])
    if cur.k != "seq":
        return None
    b = base(eng.p.node_ty, ("range", lo if lo is not None else ZERO, hi if hi is not None else ZERO, a[1]))
    eng.store(st, a[2].a[0], a[2].a[1], eng.d.concat(cur, eng.d.whole(b)))
    return [(st, UNITV(eng, t))]


@extra("replace", "close")
def x_close(eng, st, c, a, t):
    n, f = val(eng, st, a[0]), val(eng, st, a[1])
    return result(eng, st, t, mk("sym", eng.p.node_ty, ("closed", n, f)), "close", (n, f))


@extra("replace", "check_join")
def x_check_join(eng, st, c, a, t):
    x, y = val(eng, st, a[0]), val(eng, st, a[1])
    ok = eng.p.field_tys(t, eng.p.variant_ix(t, "Ok"))[0]
    return result(eng, st, t, UNITV(eng, ok), "join", (x, y))


def generic(owner, name, tag):
    """a fallible function as an uninterpreted function of its arguments"""
    @extra(owner, name)
    def f(eng, st, c, a, t):
        key = tuple(val(eng, st, x) for x in a)
        if any(k.k == "mref" for k in key):
            return None
        ty = eng.p.types[t]
        if ty["k"] == "adt" and ty["path"].endswith("result::Result"):
            ok = eng.p.field_tys(t, eng.p.variant_ix(t, "Ok"))[0]
            return result(eng, st, t, eng.d.mk_sym(ok, (tag,) + key), tag, key)
        if ty["k"] == "adt" and last(ty["path"]) == "Option":
            s2 = st.copy()
            s2.note(("none", tag) + key)
            st.note(("done", tag) + key)
            return [(s2, none(t)), (st, some(t, eng.d.mk_sym(ty["args"][0], (tag,) + key)))]
        return [(st, eng.d.mk_sym(t, (tag,) + key))]
    return f


generic("replace", "replace_two_way", "two")
generic("replace", "replace_three_way", "three")
generic("replace", "replace_outer", "outer")
generic("replace", "replace", "rep")
generic("replace", "prepare_slice_for_replace", "prep")
generic("mark_step", "map_fragment", "mapf")
generic("mark_step", "map_fragment_parent", "mapfp")


def fallible_hook(eng, st, c, args, dty):
    """C06: every call of a crate function that returns a Result may fail"""
    if dty is None or ident(c) is None:
        return None
    t = eng.p.types[dty]
    if not (t["k"] == "adt" and t["path"].endswith("result::Result")):
        return None
    if c.get("trait") and not c["trait"].startswith("prosemirror::"):
        return None
    vals = tuple(val(eng, st, a) if a.k != "mref" else strip(eng, st, a) for a in args)
    tag = c.get("name") or last(norm(c["path"]))
    for a in args:
        if a.k == "mref":  # what it may leave behind
            t0 = None
            try:
                cur = eng.load(st, a.a[0], a.a[1])
            except Undecided:
                continue
            if cur.k in ("sym", "agg"):
                eng.store(st, a.a[0], a.a[1], eng.d.mk_sym(cur.a[0], ("after", tag) + vals))
            elif cur.k == "seq":
                return None
    ok = eng.p.field_tys(dty, eng.p.variant_ix(dty, "Ok"))[0]
    return result(eng, st, dty, eng.d.mk_sym(ok, ("ok", tag) + vals), tag, vals)


def parser_hook(eng, st, c, args, dty):
    """the markdown parser is outside the crate: an arbitrary source of events"""
    path = c.get("rpath") or c["path"]
    if not path.lstrip("<&").startswith("pulldown_cmark::") or dty is None:
        return None
    had = "unmodelled:" + path in st.notes
    outs = eng.havoc_call(st, c, args, dty)
    if not had:
        for s, _ in outs:
            s.notes = s.notes - {"unmodelled:" + path}
    return outs


# ---------------------------------------------------------------- normal form
def parts(eng, s, v):
    d, p = eng.d, eng.p
    out = []

    def emit(x):
        if x[0] == "cut":
            if s.eq(x[2], x[3]) or s.eq(d.fsize(x[1]), ZERO):
                return
            if out and out[-1][0] == "cut" and out[-1][1] is x[1] and s.eq(out[-1][3], x[2]):
                out[-1] = ("cut", x[1], out[-1][2], x[3])
                return
        out.append(x)

    def seg(g):
        if g.k == "one":
            e = d.as_elem(g.a[0]) if g.a[0].k in ("sym", "int") else None
            if e is not None and e[0].a[1][0] == "inner":
                seg(mk("sub", e[0], e[1], addc(e[1], 1)))
                return
            emit(("one", g.a[0]))
        elif g.k == "sub":
            k = g.a[0].a[1]
            if k[0] == "inner":
                f = k[1]
                if f.k == "sym" and f.a[1][0] in ("app",) and g.a[1] is ZERO and g.a[2] is d.blen(g.a[0]):
                    frag(f)
                    return
                emit(("cut", f, d.P(g.a[0], "size", g.a[1]), d.P(g.a[0], "size", g.a[2])))
            elif k[0] == "range":
                emit(("range", k[1], k[2], k[3]))
            else:
                emit(("seq", g))
        else:
            emit(("seq", g))

    def frag(f):
        if f.k == "seq":
            for g in f.a[0]:
                seg(g)
            return
        if f.k == "agg":
            inner = d.finner(f)
            if inner.k != "seq":
                raise Undecided("children of an unknown origin: " + str(inner)[:80])
            for g in inner.a[0]:
                seg(g)
            return
        k = f.a[1]
        if k[0] == "app":
            for x in k[1]:
                frag(x)
        elif k[0] == "cut":
            emit(("cut", k[1], k[2], k[3]))
        else:
            emit(("cut", f, ZERO, d.fsize(f)))
    frag(v)
    return out


def part_eq(eng, s, x, y):
    if x[0] != y[0] or len(x) != len(y):
        return False
    if x[0] == "one":
        return node_eq(eng, s, x[1], y[1])
    if x[0] == "cut":
        return frag_same_obj(eng, s, x[1], y[1]) and s.eq(x[2], y[2]) and s.eq(x[3], y[3])
    if x[0] == "range":
        return all(a is b or (a.k == "int" and b.k == "int" and s.eq(a, b)) for a, b in zip(x[1:], y[1:]))
    return x[1] is y[1]


def frag_same_obj(eng, s, f, g):
    return f is g or s.eqv_decide(f, g) is True or (f.k == "sym" and g.k == "sym" and key_eq(eng, s, f.a[1], g.a[1]))


def key_eq(eng, s, x, y):
    """structurally equal terms, integers compared under the facts"""
    if x is y or x == y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(key_eq(eng, s, a, b) for a, b in zip(x, y))
    if not isinstance(x, T) or not isinstance(y, T):
        return False
    if x.k == "int" and y.k == "int":
        return s.eq(x, y)
    if x.k in ("sym", "agg") and y.k in ("sym", "agg"):
        if eng.p.node_ty == x.a[0] == y.a[0]:
            return node_eq(eng, s, x, y)
        if eng.p.is_local_adt(x.a[0], "Fragment") and eng.p.is_local_adt(y.a[0], "Fragment"):
            return frag_eq(eng, s, x, y)
        if x.k == "sym" and y.k == "sym" and x.a[0] == y.a[0] and key_eq(eng, s, x.a[1], y.a[1]):
            return True
    if s.eqv_decide(x, y) is True:
        return True
    if x.k == y.k and x.k in ("ref", "agg", "it", "seq", "one", "sub", "base"):
        return len(x.a) == len(y.a) and all(key_eq(eng, s, a, b) for a, b in zip(x.a, y.a))
    return False


def frag_eq(eng, s, f, g):
    if f is g:
        return True
    a, b = parts(eng, s, f), parts(eng, s, g)
    if len(a) == 1 and len(b) == 1 and a[0][0] == b[0][0] == "cut" and f.k == "sym" and g.k == "sym" and \
            a[0][1] is f and b[0][1] is g:
        return s.eqv_decide(f, g) is True or key_eq(eng, s, f.a[1], g.a[1])
    return len(a) == len(b) and all(part_eq(eng, s, x, y) for x, y in zip(a, b))


def node_eq(eng, s, x, y):
    if x is y:
        return True
    r = s.eqv_decide(x, y)
    if r is not None:
        return r
    if x.k == "sym" and y.k == "sym":
        k, l = x.a[1], y.a[1]
        if isinstance(k, tuple) and isinstance(l, tuple) and k[0] == l[0]:
            if k[0] in ("copyf", "closed"):
                return node_eq(eng, s, k[1], l[1]) and frag_eq(eng, s, k[2], l[2])
            return key_eq(eng, s, k, l)
    if x.k == "agg" and y.k == "agg" and x.a[1] == y.a[1]:
        return all(key_eq(eng, s, a, b) for a, b in zip(x.a[2], y.a[2]))
    for u, w in ((x, y), (y, x)):  # copyf against an explicit node
        if u.k == "sym" and isinstance(u.a[1], tuple) and u.a[1][0] == "copyf" and w.k == "agg":
            return node_eq(eng, s, eng.d.with_frag(w, u.a[1][2]), w) and \
                node_eq(eng, s, u.a[1][1], eng.d.with_frag(w, eng.d.node_frag(u.a[1][1])))
    return False


def show_parts(ps):
    def one(x):
        if x[0] == "cut":
            return "%s[%s..%s]" % tuple(show(z)[:160] for z in x[1:])
        return "%s(%s)" % (x[0], ", ".join(show(z)[:200] for z in x[1:]))
    return " ++ ".join(one(x) for x in ps) or "nothing"


def overflowed(s, x):
    """the state of an addition that was found to overflow"""
    return any(b and o.k == "bv" and o.a[0][0] == "addovf" and s.eq(o.a[0][1], x) for o, b in s.bools.items())


def x_add_plain(eng, st, c, a, t):
    """add_node without regard to joining: the child goes at the end"""
    n, tgt = val(eng, st, a[0]), a[1]
    if tgt.k != "mref":
        return None
    n = cow(eng, n) if n.k == "agg" else n
    cur = eng.load(st, tgt.a[0], tgt.a[1])
    if cur.k != "seq":
        return None
    eng.store(st, tgt.a[0], tgt.a[1], eng.d.concat(cur, eng.d.seq([eng.d.one(n)])))
    return [(st, UNITV(eng, t))]


class RP(object):
    """the fields of a resolved position"""

    def __init__(self, eng, v):
        self.eng, self.d, self.v = eng, eng.d, v
        self.pos = eng.d.named(v, "pos")
        self.depth = eng.d.named(v, "depth")
        self.poff = eng.d.named(v, "parent_offset")
        pt = eng.d.named(v, "path")
        if pt.k != "seq" or len(pt.a[0]) != 1 or pt.a[0][0].k != "sub":
            raise Undecided("path of a resolved position")
        self.base = pt.a[0][0].a[0]

    def entry(self, i):
        return self.d.elem(self.base, i)

    def node(self, i):
        x = self.d.named(self.entry(i), "node")
        return x.a[0] if x.k == "ref" else strip(self.eng, None, x)

    def index(self, i):
        return self.d.named(self.entry(i), "index")

    def before(self, i):
        return self.d.named(self.entry(i), "before")

    def toff(self):
        return sub(self.pos, self.before(self.depth))

    def wellformed(self):
        return [eq0(sub(self.d.blen(self.base), addc(self.depth, 1)))]


def kids(eng, s, n):
    """child list of a node: base of the elements, or None when it certainly has none"""
    vs = s.variants(n)
    if not vs & eng.p.CONTENT:
        return None
    if not vs <= eng.p.CONTENT:
        raise Undecided("kind of node not known")
    return eng.d.finner(eng.d.node_frag(n)).a[0][0].a[0]


@extra("Fragment", "find_index")
def x_find_index(eng, st, c, a, t):
    """the child a position of a fragment lies in or before (checked in C10)"""
    f, pos = val(eng, st, a[0]), a[1]
    if f.k not in ("sym", "agg") or pos.k != "int" or len(a) != 3 or st.decide(a[2]) is not False:
        return None
    d, p = eng.d, eng.p
    inner = d.finner(f).a[0]
    out = []
    okv, errv = p.variant_ix(t, "Ok"), p.variant_ix(t, "Err")
    size = d.fsize(f)
    for s in st.copy().assume(ge(addc(sub(pos, size), -1))):
        s.note(("none", "findidx", f, pos))
        out.append((s, mk("agg", t, errv, (d.mk_sym(p.field_tys(t, errv)[0], ("err", "findidx", f, pos)),))))
    it = p.field_tys(t, okv)[0]
    if not inner:  # an empty list
        for s in st.copy().assume(ge(sub(size, pos))):
            out.append((s, mk("agg", t, okv, (index_value(p, it, ZERO, ZERO),))))
        return out
    if len(inner) != 1 or inner[0].k != "sub":
        return None
    b = inner[0].a[0]
    ix = ia(atom("u", mkkey(("fidx", f, pos))))
    off = d.P(b, "size", ix)
    for s in st.copy().assume(ge(sub(size, pos))):
        for s1 in s.assume(ge(ix)):
            for s2 in s1.assume(ge(sub(d.blen(b), ix))):
                for s3 in s2.copy().assume(eq0(sub(pos, off))):
                    out.append((s3, mk("agg", t, okv, (index_value(p, it, ix, off),))))
                for s3 in s2.assume(ge(addc(sub(d.blen(b), ix), -1))):
                    for s4 in s3.assume(ge(addc(sub(pos, off), -1))):
                        for s5 in s4.assume(ge(addc(sub(add(off, d.size(d.elem(b, ix))), pos), -1))):
                            out.append((s5, mk("agg", t, okv, (index_value(p, it, ix, off),))))
    return [(s, v) for s, v in out if s.feasible()]


def index_value(p, ty, i, off):
    return mk("agg", ty, 0, tuple({"index": i, "offset": off}[f["name"]] for f in p.fields(ty)))
