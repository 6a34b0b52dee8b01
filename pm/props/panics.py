"""C15 no panic on numbers from outside.

The operations that take positions, ranges, slices and steps are interpreted one by one, each for arbitrary
numbers; what one relies on is required wherever it is called, so that the obligations chain up to the public
entry points.  Reported are calls that break what the callee relies on and panicking paths (index out of
bounds, unwrap of nothing, subtraction below zero, overflowing sums of unbounded numbers)."""
import os
from ..parts import *
from .replace import private, position_at


# ---------------------------------------------------------------- resolved positions
def with_positions(eng, known):
    """what holds of every entry of a resolved path: the position is not before the entry, and inside the
    child at the entry's index for all but the innermost one"""
    d, p = eng.d, eng.p
    old = d.extra_axioms
    busy = []

    def ax(a, st):
        got = old(a, st)
        cons, eqs = (list(got[0]), list(got[1])) if got else ([], [])
        if a.a[0] == "u":
            k = unkey(a.a[1])
            if isinstance(k, tuple) and k[0] == "fld" and k[3] in ("index", "before") and k[1].k == "sym" and \
                    p.adt_name(k[1].a[0]) == "ResolvedNode" and k[1].a[1][0] == "elem":
                b, i = k[1].a[1][1], k[1].a[1][2]
                pos, deepest = known.get(b) or (b.a[1][2] if b.a[1][0] == "path" else None, addc(d.blen(b), -1))
                inner = False
                if not busy:
                    busy.append(1)
                    inner = st.entails(addc(sub(deepest, i), -1))
                    busy.pop()
                if k[3] == "before" and pos is not None:
                    cons.append(addc(sub(pos, ia(a)), -1 if inner else 0))
                if k[3] == "index" and inner:
                    n = strip(eng, None, d.named(k[1], "node"))
                    if n.k == "sym" and st.variants(n) & p.CONTENT:
                        cons.append(addc(sub(d.seq_len(d.finner(d.node_frag(n))), ia(a)), -1))
        if a.a[0] == "P" and a.a[2] == "size" and a.a[1].a[1][0] == "inner":
            doc = d.__dict__.get("roots", {}).get(a.a[1].a[1][1])
            if doc is not None and a.a[3] is d.blen(a.a[1]) and st.variants(doc) & p.CONTENT:
                eqs.append(sub(ia(a), d.fsize(d.node_frag(doc))))
        return cons, eqs
    d.extra_axioms = ax


class Site(object):
    """one interpreted function: what is required of the calls it makes"""

    def __init__(self, ctx, it):
        self.ctx, self.it = ctx, it
        self.bad, self.n = {}, 0
        self.known = {}

    def need(self, st, what, *conds):
        """each condition an int term >= 0"""
        self.n += 1
        for c in conds:
            for s in st.copy().assume(ge(addc(neg(c), -1))):
                if s.feasible():
                    self.bad.setdefault(what, s)
                    if os.environ.get("PM_STATE"):
                        print("NEED", what, show(c)[:300], [show(f)[:160] for f in s.facts], [show(f)[:160] for f in s.eqs])


def outside(eng, a):
    """a number taken from outside: an argument, or a number in a slice or step"""
    if a.a[0] != "u":
        return False
    k = unkey(a.a[1])
    if not isinstance(k, tuple) or not k:
        return False
    if k[0] == "fld":
        n = eng.p.adt_name(k[1].a[0]) if k[1].k == "sym" else None
        return n is not None and (n == "Slice" or n.endswith("Step"))
    return k[0] == "arg" and len(k) == 2 and k[1][:1] == "a"


def unbounded(eng, st, r):
    """the states, if any, in which the numbers from outside in r exceed all that belongs to the document"""
    mine = [x for x, k in r.a[1] if k > 0 and outside(eng, x)]
    if not mine:
        return []
    seen = {x for t in list(st.facts) + list(st.eqs) + [r] for x, _ in t.a[1]}
    tot = ZERO
    for x in mine:
        tot = add(tot, ia(x))
    return [s for s in st.copy().assume(ge(addc(tot, -10 ** 15)))
            if put(s, [addc(neg(ia(x)), 10 ** 6) for x in seen if not outside(eng, x)])]


def sums(site):
    """a sum with a number from outside that nothing bounds by the size of the document may overflow"""
    def on_add(eng, st, r, where):
        site.n += 1
        for s in unbounded(eng, st, r):
            site.bad.setdefault("adds to a number nothing bounds (%s)" % short(where[0]), s)
    return on_add


def stub(site, owner, name, pre, model=None):
    """(key, hook): the call's requirement is checked, then the usual summary used"""
    inner = model or EXTRA.get((owner, name)) or BOUNDARY.get((owner, name))

    def f(eng, st, c, a, t):
        pre(site, eng, st, [val(eng, st, x) if x.k in ("ref", "mref") else x for x in a])
        return inner(eng, st, c, a, t) if inner else None
    return {(owner, name): f}


# ---------------------------------------------------------------- what is relied on
def csize(eng, s, n):
    """content size of a node where its kind is known"""
    if s.variants(n) <= eng.p.CONTENT:
        return eng.d.fsize(eng.d.node_frag(n))
    if not s.variants(n) & eng.p.CONTENT:
        return ZERO
    return None


def inside(site, eng, st, what, lo, hi, end):
    """a range of tokens ends inside, unless it is empty"""
    for s in st.copy().assume(ge(addc(sub(hi, lo), -1))):
        if s.feasible():
            hi2 = same_place(eng, s, hi, end)
            if hi2 is not None:
                site.need(s, what, sub(end, hi2))


def same_place(eng, s, hi, end):
    """`end`'s names for what `hi` is measured in: one list at two indices the state knows to be equal.
    None if the state contradicts itself there"""
    if s.entails(sub(end, hi)):
        return hi
    terms = (hi, end) + tuple(s.facts) + tuple(s.var)
    es = elems_in(terms)
    mine = set(elems_in((end,)))
    m = {}
    for i, e in enumerate(es):
        for g in es[i + 1:]:
            if g.a[1][1] is e.a[1][1] and all(s.entails(sub(x.a[1][2], y.a[1][2])) for x, y in ((e, g), (g, e))):
                x, y = (e, g) if g in mine else (g, e)
                m.setdefault(x, y)
    if not m:
        return hi
    for v, vs in s.var.items():
        w = eng.d.subst(v, m)
        if w is not v and not s.variants(w) & vs:
            return None
    for f in list(s.facts):
        g = eng.d.subst(f, m)
        if g is not f:
            z = s.assume(ge(g))
            if not z:
                return None
            s = z[0]
    return eng.d.subst(hi, m)


def pre_fcut(site, eng, st, a):
    if a[0].k not in ("sym", "agg"):
        return
    n = eng.d.fsize(a[0])
    lo, hi = range_of(eng, st, a[1], n)
    inside(site, eng, st, "cuts a child list past its end", lo, hi, n)


def pre_ncut(site, eng, st, a):
    n, p, d = a[0], eng.p, eng.d
    if n.k not in ("sym", "agg"):
        return
    for part in (p.TEXT, p.CONTENT):
        s = st.copy()
        vs = s.variants(n) & part
        if not vs or not s.refine(n, vs) or not s.feasible():
            continue
        end = d.tlen(d.node_text(n)) if part is p.TEXT else d.fsize(d.node_frag(n))
        lo, hi = range_of(eng, s, a[1], end)
        if part is p.TEXT:
            site.need(s, "cuts a text outside its bounds", sub(hi, lo))
        else:
            inside(site, eng, s, "cuts a node past its end", lo, hi, end)


def pre_child(site, eng, st, a):
    if a[0].k in ("sym", "agg"):
        site.need(st, "replaces a child that does not exist", a[1], addc(sub(eng.d.seq_len(eng.d.finner(a[0])), a[1]), -1))


def opens_of(eng, sl):
    return eng.d.named(sl, "open_start"), eng.d.named(sl, "open_end")


def req_prep(eng, a):
    al = RP(eng, a[1])
    os, oe = opens_of(eng, a[0])
    return [sub(al.depth, os)]


def req_two(eng, a):
    f, t = RP(eng, a[0]), RP(eng, a[1])
    return [a[2], sub(f.depth, a[2]), sub(t.depth, f.depth)]


def req_three(eng, a):
    f, s, e, t = (RP(eng, x) for x in a[:4])
    return [a[4], sub(f.depth, a[4]), sub(t.depth, a[4]), sub(s.depth, f.depth), sub(t.depth, e.depth), sub(e.depth, t.depth)]


def req_outer(eng, a):
    f, t = RP(eng, a[0]), RP(eng, a[1])
    os, oe = opens_of(eng, a[2])
    x = sub(sub(f.depth, os), sub(t.depth, oe))
    return [sub(f.depth, os), sub(t.depth, oe), x, neg(x), a[3], sub(sub(f.depth, os), a[3])]


def req_join(eng, a):
    return [a[2], sub(RP(eng, a[0]).depth, a[2]), sub(RP(eng, a[1]).depth, a[2])]


def req_range(eng, a):
    rg = a[0]
    if rg.k != "agg":
        raise Undecided("range argument")
    return [a[1]] + [sub(RP(eng, strip(eng, None, x)).depth, a[1]) for x in rg.a[2]]


REQ = {"prepare_slice_for_replace": (req_prep, "prepares a slice that is open deeper than the position"),
       "replace_two_way": (req_two, "joins positions of different depths"),
       "replace_three_way": (req_three, "joins positions with a slice of another depth"),
       "replace_outer": (req_outer, "replaces although the open depths do not fit"),
       "joinable": (req_join, "joins at a level one of the positions does not have"),
       "add_range": (req_range, "adds children of a level the position does not have")}


def pre_of(name):
    req, msg = REQ[name]

    def pre(site, eng, st, a):
        site.need(st, msg, *req(eng, a))
        if name == "prepare_slice_for_replace":
            for s in unbounded(eng, st, opens_of(eng, a[0])[1]):
                site.bad.setdefault("prepares a slice whose open end nothing bounds", s)
    return pre


def joinable_model(eng, st, c, a, t):
    f = RP(eng, val(eng, st, a[0]))
    ok = eng.p.field_tys(t, eng.p.variant_ix(t, "Ok"))[0]
    return result(eng, st, t, ref(f.node(a[2])), "joinable", (val(eng, st, a[0]), val(eng, st, a[1]), a[2]))


def m_resolve(eng, st, c, a, t):
    """a resolved position lies in its document"""
    out = BOUNDARY[("ResolvedPos", "resolve")](eng, st, c, a, t)
    doc, pos = val(eng, st, a[0]), val(eng, st, a[1])
    if out is None:
        return None
    res_ = []
    for s, v in out:
        if res(eng, v)[0] != "Ok":
            res_.append((s, v))
            continue
        top = RP(eng, res(eng, v)[1]).node(ZERO)
        if top is not doc:
            eng.d.__dict__.setdefault("roots", {})[eng.d.node_frag(top)] = doc
        for part in (True, False):
            s2 = s.copy()
            vs = s2.variants(doc) & eng.p.CONTENT if part else s2.variants(doc) - eng.p.CONTENT
            if vs and s2.refine(doc, vs):
                res_.extend((s3, v) for s3 in s2.assume(ge(sub(csize(eng, s2, doc), pos))))
    return res_


def put(s, facts):
    s.facts = s.facts | frozenset(facts)
    s._pc = {}
    return s.feasible()


def m_replace_child(eng, st, c, a, t):
    f = val(eng, st, a[0])
    if f.k not in ("sym", "agg"):
        return None
    x = mk("sym", eng.p.find_adt("Fragment"), ("replchild", f, a[1], val(eng, st, a[2])))
    return [(st, mk("agg", t, eng.p.variant_ix(t, "Owned"), (x,)) if eng.p.adt_name(t) == "Cow" else x)]


def m_shared(eng, st, c, a, t):
    """shared_depth (C10): a level of both positions, around both"""
    d, p = eng.d, eng.p
    rp, pos = RP(eng, val(eng, st, a[0])), val(eng, st, a[1])
    x = ia(atom("u", mkkey(("shared", rp.v, pos))))
    k = rp.base.a[1]
    out = []
    for s in st.copy().assume(eq0(x)):
        out.append((s, ZERO))
    start = addc(rp.before(addc(x, -1)), 1)
    n = rp.node(x)
    for part in (True, False):
        s = st.copy()
        vs = s.variants(n) & p.CONTENT if part else s.variants(n) - p.CONTENT
        if not vs or not s.refine(n, vs):
            continue
        end = add(start, csize(eng, s, n))
        facts = [addc(x, -1), sub(rp.depth, x), sub(rp.pos, start), sub(pos, start), sub(end, pos), sub(end, rp.pos)]
        if k[0] == "path":  # the other position has this level as well
            facts.append(sub(addc(d.blen(base(rp.base.a[0], ("path", k[1], pos))), -1), x))
        if put(s, facts):
            out.append((s, x))
    return out


# ---------------------------------------------------------------- arguments
def positions_in(site, it, extra=None):
    """setup: arguments that are resolved positions are arbitrary ones, named p0, p1, ..; returns the setup
    function and the list the positions are put in"""
    p = site.ctx.p
    f = p.fns[it["insts"][0][1]]
    got = []

    def setup(eng, st):
        del got[:]
        with_positions(eng, site.known)
        vals = {}
        for i in range(f["argc"]):
            n, ty = 0, f["locals"][i + 1]
            while p.types[ty]["k"] == "ref":
                n, ty = n + 1, p.types[ty]["elem"]
            if p.types[ty]["k"] != "adt" or p.adt_name(ty) != "ResolvedPos":
                continue
            us = next(x["ty"] for x in p.fields(ty) if x["name"] == "depth")
            v = position_at(eng, ty, ("arg", "p%d" % i), None, eng.d.mk_sym(us, ("arg", "depth%d" % i)))
            q = RP(eng, v)
            site.known[q.base] = (q.pos, q.depth)
            got.append(q)
            for _ in range(n):
                v = ref(v)
            vals[i] = v
        if extra:
            vals.update(extra(eng, st) or {})
        return vals
    return setup, got


CASES = ("between children", "in a text", "in a node without children")


class Dead(Exception):
    pass


def settle(eng, st, q, case):
    """let the position q be of one of the three kinds"""
    d, p = eng.d, eng.p
    n = q.node(q.depth)
    vs = st.variants(n)

    def hold(x):
        if not st.assume(x) or not st.feasible():
            raise Dead()

    def kind(v, vs):
        if not vs or not st.refine(v, frozenset(vs)):
            raise Dead()
    if case == CASES[2]:
        kind(n, vs - p.CONTENT)
        hold(eq0(q.toff()))
        hold(eq0(q.poff))
        return
    kind(n, vs & p.CONTENT)
    i, t = q.index(q.depth), q.toff()
    fr = d.node_frag(n)
    b = d.finner(fr).a[0][0].a[0]
    hold(ge(sub(d.fsize(fr), q.poff)))
    hold(ge(sub(d.blen(b), i)))
    if case == CASES[0]:
        hold(eq0(t))
        return
    ch = d.elem(b, i)
    hold(ge(addc(t, -1)))
    hold(ge(addc(sub(d.blen(b), i), -1)))
    kind(ch, st.variants(ch) & p.TEXT)
    hold(ge(addc(sub(d.size(ch), t), -1)))


# ---------------------------------------------------------------- running
def judge(site, r, key):
    ctx, it = site.ctx, site.it
    where = loc(it)
    nm = short(it["path"])
    for what, s in site.bad.items():
        if inexact(s, None):
            ctx.unk(it["path"], what)
        else:
            ctx.bad("%s:%s" % (key, what), where, "%s: %s" % (nm, what))
    seen = set()
    for kind, w, stack, s in r.panics:
        if not s.feasible():
            continue
        line = w[1] if isinstance(w, tuple) else w
        fn = short(w[0]) if isinstance(w, tuple) else ""
        if (kind, fn, line) in seen:
            continue
        seen.add((kind, fn, line))
        if inexact(s, None):
            ctx.unk(it["path"], "panic %s" % kind)
        else:
            ctx.bad("%s:panic:%s:%s" % (key, kind, fn), where, "%s panics (%s in %s, line %s)" % (nm, kind, fn, line))
            if os.environ.get("PM_STATE"):
                print("STATE", kind, fn, line, [show(f)[:160] for f in s.facts], [show(f)[:160] for f in s.eqs])
    ctx.ok(site.n - len(site.bad))
    if not site.bad and not seen:
        ctx.ok(max(1, len(r.outs)), "%s: no panic on %d paths" % (nm, len(r.outs)))
    ctx.count("requirements at calls", site.n)
    return len(r.outs)


def each_case(ctx, it, key, stubs, req=None, opens=(), insts=None, extra=None, cases=CASES, first=CASES):
    """interpret `it` with its resolved positions in every combination of kinds"""
    import itertools
    f = ctx.p.fns[it["insts"][0][1]]
    npos = 0
    for i in range(f["argc"]):
        ty = f["locals"][i + 1]
        while ctx.p.types[ty]["k"] == "ref":
            ty = ctx.p.types[ty]["elem"]
        npos += ctx.p.types[ty]["k"] == "adt" and ctx.p.adt_name(ty) == "ResolvedPos"
    outs = 0
    ran = False
    for inst in ([i for i, _ in it["insts"]] if insts is None else insts):
        for combo in itertools.product(*([first] + [cases] * (npos - 1) if npos else [])):
            site = Site(ctx, it)
            base_, got = positions_in(site, it, extra)

            def setup(eng, st, base_=base_, got=got, combo=combo):
                vals = base_(eng, st)
                for q, case in zip(got, combo):
                    settle(eng, st, q, case)
                return vals

            def asm(eng, st, sym):
                for x in (req(eng, sym) if req else ()):
                    if not st.assume(ge(x)) or not st.feasible():
                        raise Dead()
                return ge(ZERO)
            with_ = {}
            for s_ in stubs:
                with_.update(s_(site))
            try:
                r = ctx.run(it, inst=inst, setup=setup, with_=with_, open_=opens, assume=[asm],
                            opts={"on_add": sums(site)})
            except Dead:
                continue
            if r:
                ran = True
                outs += judge(site, r, key)
    if ran:
        ctx.covered(outs > 0, it["path"], key + ":returns", loc(it), "%s never returns" % short(it["path"]))


# ---------------------------------------------------------------- the functions
def S(owner, name, pre, model=None):
    return lambda site: stub(site, owner, name, pre, model)


def none_needed(site, eng, st, a):
    pass


CUTS = [S("Fragment", "cut", pre_fcut), S("Node", "cut", pre_ncut), S("Fragment", "replace_child", pre_child, m_replace_child)]
REPL = [S("replace", n, pre_of(n), joinable_model if n == "joinable" else None) for n in REQ] + \
       [S("replace", "close", none_needed), S("replace", "check_join", none_needed), S("replace", "add_node", none_needed)]
RES = [S("ResolvedPos", "resolve", none_needed, m_resolve), S("Node", "resolve", none_needed, m_resolve)]
IDX = [S("Fragment", "find_index", none_needed)]


def neighbours(ctx):
    for n in ("node_before", "node_after", "text_offset", "parent", "doc"):
        each_case(ctx, ctx.item(n, owner="ResolvedPos"), "accessor:" + n, CUTS)


def between(ctx):
    each_case(ctx, private(ctx, "content_between"), "between", RES, opens=[("replace_step", "content_between")])


def slicing(ctx):
    it = ctx.item("slice", trait="Node")
    each_case(ctx, it, "slice", CUTS + RES + [S("ResolvedPos", "shared_depth", none_needed, m_shared)],
              opens=[("Node", "slice")])


def req_fcut(eng, a):
    n = eng.d.fsize(a[0])
    lo, hi = range_of(eng, None, a[1], n)
    return [sub(n, hi)]


def replacing_child(ctx):
    it = ctx.item("replace_child", owner="Fragment")
    each_case(ctx, it, "replace_child", [],
              req=lambda eng, a: [a[1], addc(sub(eng.d.seq_len(eng.d.finner(a[0])), a[1]), -1),
                                  # no child is larger than all of them together
                                  sub(eng.d.fsize(a[0]), eng.d.size(eng.d.elem(eng.d.finner(a[0]).a[0][0].a[0], a[1])))])


def cutting(ctx):
    it = ctx.item("cut", owner="Fragment")
    each_case(ctx, it, "cut", CUTS[1:], req=req_fcut, opens=[("Fragment", "cut")])


def replacing(ctx):
    it = ctx.item("replace", trait="Node")
    each_case(ctx, it, "replace", RES + [S("replace", "replace", none_needed)], opens=[("Node", "replace")])
    it = private(ctx, "replace", sig="ResolvedPos")
    each_case(ctx, it, "replace:depths", CUTS + RES + REPL)


def outer(ctx):
    each_case(ctx, private(ctx, "replace_outer"), "outer", CUTS + RES + [x for x in REPL], req=req_outer)


def two(ctx):
    each_case(ctx, private(ctx, "replace_two_way"), "two", CUTS + RES + REPL, req=req_two)


def three(ctx, first=CASES):
    each_case(ctx, private(ctx, "replace_three_way"), "three", CUTS + RES + REPL, req=req_three, first=first)


def prep(ctx):
    each_case(ctx, private(ctx, "prepare_slice_for_replace"), "prepare", CUTS,
              req=lambda eng, a: req_prep(eng, a) + [sub(ia(atom("u", mkkey(("depth of the end",)))), opens_of(eng, a[0])[1])])


def inserting(ctx):
    each_case(ctx, ctx.item("insert_at", owner="Slice"), "insert_at", CUTS + [S("replace", "insert_into", none_needed)],
              opens=[("Slice", "insert_at")])
    each_case(ctx, private(ctx, "insert_into"), "insert_into", CUTS + IDX + [S("Node", "can_replace", none_needed)])


def resolving(ctx):
    each_case(ctx, ctx.item("resolve", trait="Node"), "resolve", [], opens=[("Node", "resolve")])
    each_case(ctx, ctx.item("resolve", owner="ResolvedPos"), "resolve", IDX,
              opens=[("ResolvedPos", "resolve"), ("Node", "resolve")])
    each_case(ctx, ctx.item("find_index", owner="Fragment"), "find_index", [])


def applying(ctx):
    for it in ctx.p.items:
        if it["name"] == "apply" and it.get("trait") and last(norm(it["trait"])) == "StepKind":
            each_case(ctx, it, "apply:" + last(norm(it["self_ty"])), CUTS)


def check_c15(ctx):
    fs = [(f.__name__, f) for f in (neighbours, between, slicing, cutting, replacing_child, replacing, outer, two, prep,
                                    inserting, resolving, applying)]
    ctx.par([("three:" + c, lambda x, c=c: three(x, (c,))) for c in CASES] + fs)
