"""C18 replace-around, C11 structure flag, C12 mark steps: the step functions.

Each step's `apply` is interpreted with the operations it is built from (resolve, slice, replace,
insertion) as uninterpreted functions of their arguments, and the outcome compared with the step's
definition; the helpers (insertion, boundary walk, mark mapping) are interpreted on their own."""
from ..parts import *


def apply_item(ctx, step):
    return ctx.item("apply", owner=step, trait="StepKind")


def fields(d, step):
    sp = d.named(step, "span")
    out = {"from": d.named(sp, "from"), "to": d.named(sp, "to")}
    for f in d.p.fields(step.a[0]):
        if f["name"] != "span":
            out[f["name"]] = d.named(step, f["name"])
    return out


def has(s, kind, *key):
    return any(isinstance(n, tuple) and n[:1 + len(key)] == (kind,) + key for n in s.notes)


def failed(s):
    """tags of the operations that failed on this path"""
    return [n for n in s.notes if isinstance(n, tuple) and n[0] in ("fail", "none")]


def truth(s, b):
    return s.decide(b)


# ---------------------------------------------------------------- structure flag
def flag(eng, s, step, gaps):
    """the structure flag's obligations for one outcome: (must be refused, was decided)"""
    d = eng.d
    f = fields(d, step)
    on = s.decide(f["structure"])
    return on


def between_key(doc, a, b):
    return mk("bv", ("between", doc, a, b))


def structure(ctx):
    for name, err in (("ReplaceStep", "WouldOverwrite"), ("ReplaceAroundStep", "GapWouldOverwrite")):
        it = apply_item(ctx, name)
        r = ctx.run(it)
        if not r:
            continue
        eng, d = r.eng, r.d
        step, doc = r.sym[:2]
        f = fields(d, step)
        if name == "ReplaceStep":
            rs = [(f["from"], f["to"])]
        else:
            rs = [(f["from"], f["gap_from"]), (f["gap_to"], f["to"])]

        def spec(s, v):
            nm, x = res(eng, v)
            on = s.decide(f["structure"])
            bt = [s.decide(between_key(doc, a, b)) for a, b in rs]
            asked = [n for n in s.notes if isinstance(n, tuple) and n[0] in ("done", "fail") and n[1] == "between"]
            for n in asked:
                if not any(s.eq(n[3], a) and s.eq(n[4], b) and n[2] is doc for a, b in rs):
                    return "checks the range %s..%s for content" % (show(n[3]), show(n[4]))
            if on is False and asked:
                return "checks for content although the step is not structural"
            if nm == "Ok":
                if on is False:
                    return None
                if on is None:
                    return "applies without looking at the structure flag"
                for (a, b), t in zip(rs, bt):
                    if t is not False:
                        return "a structural step applies although the range %s..%s may hold content" % (show(a), show(b))
                return None
            if vname(eng, x) == err:
                if on is True and True in bt:
                    return None
                return "refused as %s although no structural range holds content" % err
            if True in bt and on is True:
                return "refused for another reason than the content in the range"
            return None

        ctx.judge(r, "flag:" + name, spec)
        ctx.cover(r, "flag:" + name, [
            ("applies a structural step", lambda s, v: res(eng, v)[0] == "Ok" and s.decide(f["structure"]) is True),
            ("applies a plain step", lambda s, v: res(eng, v)[0] == "Ok" and s.decide(f["structure"]) is False)])


def boundary_walk(ctx):
    try:
        it = ctx.item("content_between")
    except Missing:
        raise MissingPrivate("content_between")
    r = ctx.run(it, open_=[("replace_step", "content_between")])
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    doc, a, b = r.sym[0], r.args[1], r.args[2]
    where = loc(it)
    # the resolved position used
    rp = None
    for s, v in r.outs:
        for n in s.notes:
            if isinstance(n, tuple) and n[0] == "done" and n[1] == "resolve":
                rp = n[2:]
    if rp is None or rp[0] is not doc or rp[1] is not a:
        ctx.bad("walk:start", where, "content_between does not start from the first position")
        return
    rpt = [x["ty"] for x in []]
    full = rp_value(eng, p.find_adt("ResolvedPos"), doc, a)
    if full is None:
        ctx.unk(it["path"], "resolved position")
        return
    rpv, path = full
    last_ = addc(d.blen(path), -1)
    zero_dist = ge(sub(a, b))  # to <= from: nothing between

    def N(k):
        x = d.named(d.elem(path, k), "node")
        return x.a[0] if x.k == "ref" else strip(eng, None, x)

    def I(k):
        return d.named(d.elem(path, k), "index")

    def after(s, k):
        """index after the position at level k, with the states it splits into"""
        out = []
        toff = sub(a, d.named(d.elem(path, last_), "before"))
        for s1 in s.assume(eq0(sub(k, last_))):
            for s2 in s1.assume(eq0(toff)):
                out.append((s2, I(k)))
            for s2 in s1.assume(b_not(eq0(toff))):
                out.append((s2, addc(I(k), 1)))
        for s1 in s.assume(b_not(eq0(sub(k, last_)))):
            out.append((s1, addc(I(k), 1)))
        return [(x, y) for x, y in out if x.feasible()]

    def kids(s, n):
        """[(state, inner seq or None for a leaf)]"""
        out = []
        for part in (p.CONTENT, p.TEXT | p.LEAF):
            s2 = s.copy()
            vs = s2.variants(n) & part
            if vs and s2.refine(n, vs) and s2.feasible():
                out.append((s2, d.finner(d.node_frag(n)) if part is p.CONTENT else None))
        return out

    def at_end(s, k):
        """True/False/None: is the position at the end of the node at level k?"""
        got = set()
        for s1, n in kids(s, N(k)):
            for s2, ia_ in after(s1, k):
                ln = d.seq_len(n) if n is not None else ZERO
                got.add(s2.decide(eq0(sub(ia_, ln))))
        return got.pop() if len(got) == 1 else None

    # ---- phase 1: walking up; phase 2: walking down
    up = down = None
    blind = False
    for rec in eng.loop_log:
        syms = [ph for ph in rec["phis"].values() if ph.kind == "sym"]
        ints = [ph for ph in rec["phis"].values() if ph.kind == "int"]
        if syms and ints:
            down = down or []
            down.append(rec)
        elif ints and not syms:
            up = up or []
            up.append(rec)
        elif syms:
            blind = blind or bool(rec["backs"])
    if blind and up and not down:
        ctx.bad("walk:down:distance", where, "nodes are entered without counting down the distance between the positions")
        return
    dist0 = sub(b, a)

    def ints_of(rec):
        return [ph.sym for ph in rec["phis"].values() if ph.kind == "int"]

    def cur(rec, x):
        return rec["E"].get(x, ia(x))

    def shape(rec):
        """the level reached and the distance left in a walk up, and what the former are after another round"""
        ints, es = ints_of(rec), rec["entry"]
        dep = [x for x in ints if rec["Be"][x] is last_]
        oth = [x for x in ints if x not in dep]
        if len(dep) == 1 and len(oth) == 1:
            e0 = rec["Be"][oth[0]]
            ctx.check(es.eq(e0, dist0) or (es.entails(sub(a, b)) and es.eq(e0, ZERO)), "walk:distance", where,
                      "the distance left starts as %s, not as the distance between the positions" % show(e0))
            return cur(rec, dep[0]), cur(rec, oth[0]), lambda B: (B[dep[0]], B[oth[0]])
        if len(dep) == 1 and not oth:  # only the level is kept
            k = cur(rec, dep[0])
            return k, sub(dist0, sub(last_, k)), lambda B: (B[dep[0]], sub(dist0, sub(last_, B[dep[0]])))
        if len(oth) == 1 and not dep:  # only the distance left, or the number of rounds
            e0, x = rec["Be"][oth[0]], cur(rec, oth[0])
            if es.eq(e0, dist0) or es.entails(sub(a, b)):
                return sub(last_, sub(dist0, x)), x, lambda B: (sub(last_, sub(dist0, B[oth[0]])), B[oth[0]])
            if es.eq(e0, ZERO):
                return sub(last_, x), sub(dist0, x), lambda B: (sub(last_, B[oth[0]]), sub(dist0, B[oth[0]]))
        return None

    # a second loop that only counts enters no node
    keys = sorted(set(x["key"] for x in up or []), key=str)
    if len(keys) > 1 and not down:
        rest = [x for x in up if not any(x["Be"][q] is last_ for q in ints_of(x))]
        if rest and all(B and s.eq(B[q], addc(cur(x, q), -1)) for x in rest for s, B in x["backs"] for q in ints_of(x)):
            ctx.bad("walk:down:next", where, "the distance is counted down without entering a node")
            return
    if len(keys) > 1 or len(set(x["key"] for x in down or [])) > 1:
        ctx.unk(it["path"], "not two walks")
        return
    up, down = up or [], down or []
    for rec in up:
        sh = shape(rec)
        if sh is None:
            ctx.unk(it["path"], "walk up not recognised")
            return
        k, x, then = sh
        rec["k"], rec["left"] = k, x
        for s, B in rec["backs"]:
            if not B:
                ctx.unk(it["path"], "walk up not recognised")
                continue
            k2, x2 = then(B)
            if not (s.eq(k2, addc(k, -1)) and s.eq(x2, addc(x, -1))):
                ctx.bad("walk:up", where, "leaving a node takes the depth to %s and the distance to %s" % (show(k2), show(x2)))
                continue
            if not s.entails(addc(x, -1)):
                ctx.bad("walk:up:distance", where, "nodes are left beyond the distance between the positions")
                continue
            e = at_end(s, k)
            if e is True:
                ctx.ok()
            elif e is False or not inexact(s, None):
                ctx.bad("walk:up:content", where, "a node is left although content follows the position in it")
            else:
                ctx.unk(it["path"], "cannot tell whether the position is at the end of the node left")
    dn = {}
    for rec in down:
        node = [ph for ph in rec["phis"].values() if ph.kind == "sym"]
        ints = ints_of(rec)
        if len(node) != 1 or len(ints) != 1:
            ctx.unk(it["path"], "walk down not recognised")
            return
        nx, x = node[0].sym, ints[0]
        es = rec["entry"]
        opt_v = rec["Be"][nx]
        # first node of the walk: the one after the position at the level reached
        lv = level_of(rec, up)
        steps = set()  # +1 when the rounds are counted, -1 when the distance left is
        for s, B in rec["backs"]:
            steps.add(-1 if B and s.eq(B[x], addc(cur(rec, x), -1)) else
                      1 if B and s.eq(B[x], addc(cur(rec, x), 1)) else 0)
        rec["left"] = cur(rec, x)
        if lv is not None and len(steps) == 1 and steps & {1, -1}:
            # the distance left: what the walk up has left over, one less for each node entered
            D = sub(dist0, sub(last_, lv))
            went = sub(cur(rec, x), rec["Be"][x])
            rec["left"] = sub(D, went if steps == {1} else neg(went))
        for s, B in rec["backs"]:
            if not B or not (steps == {-1} or steps == {1} and lv is not None):
                ctx.bad("walk:down", where, "entering a node changes the distance to %s" % (show(B[x]) if B else "?"))
                continue
            c = payload(eng, s, nx)
            y = B[nx]
            if c is None:
                ctx.bad("walk:down", where, "the walk goes on where there is no node")
                continue
            if s.variants(c) & (p.TEXT | p.LEAF):
                ctx.bad("walk:down:leaf", where, "the walk passes over a leaf or text")
                continue
            want = d.finner(d.node_frag(c))
            z = payload(eng, s, y)
            if z is None:
                ok = s.eq(d.seq_len(want), ZERO)
            else:
                ok = z is d.elem(want.a[0][0].a[0], ZERO)
            if not s.entails(addc(rec["left"], -1)):
                ctx.bad("walk:down:distance", where, "nodes are entered beyond the distance between the positions")
            ctx.check(ok, "walk:down:next", where, "the walk goes on with %s, not with the first child" % show(y)[:200])
        st0 = payload(eng, es, opt_v)
        if lv is None:
            ctx.unk(it["path"], "start of the walk down")
            continue
        good = True
        for s1, n in kids(es, N(lv)):
            for s2, ix in after(s1, lv):
                if n is None:
                    good = good and st0 is None
                elif s2.entails(sub(ix, d.seq_len(n))):
                    good = good and st0 is None
                else:
                    good = good and st0 is not None and any(
                        e.a[1][1] is n.a[0][0].a[0] and s2.eq(e.a[1][2], ix) for e in [st0] if e.a[1][0] == "elem")
        ctx.check(good, "walk:down:start", where, "the walk down starts at %s, not at the node after the position" %
                  show(opt_v)[:200])
    # ---- results
    def spec(s, v):
        nm, x = res(eng, v)
        if nm == "Err":
            return None if has(s, "fail", "resolve") else "fails although the position resolves"
        yes = s.decide(x)
        if yes is None:
            for y in (x, b_not(x)):
                for s1 in s.copy().assume(y):
                    if s1.feasible():
                        if s1.decide(x) is None:
                            raise Undecided("result %s" % show(x)[:80])
                        msg = spec(s1, v)
                        if msg:
                            return msg
            return None
        rec = ([x for x in down + up if any(known(s, q) for q in ints_of(x))] or [None])[0]
        t, lv = (rec["left"], rec.get("k")) if rec else (dist0, last_)
        if yes is False:
            if s.entails(neg(t)) or s.entails(sub(a, b)):
                return None
            return "reports no content although the end of the range is not reached"
        if s.entails(addc(t, -1)):
            if rec is not None and rec in down:
                nx = [ph.sym for ph in rec["phis"].values() if ph.kind == "sym"][0]
                c = payload(eng, s, nx)
                if c is None or not s.variants(c) & p.CONTENT:
                    return None
                return "reports content at a node that is not a leaf"
            # before the walk down: only what is at the level reached is known
            for s1 in s.copy().assume(eq0(addc(t, -1))):
                for s2, n in kids(s1, N(lv)):
                    for s3, ix in after(s2, lv):
                        ln = d.seq_len(n) if n is not None else ZERO
                        for s4 in s3.copy().assume(ge(sub(ix, ln))) if not up else ():
                            for s5 in s4.assume(ge(addc(lv, -1))):
                                if s5.feasible():
                                    return "reports content although only the end of a node follows"
                        if n is None or down:
                            continue
                        for s4 in s3.copy().assume(ge(addc(sub(ln, ix), -1))):
                            ch = d.elem(n.a[0][0].a[0], ix)
                            vs = s4.variants(ch) & p.CONTENT
                            if s4.feasible() and vs and s4.refine(ch, vs) and s4.feasible():
                                return "reports content although only the start of a node follows"
            return None
        return "reports content although the end of the range is reached"

    def known(s, q):
        return any(q in dict(f.a[1]) for f in s.facts | s.eqs)

    ctx.judge(r, "walk:result", spec)
    ctx.cover(r, "walk:result", [("finds content", lambda s, v: res(eng, v)[0] == "Ok" and s.decide(res(eng, v)[1]) is True),
                                 ("finds none", lambda s, v: res(eng, v)[0] == "Ok" and s.decide(res(eng, v)[1]) is False)])


def payload(eng, s, o):
    """node behind an Option<&node> value (None: certainly none)"""
    p = eng.p
    some_v = p.variant_ix(o.a[0], "Some")
    if s.variants(o) == frozenset([some_v]):
        x = eng.d.proj(o, 0, some_v)
        return x.a[0] if x.k == "ref" else x
    if some_v not in s.variants(o):
        return None
    raise Undecided("option not known")


def level_of(rec, ups):
    """the level at which the walk up stopped, as seen by the walk down's entry state"""
    for u in reversed(ups):
        if any(q in dict(f.a[1]) for q in [ph.sym for ph in u["phis"].values() if ph.kind == "int"]
               for f in rec["entry"].facts | rec["entry"].eqs):
            return u["k"]
    return None


def rp_base(x):
    for a, _ in x.a[1]:
        if a.a[0] == "len":
            return a.a[1]
    raise Undecided("level")


def check_c11(ctx):
    ctx.par([("flag", structure), ("walk", boundary_walk)])


# ---------------------------------------------------------------- replace-around
def around(ctx):
    it = apply_item(ctx, "ReplaceAroundStep")
    r = ctx.run(it)
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    step, doc = r.sym[:2]
    f = fields(d, step)
    slt = p.find_adt("Slice")
    gap = mk("sym", slt, ("slice", doc, f["gap_from"], f["gap_to"], FF))
    os, oe = d.named(gap, "open_start"), d.named(gap, "open_end")

    def spec(s, v):
        nm, x = res(eng, v)
        if nm == "Ok":
            k = x.a[1] if x.k == "sym" else None
            if not (isinstance(k, tuple) and k[0] == "replaced"):
                return "?" if False else "returns %s, not the replaced document" % show(x)[:200]
            if not (k[1] is doc and s.eq(k[2], f["from"]) and s.eq(k[3], f["to"])):
                return "replaces the range %s..%s" % (show(k[2]), show(k[3]))
            want = mk("sym", slt, ("inserted", f["slice"], f["insert"], d.named(gap, "content")))
            if not key_eq(eng, s, k[4], want):
                return "puts in %s instead of the slice around the gap" % show(k[4])[:240]
            if not (s.eq(os, ZERO) and s.eq(oe, ZERO)):
                return "accepts a gap that is open at its start or end"
            return None
        e = vname(eng, x)
        if failed(s):
            return None
        if s.entails(addc(os, -1)) or s.entails(addc(oe, -1)):
            return None
        if s.decide(f["structure"]) is True and any(
                s.decide(between_key(doc, a, b)) is True
                for a, b in ((f["from"], f["gap_from"]), (f["gap_to"], f["to"]))):
            return None
        return "fails with %s although the gap is flat and fits" % e

    ctx.judge(r, "around", spec)
    ctx.cover(r, "around", [("applies", lambda s, v: res(eng, v)[0] == "Ok"),
                            ("refuses a gap with an open start", lambda s, v: res(eng, v)[0] == "Err" and s.entails(addc(os, -1))),
                            ("refuses a gap with an open end", lambda s, v: res(eng, v)[0] == "Err" and s.entails(addc(oe, -1)))])


def flat(eng, s, content, dist, ins):
    """cut(..dist) ++ ins ++ cut(dist..)"""
    d = eng.d
    F = eng.p.find_adt("Fragment")
    return parts(eng, s, mk("sym", F, ("app", (
        mk("sym", F, ("cut", content, ZERO, dist)), ins, mk("sym", F, ("cut", content, dist, d.fsize(content)))))))


def opens(eng, vs):
    """the open depths among arguments"""
    out = []
    for v in vs:
        if v.k == "int":
            out.append(v)
        elif v.k in ("sym", "agg") and eng.p.types[v.a[0]]["k"] == "tuple":
            out.extend(opens(eng, [v.a[2][i] if v.k == "agg" else eng.d.proj(v, i) for i in range(len(eng.p.types[v.a[0]]["elems"]))]))
        else:
            return []
    return out


def insertion(ctx):
    it = ctx.item("insert_at", owner="Slice")
    r = ctx.run(it, open_=[("Slice", "insert_at")], with_=summaries("insert_into"))
    if r:
        eng, d = r.eng, r.d
        sl, pos, fr = r.sym[0], r.args[1], r.sym[2]
        content, os, oe = (d.named(sl, n) for n in ("content", "open_start", "open_end"))

        def spec(s, v):
            nm, x = res(eng, v)
            if nm == "Err":
                return None if failed(s) or overflowed(s, add(pos, os)) else "fails without cause"
            nm, x = res(eng, x)
            if nm == "None":
                return None if failed(s) else "refuses an insertion that fits"
            if failed(s):
                return "returns a slice although the insertion failed"
            if not (s.eq(d.named(x, "open_start"), os) and s.eq(d.named(x, "open_end"), oe)):
                return "changes the open depths"
            c = d.named(x, "content")
            if c.k == "sym" and c.a[1][0] == "insinto":
                k = c.a[1]
                if k[1] is content and s.eq(k[2], add(pos, os)) and frag_eq(eng, s, k[3], fr):
                    if res(eng, k[4])[0] != "None":
                        return "checks the top level of the slice, which is checked when it is put in"
                    if len(k) > 5:
                        ds = opens(eng, k[5:])
                        if len(ds) == 2 and not (s.eq(ds[0], os) and s.eq(ds[1], oe)):
                            return "inserts with the open depths %s and %s" % (show(ds[0]), show(ds[1]))
                    return None
                return "inserts at %s of %s" % (show(k[2]), show(k[1]))
            raise Undecided("content of the new slice: %s" % show(c)[:100])
        ctx.judge(r, "insert_at", spec)
        ctx.cover(r, "insert_at", [("inserts", lambda s, v: res(eng, v)[0] == "Ok" and res(eng, res(eng, v)[1])[0] == "Some")])
    try:
        it = ctx.item("insert_into")
    except Missing:
        raise MissingPrivate("insert_into")
    r = ctx.run(it, with_=summaries("can_replace"))
    if not r:
        return
    eng, d, p = r.eng, r.d, ctx.p
    content, dist, ins, parent = r.sym[0], r.args[1], r.sym[2], r.sym[3]
    inner = d.finner(content)
    bs = inner.a[0][0].a[0]

    def boundary_at(s):
        """index of the node boundary at dist, or None"""
        if s.eq(dist, ZERO):
            return ZERO
        if s.eq(dist, d.fsize(content)):
            return d.blen(bs)
        for i in indices(s):
            if s.eq(d.P(bs, "size", i), dist):
                return i
        return None

    def indices(s):
        out = []
        for f in s.facts | s.eqs:
            for at, _ in f.a[1]:
                if at.a[0] == "P" and at.a[1] is bs and at.a[3] not in out:
                    out.append(at.a[3])
                elif at.a[0] == "size" and at.a[1].k == "sym" and at.a[1].a[1][0] == "elem" and at.a[1].a[1][1] is bs:
                    for i in (at.a[1].a[1][2], addc(at.a[1].a[1][2], 1)):
                        if i not in out:
                            out.append(i)
        return out

    def inside(s):
        """index of the child strictly around dist"""
        for i in indices(s):
            if s.entails(addc(sub(dist, d.P(bs, "size", i)), -1)) and \
                    s.entails(addc(sub(d.P(bs, "size", addc(i, 1)), dist), -1)):
                return i
        return None

    def asked(s):
        return [n for n in s.notes if isinstance(n, tuple) and n[0] in ("done", "fail") and n[1] == "canrep"]

    def guarded(s, j, ch, k):
        """descending into child j: its content is checked exactly if it is closed; an open one is checked when joined"""
        mine, sub_ = opens(eng, r.args[4:]), opens(eng, k[4:])
        nm, x = res(eng, k[3])
        if len(mine) != 2 or len(sub_) != 2:
            if nm == "None":
                return "does not check that the insertion fits into a closed node"
            raise Undecided("open depths while descending")
        for s1, here in ((s.copy(), True), (s.copy(), False)):
            for s2 in s1.assume(eq0(j)) if here else s1.assume(ge(addc(j, -1))):
                for last_ in (True, False):
                    rest = sub(addc(d.blen(bs), -1), j)
                    for s3 in s2.copy().assume(eq0(rest) if last_ else ge(addc(rest, -1))):
                        if not s3.feasible():
                            continue
                        for end, at, got in ((mine[0], here, sub_[0]), (mine[1], last_, sub_[1])):
                            for s4 in s3.copy().assume(ge(addc(end, -1))):
                                if s4.feasible() and not s4.eq(got, addc(end, -1) if at else ZERO):
                                    return "descends with the open depth %s" % show(got)[:60]
                            for s4 in s3.copy().assume(eq0(end)):
                                if s4.feasible() and not s4.eq(got, ZERO):
                                    return "descends with the open depth %s" % show(got)[:60]
                        # closed unless an open side runs through it
                        sides = [e for e, at in ((mine[0], here), (mine[1], last_)) if at]
                        for e in sides:
                            for s4 in s3.copy().assume(ge(addc(e, -1))):
                                if s4.feasible() and nm != "None":
                                    return "checks the content of an open node before it is joined"
                        s4 = s3
                        for e in sides:
                            s4 = next(iter(s4.copy().assume(eq0(e))), None)
                            if s4 is None:
                                break
                        if s4 is not None and s4.feasible():
                            if nm == "None":
                                return "does not check that the insertion fits into a closed node"
                            if nm != "Some" or not node_eq(eng, s4, x.a[0] if x.k == "ref" else x, ch):
                                return "checks the insertion against another node than the one it goes into"
        return None

    def spec(s, v):
        nm, x = res(eng, v)
        i, j = boundary_at(s), inside(s)
        istext = j is not None and s.variants(d.elem(bs, j)) <= p.TEXT
        if nm == "Err":
            if failed(s):
                return None
            return None if s.entails(addc(sub(dist, d.fsize(content)), -1)) else "fails for a position inside the content"
        nm, x = res(eng, x)
        at = i if i is not None else j if istext else None
        ask = asked(s)
        for n in ask:
            if at is None:
                return "asks whether the insertion fits at a position inside a child"
            k = n[2:]
            if not (s.eq(k[1], at) and s.eq(k[2], at)):
                return "asks whether %s..%s may be replaced" % (show(k[1]), show(k[2]))
            rv, fr = res(eng, k[3])
            if rv != "Some" or not frag_eq(eng, s, fr.a[0] if fr.k == "ref" else fr, ins):
                return "asks about other content than what is put in"
            if not full_range(eng, s, k[4]):
                return "asks about part of the content"
        verdict = [s.decide(mk("bv", ("canrep",) + n[2:])) for n in ask if n[0] == "done"]
        if nm == "None":
            if failed(s) or False in verdict:
                return None
            return "refuses an insertion that fits"
        if any(n[0] in ("fail", "none") for n in failed(s)):
            return "inserts although an inner insertion failed"
        if at is not None:
            pn = s.variants(parent)
            if p.variant_ix(parent.a[0], "Some") in pn and True not in verdict:
                return "inserts into a given parent without checking that the content fits"
            got = parts(eng, s, x)
            want = flat(eng, s, content, dist, ins)
            if len(got) == len(want) and all(part_eq(eng, s, a, b) for a, b in zip(got, want)):
                return None
            return "gives %s instead of the content with the insertion at the position" % show_parts(got)
        if j is None:
            raise Undecided("position of the insertion")
        if s.eq(j, ZERO):
            j = ZERO
        ch = d.elem(bs, j)
        sub_ = d.node_frag(ch)
        left = addc(sub(dist, d.P(bs, "size", j)), -1)
        recs = [n for n in s.notes if isinstance(n, tuple) and n[0] == "done" and n[1] == "rec"]
        if len(recs) != 1:
            return "inserts inside a child without descending into it"
        k = recs[0][3:]
        if not (frag_eq(eng, s, k[0], sub_) and s.eq(k[1], left) and frag_eq(eng, s, k[2], ins)):
            return "descends with %s at %s" % (show(k[0])[:120], show(k[1])[:120])
        msg = guarded(s, j, ch, k)
        if msg:
            return msg
        new = mk("sym", p.node_ty, ("copyf", ch, mk("sym", p.find_adt("Fragment"), ("rec", recs[0][2]) + k)))
        F = p.find_adt("Fragment")
        want = parts(eng, s, d.seq([mk("sub", bs, ZERO, j), d.one(new), mk("sub", bs, addc(j, 1), d.blen(bs))]))
        got = parts(eng, s, x)
        if len(got) == len(want) and all(part_eq(eng, s, a, b) for a, b in zip(got, want)):
            return None
        if frag_eq(eng, s, x, content) and any(
                b and t.k == "eqv" and any(node_eq(eng, s, z, ch) for z in t.a if z.k == ch.k) for t, b in s.bools.items()):
            return None  # nothing changed
        return "gives %s instead of the content with child %s rebuilt" % (show_parts(got), show(j))

    ctx.judge(r, "insert_into", spec)
    isok = lambda v: res(eng, v)[0] == "Ok" and res(eng, res(eng, v)[1])[0] == "Some"
    ctx.cover(r, "insert_into", [("inserts between children", lambda s, v: isok(v) and boundary_at(s) is not None),
                                 ("inserts inside a child", lambda s, v: isok(v) and inside(s) is not None)])


def full_range(eng, s, rg):
    nm = eng.p.adt_name(rg.a[0])
    if nm == "RangeFull":
        return True
    if nm == "RangeFrom":
        return s.eq(eng.d.proj(rg, 0), ZERO)
    return False


def check_c18(ctx):
    ctx.par([("apply", around), ("insertion", insertion)])
