"""C03: mark sets.

Representation: the marks of a set are strictly ordered by mark type (hence one per type).  Every
function that builds a MarkSet or touches its contents is interpreted and must keep that; the set
operations are compared with the mathematical ones on ordered sets."""
from ..spec import *
from .sizes import invariant, sites


def content(d, v):
    for i, ft in enumerate(d.p.field_tys(v.a[0])):
        if d.p.seq_elem(ft) is not None:
            return d.proj(v, i)
    raise Undecided("mark set without a list")


def by_type(kf):
    """is this key function `the mark type`?"""
    return kf.k == "sym" and isinstance(kf.a[1], tuple) and kf.a[1][0] == "mtype"


def own_atoms(x):
    return [a for a, _ in x.a[1]]


def bkey(x):
    """('ok'|'err', seq, key, keyfn, offset) when x is a binary search result (+ offset)"""
    if x.k != "int" or len(x.a[1]) != 1 or x.a[1][0][1] != 1:
        return None
    a = x.a[1][0][0]
    if a.a[0] != "u":
        return None
    k = unkey(a.a[1])
    if isinstance(k, tuple) and k and k[0] == "bsearch":
        return k[1], k[2], k[3], k[4], x.a[0]
    return None


def strict(eng, s, b):
    """True / False / None: is this base strictly ordered by type?"""
    k = b.a[1]
    if isinstance(k, tuple) and k:
        if k[0] == "fld" and eng.p.is_local_adt(k[1].a[0], "MarkSet"):
            return True
        if k[0] == "dedup" and by_type(k[2]):
            segs = k[1].a[0]
            if len(segs) == 1 and segs[0].k == "sub":
                k2 = segs[0].a[0].a[1]
                if k2[0] == "sorted" and by_type(k2[2]):
                    return True
                if k2[0] == "sorted":
                    return False
            return False
        if k[0] in ("arg", "sorted", "dedup"):
            return False
    return None


def closure_(b):
    """every term inside b"""
    out, todo = set(), [b]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if x in out:
                continue
            out.add(x)
            todo.extend(x.a)
        elif isinstance(x, tuple):
            todo.extend(x)
    return out


def ordered(eng, s, seq):
    """None when the sequence is certainly strictly ordered by type, '?' when unknown, else why not"""
    if seq.k != "seq":
        return "?"
    segs = seq.a[0]
    if len(segs) <= 1:
        if not segs or segs[0].k == "one":
            return None
        r = strict(eng, s, segs[0].a[0]) if segs[0].k == "sub" else None
        if r:
            return None
        if r is None or any(segs[0].a[0] in closure_(b) for b in s.bools):
            return "?"
        return "its marks %s are not ordered by type, or may repeat one" % show(seq)
    for x in segs:
        if x.k == "sub" and not strict(eng, s, x.a[0]):
            return "?"
    for i in range(len(segs) - 1):
        x, y = segs[i], segs[i + 1]
        if x.k == "sub" and y.k == "sub":
            if x.a[0] is not y.a[0]:
                return "?"
            if s.entails(sub(y.a[1], x.a[2])):
                continue
            return "?"
        if x.k == "sub" and y.k == "one" and (i + 2 == len(segs) or segs[i + 2].k == "sub"):
            B, lo = x.a[0], x.a[2]
            hi = d_len = eng.d.blen(B)
            if i + 2 < len(segs):
                if segs[i + 2].a[0] is not B:
                    return "?"
                hi = segs[i + 2].a[1]
            r = place(eng, s, B, lo, hi, y.a[0])
            if r is not None:
                return r
            continue
        if x.k == "one" and y.k == "sub":
            if i > 0:
                continue
            r = place(eng, s, y.a[0], ZERO, y.a[1], x.a[0])
            if r is not None:
                return r
            continue
        return "?"
    return None


def place(eng, s, B, i, j, m):
    """inserting m in place of B[i..j]: does it keep the order?"""
    d = eng.d
    if s.eq(addc(i, 1), j):
        x = d.elem(B, i)
        tx = mk("sym", None, None) if False else mtype(eng, x)
        if s.eqv_decide(mtype(eng, m), tx) is True:
            return None
    k = bkey(i)
    if k is None:
        if all(a.a[0] == "len" for a in own_atoms(i)):
            if s.bools and any(b.k == "bv" and "haskey" in str(b.a[0][:1]) for b in s.bools):
                return "a mark is put at position %s, not at its place in the order" % show(i)
            return "?" if s.bools or s.facts else "a mark is put at position %s, not at its place" % show(i)
        return "?"
    kind, sq, key, kf, off = k
    if kind == "err" and off == 0 and by_type(kf) and s.eqv_decide(key, mtype(eng, m)) is True and s.eq(i, j) \
            and len(sq.a[0]) == 1 and sq.a[0][0].k == "sub" and sq.a[0][0].a[0] is B:
        return None
    if kind == "err" or s.eq(i, j) or s.eq(addc(i, 1), j):
        return "a mark is put at %s..%s of the set, not at its place in the order" % (show(i), show(j))
    return "?"


def is_type(x):
    return x.k == "sym" and isinstance(x.a[1], tuple) and x.a[1][0] == "mtype"


def mtype(eng, m):
    mt = None
    for i in range(len(eng.p.types)):
        t = eng.p.types[i]
        if t["k"] == "adt" and t["path"].endswith("MarkType") and t["path"].startswith("prosemirror"):
            mt = i
    return mk("sym", mt, ("mtype", m))


def absent(eng, s, S, m):
    """the state knows that no element of S equals m"""
    d = eng.d
    for b, v in s.bools.items():
        if b.k == "bv" and isinstance(b.a[0], tuple):
            k = b.a[0]
            if k[0] == "haskey" and v is False and k[1] is S and by_type(k[3]) and s.eqv_decide(
                    k[2], mtype(eng, m)) is True:
                return True
            if k[0] == "contains" and v is False and k[2] is m and (k[1] is S or len(S.a[0]) == 1 and k[1] is S.a[0][0]):
                return True
        if b.k == "eqv" and v is False:
            for x, y in ((b.a[0], b.a[1]), (b.a[1], b.a[0])):
                if x is m and y.k == "sym" and y.a[1][0] == "elem":
                    # an element of the same type which differs: types are unique
                    if s.eqv_decide(mtype(eng, m), mtype(eng, y)) is True and any(
                            g.k == "sub" and g.a[0] is y.a[1][1] for g in S.a[0]):
                        return True
    return False


def uncompared(eng, s, S, m):
    """the answer is no: a place of the set whose mark was not compared with m ("?" if that cannot be told)"""
    if len(S.a[0]) != 1 or S.a[0][0].k != "sub":
        return "?"
    g = S.a[0][0]
    seen = []
    for b, v in s.bools.items():
        if v is False and b.k == "eqv" and m in b.a:
            y = b.a[1] if b.a[0] is m else b.a[0]
            if y.k == "sym" and y.a[1][0] == "elem" and y.a[1][1] is g.a[0]:
                seen.append((y.a[1][2], addc(y.a[1][2], 1)))
                continue
        elif v is False and b.k == "bv" and isinstance(b.a[0], tuple) and b.a[0][0] == "contains" and \
                b.a[0][2] is m and b.a[0][1].k == "sub" and b.a[0][1].a[0] is g.a[0]:
            seen.append(b.a[0][1].a[1:3])
            continue
        return "?"

    if any(not rec.get("searched") and any(b.k == "eqv" and m in b.a for z, _ in rec["backs"] for b in z.bools)
           for rec in eng.loop_log):
        return "?"                                   # a search this reasoning does not follow

    def missed(w, todo):
        for lo, hi in seen:
            todo = [z for x in todo for f in (ge(addc(sub(lo, w), -1)), ge(sub(w, hi))) for z in x.copy().assume(f)]
        return bool(todo)
    some = s.copy().assume(ge(addc(sub(g.a[2], g.a[1]), -1)))
    for w, what in ((g.a[1], "first"), (addc(g.a[2], -1), "last")):
        if missed(w, some):
            return "says the mark is not in the set without comparing the %s one" % what
    # every place: the compared stretches follow each other
    at = g.a[1]
    for _ in seen:
        for lo, hi in seen:
            if s.entails(sub(at, lo)) and s.entails(sub(hi, at)):
                at = hi
    return None if s.entails(sub(at, g.a[2])) else "?"


def present(eng, s, S, m):
    for b, v in s.bools.items():
        if v is not True:
            continue
        if b.k == "eqv":
            for x, y in ((b.a[0], b.a[1]), (b.a[1], b.a[0])):
                if x is m and y.k == "sym" and y.a[1][0] == "elem" and any(
                        g.k == "sub" and g.a[0] is y.a[1][1] for g in S.a[0]):
                    return True
        if b.k == "bv" and b.a[0][0] == "contains" and b.a[0][2] is m and (b.a[0][1] is S or any(
                g is b.a[0][1] or g.k == "sub" and b.a[0][1].k == "sub" and b.a[0][1].a[0] is g.a[0] for g in S.a[0])):
            return True
    return False


def shape(d, S, R):
    """R as an edit of S: ('same',) | ('put', i, j, x) | ('cut', i, j) | None"""
    if R is S:
        return ("same",)
    if len(S.a[0]) != 1 or S.a[0][0].k != "sub":
        return None
    B = S.a[0][0].a[0]
    n = d.blen(B)
    segs = list(R.a[0])
    lo, hi, x = ZERO, n, None
    if segs and segs[0].k == "sub" and segs[0].a[0] is B and segs[0].a[1] is ZERO:
        lo = segs.pop(0).a[2]
    if segs and segs[-1].k == "sub" and segs[-1].a[0] is B and segs[-1].a[2] is n:
        hi = segs.pop().a[1]
    if not segs:
        return ("cut", lo, hi)
    if len(segs) == 1:
        if segs[0].k == "one":
            return ("put", lo, hi, segs[0].a[0])
        if segs[0].k == "sub" and segs[0].a[2] is addc(segs[0].a[1], 1):
            return ("put", lo, hi, d.elem(segs[0].a[0], segs[0].a[1]))
    return None


def about(s, S):
    """the conditions of this path that look into the set"""
    bs = {g.a[0] for g in S.a[0]}
    return [b for b in s.bools if (b is S or closure_(b) & (bs | {S})) and not (s.bools[b] is True and of_types(b))]


def of_types(b):
    """only the types of marks are compared, which does not tell whether a mark itself is in the set"""
    if b.k == "eqv":
        return all(x.k == "sym" and isinstance(x.a[1], tuple) and x.a[1][0] == "mtype" for x in b.a)
    return b.k == "bv" and isinstance(b.a[0], tuple) and b.a[0][0] == "haskey" and by_type(b.a[0][3])


def add_spec(eng, s, S, R, m):
    d = eng.d
    e = shape(d, S, R)
    if e is None:
        return "?"
    if e[0] == "same":
        if present(eng, s, S, m):
            return None
        bs = about(s, S)
        if bs and not absent(eng, s, S, m) and all(s.bools[b] is True for b in bs):
            return "?"
        return "the set is left as it is although the mark may not be in it"
    if e[0] == "cut":
        return "marks are dropped from the set"
    lo, hi, x = e[1:]
    if not (x is m or s.eqv_decide(x, m) is True):
        return "%s is put into the set, not the mark" % show(x)
    if s.eq(lo, hi):
        return None  # order and uniqueness are the representation's obligation
    if s.eq(addc(lo, 1), hi):
        if s.eqv_decide(mtype(eng, m), mtype(eng, d.elem(S.a[0][0].a[0], lo))) is True:
            return None
        return "a mark of another type is replaced"
    if hi is d.blen(S.a[0][0].a[0]) and any(x.feasible() for x in s.copy().assume(ge(addc(sub(hi, lo), -2)))):
        return "the marks after it are dropped"
    return "?"


def rem_spec(eng, s, S, R, m):
    d = eng.d
    e = shape(d, S, R)
    if e is None:
        return "?"
    if e[0] == "same":
        if absent(eng, s, S, m):
            return None
        if present(eng, s, S, m):
            return "the mark stays in the set"
        return "?" if about(s, S) else "the set is left as it is although the mark may be in it"
    if e[0] == "put":
        return "a mark is added to the set"
    lo, hi = e[1:]
    if hi is d.blen(S.a[0][0].a[0]) and any(x.feasible() for x in s.copy().assume(ge(addc(sub(hi, lo), -2)))):
        return "the marks after it are removed too"
    if not s.eq(addc(lo, 1), hi):
        return "?" if not is_const(sub(hi, lo)) else "%s marks are removed" % show(sub(hi, lo))
    x = d.elem(S.a[0][0].a[0], lo)
    if s.eqv_decide(x, m) is True:
        return None
    k = bkey(lo)
    if k is not None and k[0] == "ok" and k[1] is S and k[4] == 0 and by_type(k[3]) and present(eng, s, S, m) and \
            s.eqv_decide(k[2], mtype(eng, m)) is True:
        return None  # the one mark of its type in the set
    if k is not None or s.eqv_decide(x, m) is False:
        return "%s is removed, which need not be the given mark" % show(x)
    return "?"


def check(ctx):
    p = ctx.p

    def good(eng, s, a):
        try:
            return ordered(eng, s, content(eng.d, a))
        except Undecided:
            return "?"

    invariant(ctx, "MarkSet", good, "%s can produce a mark set out of order: %s")

    def judge(r, key, f):
        def g(s, v):
            m = f(s, v)
            if m == "?":
                raise Undecided("shape of the result")
            return m
        ctx.judge(r, key, g)

    for name, spec in (("add", add_spec), ("remove", rem_spec)):
        r = ctx.run(ctx.item(name, owner="MarkSet"))
        if r:
            S = content(r.d, r.sym[0])
            m = r.sym[1]
            root = r.args[0].a[0]
            judge(r, "set." + name, lambda s, v: spec(r.eng, s, S, content(r.d, s.mem[root]), m))
            ctx.cover(r, "set." + name, [
                ("changes the set", lambda s, v: content(r.d, s.mem[root]) is not S)])
    for name, spec in (("add_to_set", add_spec), ("remove_from_set", rem_spec)):
        r = ctx.run(ctx.item(name, trait="Mark"), open_=[("Mark", "add_to_set"), ("Mark", "remove_from_set")])
        if r:
            eng, d = r.eng, r.d

            def behind(s, v):
                """the set behind a Cow value"""
                if v.k == "sym":
                    vs = s.variants(v)
                    if len(vs) != 1:
                        raise Undecided("borrowed or owned set")
                    v = d.expand(v, next(iter(vs)))
                return strip(eng, s, v.a[2][0])

            def f(s, v):
                S = content(d, behind(s, r.args[1]))
                return spec(eng, s, S, content(d, behind(s, v)), r.sym[0])

            judge(r, "set." + name, f)
            ctx.cover(r, "set." + name, [
                ("changes the set", lambda s, v: content(d, behind(s, v)) is not content(d, behind(s, r.args[1])))])
    r = ctx.run(ctx.item("contains", owner="MarkSet"))
    if r:
        S, m = content(r.d, r.sym[0]), r.sym[1]

        def has(s, v):
            if v.k == "bv" and v.a[0][0] == "contains" and v.a[0][2] is m and (v.a[0][1] is S or (
                    len(S.a[0]) == 1 and v.a[0][1] is S.a[0][0])):
                return None
            if v.k == "eqv" and m in v.a:
                y = v.a[1] if v.a[0] is m else v.a[0]
                if y.k == "sym" and y.a[1][0] == "elem" and len(S.a[0]) == 1 and S.a[0][0].k == "sub" and \
                        y.a[1][1] is S.a[0][0].a[0] and s.eqv_decide(mtype(r.eng, m), mtype(r.eng, y)) is True:
                    return None                      # the one mark of that type
            if v.k == "tt":
                if present(r.eng, s, S, m):
                    return None
                # only types were looked at
                if s.bools and all(b.k == "eqv" and all(is_type(x) for x in b.a) or
                                   b.k == "bv" and isinstance(b.a[0], tuple) and b.a[0][0] == "haskey" for b in s.bools):
                    return "says the mark is in the set without comparing it"
                return "?"
            if v.k == "ff":
                return None if absent(r.eng, s, S, m) else uncompared(r.eng, s, S, m)
            yes, no = s.copy().assume(v), s.copy().assume(b_not(v))
            for z, w in [(z, TT) for z in yes] + [(z, FF) for z in no]:
                x = has(z, w)
                if x:
                    return x
            return None

        judge(r, "set.contains", has)
    try:
        it = ctx.item("into_set", trait="Mark")
    except Missing:
        it = None
    if it:
        r = ctx.run(it)
        if r:
            judge(r, "set.into_set", lambda s, v: None if content(r.d, v).a[0] == (mk("one", r.sym[0]),)
                  else "the set is %s" % show(content(r.d, v)))
    # from a list: exactly the sorted marks, or an error when a type repeats
    r = ctx.run(ctx.item("try_from", owner="MarkSet", trait="TryFrom"))
    if r:
        eng, d = r.eng, r.d
        src = r.sym[0]

        def tf(s, v):
            nm, x = res(eng, v)
            dd = None
            for f in s.facts | s.eqs:
                for a in own_atoms(f):
                    if a.a[0] == "len" and a.a[1].a[1][0] == "dedup":
                        dd = a.a[1]
            if dd is None:
                if nm == "Ok":
                    c = content(d, x)
                    if len(c.a[0]) == 1 and c.a[0][0].k == "sub" and c.a[0][0].a[0].a[1][0] == "dedup":
                        return "marks of a repeated type are dropped instead of refused"
                return "?"
            n = d.seq_len(src)
            if nm == "Err":
                if s.entails(addc(sub(n, d.blen(dd)), -1)):
                    return None
                return "a list without repeated types is refused"
            c = content(d, x)
            if s.eq(d.seq_len(c), n):
                return None
            return "marks of a repeated type are dropped instead of refused"

        judge(r, "set.try_from", tf)
        ctx.cover(r, "set.try_from", [
            ("accepts a list", lambda s, v: res(eng, v)[0] == "Ok"),
            ("refuses a list", lambda s, v: res(eng, v)[0] == "Err")])
