"""Transfer functions for the standard library and for the schema-level trait methods.

`model(eng, st, callee, args, dest_ty)` returns a list of (state, value), or None when the callee has
no model (it is then inlined from its MIR, or havocked).
"""
from .terms import *
from .dom import *

# ------------------------------------------------------------------ helpers


def strip(eng, st, v):
    """through any number of references to the value"""
    while True:
        if v.k == "ref":
            v = v.a[0]
        elif v.k == "mref":
            v = eng.load(st, v.a[0], v.a[1])
        elif v.k == "box":
            v = eng.load(st, v.a[0], ())
        else:
            return v


def strip1(eng, st, v):
    if v.k == "ref":
        return v.a[0]
    if v.k == "mref":
        return eng.load(st, v.a[0], v.a[1])
    if v.k == "box":
        return eng.load(st, v.a[0], ())
    raise Undecided("deref of " + v.k)


def mloc(eng, st, v):
    """innermost mutable location behind nested &mut"""
    if v.k != "mref":
        raise Undecided("not a mutable reference: " + v.k)
    while True:
        x = eng.load(st, v.a[0], v.a[1])
        if x.k == "mref":
            v = x
        else:
            return v


def mstore(eng, st, v, new):
    eng.store(st, v.a[0], v.a[1], new)


def seqof(eng, st, v):
    x = strip(eng, st, v)
    if x.k != "seq":
        raise Undecided("sequence expected, got %s" % x.k)
    return x


def unit(eng):
    return eng.d.unit()


def none(dty):
    return mk("agg", dty, 0, ())


def some(dty, v):
    return mk("agg", dty, 1, (v,))


def variant(eng, ty, name, *fs):
    return mk("agg", ty, eng.p.variant_ix(ty, name), tuple(fs))


def fork(st, cond):
    """-> (states where cond, states where not cond)"""
    r = st.decide(cond)
    if r is True:
        return [st], []
    if r is False:
        return [], [st]
    a = st.copy().assume(cond)
    b = st.assume(b_not(cond))
    return a, b


def where(eng):
    if eng.stack:
        fid, b = eng.stack[-1]
        f = eng.p.fns.get(fid)
        if f is not None and isinstance(b, int):
            return (f["path"], f["blocks"][b]["t"].get("ln"))
    return ("?", 0)


def require(eng, st, cond, kind):
    """record a panic if cond may fail; -> states where it holds"""
    r = st.decide(cond)
    if r is True:
        return [st]
    eng.panic(st, kind, b_not(cond), where(eng))
    return st.assume(cond)


def le(a, b):
    return ge(sub(b, a))


def lt(a, b):
    return ge(addc(sub(b, a), -1))


def is_int(v):
    return v.k == "int"


def untuple(eng, v):
    if v.k == "agg":
        return list(v.a[2])
    raise Undecided("tuple of arguments")


def range_of(eng, st, r, n):
    """(lo, hi) of a std range value with open end n"""
    r = strip(eng, st, r)
    nm = eng.p.adt_name(r.a[0])
    d = eng.d
    if r.k == "agg" and len(r.a[2]) == 2 and all(x.k == "agg" and eng.p.adt_name(x.a[0]) == "Bound" for x in r.a[2]):
        lo, hi = r.a[2]
        names = [eng.p.types[x.a[0]]["variants"][x.a[1]]["name"] for x in (lo, hi)]
        return (ZERO if names[0] == "Unbounded" else addc(lo.a[2][0], names[0] == "Excluded"),
                n if names[1] == "Unbounded" else addc(hi.a[2][0], names[1] == "Included"))
    if nm == "Range":
        return d.proj(r, 0), d.proj(r, 1)
    if nm == "RangeFrom":
        return d.proj(r, 0), n
    if nm == "RangeTo":
        return ZERO, d.proj(r, 0)
    if nm == "RangeFull":
        return ZERO, n
    if nm == "RangeInclusive":
        return d.proj(r, 0), addc(d.proj(r, 1), 1)
    if nm == "RangeToInclusive":
        return ZERO, addc(d.proj(r, 0), 1)
    raise Undecided("range type " + str(nm))


def is_str_ty(eng, ty):
    t = eng.p.types[ty]
    while t["k"] == "ref":
        t = eng.p.types[t["elem"]]
    return t["k"] == "str" or (t["k"] == "adt" and t["path"] == "alloc::string::String")


def byte_pos(eng, st, s, pos):
    """char index of the byte position `pos` of the string s, or None"""
    d = eng.d
    if pos is ZERO:
        return ZERO
    if st.eq(pos, d.seq_measure(s, "B")):
        return d.seq_len(s)
    # candidate indices: those whose prefix measure occurs in pos
    off = ZERO
    offB = ZERO
    for sg in s.a[0]:
        if sg.k == "sub":
            cands = [sg.a[1], sg.a[2]]
            if st.entails(addc(d.seg_len(sg), -1)):
                cands += [addc(sg.a[2], -1), addc(sg.a[1], 1)]
            for a, _ in pos.a[1]:
                if a.a[0] == "P" and a.a[1] is sg.a[0] and a.a[2] == "B":
                    cands.append(a.a[3])
            for j in cands:
                pj = add(offB, sub(d.P(sg.a[0], "B", j), d.P(sg.a[0], "B", sg.a[1])))
                if st.eq(pj, pos):
                    return add(off, sub(j, sg.a[1]))
        elif sg.k == "lit":
            b = 0
            for i, ch in enumerate(sg.a[0]):
                if st.eq(addc(offB, b), pos):
                    return addc(off, i)
                b += len(ch.encode("utf8"))
        elif st.eq(offB, pos):
            return off
        off = add(off, d.seg_len(sg))
        offB = add(offB, d.seg_measure(sg, "B"))
    return None


def default_of(eng, ty):
    p, d = eng.p, eng.d
    t = p.types[ty]
    if t["k"] == "int":
        return ZERO
    if t["k"] == "bool":
        return FF
    if p.seq_elem(ty) is not None:
        return d.seq([])
    if t["k"] == "adt" and t["path"].endswith("option::Option"):
        return none(ty)
    if t["k"] == "tuple":
        return mk("agg", ty, 0, tuple(default_of(eng, x) for x in t["elems"]))
    return None


# ------------------------------------------------------------------ iterators


def it(kind, *a):
    return mk("it", kind, *a)


def as_iter(eng, st, v):
    """IntoIterator::into_iter on a value; None if unknown"""
    if v.k == "it":
        return v
    if v.k == "seq":
        return it("seq", v, "val")
    if v.k == "ref":
        x = v.a[0]
        while x.k == "ref":
            x = x.a[0]
        if x.k == "seq":
            return it("seq", x, "ref")
        if x.k == "agg" and eng.p.adt_name(x.a[0]) == "Option":
            if x.a[1] == 0:
                return it("seq", eng.d.seq([]), "val")
            return it("seq", eng.d.seq([mk("one", ref(x.a[2][0]))]), "val")
        return None
    if v.k == "mref":
        x = eng.load(st, v.a[0], v.a[1])
        if x.k == "seq":
            return it("mut", v.a[0], v.a[1], ZERO, eng.d.seq_len(x))
        if x.k == "it" or is_range(eng, x):
            return it("by_ref", v.a[0], v.a[1])
        return None
    if is_range(eng, v):
        return v
    if v.k == "agg" and eng.p.adt_name(v.a[0]) == "Option":
        return it("seq", eng.d.seq([mk("one", x) for x in v.a[2]]), "val")
    return None


def is_range(eng, v):
    return v.k == "agg" and eng.p.adt_name(v.a[0]) in ("Range", "RangeInclusive", "RangeFrom")


def item_of(how, v):
    return ref(v) if how == "ref" else v


def iter_next(eng, st, i, back=False):
    """-> list of (state, iterator after, item or None at the end)"""
    d = eng.d
    if i.k == "agg":
        nm = eng.p.adt_name(i.a[0])
        if nm == "RangeFrom":
            lo = d.proj(i, 0)
            return [(st, mk("agg", i.a[0], 0, (addc(lo, 1),)), lo)]
        lo, hi = d.proj(i, 0), d.proj(i, 1)
        if lo.k != "int":
            raise Undecided("range of " + lo.k)
        out = []
        if nm == "Range":
            y, n = fork(st, lt(lo, hi))
            for s in y:
                if back:
                    out.append((s, mk("agg", i.a[0], 0, (lo, addc(hi, -1))), addc(hi, -1)))
                else:
                    out.append((s, mk("agg", i.a[0], 0, (addc(lo, 1), hi)), lo))
        else:
            # RangeInclusive: treated as lo..hi+1; the exhausted flag is folded into lo > hi
            y, n = fork(st, le(lo, hi))
            for s in y:
                if back:
                    out.append((s, mk("agg", i.a[0], 0, (lo, addc(hi, -1)) + i.a[2][2:]), hi))
                else:
                    out.append((s, mk("agg", i.a[0], 0, (addc(lo, 1), hi) + i.a[2][2:]), lo))
        out.extend((s, i, None) for s in n)
        return out
    if i.k == "mref":
        raise Undecided("iterator behind reference")
    if i.k != "it":
        raise Undecided("iterator " + i.k)
    k = i.a[0]
    if k == "by_ref":
        inner = eng.load(st, i.a[1], i.a[2])
        out = []
        for s, i2, x in iter_next(eng, st, inner, back):
            eng.store(s, i.a[1], i.a[2], i2)
            out.append((s, i, x))
        return out
    if k == "seq":
        s, how = i.a[1], i.a[2]
        segs = list(s.a[0])
        if not segs:
            return [(st, i, None)]
        ix = -1 if back else 0
        sg = segs[ix]
        if sg.k == "one":
            rest = segs[:-1] if back else segs[1:]
            return [(st, it("seq", d.seq(rest), how), item_of(how, sg.a[0]))]
        if sg.k == "lit":
            ch = sg.a[0][-1] if back else sg.a[0][0]
            r = sg.a[0][:-1] if back else sg.a[0][1:]
            rest = segs[:-1] + ([mk("lit", r)] if r else []) if back else ([mk("lit", r)] if r else []) + segs[1:]
            return [(st, it("seq", d.seq(rest), how), item_of(how, num(ord(ch))))]
        b, lo, hi = sg.a
        y, n = fork(st, lt(lo, hi))
        out = []
        for s1 in y:
            if back:
                x = d.elem(b, addc(hi, -1))
                rest = segs[:-1] + [mk("sub", b, lo, addc(hi, -1))]
            else:
                x = d.elem(b, lo)
                rest = [mk("sub", b, addc(lo, 1), hi)] + segs[1:]
            # keep a lone segment even when it may be empty (loop-carried shape)
            sq = mk("seq", tuple(rest)) if len(rest) == 1 else d.seq(rest)
            out.append((s1, it("seq", sq, how), item_of(how, x)))
        for s1 in n:
            rest = segs[:-1] if back else segs[1:]
            if rest:
                out.extend(iter_next(eng, s1, it("seq", d.seq(rest), how), back))
            else:
                out.append((s1, i, None))
        return out
    if k == "mut":
        root, proj, lo, hi = i.a[1:]
        y, n = fork(st, lt(lo, hi))
        out = []
        for s in y:
            if back:
                out.append((s, it("mut", root, proj, lo, addc(hi, -1)),
                            mk("mref", root, tuple(proj) + (("sidx", addc(hi, -1)),))))
            else:
                out.append((s, it("mut", root, proj, addc(lo, 1), hi),
                            mk("mref", root, tuple(proj) + (("sidx", lo),))))
        out.extend((s, i, None) for s in n)
        return out
    if k == "rev":
        return [(s, it("rev", i2), x) for s, i2, x in iter_next(eng, st, i.a[1], not back)]
    if k == "char_indices":
        out = []
        for s, i2, x in iter_next(eng, st, it("seq", i.a[1], "val"), back):
            at = i.a[2] if len(i.a) > 2 else ZERO
            w = None if x is None else d.measure(x, "B")
            rest = i2.a[1]
            if x is None:
                out.append((s, it("char_indices", rest, at), None))
            elif back:
                out.append((s, it("char_indices", rest, at),
                            mk("agg", tuple_ty(eng, 2), 0, (add(at, d.seq_measure(rest, "B")), x))))
            else:
                out.append((s, it("char_indices", rest, add(at, w)), mk("agg", tuple_ty(eng, 2), 0, (at, x))))
        return out
    if k == "enum":
        out = []
        cnt = i.a[2]
        for s, i2, x in iter_next(eng, st, i.a[1], back):
            if x is None:
                out.append((s, it("enum", i2, cnt, i.a[3]), None))
            elif back:
                ln = iter_len(eng, s, i2)
                if ln is None:
                    raise Undecided("enumerate from the back")
                out.append((s, it("enum", i2, cnt, i.a[3]), mk("agg", i.a[3], 0, (add(cnt, ln), x))))
            else:
                out.append((s, it("enum", i2, addc(cnt, 1), i.a[3]), mk("agg", i.a[3], 0, (cnt, x))))
        return out
    if k in ("cloned", "copied"):
        return [(s, it(k, i2), x if x is None else strip1(eng, s, x)) for s, i2, x in iter_next(eng, st, i.a[1], back)]
    if k == "map":
        out = []
        for s, i2, x in iter_next(eng, st, i.a[1], back):
            if x is None:
                out.append((s, it("map", i2, i.a[2], i.a[3]), None))
            else:
                for s2, y, f2 in call_mut(eng, s, i.a[2], [x], i.a[3]):
                    out.append((s2, it("map", i2, f2, i.a[3]), y))
        return out
    if k == "zip":
        out = []
        for s, a2, x in iter_next(eng, st, i.a[1], back):
            if x is None:
                out.append((s, it("zip", a2, i.a[2], i.a[3]), None))
                continue
            for s2, b2, y in iter_next(eng, s, i.a[2], back):
                if y is None:
                    out.append((s2, it("zip", a2, b2, i.a[3]), None))
                else:
                    out.append((s2, it("zip", a2, b2, i.a[3]), mk("agg", i.a[3], 0, (x, y))))
        return out
    if k == "chain" and not back:
        out = []
        for s, a2, x in iter_next(eng, st, i.a[1]):
            if x is not None:
                out.append((s, it("chain", a2, i.a[2]), x))
            else:
                for s2, b2, y in iter_next(eng, s, i.a[2]):
                    out.append((s2, it("chain", a2, b2), y))
        return out
    if k == "take" and not back:
        out = []
        y, n = fork(st, ge(addc(i.a[2], -1)))
        for s in y:
            for s2, i2, x in iter_next(eng, s, i.a[1]):
                out.append((s2, it("take", i2, addc(i.a[2], -1)), x))
        out.extend((s, i, None) for s in n)
        return out
    if k == "skip":
        # skip(n) over something with known random access
        inner = i.a[1]
        n = i.a[2]
        ln = iter_len(eng, st, inner)
        adv = iter_skip(eng, inner, n)
        if ln is None or adv is None:
            raise Undecided("skip")
        y, no = fork(st, le(n, ln))
        out = []
        for s in y:
            out.extend(iter_next(eng, s, adv, back))
        out.extend((s, i, None) for s in no)
        return out
    if k in ("filter", "filter_map", "take_while", "skip_while", "peekable", "chars_idx"):
        return _adapt_next(eng, st, i, back)
    raise Undecided("iterator adapter " + str(k))


def call_mut(eng, st, f, args, ret):
    """call closure value f; -> (state, result, closure value after)"""
    if f.k in ("fn", "ref", "mref", "hook"):
        return [(s, v, f) for s, v in eng.call_value(st, f, args, ret)]
    root = eng.alloc(st, f)
    out = []
    for s, v in eng.call_value(st, mk("mref", root, ()), args, ret):
        f2 = s.mem.pop(root, f)
        out.append((s, v, f2))
    return out


def _adapt_next(eng, st, i, back):
    d = eng.d
    k = i.a[0]
    if k == "peekable":
        pk = i.a[2]
        if pk is UNDEF:
            return [(s, it("peekable", i2, UNDEF, i.a[3]), x) for s, i2, x in iter_next(eng, st, i.a[1])]
        if pk.a[1] == 0:
            return [(st, it("peekable", i.a[1], UNDEF, i.a[3]), None)]
        return [(st, it("peekable", i.a[1], UNDEF, i.a[3]), pk.a[2][0])]
    if k == "take_while":
        out = []
        for s, i2, x in iter_next(eng, st, i.a[1], back):
            if x is None:
                out.append((s, i, None))
                continue
            for s2, c, f2 in call_mut(eng, s, i.a[2], [ref(x)], eng.p.boolty):
                y, n = fork(s2, c)
                out.extend((s3, it("take_while", i2, f2), x) for s3 in y)
                out.extend((s3, it("take_while", it("seq", d.seq([]), "val"), f2), None) for s3 in n)
        return out
    if k in ("filter", "filter_map"):
        r_it = eng.alloc(st, i.a[1])
        r_f = eng.alloc(st, i.a[2])

        def body(s0):
            backs, exits = [], []
            for s, i2, x in iter_next(eng, s0, s0.mem[r_it], back):
                s.mem[r_it] = i2
                if x is None:
                    exits.append((("none", None), s))
                    continue
                if k == "filter":
                    for s2, c in eng.call_value(s, mk("mref", r_f, ()), [ref(x)], eng.p.boolty):
                        y, n = fork(s2, c)
                        exits.extend((("some", x), s3) for s3 in y)
                        backs.extend(n)
                else:
                    oty = i.a[3]
                    for s2, o in eng.call_value(s, mk("mref", r_f, ()), [x], oty):
                        for s3, vs in split_variants(eng, s2, o):
                            if vs == 1:
                                exits.append((("some", d.proj(o, 0, 1)), s3))
                            else:
                                backs.append(s3)
            return backs, exits

        out = []
        key = (tuple(eng.stack), "adapter", k, r_it)
        for (tag, x), s in eng.run_loop(key, st, body, where=where(eng)):
            i2, f2 = s.mem.pop(r_it), s.mem.pop(r_f)
            out.append((s, mk("it", k, i2, f2, *i.a[3:]), x))
        return out
    raise Undecided("adapter " + k)


def iter_len(eng, st, i):
    d = eng.d
    if i.k == "agg":
        nm = eng.p.adt_name(i.a[0])
        lo, hi = d.proj(i, 0), d.proj(i, 1)
        x = sub(hi, lo) if nm == "Range" else addc(sub(hi, lo), 1)
        return x if st.entails(x) else None
    if i.k != "it":
        return None
    k = i.a[0]
    if k == "seq":
        return d.seq_len(i.a[1])
    if k == "mut":
        return sub(i.a[4], i.a[3])
    if k in ("rev", "enum", "map", "cloned", "copied"):
        return iter_len(eng, st, i.a[1])
    if k == "skip":
        l = iter_len(eng, st, i.a[1])
        if l is not None and st.entails(sub(l, i.a[2])):
            return sub(l, i.a[2])
    if k == "take":
        l = iter_len(eng, st, i.a[1])
        if l is not None and st.entails(sub(l, i.a[2])):
            return i.a[2]
    if k == "chain":
        x, y = iter_len(eng, st, i.a[1]), iter_len(eng, st, i.a[2])
        return None if x is None or y is None else add(x, y)
    return None


def iter_skip(eng, i, n):
    d = eng.d
    if i.k == "it":
        k = i.a[0]
        if k == "seq":
            s = i.a[1]
            if len(s.a[0]) == 1 and s.a[0][0].k == "sub":
                b, lo, hi = s.a[0][0].a
                return it("seq", mk("seq", (mk("sub", b, add(lo, n), hi),)), i.a[2])
            if n is ZERO or not s.a[0]:
                return i
        if k == "mut":
            return it("mut", i.a[1], i.a[2], add(i.a[3], n), i.a[4])
        if k == "enum":
            x = iter_skip(eng, i.a[1], n)
            return None if x is None else it("enum", x, add(i.a[2], n), i.a[3])
        if k in ("cloned", "copied"):
            x = iter_skip(eng, i.a[1], n)
            return None if x is None else it(k, x)
        if k == "map":
            return None
    if i.k == "agg" and eng.p.adt_name(i.a[0]) in ("Range", "RangeInclusive"):
        return mk("agg", i.a[0], 0, (add(d.proj(i, 0), n),) + tuple(i.a[2][1:]))
    return None


def split_variants(eng, st, v):
    """-> [(state, variant index)]"""
    vs = sorted(st.variants(v))
    out = []
    for n, x in enumerate(vs):
        s = st if n == len(vs) - 1 else st.copy()
        if s.refine(v, frozenset([x])):
            out.append((s, x))
    return out


SKIPPED = object()


def one_step(eng, st, i):
    """as iter_next, but a filter that rejects an item says SKIPPED instead of looking for the next"""
    if i.k != "it" or i.a[0] not in ("filter", "filter_map", "map"):
        return iter_next(eng, st, i)
    k = i.a[0]
    inner = i.a[1]
    while inner.k == "it" and inner.a[0] == "map":
        inner = inner.a[1]
    if k == "map" and not (inner.k == "it" and inner.a[0] in ("filter", "filter_map")):
        return iter_next(eng, st, i)
    out = []
    for s, i2, x in one_step(eng, st, i.a[1]):
        if x is None or x is SKIPPED:
            out.append((s, mk("it", k, i2, *i.a[2:]), x))
            continue
        if k == "filter":
            for s2, c, f2 in call_mut(eng, s, i.a[2], [ref(x)], eng.p.boolty):
                y, n = fork(s2, c)
                j = mk("it", k, i2, f2, *i.a[3:])
                out.extend((z, j, x) for z in y)
                out.extend((z, j, SKIPPED) for z in n)
        elif k == "map":
            for s2, o, f2 in call_mut(eng, s, i.a[2], [x], i.a[3]):
                out.append((s2, mk("it", k, i2, f2, *i.a[3:]), o))
        else:
            for s2, o, f2 in call_mut(eng, s, i.a[2], [x], i.a[3]):
                j = mk("it", k, i2, f2, *i.a[3:])
                for s3, vs in split_variants(eng, s2, o):
                    out.append((s3, j, eng.d.proj(o, 0, 1) if vs == 1 else SKIPPED))
    return out


def drive(eng, st, i, tag, slots, step, finish):
    """synthetic loop consuming iterator i.  slots: initial accumulator values; step(s, item, roots) ->
    list of ("cont", s) / ("brk", s, value); finish(s, roots) -> list of (state, value)"""
    r_it = eng.alloc(st, i)
    roots = [eng.alloc(st, v) for v in slots]

    def body(s0):
        backs, exits = [], []
        for s, i2, x in one_step(eng, s0, s0.mem[r_it]):
            s.mem[r_it] = i2
            if x is None:
                exits.append((("end", None), s))
                continue
            if x is SKIPPED:
                backs.append(s)
                continue
            for o in step(s, x, roots):
                if o[0] == "cont":
                    backs.append(o[1])
                else:
                    exits.append((("brk", o[2]), o[1]))
        return backs, exits

    key = (tuple(eng.stack), "consume", tag, r_it)
    out = []
    for (t, v), s in eng.run_loop(key, st, body, where=where(eng)):
        if t == "end":
            res = finish(s, roots)
        else:
            res = [(s, v)]
        for s2, v2 in res:
            for r in [r_it] + roots:
                s2.mem.pop(r, None)
            out.append((s2, v2))
    return out


# ------------------------------------------------------------------ dispatch tables

STD = {}


def std(*names):
    def deco(f):
        for n in names:
            STD[n] = f
        return f
    return deco


def norm(path):
    """a callee path without generic arguments"""
    out, depth = [], 0
    i = 0
    s = path
    while i < len(s):
        c = s[i]
        if c == "<":
            depth += 1
        elif c == ">" and s[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::")


PANICS = ("core::panicking::", "std::panicking::", "core::option::unwrap_failed", "core::option::expect_failed",
          "core::result::unwrap_failed", "core::slice::index::slice_", "core::str::slice_error_fail",
          "alloc::vec::remove::assert_failed", "alloc::vec::insert", "core::cell::panic", "std::process::abort",
          "std::rt::begin_panic", "core::hint::unreachable_unchecked", "alloc::raw_vec::handle_error",
          "alloc::alloc::handle_alloc_error", "std::process::exit")


def model(eng, st, c, args, dty):
    path = c.get("rpath") or c["path"]
    name = c.get("name") or last(path)
    tr = c.get("trait")
    crate = c.get("rcrate") or c.get("crate")
    local = c.get("rlocal")
    if any(path.startswith(x) for x in PANICS) and not local:
        eng.panic(st, "panic", TT, where(eng))
        return []
    if tr:
        tl = last(norm(tr))
        if tr.startswith("core::") or tr.startswith("alloc::") or tr.startswith("std::"):
            f = TRAITS.get((tl, name))
            if f is not None:
                r = f(eng, st, c, args, dty)
                if r is not None:
                    return r
        elif tr.startswith("prosemirror::"):
            f = LOCAL.get((tl, name))
            if f is not None and (tl, name) not in eng.opts.get("real", ()):
                r = f(eng, st, c, args, dty)
                if r is not None:
                    return r
        if local:
            return None
    if local or crate == "prosemirror":
        return None
    key = norm(path)
    f = STD.get(key)
    if f is None:
        # inherent impls print as  core::slice::<impl [T]>::len
        ty = None
        if "<impl [T]>" in path:
            ty = "slice"
        elif "<impl str>" in path:
            ty = "str"
        elif "<impl char>" in path:
            ty = "char"
        elif "num::<impl " in path:
            ty = "num"
        if ty:
            f = STD.get(ty + "::" + name)
    if f is not None:
        return f(eng, st, c, args, dty)
    if key.startswith("core::fmt::") or key.startswith("alloc::fmt::"):
        return None
    return None


# ------------------------------------------------------------------ Vec / slice / String

V = "alloc::vec::Vec::"
S = "alloc::string::String::"


@std(V + "new", V + "with_capacity", S + "new", S + "with_capacity")
def _new(eng, st, c, a, t):
    return [(st, eng.d.seq([]))]


@std(V + "len", "slice::len")
def _len(eng, st, c, a, t):
    return [(st, eng.d.seq_len(seqof(eng, st, a[0])))]


@std(S + "len", "str::len")
def _slen(eng, st, c, a, t):
    return [(st, eng.d.seq_measure(seqof(eng, st, a[0]), "B"))]


@std(V + "is_empty", S + "is_empty", "slice::is_empty", "str::is_empty")
def _is_empty(eng, st, c, a, t):
    s = seqof(eng, st, a[0])
    return [(st, b_not(ge(addc(eng.d.seq_len(s), -1))))]


@std(V + "capacity", S + "capacity")
def _cap(eng, st, c, a, t):
    s = seqof(eng, st, a[0])
    return [(st, ia(atom("un", "cap", s)))]


@std(V + "reserve", S + "reserve", V + "shrink_to_fit", V + "reserve_exact")
def _noop(eng, st, c, a, t):
    return [(st, unit(eng))]


@std(V + "as_slice", S + "as_str", V + "as_ref", S + "as_mut_str", "slice::as_ref", S + "as_ref")
def _asslice(eng, st, c, a, t):
    return [(st, ref(seqof(eng, st, a[0])))]


@std(V + "as_mut_slice")
def _asmut(eng, st, c, a, t):
    return [(st, mloc(eng, st, a[0]))]


@std(V + "push")
def _push(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    mstore(eng, st, m, eng.d.concat(s, eng.d.seq([mk("one", a[1])])))
    return [(st, unit(eng))]


@std(S + "push")
def _spush(eng, st, c, a, t):
    return _push(eng, st, c, a, t)


@std(S + "push_str", V + "extend_from_slice")
def _push_str(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    mstore(eng, st, m, eng.d.concat(s, seqof(eng, st, a[1])))
    return [(st, unit(eng))]


@std(V + "append")
def _append(eng, st, c, a, t):
    m, o = mloc(eng, st, a[0]), mloc(eng, st, a[1])
    s, x = eng.load(st, m.a[0], m.a[1]), eng.load(st, o.a[0], o.a[1])
    mstore(eng, st, m, eng.d.concat(s, x))
    mstore(eng, st, o, eng.d.seq([]))
    return [(st, unit(eng))]


@std(V + "clear", S + "clear")
def _clear(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    mstore(eng, st, m, eng.d.seq([]))
    return [(st, unit(eng))]


@std(V + "truncate")
def _truncate(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    y, n = fork(st, le(a[1], eng.d.seq_len(s)))
    for s1 in y:
        r = eng.d.seq_slice(s1, s, ZERO, a[1])
        if r is None:
            raise Undecided("truncate")
        mstore(eng, s1, m, r)
    return [(x, unit(eng)) for x in y + n]


@std(V + "pop")
def _pop(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    out = []
    for s1, x, rest in take_end(eng, st, s, True):
        if x is None:
            out.append((s1, none(t)))
        else:
            mstore(eng, s1, m, rest)
            out.append((s1, some(t, x)))
    return out


@std(S + "pop")
def _spop(eng, st, c, a, t):
    return _pop(eng, st, c, a, t)


def take_end(eng, st, s, back):
    """-> [(state, element or None, rest)]"""
    out = []
    for s1, i2, x in iter_next(eng, st, it("seq", s, "val"), back):
        out.append((s1, x, None if x is None else eng.d.seq(i2.a[1].a[0])))
    return out


@std(V + "insert")
def _insert(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    out = []
    for s1 in require(eng, st, le(a[1], eng.d.seq_len(s)), "bounds"):
        cut = eng.d.cut_at(s1, s, a[1])
        if cut is None:
            raise Undecided("insert position")
        mstore(eng, s1, m, eng.d.seq(list(cut[0]) + [mk("one", a[2])] + list(cut[1])))
        out.append((s1, unit(eng)))
    return out


@std(V + "remove")
def _remove(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    out = []
    for s1 in require(eng, st, lt(a[1], eng.d.seq_len(s)), "bounds"):
        x = eng.d.seq_get(s1, s, a[1])
        r = eng.d.seq_set(s1, s, a[1], [])
        if x is None or r is None:
            raise Undecided("remove position")
        mstore(eng, s1, m, r)
        out.append((s1, x))
    return out


@std(V + "split_off")
def _split_off(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    out = []
    for s1 in require(eng, st, le(a[1], eng.d.seq_len(s)), "bounds"):
        cut = eng.d.cut_at(s1, s, a[1])
        if cut is None:
            raise Undecided("split_off position")
        mstore(eng, s1, m, eng.d.seq(cut[0]))
        out.append((s1, eng.d.seq(cut[1])))
    return out


@std("slice::first", "slice::last")
def _first(eng, st, c, a, t):
    s = seqof(eng, st, a[0])
    return [(s1, none(t) if x is None else some(t, ref(x)))
            for s1, x, _ in take_end(eng, st, s, c["name"] == "last")]


@std("slice::first_mut", "slice::last_mut")
def _first_mut(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    n = eng.d.seq_len(s)
    out = []
    for s1, x, _ in take_end(eng, st, s, c["name"] == "last_mut"):
        if x is None:
            out.append((s1, none(t)))
        else:
            ix = addc(n, -1) if c["name"] == "last_mut" else ZERO
            out.append((s1, some(t, mk("mref", m.a[0], tuple(m.a[1]) + (("sidx", ix),)))))
    return out


@std("slice::get")
def _get(eng, st, c, a, t):
    s = seqof(eng, st, a[0])
    d = eng.d
    n = d.seq_len(s)
    if a[1].k == "int":
        y, no = fork(st, lt(a[1], n))
        out = []
        for s1 in y:
            x = d.seq_get(s1, s, a[1])
            if x is None:
                raise Undecided("get")
            out.append((s1, some(t, ref(x))))
        return out + [(s1, none(t)) for s1 in no]
    lo, hi = range_of(eng, st, a[1], n)
    y, no = fork(st, b_and(le(lo, hi), le(hi, n)))
    out = []
    for s1 in y:
        x = d.seq_slice(s1, s, lo, hi)
        if x is None:
            raise Undecided("get range")
        out.append((s1, some(t, ref(x))))
    return out + [(s1, none(t)) for s1 in no]


@std("slice::get_mut")
def _get_mut(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    if a[1].k != "int":
        raise Undecided("get_mut range")
    y, no = fork(st, lt(a[1], eng.d.seq_len(s)))
    return [(s1, some(t, mk("mref", m.a[0], tuple(m.a[1]) + (("sidx", a[1]),)))) for s1 in y] + [
        (s1, none(t)) for s1 in no]


@std("slice::split_at")
def _split_at(eng, st, c, a, t):
    s = seqof(eng, st, a[0])
    out = []
    for s1 in require(eng, st, le(a[1], eng.d.seq_len(s)), "bounds"):
        cut = eng.d.cut_at(s1, s, a[1])
        if cut is None:
            raise Undecided("split_at")
        out.append((s1, mk("agg", t, 0, (ref(eng.d.seq(cut[0])), ref(eng.d.seq(cut[1]))))))
    return out


@std("str::split_at")
def _str_split_at(eng, st, c, a, t):
    s = seqof(eng, st, a[0])
    j = byte_pos(eng, st, s, a[1])
    if j is None:
        raise Undecided("byte position %s in %s" % (show(a[1]), show(s)))
    cut = eng.d.cut_at(st, s, j)
    if cut is None:
        raise Undecided("split_at")
    return [(st, mk("agg", t, 0, (ref(eng.d.seq(cut[0])), ref(eng.d.seq(cut[1])))))]


@std("slice::split_first", "slice::split_last")
def _split_first(eng, st, c, a, t):
    s = seqof(eng, st, a[0])
    tup = eng.p.types[t]["args"][0]
    out = []
    for s1, x, rest in take_end(eng, st, s, c["name"] == "split_last"):
        out.append((s1, none(t) if x is None else some(t, mk("agg", tup, 0, (ref(x), ref(rest))))))
    return out


@std("slice::iter", "str::chars")
def _iter(eng, st, c, a, t):
    how = "val" if c["name"] == "chars" else "ref"
    return [(st, it("seq", seqof(eng, st, a[0]), how))]


@std("slice::iter_mut")
def _iter_mut(eng, st, c, a, t):
    return [(st, as_iter(eng, st, mloc(eng, st, a[0])))]


@std("slice::to_vec", "slice::into_vec", "alloc::slice::to_vec")
def _to_vec(eng, st, c, a, t):
    return [(st, seqof(eng, st, a[0]))]


@std("str::to_owned", "str::to_string", "str::as_str", "str::as_ref")
def _to_owned(eng, st, c, a, t):
    s = seqof(eng, st, a[0])
    return [(st, ref(s) if c["name"].startswith("as_") else s)]


@std("slice::concat")
def _concat(eng, st, c, a, t):
    out = eng.d.seq([])
    for sg in seqof(eng, st, a[0]).a[0]:
        x = strip(eng, st, sg.a[0]) if sg.k == "one" else None
        if x is None or x.k != "seq":
            raise Undecided("model of concat")
        out = eng.d.concat(out, x)
    return [(st, out)]


def pattern_chars(eng, st, v):
    """the characters of a pattern that is a char or a short known string, or None"""
    while v.k == "ref":
        v = v.a[0]
    if v.k == "int":
        return [v]
    if v.k == "seq" and all(g.k in ("lit", "one") for g in v.a[0]):
        xs = [z for g in v.a[0] for z in ([num(ord(ch)) for ch in g.a[0]] if g.k == "lit" else [g.a[0]])]
        return xs if len(xs) <= 3 else None
    return None


def match_end(eng, st, s, cs, back):
    """-> [(state, the string without the pattern, or None when it does not match)]"""
    cur, out = [(st, s)], []
    for ch in (cs[::-1] if back else cs):
        nxt = []
        for s0, r in cur:
            for s1, x, rest in take_end(eng, s0, r, back):
                if x is None:
                    out.append((s1, None))
                    continue
                y, n = fork(s1, eq0(sub(x, ch)))
                nxt.extend((z, rest) for z in y)
                out.extend((z, None) for z in n)
        cur = nxt
    return cur + out


@std("str::ends_with", "str::starts_with", "str::strip_suffix", "str::strip_prefix")
def _ends_with(eng, st, c, a, t):
    cs = pattern_chars(eng, st, a[1])
    s = seqof(eng, st, a[0])
    if not cs or any(g.k == "lit" for g in s.a[0]) and len(s.a[0]) == 1:
        return None
    rs = match_end(eng, st, s, cs, c["name"] in ("ends_with", "strip_suffix"))
    if c["name"].startswith("strip"):
        return [(z, none(t) if r is None else some(t, ref(r))) for z, r in rs]
    return [(z, FF if r is None else TT) for z, r in rs]


@std(S + "truncate")
def _struncate(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    y, n = fork(st, le(a[1], eng.d.seq_measure(s, "B")))
    for s1 in y:
        j = byte_pos(eng, s1, s, a[1])
        r = None if j is None else eng.d.seq_slice(s1, s, ZERO, j)
        if r is None:
            raise Undecided("truncate")
        mstore(eng, s1, m, r)
    return [(x, unit(eng)) for x in y + n]


@std("slice::swap", "slice::reverse", "slice::join")
def _unk(eng, st, c, a, t):
    raise Undecided("model of " + c["name"])


@std("slice::contains")
def _contains(eng, st, c, a, t):
    s = seqof(eng, st, a[0])
    x = strip1(eng, st, a[1])
    fs = []
    for sg in s.a[0]:
        if sg.k == "one":
            fs.append(eng.eqf(st, sg.a[0], x))
        elif sg.k == "sub":
            fs.append(mk("bv", ("contains", sg, x)))
        else:
            fs.append(mk("bv", ("contains", sg, x)))
    return [(st, b_or(*fs))]


@std("core::str::iter::Chars::as_str")
def _chars_as_str(eng, st, c, a, t):
    i = strip(eng, st, a[0])
    if i.k == "it" and i.a[0] == "seq":
        return [(st, ref(eng.d.seq(i.a[1].a[0])))]
    raise Undecided("as_str of " + i.k)


@std("core::slice::iter::Iter::as_slice")
def _iter_as_slice(eng, st, c, a, t):
    return _chars_as_str(eng, st, c, a, t)


@std("char::len_utf16")
def _lu16(eng, st, c, a, t):
    return [(st, eng.d.measure(a[0], "U"))]


@std("char::len_utf8")
def _lu8(eng, st, c, a, t):
    return [(st, eng.d.measure(a[0], "B"))]


@std("str::encode_utf16")
def _enc16(eng, st, c, a, t):
    return [(st, it("utf16", seqof(eng, st, a[0])))]


@std("str::bytes")
def _bytes(eng, st, c, a, t):
    return [(st, it("bytes", seqof(eng, st, a[0])))]


@std("str::char_indices")
def _cidx(eng, st, c, a, t):
    return [(st, it("char_indices", seqof(eng, st, a[0]), ZERO))]


@std("slice::binary_search_by_key", "slice::binary_search_by", "slice::partition_point")
def _bsearch(eng, st, c, a, t):
    d = eng.d
    s = seqof(eng, st, a[0])
    n = d.seq_len(s)
    e = elem_ty(eng, c, s)
    if c["name"] == "binary_search_by_key":
        k = strip1(eng, st, a[1])
        kf = keyfn(eng, st, a[2], e)
    elif c["name"] == "binary_search_by":
        r = keyfn(eng, st, a[1], e)
        if r.k != "sym" or r.a[1][0] != "cmp":
            raise Undecided("comparison function of a search")
        kf, k = r.a[1][1:]
    else:
        raise Undecided(c["name"])
    out = []
    okv, errv = eng.p.variant_ix(t, "Ok"), eng.p.variant_ix(t, "Err")
    # found
    s1 = st.copy()
    i = ia(atom("u", mkkey(("bsearch", "ok", s, k, kf))))
    for s2 in s1.assume(lt(i, n)):
        x = d.seq_get(s2, s, i)
        if x is None:
            raise Undecided("search in a composite sequence")
        kx = d.subst(kf, {d.mk_sym(e, ("generic",)): x})
        for s4 in s2.assume(eng.eqf(s2, kx, k)):
            out.append((s4, mk("agg", t, okv, (i,))))
    j = ia(atom("u", mkkey(("bsearch", "err", s, k, kf))))
    for s2 in st.assume(le(j, n)):
        s2.bools[mk("bv", ("haskey", s, k, kf))] = False
        out.append((s2, mk("agg", t, errv, (j,))))
    return out


@std("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")
def _sort(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    e = elem_ty(eng, c, s)
    b = mk("base", e, ("sorted", s, keyfn(eng, st, a[1], e)))
    st.eqs = st.eqs | ({sub(eng.d.blen(b), eng.d.seq_len(s))} if eng.d.blen(b) is not eng.d.seq_len(s) else set())
    st._pc = {}
    mstore(eng, st, m, eng.d.whole(b))
    return [(st, unit(eng))]


@std(V + "dedup_by_key")
def _dedup(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    e = elem_ty(eng, c, s)
    b = mk("base", e, ("dedup", s, keyfn(eng, st, a[1], e, True)))
    st.facts = st.facts | {sub(eng.d.seq_len(s), eng.d.blen(b))}
    st._pc = {}
    mstore(eng, st, m, eng.d.whole(b))
    return [(st, unit(eng))]


def pairfn(eng, st, f, e, mut):
    """the key by which a symmetric comparison of two generic elements compares them, or None"""
    x, y = (eng.d.mk_sym(e, (n,)) for n in ("generic", "generic2"))

    def ask(u, w):
        s = st.copy()
        a = [mk("mref", eng.alloc(s, z), ()) if mut else ref(z) for z in (u, w)]
        outs = eng.call_value(s, f, a, None)
        return outs[0][1] if len(outs) == 1 else None
    r, q = ask(x, y), ask(y, x)
    if r is None or r is not q or r.k not in ("eqv", "eqd"):
        return None
    for k in r.a:
        if mentions(k, x) and not mentions(k, y):
            return k
    return None


def mentions(t, x):
    if t is x:
        return True
    if isinstance(t, tuple):
        return any(mentions(z, x) for z in t)
    return isinstance(t, T) and any(mentions(z, x) for z in t.a)


@std(V + "dedup_by")
def _dedup_by(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    e = elem_ty(eng, c, s)
    k = pairfn(eng, st, a[1], e, True)
    if k is None:
        return None
    b = mk("base", e, ("dedup", s, k))
    st.facts = st.facts | {sub(eng.d.seq_len(s), eng.d.blen(b))}
    st._pc = {}
    mstore(eng, st, m, eng.d.whole(b))
    return [(st, unit(eng))]


@std(V + "dedup")
def _dedup_eq(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    e = elem_ty(eng, c, s)
    b = mk("base", e, ("dedup", s, mk("sym", e, ("generic",))))
    st.facts = st.facts | {sub(eng.d.seq_len(s), eng.d.blen(b))}
    st._pc = {}
    mstore(eng, st, m, eng.d.whole(b))
    return [(st, unit(eng))]


def elem_ty(eng, c, s):
    for sg in s.a[0]:
        if sg.k == "sub":
            return sg.a[0].a[0]
    return c["gargs"][0]


def keyfn(eng, st, f, e, mut=False):
    """canonical form of a key function: its value on a generic element"""
    x = eng.d.mk_sym(e, ("generic",))
    s = st.copy()
    if mut:
        r = eng.alloc(s, x)
        arg = mk("mref", r, ())
    else:
        arg = ref(x)
    outs = eng.call_value(s, f, [arg], None)
    if len(outs) != 1:
        raise Undecided("key function with branches")
    return outs[0][1]


@std(V + "retain")
def _retain(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    f = a[1]

    def step(s0, x, roots):
        out = []
        for s1, cond, f2 in call_mut(eng, s0, s0.mem[roots[1]], [ref(x)], eng.p.boolty):
            s1.mem[roots[1]] = f2
            y, n = fork(s1, cond)
            for s2 in y:
                s2.mem[roots[0]] = eng.d.concat(s2.mem[roots[0]], eng.d.seq([mk("one", x)]))
                out.append(("cont", s2))
            out.extend(("cont", s2) for s2 in n)
        return out

    def fin(s1, roots):
        mstore(eng, s1, m, s1.mem[roots[0]])
        return [(s1, unit(eng))]

    return drive(eng, st, it("seq", s, "val"), "retain", [eng.d.seq([]), f], step, fin)


# ------------------------------------------------------------------ Box / vec! / mem / misc


@std("alloc::boxed::Box::new_uninit")
def _box_uninit(eng, st, c, a, t):
    return [(st, mk("box", eng.alloc(st, mk("mem", UNDEF))))]


@std("alloc::boxed::Box::new")
def _box_new(eng, st, c, a, t):
    return [(st, mk("box", eng.alloc(st, a[0])))]


@std("alloc::boxed::box_assume_init_into_vec_unsafe")
def _into_vec(eng, st, c, a, t):
    b = a[0]
    v = st.mem.pop(b.a[0])
    while v.k == "mem":
        v = v.a[0]
    if v.k != "seq":
        raise Undecided("vec! of " + v.k)
    return [(st, v)]


@std("core::mem::take")
def _take(eng, st, c, a, t):
    m = mloc1(a[0])
    v = eng.load(st, m.a[0], m.a[1])
    dv = default_of(eng, t)
    if dv is None:
        return None
    mstore(eng, st, m, dv)
    return [(st, v)]


def mloc1(v):
    if v.k != "mref":
        raise Undecided("not a mutable reference")
    return v


@std("core::mem::replace")
def _mreplace(eng, st, c, a, t):
    m = mloc1(a[0])
    v = eng.load(st, m.a[0], m.a[1])
    mstore(eng, st, m, a[1])
    return [(st, v)]


@std("core::option::Option::take")
def _otake(eng, st, c, a, t):
    m = mloc1(a[0])
    v = eng.load(st, m.a[0], m.a[1])
    mstore(eng, st, m, none(t))
    return [(st, v)]


@std("core::option::Option::replace")
def _oreplace(eng, st, c, a, t):
    m = mloc1(a[0])
    v = eng.load(st, m.a[0], m.a[1])
    mstore(eng, st, m, some(t, a[1]))
    return [(st, v)]


@std("core::mem::swap")
def _mswap(eng, st, c, a, t):
    m, n = mloc1(a[0]), mloc1(a[1])
    x, y = eng.load(st, m.a[0], m.a[1]), eng.load(st, n.a[0], n.a[1])
    mstore(eng, st, m, y)
    mstore(eng, st, n, x)
    return [(st, unit(eng))]


@std("core::mem::drop", "core::mem::forget")
def _mdrop(eng, st, c, a, t):
    return [(st, unit(eng))]


@std("core::mem::discriminant")
def _mdisc(eng, st, c, a, t):
    return [(st, eng.discr(st, strip1(eng, st, a[0])))]


@std("core::option::Option::as_ref", "core::option::Option::as_deref")
def _oasref(eng, st, c, a, t):
    o = strip1(eng, st, a[0])
    out = []
    for s, v in split_variants(eng, st, o):
        if v == 0:
            out.append((s, none(t)))
        else:
            out.append((s, some(t, ref(strip(eng, s, eng.d.proj(o, 0, 1)) if c["name"] == "as_deref" else eng.d.proj(o, 0, 1)))))
    return out


@std("core::option::Option::as_mut")
def _oasmut(eng, st, c, a, t):
    m = mloc1(a[0])
    o = eng.load(st, m.a[0], m.a[1])
    out = []
    for s, v in split_variants(eng, st, o):
        if v == 0:
            out.append((s, none(t)))
        else:
            out.append((s, some(t, mk("mref", m.a[0], tuple(m.a[1]) + (("as", 1), ("f", 0))))))
    return out


@std("core::option::Option::cloned", "core::option::Option::copied")
def _ocloned(eng, st, c, a, t):
    o = a[0]
    out = []
    for s, v in split_variants(eng, st, o):
        out.append((s, none(t) if v == 0 else some(t, strip1(eng, s, eng.d.proj(o, 0, 1)))))
    return out


@std("core::option::Option::is_some", "core::option::Option::is_none", "core::result::Result::is_ok",
     "core::result::Result::is_err")
def _ois(eng, st, c, a, t):
    o = strip1(eng, st, a[0])
    nm = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[c["name"]]
    vi = eng.p.variant_ix(o.a[0], nm)
    vs = st.variants(o)
    if vs == frozenset([vi]):
        return [(st, TT)]
    if vi not in vs:
        return [(st, FF)]
    return [(st, mk("isvar", o, frozenset([vi])))]


# numbers
@std("num::saturating_sub")
def _satsub(eng, st, c, a, t):
    y, n = fork(st, ge(sub(a[0], a[1])))
    return [(s, sub(a[0], a[1])) for s in y] + [(s, ZERO) for s in n]


@std("num::checked_sub")
def _chksub(eng, st, c, a, t):
    y, n = fork(st, ge(sub(a[0], a[1])))
    return [(s, some(t, sub(a[0], a[1]))) for s in y] + [(s, none(t)) for s in n]


@std("num::checked_add")
def _chkadd(eng, st, c, a, t):
    o = mk("bv", ("addovf", add(a[0], a[1])))
    s2 = st.copy()
    s2.bools[o] = True
    st.bools[o] = False
    return [(st, some(t, add(a[0], a[1]))), (s2, none(t))]


@std("num::saturating_add")
def _satadd(eng, st, c, a, t):
    return [(st, add(a[0], a[1]))]


@std("num::abs_diff")
def _absd(eng, st, c, a, t):
    y, n = fork(st, ge(sub(a[0], a[1])))
    return [(s, sub(a[0], a[1])) for s in y] + [(s, sub(a[1], a[0])) for s in n]


# ranges
@std("core::ops::range::RangeInclusive::new")
def _rinew(eng, st, c, a, t):
    n = len(eng.p.field_tys(t))
    return [(st, mk("agg", t, 0, (a[0], a[1]) + (FF,) * (n - 2)))]


@std("core::ops::range::RangeInclusive::start", "core::ops::range::RangeInclusive::end")
def _ristart(eng, st, c, a, t):
    r = strip1(eng, st, a[0])
    return [(st, ref(eng.d.proj(r, 0 if c["name"] == "start" else 1)))]


@std("core::ops::range::Range::is_empty")
def _rempty(eng, st, c, a, t):
    r = strip1(eng, st, a[0])
    return [(st, b_not(lt(eng.d.proj(r, 0), eng.d.proj(r, 1))))]


@std("core::ops::range::Range::contains")
def _rcontains(eng, st, c, a, t):
    r, x = strip1(eng, st, a[0]), strip(eng, st, a[1])
    return [(st, b_and(le(eng.d.proj(r, 0), x), lt(x, eng.d.proj(r, 1))))]


# ------------------------------------------------------------------ std traits
TRAITS = {}


def trait(tr, *names):
    def deco(f):
        for n in names:
            TRAITS[(tr, n)] = f
        return f
    return deco


@trait("FnOnce", "call_once")
@trait("FnMut", "call_mut")
@trait("Fn", "call")
def _callf(eng, st, c, a, t):
    return eng.call_value(st, a[0], untuple(eng, a[1]), t)


@trait("Clone", "clone")
def _clone(eng, st, c, a, t):
    return [(st, strip1(eng, st, a[0]))]


@trait("ToOwned", "to_owned")
def _to_owned_t(eng, st, c, a, t):
    return [(st, strip1(eng, st, a[0]))]


@trait("ToString", "to_string")
def _to_string(eng, st, c, a, t):
    v = strip(eng, st, a[0])
    if v.k == "seq":
        return [(st, v)]
    return [(st, eng.d.mk_sym(t, ("display", v)))]


@trait("Borrow", "borrow")
@trait("AsRef", "as_ref")
def _borrow(eng, st, c, a, t):
    v = strip(eng, st, a[0])
    if v.k == "seq":
        return [(st, ref(v))]
    if c.get("rpath", "").startswith("core::borrow"):
        return [(st, ref(strip1(eng, st, a[0])))]
    return None


@trait("Deref", "deref")
def _deref(eng, st, c, a, t):
    v = strip1(eng, st, a[0])
    if v.k == "seq":
        return [(st, ref(v))]
    if v.k == "box":
        return [(st, ref(eng.load(st, v.a[0], ())))]
    if v.k == "ref":
        return [(st, v)]
    return None


@trait("DerefMut", "deref_mut")
def _deref_mut(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    v = eng.load(st, m.a[0], m.a[1])
    if v.k == "seq":
        return [(st, m)]
    if v.k == "box":
        return [(st, mk("mref", v.a[0], ()))]
    return None


@trait("Index", "index")
def _index(eng, st, c, a, t):
    d = eng.d
    s = strip(eng, st, a[0])
    if s.k != "seq":
        return None
    if a[1].k == "int":
        out = []
        for s1 in require(eng, st, lt(a[1], d.seq_len(s)), "bounds"):
            x = d.seq_get(s1, s, a[1])
            if x is None:
                raise Undecided("index %s of %s" % (show(a[1]), show(s)))
            out.append((s1, ref(x)))
        return out
    isstr = is_str_ty(eng, c["gargs"][0]) if c.get("gargs") else False
    n = d.seq_measure(s, "B") if isstr else d.seq_len(s)
    lo, hi = range_of(eng, st, a[1], n)
    out = []
    for s1 in require(eng, st, le(lo, hi), "bounds"):
        for s2 in require(eng, s1, le(hi, n), "bounds"):
            l2, h2 = lo, hi
            if isstr:
                l2, h2 = byte_pos(eng, s2, s, lo), byte_pos(eng, s2, s, hi)
                if l2 is None or h2 is None:
                    raise Undecided("string slice")
            x = d.seq_slice(s2, s, l2, h2)
            if x is None:
                raise Undecided("slice %s..%s of %s" % (show(lo), show(hi), show(s)))
            out.append((s2, ref(x)))
    return out


@trait("IndexMut", "index_mut")
def _index_mut(eng, st, c, a, t):
    d = eng.d
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    if s.k != "seq":
        return None
    if a[1].k == "int":
        return [(s1, mk("mref", m.a[0], tuple(m.a[1]) + (("sidx", a[1]),)))
                for s1 in require(eng, st, lt(a[1], d.seq_len(s)), "bounds")]
    lo, hi = range_of(eng, st, a[1], d.seq_len(s))
    return [(s1, mk("mref", m.a[0], tuple(m.a[1]) + (("slice", lo, hi),)))
            for s1 in require(eng, st, b_and(le(lo, hi), le(hi, d.seq_len(s))), "bounds")]


@trait("PartialEq", "eq", "ne")
def _eq(eng, st, c, a, t):
    x, y = a[0], a[1]
    if x.k not in ("ref", "mref") or y.k not in ("ref", "mref"):
        return None
    x, y = strip(eng, st, x), strip(eng, st, y)
    f = eng.eqf(st, x, y)
    return [(st, f if c["name"] == "eq" else b_not(f))]


@trait("PartialOrd", "lt", "le", "gt", "ge")
def _cmpop(eng, st, c, a, t):
    x, y = strip(eng, st, a[0]), strip(eng, st, a[1])
    if x.k != "int" or y.k != "int":
        return None
    z = sub(y, x)
    f = {"lt": ge(addc(z, -1)), "le": ge(z), "gt": ge(addc(neg(z), -1)), "ge": ge(neg(z))}[c["name"]]
    return [(st, f)]


@trait("Ord", "cmp")
def _cmp(eng, st, c, a, t):
    x, y = strip(eng, st, a[0]), strip(eng, st, a[1])
    if x.k == "agg" and y.k == "agg":
        return None
    if x.k != "int" or y.k != "int":
        return [(st, mk("sym", t, ("cmp", x, y)))]
    return three_way(eng, st, x, y, t, lambda v: v)


@trait("PartialOrd", "partial_cmp")
def _pcmp(eng, st, c, a, t):
    x, y = strip(eng, st, a[0]), strip(eng, st, a[1])
    if x.k != "int" or y.k != "int":
        return None
    oty = eng.p.types[t]["args"][0]
    return three_way(eng, st, x, y, oty, lambda v: some(t, v))


def three_way(eng, st, x, y, ty, wrap):
    out = []
    lt_, rest = fork(st, lt(x, y))
    out.extend((s, wrap(variant(eng, ty, "Less"))) for s in lt_)
    for s in rest:
        gt_, eq_ = fork(s, lt(y, x))
        out.extend((s2, wrap(variant(eng, ty, "Greater"))) for s2 in gt_)
        out.extend((s2, wrap(variant(eng, ty, "Equal"))) for s2 in eq_)
    return out


@trait("Ord", "min", "max")
def _minmax(eng, st, c, a, t):
    x, y = a[0], a[1]
    if x.k != "int" or y.k != "int":
        return None
    ylt, n = fork(st, le(x, y))
    if c["name"] == "min":
        return [(s, x) for s in ylt] + [(s, y) for s in n]
    return [(s, y) for s in ylt] + [(s, x) for s in n]


@std("core::cmp::min", "core::cmp::max")
def _minmax2(eng, st, c, a, t):
    return _minmax(eng, st, c, a, t)


def added(eng, st, r, c):
    """an addition through the operator's trait"""
    if eng.opts.get("on_add"):
        eng.opts["on_add"](eng, st, r, where(eng))


@trait("Add", "add")
@trait("Sub", "sub")
def _addop(eng, st, c, a, t):
    x, y = strip(eng, st, a[0]), strip(eng, st, a[1])
    if x.k == "seq" and y.k == "seq" and c["name"] == "add":
        return [(st, eng.d.concat(x, y))]
    if x.k != "int" or y.k != "int":
        return None
    if c["name"] == "add":
        added(eng, st, add(x, y), c)
        return [(st, add(x, y))]
    return [(s, sub(x, y)) for s in require(eng, st, ge(sub(x, y)), "assert:overflow:Sub")]


@trait("AddAssign", "add_assign")
@trait("SubAssign", "sub_assign")
def _addassign(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    x, y = eng.load(st, m.a[0], m.a[1]), strip(eng, st, a[1])
    if x.k == "seq" and y.k == "seq":
        mstore(eng, st, m, eng.d.concat(x, y))
        return [(st, unit(eng))]
    if x.k != "int" or y.k != "int":
        return None
    if c["name"] == "add_assign":
        added(eng, st, add(x, y), c)
        mstore(eng, st, m, add(x, y))
        return [(st, unit(eng))]
    out = []
    for s in require(eng, st, ge(sub(x, y)), "assert:overflow:Sub"):
        mstore(eng, s, m, sub(x, y))
        out.append((s, unit(eng)))
    return out


@trait("Default", "default")
def _default(eng, st, c, a, t):
    if c.get("rlocal"):
        return None
    v = default_of(eng, t)
    return None if v is None else [(st, v)]


@trait("From", "from")
@trait("Into", "into")
def _from(eng, st, c, a, t):
    p = eng.p
    x = a[0]
    if c.get("rlocal"):
        return None
    y = strip(eng, st, x) if x.k in ("ref", "mref", "box") else x
    if y.k == "seq" and p.seq_elem(t) is not None:
        return [(st, y)]
    if y.k == "int" and p.types[t]["k"] == "int":
        return [(st, y)]
    if c["name"] == "into" and x.k == "int" and p.types[t]["k"] == "int":
        return [(st, x)]
    return None


@trait("IntoIterator", "into_iter")
def _into_iter(eng, st, c, a, t):
    if c.get("rlocal"):
        return None
    i = as_iter(eng, st, a[0])
    if i is not None and i.k == "agg" and eng.p.adt_name(i.a[0]) == "Range":
        lo, hi = eng.d.proj(i, 0), eng.d.proj(i, 1)
        if lo.k == "int" and hi.k == "int" and not st.entails(sub(hi, lo)) and not st.entails(sub(lo, hi)):
            # a range that ends before it starts is empty: keep it apart, loops then run exactly hi - lo times
            return [(s, i) for s in st.assume(ge(sub(hi, lo)))] + \
                [(s, i) for s in st.assume(ge(addc(sub(lo, hi), -1)))]
    return None if i is None else [(st, i)]


@trait("Extend", "extend")
def _extend(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    s = eng.load(st, m.a[0], m.a[1])
    if s.k != "seq":
        return None
    i = as_iter(eng, st, a[1])
    if i is None:
        return None
    if i.k == "it" and i.a[0] == "seq":
        x = i.a[1]
        if i.a[2] == "ref":
            pass  # Extend<&T> for Copy elements
        mstore(eng, st, m, eng.d.concat(s, x))
        return [(st, unit(eng))]
    w = whole(eng.d, i)
    if w is not None:
        mstore(eng, st, m, eng.d.concat(s, w))
        return [(st, unit(eng))]

    def step(s0, x, roots):
        cur = eng.load(s0, m.a[0], m.a[1])
        if x.k == "ref" and x.a[0].k == "seq" or x.k == "seq":
            add_ = strip(eng, s0, x)
        else:
            add_ = eng.d.seq([mk("one", x)])
        mstore(eng, s0, m, eng.d.concat(cur, add_))
        return [("cont", s0)]

    return drive(eng, st, i, "extend", [], step, lambda s1, r: [(s1, unit(eng))])


@trait("FromIterator", "from_iter")
def _from_iter(eng, st, c, a, t):
    return collect(eng, st, a[0], t)


def whole(d, i):
    """the sequence of everything an iterator yields, where the items are the elements themselves"""
    if i.k != "it":
        return None
    if i.a[0] == "seq" and i.a[2] == "val":
        if not any(s.k == "one" and s.a[0].k in ("ref", "seq") for s in i.a[1].a[0]):
            return d.seq(i.a[1].a[0])
        return None
    if i.a[0] in ("cloned", "copied") and i.a[1].k == "it" and i.a[1].a[0] == "seq" and i.a[1].a[2] == "ref":
        return d.seq(i.a[1].a[1].a[0])
    if i.a[0] == "chain":
        x, y = whole(d, i.a[1]), whole(d, i.a[2])
        return None if x is None or y is None else d.concat(x, y)
    return None


def collect(eng, st, i0, t):
    d, p = eng.d, eng.p
    i = as_iter(eng, st, i0)
    if i is None:
        return None
    ty = p.types[t]
    if p.seq_elem(t) is not None:
        w = whole(d, i)
        if w is not None:
            return [(st, w)]

        def step(s0, x, roots):
            y = strip(eng, s0, x) if is_str_ty(eng, t) else x
            s0.mem[roots[0]] = d.concat(s0.mem[roots[0]], y if y.k == "seq" and is_str_ty(eng, t) else d.seq([mk("one", y)]))
            return [("cont", s0)]

        return drive(eng, st, i, "collect", [d.seq([])], step, lambda s1, r: [(s1, s1.mem[r[0]])])
    if ty["k"] == "adt" and last(ty["path"]) in ("Result", "Option") and p.seq_elem(ty["args"][0]) is not None:
        okv = p.variant_ix(t, "Ok" if last(ty["path"]) == "Result" else "Some")

        def step(s0, x, roots):
            out = []
            for s1, v in split_variants(eng, s0, x):
                if v == okv:
                    s1.mem[roots[0]] = d.concat(s1.mem[roots[0]], d.seq([mk("one", d.proj(x, 0, v))]))
                    out.append(("cont", s1))
                else:
                    fs = tuple(d.proj(x, j, v) for j in range(len(p.field_tys(t, v))))
                    out.append(("brk", s1, mk("agg", t, v, fs)))
            return out

        return drive(eng, st, i, "collect", [d.seq([])], step,
                     lambda s1, r: [(s1, mk("agg", t, okv, (s1.mem[r[0]],)))])
    return None


@trait("Iterator", "next")
def _next(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    i = eng.load(st, m.a[0], m.a[1])
    if i.k != "it" and not is_range(eng, i):
        return None
    out = []
    for s, i2, x in iter_next(eng, st, i):
        mstore(eng, s, m, i2)
        out.append((s, none(t) if x is None else some(t, x)))
    return out


@trait("DoubleEndedIterator", "next_back")
def _next_back(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    i = eng.load(st, m.a[0], m.a[1])
    if i.k != "it" and not is_range(eng, i):
        return None
    out = []
    for s, i2, x in iter_next(eng, st, i, True):
        mstore(eng, s, m, i2)
        out.append((s, none(t) if x is None else some(t, x)))
    return out


def itv(eng, st, v):
    if v.k == "mref":
        return it("by_ref", v.a[0], v.a[1])
    if v.k == "it" or is_range(eng, v):
        return v
    return None


def item_ty(eng, t):
    """item type of an adapter type is not needed except for tuples"""
    return None


@std("core::iter::sources::once::once", "core::iter::once")
def _once(eng, st, c, a, t):
    return [(st, it("seq", mk("seq", (mk("one", a[0]),)), "val"))]


@trait("Iterator", "by_ref")
def _by_ref(eng, st, c, a, t):
    return [(st, a[0])]


@trait("Iterator", "rev")
def _rev(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    return None if i is None else [(st, it("rev", i))]


def tuple_ty(eng, n):
    for i, t in enumerate(eng.p.types):
        if t["k"] == "tuple" and len(t["elems"]) == n:
            return i
    return eng.d.unit().a[0]


@trait("Iterator", "enumerate")
def _enumerate(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    return None if i is None else [(st, it("enum", i, ZERO, tuple_ty(eng, 2)))]


@trait("Iterator", "zip")
def _zip(eng, st, c, a, t):
    i, j = itv(eng, st, a[0]), as_iter(eng, st, a[1])
    return None if i is None or j is None else [(st, it("zip", i, j, tuple_ty(eng, 2)))]


@trait("Iterator", "chain")
def _chain(eng, st, c, a, t):
    i, j = itv(eng, st, a[0]), as_iter(eng, st, a[1])
    return None if i is None or j is None else [(st, it("chain", i, j))]


@trait("Iterator", "map")
def _map(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    ret = c["gargs"][1] if len(c.get("gargs", [])) > 1 else None
    return None if i is None else [(st, it("map", i, a[1], ret))]


@trait("Iterator", "filter")
def _filter(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    return None if i is None else [(st, it("filter", i, a[1]))]


@trait("Iterator", "filter_map")
def _filter_map(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    return None if i is None else [(st, it("filter_map", i, a[1], None))]


@trait("Iterator", "take_while")
def _take_while(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    return None if i is None else [(st, it("take_while", i, a[1]))]


@trait("Iterator", "take")
def _takei(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None:
        return None
    ln = iter_len(eng, st, i)
    if ln is None or iter_take(i, ZERO) is None:
        return [(st, it("take", i, a[1]))]
    y, n = fork(st, le(a[1], ln))
    return [(s, iter_take(i, a[1])) for s in y] + [(s, i) for s in n]


def iter_take(i, n):
    """the first n items of an iterator known to have that many"""
    if i.k == "it":
        k = i.a[0]
        if k == "seq":
            s = i.a[1]
            if len(s.a[0]) == 1 and s.a[0][0].k == "sub":
                b, lo, hi = s.a[0][0].a
                return it("seq", mk("seq", (mk("sub", b, lo, add(lo, n)),)), i.a[2])
            if not s.a[0]:
                return i
        if k == "mut":
            return it("mut", i.a[1], i.a[2], i.a[3], add(i.a[3], n))
        if k in ("enum", "cloned", "copied", "map"):
            x = iter_take(i.a[1], n)
            return None if x is None else it(k, x, *i.a[2:])
    return None


@trait("Iterator", "skip")
def _skipi(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None:
        return None
    ln = iter_len(eng, st, i)
    if ln is None or iter_skip(eng, i, a[1]) is None:
        return [(st, it("skip", i, a[1]))]
    y, n = fork(st, le(a[1], ln))
    return [(s, iter_skip(eng, i, a[1])) for s in y] + [(s, iter_skip(eng, i, ln)) for s in n]


@trait("Iterator", "cloned", "copied")
def _cloned(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    return None if i is None else [(st, it(c["name"], i))]


@trait("Iterator", "peekable")
def _peekable(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    return None if i is None else [(st, it("peekable", i, UNDEF, None))]


@trait("Iterator", "collect")
def _collect(eng, st, c, a, t):
    return collect(eng, st, a[0], t)


@trait("Iterator", "count")
def _count(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None:
        return None
    if i.k == "it" and i.a[0] == "utf16":
        return [(st, eng.d.seq_measure(i.a[1], "U"))]
    if i.k == "it" and i.a[0] == "bytes":
        return [(st, eng.d.seq_measure(i.a[1], "B"))]
    if i.k == "it" and i.a[0] == "char_indices":
        return [(st, eng.d.seq_len(i.a[1]))]
    l = iter_len(eng, st, i)
    if l is not None and not (i.k == "it" and i.a[0] == "map"):
        return [(st, l)]

    def step(s, x, r):
        s.mem[r[0]] = addc(s.mem[r[0]], 1)
        return [("cont", s)]
    return drive(eng, st, i, "count", [ZERO], step, lambda s, r: [(s, s.mem[r[0]])])


@trait("ExactSizeIterator", "len")
def _ilen(eng, st, c, a, t):
    i = strip(eng, st, a[0])
    l = iter_len(eng, st, i)
    return None if l is None else [(st, l)]


@trait("Iterator", "sum")
def _sum(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None or eng.p.types[t]["k"] != "int":
        return None

    def step(s, x, r):
        s.mem[r[0]] = add(s.mem[r[0]], strip(eng, s, x))
        return [("cont", s)]
    return drive(eng, st, i, "sum", [ZERO], step, lambda s, r: [(s, s.mem[r[0]])])


@trait("Iterator", "fold")
def _fold(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None:
        return None

    def step(s, x, r):
        out = []
        for s2, v, f2 in call_mut(eng, s, s.mem[r[1]], [s.mem[r[0]], x], t):
            s2.mem[r[0]] = v
            s2.mem[r[1]] = f2
            out.append(("cont", s2))
        return out
    return drive(eng, st, i, "fold", [a[1], a[2]], step, lambda s, r: [(s, s.mem[r[0]])])


@trait("Iterator", "try_fold")
def _try_fold(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None:
        return None
    nm = eng.p.adt_name(t)
    if nm not in ("Option", "Result"):
        return None
    okv = eng.p.variant_ix(t, "Ok" if nm == "Result" else "Some")

    def step(s, x, r):
        out = []
        for s2, v, f2 in call_mut(eng, s, s.mem[r[1]], [s.mem[r[0]], x], t):
            for s3, w in split_variants(eng, s2, v):
                if w == okv:
                    s3.mem[r[0]] = eng.d.proj(v, 0, w)
                    s3.mem[r[1]] = f2
                    out.append(("cont", s3))
                else:
                    out.append(("brk", s3, eng.d.expand(v, w) if v.k == "sym" else v))
        return out

    def fin(s, r):
        return [(s, mk("agg", t, okv, (s.mem[r[0]],)))]
    # try_fold takes &mut self
    return drive(eng, st, i, "try_fold", [a[1], a[2]], step, fin)


@trait("Iterator", "for_each")
def _for_each(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None:
        return None

    def step(s, x, r):
        out = []
        for s2, v, f2 in call_mut(eng, s, s.mem[r[0]], [x], t):
            s2.mem[r[0]] = f2
            out.append(("cont", s2))
        return out
    return drive(eng, st, i, "for_each", [a[1]], step, lambda s, r: [(s, unit(eng))])


@trait("Iterator", "any", "all")
def _anyall(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None:
        return None
    want = c["name"] == "any"

    def step(s, x, r):
        out = []
        for s2, v, f2 in call_mut(eng, s, s.mem[r[0]], [x], t):
            s2.mem[r[0]] = f2
            y, n = fork(s2, v if want else b_not(v))
            out.extend(("brk", s3, TT if want else FF) for s3 in y)
            out.extend(("cont", s3) for s3 in n)
        return out
    return drive(eng, st, i, c["name"], [a[1]], step, lambda s, r: [(s, FF if want else TT)])


@trait("Iterator", "find")
def _find(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None:
        return None

    def step(s, x, r):
        out = []
        for s2, v, f2 in call_mut(eng, s, s.mem[r[0]], [ref(x)], eng.p.boolty):
            s2.mem[r[0]] = f2
            y, n = fork(s2, v)
            out.extend(("brk", s3, some(t, x)) for s3 in y)
            out.extend(("cont", s3) for s3 in n)
        return out
    return drive(eng, st, i, "find", [a[1]], step, lambda s, r: [(s, none(t))])


@trait("Iterator", "find_map")
def _find_map(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None:
        return None

    def step(s, x, r):
        out = []
        for s2, v, f2 in call_mut(eng, s, s.mem[r[0]], [x], t):
            s2.mem[r[0]] = f2
            for s3, w in split_variants(eng, s2, v):
                if w == 1:
                    out.append(("brk", s3, some(t, eng.d.proj(v, 0, 1))))
                else:
                    out.append(("cont", s3))
        return out
    return drive(eng, st, i, "find_map", [a[1]], step, lambda s, r: [(s, none(t))])


@trait("Iterator", "position")
def _position(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None:
        return None

    def step(s, x, r):
        out = []
        for s2, v, f2 in call_mut(eng, s, s.mem[r[0]], [x], eng.p.boolty):
            s2.mem[r[0]] = f2
            y, n = fork(s2, v)
            out.extend(("brk", s3, some(t, s3.mem[r[1]])) for s3 in y)
            for s3 in n:
                s3.mem[r[1]] = addc(s3.mem[r[1]], 1)
                out.append(("cont", s3))
        return out
    return drive(eng, st, i, "position", [a[1], ZERO], step, lambda s, r: [(s, none(t))])


@trait("Iterator", "last")
def _lasti(eng, st, c, a, t):
    i = itv(eng, st, a[0])
    if i is None or i.k != "it" or i.a[0] not in ("seq",):
        return None
    out = []
    for s, i2, x in iter_next(eng, st, i, True):
        out.append((s, none(t) if x is None else some(t, x)))
    return out


@trait("Iterator", "nth")
def _nth(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    i = eng.load(st, m.a[0], m.a[1])
    if i.k != "it" and not is_range(eng, i):
        return None
    ln, adv = iter_len(eng, st, i), iter_skip(eng, i, a[1])
    if ln is None or adv is None:
        return None
    y, n = fork(st, lt(a[1], ln))
    out = []
    for s in y:
        for s2, i2, x in iter_next(eng, s, adv):
            mstore(eng, s2, m, i2)
            out.append((s2, none(t) if x is None else some(t, x)))
    for s in n:
        mstore(eng, s, m, it("seq", eng.d.seq([]), "val"))
        out.append((s, none(t)))
    return out


@std("core::iter::adapters::peekable::Peekable::peek")
def _peek(eng, st, c, a, t):
    m = mloc(eng, st, a[0])
    i = eng.load(st, m.a[0], m.a[1])
    if i.k != "it" or i.a[0] != "peekable":
        raise Undecided("peek")
    out = []
    inner = eng.p.types[t]["args"][0]
    oty = t
    if i.a[2] is not UNDEF:
        pk = i.a[2]
        return [(st, none(t) if pk.a[1] == 0 else some(t, ref(pk.a[2][0])))]
    for s, i2, x in iter_next(eng, st, i.a[1]):
        pk = none(oty) if x is None else some(oty, x)
        mstore(eng, s, m, it("peekable", i2, pk, i.a[3]))
        out.append((s, none(t) if x is None else some(t, ref(x))))
    return out


# ------------------------------------------------------------------ schema-level trait methods
# Each of these specifications is checked against the implementation by the C09/C08 checks.
LOCAL = {}


def local(tr, *names):
    def deco(f):
        for n in names:
            LOCAL[(tr, n)] = f
        return f
    return deco


def node_of(eng, st, v):
    n = strip(eng, st, v)
    if n.k not in ("agg", "sym") or n.a[0] != eng.p.node_ty:
        return None
    return n


def by_class(eng, st, n, classes):
    """-> [(state, class name)]"""
    vs = st.variants(n)
    items = [(nm, cl & vs) for nm, cl in classes if cl & vs]
    out = []
    for i, (nm, cl) in enumerate(items):
        s = st if i == len(items) - 1 else st.copy()
        if s.refine(n, cl):
            out.append((s, nm))
    return out


@local("Node", "node_size")
def _node_size(eng, st, c, a, t):
    n = node_of(eng, st, a[0])
    return None if n is None else [(st, eng.d.size(n))]


@local("Node", "content")
def _content(eng, st, c, a, t):
    n = node_of(eng, st, a[0])
    if n is None:
        return None
    p = eng.p
    return [(s, some(t, ref(eng.d.node_frag(n))) if nm == "c" else none(t))
            for s, nm in by_class(eng, st, n, [("c", p.CONTENT), ("n", p.TEXT | p.LEAF)])]


@local("Node", "text_node")
def _text_node(eng, st, c, a, t):
    n = node_of(eng, st, a[0])
    if n is None:
        return None
    p = eng.p
    return [(s, some(t, ref(eng.d.node_textnode(n))) if nm == "t" else none(t))
            for s, nm in by_class(eng, st, n, [("t", p.TEXT), ("n", p.CONTENT | p.LEAF)])]


@local("Node", "type")
def _ntype(eng, st, c, a, t):
    n = node_of(eng, st, a[0])
    if n is None:
        return None
    return [(st, eng.d.ntype(n))]


@local("Mark", "type")
def _mtype(eng, st, c, a, t):
    m = strip(eng, st, a[0])
    if m.k == "agg":
        nm = eng.p.types[m.a[0]]["variants"][m.a[1]]["name"]
        vi = eng.p.variant_ix(t, nm) if eng.p.types[t]["k"] == "adt" else None
        return None if vi is None else [(st, mk("agg", t, vi, ()))]
    if m.k == "sym":
        return [(st, mk("sym", t, ("mtype", m)))]
    return None


def table(eng, st, c, ty, val):
    """truth set of a boolean function of one enum value, computed from its body variant by variant"""
    fid = c.get("f")
    if fid is None:
        return None
    cache = eng.d.__dict__.setdefault("_tables", {})
    key = (fid, ty)
    if key not in cache:
        f = eng.p.fns[fid]
        byref = eng.p.types[f["locals"][1]]["k"] == "ref"
        vs = set()
        ok = True
        for vi in range(eng.p.nvariants(ty)):
            x = eng.d.mk_sym(ty, ("tbl", vi))
            s = St(eng.d)
            if x.k == "sym":
                s.refine(x, frozenset([vi]))
            if not eng.p.field_tys(ty, vi):
                x = mk("agg", ty, vi, ())
            if fid in eng.active:
                return None
            outs = eng.run_fn(fid, [ref(x) if byref else x], s)
            rs = set()
            for s2, v in outs:
                rs.add(s2.decide(v))
            if rs == {True}:
                vs.add(vi)
            elif rs != {False}:
                ok = False
        cache[key] = frozenset(vs) if ok else None
    return cache[key]


@local("Node", "is_block")
def _is_block(eng, st, c, a, t):
    n = node_of(eng, st, a[0])
    if n is None:
        return None
    vs = table(eng, st, c, n.a[0], n)
    return None if vs is None else [(st, isvar(st, n, vs))]


@local("NodeType", "is_block", "is_inline")
def _nt_is_block(eng, st, c, a, t):
    n = a[0]
    if n.k not in ("sym", "agg") or n.a[0] != eng.p.ntype_ty:
        return None
    vs = table(eng, st, c, n.a[0], n)
    return None if vs is None else [(st, isvar(st, n, vs))]


def isvar(st, v, vs):
    cur = st.variants(v)
    if cur <= vs:
        return TT
    if not (cur & vs):
        return FF
    return mk("isvar", v, vs)


@local("Node", "copy")
def _copy(eng, st, c, a, t):
    n = node_of(eng, st, a[0])
    if n is None:
        return None
    p, d = eng.p, eng.d
    out = []
    for s, nm in by_class(eng, st, n, [("c", p.CONTENT), ("n", p.TEXT | p.LEAF)]):
        if nm == "n":
            out.append((s, n))
        else:
            for s2, fr in eng.call_value(s, a[1], [ref(d.node_frag(n))], p.find_adt("Fragment")):
                out.append((s2, d.with_frag(n, fr)))
    return out


@local("Node", "mark")
def _mark(eng, st, c, a, t):
    n = node_of(eng, st, a[0])
    if n is None:
        return None
    p, d = eng.p, eng.d
    out = []
    for s, nm in by_class(eng, st, n, [("t", p.TEXT), ("n", p.CONTENT | p.LEAF)]):
        if nm == "n":
            out.append((s, n))
        else:
            tn = d.node_textnode(n)
            tx = p.find_adt("TextNode")
            fs = tuple(a[1] if f["name"] == "marks" else d.named(tn, f["name"]) for f in p.fields(tx))
            vi = next(iter(p.TEXT))
            out.append((s, mk("agg", p.node_ty, vi, (mk("agg", tx, 0, fs),))))
    return out


@local("NodeType", "content_match")
def _content_match(eng, st, c, a, t):
    if a[0].k == "sym":
        return [(st, mk("sym", t, ("cmatch", a[0])))]
    return None


@local("NodeType", "valid_content")
def _valid_content(eng, st, c, a, t):
    f = strip(eng, st, a[1])
    return [(st, mk("bv", ("valid", a[0], f)))]


@local("NodeType", "compatible_content")
def _compatible_content(eng, st, c, a, t):
    return [(st, mk("bv", ("compat", a[0], a[1])))]


@local("NodeType", "allows_mark_type")
def _allows_mark_type(eng, st, c, a, t):
    return [(st, mk("bv", ("allows", a[0], a[1])))]


@local("NodeType", "allow_marks")
def _allow_marks(eng, st, c, a, t):
    return [(st, mk("bv", ("allowset", a[0], strip(eng, st, a[1]))))]


@local("ContentMatch", "match_fragment_range")
def _mfr(eng, st, c, a, t):
    f = strip(eng, st, a[1])
    if f.k not in ("sym", "agg"):
        return None
    n = eng.d.seq_len(eng.d.finner(f))
    try:
        lo, hi = range_of(eng, st, a[2], n)
    except Undecided:
        return None
    return [(st, mk("sym", t, ("mfr", a[0], f, lo, hi)))]


@local("ContentMatch", "match_fragment")
def _mf(eng, st, c, a, t):
    f = strip(eng, st, a[1])
    if f.k not in ("sym", "agg"):
        return None
    n = eng.d.seq_len(eng.d.finner(f))
    return [(st, mk("sym", t, ("mfr", a[0], f, ZERO, n)))]


@local("ContentMatch", "valid_end")
def _valid_end(eng, st, c, a, t):
    if a[0].k != "sym":
        return None
    return [(st, mk("bv", ("vend", a[0])))]


@local("ContentMatch", "match_type")
def _match_type(eng, st, c, a, t):
    if a[0].k == "agg" and a[1].k == "agg":
        return None
    return [(st, mk("sym", t, ("mt", a[0], a[1])))]
