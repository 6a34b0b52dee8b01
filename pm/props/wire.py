"""C07: the JSON wire format.

The (derived or hand-written) serialisers and deserialisers are interpreted in their generic form:
the data format is an arbitrary implementation of serde's traits, whose calls are recorded as the
wire events.  Writing: on every path that succeeds, which keys are written with which part of the
value.  Reading: which key is stored into which part of the value, what a missing key becomes, which
failures exist.  Both sides are compared with ProseMirror's table of keys, tags and defaults."""
from ..spec import *
from .kinds import same

REQ, OPT = "required", "optional"
# JSON key -> (path of the member, may the key be missing)
STRUCTS = {
    "HeadingAttrs": {"level": ("level", REQ)},
    "CodeBlockAttrs": {"params": ("params", REQ)},
    "BulletListAttrs": {"tight": ("tight", REQ)},
    "OrderedListAttrs": {"order": ("order", REQ), "tight": ("tight", REQ)},
    "ImageAttrs": {"src": ("src", REQ), "alt": ("alt", OPT), "title": ("title", OPT)},
    "LinkAttrs": {"href": ("href", REQ), "title": ("title", OPT)},
    "Block": {"content": ("content", OPT)},
    "AttrNode": {"attrs": ("attrs", REQ), "content": ("content", OPT)},
    "Leaf": {"attrs": ("attrs", REQ)},
    "TextNode": {"text": ("text", REQ), "marks": ("marks", OPT)},
    "Slice": {"content": ("content", REQ), "openStart": ("open_start", OPT), "openEnd": ("open_end", OPT)},
    "Span": {"from": ("from", REQ), "to": ("to", REQ)},
    "ReplaceStep": {"from": ("span.from", REQ), "to": ("span.to", REQ), "slice": ("slice", OPT),
                    "structure": ("structure", OPT)},
    "ReplaceAroundStep": {"from": ("span.from", REQ), "to": ("span.to", REQ), "gapFrom": ("gap_from", REQ),
                          "gapTo": ("gap_to", REQ), "slice": ("slice", OPT), "insert": ("insert", REQ),
                          "structure": ("structure", OPT)},
    "AddMarkStep": {"from": ("span.from", REQ), "to": ("span.to", REQ), "mark": ("mark", REQ)},
    "RemoveMarkStep": {"from": ("span.from", REQ), "to": ("span.to", REQ), "mark": ("mark", REQ)},
}
# a key whose JSON value may be null, meaning its default
NULLABLE = {("ImageAttrs", "alt"), ("ImageAttrs", "title"), ("LinkAttrs", "title")}
# enum -> tag key, variant -> (tag, payload type, its attribute type)
ENUMS = {
    "Step": ("stepType", {"Replace": ("replace", "ReplaceStep"), "ReplaceAround": ("replaceAround", "ReplaceAroundStep"),
                          "AddMark": ("addMark", "AddMarkStep"), "RemoveMark": ("removeMark", "RemoveMarkStep")}),
    "MarkdownNode": ("type", {
        "Doc": ("doc", "Block"), "Heading": ("heading", "AttrNode", "HeadingAttrs"),
        "CodeBlock": ("code_block", "AttrNode", "CodeBlockAttrs"), "Text": ("text", "TextNode"),
        "Blockquote": ("blockquote", "Block"), "Paragraph": ("paragraph", "Block"),
        "BulletList": ("bullet_list", "AttrNode", "BulletListAttrs"),
        "OrderedList": ("ordered_list", "AttrNode", "OrderedListAttrs"), "ListItem": ("list_item", "Block"),
        "HorizontalRule": ("horizontal_rule", None), "HardBreak": ("hard_break", None),
        "Image": ("image", "Leaf", "ImageAttrs")}),
    "MarkdownMark": ("type", {"Strong": ("strong", None), "Em": ("em", None), "Code": ("code", None),
                              "Link": ("link", {"attrs": ("attrs", REQ)})}),
}
# written as the bare value of one member
BARE = {"Fragment": "inner", "MarkSet": "content", "Text": "content"}


def check(ctx):
    t = []
    for n in sorted(STRUCTS):
        t.append(("write %s" % n, lambda c, n=n: write_struct(c, n)))
        t.append(("read %s" % n, lambda c, n=n: read_struct(c, n)))
    for n in sorted(ENUMS):
        t.append(("write %s" % n, lambda c, n=n: write_enum(c, n)))
        t.append(("read %s" % n, lambda c, n=n: read_enum(c, n)))
    for n in sorted(BARE):
        t.append(("write %s" % n, lambda c, n=n: write_bare(c, n)))
        t.append(("read %s" % n, lambda c, n=n: read_bare(c, n)))
    ctx.par(t)


# ---------------------------------------------------------------- running
def poly(it):
    if it.get("poly") is None:
        raise Missing(it["path"] + " has no body")
    it = dict(it)
    it["insts"] = [[0, it["poly"]]]
    return it


def text_of(eng, st, v):
    """the constant string a value is, or None"""
    v = strip(eng, st, v)
    if v.k == "seq" and all(x.k == "lit" for x in v.a[0]):
        return "".join(x.a[0] for x in v.a[0])
    return None


def is_result(p, t):
    return t is not None and p.types[t]["k"] == "adt" and p.types[t]["path"].endswith("result::Result")


def is_option(p, t):
    return t is not None and p.types[t]["k"] == "adt" and p.types[t]["path"].endswith("option::Option")


def okerr(eng, st, t, v, why):
    """[Err after a failure of the data format, Ok(v)]"""
    p = eng.p
    s2 = st.copy()
    s2.note(("fail", why))
    e = p.variant_ix(t, "Err")
    return [(s2, mk("agg", t, e, (eng.d.mk_sym(p.field_tys(t, e)[0], ("err", why)),))),
            (st, mk("agg", t, p.variant_ix(t, "Ok"), (v,)))]


def okty(p, t):
    return p.field_tys(t, p.variant_ix(t, "Ok"))[0]


def agg_name(p, v):
    return p.adt_name(v.a[0]) if v.k in ("agg", "sym") and p.types[v.a[0]]["k"] == "adt" else None


def deep(eng, st, v):
    """the value with references removed, aggregates loaded"""
    return strip(eng, st, v)


def wire_hook(eng, st, c, a, t):
    p, d = eng.p, eng.d
    nm = c["path"]
    if nm.startswith("core::ops::try_trait::") and a and a[0].k == "agg":
        kind = vname(eng, a[0])
        if nm.endswith("Try::branch"):
            if kind in ("Ok", "Some"):
                return [(st, mk("agg", t, p.variant_ix(t, "Continue"), (a[0].a[2][0],)))]
            bi = p.variant_ix(t, "Break")
            return [(st, mk("agg", t, bi, (mk("agg", p.field_tys(t, bi)[0], a[0].a[1], a[0].a[2]),)))]
        if nm.endswith("FromResidual::from_residual"):
            return [(st, mk("agg", t, p.variant_ix(t, kind), a[0].a[2]))]
    comps = norm(nm).split("::")
    if comps[-2:] in (["Result", "map"], ["Result", "and_then"], ["Result", "map_err"]) and a[0].k == "agg":
        kind = vname(eng, a[0])
        m = comps[-1]
        if (kind == "Ok") == (m == "map_err"):
            return [(st, mk("agg", t, p.variant_ix(t, kind), a[0].a[2]))]
        if m == "and_then":
            return eng.call_value(st, a[1], [a[0].a[2][0]], t)
        vi = p.variant_ix(t, kind)
        return [(s, mk("agg", t, vi, (v,))) for s, v in
                eng.call_value(st, a[1], [a[0].a[2][0]], p.field_tys(t, vi)[0])]
    if nm == "core::default::Default::default" and c.get("f") is None and not a and p.types[t]["k"] not in ("adt", "bool", "int", "uint", "tuple"):
        return [(st, d.mk_sym(t, ("default",)))]
    if comps[-2:] in (["Option", "unwrap_or_default"], ["Option", "unwrap_or_else"]) and a[0].k in ("sym", "agg"):
        out = []
        for vi in sorted(st.variants(a[0])):
            s2 = st.copy()
            if not s2.refine(a[0], frozenset([vi])):
                continue
            if p.types[a[0].a[0]]["variants"][vi]["name"] == "None":
                if len(a) == 2:
                    out.extend(eng.call_value(s2, a[1], [], t))
                else:
                    out.append((s2, d.mk_sym(t, ("default",))))
            else:
                out.append((s2, d.proj(a[0], 0, vi)))
        return out
    if not nm.lstrip("<&").startswith("serde"):
        return None
    name = c.get("name") or comps[-1]
    why = (name, len(st.notes))
    # ------------------------------------------------ writing
    if name in ("serialize_struct", "serialize_map") and is_result(p, t):
        st.note(("open", name))
        return okerr(eng, st, t, d.mk_sym(okty(p, t), ("ser",) + why), why)
    if name in ("serialize_field", "serialize_entry") and len(a) == 3 and is_result(p, t):
        k = text_of(eng, st, a[1])
        if k is None:
            raise Undecided("a key that is not a constant")
        out = okerr(eng, st, t, d.mk_sym(okty(p, t), ("ser",) + why), why)
        st.note(("put", k, text_of(eng, st, a[2]), deep(eng, st, a[2])))
        return out
    if name == "skip_field" and is_result(p, t):
        return okerr(eng, st, t, d.mk_sym(okty(p, t), ("ser",) + why), why)
    if name == "end" and is_result(p, t):
        out = okerr(eng, st, t, d.mk_sym(okty(p, t), ("ser",) + why), why)
        st.note(("end",))
        return out
    if name == "serialize_tagged_newtype" and len(a) == 6 and is_result(p, t):
        k, tag = text_of(eng, st, a[3]), text_of(eng, st, a[4])
        if k is None or tag is None:
            raise Undecided("a tag that is not a constant")
        out = okerr(eng, st, t, d.mk_sym(okty(p, t), ("ser",) + why), why)
        st.note(("put", k, tag, None))
        st.note(("flat", deep(eng, st, a[5])))
        st.note(("end",))
        return out
    if name == "serialize" and len(a) == 2 and is_result(p, t):
        out = okerr(eng, st, t, d.mk_sym(okty(p, t), ("ser",) + why), why)
        if agg_name(p, a[1]) == "FlatMapSerializer":
            st.note(("flat", deep(eng, st, a[0])))
        else:
            st.note(("bare", deep(eng, st, a[0])))
        return out
    if (name.startswith("serialize_") or name == "collect_seq") and len(a) == 2 and is_result(p, t):
        out = okerr(eng, st, t, d.mk_sym(okty(p, t), ("ser",) + why), why)
        st.note(("bare", deep(eng, st, a[1])))
        return out
    # ------------------------------------------------ reading
    if name == "next_key" and is_result(p, t):
        ot = okty(p, t)
        kt = p.field_tys(ot, p.variant_ix(ot, "Some"))[0]
        out = okerr(eng, st, t, none(ot), why)
        for s, v in out[1:]:
            s.notes = nokey(s) | {("key", None)}
        if p.is_enum(kt):
            for vi in range(len(p.types[kt]["variants"])):
                s2 = st.copy()
                s2.notes = nokey(s2) | {("key", vi, kt)}
                kv = mk("agg", kt, vi, tuple(d.mk_sym(x, ("keytext", vi)) for x in p.field_tys(kt, vi)))
                out.append((s2, mk("agg", t, p.variant_ix(t, "Ok"), (some(ot, kv),))))
            return out
        return None
    if name in ("next_value", "next_value_seed") and is_result(p, t):
        k = last_key(st)
        st.note(("taken", k, okty(p, t)))
        return okerr(eng, st, t, d.mk_sym(okty(p, t), ("value", k)), why)
    if name == "missing_field" and is_result(p, t):
        k = text_of(eng, st, a[0])
        st.note(("missing", k))
        ot = okty(p, t)
        if is_option(p, ot):
            return [(st, mk("agg", t, p.variant_ix(t, "Ok"), (none(ot),)))]
        e = p.variant_ix(t, "Err")
        return [(st, mk("agg", t, e, (d.mk_sym(p.field_tys(t, e)[0], ("err",) + why),)))]
    if name in ("duplicate_field", "unknown_field", "unknown_variant", "custom", "invalid_length", "invalid_value",
                "invalid_type", "missing_field"):
        st.note(("error", name) + tuple(text_of(eng, st, x) for x in a[:1]))
        return [(st, d.mk_sym(t, ("err",) + why))]
    if name == "new" and "TaggedContentVisitor" in nm:
        return [(st, d.mk_sym(t, ("tagged", text_of(eng, st, a[0]))))]
    if name == "new":
        return [(st, d.mk_sym(t, ("new", norm(nm)) + tuple(x if x.k != "mref" else mk("undef") for x in a)))]
    if name == "deserialize_struct" and len(a) == 4 and is_result(p, t):
        names = strip(eng, st, a[2])
        fl = tuple(text_of(eng, st, x.a[0]) for x in names.a[0]) if names.k == "seq" and \
            all(x.k == "one" for x in names.a[0]) else None
        st.note(("struct", fl, a[3].a[0]))
        return okerr(eng, st, t, d.mk_sym(okty(p, t), ("struct",)), why)
    if name == "deserialize_map" and len(a) == 2 and is_result(p, t):
        st.note(("struct", None, a[1].a[0]))
        return okerr(eng, st, t, d.mk_sym(okty(p, t), ("struct",)), why)
    if name == "deserialize_identifier" and is_result(p, t):
        st.note(("identifier", a[1].a[0]))
        return okerr(eng, st, t, d.mk_sym(okty(p, t), ("struct",)), why)
    if name == "deserialize_any" and len(a) == 2 and is_result(p, t):
        if a[1].k == "sym" and isinstance(a[1].a[1], tuple) and a[1].a[1][0] == "tagged":
            ot = okty(p, t)  # (field, content)
            ft = p.types[ot].get("elems") or p.types[ot].get("tys")
            out = okerr(eng, st, t, mk("undef"), why)[:1]
            for vi in range(len(p.types[ft[0]]["variants"])):
                s2 = st.copy()
                s2.note(("tag", a[1].a[1][1], vi, ft[0]))
                fv = mk("agg", ft[0], vi, tuple(d.mk_sym(x, ("keytext", vi)) for x in p.field_tys(ft[0], vi)))
                tup = mk("agg", ot, 0, (fv, d.mk_sym(ft[1], ("rest",))))
                out.append((s2, mk("agg", t, p.variant_ix(t, "Ok"), (tup,))))
            return out
        st.note(("visitor", a[1].a[0]))
        return okerr(eng, st, t, d.mk_sym(okty(p, t), ("visited", a[1].a[0])), why)
    if name == "deserialize" and len(a) == 1 and is_result(p, t):
        ot = okty(p, t)
        src = a[0]
        if agg_name(p, src) == "FlatMapDeserializer":
            return okerr(eng, st, t, d.mk_sym(ot, ("flatval",)), why)
        st.note(("inner", ot))
        return okerr(eng, st, t, d.mk_sym(ot, ("inner", ot)), why)
    if is_result(p, t) or t is None or any(x.k == "mref" for x in a):
        raise Undecided("unknown call of the data format: %s" % nm)
    st.note("unmodelled:" + nm)
    return [(st, d.mk_sym(t, ("serde", norm(nm)) + why))]


def nokey(st):
    return frozenset(n for n in st.notes if not (isinstance(n, tuple) and n and n[0] == "key"))


def last_key(st):
    ks = [n[1] for n in st.notes if isinstance(n, tuple) and n and n[0] == "key"]
    return ks[0] if len(ks) == 1 else None


def base(s):
    """a type's name without its own generic arguments"""
    s = s.strip()
    if s.endswith(">"):
        depth = 0
        for i in range(len(s) - 1, -1, -1):
            depth += (s[i] == ">" and s[i - 1] != "-") - (s[i] == "<")
            if depth == 0:
                return s[:i]
    return s


def item_of(ctx, name, ty):
    want = base(ctx.p.types[ty]["str"])
    its = [i for i in ctx.p.items if i["name"] == name and i.get("self_ty") and base(i["self_ty"]) == want]
    if len(its) > 1:
        its = [i for i in its if ty in signature_types(ctx.p, i)]
    if len(its) != 1:
        raise Missing("%s of %s" % (name, want))
    return poly(its[0])


def signature_types(p, it):
    """the types an item takes, and the one it returns on success"""
    f = p.fns.get(it.get("poly"))
    if f is None:
        return set()
    ts = set(f["locals"][1:f["argc"] + 1])
    if is_result(p, f["locals"][0]):
        ts.add(okty(p, f["locals"][0]))
    return ts


def go(ctx, it, **kw):
    r = ctx.run(it, hooks=(wire_hook,), **kw)
    if r is None:
        return None
    if r.panics:
        raise Undecided("may panic")
    return r


def member(d, v, path):
    for f in path.split("."):
        if v.k not in ("agg", "sym") or d.p.types[v.a[0]]["k"] != "adt":
            raise Undecided("the member %s of %s" % (path, show(v)[:60]))
        vi = v.a[1] if v.k == "agg" else 0
        ix = [i for i, x in enumerate(d.p.fields(v.a[0], vi)) if x["name"] == f]
        if not ix:
            raise Missing("member %s of %s" % (f, d.p.adt_name(v.a[0])))
        v = v.a[2][ix[0]] if v.k == "agg" else d.proj(v, ix[0])
    return v


def possibly_not(s, fact):
    """False when the fact can fail on this path, else None"""
    return False if any(x.feasible() for x in s.copy().assume(mk("not", fact))) else None


def is_default(r, s, v, dflt=None):
    """True / False / None"""
    v = strip(r.eng, s, v)
    d, p = r.d, r.d.p
    if v.k == "sym" and isinstance(v.a[1], tuple) and v.a[1][0] == "default":
        return dflt is None
    if v.k == "seq":
        n = d.seq_len(v)
        z = s.eqv_decide(n, num(0))
        return z if z is not None else possibly_not(s, eq0(n))
    if v.k == "sym" and p.types[v.a[0]]["k"] != "adt":
        return None
    if v.k in ("tt", "ff"):
        return v.k == "ff"
    if v.k == "int":
        z = s.eqv_decide(v, num(dflt or 0))
        return z if z is not None else possibly_not(s, eq0(sub(v, num(dflt or 0))))
    if v.k in ("agg", "sym"):
        nm = p.adt_name(v.a[0])
        if nm == "Fragment":  # children have positive sizes
            a, b = is_default(r, s, member(d, v, "inner")), is_default(r, s, member(d, v, "size"))
            return True if True in (a, b) else False if b is False else None
        if nm == "MarkSet":
            return is_default(r, s, member(d, v, "content"))
        if nm == "Slice":  # without content there is nothing to be open
            return is_default(r, s, member(d, v, "content"))
        return None
    b = s.decide(v)
    return not b if b is not None else possibly_not(s, mk("not", v))


def notes(s, kind):
    return [n for n in s.notes if isinstance(n, tuple) and n and n[0] == kind]


def entries(ctx, r, s):
    """what one successful path writes: key -> (constant text, value)"""
    d = r.d
    out = {}
    for n in notes(s, "put"):
        if n[1] in out:
            return None, "writes the key %s twice" % n[1]
        out[n[1]] = (n[2], n[3])
    for n in notes(s, "flat") + notes(s, "bare"):
        v = strip(r.eng, s, n[1])
        nm = agg_name(ctx.p, v)
        if nm not in STRUCTS:
            if n[0] == "bare":
                return None, "writes the bare value %s" % show(v)[:80]
            out.setdefault(None, (None, v))
            continue
        for k, (m, _) in STRUCTS[nm].items():
            if k in out:
                return None, "writes the key %s twice" % k
            out[k] = (None, member(d, v, m))
    return out, None


def compare_written(ctx, r, s, ents, table, src, what):
    """message or None"""
    d = r.d
    for k in ents:
        if k not in table:
            return "%s writes a key %s that ProseMirror does not have" % (what, k)
    for k, (m, need) in table.items():
        want = member(d, src, m) if isinstance(m, str) else m(d, s, src)
        if k not in ents:
            if need == REQ:
                return "%s does not write %s" % (what, k)
            z = is_default(r, s, want)
            if z is None:
                raise Undecided("%s: whether %s is left out only when it has its default" % (what, k))
            if not z:
                return "%s leaves out %s when it does not have its default" % (what, k)
            continue
        z = same(d, s, strip(r.eng, s, ents[k][1]), strip(r.eng, s, want))
        if z is None and ents[k][1].k == "sym" and want.k == "sym":
            z = False
        if z is None:
            raise Undecided("%s: the value written for %s: %s" % (what, k, show(ents[k][1])[:80]))
        if not z:
            return "%s writes %s as %s instead of %s" % (what, k, show(ents[k][1])[:80], show(want)[:80])
    return None


def written(ctx, it, r, key, judge_ok):
    n = 0
    for s, v in r.outs:
        kind = vname(r.eng, v)
        if kind == "Err":
            if notes(s, "fail"):
                ctx.ok()
            else:
                ctx.bad(key + ":refused", loc(it), "writing fails although the data format did not")
            continue
        if kind != "Ok":
            ctx.unk(it["path"], "outcome %s" % show(v)[:80])
            continue
        try:
            m = judge_ok(s)
        except Undecided as e:
            ctx.unk(it["path"], str(e))
            continue
        if m is None:
            ctx.ok()
            n += 1
        elif inexact(s, v):
            ctx.unk(it["path"], "%s (%s)" % (m, inexact(s, v)))
        else:
            ctx.bad(key, loc(it), m)
    ctx.count("write paths", n)


def write_struct(ctx, name):
    it = poly(ctx.item("serialize", owner=name, trait="Serialize"))
    r = go(ctx, it)
    if not r:
        return

    def ok(s):
        ents, m = entries(ctx, r, s)
        return m or compare_written(ctx, r, s, ents, STRUCTS[name], r.sym[0], name)
    written(ctx, it, r, "write %s" % name, ok)


def write_bare(ctx, name):
    it = poly(ctx.item("serialize", owner=name, trait="Serialize"))
    r = go(ctx, it)
    if not r:
        return

    def ok(s):
        b = notes(s, "bare")
        if len(b) != 1 or notes(s, "put"):
            raise Undecided("%s is not written as one value" % name)
        want = member(r.d, r.sym[0], BARE[name])
        z = same(r.d, s, strip(r.eng, s, b[0][1]), strip(r.eng, s, want))
        if z is None:
            raise Undecided("value written: %s" % show(b[0][1])[:80])
        return None if z else "%s is written as %s" % (name, show(b[0][1])[:80])
    written(ctx, it, r, "write %s" % name, ok)


def write_enum(ctx, name):
    tagkey, vars_ = ENUMS[name]
    it = poly(ctx.item("serialize", owner=name, trait="Serialize"))
    r = go(ctx, it)
    if not r:
        return
    d, p = r.d, ctx.p
    n = r.sym[0]
    seen = set()

    def ok(s):
        ents, m = entries(ctx, r, s)
        if m:
            return m
        vs = s.variants(n)
        for vi in vs:
            var = p.types[n.a[0]]["variants"][vi]["name"]
            seen.add(var)
            if var not in vars_:
                raise Undecided("unknown variant %s" % var)
            want = vars_[var]
            if tagkey not in ents:
                return "%s::%s is written without %s" % (name, var, tagkey)
            if ents[tagkey][0] != want[0]:
                return "%s::%s is written with %s %s instead of %s" % (name, var, tagkey, ents[tagkey][0], want[0])
            rest = {k: x for k, x in ents.items() if k != tagkey}
            if isinstance(want[1], dict):
                table = {k: ((lambda d, s, n, m=m, vi=vi: variant_member(d, n, vi, m)), q)
                         for k, (m, q) in want[1].items()}
            elif want[1] is None:
                table = {}
            else:
                pay = d.proj(n, 0, vi)
                nm = agg_name(p, pay)
                if nm != want[1]:
                    raise Undecided("the payload of %s::%s is a %s" % (name, var, nm))
                table = {k: ((lambda d, s, n, m=m, pay=pay: member(d, pay, m)), q) for k, (m, q) in STRUCTS[nm].items()}
            m = compare_written(ctx, r, s, rest, table, n, "%s::%s" % (name, var))
            if m:
                return m
        return None
    written(ctx, it, r, "write %s" % name, ok)
    for var in vars_:
        if var not in seen:
            ctx.unk(it["path"], "no path writes %s::%s" % (name, var))


def variant_member(d, n, vi, m):
    ix = [i for i, x in enumerate(d.p.fields(n.a[0], vi)) if x["name"] == m]
    if not ix:
        raise Missing("member %s of a variant of %s" % (m, d.p.adt_name(n.a[0])))
    return d.proj(n, ix[0], vi)


# ---------------------------------------------------------------- reading
def key_variant(ctx, kt, text):
    """the variant of the key type that a key text is mapped to; None = refused"""
    r = go(ctx, item_of(ctx, "deserialize", kt))
    if not r:
        raise Undecided("how keys are told apart")
    vt = {n[1] for s, v in r.outs for n in notes(s, "identifier")}
    if len(vt) != 1:
        raise Undecided("how keys are told apart")
    vt = vt.pop()
    got = set()
    for nm in ("visit_str", "visit_borrowed_str"):
        try:
            it = item_of(ctx, nm, vt)
        except Missing:
            if nm == "visit_str":
                raise
            continue
        r = go(ctx, it, setup=lambda eng, st: {1: ref(eng.d.seq([mk("lit", text)]))})
        if not r:
            raise Undecided("how keys are told apart")
        for s, v in r.outs:
            k = vname(r.eng, v)
            if k == "Err":
                got.add(None)
            elif k == "Ok" and v.a[2][0].k == "agg":
                got.add(v.a[2][0].a[1])
            else:
                raise Undecided("how the key %s is classified" % text)
    if len(got) != 1:
        raise Undecided("the key %s is classified in several ways" % text)
    return got.pop()


def unwrap(ctx, r, s, v, vi):
    """what is stored for key variant vi: plain (the value as read) | nullable | None"""
    p, d = ctx.p, r.d
    ts = {n[2] for n in notes(s, "taken") if n[1] == vi}
    if len(ts) != 1:
        return None
    t = ts.pop()
    w = d.mk_sym(t, ("value", vi))
    if same(d, s, v, w) is True:
        return "plain"
    if w.k == "sym" and p.types[t]["k"] == "adt" and not p.is_enum(t):
        for i, f in enumerate(p.fields(t, 0)):
            if same(d, s, v, d.proj(w, i)) is True:
                return through(ctx, t, f["name"])
    return None


def through(ctx, wt, fname):
    """what a wrapper type's deserialize does with the wire value: plain | nullable | None"""
    it = item_of(ctx, "deserialize", wt)
    r = go(ctx, it)
    if not r:
        raise Undecided("how a value is read")
    kinds = set()
    for s, v in r.outs:
        k = vname(r.eng, v)
        if k == "Err":
            if not notes(s, "fail"):
                kinds.add("refused")
            continue
        inner = notes(s, "inner")
        if k != "Ok" or len(inner) != 1:
            return None
        x = member(r.d, v.a[2][0], fname)
        src = r.d.mk_sym(inner[0][1], ("inner", inner[0][1]))
        if is_option(ctx.p, inner[0][1]):
            vs = s.variants(src)
            names = {ctx.p.types[src.a[0]]["variants"][i]["name"] for i in vs}
            if names == {"Some"}:
                si = next(iter(vs))
                if same(r.d, s, x, r.d.proj(src, 0, si)) is not True:
                    return None
                kinds.add("some")
            elif names == {"None"}:
                if is_default(r, s, x) is not True:
                    return None
                kinds.add("null")
            else:
                return None
        else:
            if same(r.d, s, x, src) is not True:
                return None
            kinds.add("plain")
    if kinds == {"some", "null"}:
        return "nullable"
    return "plain" if kinds in ({"plain"}, {"some", "refused"}) else None


PM_DEFAULT = {("OrderedListAttrs", "order"): 1, ("HeadingAttrs", "level"): 1}


def read_map(ctx, vt, name, table, build, fields=None):
    """judge visit_map of visitor type vt; build(d, value in Ok, member path) -> member value"""
    p = ctx.p
    it = item_of(ctx, "visit_map", vt)
    r = go(ctx, it)
    if not r:
        return
    d = r.d
    key = "read %s" % name
    where = loc(it)
    kts = {n[2] for s, v in r.outs for n in notes(s, "key") if len(n) > 2}
    loops = [x for x in r.eng.loop_log if any(notes(s, "key") for s, B in x["backs"])]
    if len(kts) != 1 or len(loops) != 1:
        raise Undecided("%s: the loop over the keys has an unknown form" % name)
    kt = kts.pop()
    rec = loops[0]
    # ---- where each key goes
    slot = {}
    backs = {}
    for s, B in rec["backs"]:
        ks = notes(s, "key")
        if len(ks) != 1 or B is None:
            raise Undecided("%s: an iteration that reads no key" % name)
        backs.setdefault(ks[0][1], []).append((s, B))

    def changed(B):
        return [(ph, x) for ph, x in B.items() if x is not ph and not (
            x.k == "seq" and len(x.a[0]) == 1 and x.a[0][0].k == "sub" and x.a[0][0].a[0] is ph)]
    for k, (m, need) in list(table.items()) + [("an unknown key", (None, None))]:
        vi = key_variant(ctx, kt, k if m else "\u00a7unknown")
        if vi is None:
            ctx.bad("%s:%s" % (key, k), where, "%s: reading fails on %s" % (name, k if not m else "the key " + k))
            continue
        bs = backs.get(vi)
        if not bs:
            ctx.bad("%s:%s" % (key, k), where, "%s: reading never succeeds past %s" % (name, k))
            continue
        if m is None:
            for s, B in bs:
                hit = [ph for ph, x in changed(B) if not collected(ph, x, vi)]
                ctx.check(not hit, "%s:unknown" % key, where, "%s: an unknown key is stored as a member" % name)
            continue
        for s, B in bs:
            ch = changed(B)
            if len(ch) != 1:
                if not ch:
                    ctx.bad("%s:%s" % (key, k), where, "%s: the value of %s is thrown away" % (name, k))
                else:
                    ctx.unk(it["path"], "key %s changes several things" % k)
                continue
            ph, x = ch[0]
            if collected(ph, x, vi):
                slot[k] = ("collected", None)
                ctx.ok()
                continue
            if vname(r.eng, x) != "Some":
                ctx.unk(it["path"], "key %s is stored as %s" % (k, show(x)[:80]))
                continue
            kind = unwrap(ctx, r, s, x.a[2][0], vi)
            if kind is None:
                ctx.unk(it["path"], "key %s is stored as %s" % (k, show(x)[:80]))
                continue
            if (name, k) in NULLABLE and kind != "nullable":
                t = x.a[2][0].a[0] if x.a[2][0].k == "sym" else None
                if is_option(p, t):
                    ctx.unk(it["path"], "key %s is optional in another way" % k)
                    continue
                ctx.bad("%s:%s null" % (key, k), where, "%s: null is refused for %s, which ProseMirror writes for it" % (
                    name, k))
            if k in slot and slot[k] != (ph, kind):
                ctx.unk(it["path"], "key %s goes to several places" % k)
            slot[k] = (ph, kind)
            ctx.ok()
            e = rec["Be"].get(ph)
            if e is None or vname(r.eng, e) != "None":
                ctx.unk(it["path"], "key %s is not empty at the beginning" % k)
    # ---- what comes out
    ctx.count("keys read", len(slot))
    for s, v in r.outs:
        kind = vname(r.eng, v)
        if kind == "Err":
            miss = [n[1] for n in notes(s, "missing")]
            if notes(s, "fail") or any(n[1] == "duplicate_field" for n in notes(s, "error")):
                bad = None
            elif miss:
                bad = ["%s: reading fails when %s is missing, which ProseMirror leaves out when it has its default" % (
                    name, k) for k in miss if table.get(k, (None, OPT))[1] == OPT]
                bad = bad[0] if bad and len(bad) == len(miss) else None
            elif notes(s, "error"):
                bad = "%s: a valid value is refused (%s)" % (name, notes(s, "error")[0][1])
            else:
                bad = "%s: a valid value is refused" % name
            if bad is None:
                ctx.ok()
            elif inexact(s, v):
                ctx.unk(it["path"], "%s (%s)" % (bad, inexact(s, v)))
            else:
                ctx.bad("%s:refused %s" % (key, ",".join(map(str, miss))), where, bad)
            continue
        if kind != "Ok":
            ctx.unk(it["path"], "outcome %s" % show(v)[:80])
            continue
        for k, (m, need) in table.items():
            if k not in slot:
                continue
            try:
                msg = comes_out(ctx, r, s, build, v.a[2][0], name, k, m, need, slot[k])
            except Undecided as e:
                ctx.unk(it["path"], str(e))
                continue
            if msg is None:
                ctx.ok()
            elif inexact(s, v):
                ctx.unk(it["path"], "%s (%s)" % (msg, inexact(s, v)))
            else:
                ctx.bad("%s:%s" % (key, k), where, msg)


def collected(ph, x, vi):
    """is this the list of unclaimed keys, with this key and its value added?"""
    if x.k != "seq" or len(x.a[0]) != 2:
        return False
    a, b = x.a[0]
    names = {t.a[1] for t in elems_of(b) if t.k == "sym"}
    return a.k == "sub" and a.a[0] is ph and {("keytext", vi), ("value", vi)} <= names


def elems_of(v):
    """the symbols an appended element is made of"""
    if v.k == "one":
        yield from elems_of(v.a[0])
    elif v.k == "agg":
        for x in v.a[2]:
            yield from elems_of(x)
    else:
        yield v


def comes_out(ctx, r, s, build, val, name, k, m, need, slot):
    d, p = r.d, ctx.p
    if slot[0] == "collected":
        first = m.split(".")[0]
        holder = build(d, val, first)
        if holder.k == "sym" and holder.a[1] == ("flatval",):
            nm = agg_name(p, holder)
            if nm in STRUCTS and k in STRUCTS[nm] and STRUCTS[nm][k][0] == m.split(".", 1)[-1]:
                return None
            return "%s: %s is collected into a %s, which does not read it" % (name, k, nm)
        raise Undecided("%s: what becomes of %s" % (name, k))
    mv = build(d, val, m)
    ph = slot[0]
    msg = None
    for vi in sorted(s.variants(ph)):
        s2 = s.copy()
        if not s2.refine(ph, frozenset([vi])):
            continue
        vn = p.types[ph.a[0]]["variants"][vi]["name"]
        if vn == "Some":
            z = same(d, s2, strip(r.eng, s2, mv), strip(r.eng, s2, d.proj(ph, 0, vi)))
            if z is None and mv.k != "sym":
                raise Undecided("%s: %s becomes %s" % (name, k, show(mv)[:80]))
            if not z:
                msg = "%s: the value read for %s is not stored as %s (%s)" % (name, k, m, show(mv)[:80])
        else:
            z = is_default(r, s2, mv, PM_DEFAULT.get((name, k)))
            if z is None:
                if need == REQ:
                    continue
                raise Undecided("%s: a missing %s becomes %s" % (name, k, show(mv)[:80]))
            if not z:
                msg = "%s: a missing %s becomes %s, not its default" % (name, k, show(mv)[:80])
    return msg


def visitor_of(ctx, it):
    r = go(ctx, it)
    if not r:
        raise Undecided("how it is read")
    vs = set()
    for s, v in r.outs:
        k = vname(r.eng, v)
        if k == "Err" and notes(s, "fail"):
            continue
        n = notes(s, "struct")
        if k != "Ok" or len(n) != 1 or not (v.a[2][0].k == "sym" and v.a[2][0].a[1] == ("struct",)):
            raise Undecided("outcome %s" % show(v)[:80])
        vs.add((n[0][1], n[0][2]))
    if len(vs) != 1:
        raise Undecided("several visitors")
    return vs.pop()


def read_struct(ctx, name):
    it = poly(ctx.item("deserialize", owner=name, trait="Deserialize"))
    fields, vt = visitor_of(ctx, it)
    if fields is not None:
        missing = [k for k in STRUCTS[name] if k not in fields and "span" not in STRUCTS[name][k][0]]
        ctx.check(not missing, "read %s:fields" % name, loc(it),
                  "%s does not announce the keys %s" % (name, ", ".join(missing)))
    read_map(ctx, vt, name, STRUCTS[name], member, fields)


def read_bare(ctx, name):
    it = poly(ctx.item("deserialize", owner=name, trait="Deserialize"))
    r = go(ctx, it)
    if not r:
        return
    key = "read %s" % name
    n = 0
    for s, v in r.outs:
        k = vname(r.eng, v)
        if k == "Err":
            if notes(s, "fail") or (name == "MarkSet" and notes(s, "error")):
                ctx.ok()
            elif inexact(s, v):
                ctx.unk(it["path"], inexact(s, v))
            else:
                ctx.bad(key + ":refused", loc(it), "%s: a valid value is refused" % name)
            continue
        inner = notes(s, "inner")
        if k != "Ok" or len(inner) != 1:
            ctx.unk(it["path"], "outcome %s" % show(v)[:80])
            continue
        if name == "MarkSet":  # sorted by the conversion, which C03 decides
            ctx.ok()
            n += 1
            continue
        got = member(r.d, v.a[2][0], BARE[name])
        want = r.eng.d.mk_sym(inner[0][1], ("inner", inner[0][1]))
        z = same(r.d, s, got, want)
        if z:
            ctx.ok()
            n += 1
        elif z is None or inexact(s, v):
            ctx.unk(it["path"], "%s becomes %s" % (name, show(got)[:80]))
        else:
            ctx.bad(key, loc(it), "%s: the list read is stored as %s" % (name, show(got)[:80]))
    ctx.count("bare reads", n)


def read_enum(ctx, name):
    tagkey, vars_ = ENUMS[name]
    it = poly(ctx.item("deserialize", owner=name, trait="Deserialize"))
    r = go(ctx, it)
    if not r:
        return
    d, p = r.d, ctx.p
    key = "read %s" % name
    where = loc(it)
    tags = {(n[1], n[3]) for s, v in r.outs for n in notes(s, "tag")}
    if len(tags) != 1:
        raise Undecided("how the variants of %s are told apart" % name)
    tk, ft = tags.pop()
    ctx.check(tk == tagkey, key + ":tag", where, "%s: the variant is read from %s instead of %s" % (name, tk, tagkey))
    for var, want in vars_.items():
        vi = key_variant(ctx, ft, want[0])
        if vi is None:
            ctx.bad("%s:%s" % (key, var), where, "%s: %s %s is refused" % (name, tagkey, want[0]))
            continue
        got = 0
        for s, v in r.outs:
            if not any(n[2] == vi for n in notes(s, "tag")):
                continue
            k = vname(r.eng, v)
            if k == "Err":
                if notes(s, "fail"):
                    ctx.ok()
                elif inexact(s, v):
                    ctx.unk(it["path"], inexact(s, v))
                else:
                    ctx.bad("%s:%s" % (key, var), where, "%s %s is refused" % (tagkey, want[0]))
                continue
            if k != "Ok":
                ctx.unk(it["path"], "outcome %s" % show(v)[:80])
                continue
            x = v.a[2][0]
            if x.k == "sym" and isinstance(x.a[1], tuple) and x.a[1][0] == "visited":
                if not isinstance(want[1], dict):
                    ctx.unk(it["path"], "%s is read by a visitor of its own" % var)
                    continue

                def build(d, val, m, var=var):
                    if val.k != "agg" or vname(r.eng, val) != var:
                        raise Undecided("%s becomes %s" % (var, show(val)[:60]))
                    ix = [i for i, f in enumerate(d.p.fields(val.a[0], val.a[1])) if f["name"] == m]
                    if not ix:
                        raise Missing("member %s of %s" % (m, var))
                    return val.a[2][ix[0]]
                read_map(ctx, x.a[1][1], "%s::%s" % (name, var), want[1], build)
                got += 1
                continue
            if x.k != "agg":
                ctx.unk(it["path"], "%s becomes %s" % (var, show(x)[:80]))
                continue
            if vname(r.eng, x) != var:
                ctx.bad("%s:%s" % (key, var), where, "%s: %s %s is read as %s" % (name, tagkey, want[0], vname(r.eng, x)))
                continue
            got += 1
            if want[1] is None:
                ctx.ok()
                continue
            pay = x.a[2][0]
            nm = agg_name(p, pay)
            if pay.k == "sym" and pay.a[1][0] == "inner" and nm == want[1]:
                ctx.ok()
                if len(want) > 2:
                    ix = [i for i, f in enumerate(p.fields(pay.a[0], 0)) if f["name"] == "attrs"]
                    at = agg_name(p, d.proj(pay, ix[0])) if ix else None
                    if at == want[2]:
                        ctx.ok()
                    else:
                        ctx.unk(it["path"], "the attributes of %s are a %s" % (var, at))
            else:
                ctx.unk(it["path"], "%s is read from %s" % (var, show(pay)[:80]))
        if not got:
            ctx.bad("%s:%s" % (key, var), where, "%s: no path reads %s %s" % (name, tagkey, want[0]))
