"""C01 (fragment and node sizes) and C02 (UTF-16 text lengths): representation invariants.

Every function of the crate that builds a Fragment (Text) value, or writes one of its fields, is
found in the MIR; each is interpreted on arbitrary arguments and every Fragment (Text) it returns or
leaves behind a mutable argument must satisfy  size == sum of child sizes  (length == number of
UTF-16 units of the characters)."""
from ..spec import *


def sites(ctx, adt):
    """functions (poly bodies) constructing `adt` or assigning one of its fields -> {path: [what]}"""
    p = ctx.p
    out = {}
    for f in p.fns.values():
        if f["mode"] != "poly" or not f["local"]:
            continue
        what = []
        for b in f["blocks"]:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv["r"] == "agg" and rv["ak"] == "adt" and p.is_local_adt(rv.get("t", s[1]["t"]), adt):
                    what.append("builds")
                if s[1]["p"] and touches(p, f, s[1], adt):
                    what.append("writes field")
                if rv["r"] == "ref" and rv["mut"] and rv["pl"]["p"] and touches(p, f, rv["pl"], adt):
                    what.append("borrows field mutably")
        if what:
            out[f["id"]] = (f, sorted(set(what)))
    return out


def touches(p, f, pl, adt):
    """does the place go through a field of `adt` (last projection is a field of it)?"""
    ty = f["locals"][pl["l"]]
    var = 0
    hit = False
    for e in pl["p"]:
        t = p.types[ty]
        if e[0] == "f":
            hit = p.is_local_adt(ty, adt)
            fts = p.field_tys(ty, var)
            if e[1] >= len(fts):
                return hit
            ty = fts[e[1]]
            var = 0
        elif e[0] == "as":
            var = e[1]
        elif e[0] == "deref":
            if t["k"] in ("ref", "ptr"):
                ty = t["elem"]
            elif t["k"] == "adt" and t.get("args"):
                ty = t["args"][0]
            else:
                return hit
        else:
            el = p.seq_elem(ty)
            if el is None:
                return hit
            ty = el
    return hit


def aggs(p, v, adt, out, depth=0):
    if isinstance(v, tuple):
        for x in v:
            aggs(p, x, adt, out, depth)
        return
    if not isinstance(v, T) or depth > 12:
        return
    if v.k == "agg":
        if p.is_local_adt(v.a[0], adt):
            out.append(v)
        for x in v.a[2]:
            aggs(p, x, adt, out, depth + 1)
    elif v.k in ("ref", "one", "seq", "box"):
        for x in v.a:
            aggs(p, x, adt, out, depth + 1)
    elif v.k == "sym" and isinstance(v.a[1], tuple):
        for x in v.a[1]:
            if isinstance(x, T):
                aggs(p, x, adt, out, depth + 1)


def roots(ctx):
    """every function of the crate worth interpreting as an entry point"""
    for it in ctx.p.items:
        if not it["insts"]:
            continue
        if it["name"] in ("fmt", "deserialize", "serialize", "visit_map", "visit_seq", "visit_str", "visit_u64",
                          "visit_bytes", "expecting", "assert_receiver_is_total_eq", "hash", "partial_cmp", "cmp",
                          "eq", "ne", "source", "from_markdown", "to_markdown"):
            continue
        yield it


def invariant(ctx, adt, good, msg):
    p = ctx.p
    ss = sites(ctx, adt)
    if not ss:
        raise Missing("constructions of " + adt)
    by_owner = {}
    for fid, (f, what) in ss.items():
        by_owner.setdefault(f["owner"], []).append((f, what))
    ctx.count("constructing functions", len(by_owner))
    p_ = ctx.p

    def job(it, inst):
        key = name_of(it)
        opened = [key] if key in BOUNDARY else []

        def go(c):
            r = c.run(it, inst=inst, open_=opened, quiet=True)
            if r is None:
                c.extra.append(("skipped", it["path"]))
                return
            c.extra.append(("covered", sorted(set(p_.fns[fid]["owner"] for fid in r.eng.infos))))
            for s, v in r.outs:
                found = []
                aggs(p_, v, adt, found)
                for root in list(s.mem):
                    if root[0] == "arg":
                        aggs(p_, s.mem[root], adt, found)
                for a in found:
                    e = good(r.eng, s, a)
                    if e is None:
                        c.ok(1, "%s: %s" % (short(it["path"]), show(a)[:160]))
                    elif inexact(s, v) or e == "?":
                        c.unk(it["path"], "value not exact")
                    else:
                        key_ = "%s:%s" % (adt, it["path"])
                        if isinstance(e, Always):
                            key_ += ":always"
                        c.bad(key_, loc(it), msg % (short(it["path"]), e))
        return go

    todo = [it for it in roots(ctx)]
    first = [it for it in todo if it["path"] in by_owner]
    rest = [it for it in todo if it["path"] not in by_owner]
    known = set(it["path"] for it in todo)
    for f in ctx.p.fns.values():  # associated constants
        if f["mode"] == "mono" and f["argc"] == 0 and f["owner"] in by_owner and f["owner"] not in known:
            first.append({"path": f["owner"], "name": last(norm(f["owner"])), "span": None, "self_ty": None,
                          "insts": [[0, f["id"]]], "exported": True, "trait": None})
            known.add(f["owner"])
    covered, counts = set(), [0, 0]

    def stage(its):
        tasks = []
        for it in its:
            for inst in [i[0] for i in it["insts"]]:
                tasks.append((it["path"], job(it, inst)))
        n = len(ctx.extra)
        ctx.par(tasks)
        counts[0] += len(tasks)
        for label, ext in ctx.extra[n:]:
            for e in ext:
                if e[0] == "covered":
                    covered.update(e[1])
                elif e[0] == "skipped":
                    counts[1] += 1

    # a private helper may rely on how it is called: judge it through its callers instead
    pub = [it for it in first if it.get("exported") or it.get("trait") or it.get("in_trait")]
    priv = [it for it in first if it not in pub]
    stage(pub)
    main, ctx.violations, und = ctx.violations, [], ctx.undecided
    ctx.undecided = list(und)
    stage(priv)
    if os.environ.get("PM_TRACE"): print("private:", ctx.violations)
    failed = [v for v in ctx.violations]
    ctx.violations = main
    if failed:
        covered -= set(it["path"] for it in priv)
        ctx.undecided = und
    left = set(by_owner) - covered - set(it["path"] for it in pub)
    if ctx.tier != "quick":
        stage(rest)
    elif left:
        up = ctx.callers(left)
        stage([it for it in rest if it["path"] in up])
    if failed and any(it["path"] not in covered for it in priv):
        for key, where, m in failed:
            own = key.split(":", 1)[1].rsplit(":always", 1)[0]
            if key.endswith(":always") and own not in covered and not callers_of(ctx, own) & set(by_owner):
                ctx.bad(key, where, m + " (whatever it is given, and no caller touches the value's parts)")
                continue
            ctx.unk(where, "internal helper, not interpretable through its callers: " + m)
    ctx.count("functions interpreted", counts[0] - counts[1])
    ctx.count("functions not interpretable", counts[1])
    for o, fs in sorted(by_owner.items()):
        if o in covered:
            ctx.ok(1)
        else:
            ctx.unk(o, "builds a %s but could not be interpreted" % adt)


class Always(str):
    """what is wrong however the function is called"""


def callers_of(ctx, own):
    """the functions that call `own` themselves"""
    ctx.callers([own])
    return set(ctx.p._rev.get(own, ())) - {own}


def name_of(it):
    st = it.get("trait") or it.get("in_trait") or it.get("self_ty")
    if st is None:
        return it["path"].split("::")[-2], it["name"]
    return last(norm(st.replace("&", ""))).strip(), it["name"]


def check_c01(ctx):
    def good(eng, s, a):
        d = eng.d
        try:
            inner = d.finner(a)
            tot = d.seq_measure(inner, "size")
            sz = d.fsize(a)
        except Undecided:
            return "?"
        if sz.k != "int":
            return "?"
        if s.eq(sz, tot):
            return None
        return "recorded size %s but the children sum to %s" % (show(sz), show(tot))

    invariant(ctx, "Fragment", good,
              "%s can produce a fragment whose size is wrong: %s")
    # node sizes
    it = ctx.item("node_size", trait="Node")
    r = ctx.run(it)
    if r:
        n = r.sym[0]
        p, d = ctx.p, r.d

        def spec(s, v):
            vs = s.variants(n)
            for nm, cl, want in (("text", p.TEXT, lambda: d.tlen(d.node_text(n))),
                                 ("content", p.CONTENT, lambda: addc(d.fsize(d.node_frag(n)), 2)),
                                 ("leaf", p.LEAF, lambda: ONE)):
                part = vs & cl
                if not part:
                    continue
                s2 = s.copy()
                if not s2.refine(n, part):
                    continue
                if v.k != "int" or not s2.eq(v, want()):
                    return "size of a %s node is %s, not %s" % (nm, show(v), show(want()))
            return None

        ctx.judge(r, "node_size", spec)
    # the accessor and content_size report the recorded size
    it = ctx.item("size", owner="Fragment")
    r = ctx.run(it)
    if r:
        ctx.judge(r, "size", lambda s, v: None if v.k == "int" and s.eq(v, r.d.fsize(r.sym[0]))
                  else "returns %s" % show(v))
    it = ctx.item("content_size", trait="Node")
    r = ctx.run(it)
    if r:
        n = r.sym[0]

        def spec2(s, v):
            for nm, cl in (("content", ctx.p.CONTENT), ("no", ctx.p.TEXT | ctx.p.LEAF)):
                s2 = s.copy()
                if not s2.refine(n, s2.variants(n) & cl):
                    continue
                want = r.d.fsize(r.d.node_frag(n)) if nm == "content" else ZERO
                if v.k != "int" or not s2.eq(v, want):
                    return "content size of a node with %s children list is %s" % (nm, show(v))
            return None

        ctx.judge(r, "content_size", spec2)


def text_len_field(p):
    t = p.find_adt("Text")
    return t


def check_c02(ctx):
    p = ctx.p

    def good(eng, s, a):
        d = eng.d
        try:
            n, u = d.tlen(a), d.seq_measure(d.tchars(a), "U")
        except Undecided:
            return "?"
        if n.k != "int":
            return "?"
        if s.eq(n, u):
            return None
        m = "recorded length %s but the content has %s UTF-16 units" % (show(n), show(u))
        return Always(m) if any(s.eq(n, addc(u, k)) for k in (-2, -1, 1, 2)) else m

    invariant(ctx, "Text", good,
              "%s can produce a text whose recorded length is wrong: %s")
    it = ctx.item("len_utf16", owner="Text")
    r = ctx.run(it)
    if r:
        ctx.judge(r, "len_utf16", lambda s, v: None if v.k == "int" and s.eq(
            v, r.d.seq_measure(r.d.tchars(r.sym[0]), "U")) else "returns %s" % show(v))
    it = ctx.item("as_str", owner="Text")
    r = ctx.run(it)
    if r:
        ctx.judge(r, "as_str", lambda s, v: None if s.seq_eq(strip(r.eng, s, v), r.d.tchars(r.sym[0]))
                  else "returns %s" % show(v))
    it = ctx.item("join", owner="Text")
    r = ctx.run(it)
    if r:
        a, b = r.sym[:2]
        ctx.judge(r, "join", lambda s, v: None if s.seq_eq(
            r.d.tchars(v), r.d.concat(r.d.tchars(a), r.d.tchars(b))) else "content is %s" % show(r.d.tchars(v)))
    # splitting
    try:
        it = ctx.item("split_at_utf16")
    except Missing:
        ctx.unk("split_at_utf16", "anchor missing")
        return
    r = ctx.run(it)
    if r:
        d = r.d
        txt, k = r.sym[0], r.args[1]

        def spec(s, v):
            a, b = (strip(r.eng, s, x) for x in v.a[2])
            if a.k != "seq" or b.k != "seq":
                return "?"
            if not s.seq_eq(d.concat(a, b), txt):
                return "parts %s and %s do not concatenate to the text" % (show(a), show(b))
            ua = d.seq_measure(a, "U")
            total = d.seq_measure(txt, "U")
            if s.eq(ua, k):
                return None
            if s.eq(ua, total) and s.entails(sub(k, total)):
                return None  # past the end: everything is in the first part
            return "first part has %s units for offset %s" % (show(ua), show(k))

        ctx.judge(r, "split", spec)
        for kind, where, stack, s in r.panics:
            # only an offset inside a surrogate pair may be refused
            x = k
            if not inside_char(r, s, txt, x):
                ctx.bad("split:panic", loc(it), "split_at_utf16 can panic (%s) for an offset between characters" % kind)
            else:
                ctx.ok()


def inside_char(r, s, txt, k):
    """the facts place k strictly inside some character"""
    d = r.d
    b = txt.a[0][0].a[0]
    for f in s.facts | s.eqs:
        for at, _ in f.a[1]:
            if at.a[0] == "P" and at.a[1] is b and at.a[2] == "U":
                i = at.a[3]
                lo = d.P(b, "U", i)
                hi = d.P(b, "U", addc(i, 1))
                if s.entails(addc(sub(k, lo), -1)) and s.entails(addc(sub(hi, k), -1)):
                    return True
    return False
