"""Obligation groups.  Each group analyses one area of the program and records obligations."""
from .core import *
from . import contracts as C
from .contracts import be, pop_of

GROUPS = {}
DEPS = {}


def group(name, *deps):
    def d(f):
        GROUPS[name] = f
        DEPS[name] = deps
        return f
    return d


def short(ty):
    return ty.s.split("::")[-1]


def W(ctx, ty):
    return sum(ctx.prog.types[f["t"]].bits for f in ty.variants[0]["f"])


def meth(ctx, ty, name, trait=None):
    fn = ctx.prog.impl_method(trait or ctx.prog.addr_trait, name, ty)
    if fn is None or fn.body is None:
        raise Missing("%s::%s for %s" % (trait or ctx.prog.addr_trait, name, short(ty)))
    return fn


def addr(I, ty, name):
    return I.addr_value(ty, D.word(name, I.addr_width(ty)))


def where(fn):
    return "%s (%s)" % (fn.full, fn.body.get("span") if fn.body else "?")


def each_addr(ctx):
    if len(ctx.prog.addr_types) != 2:
        raise Missing("the two address types")
    for ty in ctx.prog.addr_types:
        yield ty, W(ctx, ty)


def opt_paths(ctx, I, rs):
    """[(state, None | payload)] of an Option-valued result list."""
    for st, v in rs:
        for s, e in I.variant_of(st, v):
            if not isinstance(e, VAdt):
                yield s, e
                continue
            yield s, (e.fields[0] if e.variant == 1 else None)


def as_addr_int(I, st, v):
    v = I.deref_all(st, v)
    if I.is_addr(v):
        return I.addr_int(v)
    return None


def run_all(ctx, I, fn, args, st=None):
    try:
        return ctx.run(I, fn, args, st)
    except (Undecided, Budget) as e:
        ctx.undecided("analysis of %s" % fn.path, "%s" % e, where(fn))
        return []


# ================================================================ representation

@group("bytes")
def g_bytes(ctx):
    for ty, w in each_addr(ctx):
        t = short(ty)
        n = w // 8
        x = D.word("x", w)
        fn = meth(ctx, ty, "byte_count")
        I = ctx.engine()
        for st, v in run_all(ctx, I, fn, [VRef(I.addr_value(ty, x))]):
            ctx.eq_int("%s::byte_count" % t, st.facts, v, num(n), "byte_count", where(fn))
        ctx.panics(I)

        fn = meth(ctx, ty, "to_bytes")
        I = ctx.engine()
        for st, v in run_all(ctx, I, fn, [VRef(I.addr_value(ty, x))]):
            v = I.deref_all(st, v)
            k = "%s::to_bytes" % t
            if not isinstance(v, VSeq) or v.pre is not None:
                ctx.undecided(k, "result %r" % (v,), where(fn))
                continue
            if not ctx.prove(k + " length", st.facts, D.boolc(len(v.items) == n), "%d bytes" % len(v.items), where(fn)):
                continue
            for i, b in enumerate(v.items):
                ctx.eq_int(k + " byte %d" % i, st.facts, b, D.seg(x, w - 8 * (i + 1), 8), "byte %d of the big-endian form" % i, where(fn))
        ctx.panics(I)

        fn = meth(ctx, ty, "from_bytes")
        I = ctx.engine()
        pty = ctx.prog.types[fn.body["locals"][1]]
        arg = I.sym_value(pty, "b")
        seq = arg.v
        for st, r in opt_paths(ctx, I, run_all(ctx, I, fn, [arg])):
            k = "%s::from_bytes" % t
            ln = seq.pre.ln
            if r is None:
                ctx.prove(k + " rejects only wrong lengths", st.facts, D.b_not(D.eq(ln, num(n))), "returns None", where(fn))
            else:
                ctx.prove(k + " accepts only %d bytes" % n, st.facts, D.eq(ln, num(n)), "returns Some", where(fn))
                want = be([I.seq_elem_value(st, seq.pre, num(i)) for i in range(n)])
                got = as_addr_int(I, st, r)
                ctx.eq_int(k + " value", st.facts, got, want, "big-endian value of the bytes", where(fn))
        ctx.panics(I)
        # sixteen-bit groups, where the type offers them
        for fn in ctx.prog.find("to_chunks"):
            if ctx.prog.types[fn.body["locals"][1]].inner is not ty:
                continue
            I = ctx.engine()
            for st, v in run_all(ctx, I, fn, [VRef(I.addr_value(ty, x))]):
                v = I.deref_all(st, v)
                if not isinstance(v, VSeq) or v.pre is not None:
                    ctx.undecided("%s::to_chunks" % t, repr(v))
                    continue
                if ctx.prove("%s::to_chunks length" % t, st.facts, D.boolc(len(v.items) == w // 16), "%d chunks" % len(v.items), where(fn)):
                    for i, b in enumerate(v.items):
                        ctx.eq_int("%s::to_chunks chunk %d" % (t, i), st.facts, b, D.seg(x, w - 16 * (i + 1), 16), "chunk", where(fn))
            ctx.panics(I)
        for fn in ctx.prog.find("from_chunks"):
            rt = ctx.prog.types[fn.body["locals"][0]]
            if not rt.args or rt.args[0] is not ty:
                continue
            I = ctx.engine()
            arg = I.sym_value(ctx.prog.types[fn.body["locals"][1]], "c")
            seq = arg.v
            for st, r in opt_paths(ctx, I, run_all(ctx, I, fn, [arg])):
                k = "%s::from_chunks" % t
                if r is None:
                    ctx.prove(k + " rejects only wrong lengths", st.facts, D.b_not(D.eq(seq.pre.ln, num(w // 16))), "returns None", where(fn))
                else:
                    ctx.prove(k + " accepts only %d chunks" % (w // 16), st.facts, D.eq(seq.pre.ln, num(w // 16)), "returns Some", where(fn))
                    want = num(0)
                    for i in range(w // 16):
                        want = want.scale(65536) + I.seq_elem_value(st, seq.pre, num(i))
                    ctx.eq_int(k + " value", st.facts, as_addr_int(I, st, r), want, "big-endian value of the chunks", where(fn))
            ctx.panics(I)


@group("bitcount", "bytes")
def g_bitcount(ctx):
    for ty, w in each_addr(ctx):
        x = D.word("x", w)
        for name, want in (("count_ones", D.pop_seg(x, 0, w)), ("count_zeros", num(w) - D.pop_seg(x, 0, w))):
            fn = meth(ctx, ty, name)
            I = ctx.engine()
            for st, v in run_all(ctx, I, fn, [VRef(I.addr_value(ty, x))]):
                ctx.eq_int("%s::%s" % (short(ty), name), st.facts, v, want, name, where(fn))
            ctx.panics(I)


@group("bitops", "bytes")
def g_bitops(ctx):
    for ty, w in each_addr(ctx):
        t = short(ty)
        x, y = D.word("x", w), D.word("y", w)
        fn = meth(ctx, ty, "bitwise_negate")
        I = ctx.engine()
        for st, v in run_all(ctx, I, fn, [VRef(I.addr_value(ty, x))]):
            ctx.eq_int("%s::bitwise_negate" % t, st.facts, as_addr_int(I, st, v), num((1 << w) - 1) - x, "complement", where(fn))
        ctx.panics(I)
        for tr, m, op in (("std::ops::BitAnd", "bitand", "and"), ("std::ops::BitOr", "bitor", "or"), ("std::ops::BitXor", "bitxor", "xor")):
            fn = meth(ctx, ty, m, tr)
            I = ctx.engine()
            for st, v in run_all(ctx, I, fn, [I.addr_value(ty, x), I.addr_value(ty, y)]):
                ctx.eq_int("%s::%s" % (t, m), st.facts, as_addr_int(I, st, v), D.bitwise(op, x, y, w), "bitwise %s" % op, where(fn))
            ctx.panics(I)


@group("order", "bytes")
def g_order(ctx):
    prog = ctx.prog
    for ty, w in each_addr(ctx):
        t = short(ty)
        x, y = D.word("x", w), D.word("y", w)
        I = ctx.engine()
        a, b = VRef(I.addr_value(ty, x)), VRef(I.addr_value(ty, y))
        for tr, m in (("std::cmp::PartialEq", "eq"), ("std::cmp::Ord", "cmp"), ("std::cmp::PartialOrd", "partial_cmp")):
            fn = meth(ctx, ty, m, tr)
            I = ctx.engine()
            key = "%s::%s" % (t, m)
            if fn.d.get("derived"):
                if m == "eq":
                    # derived equality compares every field, i.e. every bit
                    ctx.good(key, where(fn))
                    continue
                g = I.models.cmp_bf(I, State(), "le", a, b)
                ctx.eq_bool(key, State().facts, g, D.le(x, y), "field-by-field order", where(fn))
                continue
            for st, v in run_all(ctx, I, fn, [a, b]):
                if m == "eq":
                    ctx.eq_bool(key, st.facts, v, D.eq(x, y), "equality", where(fn))
                    continue
                if m == "partial_cmp":
                    vs = list(opt_paths(ctx, I, [(st, v)]))
                else:
                    vs = [(st, v)]
                for s, o in vs:
                    for s2, e in (I.variant_of(s, o) if o is not None else [(s, None)]):
                        if e is None:
                            ctx.fail(key, s2.facts, "comparison yields None", where(fn))
                        elif isinstance(e, VAdt):
                            c = [D.lt(x, y), D.eq(x, y), D.lt(y, x)][e.variant]
                            ctx.prove(key, s2.facts, c, "yields %s" % e, where(fn))
                        else:
                            ctx.undecided(key, repr(e))
            ctx.panics(I)


# ================================================================ arithmetic

@group("arith", "bytes")
def g_arith(ctx):
    for ty, w in each_addr(ctx):
        t = short(ty)
        x, y = D.word("x", w), D.word("y", w)
        k = D.sym("offset", -(1 << 31), (1 << 31) - 1)
        top = (1 << w) - 1
        for name, other, exact in (("add_addr", "a", x + y), ("subtract_addr", "a", x - y),
                                   ("add_offset", "o", x + k), ("subtract_offset", "o", x - k)):
            fn = meth(ctx, ty, name)
            I = ctx.engine()
            args = [VRef(I.addr_value(ty, x)), VRef(I.addr_value(ty, y)) if other == "a" else k]
            key = "%s::%s" % (t, name)
            for st, r in opt_paths(ctx, I, run_all(ctx, I, fn, args)):
                inr = D.b_and(D.le(num(0), exact), D.le(exact, num(top)))
                if r is None:
                    ctx.prove(key + " None only on overflow", st.facts, D.b_not(inr), "returns None", where(fn))
                else:
                    got = as_addr_int(I, st, r)
                    ctx.eq_int(key + " exact value", st.facts, got, exact, "returns Some", where(fn))
                    ctx.prove(key + " Some only in range", st.facts, inr, "returns Some", where(fn))
            ctx.panics(I)


# ================================================================ masks and prefixes

def contig_mask(w, p):
    return ((1 << p) - 1) << (w - p)


def free_fn(ctx, name):
    c = [f for f in ctx.prog.find(name) if "{closure" not in f.path and f.body is not None]
    if not c:
        raise Missing("function %s" % name)
    return c[0]


@group("cidr_mask")
def g_cidr_mask(ctx):
    fn = free_fn(ctx, "subnet_mask_bytes_from_prefix")
    for n in (4, 16):
        w = 8 * n
        p = D.sym("prefix", 0, (1 << 64) - 1)
        I = ctx.engine(contracts=False)
        st = State()
        k = "prefix to %d-byte mask" % n
        for s, v in run_all(ctx, I, fn, [p, num(n)], st):
            v = I.deref_all(s, v)
            if not isinstance(v, VSeq) or v.pre is not None:
                ctx.undecided(k, repr(v)[:200], where(fn))
                continue
            if not ctx.prove(k + ": length", s.facts, D.boolc(len(v.items) == n), "%d bytes" % len(v.items), where(fn)):
                continue
            lo, hi = D.lin_bounds(p, s.facts)
            for q in range(max(lo or 0, 0), min(hi, w) + 1):
                g = s.facts.assume(D.eq(p, num(q)))
                if g is None or g.bot:
                    continue
                want = contig_mask(w, q).to_bytes(n, "big")
                for i, b in enumerate(v.items):
                    ctx.eq_int(k, g, b, num(want[i]), "byte %d for prefix %d" % (i, q), where(fn))
            g = s.facts.assume(D.lt(num(w), p))
            if g is not None and not g.bot:
                for i, b in enumerate(v.items):
                    ctx.eq_int(k + ": longer prefixes saturate", g, b, num(255), "byte %d" % i, where(fn))
        ctx.panics(I)


@group("cidr_prefix")
def g_cidr_prefix(ctx):
    fn = free_fn(ctx, "prefix_from_subnet_mask_bytes")
    for n in (4, 16):
        w = 8 * n
        m = D.word("m", w)
        I = ctx.engine(contracts=False)
        I.cap_result, I.cap_join, I.cap_loop = 400, 400, 400
        arg = VRef(VSeq(None, tuple(D.seg(m, w - 8 * (i + 1), 8) for i in range(n))))
        k = "%d-byte mask to prefix" % n
        rs = run_all(ctx, I, fn, [arg])
        paths = list(opt_paths(ctx, I, rs))
        for s, r in paths:
            bs = [D.seg(m, w - 8 * (i + 1), 8) for i in range(n)]
            for q in range(w + 1):
                g = s.facts
                for i, b in enumerate(contig_mask(w, q).to_bytes(n, "big")):
                    g = g.assume(D.eq(bs[i], num(b)))
                    if g is None or g.bot:
                        g = None
                        break
                if g is None:
                    continue
                if r is None:
                    ctx.fail(k + ": contiguous masks have a prefix", g, "None for the /%d mask" % q, where(fn))
                else:
                    ctx.eq_int(k + ": prefix value", g, r, num(q), "for the /%d mask" % q, where(fn))
            if r is not None:
                # every member of this path's region must be one of the contiguous masks
                for g in contig_goals(bs):
                    ctx.prove(k + ": mixed masks have none", s.facts, g, "Some(%r)" % (r,), where(fn))
        ctx.panics(I)


def contig_goals(bs):
    """Conditions on the bytes of a mask that together say it is left-contiguous."""
    nine = frozenset([0, 128, 192, 224, 240, 248, 252, 254, 255])
    for i, b in enumerate(bs):
        yield D.member_of(b, nine)
        if i + 1 < len(bs):
            yield D.b_or(D.eq(b, num(255)), D.eq(bs[i + 1], num(0)))


# ================================================================ bit permutation

def bit_i(x, j):
    return D.bvar(D.atom("bit", (x.single(), j), 0, 1)) if False else D.seg(x, j, 1)


@group("perm", "bytes", "cidr_prefix")
def g_perm(ctx):
    from .interp import VGSeq, gseq
    prog = ctx.prog
    for kind, name in (("unravel", "unravel_address"), ("weave", "weave_address")):
        fns = [f for f in prog.find(name) if f.args and f.args[0] in prog.addr_types]
        if len(fns) != 2:
            raise Missing("function %s" % name)
        for fn in fns:
            ty = fn.args[0]
            w = W(ctx, ty)
            t = short(ty)
            I = ctx.engine(contracts={"prefix"})
            x, m = D.word("x", w), D.word("m", w)
            xb = [D.bit_of(x, w - 1 - i) for i in range(w)]
            mb = [D.bit_of(m, w - 1 - i) for i in range(w)]
            key = "%s %s" % (kind, t)
            st0 = State()
            for cl in (True, False):
                c = D.pred("contig", m)
                s0 = st0.assume(c if cl else D.b_not(c))
                for st, v in run_all(ctx, I, fn, [I.addr_value(ty, x), I.addr_value(ty, m)], s0):
                    got = as_addr_int(I, st, v)
                    if got is None:
                        ctx.undecided(key, repr(v)[:200], where(fn))
                        continue
                    if cl:
                        ctx.eq_int(key + ": identity for contiguous masks", st.facts, got, x, "contiguous mask", where(fn))
                        continue
                    if kind == "unravel":
                        seq = gseq(tuple((mb[i], xb[i]) for i in range(w)) + tuple((D.b_not(mb[i]), xb[i]) for i in range(w)))
                        want = [I.gindex(st, seq, num(i)) for i in range(w)]
                    else:
                        full = VSeq(None, tuple(xb))
                        p = pop_of(m, w)
                        want, n = [], num(0)
                        for i in range(w):
                            a = I.index(st, full, n)
                            b = I.index(st, full, p + num(i) - n)
                            want.append(D.b_ite(mb[i], a, b))
                            n = n + D.seg(m, w - 1 - i, 1)
                    for i in range(w):
                        g = D.bit_of(got, w - 1 - i)
                        ctx.eq_bool(key + ": bit placement for mixed masks", st.facts, g, want[i], "bit %d from the left" % i, where(fn))
            ctx.panics(I)


# ================================================================ networks

def netfn(ctx, name, ty):
    c = [f for f in ctx.prog.find(name) if f.args and f.args[0] is ty]
    if not c:
        raise Missing("IpNetwork::%s for %s" % (name, short(ty)))
    return c[0]


def nets(ctx, I, ty, kind, tag=""):
    """Networks as the constructors build them: [(state, value, address word, mask form, prefix form or None)]."""
    w = W(ctx, ty)
    x = D.word("x" + tag, w)
    full = (1 << w) - 1
    if kind in ("prefix", "contig"):
        p = D.sym("prefix" + tag, 0, w)
        m = D.mask_word(w, p)
        if kind == "prefix":
            rs = run_all(ctx, I, netfn(ctx, "new_with_prefix", ty), [I.addr_value(ty, x), p])
        else:
            rs = run_all(ctx, I, netfn(ctx, "new_with_mask", ty), [I.addr_value(ty, x), I.addr_value(ty, m)])
        return [(s, v, x, m, p) for s, v in rs]
    m = D.word("m" + tag, w)
    st = State()
    if kind == "mixed":
        st = st.assume(D.b_not(D.pred("contig", m)))
        q = pop_of(m, w)
        st = st.assume(D.le(num(1), q)).assume(D.le(q, num(w - 1)))
    rs = run_all(ctx, I, netfn(ctx, "new_with_mask", ty), [I.addr_value(ty, x), I.addr_value(ty, m)], st)
    return [(s, v, x, m, None) for s, v in rs]


def call_addr(ctx, I, fn, st, args):
    return [(s, as_addr_int(I, s, v)) for s, v in run_all(ctx, I, fn, args, st)]


@group("net_ctor", "bitops", "cidr_mask", "cidr_prefix")
def g_net_ctor(ctx):
    for ty, w in each_addr(ctx):
        t = short(ty)
        full = (1 << w) - 1
        A = {n: netfn(ctx, n, ty) for n in ("base_addr", "subnet_mask", "cidr_prefix", "cisco_wildcard")}
        for kind in ("prefix", "contig", "mixed"):
            I = ctx.engine()
            k = "%s network from %s" % (t, {"prefix": "prefix length", "contig": "contiguous mask", "mixed": "mixed mask"}[kind])
            for st, v, x, m, p in nets(ctx, I, ty, kind):
                r = VRef(v)
                for s, b in call_addr(ctx, I, A["base_addr"], st, [r]):
                    ctx.eq_int(k + ": base address is address AND mask", s.facts, b, D.bitwise("and", x, m, w), "base_addr", where(A["base_addr"]))
                for s, b in call_addr(ctx, I, A["subnet_mask"], st, [r]):
                    ctx.eq_int(k + ": subnet mask", s.facts, b, m, "subnet_mask", where(A["subnet_mask"]))
                for s, b in call_addr(ctx, I, A["cisco_wildcard"], st, [r]):
                    ctx.eq_int(k + ": wildcard is the complement", s.facts, b, num(full) - m, "cisco_wildcard", where(A["cisco_wildcard"]))
                for s, b in opt_paths(ctx, I, run_all(ctx, I, A["cidr_prefix"], [r], st)):
                    if b is None:
                        ctx.prove(k + ": prefix length present iff contiguous", s.facts, D.boolc(p is None), "cidr_prefix is None", where(A["cidr_prefix"]))
                    elif p is None:
                        ctx.fail(k + ": prefix length present iff contiguous", s.facts, "cidr_prefix is Some(%r)" % (b,), where(A["cidr_prefix"]))
                    else:
                        ctx.eq_int(k + ": prefix length", s.facts, b, p, "cidr_prefix", where(A["cidr_prefix"]))
            ctx.panics(I)
        # the strict forms accept exactly base addresses
        for name, kind in (("new_with_prefix_strict", "prefix"), ("new_with_mask_strict", "any")):
            I = ctx.engine()
            fn = netfn(ctx, name, ty)
            x = D.word("x", w)
            if kind == "prefix":
                p = D.sym("prefix", 0, w)
                m, arg = D.mask_word(w, p), p
            else:
                m = D.word("m", w)
                arg = I.addr_value(ty, m)
            host = D.eq(D.bitwise("and", x, m, w), x)
            k = "%s %s" % (t, name)
            for st, r in opt_paths(ctx, I, run_all(ctx, I, fn, [I.addr_value(ty, x), arg])):
                if r is None:
                    ctx.prove(k + ": rejects only addresses with host bits", st.facts, D.b_not(host), "None", where(fn))
                else:
                    ctx.prove(k + ": accepts only base addresses", st.facts, host, "Some", where(fn))
                    for s, b in call_addr(ctx, I, A["base_addr"], st, [VRef(r)]):
                        ctx.eq_int(k + ": base address", s.facts, b, D.bitwise("and", x, m, w), "base_addr", where(fn))
                    for s, b in call_addr(ctx, I, A["subnet_mask"], st, [VRef(r)]):
                        ctx.eq_int(k + ": subnet mask", s.facts, b, m, "subnet_mask", where(fn))
            ctx.panics(I)


@group("net_rel", "bitops", "order", "cidr_mask", "cidr_prefix")
def g_net_rel(ctx):
    for ty, w in each_addr(ctx):
        t = short(ty)
        fn = netfn(ctx, "contains", ty)
        A = lambda a, b: D.bitwise("and", a, b, w)
        for kind in ("prefix", "any"):
            I = ctx.engine()
            for st, v, x, m, p in nets(ctx, I, ty, kind):
                y = D.word("y", w)
                for s, b in run_all(ctx, I, fn, [VRef(v), VRef(I.addr_value(ty, y))], st):
                    # y is in the network iff it agrees with x on every network bit
                    ctx.eq_bool("%s contains" % t, s.facts, b, D.eq(A(y, m), A(x, m)), "contains", where(fn))
            ctx.panics(I)
        for name, flip in (("is_superset_of", False), ("is_subset_of", True)):
            fn = netfn(ctx, name, ty)
            for k1, k2 in (("any", "any"), ("prefix", "prefix")):
                I = ctx.engine()
                for st, v, x, m, p in nets(ctx, I, ty, k1, "1"):
                    for st2, v2, x2, m2, p2 in [(s.copy(), b, c, d, e) for s, b, c, d, e in nets(ctx, I, ty, k2, "2")]:
                        for n_, bv in (()):
                            pass
                        s0 = State(dict(st.store), st.facts.copy())
                        f = st2.facts
                        s0 = merge_facts(s0, f)
                        big, bm, bx = (v2, m2, x2) if flip else (v, m, x)
                        sm, smm, sx = (v, m, x) if flip else (v2, m2, x2)
                        want = D.b_and(D.eq(A(A(sx, smm), bm), A(bx, bm)), D.eq(A(smm, bm), bm))
                        for s, b in run_all(ctx, I, fn, [VRef(v), VRef(v2)], s0):
                            ctx.eq_bool("%s %s" % (t, name), s.facts, b, want, name, where(fn))
                ctx.panics(I)


@group("net_meet", "bitops", "order", "cidr_mask", "cidr_prefix")
def g_net_meet(ctx):
    """Two networks intersect iff their base addresses agree on every bit that both masks select."""
    for ty, w in each_addr(ctx):
        fn = netfn(ctx, "intersects", ty)
        for k1, k2 in (("any", "any"), ("prefix", "prefix"), ("prefix", "any")):
            I = ctx.engine()
            for st, v, x, m, p in nets(ctx, I, ty, k1, "1"):
                for st2, v2, x2, m2, p2 in nets(ctx, I, ty, k2, "2"):
                    s0 = merge_facts(State(dict(st.store), st.facts.copy()), st2.facts)
                    both = D.bitwise("and", m, m2, w)
                    want = D.eq(D.bitwise("and", x, both, w), D.bitwise("and", x2, both, w))
                    for s, b in run_all(ctx, I, fn, [VRef(v), VRef(v2)], s0):
                        ctx.eq_bool("%s intersects" % short(ty), s.facts, b, want, "intersects", where(fn))
            ctx.panics(I)


def merge_facts(st, f):
    """Conjoin the facts of an independent state."""
    g = st.facts.copy()
    for a, b in f.iv.items():
        g.iv.setdefault(a, b)
    for a, b in f.dom.items():
        g.dom.setdefault(a, b)
    for a, b in f.lits.items():
        g.lits.setdefault(a, b)
    g.cons = g.cons | f.cons
    g.ne = g.ne | f.ne
    g.clauses = g.clauses | f.clauses
    g.approx = g.approx or f.approx
    return State(st.store, g, st.ghost)


@group("net_derived", "arith", "bitops", "bitcount", "order", "cidr_mask", "cidr_prefix", "perm")
def g_net_derived(ctx):
    for ty, w in each_addr(ctx):
        t = short(ty)
        full = (1 << w) - 1
        for kind in ("prefix", "contig", "mixed"):
            I = ctx.engine()
            for st, v, x, m, p in nets(ctx, I, ty, kind):
                r = VRef(v)
                b = D.bitwise("and", x, m, w)
                hosts = num(full) - m                 # the host bits
                q = pop_of(m, w) if p is None else p  # number of network bits
                if p is None:
                    ub = C.unravel(st, b, m, w)
                    hc = num(full) - D.mask_word(w, q)
                    low = C.weave(st, num(1), m, w)
                else:
                    ub, hc, low = b, hosts, num(1)
                two = D.le(q, num(w - 2))
                one = D.le(q, num(w - 1))
                last = b + hosts
                for name, cond, want in (("first_host_addr", two, b + low), ("broadcast_addr", one, last),
                                         ("last_host_addr", two, last - low)):
                    fn = netfn(ctx, name, ty)
                    k = "%s %s (%s)" % (t, name, "mixed mask" if p is None else "contiguous mask")
                    for s, a in opt_paths(ctx, I, run_all(ctx, I, fn, [r], st)):
                        if a is None:
                            ctx.prove(k + ": absent only below the size threshold", s.facts, D.b_not(cond), "None", where(fn))
                        else:
                            ctx.prove(k + ": present only from the size threshold", s.facts, cond, "Some", where(fn))
                            ctx.eq_int(k + ": value", s.facts, as_addr_int(I, s, a), want, name, where(fn))
                fn = netfn(ctx, "last_addr_of_subnet", ty)
                k = "%s last address (%s)" % (t, "mixed mask" if p is None else "contiguous mask")
                for s, a in call_addr(ctx, I, fn, st, [r]):
                    ctx.eq_int(k, s.facts, a, last, "last_addr_of_subnet", where(fn))
                fn = netfn(ctx, "next_subnet_base_addr", ty)
                k = "%s next network (%s)" % (t, "mixed mask" if p is None else "contiguous mask")
                nx = ub + hc + num(1)
                for s, a in opt_paths(ctx, I, run_all(ctx, I, fn, [r], st)):
                    if a is None:
                        ctx.prove(k + ": absent only at the end of the address space", s.facts, D.eq(nx, num(full + 1)), "None", where(fn))
                    else:
                        ctx.prove(k + ": present only before the end of the address space", s.facts, D.le(nx, num(full)), "Some", where(fn))
                        want = nx if p is not None else C.weave(s, nx, m, w)
                        ctx.eq_int(k + ": value", s.facts, as_addr_int(I, s, a), want, "next_subnet_base_addr", where(fn))
            ctx.panics(I)


@group("count", "bitops", "cidr_mask", "cidr_prefix")
def g_count(ctx):
    for ty, w in each_addr(ctx):
        t = short(ty)
        for kind in ("prefix", "mixed"):
            for name, d in (("address_count", 0), ("host_count", 2)):
                I = ctx.engine()
                for st, v, x, m, p in nets(ctx, I, ty, kind):
                    q = pop_of(m, w) if p is None else p
                    want = D.pow2(num(w) - q) - d
                    fn = netfn(ctx, name, ty)
                    for s, r in run_all(ctx, I, fn, [VRef(v)], st):
                        got = I.accel_num(I.deref_all(s, r))
                        ctx.eq_int("%s %s (%s)" % (t, name, "mixed mask" if p is None else "contiguous mask"), s.facts, got, want, name, where(fn))
                ctx.panics(I)
