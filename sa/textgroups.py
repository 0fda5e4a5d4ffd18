"""Groups about the textual forms of addresses and networks."""
from .groups import *
from . import rx, text
from .text import txt


def fromstr(ctx, ty):
    fn = ctx.prog.impl_method("std::str::FromStr", "from_str", ty)
    if fn is None or fn.body is None:
        raise Missing("FromStr for %s" % short(ty))
    return fn


def sep_join(sep, xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(lit(sep))
        out.append(x)
    return cat(*out) if out else VStr(())


def res_paths(I, rs):
    """[(state, True/False for Ok/Err, payload)] of a Result-valued result list; None for unknown values."""
    for st, v in rs:
        for s, e in I.variant_of(st, v):
            if not isinstance(e, VAdt):
                yield s, None, e
            else:
                yield s, e.variant == 0, e.fields[0] if e.fields else None


def isnum(s, radix):
    if not s.pieces:
        return FALSE
    k = text.rel(s, "rx", "^[0-9]+$" if radix == 10 else "^[0-9a-fA-F]+$")[0]
    return TRUE if k == "in" else FALSE if k == "out" else D.pred("isnum", s, radix, False)


def show(s):
    return "".join(p if isinstance(p, str) else "<%s>" % (p[1] if p[0] in ("txt", "sym") else p[0]) for p in s.pieces)


def check_parse(ctx, key, I, fn, ty, s, accept, value):
    """from_str(s) yields `value` exactly when `accept` holds."""
    w = I.addr_width(ty)
    for st, ok, p in res_paths(I, run_all(ctx, I, fn, [s])):
        if ok is None:
            ctx.undecided(key, "result %r on %s" % (p, show(s)), where(fn))
        elif ok:
            f = st.facts
            for c in accept:
                ctx.prove(key + " accepts only addresses", st.facts, c, "accepts the text %s" % show(s), where(fn))
                f = f.assume(c)
            got = as_addr_int(I, st, p)
            if got is None:
                ctx.undecided(key + " value", "result %r" % (p,), where(fn))
                continue
            if not f.bot:
                ctx.eq_int(key + " value", f, got, value, "text %s" % show(s), where(fn))
        else:
            f = st.facts
            for c in accept:
                f = f.assume(c)
            ctx.prove(key + " rejects only non-addresses", f, FALSE, "rejects the text %s" % show(s), where(fn))


@group("parse4")
def g_parse4(ctx):
    for ty, w in each_addr(ctx):
        if w != 32:
            continue
        fn = fromstr(ctx, ty)
        key = "%s from text" % short(ty)
        C4 = rx.FULL & ~rx.cs(".+")
        I = ctx.engine(contracts={"prefix", "mask", "unravel", "weave"})
        for k in range(1, 6):
            xs = [txt("t%d" % i, C4) for i in range(k)]
            if k == 5:
                xs[0] = txt("rest", rx.FULL & ~rx.cs("+"))
            s = sep_join(".", xs)
            acc, val = [FALSE], num(0)
            if k == 4:
                acc = []
                for x in xs:
                    v = text.number(x, 10)
                    acc += [D.lt(num(0), I.str_len(x)), isnum(x, 10), D.le(v, num(255))]
                    val = val.scale(256) + v
            check_parse(ctx, key, I, fn, ty, s, acc, val)
        ctx.panics(I)


@group("parse6")
def g_parse6(ctx):
    for ty, w in each_addr(ctx):
        if w != 128:
            continue
        fn = fromstr(ctx, ty)
        key = "%s from text" % short(ty)
        C6 = rx.FULL & ~rx.cs(":+")
        I = ctx.engine(contracts={"prefix", "mask", "unravel", "weave"})
        for k in range(1, 10):
            for bits in range(1 << k):
                empt = [i for i in range(k) if bits >> i & 1]
                xs = [VStr(()) if i in empt else txt("t%d" % i, C6, 1) for i in range(k)]
                s = sep_join(":", xs)
                # one run of empty parts: in the middle one part, at an end two (and three when everything is empty)
                n = k - len(empt)
                run = bool(empt) and empt[-1] - empt[0] == len(empt) - 1
                mid = run and len(empt) == 1 and 0 < empt[0] < k - 1
                edge = run and len(empt) == 2 and (empt[0] == 0 or empt[-1] == k - 1) and k > 2
                form = not empt and k == 8 or (mid or edge or bits == 7 and k == 3) and n <= 7
                acc, val = [FALSE], num(0)
                if form:
                    acc = []
                    vs = [None if i in empt else text.number(x, 16) for i, x in enumerate(xs)]
                    for x, v in zip(xs, vs):
                        if v is not None:
                            acc += [D.lt(num(0), I.str_len(x)), isnum(x, 16), D.le(v, num(0xffff))]
                    if empt:
                        vs = vs[:empt[0]] + [num(0)] * (8 - n) + vs[empt[-1] + 1:]
                    for v in vs:
                        val = val.scale(1 << 16) + v
                check_parse(ctx, key + (" (shortened)" if empt else " (full)"), I, fn, ty, s, acc, val)
        # too many parts: everything is rejected
        for k in (10, 11):
            for bits in range(16):
                xs = [txt("t%d" % i, C6) for i in range(k)]
                for j, i in enumerate((0, 1, k - 2, k - 1)):
                    xs[i] = VStr(()) if bits >> j & 1 else txt("t%d" % i, C6, 1)
                check_parse(ctx, key + " (long)", I, fn, ty, sep_join(":", xs), [FALSE], num(0))
        xs = [txt("rest", rx.FULL & ~rx.cs("+"))] + [txt("t%d" % i, C6) for i in range(11)]
        check_parse(ctx, key + " (long)", I, fn, ty, sep_join(":", xs), [FALSE], num(0))
        ctx.panics(I)


# ================================================================ display

def display_of(ctx, I, ty, v, st=None):
    """[(state, text)] of formatting a value with {}."""
    fn = ctx.prog.impl_method("std::fmt::Display", "fmt", ty)
    if fn is None or fn.body is None:
        raise Missing("Display for %s" % ty.s)
    st = (st or State()).copy()
    st.store[("arg", "value")] = v
    st.store[("arg", "fmt")] = VOp("fmtr", (VStr(()),))
    out = []
    for s, r in run_all(ctx, I, fn, [VPtr(("arg", "value"), ()), VPtr(("arg", "fmt"), ())], st):
        w = s.store.get(("arg", "fmt"))
        out.append((s, w.args[0] if isinstance(w, VOp) and w.kind == "fmtr" else None, r))
    return fn, out


def flagged(facts, p):
    """Pieces of a formatted argument with width and fill, when the facts say how much there is to fill."""
    k, v, opts = p
    if not (isinstance(opts, tuple) and len(opts) == 7):
        return None
    fill, al, zero, alt, plus, width, prec = opts
    if k == "d" and isinstance(v, VStr) and not zero and not alt and not plus and prec is None and width is not None:
        from .interp import strlen_of
        n = num(0)
        for x in v.pieces:
            n = n + (len(x) if isinstance(x, str) else x[2] if x[0] == "rep" else strlen_of(x))
        wd = num(width) if isinstance(width, int) else width
        if facts.ev(D.le(wd, n)) is True:
            return v.pieces
        if facts.ev(D.le(n, wd)) is True and al in (None, "<", ">", 0, 1):
            pad = ("rep", fill, wd - n)
            return v.pieces + (pad,) if al in (None, "<", 0) else (pad,) + v.pieces
    return None


def digits(facts, p):
    """A number with leading zeros, as wide as it can get, digit by digit."""
    k, v, opts = p
    if isinstance(v, Lin) and isinstance(opts, tuple) and len(opts) == 7 and opts[2] and not opts[3] and not opts[4] and opts[6] is None and isinstance(opts[5], int):
        n = opts[5]
        if 0 < n <= 32 and facts.ev(D.b_and(D.le(num(0), v), D.lt(v, num(16 ** n)))) is True:
            return VStr(tuple(("x", D.seg(v, 4 * (n - 1 - i), 4)) for i in range(n)))
    return None


def canon(facts, s):
    """Numbers with a definite value become literals; full-width parts of numbers the numbers themselves."""
    out = []
    for p in s.pieces:
        if not isinstance(p, str) and p[0] in ("d", "x", "X", "b", "o") and len(p) == 2 and isinstance(p[1], Lin):
            l = whole(facts, p[1])
            if l.const:
                out.append(format(l.c, p[0]))
            else:
                out.append((p[0], l))
        elif not isinstance(p, str) and p[0] == "rep" and isinstance(p[2], Lin) and facts.ev(D.eq(p[2], num(0))) is True:
            pass
        elif not isinstance(p, str) and len(p) == 3 and p[0] == "x" and digits(facts, p) is not None:
            out += canon(facts, digits(facts, p)).pieces
        elif not isinstance(p, str) and len(p) == 3 and p[0] in ("d", "b") and flagged(facts, p) is not None:
            out += canon(facts, VStr(flagged(facts, p))).pieces
        else:
            out.append(p)
    return cat(*[VStr((p,)) for p in out]) if out else VStr(())


def eq_text(ctx, key, facts, got, want, detail, where_):
    if not isinstance(got, VStr):
        return ctx.undecided(key, "%s: text %r" % (detail, got), where_)
    got, want = canon(facts, got), canon(facts, want)
    if got == want:
        return ctx.prove(key, facts, TRUE, detail, where_)
    if len(got.pieces) == len(want.pieces) and same_pieces(facts, got.pieces, want.pieces):
        return ctx.prove(key, facts, TRUE, detail, where_)
    goal = D.FALSE if differ(facts, got.pieces, want.pieces) or differ(facts, got.pieces[::-1], want.pieces[::-1], True) else D.pred("streq2", got, want)
    return ctx.prove(key, facts, goal, "%s: text %s, should be %s" % (detail, show(got), show(want)), where_)


def differ(facts, ps, qs, back=False):
    """The texts are different whatever their pieces stand for: after an equal beginning (or end), one goes on with other
    characters, or with some where the other has none left."""
    ps, qs = list(ps), list(qs)
    while ps and qs:
        a, b = ps[0], qs[0]
        if isinstance(a, str) and isinstance(b, str):
            x, y = (a[::-1], b[::-1]) if back else (a, b)
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return True
            for l, t in ((ps, x[n:]), (qs, y[n:])):
                l[:1] = [t[::-1] if back else t] if t else []
        elif same_pieces(facts, [a], [b]):
            del ps[0], qs[0]
        else:
            return False
    return any(isinstance(p, str) and p for p in ps + qs)


def same_pieces(facts, ps, qs):
    """The pieces of two texts are equal one by one under the facts."""
    ren = {}
    for a, b in zip(ps, qs):
        if a == b:
            continue
        if isinstance(a, str) or isinstance(b, str) or a[0] != b[0] or len(a) != len(b):
            return False
        if a[0] == "rep":
            if a[1] != b[1] or facts.ev(D.eq(rename_len(a[2], ren), b[2])) is not True:
                return False
        elif a[0] in ("addr", "bin"):
            if a[1] != b[1] or facts.ev(D.eq(a[2], b[2])) is not True:
                return False
            ren[a] = b
        elif len(a) == 2 and isinstance(a[1], Lin) and isinstance(b[1], Lin):
            if facts.ev(D.eq(a[1], b[1])) is not True:
                return False
            ren[a] = b
        else:
            return False
    return True


def rename_len(l, ren):
    """The form with the lengths of pieces replaced by those of equal pieces."""
    from .interp import strlen_of
    r = num(l.c)
    for a, k in l.terms:
        p = ren.get(a.args[0]) if a.kind == "strlen" else None
        r = r + (strlen_of(p) if p is not None else D.of_atom(a)).scale(k)
    return r


def dotted(ty, x):
    return sep_join(".", [VStr((("d", D.seg(x, 24 - 8 * i, 8)),)) for i in range(4)])


def groups6(gs):
    """Canonical colon form of eight groups (None = zero): the leftmost longest run of zeros shortened."""
    best, i = (0, 0), 0
    while i < 8:
        j = i
        while j < 8 and gs[j] is None:
            j += 1
        if j - i > best[1]:
            best = (i, j - i)
        i = max(j, i + 1)
    h = [lit("0") if g is None else VStr((("x", g),)) for g in gs]
    if not best[1]:
        return sep_join(":", h)
    return cat(sep_join(":", h[:best[0]]), lit("::"), sep_join(":", h[best[0] + best[1]:]))


def sample6(I, ty, bits):
    """The IPv6 addresses whose zero groups are exactly the given ones."""
    gs = [None if bits >> i & 1 else D.word("g%d" % i, 16) for i in range(8)]
    v, st = num(0), State()
    for g in gs:
        v = v.scale(1 << 16) + (g if g is not None else num(0))
        if g is not None:
            st = st.assume(D.lt(num(0), g))
    return gs, I.addr_value(ty, v), v, st


@group("disp4")
def g_disp4(ctx):
    for ty, w in each_addr(ctx):
        if w == 32:
            x = D.word("x", 32)
            I = ctx.engine()
            fn, rs = display_of(ctx, I, ty, I.addr_value(ty, x))
            for st, s, r in rs:
                eq_text(ctx, "%s as text" % short(ty), st.facts, s, dotted(ty, x), "display of x", where(fn))
            ctx.panics(I)


@group("disp6")
def g_disp6(ctx):
    for ty, w in each_addr(ctx):
        if w == 128:
            I = ctx.engine()
            for bits in range(256):
                gs, a, v, st0 = sample6(I, ty, bits)
                want = groups6(gs)
                fn, rs = display_of(ctx, I, ty, a, st0)
                for st, s, r in rs:
                    eq_text(ctx, "%s as text" % short(ty), st.facts, s, want, "display of an address whose zero groups are %s" % [i for i in range(8) if bits >> i & 1], where(fn))
            ctx.panics(I)


@group("full6", "bytes")
def g_full6(ctx):
    """The long form: eight groups of four digits each."""
    for ty, w in each_addr(ctx):
        if w == 128:
            fn = ctx.need([f for f in ctx.prog.find("to_full_string") if f.body], "to_full_string")
            I = ctx.engine()
            x = D.word("x", 128)
            want = sep_join(":", [cat(*[VStr((("x", D.seg(x, 112 - 16 * i + 12 - 4 * j, 4)),)) for j in range(4)]) for i in range(8)])
            for st, r in run_all(ctx, I, fn, [VRef(I.addr_value(ty, x))]):
                eq_text(ctx, "%s in full" % short(ty), st.facts, I.deref_all(st, r), want, "long form of x", where(fn))
            ctx.panics(I)


@group("round4", "parse4")
def g_round4(ctx):
    round_trip(ctx, 32)


@group("round6", "parse6")
def g_round6(ctx):
    round_trip(ctx, 128)


def round_trip(ctx, width):
    """Every displayed address reads back as itself, whatever its form."""
    for ty, w in each_addr(ctx):
        if w != width:
            continue
        key = "%s text round trip" % short(ty)
        fn = fromstr(ctx, ty)
        for bits in range(256 if w == 128 else 1):
            I = ctx.engine()
            if w == 128:
                gs, a, v, st0 = sample6(I, ty, bits)
            else:
                v = D.word("x", 32)
                a, st0 = I.addr_value(ty, v), State()
            dfn, rs = display_of(ctx, I, ty, a, st0)
            for st, s, r in rs:
                if not isinstance(s, VStr):
                    ctx.undecided(key, "display yields %r" % (s,), where(dfn))
                    continue
                s = canon(st.facts, s)
                for st2, ok, p in res_paths(I, run_all(ctx, I, fn, [s], st)):
                    if ok is None:
                        ctx.undecided(key, "result %r on %s" % (p, show(s)), where(fn))
                    elif not ok:
                        ctx.prove(key, st2.facts, FALSE, "the displayed text %s is rejected" % show(s), where(fn))
                    else:
                        got = as_addr_int(I, st2, p)
                        ctx.eq_int(key, st2.facts, got, v, "the displayed text %s" % show(s), where(fn))
            ctx.absorb(I)
            ctx.panics(I)


# ================================================================ network specifications

LOW = "^[^A-Z]*$"
DIGITS = "^[0-9]+$"
PFX = {32: "^0*(?:3[0-2]|[12]?[0-9])$", 128: "^0*(?:12[0-8]|1[01][0-9]|[1-9]?[0-9])$"}
A4, A6 = text.V4, ("and", text.V6, LOW)


def address_cells():
    """Partition of the texts left of the slash (upper-case IPv6 addresses left out)."""
    yield "4", A4
    yield "6", A6
    yield "0", ("and", "^[^/]*$", ("not", A4), ("not", text.V6))


def subnet_cells():
    """Partition of the texts right of the slash that contain no '-' (upper-case IPv6 masks left out)."""
    yield "4", A4
    yield "6", A6
    yield "p32", PFX[32]
    yield "p128", ("and", PFX[128], ("not", PFX[32]))
    yield "big", ("and", DIGITS, ("not", PFX[128]))
    yield "0", ("and", "^[^/-]*$", ("not", A4), ("not", text.V6), ("not", DIGITS))


def check_net(ctx, key, I, st, ty, net, x, m, p, detail, w_):
    """The network is the one of address x and mask m, with prefix length p (None: the mask's own)."""
    w = I.addr_width(ty)
    for name, want in (("base_addr", D.bitwise("and", x, m, w)), ("subnet_mask", m)):
        fn = netfn(ctx, name, ty)
        for s, v in call_addr(ctx, I, fn, st, [VRef(net)]):
            ctx.eq_int("%s %s" % (key, {"base_addr": "base address", "subnet_mask": "mask"}[name]), s.facts, v, want, detail, w_)
    fn = netfn(ctx, "cidr_prefix", ty)
    for s, b in opt_paths(ctx, I, run_all(ctx, I, fn, [VRef(net)], st)):
        if p is not None:
            if b is None:
                ctx.fail(key + " prefix length", s.facts, detail + ": no prefix length", w_)
            else:
                ctx.eq_int(key + " prefix length", s.facts, b, p, detail, w_)
        else:
            for s2, q in opt_paths(ctx, I, [(s, I.pfx_option(w, m))]):
                if (q is None) != (b is None):
                    ctx.fail(key + " prefix length", s2.facts, detail + ": prefix length %r, should be %r" % (b, q), w_)
                elif q is not None:
                    ctx.eq_int(key + " prefix length", s2.facts, b, q, detail, w_)


def spec_parts(I, st, v):
    """(address, network) of a network specification value."""
    v = I.deref_all(st, v)
    if not isinstance(v, VAdt):
        return None, None
    fs = [I.deref_all(st, f) for f in v.fields]
    if len(fs) == 1 and isinstance(fs[0], VAdt) and not I.is_addr(fs[0]):
        fs = list(fs[0].fields)
    a = [f for f in fs if I.is_addr(f)]
    n = [f for f in fs if not I.is_addr(f)]
    return (a[0] if a else None), (n[0] if n else None)


def check_spec(ctx, key, I, fn, s, want, st0=None, detail=None):
    """parse_netspec(s) yields want = (type, address, mask, prefix or None), or an error when want is None."""
    detail = detail or "text %s" % show(s)
    for st, ok, v in res_paths(I, run_all(ctx, I, fn, [s], st0)):
        if ok is None:
            ctx.undecided(key, "%s: result %r" % (detail, v), where(fn))
        elif not ok:
            if want is not None:
                ctx.fail(key + " is accepted", st.facts, detail + " is rejected", where(fn))
            else:
                ctx.good(key + " is rejected", where(fn))
        elif want is None:
            ctx.fail(key + " is rejected", st.facts, detail + " is accepted", where(fn))
        else:
            ty, x, m, p = want
            a, n = spec_parts(I, st, v)
            if a is None or n is None:
                ctx.undecided(key, "%s: result %r" % (detail, v), where(fn))
                continue
            if not ctx.prove(key + " has the family of its address", st.facts, D.boolc(a.ty is ty), "%s: %s" % (detail, short(a.ty)), where(fn)):
                continue
            ctx.eq_int(key + " address", st.facts, I.addr_int(a), x, detail, where(fn))
            check_net(ctx, key, I, st, ty, n, x, m, p, detail, where(fn))


@group("netspec", "parse4", "parse6", "cidr_mask", "cidr_prefix", "bitops")
def g_netspec(ctx):
    fn = free_fn(ctx, "parse_netspec")
    tys = {w: ty for ty, w in each_addr(ctx)}
    for an, al in address_cells():
        for bn, bl in subnet_cells():
            for dash in (False, True):
                I = ctx.engine()
                a, b = text.txt_in("a", al), text.txt_in("b", bl)
                s = cat(a, lit("/-" if dash else "/"), b)
                st, want = State(), None
                v = text.number(b, 10)
                if bn == "p32":
                    st = st.assume(D.le(v, num(32)))
                elif bn == "p128":
                    st = st.assume(D.le(num(33), v)).assume(D.le(v, num(128)))
                elif bn == "big":
                    st = st.assume(D.le(num(129), v))
                w = {"4": 32, "6": 128}.get(an)
                if w and (bn == an or bn == "p32" or bn == "p128" and w == 128):
                    x = text.addr_value(a, w)
                    if bn == an:
                        m, p = text.addr_value(b, w), None
                        if dash:
                            m = num((1 << w) - 1) - m
                    else:
                        p = num(w) - v if dash else v
                        m = D.mask_word(w, p)
                    want = (tys[w], x, m, p)
                kind = {"4": "IPv4", "6": "IPv6"}.get(an)
                key = "network specification" if want is None else "%s/%s%s" % (kind, "-" if dash else "", "mask" if bn == an else "prefix")
                check_spec(ctx, key, I, fn, s, want, st, "text <%s>/%s<%s>" % ({"0": "no address"}.get(an, "IPv" + an), "-" if dash else "",
                           {"4": "IPv4", "6": "IPv6", "p32": "0..32", "p128": "33..128", "big": "above 128", "0": "no subnet"}[bn]))
                ctx.panics(I)
    # no slash, several slashes, a dash elsewhere
    N = ("^[^/]*$")
    ND = "^[^/-]*$"
    for s in (text.txt_in("a", N), cat(text.txt_in("a", N), lit("/"), text.txt_in("b", N), lit("/"), txt("c")),
              cat(text.txt_in("a", N), lit("/"), text.txt_in("b", "^[^/-]+$"), lit("-"), text.txt_in("c", N)),
              cat(text.txt_in("a", N), lit("/-"), text.txt_in("b", ND), lit("-"), text.txt_in("c", N))):
        I = ctx.engine()
        check_spec(ctx, "network specification", I, fn, s, None)
        ctx.panics(I)
