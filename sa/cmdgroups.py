"""Groups for the command layer."""
from .groups import *
from . import text, rx
from .text import txt
from .textgroups import res_paths, check_net, spec_parts, show, eq_text, sep_join, A4, DIGITS


def enum_field(I, st, v):
    """The only field of an enum value."""
    v = I.deref_all(st, v)
    if isinstance(v, VAdt) and len(v.fields) == 1:
        return I.deref_all(st, v.fields[0])
    return None


# ================================================================ single arguments

@group("argparse", "parse4", "parse6")
def g_argparse(ctx):
    """An argument that is an address, and one that is a prefix length or a mask."""
    tys = {w: ty for ty, w in each_addr(ctx)}
    NOPLUS = "^[^+]*$"
    cells = [("4", text.V4), ("6", text.V6), ("n", DIGITS), ("0", ("and", NOPLUS, ("not", text.V4), ("not", text.V6), ("not", DIGITS)))]
    names = {"4": "an IPv4 address", "6": "an IPv6 address", "n": "a number", "0": "neither an address nor a number"}
    for fname, what in (("parse_addr", "address argument"), ("parse_subnet", "mask or prefix argument")):
        fn = free_fn(ctx, fname)
        for kind, lang in cells:
            I = ctx.engine()
            s = text.txt_in("a", lang)
            v = text.number(s, 10)
            for st, ok, p in res_paths(I, run_all(ctx, I, fn, [s])):
                d = "a text that is %s" % names[kind]
                if ok is None:
                    ctx.undecided(what, "%s: result %r" % (d, p), where(fn))
                    continue
                if kind in "46":
                    w = 32 if kind == "4" else 128
                    if not ok:
                        ctx.fail(what + " is accepted", st.facts, d + " is rejected", where(fn))
                        continue
                    a = enum_field(I, st, p)
                    if not I.is_addr(a):
                        ctx.fail(what + " has the right kind", st.facts, "%s: yields %r" % (d, a), where(fn)) if isinstance(a, Lin) else \
                            ctx.undecided(what, "%s: yields %r" % (d, a), where(fn))
                        continue
                    if ctx.prove(what + " has the right kind", st.facts, D.boolc(a.ty is tys[w]), "%s: yields an %s" % (d, short(a.ty)), where(fn)):
                        ctx.eq_int(what + " value", st.facts, I.addr_int(a), text.addr_value(s, w), d, where(fn))
                elif kind == "n" and fname == "parse_subnet":
                    if ok:
                        a = enum_field(I, st, p)
                        if not isinstance(a, Lin):
                            ctx.fail(what + " has the right kind", st.facts, "%s: yields %r" % (d, a), where(fn))
                            continue
                        ctx.eq_int(what + " value", st.facts, a, v, d, where(fn))
                    else:
                        # numbers that no address width comes near may be refused either way
                        f = st.facts.assume(D.le(v, num(128)))
                        ctx.prove(what + " is accepted", f, FALSE, d + " of at most 128 is rejected", where(fn))
                else:
                    if ok:
                        ctx.fail(what + " is rejected", st.facts, d + " is accepted", where(fn))
                    else:
                        ctx.good(what + " is rejected", where(fn))
            ctx.panics(I)


# ================================================================ lists of specifications

def spec_contract(ctx, specs, w_of):
    """parse_netspec answers for the named texts only: an error, an IPv4 or an IPv6 specification, whichever."""
    tys = {w: ty for ty, w in each_addr(ctx)}

    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name != "parse_netspec":
            return None
        s = I.deref_all(st, args[0])
        n = s.pieces[0][1] if isinstance(s, VStr) and len(s.pieces) == 1 and not isinstance(s.pieces[0], str) else None
        if n not in specs:
            return None
        ok = dty.args[0]
        out = []
        bad = D.pred("specbad", n)
        six = D.pred("spec6", n)
        a, b = st.split(bad)
        if a is not None:
            out.append((a, VAdt(dty, 1, (VSym("specerr(%s)" % n, dty.args[1]),))))
        if b is None:
            return out
        for s2, w in zip(b.split(six), (128, 32)):
            if s2 is None:
                continue
            for i, var in enumerate(ok.variants):
                fs = [ctx.prog.types[f["t"]] for f in var["f"]]
                if len(fs) != 2 or fs[0] not in ctx.prog.addr_types:
                    raise Undecided("shape of network specifications")
                if I.addr_width(fs[0]) != w:
                    continue
                x, net = spec_value(I, fs[1], n)
                out.append((s2, VAdt(dty, 0, (VAdt(ok, i, (x, net)),))))
        return out
    return contract


def spec_value(I, nty, n):
    ty = nty.args[0]
    w = I.addr_width(ty)
    x = D.word("x.%s" % n, w)
    m = D.word("m.%s" % n, w)
    return I.addr_value(ty, x), I.mk_net(nty, D.bitwise("and", x, m, w), m, I.pfx_option(w, m))


@group("speclist", "netspec")
def g_speclist(ctx):
    """Several specifications: same family, in order, all of them."""
    tys = {w: ty for ty, w in each_addr(ctx)}
    fns = [f for f in ctx.prog.find("parse_same_family_netspecs") if f.body]
    fn = ctx.need(fns, "parse_same_family_netspecs")
    for n in range(0, 5):
        I = ctx.engine()
        names = ["s%d" % i for i in range(n)]
        I.models.contracts.insert(0, spec_contract(ctx, names, None))
        items = tuple(txt(x) for x in names)
        for st, ok, v in res_paths(I, run_all(ctx, I, fn, [VRef(VSeq(None, items))])):
            bad = [st.facts.ev(D.pred("specbad", x)) for x in names]
            six = [st.facts.ev(D.pred("spec6", x)) for x in names]
            d = "%d specifications: %s" % (n, ["bad" if b else "undetermined" if b is None else "IPv6" if s else "IPv4" if s is False else "undetermined" for b, s in zip(bad, six)])
            key = "specification list"
            known = [(b, s) for b, s in zip(bad, six) if b is not None]
            if ok is None:
                ctx.undecided(key, "%s: result %r" % (d, v), where(fn))
                continue
            fam = [s for b, s in known if b is False]
            if not ok:
                # some specification is bad
                ctx.prove(key + " is rejected only if one is bad", st.facts, D.boolc(any(b for b, s in known)), d, where(fn))
                continue
            v = I.deref_all(st, v)
            if not isinstance(v, VAdt):
                ctx.undecided(key, "%s: result %r" % (d, v), where(fn))
                continue
            seq = I.deref_all(st, v.fields[0]) if v.fields else None
            if seq is None:
                # empty or mixed families
                mixed = True in fam and False in fam
                vn = v.ty.variants[v.variant]["n"]
                if n == 0:
                    ctx.good(key + " without entries", where(fn))
                    empty = vn
                else:
                    ctx.prove(key + " is mixed only with both families", st.facts, D.boolc(mixed), "%s: yields %s" % (d, vn), where(fn))
                continue
            for b in bad:
                ctx.prove(key + " has no bad entry", st.facts, D.boolc(b is False), "%s: accepted" % d, where(fn))
            if not isinstance(seq, VSeq) or seq.pre is not None:
                ctx.undecided(key, "%s: result %r" % (d, seq), where(fn))
                continue
            ctx.prove(key + " keeps every entry", st.facts, D.boolc(len(seq.items) == n), "%s: %d entries" % (d, len(seq.items)), where(fn))
            if len(seq.items) != n or n == 0:
                continue
            ctx.prove(key + " has one family", st.facts, D.boolc(not (True in six and False in six)), "%s: accepted as %s" % (d, v.ty.variants[v.variant]["n"]), where(fn))
            for i, e in enumerate(seq.items):
                e = I.deref_all(st, e)
                if not isinstance(e, VTuple) or len(e.items) != 2 or not I.is_addr(e.items[0]):
                    ctx.undecided(key, "%s: entry %r" % (d, e), where(fn))
                    continue
                a, net = e.items
                want_a, want_n = spec_value(I, net.ty, names[i])
                ctx.prove(key + " keeps the family", st.facts, D.boolc((I.addr_width(a.ty) == 128) == bool(six[i])), "%s: entry %d is %s" % (d, i, short(a.ty)), where(fn))
                ctx.eq_int(key + " keeps addresses in order", st.facts, I.addr_int(a), I.addr_int(want_a), "%s: entry %d" % (d, i), where(fn))
                for g, h in ((net.fields[ctx.prog.net_info["base"]], want_n.fields[ctx.prog.net_info["base"]]), (net.fields[ctx.prog.net_info["mask"]], want_n.fields[ctx.prog.net_info["mask"]])):
                    ctx.eq_int(key + " keeps networks in order", st.facts, I.addr_int(g), I.addr_int(h), "%s: entry %d" % (d, i), where(fn))
        ctx.panics(I)


# ================================================================ output

def plain(I, st, s):
    """The text with styling removed and formatted texts put in place."""
    out = []
    for p in s.pieces:
        if not isinstance(p, str) and p[0] == "d" and len(p) == 2:
            v = I.deref_all(st, p[1])
            while isinstance(v, VOp) and v.kind == "styled":
                v = I.deref_all(st, v.args[0])
            if isinstance(v, VStr):
                out.append(plain(I, st, v))
                continue
            out.append(VStr((("d", v),)))
        else:
            out.append(VStr((p,)))
    return cat(*out) if out else VStr(())


def known(s):
    return isinstance(s, VStr) and not any(not isinstance(p, str) and p[0] == "unknown" for p in s.pieces)


def only_err(ctx, key, s, d, wh):
    """Something is on standard error and nothing on standard output."""
    o, e = s.ghost["out"], s.ghost["err"]
    if not (known(o) and known(e)):
        ctx.undecided(key, "%s: what is printed is not known" % d, wh)
        return
    ctx.prove(key, s.facts, D.boolc(bool(e.pieces) and not o.pieces), "%s: prints %s to standard output, %s to standard error" % (d, show(o), show(e)), wh)


def record(I, st0=None):
    """Collect what is printed, per stream, as two texts that travel with the state."""
    st = (st0 or State()).copy()
    st.ghost["out"] = VStr(())
    st.ghost["err"] = VStr(())

    def on_print(I, st, fr, stream, s, sp):
        r = st.copy()
        r.ghost[stream] = cat(st.ghost.get(stream, VStr(())), plain(I, st, s))
        return r
    I.models.on_print = on_print
    return st


def padded(I, st, t, n):
    """[(state, text)]: t padded at the end to n characters (at the beginning for negative n)."""
    ln = I.str_len(t)
    out = []
    for s, side in ((st.assume(D.lt(ln, n)), 1), (st.assume(D.b_and(D.le(n, ln), D.le(n.scale(-1), ln))), 0), (st.assume(D.lt(ln, n.scale(-1))), -1)):
        if s is None:
            continue
        if side == 0:
            out.append((s, t))
        elif side == 1:
            out.append((s, cat(t, VStr((("rep", " ", n - ln),)))))
        else:
            out.append((s, cat(VStr((("rep", " ", n.scale(-1) - ln),)), t)))
    return out


@group("padding")
def g_padding(ctx):
    """Coloured, padded output: the text, padded with spaces to the width, whatever the colour."""
    fns = [f for f in ctx.prog.find("write_in_color") if f.body]
    ctx.need(fns, "write_in_color")
    for fn in fns:
        cty = ctx.prog.types[fn.body["locals"][2]]
        variants = cty.args[0].variants
        for c in range(-1, len(variants)):
            I = ctx.engine()
            st = record(I)
            t = txt("t", rx.cs("".join(chr(i) for i in range(32, 127))), 0)
            n = D.sym("n", -10000, 10000)
            st = st.assume(D.le(I.str_len(t), num(1 << 30)))
            col = VAdt(cty, 0, ()) if c < 0 else VAdt(cty, 1, (VAdt(cty.args[0], c, ()),))
            for s, r in run_all(ctx, I, fn, [t, col, n], st):
                for s2, want in padded(I, s, t, n):
                    eq_text(ctx, "padded output", s2.facts, s2.ghost["out"], want, "text t padded to n%s" % ("" if c < 0 else " in colour " + variants[c]["n"]), where(fn))
                eq_text(ctx, "padded output goes to standard output", s.facts, s.ghost["err"], VStr(()), "error output", where(fn))
            ctx.panics(I)


@group("bits")
def g_bits(ctx):
    """Bytes as bits, as binary text, and back."""
    fb = ctx.need([f for f in ctx.prog.find("bytes_to_bits") if f.body], "bytes_to_bits")
    ft = ctx.need([f for f in ctx.prog.find("bytes_to_binary") if f.body], "bytes_to_binary")
    fr_ = ctx.need([f for f in ctx.prog.find("bits_to_bytes") if f.body], "bits_to_bytes")
    for n in list(range(0, 9)) + [16, 17]:
        I = ctx.engine()
        x = D.word("x", 8 * n) if n else num(0)
        items = tuple(D.seg(x, 8 * (n - i - 1), 8) for i in range(n))
        bits = [D.bit_of(x, 8 * n - 1 - i) for i in range(8 * n)]
        d = "%d bytes" % n
        for st, r in run_all(ctx, I, fb, [VRef(VSeq(None, items))]):
            r = I.deref_all(st, r)
            if not isinstance(r, VSeq) or r.pre is not None or not all(isinstance(i, BF) for i in r.items):
                ctx.undecided("bytes as bits", "%s: result %r" % (d, r), where(fb))
                continue
            if ctx.prove("bytes as bits: number of bits", st.facts, D.boolc(len(r.items) == 8 * n), "%s: %d bits" % (d, len(r.items)), where(fb)):
                g = TRUE
                for a, b in zip(r.items, bits):
                    ctx.prove("bytes as bits: most significant bit first", st.facts, D.b_not(D.b_xor(a, b)), d, where(fb))
        for st, r in run_all(ctx, I, ft, [VRef(VSeq(None, items))]):
            eq_text(ctx, "bytes as binary text", st.facts, I.deref_all(st, r), cat(*[bits_text(i, 8) for i in items]), d, where(ft))
        ctx.panics(I)
    for n in list(range(0, 42)) + [128]:
        I = ctx.engine()
        bits = tuple(D.bvar(D.atom("pred", ("bit", i), 0, 1)) for i in range(n))
        d = "%d bits" % n
        for st, r in run_all(ctx, I, fr_, [VRef(VSeq(None, bits))]):
            r = I.deref_all(st, r)
            if not isinstance(r, VSeq) or r.pre is not None:
                ctx.undecided("bits as bytes", "%s: result %r" % (d, r), where(fr_))
                continue
            k = -(-n // 8)
            if ctx.prove("bits as bytes: number of bytes", st.facts, D.boolc(len(r.items) == k), "%s: %d bytes" % (d, len(r.items)), where(fr_)):
                for j, a in enumerate(r.items):
                    if not isinstance(a, Lin):
                        ctx.undecided("bits as bytes", "%s: byte %r" % (d, a), where(fr_))
                        continue
                    want = num(0)
                    for i in range(8):
                        if 8 * j + i < n:
                            want = want + D.ite_int(bits[8 * j + i], num(1 << (7 - i)), num(0))
                    ctx.eq_int("bits as bytes: most significant bit first, padded with zeros", st.facts, a, want, "%s: byte %d" % (d, j), where(fr_))
        ctx.panics(I)


def bits_contract(ctx, I):
    """Binary text of a list of bytes (shown by the group bits)."""
    if not allowed(ctx, "bits"):
        return

    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name != "bytes_to_binary":
            return None
        v = I.deref_all(st, args[0])
        items = v.items if isinstance(v, VArr) or isinstance(v, VSeq) and v.pre is None else None
        if items is None or len(items) > 16 or not all(isinstance(i, Lin) for i in items):
            return None
        return [(st, cat(*[bits_text(i, 8) for i in items]))]
    I.models.contracts.insert(0, contract)


def allowed(ctx, kind):
    return getattr(ctx.prog, "contract_ok", {}).get(kind, True)


def print_contract(ctx, I):
    """write_in_color prints its padded text (shown by the group padding)."""
    if not allowed(ctx, "print"):
        return

    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name != "write_in_color" or "out" not in st.ghost:
            return None
        t = I.deref_all(st, args[0])
        n = args[2]
        if isinstance(t, Lin) or not isinstance(t, VStr) or not isinstance(n, Lin):
            return None
        out = []
        for s, x in padded(I, st, plain(I, st, t), n):
            s = s.copy()
            s.ghost["out"] = cat(s.ghost["out"], x)
            out.append((s, UNIT_TY_VALUE))
        return out
    I.models.contracts.insert(0, contract)


UNIT_TY_VALUE = UNIT
DERIVED = ("first_host_addr", "last_host_addr", "broadcast_addr", "last_addr_of_subnet", "next_subnet_base_addr")


def net_parts(I, st, v):
    """(width, base, mask, prefix length or None) of a network value as the constructors build it."""
    v = I.deref_all(st, v)
    info = I.prog.net_info
    if not isinstance(v, VAdt) or v.ty.path != info["path"]:
        return None
    b, m = I.deref_all(st, v.fields[info["base"]]), I.deref_all(st, v.fields[info["mask"]])
    if not (I.is_addr(b) and I.is_addr(m)):
        return None
    w = I.addr_width(b.ty)
    b, m = I.addr_int(b), I.addr_int(m)
    if D.bitwise("and", b, m, w) != b:
        return None
    a = m.single()
    if a is not None and a.kind == "mask" and a.args[0] == w:
        return w, b, m, a.args[1]
    if m.const:
        for p in range(w + 1):
            if m.c == ((1 << p) - 1) << (w - p):
                return w, b, m, num(p)
        return w, b, m, None
    if st.facts.ev(D.pred("contig", m)) is False:
        return w, b, m, None
    return None


def derived_value(st, name, w, b, m, p):
    """(condition of presence, value): the meaning of the derived addresses (group net_derived)."""
    full = (1 << w) - 1
    hosts = num(full) - m
    q = pop_of(m, w) if p is None else p
    low = num(1) if p is not None else C.weave(st, num(1), m, w)
    last = b + hosts
    if name == "first_host_addr":
        return D.le(q, num(w - 2)), b + low
    if name == "last_host_addr":
        return D.le(q, num(w - 2)), last - low
    if name == "broadcast_addr":
        return D.le(q, num(w - 1)), last
    if name == "last_addr_of_subnet":
        return TRUE, last
    nx = (b + hosts if p is not None else C.unravel(st, b, m, w) + num(full) - D.mask_word(w, q)) + num(1)
    return D.le(nx, num(full)), nx if p is not None else C.weave(st, nx, m, w)


def derived_contract(ctx, I):
    """Derived addresses and counts of a network (shown by the groups net_derived and count)."""
    def contract(I, st, fr, inst, callee, args, dty, sp):
        k = "derived" if inst.name in DERIVED else "count" if inst.name in ("address_count", "host_count") else None
        if k is None or not allowed(ctx, k) or not args:
            return None
        n = net_parts(I, st, args[0])
        if n is None:
            return None
        w, b, m, p = n
        if k == "count":
            q = pop_of(m, w) if p is None else p
            return [(st, D.pow2(num(w) - q) - (2 if inst.name == "host_count" else 0))]
        aty = dty if inst.name == "last_addr_of_subnet" else dty.args[0]
        out = []
        for s, hit in splits(st, derived_value(st, inst.name, w, b, m, p)[0]):
            if not hit:
                out.append((s, VAdt(dty, 0, ())))
                continue
            x = derived_value(s, inst.name, w, b, m, p)[1]
            v = I.addr_value(aty, x)
            # the value fits its width, so its parts make up the whole
            s = s.assume(D.eq(I.addr_int(v), x))
            if s is None:
                continue
            out.append((s, v if aty is dty else VAdt(dty, 1, (v,))))
        return out
    I.models.contracts.insert(0, contract)


def ctor_contract(ctx, I):
    """Networks made from an address and a prefix length or known mask (shown by the group net_ctor)."""
    if not allowed(ctx, "ctor"):
        return

    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name not in ("new_with_prefix", "new_with_mask") or len(args) != 2 or dty.k != "adt" or dty.path != I.prog.net_info["path"]:
            return None
        a, y = I.deref_all(st, args[0]), I.deref_all(st, args[1])
        if not I.is_addr(a):
            return None
        w = I.addr_width(a.ty)
        if inst.name == "new_with_mask":
            if not I.is_addr(y) or not I.addr_int(y).const:
                return None
            m = I.addr_int(y)
            po = I.pfx_option(w, m)
        else:
            if not isinstance(y, Lin) or st.facts.ev(D.b_and(D.le(num(0), y), D.le(y, num(w)))) is not True:
                return None
            m = D.mask_word(w, y)
            po = VAdt(I.prog.net_info["opt_ty"], 1, (y,))
        return [(st, I.mk_net(dty, D.bitwise("and", I.addr_int(a), m, w), m, po))]
    I.models.contracts.insert(0, contract)


def arith_contract(ctx, I):
    """Exact sums and differences of addresses (shown by the group arith)."""
    if not allowed(ctx, "arith"):
        return

    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name not in ("add_addr", "subtract_addr", "add_offset", "subtract_offset") or len(args) != 2:
            return None
        a, b = I.deref_all(st, args[0]), I.deref_all(st, args[1])
        if not I.is_addr(a):
            return None
        w = I.addr_width(a.ty)
        y = I.addr_int(b) if I.is_addr(b) else b
        if not isinstance(y, Lin):
            return None
        x = I.addr_int(a)
        r = x + y if inst.name.startswith("add") else x - y
        out = []
        for s, fits in splits(st, D.le(r, num((1 << w) - 1))):
            if not fits:
                out.append((s, VAdt(dty, 0, ())))
                continue
            for s, fits in splits(s, D.le(num(0), r)):
                if not fits:
                    out.append((s, VAdt(dty, 0, ())))
                    continue
                v = I.addr_value(a.ty, r)
                s = s.assume(D.eq(I.addr_int(v), r))
                if s is not None:
                    out.append((s, VAdt(dty, 1, (v,))))
        return out
    I.models.contracts.insert(0, contract)


def bin_text(w, x):
    """Binary form of an address: bytes separated by dots, or groups of 16 bits by colons."""
    n = 8 if w == 32 else 16
    return sep_join("." if w == 32 else ":", [bits_text(D.seg(x, w - n * (i + 1), n), n) for i in range(w // n)])


def bits_text(v, n):
    out = []
    bs = D.to_bits(v, n)
    for b in reversed(bs):
        out.append(VStr((("char", num(48) + D.ite_int(b, num(1), num(0))),)))
    return cat(*out)


@group("binary", "padding", "bytes")
def g_binary(ctx):
    """The binary column shows the bits of the address, whatever the mask and the colours."""
    tys = {w: ty for ty, w in each_addr(ctx)}
    for fn in [f for f in ctx.prog.find_prefix("output_binary_")] if hasattr(ctx.prog, "find_prefix") else [f for n in ("output_binary_ipv4_address", "output_binary_ipv6_address") for f in ctx.prog.find(n) if f.body]:
        aty = ctx.prog.types[fn.body["locals"][1]]
        w = 32 if aty is tys[32] else 128
        oty, bty, cty = (ctx.prog.types[fn.body["locals"][i]] for i in (2, 3, 4))
        for mode in ("plain", "override", "mask", "maskclass"):
            I = ctx.engine()
            st = record(I)
            print_contract(ctx, I)
            x = D.word("x", w)
            a = I.addr_value(aty, x)
            m = VAdt(oty, 1, (I.addr_value(aty, D.word("m", w)),)) if mode.startswith("mask") else VAdt(oty, 0, ())
            col = VAdt(cty, 1, (VAdt(cty.args[0], 3, ()),)) if mode == "override" else VAdt(cty, 0, ())
            for s, r in run_all(ctx, I, fn, [a, m, D.boolc(mode == "maskclass"), col], st):
                eq_text(ctx, "binary column %s" % short(aty), s.facts, s.ghost["out"], bin_text(w, x), "binary form of x (%s)" % mode, where(fn))
            ctx.panics(I)


def binary_contract(ctx, I):
    """The binary column as one piece (shown by the group binary)."""
    if not allowed(ctx, "binary"):
        return

    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name not in ("output_binary_ipv4_address", "output_binary_ipv6_address") or "out" not in st.ghost:
            return None
        a = I.deref_all(st, args[0])
        if not I.is_addr(a):
            return None
        s = st.copy()
        s.ghost["out"] = cat(s.ghost["out"], bin_piece(I.addr_width(a.ty), I.addr_int(a)))
        return [(s, UNIT_TY_VALUE)]
    I.models.contracts.insert(0, contract)


def norm_addr(w, x):
    """The integer of an address as it looks after having been stored in halves."""
    if w == 128:
        return D.seg(x, 64, 64).scale(1 << 64) + D.seg(x, 0, 64)
    return x


def bin_piece(w, x):
    x = norm_addr(w, x)
    return VStr((("bin", w, x),))


def addr_piece(w, x):
    x = norm_addr(w, x)
    return VStr((("addr", w, x),))


def dec_piece(l):
    return lit(str(l.c)) if l.const else VStr((("d", l),))


def splits(st, cond):
    """[(state, bool)]"""
    t, f = st.split(cond)
    return ([(t, True)] if t is not None else []) + ([(f, False)] if f is not None else [])


@group("netdisp", "cidr_prefix", "cidr_mask", "disp4", "disp6")
def g_netdisp(ctx):
    """A network is written as base address, slash, and prefix length or (mixed mask) mask."""
    from .textgroups import display_of
    for ty, w in each_addr(ctx):
        for kind in ("prefix", "contig", "mixed"):
            I = ctx.engine()
            for st, v, x, m, p in nets(ctx, I, ty, kind):
                b = D.bitwise("and", x, m, w)
                fn, rs = display_of(ctx, I, v.ty, v, st)
                for s, t, r in rs:
                    want = cat(addr_piece(w, b), lit("/"), dec_piece(p) if p is not None else addr_piece(w, m))
                    eq_text(ctx, "%s network as text" % short(ty), s.facts, t, want, "display of a network (%s)" % kind, where(fn))
            ctx.panics(I)


def column(I, st, t, n):
    """t padded to n characters; the text is known to be shorter."""
    out = padded(I, st, t, num(n))
    if len(out) != 1:
        raise Undecided("column width")
    return out[0][1]


LABEL, COL = 11, {32: 21, 128: 46}
CLASSES = [("Class A", "0"), ("Class B", "10"), ("Class C", "110"), ("Class D (multicast)", "1110"), ("Class E (reserved)", "1111")]


def row(I, st, w, label, t, x):
    return cat(column(I, st, lit(label), LABEL), column(I, st, t, COL[w]), bin_piece(w, x), lit("\n"))


def class_cases(st, w, b, m):
    """[(state, text)] of the address class of a network with base b and mask m."""
    if w != 32:
        return [(st, lit(""))]
    out, rest = [], [st]
    for name, bits in CLASSES:
        c = TRUE
        for i, d in enumerate(bits):
            c = D.b_and(c, D.bit_of(m, 31 - i))
            y = D.bit_of(b, 31 - i)
            c = D.b_and(c, y if d == "1" else D.b_not(y))
        nx = []
        for s in rest:
            for s2, hit in splits(s, c):
                if hit:
                    out.append((s2, lit(name)))
                else:
                    nx.append(s2)
        rest = nx
    return out + [(s, lit("")) for s in rest]


def report(I, st, w, x, b, m, p, full_report):
    """[(state, text)]: what the tool prints about a network, from the meaning of its parts."""
    full = (1 << w) - 1
    hosts = num(full) - m
    q = pop_of(m, w) if p is None else p
    low = C.weave(st, num(1), m, w) if p is None else num(1)
    out = []
    head = []
    if full_report:
        mt = addr_piece(w, m) if p is None else cat(addr_piece(w, m), lit(" = "), dec_piece(p))
        head = [row(I, st, w, "Address:", addr_piece(w, x), x), row(I, st, w, "Netmask:", mt, m),
                row(I, st, w, "Wildcard:", addr_piece(w, hosts), hosts), lit("=>\n")]
    head.append(row(I, st, w, "Network:", addr_piece(w, b) if p is None else cat(addr_piece(w, b), lit("/"), dec_piece(p)), b))
    for s1, two in splits(st, D.le(q, num(w - 2))):
        for s2, one in splits(s1, D.le(q, num(w - 1))):
            body = []
            last = b + hosts
            if two:
                body += [row(I, s2, w, "HostMin:", addr_piece(w, b + low), b + low), row(I, s2, w, "HostMax:", addr_piece(w, last - low), last - low)]
            else:
                body.append(lit("no hosts\n"))
            if one:
                body.append(row(I, s2, w, "Broadcast:", addr_piece(w, last), last))
            else:
                body.append(lit("no broadcast\n"))
            if two:
                n = D.pow2(num(w) - q) - 2
                for s3, cl in class_cases(s2, w, b, m):
                    out.append((s3, cat(*(head + body + [column(I, s3, lit("Hosts/Net:"), LABEL), column(I, s3, dec_piece(n), COL[w]), cl, lit("\n")]))))
            else:
                out.append((s2, cat(*(head + body + [lit("no hosts/net\n")]))))
    return out


@group("report", "bits", "net_derived", "count", "netdisp", "binary", "disp4", "disp6")
def g_report(ctx):
    """Every line of the report carries the value its label names."""
    for ty, w in each_addr(ctx):
        fn = ctx.need([f for n in ("output_ipv4_network", "output_ipv6_network") for f in ctx.prog.find(n) if f.body and ctx.prog.types[f.body["locals"][1]].args[:1] == [ty]],
                      "report for %s" % short(ty))
        oty = ctx.prog.types[fn.body["locals"][2]]
        for kind in ("prefix", "mixed"):
            for full_report in (True, False):
                I = ctx.engine()
                print_contract(ctx, I)
                binary_contract(ctx, I)
                derived_contract(ctx, I)
                bits_contract(ctx, I)
                for st, v, x, m, p in nets(ctx, I, ty, kind):
                    b = D.bitwise("and", x, m, w)
                    for s1, want in report(I, record(I, st), w, x, b, m, p, full_report):
                        a = VAdt(oty, 1, (I.addr_value(ty, x),)) if full_report else VAdt(oty, 0, ())
                        for s, r in run_all(ctx, I, fn, [v, a], s1):
                            eq_text(ctx, "report on %s networks (%s)" % (short(ty), "prefix" if p is not None else "mixed mask"), s.facts, s.ghost["out"], want,
                                    "report on a network", where(fn))
                            eq_text(ctx, "report goes to standard output", s.facts, s.ghost["err"], VStr(()), "error output", where(fn))
                ctx.panics(I)


# ================================================================ colours

STYLES = {"Black": "black", "DarkBlue": "blue", "DarkGreen": "green", "DarkCyan": "cyan", "DarkRed": "red", "DarkMagenta": "magenta", "DarkYellow": "yellow", "Gray": "white",
          "DarkGray": "bright black", "Blue": "bright blue", "Green": "bright green", "Cyan": "bright cyan", "Red": "bright red", "Magenta": "bright magenta",
          "Yellow": "bright yellow", "White": "bright white"}
NET_BITS, HOST_BITS, CLASS_BITS, MASK_BITS = "Green", "Yellow", "Magenta", "Red"


def colour_name(I, st, v):
    """The name of an optional colour ("" for none), or None if it is not known."""
    v = I.deref_all(st, v)
    if not isinstance(v, VAdt) or not isinstance(v.variant, int):
        return None
    if v.variant == 0:
        return ""
    c = I.deref_all(st, v.fields[0])
    if isinstance(c, VAdt) and isinstance(c.variant, int) and c.ty.variants:
        return c.ty.variants[c.variant]["n"]
    return None


def on_colour(ctx, I, see):
    """see(state, text, colour name, padding, place) for everything printed in colour; its text goes to ghost "out"."""
    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name != "write_in_color" or len(args) != 3 or "out" not in st.ghost:
            return None
        t = I.deref_all(st, args[0])
        if not isinstance(t, VStr) or not isinstance(args[2], Lin):
            return None
        t = plain(I, st, t)
        see(st, t, colour_name(I, st, args[1]), args[2])
        s = st.copy()
        s.ghost["out"] = cat(s.ghost["out"], t)
        return [(s, UNIT_TY_VALUE)]
    I.models.contracts.insert(0, contract)


def chars_of(s):
    """Number of characters of a text made of literals and single characters, else None."""
    n = 0
    for p in s.pieces:
        if isinstance(p, str):
            n += len(p)
        elif p[0] in ("char", "ch"):
            n += 1
        elif p[0] == "d" and len(p) == 2 and isinstance(p[1], Lin):
            n += 1
        else:
            return None
    return n


def class_bits(w, x, m):
    """For each of the first four bits: the condition under which it is one that the class of the network is read from."""
    out = []
    X, M = (lambda i: D.bit_of(x, w - 1 - i)), (lambda i: D.bit_of(m, w - 1 - i))
    whole = []      # (bits looked at, condition)
    pre = TRUE
    for k in range(4):
        last = k == 3
        c = D.b_and(pre, M(k)) if last else D.b_and(D.b_and(pre, M(k)), D.b_not(X(k)))
        whole.append((k + 1, c))
        pre = D.b_and(D.b_and(pre, M(k)), X(k))
    for i in range(4):
        c = FALSE
        for k, g in whole:
            if i < k:
                c = D.b_or(c, g)
        out.append(c)
    return out


@group("colours", "bytes")
def g_colours(ctx):
    """Names of colours, and which bits are shown in which."""
    # names and terminal styles
    fns = [f for f in ctx.prog.find("write_in_color") if f.body]
    ctx.need(fns, "write_in_color")
    for fn in fns:
        cty = ctx.prog.types[fn.body["locals"][2]]
        variants = cty.args[0].variants
        for c in range(-1, len(variants)):
            name = "" if c < 0 else variants[c]["n"]
            if name and name not in STYLES:
                continue
            I = ctx.engine()
            st = record(I)

            def on_print(I, st, fr, stream, s, sp, name=name):
                known_ = True
                on = st.facts.ev(D.pred("colors_enabled"))
                for p in s.pieces:
                    if isinstance(p, str) or p[0] != "d" or len(p) != 2:
                        continue
                    v = I.deref_all(st, p[1])
                    if isinstance(v, VOp) and v.kind == "styled":
                        got = " ".join(v.args[1])
                        ctx.prove("colours: each name stands for its terminal colour", st.facts, D.boolc(name != "" and sorted(v.args[1]) == sorted(STYLES[name].split())),
                                  "%s is shown %s" % (name or "no colour", got or "plain"), where(fn))
                        ctx.prove("colours: none when they are off", st.facts, D.pred("colors_enabled"), "styled though colours are off", where(fn))
                        known_ = False
                if known_ and name and s.pieces:
                    ctx.prove("colours: used when they are on", st.facts, D.b_not(D.pred("colors_enabled")), "%s is not shown though colours are on" % name, where(fn))
                return st
            I.models.on_print = on_print
            t = txt("t", rx.cs("".join(chr(i) for i in range(32, 127))), 1)
            st = st.assume(D.le(I.str_len(t), num(1 << 30)))
            col = VAdt(cty, 0, ()) if c < 0 else VAdt(cty, 1, (VAdt(cty.args[0], c, ()),))
            run_all(ctx, I, fn, [t, col, num(0)], st)
    bit_colours(ctx)
    line_colours(ctx)


def class_cases_of(w, x, m):
    """Up to where the bits of the class go, and whether the mask covers them."""
    cases, pre = [], TRUE
    for k in range(4):
        mb, xb = D.bit_of(m, w - 1 - k), D.bit_of(x, w - 1 - k)
        cases.append(D.b_and(pre, D.b_not(mb)))
        cases.append(D.b_and(D.b_and(pre, mb), D.b_not(xb)))
        pre = D.b_and(D.b_and(pre, mb), xb)
    return cases + [pre]


def bit_colour(mode, name, w, bit, m, cls):
    """The condition under which a bit is rightly shown in the given colour."""
    if mode == "plain":
        return D.boolc(name == HOST_BITS)
    if mode == "override":
        return D.boolc(name == MASK_BITS)
    net = D.bit_of(m, w - 1 - bit)
    c = cls[bit] if bit < len(cls) else FALSE
    if name == CLASS_BITS:
        return c
    if name == NET_BITS:
        return D.b_and(net, D.b_not(c))
    if name == HOST_BITS:
        return D.b_and(D.b_not(net), D.b_not(c))
    return FALSE


def bit_colours(ctx):
    tys = {w: ty for ty, w in each_addr(ctx)}
    for fn in [f for n in ("output_binary_ipv4_address", "output_binary_ipv6_address") for f in ctx.prog.find(n) if f.body]:
        aty = ctx.prog.types[fn.body["locals"][1]]
        w = 32 if aty is tys[32] else 128
        if len(fn.body["locals"]) < 5 or fn.body.get("arg_count", 4) != 4:
            continue
        oty, bty, cty = (ctx.prog.types[fn.body["locals"][i]] for i in (2, 3, 4))
        g = 8 if w == 32 else 16
        for mode in ("plain", "override", "mask", "maskclass"):
            I = ctx.engine()
            st = record(I)
            x, m = D.word("x", w), D.word("m", w)
            cls = class_bits(w, x, m) if mode == "maskclass" and w == 32 else []

            def see(st, t, name, pad):
                key, wh = "colours: bits of %s" % short(aty), where(fn)
                at, n = chars_of(st.ghost["out"]), chars_of(t)
                if at is None or n is None or name is None:
                    return ctx.undecided(key, "%s in %r" % (show(t), name), wh)
                for i in range(at, at + n):
                    bit = i // (g + 1) * g + i % (g + 1)
                    if i % (g + 1) != g and bit < w:
                        ctx.prove(key, st.facts, bit_colour(mode, name, w, bit, m, cls), "bit %d from the left (%s) is shown in %s" % (bit, mode, name or "no colour"), wh)
            on_colour(ctx, I, see)
            mv = VAdt(oty, 1, (I.addr_value(aty, m),)) if mode.startswith("mask") else VAdt(oty, 0, ())
            red = next((i for i, v in enumerate(cty.args[0].variants) if v["n"] == MASK_BITS), 0)
            col = VAdt(cty, 1, (VAdt(cty.args[0], red, ()),)) if mode == "override" else VAdt(cty, 0, ())
            for c in class_cases_of(w, x, m) if cls else [TRUE]:
                s0 = st.assume(c)
                if s0 is not None:
                    run_all(ctx, I, fn, [I.addr_value(aty, x), mv, D.boolc(mode == "maskclass"), col], s0)


LINES = {"Address:": "mask", "Netmask:": "override", "Network:": "maskclass", "Wildcard:": "plain", "HostMin:": "plain", "HostMax:": "plain", "Broadcast:": "plain"}


def line_colours(ctx):
    """The bits on each line of a report."""
    for ty, w in each_addr(ctx):
        fns = [f for n in ("output_ipv4_network", "output_ipv6_network") for f in ctx.prog.find(n) if f.body and ctx.prog.types[f.body["locals"][1]].args[:1] == [ty]]
        if not fns:
            continue
        fn = fns[0]
        oty = ctx.prog.types[fn.body["locals"][2]]
        g = 8 if w == 32 else 16
        for full_report in (True, False):
            I = ctx.engine()
            st = record(I)
            print0 = I.models.on_print

            def on_print(I, st, fr, stream, s, sp):
                r = print0(I, st, fr, stream, s, sp)
                if any(isinstance(p, str) and "\n" in p for p in s.pieces):
                    r.ghost["line"] = ()
                return r
            I.models.on_print = on_print
            st.ghost["line"] = ()
            derived_contract(ctx, I)
            ctor_contract(ctx, I)
            bits_contract(ctx, I)
            for s0, v, x, m, p in nets(ctx, I, ty, "any"):
                s0 = s0.copy()
                s0.ghost.update(st.ghost)
                b = D.bitwise("and", x, m, w)
                cls = class_bits(w, b, m) if w == 32 else []
                key, wh = "colours: lines of the report on %s networks" % short(ty), where(fn)

                def contract(I, st, fr, inst, callee, args, dty, sp):
                    if inst.name != "write_in_color" or len(args) != 3 or "out" not in st.ghost or not isinstance(st.ghost.get("line"), tuple):
                        return None
                    t = I.deref_all(st, args[0])
                    if not isinstance(t, VStr):
                        return None
                    t = plain(I, st, t)
                    line = st.ghost["line"]
                    s = st.copy()
                    s.ghost["out"] = cat(s.ghost["out"], t)
                    if not line:
                        lab = t.pieces[0] if len(t.pieces) == 1 and isinstance(t.pieces[0], str) else None
                        s.ghost["line"] = (lab, None)
                    elif line[1] is None:
                        s.ghost["line"] = (line[0], 0)
                    else:
                        name, n, at = colour_name(I, st, args[1]), chars_of(t), line[1]
                        s.ghost["line"] = (line[0], at + n) if n is not None else (None, 0)
                        mode = LINES.get(line[0])
                        if mode is not None and (n is None or name is None):
                            ctx.undecided(key, "%s in %r" % (show(t), name), wh)
                        elif mode is not None:
                            for i in range(at, at + n):
                                bit = i // (g + 1) * g + i % (g + 1)
                                if i % (g + 1) != g and bit < w:
                                    ctx.prove(key, st.facts, bit_colour(mode, name, w, bit, m, cls if mode == "maskclass" else []),
                                              "%s bit %d from the left is shown in %s" % (line[0], bit, name or "no colour"), wh)
                    return [(s, UNIT_TY_VALUE)]
                I.models.contracts.insert(0, contract)
                for c in class_cases_of(w, b, m) if cls else [TRUE]:
                    s1 = s0.assume(c)
                    if s1 is not None:
                        a = VAdt(oty, 1, (I.addr_value(ty, x),)) if full_report else VAdt(oty, 0, ())
                        run_all(ctx, I, fn, [v, a], s1)
                I.models.contracts.pop(0)
