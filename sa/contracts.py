"""Summaries of four helper functions, each justified by an obligation group of its own (see
groups.G_cidr and groups.G_perm): a summary is only installed when its group has been discharged on
the current source, otherwise calls to the helper are treated as unmodelled.

  prefix_from_subnet_mask_bytes(bytes of m)     = Some(p) iff m is the p-bit left-contiguous mask
  subnet_mask_bytes_from_prefix(p, n)           = bytes of the p-bit left-contiguous mask, p <= 8n
  unravel_address(x, m) / weave_address(x, m)   = the stable bit permutation that sorts the bits
                                                  selected by m to the front, and its inverse
"""
from . import dom as D
from .dom import Lin, BF, num, TRUE, FALSE
from .interp import VAdt, VSeq, VOp, VStr, VSym, Undecided
from . import text

NAMES = {
    "prefix_from_subnet_mask_bytes": "prefix",
    "subnet_mask_bytes_from_prefix": "mask",
    "unravel_address": "unravel",
    "weave_address": "weave",
}


def seq_bytes(I, st, v):
    v = I.deref_all(st, v)
    if isinstance(v, VSeq) and v.pre is None and all(isinstance(x, Lin) for x in v.items):
        return list(v.items)
    return None


def be(items):
    r = num(0)
    for x in items:
        r = r.scale(256) + x
    return r


# ------------------------------------------------------------ permutation algebra

def _as_basis(l, w):
    """(constant multiple of all-ones, [(coef, frozenset of word atoms)]) or None."""
    full = (1 << w) - 1
    if l.c % full:
        return None
    out = []
    for a, k in l.terms:
        if a.w != w:
            return None
        out.append((k, a.args[0] if a.kind == "and" else frozenset([a])))
    return l.c // full, out


def word_atom(l):
    return l.single()


def pop_of(m, w):
    return D.pop_seg(m, 0, w)


def unr_word(a, m, w):
    """Unravelled single word atom."""
    ma = word_atom(m)
    if ma is not None and a is ma:
        return D.mask_word(w, pop_of(m, w))
    if a.kind == "wv" and a.args[1] == m:
        return a.args[0]
    return D.of_atom(D.atom("unr", (D.of_atom(a), m), 0, (1 << w) - 1, w))


def wv_word(a, m, w):
    if a.kind == "unr" and a.args[1] == m:
        return a.args[0]
    if a.kind == "mask" and a.args[0] == w and a.args[1] == pop_of(m, w):
        return m
    return D.of_atom(D.atom("wv", (D.of_atom(a), m), 0, (1 << w) - 1, w))


def _dist(l, m, w, f):
    b = _as_basis(l, w)
    if b is None:
        return None
    full = (1 << w) - 1
    r = num(b[0] * full)
    for k, ws in b[1]:
        acc = None
        for a in sorted(ws, key=lambda t: t.uid):
            x = f(a, m, w)
            acc = x if acc is None else D.bitwise("and", acc, x, w)
            if acc is None:
                return None
        r = r + acc.scale(k)
    return r


def permuted(x, m, w, inverse):
    """Network bits of a constant mask first, then host bits (or back), when the bits of x are known."""
    b = D.lin_bounds(x)
    if b[0] is None or b[0] < 0 or b[1] is None or b[1] >> w:
        return None
    bits = D.to_bits(x, w)
    if bits is None or len(bits) != w:
        return None
    order = [i for i in range(w) if not (m >> i) & 1] + [i for i in range(w) if (m >> i) & 1]
    if inverse:
        out = [None] * w
        for i, k in enumerate(order):
            out[k] = bits[i]
    else:
        out = [bits[k] for k in order]
    return D.from_bits(out)


def unravel(st, x, m, w):
    if m.const:
        r = permuted(x, m.c, w, False)
        if r is not None:
            return r
    r = _dist(x, m, w, unr_word)
    if r is not None:
        return r
    a = x.single()
    if a is not None and a.kind == "wv" and a.args[1] == m:
        return a.args[0]
    # a woven form plus constants
    for t, k in x.terms:
        pass
    return D.of_atom(D.atom("unr", (x, m), 0, (1 << w) - 1, w))


def weave(st, x, m, w):
    if m.const:
        r = permuted(x, m.c, w, True)
        if r is not None:
            return r
    r = _dist(x, m, w, wv_word)
    if r is not None:
        return r
    full = (1 << w) - 1
    # x = y + 1 with the lowest bit of y clear, or y - 1 with it set: bits are disjoint
    p = pop_of(m, w)
    for d in (1, -1):
        y = x - d
        if _as_basis(y, w) is None:
            continue
        b = D.lin_bounds(p, st.facts)
        host = b[1] is not None and b[1] < w or st.facts.ev(D.le(p, num(w - 1))) is True
        if not host:
            continue
        if low_bit(st, y, m, w) == (0 if d == 1 else 1):
            ry = _dist(y, m, w, wv_word)
            one = D.of_atom(D.atom("wv", (num(1), m), 0, full, w))
            return ry + one.scale(d)
    return D.of_atom(D.atom("wv", (x, m), 0, full, w))


def low_bit(st, y, m, w):
    """Lowest bit of a bitwise form over words with mask(pop m) as conjunct, when at least one bit of
    m is clear (so the lowest bit of mask(pop m) is 0)."""
    b = _as_basis(y, w)
    p = pop_of(m, w)
    v = b[0]
    for k, ws in b[1]:
        if any(a.kind == "mask" and a.args[1] == p for a in ws):
            continue
        return None
    return v if v in (0, 1) else None


def install(I, M, prog, which):
    ok = {"prefix", "mask", "unravel", "weave", "fromstr32", "fromstr128"} if which is True else set(which)

    def fromstr(I, st, inst, args, dty):
        """Text to address: accepted iff the text is an address, and then with its value."""
        ty = dty.args[0]
        s = I.deref_all(st, args[0])
        if ty not in prog.addr_types or not isinstance(s, VStr):
            return None
        w = I.addr_width(ty)
        kind = "fromstr%d" % w
        if kind not in ok or getattr(prog, "contract_ok", {}).get(kind, True) is False:
            return None
        if text.rel(s, "contains", "+")[0] != "out":
            return None
        c = text.is_addr(s, w)
        a, b = st.split(c)
        out = []
        if a is not None:
            out.append((a, VAdt(dty, 0, (I.addr_value(ty, text.addr_value(s, w)),))))
        if b is not None:
            out.append((b, VAdt(dty, 1, (VSym("aerr(%r)" % (s,), dty.args[1]),))))
        return out

    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name == "from_str" and inst.d.get("impl_trait") == "std::str::FromStr":
            return fromstr(I, st, inst, args, dty)
        if inst.name not in NAMES or "{closure" in inst.path:
            return None
        kind = NAMES[inst.name]
        if kind not in ok:
            return None
        status = getattr(prog, "contract_ok", {}).get(kind, True)
        if status is False:
            return I.unknown_call(fr, st, "unverified summary of " + inst.name, args, dty, sp)
        if kind == "prefix":
            bs = seq_bytes(I, st, args[0])
            if bs is None or len(bs) not in (4, 16):
                return None
            w = 8 * len(bs)
            m = be(bs)
            return [(st, I_pfx(I, dty, w, m, st))]
        if kind == "mask":
            p, n = args[0], args[1]
            if not isinstance(n, Lin) or not n.const or n.c not in (4, 16):
                return None
            w = 8 * n.c
            out = []
            a, b = st.split(D.le(p, num(w)))
            if a is not None:
                mw = D.mask_word(w, p)
                out.append((a, VSeq(None, tuple(D.seg(mw, w - 8 * (i + 1), 8) for i in range(n.c)))))
            if b is not None:
                out.append((b, VSeq(None, tuple(num(255) for i in range(n.c)))))
            return out
        x, m = I.deref_all(st, args[0]), I.deref_all(st, args[1])
        if not (I.is_addr(x) and I.is_addr(m)):
            return None
        w = I.addr_width(x.ty)
        xi, mi = I.addr_int(x), I.addr_int(m)
        if contiguous(st, mi, w):
            return [(st, x)]
        r = (unravel if kind == "unravel" else weave)(st, xi, mi, w)
        v = I.addr_value(x.ty, r)
        # a permutation of bits stays inside the width, so the parts make up the whole
        st = st.assume(D.eq(I.addr_int(v), r))
        return [(st, v)] if st is not None else []

    M.contracts.append(contract)


def contiguous(st, m, w):
    if m.const:
        return any(m.c == ((1 << p) - 1) << (w - p) for p in range(w + 1))
    a = m.single()
    if a is not None and a.kind == "mask" and a.args[0] == w:
        return True
    return st.facts.ev(D.pred("contig", m)) is True


def I_pfx(I, oty, w, m, st):
    if m.const:
        for p in range(w + 1):
            if m.c == ((1 << p) - 1) << (w - p):
                return VAdt(oty, 1, (num(p),))
        return VAdt(oty, 0, ())
    a = m.single()
    if a is not None and a.kind == "mask" and a.args[0] == w:
        return VAdt(oty, 1, (a.args[1],))
    return VOp("pfxopt", (oty, w, m))
