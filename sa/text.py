"""Abstract texts: sequences of literals, numbers in a base, characters and symbolic parts with a
character class.  Operations are answered when every text of the sequence gives the same structural
answer (the same cut points, a definite yes or no); otherwise they fall back to named predicates."""
import functools
from . import dom as D
from . import rx
from .dom import Lin, num, TRUE, FALSE
from .interp import VStr, lit, cat, strlen_of

HEX = rx.cs("0123456789abcdef")


# texts that are parts of other texts: name -> (text, function from its value to the part's); sequences of parts
DERIVED = {}
DERIVED_SEQ = {}
def show_bin(w, x):
    """The binary form of an address."""
    t = format(x, "0%db" % w)
    n = 8 if w == 32 else 16
    return ("." if w == 32 else ":").join(t[i:i + n] for i in range(0, w, n))


# which kinds of values have been shown to be displayed as they should
DISPLAY_OK = {32: True, 128: True}


def show_addr(w, x):
    """The canonical text of an address."""
    if w == 32:
        return ".".join(str(x >> s & 255) for s in (24, 16, 8, 0))
    g = [x >> s & 0xffff for s in range(112, -16, -16)]
    best, i = (0, 0), 0
    while i < 8:
        j = i
        while j < 8 and not g[j]:
            j += 1
        if j - i > best[1]:
            best = (i, j - i)
        i = max(j, i + 1)
    h = ["%x" % y for y in g]
    if not best[1]:
        return ":".join(h)
    return ":".join(h[:best[0]]) + "::" + ":".join(h[best[0] + best[1]:])


def txt(name, mask=rx.FULL, lo=0, hi=None):
    return VStr((("txt", name, mask, lo, hi),))


def txt_in(name, expr):
    """A part whose texts form the regular language given by a Boolean combination of patterns."""
    l = rx.language(expr)
    return VStr((("txt", name, l.mask, l.lo, l.hi, expr),))


def narrow(u, m):
    """A unit known to consist of the given characters only."""
    if isinstance(u, str) or u[0] != "txt" or not u[2] & ~m:
        return u
    if len(u) > 5 and u[5]:
        e = ("and", u[5], ("cls", m))
        l = rx.language(e)
        return ("txt", u[1], l.mask, l.lo, l.hi, e, u) if l.lo is not None else u
    return ("txt", u[1], u[2] & m, u[3], u[4], None, u)


def ndigits(v, base=10):
    v = abs(v)
    n = 1
    while v >= base:
        v //= base
        n += 1
    return n


def piece_class(p):
    """(character mask, least, greatest number of characters) of a piece."""
    k = p[0]
    if k in ("d", "x", "X", "b", "o") and len(p) == 3 and isinstance(p[1], Lin):
        m, lo, hi = piece_class(p[:2])
        fill, al, zero, alt, plus, width, prec = p[2]
        extra = 2 * bool(alt) + bool(plus)
        m |= rx.cs("0" if zero else fill) | (rx.cs("+") if plus else 0) | (rx.cs("xbo0") if alt else 0)
        return m, max(lo, width or 0), None if hi is None else max(hi + extra, width or 0)
    if k == "txt":
        return p[2], p[3], p[4]
    if k == "bin":
        n = p[1] + (3 if p[1] == 32 else 7)
        return rx.cs("01.:"), n, n
    if k == "addr":
        return (rx.DIGITS | rx.cs("."), 7, 15) if p[1] == 32 else (HEX | rx.cs(":"), 2, 39)
    if k in ("d", "x", "X", "b", "o") and len(p) == 2 and isinstance(p[1], Lin):
        lo, hi = D.lin_bounds(p[1])
        base = {"d": 10, "b": 2, "o": 8}.get(k, 16)
        m = rx.DIGITS if k == "d" else HEX if k == "x" else rx.cs({"b": "01", "o": "01234567"}.get(k, "0123456789ABCDEF"))
        if lo is None or lo < 0:
            if k == "d":
                return m | rx.cs("-"), 1, None if lo is None or hi is None else max(ndigits(-lo, 10) + 1, ndigits(max(hi, 0), 10))
            return m, 1, None
        return m, ndigits(lo, base), ndigits(hi, base) if hi is not None else None
    if k == "char":
        lo, hi = D.lin_bounds(p[1])
        if lo is not None and hi is not None and 0 <= lo <= hi < 128:
            m = 0
            for c in range(lo, hi + 1):
                m |= 1 << c
            return m, 1, 1
        return rx.FULL, 1, 1
    if k == "rep" and isinstance(p[1], str):
        lo, hi = D.lin_bounds(p[2])
        return rx.cs(p[1]), max(0, lo or 0), hi
    if k == "fn" and p[1] in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end"):
        return rx.FULL, 0, None
    return rx.FULL, 0, None


NO_SPEC = (" ", None, False, False, False, None, None)


def fmt_spec(opts):
    """(fill, alignment, zero pad, alternate, plus, width, precision) of the options of a format argument."""
    d = dict(opts)
    f = d.get("flags", 32 | 3 << 29)
    if set(d) - {"flags", "width", "prec"} or f & (1 << 25 | 1 << 26):
        return None
    return (chr(f & 0x1fffff), {0: "<", 1: ">", 2: "^", 3: None}[f >> 29 & 3], bool(f >> 24 & 1), bool(f >> 23 & 1), bool(f >> 21 & 1),
            d.get("width"), d.get("prec"))


def apply_spec(t, spec, number, kind="d"):
    fill, al, zero, alt, plus, width, prec = spec
    if number:
        sign = ""
        if t[:1] == "-":
            sign, t = "-", t[1:]
        elif plus:
            sign = "+"
        if alt:
            sign += {"x": "0x", "X": "0x", "b": "0b", "o": "0o"}.get(kind, "")
        if zero:
            return sign + t.rjust((width or 0) - len(sign), "0")
        t = sign + t
    elif prec is not None:
        t = t[:prec]
    n = max(0, (width or 0) - len(t))
    al = al or (">" if number else "<")
    left = 0 if al == "<" else n if al == ">" else n // 2
    return fill * left + t + fill * (n - left)


def length_bounds(s):
    """Least and greatest number of characters."""
    lo, hi = 0, 0
    for p in s.pieces:
        a, b = (len(p), len(p)) if isinstance(p, str) else piece_class(p)[1:]
        lo += a
        hi = None if hi is None or b is None else hi + b
    return lo, hi


def parts(s):
    out = []
    for p in s.pieces:
        if isinstance(p, str):
            out += [(rx.cs(c), 1, 1) for c in p]
        else:
            m, lo, hi = piece_class(p)
            if p[0] == "txt" and len(p) > 5 and p[5]:
                out.append((m, lo, hi, rx.language(p[5])))
                continue
            if hi is not None and hi > 60:
                hi = None
            if lo > 60:
                lo = 60
            out.append((m, lo, hi))
    return out


@functools.lru_cache(maxsize=4096)
def auto(s):
    return rx.chain(parts(s))


@functools.lru_cache(maxsize=512)
def regex(pattern):
    return rx.compile_rx(pattern)


@functools.lru_cache(maxsize=4096)
def fixed(k, pre, post):
    return rx.chain(([(rx.FULL, 0, None)] if pre else []) + [(rx.cs(c), 1, 1) for c in k] + ([(rx.FULL, 0, None)] if post else []))


@functools.lru_cache(maxsize=8192)
def rel(s, what, k):
    """'in' / 'out' / 'part' for contains, starts_with, ends_with, eq, rx; with the two example texts."""
    if isinstance(k, str) and what != "rx" and any(ord(c) >= 128 for c in k):
        return "part", None, None
    r = regex(k) if what == "rx" else fixed(k, what in ("contains", "ends_with"), what in ("contains", "starts_with"))
    return rx.relate(auto(s), r)


def structured(s):
    return all(isinstance(p, str) or p[0] in ("txt", "d", "x", "X", "b", "o", "char", "rep", "addr", "bin") for p in s.pieces)


def units(s):
    out = []
    for p in s.pieces:
        if isinstance(p, str):
            out += list(p)
        else:
            out.append(p)
    return out


def build(us):
    return cat(*[VStr((u,)) for u in us]) if us else VStr(())


def offsets(I, us):
    """Byte offset of every boundary between units."""
    out = [num(0)]
    for u in us:
        out.append(out[-1] + I.str_len(VStr((u,))))
    return out


def excludes(facts, u, chars):
    """The piece certainly contains none of the characters."""
    m = piece_class(u)[0]
    for c in chars:
        if m & rx.cs(c):
            if ord(c) >= 128 or facts is None or facts.ev(D.pred("contains", VStr((u,)), c)) is not False:
                return False
    return True


def find_all(s, k, facts=None, overlap_right=False):
    """Unit ranges (i, j) of the definite non-overlapping leftmost occurrences of the pattern (a string, or
    a frozenset of single characters); None when they are not definite."""
    us = units(s)
    res, i = [], 0
    if isinstance(k, frozenset) or len(k) == 1:
        ks = k if isinstance(k, frozenset) else frozenset((k,))
        for i, u in enumerate(us):
            if isinstance(u, str):
                if u in ks:
                    res.append((i, i + 1))
            elif not excludes(facts, u, ks):
                return None
        return us, res
    if not k:
        return None
    for u in us:
        if not isinstance(u, str):
            if not excludes(facts, u, frozenset(k)) or piece_class(u)[1] == 0 and not nonempty(facts, u):
                return None
    while i + len(k) <= len(us):
        if all(isinstance(us[i + j], str) and us[i + j] == k[j] for j in range(len(k))):
            res.append((i, i + len(k)))
            i += len(k)
        else:
            i += 1
    return us, res


def nonempty(facts, u):
    return facts is not None and facts.ev(D.lt(num(0), strlen_of(u))) is True


def decide(s, what, k, facts=None):
    """BF for contains / starts_with / ends_with / eq with a constant."""
    if isinstance(k, frozenset):
        if what == "contains":
            r = FALSE
            for c in sorted(k):
                r = D.b_or(r, decide(s, "contains", c, facts))
            return r
        r = FALSE
        for c in sorted(k):
            r = D.b_or(r, decide(s, what, c, facts))
        return r
    v = rel(s, what, k)[0]
    if v == "in":
        return TRUE
    if v == "out":
        return FALSE
    if what == "contains" and len(k) == 1:
        r = FALSE
        for p in s.pieces:
            if not isinstance(p, str) and piece_class(p)[0] & rx.cs(k):
                r = D.b_or(r, D.pred("contains", VStr((p,)), k))
        return r
    if what in ("starts_with", "ends_with"):
        us = units(s)
        us = us[:len(k)] if what == "starts_with" else us[max(0, len(us) - len(k)):]
        if all(isinstance(u, str) or u[0] == "char" for u in us):
            if len(us) < len(k):
                return FALSE
            r = TRUE
            for u, c in zip(us, k):
                r = D.b_and(r, D.boolc(u == c) if isinstance(u, str) else D.eq(u[1], num(ord(c))))
            return r
    if what in ("starts_with", "ends_with") and len(k) == 1:
        ps = s.pieces if what == "starts_with" else s.pieces[::-1]
        for i, p in enumerate(ps):
            if isinstance(p, str):
                break
            if piece_class(p)[1] > 0:
                if i == 0:
                    return D.pred(what, VStr((p,)), k)
                break
            if i == 0 and len(ps) > 1 and isinstance(ps[1], str) and (ps[1][0] if what == "starts_with" else ps[1][-1]) != k:
                return D.pred(what, VStr((p,)), k)
    if what == "eq":
        return D.pred("streq", s, k)
    return D.pred(what, s, k)


def split_units(us, occ):
    out, at = [], 0
    for i, j in occ:
        out.append(build(us[at:i]))
        at = j
    out.append(build(us[at:]))
    return out


def cut(I, s, off):
    """Unit index at a byte offset, or None."""
    us = units(s)
    for i, o in enumerate(offsets(I, us)):
        if o == off:
            return us, i
    return us, None


BYTE = "0*(?:25[0-5]|2[0-4][0-9]|1[0-9][0-9]|[1-9]?[0-9])"
V4 = "^%s[.]%s[.]%s[.]%s$" % (BYTE, BYTE, BYTE, BYTE)
WORD16 = "0*[0-9a-fA-F]{1,4}"


def _v6():
    w = WORD16
    alts = [":".join([w] * 8)]
    for a in range(0, 8):
        for b in range(0, 8 - a):
            alts.append(":".join([w] * a) + "::" + ":".join([w] * b))
    return "^(?:%s)$" % "|".join(alts)


V6 = _v6()


def is_addr(s, w):
    """Whether the text is an address of the given width: BF."""
    try:
        k = rel(s, "rx", V4 if w == 32 else V6)[0]
    except rx.Unsupported:
        k = "part"
    return TRUE if k == "in" else FALSE if k == "out" else D.pred("addr", s, w)


def addr_value(s, w):
    """Value of an address text; a term over the numbers written in it when its shape is known."""
    radix, bits = (10, 8) if w == 32 else (16, 16)
    r = find_all(s, "." if w == 32 else ":")
    n = w // bits
    if r is not None and (w == 32 or len(r[1]) <= 8):
        xs = split_units(*r)
        vs = None
        if w == 32 and len(xs) == 4:
            vs = [number(x, radix) for x in xs]
        elif w == 128 and all(x.pieces or True for x in xs):
            e = [i for i, x in enumerate(xs) if not x.pieces]
            if not e and len(xs) == 8:
                vs = [number(x, radix) for x in xs]
            elif e and e[-1] - e[0] == len(e) - 1 and all(piece_class(p)[1] > 0 for x in xs for p in x.pieces if not isinstance(p, str)):
                a, b = [number(x, radix) for x in xs[:e[0]]], [number(x, radix) for x in xs[e[-1] + 1:]]
                if None not in a + b and len(a) + len(b) < 8:
                    vs = a + [num(0)] * (8 - len(a) - len(b)) + b
        if vs is not None and None not in vs:
            v = num(0)
            for x in vs:
                v = v.scale(1 << bits) + x
            return v
    return D.of_atom(D.atom("addrval", (s, w), 0, (1 << w) - 1, w))


def number(s, radix):
    if all(isinstance(p, str) for p in s.pieces):
        x = "".join(s.pieces)
        try:
            return num(int(x, radix))
        except ValueError:
            return None
    p = s.pieces[0]
    if len(s.pieces) == 1 and p[0] in ("d", "x", "X") and len(p) == 2 and {"d": 10}.get(p[0], 16) == radix:
        return p[1]
    return D.of_atom(D.atom("numval", (s, radix), 0, None))
