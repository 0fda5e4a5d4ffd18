"""Non-emptiness of an abstract counterexample region.

An obligation that the abstract domain cannot discharge is only reported when the region "path facts
and not obligation" is shown to be non-empty by exhibiting one of its members: an assignment of the
input symbols (address words, prefix lengths, predicates about input text) under which every fact
holds and the obligation fails.  Nothing of the analysed program is executed; members of the region
are found by local search over the abstract facts."""
import functools
import re
import time
import random
from . import dom as D
from .dom import Lin, BF, Atom


class Opaque(Exception):
    pass


LEAF = ("sym", "parsed", "strlen", "nparts", "numval", "addrval", "utf8len", "perm", "filtidx", "pred", "popcnt")


def is_text(a):
    return a.kind in ("strlen", "nparts", "numval", "addrval") or a.kind == "pred" and a.args and a.args[0] in TEXT_PREDS


def _one(p):
    from .interp import VStr
    return VStr((p,))


def _lit(t):
    from .interp import lit
    return lit(t)


def _base(x, r):
    d = ""
    while True:
        d = "0123456789abcdefghijklmnopqrstuvwxyz"[x % r] + d
        x //= r
        if not x:
            return d


def leaf_kind(a):
    return a.kind in LEAF or a.kind.startswith("arg")


def walk(x, seen, leaves):
    if isinstance(x, Atom):
        if x in seen:
            return
        seen.add(x)
        if leaf_kind(x):
            leaves.append(x)
            if x.kind in ("sym", "pred"):
                return
        for y in x.args:
            walk(y, seen, leaves)
    elif isinstance(x, Lin):
        for a, _ in x.terms:
            walk(a, seen, leaves)
    elif isinstance(x, BF):
        for a in x.vars:
            walk(a, seen, leaves)
    elif isinstance(x, (tuple, list, frozenset)):
        for y in x:
            walk(y, seen, leaves)


def soft_text(x, memo):
    """Mentions a loop-summary symbol."""
    if isinstance(x, str):
        return "@" in x
    if isinstance(x, (Atom, Lin, BF)):
        if x in memo:
            return memo[x]
        memo[x] = False
        if isinstance(x, Atom):
            r = any(soft_text(y, memo) for y in x.args)
        elif isinstance(x, Lin):
            r = any(soft_text(a, memo) for a, _ in x.terms)
        else:
            r = any(soft_text(a, memo) for a in x.vars)
        memo[x] = r
        return r
    if isinstance(x, (tuple, list, frozenset)):
        return any(soft_text(y, memo) for y in x)
    if hasattr(x, "__dataclass_fields__"):
        return "@" in repr(x)
    return False


DERIVED = re.compile(r"(len\(|nchars\()*(split|chars|bytes|lines|matches)\(|nchars\(")
TEXT_PREDS = ("isnum", "contains", "starts_with", "ends_with", "streq", "streq2", "rxmatch", "rxgroup", "addr")
POOL = ("", "0", "1", "00", "7", "8", "9", "10", "24", "31", "32", "33", "64", "127", "128", "129", "200", "255", "256", "300", "999", "1000",
        "65535", "65536", "4294967295", "4294967296", "4294967551", "18446744073709551616", "a", "f", "ff", "FF", "A", "ffff", "FFFF",
        "10000", "1ffff", "g", "x", "-", "-1", "+1", " 1", "1 ", "0x1", "1.2.3.4", "255.255.255.0", "::", "::1", ":", ".", "/", "1:2", "fe80::1",
        "abcd", "\u0661")


def text_pieces(s, out):
    for p in s.pieces:
        if not isinstance(p, str):
            if p[0] in ("txt", "sym"):
                while len(p) > 6:
                    p = p[6]
                d = derivation(p)
                if d is None:
                    out.append(p)
                else:
                    text_pieces(d[0], out)
            elif p[0] == "fn" and hasattr(p[2], "pieces"):
                text_pieces(p[2], out)
    return out


def derivation(p):
    """(text it comes from, function) of a piece that names a part of another text, or None."""
    from . import text
    d = text.DERIVED.get(p[1])
    if d is not None:
        return d
    m = re.match(r"^(.*)\[(\d+)\]$", p[1], re.S)
    q = text.DERIVED_SEQ.get(m.group(1)) if m else None
    if q is None:
        return None
    i = int(m.group(2))

    def item(t):
        xs = q[1](t)
        return xs[i] if xs is not None and i < len(xs) else None
    return q[0], item


def cut_fn(m, k):
    """str methods that remove something at an end."""
    if not isinstance(k, str) or not k:
        return None

    def f(t):
        if m == "strip_prefix":
            return t.removeprefix(k)
        if m == "strip_suffix":
            return t.removesuffix(k)
        while m in ("trim_start_matches", "trim_matches") and t.startswith(k):
            t = t[len(k):]
        while m in ("trim_end_matches", "trim_matches") and t.endswith(k):
            t = t[:-len(k)]
        return t
    return f


@functools.lru_cache(maxsize=256)
def py_regex(pattern):
    x = pattern.replace("\\z", "\\Z")
    if re.search(r"\\[$pPbBaAGKQE]|\[[^\]]*\$|\[\[|&&|\(\?[^:P]", x.replace("\\A", "")):
        raise Opaque("regex syntax")
    try:
        return re.compile(x.replace("$", r"\Z"), re.S if False else 0)
    except re.error:
        raise Opaque("regex syntax")


def num_text(t, radix, signed=False):
    """Value of a text as Rust's integer parser reads it (without a range), or None."""
    b = t[1:] if t[:1] == "+" or signed and t[:1] == "-" else t
    if not b or any(c not in "0123456789abcdefghijklmnopqrstuvwxyz"[:radix] for c in (b.lower() if b.isascii() else "~")):
        return None
    return int(b, radix) * (-1 if t[0] == "-" else 1)


def addr_text(t, w):
    """Value of a text as an address in dotted or colon notation, or None."""
    if w == 32:
        xs = t.split(".")
        if len(xs) != 4:
            return None
        v = [num_text(x, 10) if x[:1] != "+" else None for x in xs]
        return None if any(x is None or x > 255 for x in v) else sum(x << (24 - 8 * i) for i, x in enumerate(v))
    h, sep, r = t.partition("::")
    a = h.split(":") if h else []
    b = r.split(":") if r else []
    if not sep and len(a) != 8 or sep and len(a) + len(b) > 7:
        return None
    v = [num_text(x, 16) if x[:1] != "+" else None for x in a + b]
    if any(x is None or x > 65535 for x in v):
        return None
    v = v[:len(a)] + [0] * (8 - len(v)) + v[len(a):]
    return sum(x << (112 - 16 * i) for i, x in enumerate(v))


class Env:
    def __init__(self, rng):
        self.text = {}
        self.rng = rng
        self.v = {}
        self.memo = {}
        self.neg = {}

    # ---------------------------------------------------------------- texts
    def text_of(self, p):
        if len(p) > 6:
            t = self.text_of(p[6])
            if not self.fits(p, t):
                raise Opaque("narrowed text")
            return t
        t = self.text.get(p)
        if t is None:
            d = derivation(p)
            if d is not None:
                # not a free text; absent (say, a fifth part of four) means another path is taken
                t = d[1](self.render(d[0]))
                if t is None or not self.fits(p, t):
                    raise Opaque("derived text")
                return t
            t = self.text[p] = self.pick_text(p)
        return t

    def fits(self, p, t):
        from . import text
        m, lo, hi = text.piece_class(p)
        if p[0] == "txt" and len(p) > 5 and p[5]:
            return text.rx.member(text.rx.language(p[5]), t)
        return len(t) >= lo and (hi is None or len(t) <= hi) and all(m & text.rx.cs(c) for c in t)

    def pick_text(self, p):
        from . import text
        if "(" in p[1]:
            raise Opaque("derived text")
        if len(p) > 2 and p[0] == "sym":
            raise Opaque("unmodelled text")
        c = [x for x in POOL if self.fits(p, x)]
        m, lo, hi = text.piece_class(p)
        if c and self.rng.random() < .8:
            return self.rng.choice(c)
        if p[0] == "txt" and len(p) > 5 and p[5]:
            t = text.rx.sample(text.rx.language(p[5]), self.rng, self.rng.choice((.9, .5, .2)))
            if t is None:
                raise Opaque("empty language")
            return t
        cs = [chr(o) for o in range(128) if m >> o & 1]
        nice = [x for x in cs if x.isalnum() or x in ".:/-"] or cs or ["\u0661"]
        n = lo + self.rng.choice((0, 1, 2, 3))
        return "".join(self.rng.choice(nice) for _ in range(n if hi is None else min(hi, n)))

    def set_text(self, p, t):
        if not self.fits(p, t):
            return False
        if self.text.get(p) != t:
            self.text[p] = t
            self.memo.clear()
        return True

    def render(self, s):
        out = []
        for p in s.pieces:
            if isinstance(p, str):
                out.append(p)
                continue
            k = p[0]
            if k in ("txt", "sym"):
                out.append(self.text_of(p))
            elif k in ("d", "x", "X", "b", "o") and isinstance(p[1], Lin) and len(p) == 2:
                v = self.lin(p[1])
                if v < 0 and k != "d":
                    raise Opaque("negative hex")
                out.append(format(v, k))
            elif k in ("d", "x", "X", "b", "o") and isinstance(p[1], Lin) and len(p) == 3:
                from . import text
                v = self.lin(p[1])
                if v < 0 and k != "d":
                    raise Opaque("negative hex")
                out.append(text.apply_spec(format(v, k), p[2], True, k))
            elif k == "bin":
                from . import text
                out.append(text.show_bin(p[1], self.lin(p[2])))
            elif k == "addr":
                from . import text
                if not text.DISPLAY_OK[p[1]]:
                    raise Opaque("display of addresses")
                out.append(text.show_addr(p[1], self.lin(p[2])))
            elif k == "char":
                out.append(chr(self.lin(p[1])))
            elif k == "rep":
                n = self.lin(p[2])
                if n > 10000:
                    raise Opaque("long text")
                out.append(p[1] * n)
            elif k == "fn" and hasattr(p[2], "pieces"):
                x = self.render(p[2])
                f = {"to_lowercase": str.lower, "to_ascii_lowercase": str.lower, "to_uppercase": str.upper, "to_ascii_uppercase": str.upper,
                     "trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip}.get(p[1]) if len(p) == 3 else cut_fn(p[1], p[3])
                if f is None or not x.isascii():
                    raise Opaque("text function")
                out.append(f(x))
            else:
                raise Opaque("text piece %s" % k)
        return "".join(out)

    def text_atom(self, a):
        """Value of an atom about a text, or None when it is not one."""
        k, g = a.kind, a.args
        if k == "strlen":
            s = _one(g[0])
            return len(self.render(s).encode())
        if k == "nparts":
            return len(self.render(g[0]).split(g[1]))
        if k == "numval":
            v = num_text(self.render(g[0]), g[1], True)
            return 0 if v is None else v
        if k == "addrval":
            v = addr_text(self.render(g[0]), g[1])
            return 0 if v is None else v
        if k == "pred" and g[0] in TEXT_PREDS:
            if g[0] == "isnum":
                return int(num_text(self.render(g[1]), g[2], g[3]) is not None)
            if g[0] == "rxgroup":
                m = py_regex(g[1]).search(self.render(g[2]))
                return int(m is not None and m.group(g[3]) is not None)
            if g[0] == "streq2":
                return int(self.render(g[1]) == self.render(g[2]))
            if g[0] == "addr":
                return int(addr_text(self.render(g[1]), g[2]) is not None)
            if g[0] == "rxmatch":
                from . import text
                try:
                    return int(text.rel(_lit(self.render(g[2])), "rx", g[1])[0] == "in")
                except text.rx.Unsupported:
                    raise Opaque("regex")
            x = self.render(g[1])
            if g[0] == "streq":
                return int(x == g[2])
            return int(g[2] in x if g[0] == "contains" else x.startswith(g[2]) if g[0] == "starts_with" else x.endswith(g[2]))
        return None

    def matching(self, a, x, p):
        """Members of a free text's language on which a match decides as wanted."""
        from . import text
        g = a.args
        if a.kind != "pred" or g[0] not in ("rxmatch", "streq", "starts_with", "ends_with", "contains") or p[0] != "txt":
            return []
        s, k = (g[2], g[1]) if g[0] == "rxmatch" else (g[1], g[2])
        if not isinstance(k, str):
            return []
        fold, space, lead, langs = False, False, "", []
        while len(s.pieces) == 1 and s.pieces[0] != p:
            q = s.pieces[0]
            if q[0] == "txt" and len(q) > 6:
                langs += [q[5]] if q[5] else []
                s = type(s)((q[6],))
            elif q[0] == "fn" and q[1].startswith("to_") and hasattr(q[2], "pieces"):
                fold, s = True, q[2]
            elif q[0] == "fn" and q[1] in ("trim", "trim_start", "trim_end") and hasattr(q[2], "pieces"):
                space, s = True, q[2]
            elif q[0] == "fn" and q[1] in ("trim_start_matches", "trim_matches") and len(q) > 3 and isinstance(q[3], str) and hasattr(q[2], "pieces"):
                lead, s = q[3], q[2]
            else:
                return []
        if s.pieces != (p,):
            return []

        def lit(c):
            return "[%s%s]" % (c.lower(), c.upper()) if fold and c.isascii() and c.isalpha() else re.escape(c)
        if g[0] != "rxmatch":
            k = "".join(lit(c) for c in k)
            k = ("^" if g[0] in ("streq", "starts_with") else "") + k + ("$" if g[0] in ("streq", "ends_with") else "")
        if (space or lead) and k.startswith("^"):
            k = "^" + ("[ ]*" if space else "") + ("(?:%s)*" % re.escape(lead) if lead else "") + k[1:]
        if space and k.endswith("$"):
            k = k[:-1] + "[ ]*$"
        langs += [p[5]] if len(p) > 5 and p[5] else []
        try:
            l = text.rx.language(("and", k if x else ("not", k), *langs))
            r = [text.rx.sample(l, self.rng, z) for z in (.9, .9, .5, .5, .2, .2)]
        except (text.rx.Unsupported, ValueError, KeyError):
            return []
        return [t for t in r if t is not None]

    def force_text(self, a, x):
        k, g = a.kind, a.args
        s = _one(g[0]) if k == "strlen" else g[0] if k in ("numval", "addrval", "nparts") else None
        if k == "pred":
            s = _lit("")
            for y in g[1:]:
                if hasattr(y, "pieces"):
                    s = type(y)(s.pieces + y.pieces)
        ps = text_pieces(s, [])
        if not ps:
            return False
        cand = []
        if k == "numval" and x >= 0 and len(s.pieces) == 1:
            t = self.rng.choice(("", "", "", "0", "00")) + _base(x, g[1])
            if self.rng.random() < .3:
                t = t.upper()
            cand.append(t)
        for p in sorted(ps, key=repr):
            old = self.text_of(p)
            for t in cand + self.matching(a, x, p) + [self.pick_text(p) for _ in range(12)]:
                if self.set_text(p, t) and self.text_atom(a) == x:
                    return True
            self.set_text(p, old)
        return False

    # ---------------------------------------------------------------- evaluation
    def leaf(self, a):
        if a.kind == "sym" and DERIVED.match(a.args[0]):
            raise Opaque("derived value %s" % a.args[0][:60])
        x = self.v.get(a)
        if x is None:
            x = self.pick(a)
            self.v[a] = x
        return x

    def pick(self, a):
        r = self.rng
        lo, hi = a.lo, a.hi
        if a.kind == "pred":
            return r.randrange(2)
        if a.kind == "strlen":
            return r.choice((0, 1, 2, 3, 4, 5, 8, 12))
        if lo is None and hi is None:
            return r.choice((0, 1, -1, 2, 3, 254, 255, 256, 1 << 32, r.getrandbits(20)))
        if hi is None:
            return lo + r.choice((0, 1, 2, 3, 254, 255, 256, 1 << 32, r.getrandbits(20)))
        if lo is None:
            return hi - r.choice((0, 1, 2, 3, 255, 256))
        c = r.randrange(10)
        if c == 0:
            return lo
        if c == 1:
            return hi
        if c == 2:
            return min(hi, lo + 1)
        if c == 3:
            return max(lo, hi - 1)
        if a.w and a.w >= 8 and c < 8:
            w = a.w
            if c == 4:
                n = r.randrange(w + 1)
                return ((1 << n) - 1) << (w - n)
            if c == 5:
                n = r.randrange(w + 1)
                return (1 << n) - 1
            if c == 6:
                return 1 << r.randrange(w)
            if c == 7:
                return r.getrandbits(w) & r.getrandbits(w)
        if hi - lo > 1000 and c < 6:
            return min(hi, lo + r.choice((2, 3, 4, 7, 8, 31, 32, 33, 64, 127, 128, 129, 255, 256)))
        return r.randint(lo, hi)

    def set(self, a, x):
        if a.lo is not None and x < a.lo or a.hi is not None and x > a.hi:
            return False
        if self.v.get(a) != x:
            self.v[a] = x
            self.memo.clear()
        return True

    def atom(self, a):
        m = self.memo.get(a)
        if m is not None:
            return m
        x = self.atom0(a)
        self.memo[a] = x
        return x

    def base(self, b):
        return self.atom(b) if isinstance(b, Atom) else self.lin(b)

    def atom0(self, a):
        k, g = a.kind, a.args
        if is_text(a):
            return self.text_atom(a)
        if leaf_kind(a):
            return self.leaf(a)
        if k == "seg":
            return (self.base(g[0]) >> g[1]) & ((1 << g[2]) - 1)
        if k == "bit":
            return (self.base(g[0]) >> g[1]) & 1
        if k == "and":
            r = (1 << g[1]) - 1
            for x in g[0]:
                r &= self.atom(x)
            return r
        if k == "mask":
            n = max(0, min(g[0], self.lin(g[1])))
            return ((1 << n) - 1) << (g[0] - n)
        if k == "bitatom":
            return int(self.bf(g[0]))
        if k == "bop":
            xs = [self.bf(x) for x in g[1:]]
            if g[0] == "_and":
                return int(all(xs))
            if g[0] == "_or":
                return int(any(xs))
            if g[0] == "_xor":
                return int(xs[0] != xs[1])
            if g[0] == "_ite":
                return int(xs[1] if xs[0] else xs[2])
            raise Opaque(g[0])
        if k == "cmp":
            return int(self.lin(g[0]) <= 0)
        if k == "eq":
            return int(self.lin(g[0]) == 0)
        if k == "in":
            return int(self.atom(g[0]) in g[1])
        if k == "ite":
            return self.lin(g[1]) if self.bf(g[0]) else self.lin(g[2])
        if k == "pop":
            return bin((self.base(g[0]) >> g[1]) & ((1 << g[2]) - 1)).count("1")
        if k == "pow2":
            n = self.lin(g[0])
            if n < 0 or n > 4096:
                raise Opaque("pow2")
            return 1 << n
        if k == "tab":
            i = self.lin(g[1])
            if not 0 <= i < len(g[0]):
                raise Opaque("tab")
            return g[0][i]
        if k == "sel":
            i = self.lin(g[1])
            if not 0 <= i < len(g[0]):
                raise Opaque("sel")
            x = g[0][i]
            return int(self.bf(x)) if isinstance(x, BF) else self.lin(x)
        if k == "gsel":
            i = self.lin(g[1])
            n = -1
            for c, x in g[0]:
                if self.bf(c):
                    n += 1
                    if n == i:
                        return int(self.bf(x)) if isinstance(x, BF) else self.lin(x)
            raise Opaque("gsel")
        if k in ("unr", "wv"):
            w = a.w
            x, m = self.lin(g[0]), self.lin(g[1])
            pos = [j for j in range(w - 1, -1, -1) if (m >> j) & 1] + [j for j in range(w - 1, -1, -1) if not (m >> j) & 1]
            r = 0
            for t, j in enumerate(pos):
                if k == "unr":
                    r |= ((x >> j) & 1) << (w - 1 - t)
                else:
                    r |= ((x >> (w - 1 - t)) & 1) << j
            return r
        if k == "mul":
            return self.lin(g[0]) * self.lin(g[1])
        if k in ("div", "rem", "mod"):
            x, y = self.lin(g[0]), self.lin(g[1])
            if y == 0:
                raise Opaque("division by zero")
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return q if k == "div" else x - q * y
        if k == "wrap":
            v = self.lin(g[0]) & ((1 << g[1]) - 1)
            if g[2] and v >> (g[1] - 1):
                v -= 1 << g[1]
            return v
        if k in ("BitAnd", "BitOr", "BitXor"):
            x, y = self.lin(g[0]), self.lin(g[1])
            return x & y if k == "BitAnd" else x | y if k == "BitOr" else x ^ y
        if k in ("Shl", "Shr"):
            x, y, w = self.lin(g[0]), self.lin(g[1]), g[2]
            y &= w - 1
            if k == "Shr":
                return x >> y
            v = (x << y) & ((1 << w) - 1)
            if a.lo is not None and a.lo < 0 and v >> (w - 1):
                v -= 1 << w
            return v
        if k == "pfxof":
            m = self.base(g[1])
            for p in range(g[0] + 1):
                if m == ((1 << p) - 1) << (g[0] - p):
                    return p
            raise Opaque("pfxof")
        raise Opaque(k)

    def lin(self, l):
        r = l.c
        for a, k in l.terms:
            r += k * self.atom(a)
        return r

    def bf(self, b):
        i = 0
        for j, v in enumerate(b.vars):
            if self.boolatom(v):
                i |= 1 << j
        return bool((b.tt >> i) & 1)

    def boolatom(self, v):
        if v.kind == "pred" and v.args and v.args[0] == "contig":
            m = v.args[1]
            x = self.base(m)
            w = self.w_of(m)
            n = ~x & ((1 << w) - 1)
            return (n & (n + 1)) == 0
        return bool(self.atom(v))

    def w_of(self, m):
        if isinstance(m, Atom):
            return m.w
        b = D.lin_bounds(m)
        return 32 if b[1] is not None and b[1] < (1 << 32) else 128

    # ---------------------------------------------------------------- repair
    def force_base(self, b, x, depth):
        return self.force_atom(b, x, depth) if isinstance(b, Atom) else self.force_lin(b, x, depth)

    def force_atom(self, a, x, depth=0):
        if depth > 14:
            return False
        k, g = a.kind, a.args
        d = depth + 1
        if a.lo is not None and x < a.lo or a.hi is not None and x > a.hi:
            return False
        if is_text(a):
            return self.force_text(a, x)
        if leaf_kind(a):
            if k == "pred" and g and g[0] == "contig":
                return self.force_contig(g[1], bool(x), d)
            return self.set(a, x)
        if k == "seg":
            b = self.base(g[0])
            m = ((1 << g[2]) - 1) << g[1]
            return self.force_base(g[0], (b & ~m) | (x << g[1]), d)
        if k == "bit":
            b = self.base(g[0])
            return self.force_base(g[0], (b & ~(1 << g[1])) | ((x & 1) << g[1]), d)
        if k == "and":
            xs = sorted(g[0], key=lambda t: t.uid)
            self.rng.shuffle(xs)
            ok = True
            for t in xs:
                if not self.force_atom(t, self.atom(t) | x, d):
                    ok = False
            for t in xs:
                cur = self.atom(a)
                extra = cur & ~x
                if not extra:
                    break
                self.force_atom(t, self.atom(t) & ~extra, d)
            return ok
        if k == "mask":
            w = g[0]
            for p in range(w + 1):
                if x == ((1 << p) - 1) << (w - p):
                    return self.force_lin(g[1], p, d)
            # nearest: leading ones
            p = 0
            while p < w and (x >> (w - 1 - p)) & 1:
                p += 1
            self.force_lin(g[1], p, d)
            return False
        if k in ("bitatom",):
            return self.force_bf(g[0], bool(x), d)
        if k == "bop":
            xs = g[1:]
            if g[0] in ("_and", "_or"):
                if (g[0] == "_and") == bool(x):
                    return all([self.force_bf(t, bool(x), d) for t in xs])
                return self.force_bf(self.rng.choice(xs), bool(x), d)
            return self.force_bf(self.rng.choice(xs), self.rng.random() < .5, d)
        if k == "cmp":
            return self.force_le(g[0], d) if x else self.force_le(D.num(1) - g[0], d)
        if k == "eq":
            if x:
                return self.force_lin(g[0], 0, d)
            return self.force_lin(g[0], self.rng.choice((1, -1, 2, 5)), d) if self.lin(g[0]) == 0 else True
        if k == "in":
            if x:
                return self.force_atom(g[0], self.rng.choice(sorted(g[1])), d)
            o = [v for v in range(g[0].lo, g[0].hi + 1) if v not in g[1]]
            return bool(o) and self.force_atom(g[0], self.rng.choice(o), d)
        if k == "ite":
            c = self.rng.random() < .5
            self.force_bf(g[0], c, d)
            return self.force_lin(g[1] if c else g[2], x, d)
        if k == "pop":
            m = ((1 << g[2]) - 1) << g[1]
            bits = self.rng.sample(range(g[2]), x)
            if self.rng.random() < .5:
                bits = range(g[2] - x, g[2])
            v = sum(1 << (g[1] + b) for b in bits)
            return self.force_base(g[0], (self.base(g[0]) & ~m) | v, d)
        if k == "pow2":
            return x > 0 and x & (x - 1) == 0 and self.force_lin(g[0], x.bit_length() - 1, d)
        if k == "tab":
            idx = [i for i, v in enumerate(g[0]) if v == x]
            return bool(idx) and self.force_lin(g[1], self.rng.choice(idx), d)
        if k == "sel":
            i = self.rng.randrange(len(g[0]))
            y = g[0][i]
            self.force_lin(g[1], i, d)
            return self.force_bf(y, bool(x), d) if isinstance(y, BF) else self.force_lin(y, x, d)
        if k == "pfxof":
            return self.force_base(g[1], ((1 << x) - 1) << (g[0] - x), d)
        if k == "wrap":
            return self.force_lin(g[0], x + self.rng.choice((0, 0, 1, -1)) * (1 << g[1]), d)
        if k in ("mod", "rem"):
            return self.force_lin(g[0], self.lin(g[0]) - self.atom(a) + x, d)
        if k == "div":
            return self.force_lin(g[0], x * self.lin(g[1]), d)
        return False

    def force_contig(self, m, val, d):
        w = self.w_of(m)
        if val:
            p = self.rng.randrange(w + 1)
            return self.force_base(m, ((1 << p) - 1) << (w - p), d)
        return self.force_base(m, self.rng.getrandbits(w) & ((1 << w) - 2), d)

    def force_lin(self, l, target, depth=0):
        cur = self.lin(l)
        if cur == target:
            return True
        ts = list(l.terms)
        self.rng.shuffle(ts)
        for a, k in ts:
            delta = target - cur
            if delta % k == 0:
                v = self.atom(a) + delta // k
                if self.force_atom(a, v, depth + 1):
                    return True
            elif abs(k) < abs(delta):
                # approach greedily from the large coefficients
                v = self.atom(a) + int(delta // k)
                if a.lo is not None:
                    v = max(v, a.lo)
                if a.hi is not None:
                    v = min(v, a.hi)
                self.force_atom(a, v, depth + 1)
                cur = self.lin(l)
                if cur == target:
                    return True
        return False

    def force_le(self, l, depth=0):
        cur = self.lin(l)
        if cur <= 0:
            return True
        t = self.rng.choice((0, 0, 0, -1, -2, -7, -300))
        ts = list(l.terms)
        self.rng.shuffle(ts)
        for a, k in ts:
            delta = t - cur
            v = self.atom(a) + (-((-delta) // k) if k < 0 else delta // k)
            if a.lo is not None:
                v = max(v, a.lo)
            if a.hi is not None:
                v = min(v, a.hi)
            if v != self.atom(a):
                self.force_atom(a, v, depth + 1)
                cur = self.lin(l)
                if cur <= 0:
                    return True
        return False

    def force_bf(self, b, val, depth=0):
        if self.bf(b) == val:
            return True
        n = len(b.vars)
        if n == 0:
            return False
        cur = 0
        for j, v in enumerate(b.vars):
            if self.boolatom(v):
                cur |= 1 << j
        rows = [m for m in range(1 << n) if bool((b.tt >> m) & 1) == val]
        if not rows:
            return False
        self.rng.shuffle(rows)
        if self.rng.random() < .8:
            rows.sort(key=lambda m: bin(m ^ cur).count("1"))
        m = rows[0]
        for j, v in enumerate(b.vars):
            if ((m ^ cur) >> j) & 1:
                self.force_atom(v, (m >> j) & 1, depth + 1)
        return self.bf(b) == val


def constraints(facts):
    """Facts as a list of (check, repair)."""
    out = []
    for v, b in facts.lits.items():
        bf = D.bvar(v) if b else D.b_not(D.bvar(v))
        out.append(("b", bf))
    for c in facts.clauses:
        out.append(("b", c))
    for l in facts.cons:
        out.append(("le", l))
    for l in facts.ne:
        out.append(("b", D.b_not(D.bvar(D.atom("eq", (l,), 0, 1)))))
    for a, (lo, hi) in facts.iv.items():
        if lo is not None and (a.lo is None or lo > a.lo):
            out.append(("le", D.num(lo) - D.of_atom(a)))
        if hi is not None and (a.hi is None or hi < a.hi):
            out.append(("le", D.of_atom(a) - hi))
    for a, s in facts.dom.items():
        out.append(("in", a, s))
    return out


def holds(env, c):
    if c[0] == "b":
        return env.bf(c[1])
    if c[0] == "le":
        return env.lin(c[1]) <= 0
    return env.atom(c[1]) in c[2]


def repair(env, c):
    if c[0] == "b":
        return env.force_bf(c[1], True)
    if c[0] == "le":
        return env.force_le(c[1])
    return env.force_atom(c[1], env.rng.choice(sorted(c[2])))


def taint_in(facts, *goals):
    t = D.taint_of(tuple(facts.lits)) or D.taint_of(tuple(facts.clauses)) or D.taint_of(tuple(facts.cons)) \
        or D.taint_of(tuple(facts.ne)) or D.taint_of(tuple(facts.iv)) or D.taint_of(tuple(facts.dom))
    return t or D.taint_of(goals)


def member(facts, goal, seed=1, restarts=30, flips=160, exact=True):
    """A member of the region `facts and not goal`, as a dict, or a string saying why none is offered."""
    if facts.bot:
        return "path infeasible"
    t = taint_in(facts, goal)
    if t:
        return "depends on unmodelled: %s" % t
    if exact and facts.approx:
        return "joined path facts are not exact"
    if isinstance(goal, BF):
        ng = D.b_not(goal)
    else:
        return "goal is not boolean"
    if ng.const and not ng.tt:
        return "goal holds"
    cs = constraints(facts)
    if not ng.const:
        cs.append(("b", ng))
    memo = {}
    if any(soft_text(c[1:], memo) for c in cs):
        return "depends on a loop summary"
    leaves = []
    walk([c[1] for c in cs], set(), leaves)
    rng = random.Random(seed)
    why = "no member found"
    t0 = time.time()
    for r in range(restarts):
        if time.time() - t0 > 8:
            break
        env = Env(rng)
        D.check_time()
        try:
            for f in range(flips):
                bad = [c for c in cs if not holds(env, c)]
                if not bad:
                    if not canonical_ok(env, leaves):
                        break
                    m = {p[1]: repr(x) for p, x in sorted(env.text.items(), key=repr)}
                    m.update({repr(a): env.leaf(a) for a in leaves if a.kind in ("sym", "pred", "parsed") and not is_text(a)})
                    return m
                c = rng.choice(bad)
                if not repair(env, c) and rng.random() < .15:
                    for a in leaves:
                        if rng.random() < .3 and not is_text(a):
                            env.set(a, env.pick(a))
                    for p in sorted(env.text, key=repr):
                        if rng.random() < .3:
                            env.set_text(p, env.pick_text(p))
        except Opaque as e:
            why = "opaque term: %s" % e
    return why


def canonical_ok(env, leaves):
    """Relations between leaf terms that the fact domain does not carry."""
    par = {}
    for a in leaves:
        if a.kind == "parsed":
            # the same text parsed at several widths has one value
            k = a.args[0]
            v = env.leaf(a)
            if par.setdefault(k, v) != v:
                return False
    return True
