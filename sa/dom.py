"""Abstract value domain: linear forms over hash-consed atoms, bit-provenance vectors, small boolean
functions, and a conjunctive fact domain (intervals, finite sets, convex polyhedra, bit literals)."""
import time
from fractions import Fraction

_tab = {}
_uid = [0]


class Atom:
    __slots__ = ("kind", "args", "lo", "hi", "uid", "taint", "w", "rep")

    def __repr__(self):
        # shared subterms are written out again and again: remember the text and cut it off when it gets long
        try:
            return self.rep
        except AttributeError:
            s = show_atom(self)
            if len(s) > 2000:
                s = s[:1500] + ("@" if "@" in s and "@" not in s[:1500] else "") + "..#%d" % self.uid
            self.rep = s
            return s


def show_atom(a):
    k = a.kind
    if k == "sym":
        return a.args[0]
    if k == "seg":
        return "%s[%d+:%d]" % (show(a.args[0]), a.args[1], a.args[2])
    if k == "and":
        return "(" + "&".join(sorted(repr(x) for x in a.args[0])) + ")"
    if k == "mask":
        return "mask%d(%s)" % (a.args[0], show(a.args[1]))
    if k == "bit":
        return "%s.%d" % (show(a.args[0]), a.args[1])
    if k == "cmp":
        return "(%s<=0)" % show(a.args[0])
    if k == "eq":
        return "(%s==0)" % show(a.args[0])
    if k == "in":
        return "%r∈{%s}" % (a.args[0], ",".join(map(str, sorted(a.args[1]))) if len(a.args[1]) < 12 else "%d values" % len(a.args[1]))
    if k in ("gsel", "sel") and len(a.args[0]) > 12:
        return "%s(%d items #%x,%s)" % (k, len(a.args[0]), abs(hash(repr(a.args[0]))) & 0xffffff, show(a.args[1]))
    return "%s(%s)" % (k, ",".join(show(x) for x in a.args))


def show(x):
    return repr(x)


def atom(kind, args, lo=None, hi=None, w=None, taint=None):
    key = (kind, args, lo, hi, taint) if kind == "sym" else (kind, args)
    a = _tab.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.lo, a.hi, a.w = kind, args, lo, hi, w
        _uid[0] += 1
        a.uid = _uid[0]
        t = taint
        if t is None:
            for x in args:
                t = taint_of(x)
                if t:
                    break
        a.taint = t
        _tab[key] = a
    return a


def taint_of(x):
    """Reason string if the value depends on an unmodelled operation, else None."""
    if isinstance(x, Atom):
        return x.taint
    if isinstance(x, Lin):
        for a, _ in x.terms:
            if a.taint:
                return a.taint
        return None
    if isinstance(x, BF):
        for v in x.vars:
            if v.taint:
                return v.taint
        return None
    if isinstance(x, (tuple, frozenset, list)):
        for y in x:
            t = taint_of(y)
            if t:
                return t
    f = getattr(x, "taint_reason", None)
    if f is not None:
        return f()
    return None


# ---------------------------------------------------------------- linear forms

_lins = {}


class Lin:
    __slots__ = ("c", "terms", "_h", "_b")

    def __repr__(self):
        if not self.terms:
            return hexy(self.c)
        s = []
        for a, k in self.terms:
            if k == 1:
                s.append("+" + repr(a))
            elif k == -1:
                s.append("-" + repr(a))
            else:
                s.append(("+" if k > 0 else "-") + hexy(abs(k)) + "*" + repr(a))
        if self.c:
            s.append(("+" if self.c > 0 else "-") + hexy(abs(self.c)))
        r = "".join(s)
        return r[1:] if r[0] == "+" else r

    @property
    def const(self):
        return not self.terms

    def __add__(self, o):
        if isinstance(o, int):
            return raw_lin(self.c + o, self.terms)
        return lin_comb(self, 1, o, 1)

    def __sub__(self, o):
        if isinstance(o, int):
            return raw_lin(self.c - o, self.terms)
        return lin_comb(self, 1, o, -1)

    def scale(self, k):
        if k == 0:
            return num(0)
        return raw_lin(self.c * k, tuple((a, q * k) for a, q in self.terms))

    def single(self):
        """The atom if the form is exactly one atom."""
        if self.c == 0 and len(self.terms) == 1 and self.terms[0][1] == 1:
            return self.terms[0][0]
        return None


def hexy(c):
    return str(c) if abs(c) < 4096 else hex(c)


def raw_lin(c, terms):
    key = (c, terms)
    l = _lins.get(key)
    if l is None:
        l = Lin()
        l.c, l.terms = c, terms
        l._b = None
        _lins[key] = l
    return l


def num(c):
    return raw_lin(c, ())


def mk(c, pairs):
    """Normalising constructor: merges equal atoms and adjacent bit segments."""
    d = {}
    for a, k in pairs:
        if k:
            d[a] = d.get(a, 0) + k
    d = {a: k for a, k in d.items() if k}
    # merge segments of the same base
    groups = {}
    for a in d:
        if a.kind == "seg":
            groups.setdefault(a.args[0], []).append(a)
    changed = bool(groups)
    while changed:
        changed = False
        for base in list(groups):
            ss = sorted((a for a in groups[base] if a in d), key=lambda a: a.args[1])
            groups[base] = ss
            done = False
            for x in ss:
                for y in ss:
                    if y.args[1] == x.args[1] + x.args[2] and d[y] == d[x] << x.args[2]:
                        k = d.pop(x)
                        d.pop(y)
                        m = seg(base, x.args[1], x.args[2] + y.args[2])
                        for a2, k2 in m.terms:
                            d[a2] = d.get(a2, 0) + k * k2
                            if not d[a2]:
                                del d[a2]
                            elif a2.kind == "seg":
                                groups.setdefault(a2.args[0], []).append(a2)
                        c += k * m.c
                        done = changed = True
                        break
                if done:
                    break
            if done:
                break
    # popcount segments
    pg = [a for a in d if a.kind == "pop"]
    if len(pg) > 1:
        changed = True
        while changed:
            changed = False
            pg = sorted((a for a in d if a.kind == "pop"), key=lambda a: (a.args[0].uid if isinstance(a.args[0], Atom) else id(a.args[0]), a.args[1]))
            for x, y in zip(pg, pg[1:]):
                if x.args[0] is y.args[0] and y.args[1] == x.args[1] + x.args[2] and d[x] == d[y]:
                    k = d.pop(x)
                    d.pop(y)
                    m = pop_seg(x.args[0], x.args[1], x.args[2] + y.args[2])
                    c += k * m.c
                    for a2, k2 in m.terms:
                        d[a2] = d.get(a2, 0) + k * k2
                        if not d[a2]:
                            del d[a2]
                    changed = True
                    break
    return raw_lin(c, tuple(sorted(d.items(), key=lambda t: t[0].uid)))


def lin_comb(a, p, b, q):
    return mk(a.c * p + b.c * q, [(x, k * p) for x, k in a.terms] + [(x, k * q) for x, k in b.terms])


def of_atom(a):
    return raw_lin(0, ((a, 1),))


def sym(name, lo, hi, taint=None):
    w = None
    if lo == 0 and hi is not None and (hi & (hi + 1)) == 0:
        w = hi.bit_length()
    return of_atom(atom("sym", (name,), lo, hi, w, taint))


_fresh = [0]


def fresh(prefix, lo, hi, taint=None):
    _fresh[0] += 1
    return sym("%s#%d" % (prefix, _fresh[0]), lo, hi, taint)


def word(name, w, taint=None):
    return sym(name, 0, (1 << w) - 1, taint)


def base_of(l):
    """Atom for a form, for use as a segment base."""
    s = l.single()
    if s is not None:
        return s
    return l


def seg(base, lo, ln):
    """Bits [lo, lo+ln) of base (an Atom of known width, or a Lin)."""
    if isinstance(base, Lin):
        s = base.single()
        if s is not None:
            base = s
        elif base.const:
            return num((base.c >> lo) & ((1 << ln) - 1))
        else:
            b = lin_bounds(base)
            if b[0] is not None and b[1] is not None and b[0] >= 0:
                top = b[1].bit_length()
                if lo >= top:
                    return num(0)
                if lo + ln > top:
                    ln = top - lo
                if lo == 0 and ln == top:
                    return base
                r = disjoint_seg(base, lo, ln)
                if r is not None:
                    return r
            return of_atom(atom("seg", (base, lo, ln), 0, (1 << ln) - 1, ln))
    if base.kind == "seg":
        if lo >= base.args[2]:
            return num(0)
        return seg(base.args[0], base.args[1] + lo, min(ln, base.args[2] - lo))
    if base.lo is not None and base.hi is not None and base.lo >= 0:
        top = base.hi.bit_length()
        if lo >= top:
            return num(0)
        if lo + ln > top:
            ln = top - lo
        if lo == 0 and ln == top:
            return of_atom(base)
    return of_atom(atom("seg", (base, lo, ln), 0, (1 << ln) - 1, ln))


def disjoint_seg(l, lo, ln):
    """Bits [lo, lo+ln) of a sum whose terms occupy disjoint bit ranges (so that no carry happens)."""
    if l.c < 0:
        return None
    used, out = [], num((l.c >> lo) & ((1 << ln) - 1))
    for a, k in l.terms:
        if k <= 0 or k & (k - 1) or a.lo is None or a.hi is None or a.lo < 0:
            return None
        s = k.bit_length() - 1
        e = s + a.hi.bit_length()
        used.append((s, e, a))
    used.sort(key=lambda t: t[0])
    end = 0
    for s, e, a in used:
        if s < end or (l.c >> s) & ((1 << (e - s)) - 1):
            return None
        end = e
        x, y = max(s, lo), min(e, lo + ln)
        if x < y:
            out = out + seg(a, x - s, y - x).scale(1 << (x - lo))
    return out


def pop_seg(base, lo, ln):
    if isinstance(base, Lin):
        if base.const:
            return num(bin((base.c >> lo) & ((1 << ln) - 1)).count("1"))
        s = base.single()
        if s is not None:
            base = s
    if isinstance(base, Atom):
        if base.kind == "mask" and lo == 0 and ln == base.args[0]:
            return base.args[1]
        if base.kind == "seg":
            return pop_seg(base.args[0], base.args[1] + lo, ln)
    return of_atom(atom("pop", (base, lo, ln), 0, ln))


def mask_word(w, p):
    """The w-bit word whose p most significant bits are one."""
    if isinstance(p, int):
        p = num(p)
    if p.const:
        n = max(0, min(w, p.c))
        return num(((1 << n) - 1) << (w - n))
    a = p.single()
    if a is not None and a.kind == "pfxof" and a.args[0] == w:
        return a.args[1]
    return of_atom(atom("mask", (w, p), 0, (1 << w) - 1, w))


def pow2(l):
    if l.const and l.c >= 0:
        return num(1 << l.c)
    b = lin_bounds(l)
    lo = 1 << max(0, b[0]) if b[0] is not None else 1
    hi = 1 << b[1] if b[1] is not None and b[1] < 4096 else None
    return of_atom(atom("pow2", (l,), lo, hi))


def and_words(words, w):
    """Canonical AND of a set of w-bit word atoms."""
    ws = set()
    for a in words:
        if a.kind == "and":
            ws |= a.args[0]
        else:
            ws.add(a)
    # mask(p) & mask(q) with constant difference
    ms = [a for a in ws if a.kind == "mask"]
    for i, x in enumerate(ms):
        for y in ms[i + 1:]:
            if x in ws and y in ws:
                d = x.args[1] - y.args[1]
                if d.const:
                    ws.discard(x if d.c >= 0 else y)
    if len(ws) == 1:
        return of_atom(next(iter(ws)))
    if all(a.kind == "seg" and isinstance(a.args[0], Atom) for a in ws):
        x = next(iter(ws))
        if all(a.args[1:] == x.args[1:] and a.args[0].w == x.args[0].w and a.args[0].w for a in ws):
            s = and_words([a.args[0] for a in ws], x.args[0].w)
            return seg(s, x.args[1], x.args[2])
    fs = frozenset(ws)
    return of_atom(atom("and", (fs, w), 0, (1 << w) - 1, w, taint=taint_of(tuple(ws))))


def lin_bounds(l, facts=None):
    if facts is None and l._b is not None:
        return l._b
    lo = hi = l.c
    terms = l.terms
    if any(a.kind == "and" for a, k in terms) and len(terms) > 1:
        # a conjunction is at most each of its operands
        rest = dict(terms)
        for t, k in terms:
            if t.kind != "and":
                continue
            for s, j in terms:
                if k * j >= 0 or s is t or not (s.args[0] if s.kind == "and" else frozenset([s])) < t.args[0]:
                    continue
                c = min(abs(rest[t]), abs(rest[s]))
                top = s.hi if facts is None else facts.bounds(s)[1]
                if not c or top is None:
                    continue
                rest[t] -= c if k > 0 else -c
                rest[s] -= c if j > 0 else -c
                if k > 0:
                    lo = None if lo is None else lo - c * top
                else:
                    hi = None if hi is None else hi + c * top
        terms = [(a, k) for a, k in rest.items() if k]
    for a, k in terms:
        alo, ahi = (a.lo, a.hi) if facts is None else facts.bounds(a)
        if k > 0:
            x, y = alo, ahi
        else:
            x, y = ahi, alo
        lo = None if lo is None or x is None else lo + k * x
        hi = None if hi is None or y is None else hi + k * y
    if facts is None:
        l._b = (lo, hi)
    return (lo, hi)


# ---------------------------------------------------------------- boolean functions

_bfs = {}
MAXV = 8


class BF:
    """Boolean function of at most MAXV boolean atoms, as a canonical truth table."""
    __slots__ = ("vars", "tt")

    def __repr__(self):
        if not self.vars:
            return "true" if self.tt else "false"
        n = len(self.vars)
        if n == 1:
            return ("" if self.tt == 2 else "!") + repr(self.vars[0])
        ms = [m for m in range(1 << n) if (self.tt >> m) & 1]
        neg = len(ms) > (1 << (n - 1))
        if neg:
            ms = [m for m in range(1 << n) if not (self.tt >> m) & 1]
        if len(ms) > 8:
            return "f(%s)" % ",".join(map(repr, self.vars))
        t = " | ".join("&".join(("" if (m >> i) & 1 else "!") + repr(v) for i, v in enumerate(self.vars)) for m in ms)
        return ("!(" if neg else "(") + t + ")"

    @property
    def const(self):
        return not self.vars

    def taint_reason(self):
        return taint_of(self)


def _bf(vars, tt):
    key = (vars, tt)
    b = _bfs.get(key)
    if b is None:
        b = BF()
        b.vars, b.tt = vars, tt
        _bfs[key] = b
    return b


TRUE = _bf((), 1)
FALSE = _bf((), 0)


def boolc(b):
    return TRUE if b else FALSE


def bvar(a):
    return _bf((a,), 2)


def b_eval(b, assign):
    """Restrict variables by a dict var->bool."""
    if not b.vars:
        return b
    keep = [v for v in b.vars if v not in assign]
    if len(keep) == len(b.vars):
        return b
    pos = {v: i for i, v in enumerate(b.vars)}
    base = 0
    for v in b.vars:
        if v in assign and assign[v]:
            base |= 1 << pos[v]
    tt = 0
    for m in range(1 << len(keep)):
        idx = base
        for i, v in enumerate(keep):
            if (m >> i) & 1:
                idx |= 1 << pos[v]
        if (b.tt >> idx) & 1:
            tt |= 1 << m
    return _shrink(tuple(keep), tt)


def _shrink(vars, tt):
    n = len(vars)
    i = 0
    while i < n:
        # does the function depend on var i?
        dep = False
        lo = 0
        cnt = 0
        new = 0
        for m in range(1 << n):
            if not (m >> i) & 1:
                x = (tt >> m) & 1
                y = (tt >> (m | (1 << i))) & 1
                if x != y:
                    dep = True
                    break
                new |= x << cnt
                cnt += 1
        if dep:
            i += 1
        else:
            vars = vars[:i] + vars[i + 1:]
            tt = new
            n -= 1
    return _bf(vars, tt)


def b_op(f, *bs):
    """Combine boolean functions with python predicate f over bools."""
    vs = []
    for b in bs:
        for v in b.vars:
            if v not in vs:
                vs.append(v)
    vs.sort(key=lambda v: v.uid)
    if len(vs) > MAXV:
        a = atom("bop", (f.__name__,) + tuple(bs), 0, 1)
        return bvar(a)
    n = len(vs)
    pos = {v: i for i, v in enumerate(vs)}
    maps = [[pos[v] for v in b.vars] for b in bs]
    tt = 0
    for m in range(1 << n):
        xs = []
        for b, mp in zip(bs, maps):
            idx = 0
            for j, p in enumerate(mp):
                if (m >> p) & 1:
                    idx |= 1 << j
            xs.append(bool((b.tt >> idx) & 1))
        if f(*xs):
            tt |= 1 << m
    return _shrink(tuple(vs), tt)


def _and(x, y):
    return x and y


def _or(x, y):
    return x or y


def _xor(x, y):
    return x != y


def _ite(c, x, y):
    return x if c else y


def b_not(a):
    return _bf(a.vars, ((1 << (1 << len(a.vars))) - 1) ^ a.tt)


def b_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    return b_op(_and, a, b)


def b_or(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    return b_op(_or, a, b)


def b_xor(a, b):
    return b_op(_xor, a, b)


def b_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return b_op(_ite, c, a, b)


def bit_of(base, i):
    """Boolean: bit i of an atom or form."""
    if isinstance(base, Lin):
        if base.const:
            return boolc((base.c >> i) & 1)
        bs = to_bits(base, None, only=i)
        if bs is not None:
            return bs
        return bvar(atom("bit", (base, i), 0, 1))
    if base.kind == "seg":
        if i >= base.args[2]:
            return FALSE
        b = base.args[0]
        if isinstance(b, Atom):
            return bit_of(b, base.args[1] + i)
        return bvar(atom("bit", (b, base.args[1] + i), 0, 1))
    if base.kind == "bitatom":
        return base.args[0] if i == 0 else FALSE
    if base.kind == "and":
        r = TRUE
        for w in sorted(base.args[0], key=lambda a: a.uid):
            r = b_and(r, bit_of(w, i))
        return r
    if base.kind == "ite":
        return b_ite(base.args[0], bit_of(base.args[1], i), bit_of(base.args[2], i))
    if base.hi is not None and base.lo is not None and base.lo >= 0 and i >= base.hi.bit_length():
        return FALSE
    return bvar(atom("bit", (base, i), 0, 1))


def bool_to_int(b):
    """0/1 integer form of a boolean."""
    if b.const:
        return num(b.tt)
    if len(b.vars) == 1 and b.vars[0].kind == "bit":
        v = b.vars[0]
        x = seg(v.args[0], v.args[1], 1)
        return x if b.tt == 2 else num(1) - x
    return of_atom(atom("bitatom", (b,), 0, 1, 1))


def ite_int(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    d = a - b
    if d.const:
        # b + (a-b)*[c]
        return b + bool_to_int(c).scale(d.c)
    ba, bb = to_bits(a, None), to_bits(b, None)
    if ba is not None and bb is not None:
        n = max(len(ba), len(bb))
        ba = ba + [FALSE] * (n - len(ba))
        bb = bb + [FALSE] * (n - len(bb))
        return from_bits([b_ite(c, x, y) for x, y in zip(ba, bb)])
    la, lb = lin_bounds(a), lin_bounds(b)
    lo = None if la[0] is None or lb[0] is None else min(la[0], lb[0])
    hi = None if la[1] is None or lb[1] is None else max(la[1], lb[1])
    return of_atom(atom("ite", (c, a, b), lo, hi))


# ---------------------------------------------------------------- bit vectors

def _and_basis(l):
    """If l is a bitwise function of w-bit words (as an integer combination of AND-atoms and the
    all-ones constant), return (w, words, f) with f: frozenset-of-true-words -> 0/1."""
    w = None
    words = set()
    for a, k in l.terms:
        if a.w is None or a.w < 2:
            return None
        if a.kind in ("bitatom",):
            return None
        if w is None:
            w = a.w
        elif w != a.w:
            return None
        words |= a.args[0] if a.kind == "and" else {a}
    if w is None or len(words) > 6:
        return None
    full = (1 << w) - 1
    if l.c % full:
        return None
    q = l.c // full
    words = sorted(words, key=lambda a: a.uid)
    n = len(words)
    tt = 0
    for m in range(1 << n):
        on = {words[i] for i in range(n) if (m >> i) & 1}
        v = q
        for a, k in l.terms:
            need = a.args[0] if a.kind == "and" else {a}
            if need <= on:
                v += k
        if v not in (0, 1):
            # mask(p) & mask(q) nests etc. are ignored here
            return None
        if v:
            tt |= 1 << m
    return w, words, tt


def from_basis(w, words, tt):
    """Integer form of a bitwise truth table over word atoms (Moebius transform)."""
    n = len(words)
    co = [(tt >> m) & 1 for m in range(1 << n)]
    for i in range(n):
        for m in range(1 << n):
            if (m >> i) & 1:
                co[m] -= co[m ^ (1 << i)]
    res = num(co[0] * ((1 << w) - 1))
    for m in range(1, 1 << n):
        if co[m]:
            res = res + and_words([words[i] for i in range(n) if (m >> i) & 1], w).scale(co[m])
    return res


def basis_op(f, w, *ls):
    """Apply a bitwise python function to word forms if all are bitwise functions of w-bit words."""
    parts = []
    words = []
    full = (1 << w) - 1
    for l in ls:
        if l.const:
            if l.c not in (0, full):
                return None
            parts.append(([], 1 if l.c else 0))
            continue
        b = _and_basis(l)
        if b is None or b[0] != w:
            return None
        parts.append((b[1], b[2]))
        for x in b[1]:
            if x not in words:
                words.append(x)
    if len(words) > 6:
        return None
    words.sort(key=lambda a: a.uid)
    tt = 0
    for m in range(1 << len(words)):
        on = {words[i] for i in range(len(words)) if (m >> i) & 1}
        xs = []
        for ws, t in parts:
            idx = sum(1 << i for i, x in enumerate(ws) if x in on)
            xs.append(bool((t >> idx) & 1))
        if f(*xs):
            tt |= 1 << m
    return from_basis(w, words, tt)


def to_bits(l, w, only=None):
    """Little-endian list of BF bits of a non-negative form, or None if not expressible."""
    if l.const:
        if l.c < 0:
            return None
        if only is not None:
            return boolc((l.c >> only) & 1)
        n = max(1, l.c.bit_length()) if w is None else w
        return [boolc((l.c >> i) & 1) for i in range(n)]
    b = lin_bounds(l)
    # disjoint segments with power-of-two coefficients
    ok = l.c >= 0
    spans = []
    if ok:
        for a, k in l.terms:
            if k <= 0 or k & (k - 1) or a.lo is None or a.lo < 0 or a.hi is None:
                ok = False
                break
            sh = k.bit_length() - 1
            spans.append((sh, a.hi.bit_length(), a))
    if ok:
        used = 0
        for sh, ln, a in spans:
            m = ((1 << ln) - 1) << sh
            if used & m:
                ok = False
                break
            used |= m
        if ok and l.c & used:
            ok = False
    if ok:
        if only is not None:
            for sh, ln, a in spans:
                if sh <= only < sh + ln:
                    return bit_of(a, only - sh)
            return boolc((l.c >> only) & 1)
        top = max([sh + ln for sh, ln, _ in spans] + [l.c.bit_length()])
        n = max(top, w or 0)
        bits = [boolc((l.c >> i) & 1) for i in range(n)]
        for sh, ln, a in spans:
            for i in range(ln):
                bits[sh + i] = bit_of(a, i)
        return bits
    ab = _and_basis(l)
    if ab is not None:
        aw, words, tt = ab

        def bit(i):
            r = FALSE
            for m in range(1 << len(words)):
                if (tt >> m) & 1:
                    t = TRUE
                    for j, x in enumerate(words):
                        v = bit_of(x, i)
                        t = b_and(t, v if (m >> j) & 1 else b_not(v))
                    r = b_or(r, t)
            return r
        if only is not None:
            return bit(only) if only < aw else FALSE
        return [bit(i) for i in range(aw)] + [FALSE] * max(0, (w or 0) - aw)
    # (2^n - 1) - x
    if l.c > 0 and (l.c & (l.c + 1)) == 0:
        x = num(l.c) - l
        xb = lin_bounds(x)
        if xb[0] is not None and xb[0] >= 0 and xb[1] is not None and xb[1] <= l.c and not (x.c > 0 and x is l):
            n = l.c.bit_length()
            if all(k > 0 for _, k in x.terms) and x.c >= 0:
                bx = to_bits(x, n)
                if bx is not None:
                    if only is not None:
                        return b_not(bx[only]) if only < n else FALSE
                    return [b_not(y) for y in bx[:n]] + [FALSE] * max(0, (w or 0) - n)
    if b[0] is not None and b[0] >= 0 and b[1] is not None:
        n = b[1].bit_length()
        if only is not None:
            return bvar(atom("bit", (l, only), 0, 1)) if only < n else FALSE
        return [bvar(atom("bit", (l, i), 0, 1)) for i in range(n)] + [FALSE] * max(0, (w or 0) - n)
    return None


def from_bits(bits):
    """Canonical form of a little-endian vector of boolean functions."""
    n = len(bits)
    # uniform bitwise function of whole words?
    vs0 = bits[0].vars if bits else ()
    if n >= 2 and vs0 and all(v.kind == "bit" for v in vs0) and (len(vs0) > 1 or bits[0].tt != 2):
        ok = True
        words = []
        for v in vs0:
            if v.args[1] != 0:
                ok = False
                break
            words.append(v.args[0])
        if ok and all(isinstance(x, Atom) and x.w == n for x in words):
            for i in range(n):
                bv = {v.args[0]: v for v in bits[i].vars if v.kind == "bit" and v.args[1] == i}
                if len(bits[i].vars) != len(words) or set(bv) != set(words):
                    ok = False
                    break
                # compare truth tables in word order
                order = [bits[i].vars.index(bv[x]) for x in words]
                t = 0
                for m in range(1 << len(words)):
                    idx = 0
                    for j in range(len(words)):
                        if (m >> j) & 1:
                            idx |= 1 << order[j]
                    if (bits[i].tt >> idx) & 1:
                        t |= 1 << m
                if i == 0:
                    t0 = t
                elif t != t0:
                    ok = False
                    break
            if ok:
                return from_basis(n, words, t0)
    c = 0
    pairs = []
    i = 0
    while i < n:
        b = bits[i]
        if b.const:
            c += b.tt << i
            i += 1
            continue
        if len(b.vars) == 1 and b.vars[0].kind == "bit" and b.tt == 2:
            v = b.vars[0]
            base, j = v.args
            ln = 1
            while i + ln < n:
                nb = bits[i + ln]
                if len(nb.vars) == 1 and nb.tt == 2 and nb.vars[0].kind == "bit" and nb.vars[0].args == (base, j + ln):
                    ln += 1
                else:
                    break
            s = seg(base, j, ln)
            c += s.c << i
            pairs.extend((a, k << i) for a, k in s.terms)
            i += ln
            continue
        x = bool_to_int(b)
        c += x.c << i
        pairs.extend((a, k << i) for a, k in x.terms)
        i += 1
    return mk(c, pairs)


def bitwise(op, a, b, w):
    """and/or/xor of two unsigned forms of width w; None if not expressible."""
    f = {"and": _and, "or": _or, "xor": _xor}[op]
    if a.const and b.const:
        return num({"and": a.c & b.c, "or": a.c | b.c, "xor": a.c ^ b.c}[op])
    full = (1 << w) - 1
    for x, y in ((a, b), (b, a)):
        if x.const:
            if op == "and" and x.c == 0:
                return num(0)
            if op == "and" and x.c == full:
                return y
            if op in ("or", "xor") and x.c == 0:
                return y
            if op == "or" and x.c == full:
                return num(full)
            if op == "and" and (x.c & (x.c + 1)) == 0:
                n = x.c.bit_length()
                bb = lin_bounds(y)
                if bb[0] is not None and bb[0] >= 0 and bb[1] is not None and bb[1] <= x.c:
                    return y
    r = basis_op(f, w, a, b)
    if r is not None:
        return r
    x, y = to_bits(a, w), to_bits(b, w)
    if x is None or y is None:
        return None
    g = {"and": b_and, "or": b_or, "xor": b_xor}[op]
    return from_bits([g(p, q) for p, q in zip(x[:w], y[:w])])


def shl(a, k, w):
    """a << k truncated to w bits (a unsigned)."""
    b = lin_bounds(a)
    if b[0] is not None and b[0] >= 0 and b[1] is not None and (b[1] << k) < (1 << w):
        return mk(a.c << k, [(x, q << k) for x, q in a.terms])
    bits = to_bits(a, w)
    if bits is None:
        return None
    return from_bits(([FALSE] * k + bits)[:w])


def shr(a, k, w):
    if k == 0:
        return a
    bits = to_bits(a, w)
    if bits is None:
        return None
    if k >= len(bits):
        return num(0)
    return from_bits(bits[k:])


def trunc(a, w):
    """a mod 2^w for an arbitrary form."""
    b = lin_bounds(a)
    if b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] < (1 << w):
        return a
    if b[0] is not None and b[0] >= 0:
        bits = to_bits(a, None)
        if bits is not None:
            return from_bits(bits[:w])
    # drop multiples of 2^w
    m = 1 << w
    t = [(x, q) for x, q in a.terms if q % m]
    r = mk(a.c % m, t)
    b = lin_bounds(r)
    if b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] < m:
        return r
    return None


# ---------------------------------------------------------------- comparisons

SMALL = 512


def single_small(l):
    if len(l.terms) == 1:
        a, k = l.terms[0]
        if a.lo is not None and a.hi is not None and a.hi - a.lo < SMALL:
            return a, k
    return None


def in_set(a, s):
    """Boolean: the small-range atom a takes a value in s."""
    if a.kind == "tab":
        tbl, idx = a.args
        ia = idx.terms[0][0]
        vals = frozenset(v for v in range(ia.lo, ia.hi + 1) if 0 <= v + idx.c < len(tbl) and tbl[v + idx.c] in s)
        return in_set(ia, vals)
    full = range(a.lo, a.hi + 1)
    s = frozenset(v for v in full if v in s)
    if not s:
        return FALSE
    if len(s) == len(full):
        return TRUE
    if a.lo == 0 and a.hi == 1:
        b = bit_of(a, 0)
        return b if 1 in s else b_not(b)
    if a.lo in s:
        return bvar(atom("in", (a, s), 0, 1))
    return b_not(bvar(atom("in", (a, frozenset(v for v in full if v not in s)), 0, 1)))


def _gcd_reduce(l, eq):
    from math import gcd
    g = 0
    for _, k in l.terms:
        g = gcd(g, abs(k))
    if g <= 1:
        return l
    if eq:
        if l.c % g:
            return None
        return raw_lin(l.c // g, tuple((a, k // g) for a, k in l.terms))
    # sum + c <= 0  <=>  sum/g <= floor(-c/g)
    return raw_lin(-((-l.c) // g), tuple((a, k // g) for a, k in l.terms))


def le0(l):
    """l <= 0"""
    if l.const:
        return boolc(l.c <= 0)
    b = lin_bounds(l)
    if b[1] is not None and b[1] <= 0:
        return TRUE
    if b[0] is not None and b[0] > 0:
        return FALSE
    s = single_small(l)
    if s:
        a, k = s
        return in_set(a, frozenset(v for v in range(a.lo, a.hi + 1) if k * v + l.c <= 0))
    l = _gcd_reduce(l, False)
    if len(l.terms) == 1 and l.terms[0][0].kind == "pow2" and abs(l.terms[0][1]) == 1:
        # 2^e <= c, 2^e >= c
        e = l.terms[0][0].args[0]
        eb = lin_bounds(e)
        if eb[0] is not None and eb[0] >= 0:
            if l.terms[0][1] == 1:
                return le(e, num((-l.c).bit_length() - 1))
            return le(num((l.c - 1).bit_length()), e)
    if l.terms[0][1] > 0:
        return bvar(atom("cmp", (l,), 0, 1))
    return b_not(bvar(atom("cmp", (num(1) - l,), 0, 1)))


def eq0(l):
    if l.const:
        return boolc(l.c == 0)
    b = lin_bounds(l)
    if (b[1] is not None and b[1] < 0) or (b[0] is not None and b[0] > 0):
        return FALSE
    s = single_small(l)
    if s:
        a, k = s
        return in_set(a, frozenset(v for v in range(a.lo, a.hi + 1) if k * v + l.c == 0))
    if b[1] == 0:
        return b_not(le0(l + 1))
    if b[0] == 0:
        return le0(l)
    l = _gcd_reduce(l, True)
    if l is None:
        return FALSE
    if len(l.terms) == 1 and l.terms[0][0].kind == "pow2" and abs(l.terms[0][1]) == 1:
        e = l.terms[0][0].args[0]
        eb = lin_bounds(e)
        if eb[0] is not None and eb[0] >= 0:
            c = abs(l.c)
            return eq(e, num(c.bit_length() - 1)) if c & (c - 1) == 0 else FALSE
    if l.terms[0][1] < 0:
        l = l.scale(-1)
    return bvar(atom("eq", (l,), 0, 1))


def le(a, b):
    return le0(a - b)


def lt(a, b):
    return le0(a - b + 1)


def eq(a, b):
    return eq0(a - b)


def member_of(l, vals):
    """l is one of the given constants."""
    a = l.single()
    if l.const:
        return boolc(l.c in vals)
    if a is not None and a.lo is not None and a.hi - a.lo < SMALL:
        return in_set(a, frozenset(vals))
    r = FALSE
    for v in sorted(vals):
        r = b_or(r, eq(l, num(v)))
    return r


def pred(name, *args):
    return bvar(atom("pred", (name,) + args, 0, 1))


# ---------------------------------------------------------------- facts

class Deadline(Exception):
    """The time allotted to the current group is used up."""


DEADLINE = [None]
_tick = [0]


def check_time():
    _tick[0] += 1
    if _tick[0] & 15 == 0 and DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Deadline("time budget used up")


class Facts:
    __slots__ = ("iv", "dom", "cons", "ne", "lits", "clauses", "bot", "approx", "_key", "_eqm")

    def __init__(self):
        self.iv, self.dom, self.cons, self.ne, self.lits, self.clauses, self.bot = {}, {}, frozenset(), frozenset(), {}, frozenset(), False
        self.approx = False

    def copy(self):
        f = Facts.__new__(Facts)
        f.iv, f.dom, f.lits = dict(self.iv), dict(self.dom), dict(self.lits)
        f.cons, f.ne, f.clauses, f.bot = self.cons, self.ne, self.clauses, self.bot
        f.approx = self.approx
        return f

    def _mask_range(self, a):
        """Bounds of masks, conjunctions of words and segments of those (masks grow with their prefix)."""
        k = a.kind
        lo, n = 0, a.w
        b = a
        if k == "seg":
            b, lo, n = a.args
        if b.kind == "mask":
            w, p = b.args
            pl, ph = lin_bounds(p, self)
            pl, ph = max(0, min(w, pl if pl is not None else 0)), max(0, min(w, ph if ph is not None else w))
            sg = lambda q: ((((1 << q) - 1) << (w - q)) >> lo) & ((1 << n) - 1)
            return sg(pl), sg(ph)
        hi = (1 << n) - 1
        if b.kind == "and":
            for x in b.args[0]:
                t = x
                if k == "seg":
                    t = _tab.get(("seg", (x, lo, n)))
                    if t is None:
                        if x.kind == "mask":
                            t = seg(x, lo, n).single()
                        if t is None:
                            continue
                if t is a:
                    continue
                y = self.bounds(t)[1]
                if y is not None:
                    hi = min(hi, y)
            return max(a.lo or 0, 0), min(hi, a.hi if a.hi is not None else hi)
        return a.lo, a.hi

    def contradiction(self):
        """A deeper emptiness test than `infeasible`: also relates bounded words, masks and segments."""
        if self.bot:
            return True
        for a in list(self.iv) + list(self.dom):
            x, y = self.bounds(a)
            if x is not None and y is not None and x > y:
                return True
        ext = [a for a in self.iv if a.kind in ("and", "mask", "seg", "pop", "wv")]
        return lp_infeasible(self, list(self.cons) + [raw_lin(-(1 << 200), ((a, 1),)) for a in ext])

    def _pop_range(self, a):
        """Bounds of a population count from the bits known one way or the other."""
        base, lo, n = a.args
        one = zero = 0
        for v, val in self.lits.items():
            if v.kind == "bit" and v.args[0] is base and lo <= v.args[1] < lo + n:
                if val:
                    one += 1
                else:
                    zero += 1
        return one, n - zero

    def bounds(self, a):
        d = self.dom.get(a)
        if d is not None:
            if a.kind == "pop" and d:
                x, y = self._pop_range(a)
                return (max(min(d), x), min(max(d), y))
            return (min(d), max(d)) if d else (1, 0)
        if a.kind == "pop" and self.lits:
            x, y = self._pop_range(a)
            v = self.iv.get(a, (a.lo, a.hi))
            return (max(x, v[0]) if v[0] is not None else x, min(y, v[1]) if v[1] is not None else y)
        if a.kind == "tab":
            ia = a.args[1].terms[0][0]
            if ia in self.dom:
                vs = [a.args[0][v + a.args[1].c] for v in self.dom[ia] if 0 <= v + a.args[1].c < len(a.args[0])]
                if vs:
                    return (min(vs), max(vs))
        v = self.iv.get(a)
        if a.kind in ("mask", "and") or a.kind == "seg" and isinstance(a.args[0], Atom) and a.args[0].kind in ("mask", "and"):
            x, y = self._mask_range(a)
            if v is not None:
                x = v[0] if v[0] is not None and v[0] > x else x
                y = v[1] if v[1] is not None and v[1] < y else y
            return (x, y)
        if a.kind == "sel":
            xs = self._sel_items(a)
            if xs and len(xs) <= 64:
                bs = [lin_bounds(x, self) for x in xs]
                lo = None if any(b[0] is None for b in bs) else min(b[0] for b in bs)
                hi = None if any(b[1] is None for b in bs) else max(b[1] for b in bs)
                if v is not None:
                    lo = v[0] if lo is None or (v[0] is not None and v[0] > lo) else lo
                    hi = v[1] if hi is None or (v[1] is not None and v[1] < hi) else hi
                return (lo, hi)
        if v is None and a.kind == "seg" and isinstance(a.args[0], Atom):
            bb = self.dom.get(a.args[0])
            bb = (min(bb), max(bb)) if bb else self.iv.get(a.args[0])
            if bb is not None and bb[0] is not None and bb[1] is not None and 0 <= bb[0] <= bb[1]:
                t = a.args[1] + a.args[2]
                if bb[0] >> t == bb[1] >> t:
                    k = (1 << a.args[2]) - 1
                    return ((bb[0] >> a.args[1]) & k, (bb[1] >> a.args[1]) & k)
            r = self.pop_value(*a.args)
            if r is not None:
                return (((1 << a.args[2]) - 1) * r,) * 2
        if v is None and a.kind == "seg" and a.args[2] == 1 and self.lits:
            x = _tab.get(("bit", (a.args[0], a.args[1])))
            x = self.lits.get(x) if x is not None else None
            if x is not None:
                return (1, 1) if x else (0, 0)
        if v is None and a.kind == "bitatom":
            r = self.ev0(a.args[0])
            if r is not None:
                return (1, 1) if r else (0, 0)
        if v is None and a.kind == "sym" and a.w:
            r = self.pop_value(a, 0, a.w)
            if r is not None:
                return (((1 << a.w) - 1) * r,) * 2
        return v if v is not None else (a.lo, a.hi)

    def ev0(self, b):
        """Truth value from direct knowledge of the variables only."""
        asg = {}
        for v in b.vars:
            r = self.var(v, False)
            if r is not None:
                asg[v] = r
        b = b_eval(b, asg)
        return bool(b.tt) if b.const else None

    def _sel_items(self, a):
        """Items a selection can yield, given what is known of its index."""
        items, i = a.args
        b = lin_bounds(i, self)
        lo = max(b[0] or 0, 0)
        hi = len(items) - 1 if b[1] is None else min(b[1], len(items) - 1)
        if lo == 0 and hi == len(items) - 1 and len(items) > 64:
            return None
        return items[lo:hi + 1]

    def set_of(self, a):
        d = self.dom.get(a)
        if d is None and a.kind == "sel":
            xs = self._sel_items(a)
            if xs and all(isinstance(x, Lin) and x.const for x in xs):
                return frozenset(x.c for x in xs)
        if d is None:
            if a.lo is None or a.hi is None or a.hi - a.lo >= SMALL:
                return None
            b = self.iv.get(a, (a.lo, a.hi))
            d = frozenset(range(b[0], b[1] + 1))
            if a.kind == "seg" and isinstance(a.args[0], Atom) and a.args[2] <= 8:
                for i in range(a.args[2]):
                    v = self.lits.get(atom("bit", (a.args[0], a.args[1] + i), 0, 1))
                    if v is not None:
                        d = frozenset(x for x in d if bool((x >> i) & 1) == v)
        if a.kind == "pop" and self.lits:
            x, y = self._pop_range(a)
            if x > 0 or y < a.args[2]:
                d = frozenset(v for v in d if x <= v <= y)
        return d

    # -- evaluation
    def var(self, v, deep=True):
        """Known truth value of a boolean atom, or None."""
        r = self.var0(v)
        if r is None and deep and self.cons:
            # counting constraints over the atom's 0/1 value
            ba = _tab.get(("bitatom", (bvar(v),)))
            neg = False
            if ba is None:
                ba, neg = _tab.get(("bitatom", (b_not(bvar(v)),))), True
            if ba is not None and any(a is ba for c in self.cons for a, _ in c.terms):
                if ba not in self.iv:
                    l = of_atom(ba)
                    if entails(self, l):
                        return neg
                    if entails(self, num(1) - l):
                        return not neg
        return r

    def var0(self, v):
        if v in self.lits:
            return self.lits[v]
        k = v.kind
        if k == "in":
            a, s = v.args
            d = self.set_of(a)
            if d is not None:
                if d <= s:
                    return True
                if not (d & s):
                    return False
            return None
        if k == "bit":
            base, i = v.args
            if isinstance(base, Atom):
                for a, d in self.dom.items():
                    if a is base:
                        j = i
                    elif a.kind == "seg" and a.args[0] is base and a.args[1] <= i < a.args[1] + a.args[2]:
                        j = i - a.args[1]
                    else:
                        continue
                    vals = {(x >> j) & 1 for x in d}
                    if len(vals) == 1:
                        return bool(vals.pop())
                if base.kind == "mask":
                    pb = lin_bounds(base.args[1], self)
                    if pb[0] is not None and pb[0] >= base.args[0] - i:
                        return True
                    if pb[1] is not None and pb[1] < base.args[0] - i:
                        return False
                b = self.bounds(base)
                if b[0] is not None and b[0] == b[1] and b[0] >= 0:
                    return bool((b[0] >> i) & 1)
                r = self.pop_value(base, i, 1)
                if r is not None:
                    return bool(r)
            return None
        if k == "cmp":
            return self.lin_le(v.args[0])
        if k == "eq":
            return self.lin_eq(v.args[0])
        return None

    def lin_le(self, l):
        b = lin_bounds(l, self)
        if b[1] is not None and b[1] <= 0:
            return True
        if b[0] is not None and b[0] > 0:
            return False
        if entails(self, l):
            return True
        if entails(self, num(1) - l):
            return False
        return None

    def lin_eq(self, l):
        b = lin_bounds(l, self)
        if (b[1] is not None and b[1] < 0) or (b[0] is not None and b[0] > 0):
            return False
        if b == (0, 0):
            return True
        if l in self.ne or l.scale(-1) in self.ne:
            return False
        # difference from a recorded disequality
        if entails(self, l) and entails(self, l.scale(-1)):
            return True
        if entails(self, l + 1) or entails(self, num(1) - l):
            return False
        return None

    def ev(self, b):
        """True/False/None for a boolean function."""
        if b.const:
            return bool(b.tt)
        asg = {}
        for v in b.vars:
            r = self.var(v)
            if r is not None:
                asg[v] = r
        b2 = b_eval(b, asg)
        if b2.const:
            return bool(b2.tt)
        if len(b2.vars) == 1 and not self.clauses:
            return None
        return self._split(b2)

    def _split(self, b):
        """Case split on the remaining variables of b (and related clauses)."""
        can_t = can_f = False
        n = len(b.vars)
        if n > 6:
            return None
        for m in range(1 << n):
            val = bool((b.tt >> m) & 1)
            if (val and can_t) or (not val and can_f):
                continue
            f = self
            for i, v in enumerate(b.vars):
                f = f.assume(bvar(v) if (m >> i) & 1 else b_not(bvar(v)))
                if f.bot:
                    break
            if not f.bot and not f.infeasible():
                if val:
                    can_t = True
                else:
                    can_f = True
                if can_t and can_f:
                    return None
        if can_t and not can_f:
            return True
        if can_f and not can_t:
            return False
        return None if (can_t and can_f) else True

    def infeasible(self):
        if self.bot:
            return True
        if lp_infeasible(self, list(self.cons)):
            return True
        return False

    # -- assumption
    def assume(self, b):
        check_time()
        if self.bot:
            return self
        if b.const:
            if b.tt:
                return self
            f = self.copy()
            f.bot = True
            return f
        asg = {}
        for v in b.vars:
            r = self.var(v)
            if r is not None:
                asg[v] = r
        b = b_eval(b, asg)
        if b.const:
            if b.tt:
                return self
            f = self.copy()
            f.bot = True
            return f
        f = self.copy()
        # implied literals
        n = len(b.vars)
        fixed = {}
        for i, v in enumerate(b.vars):
            pos = any((b.tt >> m) & 1 for m in range(1 << n) if (m >> i) & 1)
            neg = any((b.tt >> m) & 1 for m in range(1 << n) if not (m >> i) & 1)
            if pos != neg:
                fixed[v] = pos
        for v, val in fixed.items():
            f._assume_lit(v, val)
            if f.bot:
                return f
        rest = b_eval(b, fixed)
        if not rest.const:
            f.clauses = f.clauses | {rest}
        if f.clauses:
            f._propagate()
        return f

    def _propagate(self):
        changed = True
        while changed and not self.bot:
            changed = False
            for cl in list(self.clauses):
                asg = {}
                for v in cl.vars:
                    r = self.var(v)
                    if r is not None:
                        asg[v] = r
                c2 = b_eval(cl, asg)
                if c2 is cl:
                    continue
                self.clauses = self.clauses - {cl}
                changed = True
                if c2.const:
                    if not c2.tt:
                        self.bot = True
                    continue
                n = len(c2.vars)
                fixed = {}
                for i, v in enumerate(c2.vars):
                    pos = any((c2.tt >> m) & 1 for m in range(1 << n) if (m >> i) & 1)
                    neg = any((c2.tt >> m) & 1 for m in range(1 << n) if not (m >> i) & 1)
                    if pos != neg:
                        fixed[v] = pos
                for v, val in fixed.items():
                    self._assume_lit(v, val)
                rest = b_eval(c2, fixed)
                if not rest.const:
                    self.clauses = self.clauses | {rest}
                break

    def _assume_lit(self, v, val):
        k = v.kind
        if k == "in":
            a, s = v.args
            d = self.set_of(a)
            d = frozenset(x for x in d if (x in s) == val)
            self._set_dom(a, d)
        elif k == "cmp":
            l = v.args[0] if val else num(1) - v.args[0]
            self._add_le(l)
        elif k == "eq":
            l = v.args[0]
            if val:
                self._add_le(l)
                if not self.bot:
                    self._add_le(l.scale(-1))
            else:
                self.ne = self.ne | {l}
                if entails(self, l):
                    self._add_le(l + 1)
                elif entails(self, l.scale(-1)):
                    self._add_le(num(1) - l)
        else:
            self.lits[v] = val
            if k == "bit" and isinstance(v.args[0], Atom):
                base, i = v.args
                for a in list(self.dom):
                    if a is base:
                        j = i
                    elif a.kind == "seg" and a.args[0] is base and a.args[1] <= i < a.args[1] + a.args[2]:
                        j = i - a.args[1]
                    else:
                        continue
                    self._set_dom(a, frozenset(x for x in self.dom[a] if bool((x >> j) & 1) == val))
            elif k == "bop":
                name, xs = v.args[0], v.args[1:]
                if name == "_and" and val or name == "_or" and not val:
                    for x in xs:
                        g = self.assume(x if val else b_not(x))
                        self.iv, self.dom, self.cons, self.ne, self.lits, self.clauses, self.bot = g.iv, g.dom, g.cons, g.ne, g.lits, g.clauses, g.bot

    def _set_dom(self, a, d):
        self.dom[a] = d
        if not d:
            self.bot = True

    def pop_value(self, base, lo, ln):
        """0 or 1 when every bit of the segment is known to be that from a count over an enclosing one."""
        for src in (self.dom, self.iv):
            for a, d in src.items():
                if a.kind == "pop" and a.args[0] is base and a.args[1] <= lo and lo + ln <= a.args[1] + a.args[2]:
                    x, y = (min(d), max(d)) if src is self.dom and d else d if src is self.iv else (1, 0)
                    if x is not None and x >= a.args[2]:
                        return 1
                    if y is not None and y == 0:
                        return 0
        return None

    def _add_le(self, l):
        """Add l <= 0."""
        if l.const:
            if l.c > 0:
                self.bot = True
            return
        b = lin_bounds(l, self)
        if b[0] is not None and b[0] > 0:
            self.bot = True
            return
        if b[1] is not None and b[1] <= 0:
            return
        if len(l.terms) == 1:
            a, k = l.terms[0]
            self._tighten(a, k, l.c)
            return
        nl = num(0) - l
        if l in self.ne or nl in self.ne:
            l = l + 1
        self.cons = self.cons | {l}
        # contradiction with the opposite constraint is found by the polyhedral check
        if num(1) - l in self.cons:
            self.bot = True
            return
        if lp_infeasible(self, list(self.cons)):
            self.bot = True

    def _tighten(self, a, k, c):
        # k*a + c <= 0
        lo, hi = self.bounds(a)
        if k > 0:
            ub = (-c) // k
            if hi is None or ub < hi:
                hi = ub
        else:
            lb = -((-c) // (-k)) if False else -(-(c) // (-k)) if False else _ceil_div(c, -k)
            if lo is None or lb > lo:
                lo = lb
        # disequalities at the ends
        again = True
        while again:
            again = False
            for l in self.ne:
                if len(l.terms) == 1 and l.terms[0][0] is a:
                    kk = l.terms[0][1]
                    if l.c % kk == 0:
                        x = -l.c // kk
                        if hi is not None and x == hi:
                            hi -= 1
                            again = True
                        if lo is not None and x == lo:
                            lo += 1
                            again = True
        if lo is not None and hi is not None and lo > hi:
            self.bot = True
            return
        if a in self.dom:
            d = frozenset(x for x in self.dom[a] if (lo is None or x >= lo) and (hi is None or x <= hi))
            self._set_dom(a, d)
        else:
            self.iv[a] = (lo, hi)
        if self.cons and lp_infeasible(self, [c for c in self.cons if any(x is a for x, _ in c.terms)]):
            self.bot = True

    def key(self):
        return (frozenset(self.iv.items()), frozenset(self.dom.items()), self.cons, self.ne, frozenset(self.lits.items()), self.clauses)

    def join(self, o):
        """Weakest common facts (sound for both)."""
        if self.bot:
            return o
        if o.bot:
            return self
        f = Facts()
        for a in set(self.iv) | set(self.dom):
            x = self.set_of(a) if a in self.dom else None
            if a in self.dom or a in o.dom:
                sx, sy = self.set_of(a), o.set_of(a)
                if sx is not None and sy is not None:
                    u = sx | sy
                    if a.lo is None or len(u) < a.hi - a.lo + 1:
                        f.dom[a] = u
                continue
            b1, b2 = self.bounds(a), o.bounds(a)
            lo = None if b1[0] is None or b2[0] is None else min(b1[0], b2[0])
            hi = None if b1[1] is None or b2[1] is None else max(b1[1], b2[1])
            if (lo, hi) != (a.lo, a.hi):
                f.iv[a] = (lo, hi)
        for a in set(o.dom) - set(self.dom) - set(self.iv):
            sx, sy = self.set_of(a), o.set_of(a)
            if sx is not None and sy is not None and len(sx | sy) < a.hi - a.lo + 1:
                f.dom[a] = sx | sy
        f.cons = frozenset([c for c in self.cons if c in o.cons or (c not in o.cons and o.lin_le(c) is True)] +
                           [c for c in o.cons if c not in self.cons and self.lin_le(c) is True])
        f.ne = frozenset(l for l in self.ne if l in o.ne or o.lin_eq(l) is False)
        for v, val in self.lits.items():
            if o.var(v) == val:
                f.lits[v] = val
        f.clauses = self.clauses & o.clauses
        f.approx = self.approx or o.approx or not self._join_exact(o, f)
        return f

    def _join_exact(self, o, f):
        """The join describes exactly the union of the two: they agree except in one component."""
        if f.key() == self.key() or f.key() == o.key():
            return True
        if self.cons != o.cons or self.ne != o.ne or self.clauses != o.clauses:
            return False
        n = 0
        if self.lits != o.lits:
            if self.lits.keys() != o.lits.keys():
                return False
            n += sum(1 for v in self.lits if self.lits[v] != o.lits[v])
        if self.dom != o.dom:
            if self.dom.keys() != o.dom.keys():
                return False
            n += sum(1 for v in self.dom if self.dom[v] != o.dom[v])
        if self.iv != o.iv:
            for a in set(self.iv) | set(o.iv):
                x, y = self.bounds(a), o.bounds(a)
                if x != y:
                    n += 1
                    if None in (x[0], y[0]) and x[0] != y[0]:
                        if x[1] is None or y[1] is None:
                            if (x[1] is None) == (y[1] is None):
                                return False
                    lo, hi = (x, y) if (x[0] is None or (y[0] is not None and x[0] <= y[0])) else (y, x)
                    if hi[0] is not None and lo[1] is not None and hi[0] > lo[1] + 1:
                        return False
        return n <= 1

    def describe(self):
        r = []
        for a, s in self.dom.items():
            r.append("%r∈{%s}" % (a, ",".join(map(str, sorted(s)[:10])) + ("…" if len(s) > 10 else "")))
        for a, (lo, hi) in self.iv.items():
            r.append("%s<=%r<=%s" % (lo, a, hi))
        for l in self.cons:
            r.append("%r<=0" % (l,))
        for l in self.ne:
            r.append("%r!=0" % (l,))
        for v, b in self.lits.items():
            r.append(("" if b else "!") + repr(v))
        for c in self.clauses:
            r.append(repr(c))
        return "; ".join(r)


def _ceil_div(c, q):
    """smallest a with -q*a + c <= 0, q > 0"""
    return -((-c) // q)


# ---------------------------------------------------------------- polyhedral entailment

def lemmas(atoms):
    """Valid linear inequalities (l <= 0) about the given atoms, from their meaning."""
    out = []
    seen = set(atoms)
    masks = [a for a in atoms if a.kind == "mask"]
    ands = [a for a in atoms if a.kind == "and"]
    for a in ands:
        s, w = a.args
        for x in s:
            out.append(of_atom(a) - of_atom(x))
        for b in ands:
            if b is not a and b.args[1] == w and b.args[0] < s:
                out.append(of_atom(a) - of_atom(b))
        # x - x&m <= ones - m   for each word m of the conjunction
        full = (1 << w) - 1
        for m in s:
            rest = and_words([x for x in s if x is not m], w)
            out.append(rest - of_atom(a) - num(full) + of_atom(m))
    for a in [a for a in atoms if a.kind == "wv" and a.args[0].const and a.args[0].c == 1]:
        # the lowest host bit lies outside the mask
        out.append(of_atom(a) + a.args[1] - num((1 << a.w) - 1))
    for i, a in enumerate(masks):
        w, p = a.args
        for b in masks[i + 1:]:
            if b.args[0] == w:
                d = p - b.args[1]
                if d.const:
                    if d.c >= 0:
                        out.append(of_atom(b) - of_atom(a))
                    else:
                        out.append(of_atom(a) - of_atom(b))
                    # halving: 2^(w-p) relation for neighbouring prefixes
                    full = 1 << w
                    if d.c == 1:
                        # 2^w - mask(p-1) = 2*(2^w - mask(p)) , p>=1 and p<=w
                        pass
    # a population count is the sum of the counts of its parts
    pops = [a for a in atoms if a.kind == "pop"]
    if pops:
        bits = {}
        for a in atoms:
            if a.kind == "seg" and a.args[2] == 1:
                bits.setdefault(a.args[0], {})[a.args[1]] = a
        for a in pops:
            base, lo, n = a.args
            t, left = {a: 1}, n
            for i, x in bits.get(base, {}).items():
                if lo <= i < lo + n:
                    t[x] = t.get(x, 0) - 1
                    left -= 1
            for b in pops:
                if b is not a and b.args[0] is base and lo <= b.args[1] and b.args[1] + b.args[2] <= lo + n and b.args[2] < n:
                    r = range(b.args[1], b.args[1] + b.args[2])
                    if not any(i in r for i in bits.get(base, {})) and not any(
                            c.args[1] < r.stop and r.start < c.args[1] + c.args[2] for c in t if c.kind == "pop" and c is not a):
                        t[b] = -1
                        left -= b.args[2]
            if len(t) > 1:
                terms = tuple(sorted(t.items(), key=lambda q: q[0].uid))
                out.append(raw_lin(-left, terms))
                out.append(raw_lin(0, tuple((x, -k) for x, k in terms)))
    # a word is the weighted sum of its segments
    by = {}
    for a in atoms:
        if a.kind == "seg" and isinstance(a.args[0], Atom) and a.args[0].w:
            by.setdefault(a.args[0], []).append(a)
    for base, segs in by.items():
        cuts = {0, base.w}
        for a in segs:
            cuts |= {a.args[1], a.args[1] + a.args[2]}
        cuts = sorted(cuts)
        pieces = []
        for lo, hi in zip(cuts, cuts[1:]):
            x = seg(base, lo, hi - lo).single()
            if x is None:
                pieces = None
                break
            pieces.append((lo, x))
        if not pieces:
            continue
        whole = [base] if base in seen or len(segs) < len(pieces) else []
        for a in segs + whole:
            lo, n = (a.args[1], a.args[2]) if a is not base else (0, base.w)
            t = {a: 1}
            for l, x in pieces:
                if lo <= l < lo + n and x is not a:
                    t[x] = t.get(x, 0) - (1 << (l - lo))
            if len(t) > 1:
                terms = tuple(sorted(t.items(), key=lambda q: q[0].uid))
                out.append(raw_lin(0, terms))
                out.append(raw_lin(0, tuple((x, -k) for x, k in terms)))
    # a segment of a conjunction is at most the segment of each word of it
    for a in atoms | {x for l in out for x, _ in l.terms}:
        if a.kind == "seg" and isinstance(a.args[0], Atom) and a.args[0].kind == "and":
            for x in a.args[0].args[0]:
                out.append(of_atom(a) - seg(x, a.args[1], a.args[2]))
    return out


_lpc = {}


def lp_infeasible(facts, cons):
    """Exact rational test: is the conjunction of cons (each <= 0) with the atoms' bounds empty?"""
    check_time()
    if not cons:
        return False
    atoms = set()
    for c in cons:
        for a, _ in c.terms:
            atoms.add(a)
    cons = list(cons) + [l for l in lemmas(atoms)]
    for c in cons:
        for a, _ in c.terms:
            atoms.add(a)
    bnds = tuple(sorted(((a.uid,) + facts.bounds(a) for a in atoms)))
    key = (frozenset(cons), bnds)
    r = _lpc.get(key)
    if r is None:
        r = _simplex_infeasible(cons, {a: facts.bounds(a) for a in atoms})
        if len(_lpc) > 200000:
            _lpc.clear()
        _lpc[key] = r
    return r


def relevant(cons, goal_atoms):
    """Constraints connected to the goal through shared atoms."""
    todo = set(goal_atoms)
    out = []
    rest = list(cons)
    while True:
        add = [c for c in rest if any(a in todo for a, _ in c.terms)]
        if not add:
            break
        out += add
        rest = [c for c in rest if c not in add]
        for c in add:
            for a, _ in c.terms:
                todo.add(a)
    return out, rest


def entails(facts, l):
    """Does the fact set entail l <= 0 (polyhedral + integer tightening of the negation)?"""
    if l.const:
        return l.c <= 0
    b = lin_bounds(l, facts)
    if b[1] is not None and b[1] <= 0:
        return True
    if any(a.kind == "pop" for a, _ in l.terms):
        u = _pop_upper(facts, l)
        if u is not None and u <= 0:
            return True
    segd = None
    if not facts.cons and not any(a.kind in ("and", "mask", "pop", "wv") or a.kind == "seg" and isinstance(a.args[0], Atom) and a.args[0].kind in ("and", "mask")
                                  for a, _ in l.terms):
        segd = seg_atoms(facts, l)
        if not segd:
            return False
    for c in facts.cons:
        d = l - c
        if d.const and d.c <= 0:
            return True
    neg = num(1) - l
    goal = [a for a, _ in l.terms] + [x for a, _ in l.terms if a.kind == "and" for x in a.args[0]]
    segd = seg_atoms(facts, l)
    rel, _ = relevant(facts.cons, goal + list(segd))
    return lp_infeasible(facts, rel + [neg] + [raw_lin(-(1 << 200), ((a, 1),)) for a in segd])


def _pop_upper(facts, l):
    """Upper bound of a form after splitting population counts into the bits the form or the known
    literals mention and a remainder."""
    co = {}
    for a, k in l.terms:
        co[a] = co.get(a, 0) + k
    rem = 0
    for a in [a for a in co if a.kind == "pop"]:
        base, lo, n = a.args
        k = co.pop(a)
        bits = {x for x in co if x.kind == "seg" and x.args[0] is base and x.args[2] == 1 and lo <= x.args[1] < lo + n}
        for v in facts.lits:
            if v.kind == "bit" and v.args[0] is base and lo <= v.args[1] < lo + n:
                t = seg(base, v.args[1], 1).single()
                if t is not None:
                    bits.add(t)
        for x in bits:
            co[x] = co.get(x, 0) + k
        left = n - len(bits)
        if k > 0:
            rem += k * left
    u = l.c + rem
    for x, k in co.items():
        if not k:
            continue
        b = facts.bounds(x)
        y = b[1] if k > 0 else b[0]
        if y is None:
            return None
        u += k * y
    return u


def seg_atoms(facts, l):
    """Segments, known to the facts, of words mentioned in the goal (and the other way round)."""
    ws = set()
    for a, _ in l.terms:
        if a.w and a.w >= 8:
            ws.add(a.args[0] if a.kind == "seg" and isinstance(a.args[0], Atom) else a)
    if not ws:
        return ()
    out = set()
    for c in facts.cons:
        for a, _ in c.terms:
            if a.kind == "seg" and a.args[0] in ws or a in ws:
                out.add(a)
    for a in facts.iv:
        if a.kind == "seg" and a.args[0] in ws or a in ws:
            out.add(a)
    for a in facts.dom:
        if a.kind == "seg" and a.args[0] in ws or a in ws:
            out.add(a)
    return out - {a for a, _ in l.terms}


def _simplex_infeasible(cons, bounds):
    """Phase-1 simplex with exact fractions.  Variables are shifted to be non-negative."""
    # substitution x = lo + y (y>=0) | x = hi - y | x = y1 - y2
    cols = {}
    n = 0
    rows = []
    sub = {}
    extra = []
    for a, (lo, hi) in bounds.items():
        if lo is not None and hi is not None and lo > hi:
            return True
        if lo is not None:
            sub[a] = (lo, [(n, 1)])
            if hi is not None:
                extra.append(({n: 1}, hi - lo))
            n += 1
        elif hi is not None:
            sub[a] = (hi, [(n, -1)])
            n += 1
        else:
            sub[a] = (0, [(n, 1), (n + 1, -1)])
            n += 2
    for c in cons:
        r = {}
        rhs = -c.c
        for a, k in c.terms:
            off, vs = sub[a]
            rhs -= k * off
            for j, s in vs:
                r[j] = r.get(j, 0) + k * s
        r = {j: k for j, k in r.items() if k}
        if not r:
            if rhs < 0:
                return True
            continue
        extra.append((r, rhs))
    rows = [x for x in extra]
    # quick: upper-bound rows with huge counts are fine
    m = len(rows)
    # tableau with slacks; artificials for negative rhs
    T = []
    basis = []
    nart = 0
    art_rows = []
    for i, (r, rhs) in enumerate(rows):
        row = {j: Fraction(k) for j, k in r.items()}
        row[n + i] = Fraction(1)
        rhs = Fraction(rhs)
        if rhs < 0:
            row = {j: -k for j, k in row.items()}
            rhs = -rhs
            art_rows.append(i)
            basis.append(None)
        else:
            basis.append(n + i)
        T.append([row, rhs])
    if not art_rows:
        return False
    av = n + m
    for i in art_rows:
        T[i][0][av] = Fraction(1)
        basis[i] = av
        av += 1
    first_art = n + m
    # objective: minimise sum of artificials
    z = {}
    zr = Fraction(0)
    for i in art_rows:
        for j, k in T[i][0].items():
            if j < first_art:
                z[j] = z.get(j, 0) + k
        zr += T[i][1]
    it = 0
    while True:
        it += 1
        if zr == 0:
            return False
        ent = None
        for j in sorted(z):
            if z[j] > 0 and j < first_art:
                ent = j
                break
        if ent is None:
            return zr > 0
        best = None
        for i in range(m):
            k = T[i][0].get(ent)
            if k is not None and k > 0:
                q = T[i][1] / k
                if best is None or q < best[0] or (q == best[0] and basis[i] < basis[best[1]]):
                    best = (q, i)
        if best is None or it > 2000:
            return False
        i = best[1]
        row, rhs = T[i]
        p = row[ent]
        row = {j: k / p for j, k in row.items()}
        rhs = rhs / p
        T[i] = [row, rhs]
        for h in range(m):
            if h != i:
                k = T[h][0].get(ent)
                if k:
                    r2 = T[h][0]
                    for j, v in row.items():
                        x = r2.get(j, 0) - k * v
                        if x:
                            r2[j] = x
                        else:
                            r2.pop(j, None)
                    T[h][1] -= k * rhs
        k = z.get(ent)
        if k:
            for j, v in row.items():
                if j < first_art:
                    x = z.get(j, 0) - k * v
                    if x:
                        z[j] = x
                    else:
                        z.pop(j, None)
            zr -= k * rhs
        basis[i] = ent
