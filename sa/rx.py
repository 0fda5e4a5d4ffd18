"""Regular expressions and abstract texts as automata.

A text of the abstract domain is a sequence of pieces (literals, numbers written in a base, symbolic
parts with a character class and length bounds) and so denotes a regular language.  This module
decides inclusion and disjointness between such a language and the language of a regex found in the
program, and the positions at which the regex's groups must open and close."""

ASCII = 128
OTHER = ASCII            # stands for every character outside ASCII
NSYM = ASCII + 1
FULL = (1 << NSYM) - 1


class Unsupported(Exception):
    pass


def cs(chars):
    r = 0
    for c in chars:
        o = ord(c)
        r |= 1 << (o if o < ASCII else OTHER)
    return r


DIGITS = cs("0123456789")
WORD = DIGITS | cs("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
SPACE = cs(" \t\n\r\x0b\x0c")


class Parser:
    """Subset of the regex crate's syntax; anything else raises Unsupported."""

    def __init__(self, s):
        self.s, self.i, self.groups = s, 0, []
        self.icase = False

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def parse(self):
        while self.s.startswith("(?", self.i) and ")" in self.s[self.i:]:
            j = self.s.index(")", self.i)
            fl = self.s[self.i + 2:j]
            if fl == "i":
                self.icase = True
            elif fl in ("s", "u", "x" if False else "s"):
                pass
            elif fl == "-u":
                raise Unsupported("flag")
            else:
                break
            self.i = j + 1
        r = self.alt()
        if self.i != len(self.s):
            raise Unsupported("at %d" % self.i)
        return r

    def alt(self):
        xs = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def seq(self):
        xs = []
        while self.peek() not in ("", "|", ")"):
            xs.append(self.rep(self.atom()))
        return ("seq", xs)

    def rep(self, a):
        while True:
            c = self.peek()
            if c == "?":
                lo, hi = 0, 1
                self.i += 1
            elif c == "*":
                lo, hi = 0, None
                self.i += 1
            elif c == "+":
                lo, hi = 1, None
                self.i += 1
            elif c == "{":
                j = self.s.index("}", self.i)
                b = self.s[self.i + 1:j].split(",")
                self.i = j + 1
                lo = int(b[0])
                hi = lo if len(b) == 1 else (int(b[1]) if b[1].strip() else None)
                if (hi or 0) > 200 or lo > 200:
                    raise Unsupported("large repetition")
            else:
                return a
            if self.peek() == "?":
                self.i += 1        # laziness does not change the language
            a = ("rep", a, lo, hi)

    def fold(self, m):
        if not self.icase:
            return m
        for k in range(26):
            u, l = 1 << (65 + k), 1 << (97 + k)
            if m & (u | l):
                m |= u | l
        return m

    def esc(self, c):
        if c == "d":
            return DIGITS | (1 << OTHER)
        if c == "D":
            return FULL & ~DIGITS
        if c == "w":
            return WORD | (1 << OTHER)
        if c == "s":
            return SPACE | (1 << OTHER)
        if c in "ntr":
            return cs({"n": "\n", "t": "\t", "r": "\r"}[c])
        if c.isalnum():
            raise Unsupported("escape " + c)
        return cs(c)

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == "(":
            name = None
            cap = True
            if self.peek() == "?":
                if self.s.startswith("?:", self.i):
                    self.i += 2
                    cap = False
                else:
                    for pre in ("?P<", "?<"):
                        if self.s.startswith(pre, self.i):
                            j = self.s.index(">", self.i)
                            name = self.s[self.i + len(pre):j]
                            self.i = j + 1
                            break
                    else:
                        raise Unsupported("group")
            n = None
            if cap:
                n = len(self.groups) + 1
                self.groups.append(name)
            r = self.alt()
            if self.peek() != ")":
                raise Unsupported("unbalanced")
            self.i += 1
            return ("grp", r, n) if cap else r
        if c == "[":
            return ("set", self.fold(self.cls()))
        if c == ".":
            return ("set", FULL & ~cs("\n"))
        if c == "^":
            return ("bol",)
        if c == "$":
            return ("eol",)
        if c == "\\":
            e = self.peek()
            self.i += 1
            if e == "A":
                return ("bol",)
            if e == "z":
                return ("eol",)
            return ("set", self.fold(self.esc(e)))
        if c in "*+?{":
            raise Unsupported("dangling " + c)
        return ("set", self.fold(cs(c)))

    def cls(self):
        neg = False
        if self.peek() == "^":
            neg = True
            self.i += 1
        m = 0
        first = True
        while self.peek() != "]" or first:
            c = self.peek()
            if c == "":
                raise Unsupported("class")
            first = False
            self.i += 1
            if c == "[":
                if self.peek() == ":":
                    j = self.s.index(":]", self.i)
                    n = self.s[self.i + 1:j]
                    self.i = j + 2
                    t = {"digit": DIGITS, "xdigit": cs("0123456789abcdefABCDEF"), "alpha": WORD & ~DIGITS & ~cs("_"), "alnum": WORD & ~cs("_"), "space": SPACE}.get(n)
                    if t is None:
                        raise Unsupported("posix class")
                    m |= t
                    continue
                raise Unsupported("nested class")
            if c == "&" and self.peek() == "&":
                raise Unsupported("class operator")
            if c == "\\":
                e = self.peek()
                self.i += 1
                m |= self.esc(e)
                continue
            if self.peek() == "-" and self.i + 1 < len(self.s) and self.s[self.i + 1] != "]":
                self.i += 1
                d = self.peek()
                self.i += 1
                if d == "\\":
                    d = self.peek()
                    self.i += 1
                if ord(d) >= ASCII or ord(c) > ord(d):
                    raise Unsupported("range")
                for o in range(ord(c), ord(d) + 1):
                    m |= 1 << o
                continue
            m |= cs(c)
        self.i += 1
        return FULL & ~m if neg else m


class Nfa:
    """States with epsilon edges carrying an optional marker, and class edges."""

    def __init__(self):
        self.eps, self.cls = [], []
        self.start = self.acc = None

    def new(self):
        self.eps.append([])
        self.cls.append([])
        return len(self.eps) - 1

    def closure(self, ss):
        seen, todo = set(ss), list(ss)
        while todo:
            x = todo.pop()
            for y, _ in self.eps[x]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return frozenset(seen)


def compile_rx(pattern):
    p = Parser(pattern)
    t = p.parse()
    n = Nfa()
    n.groups = p.groups
    # anchors may only stand at the very ends of the pattern
    bol = eol = False
    if t[0] == "seq":
        xs = list(t[1])
        if xs and xs[0] == ("bol",):
            bol = True
            xs = xs[1:]
        if xs and xs[-1] == ("eol",):
            eol = True
            xs = xs[:-1]
        t = ("seq", xs)

    def build(t, a):
        k = t[0]
        if k == "set":
            b = n.new()
            n.cls[a].append((t[1], b))
            return b
        if k == "seq":
            for x in t[1]:
                a = build(x, a)
            return a
        if k == "alt":
            e = n.new()
            for x in t[1]:
                s = n.new()
                n.eps[a].append((s, None))
                n.eps[build(x, s)].append((e, None))
            return e
        if k == "grp":
            s = n.new()
            n.eps[a].append((s, ("open", t[2])))
            b = build(t[1], s)
            e = n.new()
            n.eps[b].append((e, ("close", t[2])))
            return e
        if k == "rep":
            lo, hi = t[2], t[3]
            for _ in range(lo):
                a = build(t[1], a)
            if hi is None:
                h = n.new()
                n.eps[a].append((h, None))
                b = build(t[1], h)
                n.eps[b].append((h, None))
                e = n.new()
                n.eps[h].append((e, None))
                return e
            e = n.new()
            n.eps[a].append((e, None))
            for _ in range(hi - lo):
                a = build(t[1], a)
                n.eps[a].append((e, None))
            return e
        raise Unsupported(k)

    n.start = n.new()
    a = n.start
    if not bol:
        n.cls[a].append((FULL, a))
        b = n.new()
        n.eps[a].append((b, None))
        a = b
    e = build(t, a)
    if not eol:
        n.cls[e].append((FULL, e))
    n.acc = e
    return n


# ---------------------------------------------------------------- languages of abstract texts

def chain(parts):
    """NFA of a sequence of (charset mask, lo, hi or None); state -> position (part, offset)."""
    n = Nfa()
    a = n.start = n.new()
    n.pos = {a: (0, 0)}
    for i, part in enumerate(parts):
        if len(part) == 4:
            # a part with a language of its own
            l = part[3]
            new = {l.start: a}
            for x in range(len(l.cls)):
                if x not in new:
                    new[x] = n.new()
                    n.pos[new[x]] = (i, 1)
            for x in range(len(l.cls)):
                n.cls[new[x]] += [(m, new[y]) for m, y in l.cls[x]]
            e = n.new()
            for x in l.finals:
                n.eps[new[x]].append((e, None))
            n.pos[e] = (i + 1, 0)
            a = e
            continue
        m, lo, hi = part
        for k in range(lo):
            b = n.new()
            n.cls[a].append((m, b))
            n.pos[b] = (i, k + 1)
            a = b
        if hi is None:
            if lo:
                n.cls[a].append((m, a))
            else:
                b = n.new()
                n.cls[a].append((m, b))
                n.cls[b].append((m, b))
                n.pos[b] = (i, 1)
                e = n.new()
                n.eps[a].append((e, None))
                n.eps[b].append((e, None))
                n.pos[e] = (i + 1, 0)
                a = e
                continue
        elif hi > lo:
            ends = [a]
            for k in range(hi - lo):
                b = n.new()
                n.cls[a].append((m, b))
                n.pos[b] = (i, lo + k + 1)
                a = b
                ends.append(b)
            e = n.new()
            for x in ends:
                n.eps[x].append((e, None))
            n.pos[e] = (i + 1, 0)
            a = e
            continue
        # leave the part
        e = n.new()
        n.eps[a].append((e, None))
        n.pos[e] = (i + 1, 0)
        a = e
    n.acc = a
    return n


_langs = {}


def patterns(e):
    return [e] if isinstance(e, str) or e[0] == "cls" else [p for x in e[1:] for p in patterns(x)]


def leaf(e):
    if isinstance(e, str):
        return compile_rx(e)
    n = Nfa()
    n.start = n.acc = n.new()
    n.cls[n.start].append((e[1], n.start))
    return n


def language(expr):
    """Deterministic automaton of a Boolean combination of (anchored) patterns: a pattern, ("not", e), ("and", e...) or ("or", e...)."""
    if expr in _langs:
        return _langs[expr]
    ps = sorted(set(patterns(expr)), key=repr)
    ns = [leaf(p) for p in ps]
    ix = {p: i for i, p in enumerate(ps)}
    bl = classes(*ns)

    def holds(e, t):
        if isinstance(e, str) or e[0] == "cls":
            return ns[ix[e]].acc in t[ix[e]]
        if e[0] == "not":
            return not holds(e[1], t)
        return (all if e[0] == "and" else any)(holds(x, t) for x in e[1:])

    s0 = tuple(n.closure([n.start]) for n in ns)
    num = {s0: 0}
    todo, trans = [s0], []
    for t in todo:
        row = []
        for b in bl:
            u = tuple(n.closure([y for x in q for m, y in n.cls[x] if m & b]) for n, q in zip(ns, t))
            if u not in num:
                if len(num) > 60000:
                    raise Unsupported("language too large")
                num[u] = len(todo)
                todo.append(u)
            row.append(num[u])
        trans.append(row)
    acc = [holds(expr, t) for t in todo]
    # minimise
    part = [int(a) for a in acc]
    k = len(set(part))
    while True:
        sig = {}
        part2 = [sig.setdefault((part[i], tuple(part[j] for j in trans[i])), len(sig)) for i in range(len(part))]
        if len(sig) == k:
            break
        part, k = part2, len(sig)
    rep = {}
    for i, c in enumerate(part):
        rep.setdefault(c, i)
    # states from which acceptance is possible
    back = {}
    for c, i in rep.items():
        for j in trans[i]:
            back.setdefault(part[j], set()).add(c)
    live = {c for c, i in rep.items() if acc[i]}
    todo = list(live)
    while todo:
        for c in back.get(todo.pop(), ()):
            if c not in live:
                live.add(c)
                todo.append(c)
    n = Nfa()
    n.start = n.new()
    at = {}
    for c in live:
        at[c] = n.new()

    def edges(c):
        es = {}
        for b, j in zip(bl, trans[rep[c]]):
            if part[j] in live:
                es[at[part[j]]] = es.get(at[part[j]], 0) | b
        return [(m, y) for y, m in es.items()]
    for c in live:
        n.cls[at[c]] = edges(c)
    c0 = part[0]
    n.finals = {at[c] for c in live if acc[rep[c]]}
    if c0 in live:
        n.cls[n.start] = edges(c0)
        if acc[rep[c0]]:
            n.finals.add(n.start)
    # characters and lengths
    n.mask = 0
    reach, todo = {n.start}, [n.start]
    while todo:
        for m, y in n.cls[todo.pop()]:
            n.mask |= m
            if y not in reach:
                reach.add(y)
                todo.append(y)
    level, d, n.lo = {n.start}, 0, None
    for d in range(len(n.cls) + 1):
        if level & n.finals:
            n.lo = d
            break
        level = {y for x in level for m, y in n.cls[x]}
    level, n.hi = {n.start}, 0
    for d in range(len(n.cls) + 1):
        if level & n.finals:
            n.hi = d
        level = {y for x in level for m, y in n.cls[x]}
        if not level:
            break
    else:
        n.hi = None
    n.acc = n.new()
    for x in n.finals:
        n.eps[x].append((n.acc, None))
    _langs[expr] = n
    return n


def member(l, t):
    ss = {l.start}
    for ch in t:
        m = cs(ch)
        ss = {y for x in ss for k, y in l.cls[x] if k & m}
        if not ss:
            return False
    return bool(ss & l.finals)


def sample(l, rng, stop=.3):
    """A random member of a language."""
    # distance to acceptance
    if not hasattr(l, "dist"):
        l.dist = {x: 0 for x in l.finals}
        todo = list(l.finals)
        back = {}
        for x in range(len(l.cls)):
            for m, y in l.cls[x]:
                back.setdefault(y, []).append(x)
        for x in todo:
            for y in back.get(x, ()):
                if y not in l.dist:
                    l.dist[y] = l.dist[x] + 1
                    todo.append(y)
    if l.start not in l.dist:
        return None
    x, out, home = l.start, [], False
    while True:
        if x in l.finals and (home or not l.cls[x] or rng.random() < stop):
            return "".join(out)
        if len(out) > 30:
            home = True
        es = l.cls[x]
        if home or rng.random() < .15:
            d = min(l.dist[y] for m, y in es)
            es = [e for e in es if l.dist[e[1]] == d]
        m, x = rng.choice(es)
        c = [o for o in range(NSYM) if m >> o & 1]
        nice = [o for o in c if chr(o).isalnum() or chr(o) in ".:/-"] or c
        o = rng.choice(nice)
        out.append(chr(o) if o < ASCII else "\u0661")


def classes(*nfas):
    """Partition of the alphabet into blocks the automata cannot tell apart."""
    ms = set()
    for n in nfas:
        for es in n.cls:
            for m, _ in es:
                ms.add(m)
    blocks = [FULL]
    for m in ms:
        nb = []
        for b in blocks:
            for x in (b & m, b & ~m):
                if x:
                    nb.append(x)
        blocks = nb
    return blocks


def relate(l, r, limit=200000):
    """('in' | 'out' | 'part', shortest text in l not in r, shortest text in both) for two automata."""
    bl = classes(l, r)
    reps = [(b & -b).bit_length() - 1 for b in bl]
    s0 = (l.closure([l.start]), r.closure([r.start]))
    prev = {s0: None}
    todo = [s0]
    miss = both = None
    for st in todo:
        ls, rs = st
        if l.acc in ls:
            if r.acc in rs:
                both = both if both is not None else st
            else:
                miss = miss if miss is not None else st
        for b, c in zip(bl, reps):
            nl = [y for x in ls for m, y in l.cls[x] if m & b]
            if not nl:
                continue
            nr = [y for x in rs for m, y in r.cls[x] if m & b]
            t = (l.closure(nl), r.closure(nr))
            if t not in prev:
                if len(prev) > limit:
                    raise Unsupported("automaton too large")
                prev[t] = (st, b)
                todo.append(t)

    def text(st):
        if st is None:
            return None
        out = []
        while prev[st] is not None:
            st, b = prev[st]
            out.append(char_of(b))
        return "".join(reversed(out))
    k = "in" if miss is None else "out" if both is None else "part"
    return k, text(miss), text(both)


def char_of(b):
    for pref in "0123456789abcdefABCDEF:./-+ ":
        if b >> ord(pref) & 1:
            return pref
    for o in range(33, 127):
        if b >> o & 1:
            return chr(o)
    c = (b & -b).bit_length() - 1
    return chr(c) if c < ASCII else "\u0661"


def groups(l, r):
    """For l included in r, over all accepting runs:
    {group number: (part boundaries at which it opens, at which it closes, taken always, taken never)}."""
    # product with epsilon moves; each side's epsilon moves are separate edges
    start = (l.start, r.start)
    succ = {}
    seen = {start}
    todo = [start]
    while todo:
        x = todo.pop()
        a, b = x
        out = []
        for y, _ in l.eps[a]:
            out.append(((y, b), None))
        for y, mk in r.eps[b]:
            out.append(((a, y), mk))
        for m, y in l.cls[a]:
            for m2, z in r.cls[b]:
                if m & m2:
                    out.append(((y, z), None))
        succ[x] = out
        for y, _ in out:
            if y not in seen:
                if len(seen) > 400000:
                    raise Unsupported("product too large")
                seen.add(y)
                todo.append(y)
    # co-accessible part
    acc = (l.acc, r.acc)
    pred = {}
    for x, es in succ.items():
        for y, _ in es:
            pred.setdefault(y, []).append(x)
    good = {acc} if acc in seen else set()
    todo = list(good)
    while todo:
        for x in pred.get(todo.pop(), ()):
            if x not in good:
                good.add(x)
                todo.append(x)
    def place(x, y):
        """Boundary index of a marker on the edge x -> y, or None when it is not pinned down."""
        i, k = l.pos[x[0]]
        if k == 0:
            return i
        seen3, todo = {y}, [y]
        while todo:
            z = todo.pop()
            if any(m & m2 and (t, u) in good and l.pos[z[0]][0] == i for m, t in l.cls[z[0]] for m2, u in r.cls[z[1]]):
                return None
            for t in [(t, z[1]) for t, _ in l.eps[z[0]]] + [(z[0], t) for t, _ in r.eps[z[1]]]:
                if t in good and t not in seen3:
                    seen3.add(t)
                    todo.append(t)
        return i + 1

    res = {}
    for g in range(1, len(r.groups) + 1):
        opens, closes = set(), set()
        for x in good:
            for y, mk in succ[x]:
                if y in good and mk is not None and mk[1] == g:
                    (opens if mk[0] == "open" else closes).add(place(x, y))
        # is there an accepting run avoiding the group?
        seen2, todo, avoid = {start}, [start] if start in good else [], False
        while todo:
            x = todo.pop()
            if x == acc:
                avoid = True
                break
            for y, mk in succ[x]:
                if y in good and y not in seen2 and not (mk is not None and mk == ("open", g)):
                    seen2.add(y)
                    todo.append(y)
        res[g] = (opens, closes, not avoid, not opens)
    return res
