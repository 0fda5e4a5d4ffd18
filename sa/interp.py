"""Path-partitioned abstract interpreter over resolved, monomorphised MIR."""
from dataclasses import dataclass
from . import dom as D
from .dom import Lin, BF, TRUE, FALSE, num


# ------------------------------------------------------------------ values

class Val:
    __slots__ = ()


def _cached_hash(cls):
    base = cls.__hash__

    def h(self):
        try:
            return self.__dict__["_h"]
        except KeyError:
            v = base(self)
            object.__setattr__(self, "_h", v)
            return v
    cls.__hash__ = h
    return cls


@_cached_hash
@dataclass(frozen=True, repr=False)
class VTuple:
    items: tuple

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


@_cached_hash
@dataclass(frozen=True, repr=False)
class VAdt:
    ty: object
    variant: int
    fields: tuple

    def __repr__(self):
        t = self.ty
        n = t.s.split("<")[0].split("::")[-1] if t.k == "adt" else t.k
        if t.k == "adt" and t.d["adt_kind"] == "enum":
            n = t.variants[self.variant]["n"]
        return n + ("(%s)" % ", ".join(map(repr, self.fields)) if self.fields else "")


@_cached_hash
@dataclass(frozen=True, repr=False)
class VArr:
    items: tuple

    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.items))


@_cached_hash
@dataclass(frozen=True, repr=False)
class VSymSeq:
    """Symbolic sequence: a view of `ln` elements of the named sequence starting at `off`."""
    name: str
    elem: object
    ln: Lin
    off: Lin

    def __repr__(self):
        return "%s[%r..+%r]" % (self.name, self.off, self.ln)


@_cached_hash
@dataclass(frozen=True, repr=False)
class VSeq:
    """Vec or slice contents: an optional symbolic prefix followed by known items."""
    pre: object
    items: tuple

    def __repr__(self):
        return "seq[%s%s]" % ("%r ++ " % (self.pre,) if self.pre else "", ", ".join(map(repr, self.items)))


@_cached_hash
@dataclass(frozen=True, repr=False)
class VGSeq:
    """Vec or slice contents with conditionally present items: ((guard, item), ...)."""
    items: tuple

    def __repr__(self):
        return "gseq[%d items]" % len(self.items)


def gseq(items):
    items = tuple((g, x) for g, x in items if g is not FALSE)
    if all(g is TRUE for g, _ in items):
        return VSeq(None, tuple(x for _, x in items))
    return VGSeq(items)


def gitems(v):
    if isinstance(v, VGSeq):
        return v.items
    if isinstance(v, VArr) or (isinstance(v, VSeq) and v.pre is None):
        return tuple((TRUE, x) for x in v.items)
    return None


def gthreshold(v):
    """For items guarded by i < p (or by i >= p): (p, "lo" | "hi")."""
    for i, (g, _) in enumerate(v.items):
        if g is not TRUE and len(g.vars) == 1:
            a = g.vars[0]
            c = []
            if a.kind == "in":
                c = [D.of_atom(a.args[0])]
            elif a.kind == "cmp":
                c = [num(i + 1) - a.args[0], a.args[0] + i]
            for p in c:
                for q in (p, p - 1, p + 1):
                    if g is D.lt(num(i), q) and all(h is D.lt(num(j), q) for j, (h, _) in enumerate(v.items)):
                        return q, "lo"
                    if g is D.le(q, num(i)) and all(h is D.le(q, num(j)) for j, (h, _) in enumerate(v.items)):
                        return q, "hi"
            return None
    return None


@_cached_hash
@dataclass(frozen=True, repr=False)
class VStr:
    pieces: tuple

    def __repr__(self):
        return "str" + repr(list(self.pieces))

    def taint_reason(self):
        for p in self.pieces:
            if isinstance(p, str):
                continue
            if p[0] == "sym" and len(p) == 3:
                return p[2]
            if p[0] == "unknown":
                return "unknown text"
            t = D.taint_of(p)
            if t:
                return t
        return None


@_cached_hash
@dataclass(frozen=True, repr=False)
class VPtr:
    oid: object
    path: tuple

    def __repr__(self):
        return "&%r%s" % (self.oid, "".join(".%r" % (p,) for p in self.path))


@_cached_hash
@dataclass(frozen=True, repr=False)
class VRef:
    """Reference to an anonymous immutable value."""
    v: object

    def __repr__(self):
        return "&" + repr(self.v)


@_cached_hash
@dataclass(frozen=True, repr=False)
class VFn:
    ty: object

    def __repr__(self):
        return "fn:" + self.ty.s


@_cached_hash
@dataclass(frozen=True, repr=False)
class VSym:
    """Symbolic value of a structured type, expanded on demand."""
    name: str
    ty: object
    taint: object = None

    def __repr__(self):
        return "<%s>" % self.name

    def taint_reason(self):
        return self.taint


@_cached_hash
@dataclass(frozen=True, repr=False)
class VOp:
    """Library object with a known abstract meaning: iterators, formatters, hash containers, ..."""
    kind: str
    args: tuple

    def __repr__(self):
        return "%s{%s}" % (self.kind, ", ".join(map(repr, self.args)))


@_cached_hash
@dataclass(frozen=True, repr=False)
class VTop:
    why: str

    def __repr__(self):
        return "⊤(%s)" % self.why

    def taint_reason(self):
        return self.why


UNIT = VTuple(())


def lit(s):
    return VStr((s,)) if s else VStr(())


def cat(*strs):
    out = []
    for s in strs:
        for p in s.pieces:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
    return VStr(tuple(out))


def pushed(u, v):
    """The character that makes u into v when appended."""
    for c in (v.pieces[-1][-1:] if v.pieces and isinstance(v.pieces[-1], str) else ""):
        if cat(u, lit(c)) == v:
            return c
    if u.pieces and v.pieces and u.pieces[:-1] == v.pieces[:-1] and u.pieces[-1][0] == v.pieces[-1][0] == "rep" and \
            u.pieces[-1][1] == v.pieces[-1][1] and v.pieces[-1][2] == u.pieces[-1][2] + 1:
        return u.pieces[-1][1]
    return None


def strlen_of(p):
    """Length in bytes of a piece."""
    from . import text, rx
    m, lo, hi = text.piece_class(p)
    if hi is not None and m & rx.cs("\u0661"):
        hi *= 4
    if lo == hi:
        return num(lo)
    return D.of_atom(D.atom("strlen", (p,), lo, (1 << 62) if hi is None else hi, taint=D.taint_of(p)))


class Undecided(Exception):
    """The analysis met a construct outside its models; carries the reason."""


def close(a, b):
    """The two fact sets differ in about one component, so that their join may be lossless."""
    if a.clauses != b.clauses:
        return False
    n = len(a.cons ^ b.cons) + len(a.ne ^ b.ne)
    if n > 2:
        return False
    for x, y in ((a.dom, b.dom), (a.iv, b.iv), (a.lits, b.lits)):
        for k, v in x.items():
            if y.get(k) != v:
                n += 1
                if n > 2:
                    return False
        for k in y:
            if k not in x:
                n += 1
        if n > 2:
            return False
    return True


class Budget(Exception):
    pass


# ------------------------------------------------------------------ state

class State:
    __slots__ = ("store", "facts", "ghost")

    def __init__(self, store=None, facts=None, ghost=None):
        self.store = store if store is not None else {}
        self.facts = facts if facts is not None else D.Facts()
        self.ghost = ghost if ghost is not None else {}

    def copy(self):
        return State(dict(self.store), self.facts, dict(self.ghost))

    def assume(self, b):
        f = self.facts.assume(b)
        if f.bot:
            return None
        if f is self.facts:
            return self
        s = State(dict(self.store), f, dict(self.ghost))
        return s

    def split(self, b):
        """(state where b, state where not b); either may be None."""
        r = self.facts.ev(b)
        if r is True:
            return self, None
        if r is False:
            return None, self
        return self.assume(b), self.assume(D.b_not(b))


class Frame:
    __slots__ = ("fn", "depth", "fid", "parent", "callsite")

    def __init__(self, fn, depth, parent=None, callsite=None):
        self.fn, self.depth, self.parent, self.callsite = fn, depth, parent, callsite
        self.fid = (depth, fn.id)

    def oid(self, l):
        return (self.depth, self.fn.id, l)

    def chain(self):
        r = []
        f = self
        while f:
            r.append(f.fn.path)
            f = f.parent
        return r


class Obligation:
    __slots__ = ("kind", "key", "ok", "detail", "where", "taint")

    def __init__(self, kind, key, ok, detail, where, taint):
        self.kind, self.key, self.ok, self.detail, self.where, self.taint = kind, key, ok, detail, where, taint


INT_RANGES = {}


def int_range(ty):
    b = ty.bits
    if ty.signed:
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << b) - 1


class Interp:
    MAXSTATES = 3000
    MAXLOOP = 1200
    MAXUNDEC = 24
    MAXOPEN = 1 << 30     # rounds that both end and go on before a loop is summarised
    PREFIX = 4

    def __init__(self, prog, models=None, overrides=None, opaque_local=None):
        self.prog = prog
        self.models = models
        self.overrides = overrides or {}
        self.muted = 0
        self.obligs = {}
        self.events = []
        self.on_event = None
        self.on_panic = None
        self.on_oblig = None
        self.unmodelled = {}
        self.visited_fns = {}
        self.calls_seen = 0
        self.blocks_seen = 0
        self.symtrip = False
        self.depth_limit = 60
        self.loop_hook = None
        self.inline_std = True
        self.loop_log = []
        self.net_info = None
        self.candidate_hook = None
        self.hash_order = None
        self.cur_frame = None
        self.strict = False
        self.prefix_only = False
        self.truncated = False
        self.fails = []

    # -------------------------------------------------------------- obligations

    def oblige(self, kind, key, st, cond, detail="", where="?"):
        """Record that boolean `cond` must hold in state st.  Returns the decided truth."""
        r = st.facts.ev(cond) if isinstance(cond, BF) else cond
        if not self.muted:
            t = None
            if r is not True:
                t = D.taint_of(cond) if isinstance(cond, BF) else None
            self._rec(kind, key, r is True, detail, where, t)
            if r is not True and len(self.fails) < 400:
                self.fails.append((kind, key, st.facts, cond, detail, where))
            if self.on_oblig:
                self.on_oblig(kind, key, st, cond, r, where)
        return r

    def _rec(self, kind, key, ok, detail, where, taint):
        k = (kind, key)
        o = self.obligs.get(k)
        if o is None:
            self.obligs[k] = Obligation(kind, key, ok, detail, where, taint)
        elif not ok and o.ok:
            o.ok, o.detail, o.where, o.taint = False, detail, where, taint
        elif not ok and o.taint and not taint:
            o.detail, o.where, o.taint = detail, where, taint

    def note_unmodelled(self, what, where):
        if not self.muted:
            self.unmodelled.setdefault(what, where)

    # -------------------------------------------------------------- typed symbols

    def sym_value(self, ty, name, taint=None):
        k = ty.k
        if k == "int":
            lo, hi = int_range(ty)
            return D.sym(name, lo, hi, taint)
        if k == "bool":
            return D.bvar(D.atom("pred", (name,), 0, 1, taint=taint))
        if k == "char":
            return D.sym(name, 0, 0x10FFFF, taint)
        if k == "str":
            return VStr((("sym", name),)) if not taint else VStr((("sym", name, taint),))
        if k == "tuple":
            return VTuple(tuple(self.sym_value(ty.field_ty(0, i), "%s.%d" % (name, i), taint) for i in range(len(ty.d["ts"]))))
        if k == "ref" or k == "ptr":
            inner = ty.inner
            if inner.k == "str":
                return self.sym_value(inner, name, taint)
            return VRef(self.sym_value(inner, name, taint))
        if k == "slice":
            return VSeq(VSymSeq(name, ty.inner, D.sym("len(%s)" % name, 0, (1 << 63) - 1, taint), num(0)), ())
        if k == "array" and "n" in ty.d and ty.d["n"] <= 256:
            return VArr(tuple(self.sym_value(ty.inner, "%s[%d]" % (name, i), taint) for i in range(ty.d["n"])))
        if k == "adt":
            p = ty.path
            if p == "std::vec::Vec":
                return VSeq(VSymSeq(name, ty.args[0], D.sym("len(%s)" % name, 0, (1 << 63) - 1, taint), num(0)), ())
            if p == "std::fmt::Formatter":
                return VOp("fmtr", (VStr(()),))
            if p == "std::string::String":
                return VStr((("sym", name),)) if not taint else VStr((("sym", name, taint),))
            if ty in self.prog.addr_types:
                return self.addr_value(ty, D.word(name, self.addr_width(ty), taint))
            if p in ("num_bigint::BigInt",):
                return D.sym(name, None, None, taint)
            if p in ("num_bigint::BigUint",):
                return D.sym(name, 0, None, taint)
            if self.net_info and p == self.net_info["path"]:
                return self.net_value(ty, name, taint)
            if ty.d["adt_kind"] == "struct" and ty.d.get("local"):
                return VAdt(ty, 0, tuple(self.sym_value(ty.field_ty(0, i), "%s.%s" % (name, f["n"]), taint)
                                         for i, f in enumerate(ty.variants[0]["f"])))
            return VSym(name, ty, taint)
        if k == "never":
            return VTop("never")
        return VSym(name, ty, taint)

    def addr_width(self, ty):
        return sum(self.prog.types[f["t"]].bits for f in ty.variants[0]["f"] if self.prog.types[f["t"]].k == "int")

    def addr_fields(self, ty):
        """[(bit offset, width)] of the fields of an address type."""
        fs = [self.prog.types[f["t"]] for f in ty.variants[0]["f"]]
        lay = getattr(self.prog, "layout", {}).get(ty)
        if lay is None:
            lay, off = [], sum(t.bits for t in fs)
            for t in fs:
                off -= t.bits
                lay.append(off)
        return list(zip(lay, [t.bits for t in fs]))

    def addr_value(self, ty, x):
        """Structured address value for an integer form."""
        fs = self.addr_fields(ty)
        out = []
        for off, n in fs:
            if len(fs) == 1:
                out.append(x)
            elif x.const:
                out.append(num((x.c >> off) & ((1 << n) - 1)))
            else:
                out.append(D.seg(x, off, n))
        return VAdt(ty, 0, tuple(out))

    def addr_int(self, v):
        """Integer form of a structured address value."""
        r = num(0)
        for (off, n), x in zip(self.addr_fields(v.ty), v.fields):
            r = r + x.scale(1 << off)
        return r

    def decl_int(self, v):
        """Integer whose order is the derived (field by field, in declaration order) order."""
        r = num(0)
        for (off, n), x in zip(self.addr_fields(v.ty), v.fields):
            r = r.scale(1 << n) + x
        return r

    def is_addr(self, v):
        return isinstance(v, VAdt) and v.ty in self.prog.addr_types and all(isinstance(x, Lin) for x in v.fields)

    def net_value(self, ty, name, taint=None):
        """Symbolic IpNetwork obeying the constructor-established representation invariants."""
        ni = self.net_info
        a = ty.args[0]
        w = self.addr_width(a)
        m = D.word(name + ".mask", w, taint)
        b = D.word(name + ".a", w, taint)
        base = D.bitwise("and", b, m, w)
        return self.mk_net(ty, base, m, self.pfx_option(w, m))

    def mk_net(self, ty, base, mask, pfx):
        ni = self.net_info
        a = ty.args[0]
        f = [None] * 3
        f[ni["base"]] = self.addr_value(a, base)
        f[ni["mask"]] = self.addr_value(a, mask)
        f[ni["prefix"]] = pfx
        return VAdt(ty, 0, tuple(f))

    def opt_usize(self):
        return self.net_info["opt_ty"]

    def pfx_option(self, w, m):
        """Option<usize>: Some(p) iff m is the contiguous mask of length p."""
        ot = self.net_info["opt_ty"]
        if m.const:
            for p in range(w + 1):
                if m.c == ((1 << p) - 1) << (w - p):
                    return VAdt(ot, 1, (num(p),))
            return VAdt(ot, 0, ())
        a = m.single()
        if a is not None and a.kind == "mask" and a.args[0] == w:
            return VAdt(ot, 1, (a.args[1],))
        if a is not None:
            return VOp("pfxopt", (ot, w, m))
        return VOp("pfxopt", (ot, w, m))

    # -------------------------------------------------------------- ADT access

    def discr_atom(self, v):
        """Form for the discriminant *variant index* of a symbolic enum."""
        n = len(v.ty.variants)
        return D.sym("discr(%s)" % v.name, 0, n - 1, v.taint)

    def variant_of(self, st, v):
        """[(state, VAdt-like with known variant)] by case-splitting symbolic enums."""
        if isinstance(v, VAdt):
            return [(st, v)]
        if isinstance(v, VOp) and v.kind == "pfxopt":
            ot, w, m = v.args
            c = D.pred("contig", m)
            t, f = st.split(c)
            out = []
            if f is not None:
                out.append((f, VAdt(ot, 0, ())))
            if t is not None:
                p = D.of_atom(D.atom("pfxof", (w, m), 0, w))
                # the mask is then exactly the contiguous one
                out.append((t, VAdt(ot, 1, (p,))))
            return out
        if isinstance(v, VOp) and v.kind == "iteadt":
            c, a, b = v.args
            t, f = st.split(c)
            out = []
            if t is not None:
                out += self.variant_of(t, a)
            if f is not None:
                out += self.variant_of(f, b)
            return out
        if isinstance(v, VSym) and v.ty.k == "adt":
            d = self.discr_atom(v)
            out = []
            for i, va in enumerate(v.ty.variants):
                if any(self._uninhabited(self.prog.types[f["t"]]) for f in va["f"]):
                    continue
                s = st.assume(D.eq(d, num(i)))
                if s is not None:
                    out.append((s, self.expand(v, i)))
            return out
        return [(st, v)]

    def _uninhabited(self, ty):
        return ty.k == "never" or (ty.k == "adt" and ty.d["adt_kind"] == "enum" and not ty.variants)

    def expand(self, v, i):
        va = v.ty.variants[i]
        fs = []
        for j, f in enumerate(va["f"]):
            nm = "%s!%s.%s" % (v.name, va["n"], f["n"]) if len(v.ty.variants) > 1 else "%s.%s" % (v.name, f["n"])
            fs.append(self.sym_value(self.prog.types[f["t"]], nm, v.taint))
        return VAdt(v.ty, i, tuple(fs))

    # -------------------------------------------------------------- store access

    def load(self, st, oid, path):
        v = st.store.get(oid)
        if v is None:
            return VTop("uninitialised %r" % (oid,))
        return self.project(st, v, path)

    def project(self, st, v, path):
        i = 0
        n = len(path)
        while i < n:
            p = path[i]
            v = self.proj1(st, v, p)
            i += 1
        return v

    def proj1(self, st, v, p):
        k = p[0]
        if k == "f":
            if isinstance(v, VAdt):
                if p[1] < len(v.fields):
                    return v.fields[p[1]]
                return VTop("field")
            if isinstance(v, VTuple):
                return v.items[p[1]] if p[1] < len(v.items) else VTop("field")
            if isinstance(v, VOp) and v.kind == "box" and p[1] == 0:
                return v
            if isinstance(v, VSym):
                va = p[2] if len(p) > 2 and p[2] is not None else 0
                if v.ty.k == "adt" and va < len(v.ty.variants) and p[1] < len(v.ty.variants[va]["f"]):
                    return self.expand(v, va).fields[p[1]]
                if v.ty.k == "closure":
                    return self.sym_value(v.ty.field_ty(0, p[1]), "%s.%d" % (v.name, p[1]), v.taint)
                return VTop("field of %r" % v)
            if isinstance(v, VOp) and v.kind == "pfxopt":
                ot, w, m = v.args
                return D.of_atom(D.atom("pfxof", (w, m), 0, w))
            if isinstance(v, VTop):
                return v
            return VTop("field %r of %r" % (p, v))
        if k == "i":
            return self.index(st, v, p[1])
        if k == "r":
            return self.subslice(st, v, p[1], p[2])
        if k == "ci":
            off, frm = p[1], p[2]
            if frm:
                ln = self.seq_len(v)
                return self.index(st, v, ln - off)
            return self.index(st, v, num(off))
        if k == "v":
            return v
        return VTop("proj %r" % (p,))

    def seq_len(self, v):
        if isinstance(v, VArr):
            return num(len(v.items))
        if isinstance(v, VSeq):
            r = num(len(v.items))
            if v.pre is not None:
                r = r + v.pre.ln
            return r
        if isinstance(v, VStr):
            return self.str_len(v)
        if isinstance(v, VOp) and v.kind == "setvec":
            return v.args[1]
        if isinstance(v, VGSeq):
            t = gthreshold(v)
            if t is not None:
                p, k = t
                b = D.lin_bounds(p)
                if b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] <= len(v.items):
                    return p if k == "lo" else num(len(v.items)) - p
            r = num(0)
            for g, _ in v.items:
                r = r + D.bool_to_int(g)
            return r
        return None

    def str_len(self, v):
        r = num(0)
        for p in v.pieces:
            if isinstance(p, str):
                r = r + len(p.encode())
            elif p[0] == "rep":
                r = r + p[2]
            elif p[0] == "char":
                r = r + D.of_atom(D.atom("utf8len", (p[1],), 1, 4)) if not (D.lin_bounds(p[1])[1] or 999) < 128 else r + 1
            else:
                r = r + strlen_of(p)
        return r

    def narrow(self, st, l):
        """If the facts bound a form to fewer bits than its static range, its low-bits segment."""
        if not isinstance(l, Lin) or l.const:
            return l
        b0 = D.lin_bounds(l)
        b = D.lin_bounds(l, st.facts)
        if b[0] is None or b[0] < 0 or b[1] is None:
            return l
        k = b[1].bit_length()
        if b0[0] is not None and b0[0] >= 0 and b0[1] is not None and b0[1].bit_length() <= k:
            return l
        if k == 0:
            return num(0)
        a = l.single()
        if a is not None:
            return D.seg(a, 0, k)
        return D.seg(l, 0, k)

    def elem(self, st, pre, i):
        ix = pre.off + i
        return self.seq_elem_value(st, pre, ix)

    def seq_elem_value(self, st, pre, ix):
        nm = pre.name
        if isinstance(nm, tuple) and nm[0] == "it":
            self.muted += 1
            try:
                r = self.models.at(self, st, self.cur_frame, nm[1], ix, "?")
            except (Undecided, Budget):
                r = []
            finally:
                self.muted -= 1
            if len(r) == 1 and not isinstance(r[0][1], VTop):
                return r[0][1]
            if r and all(v == r[0][1] for _, v in r) and not isinstance(r[0][1], VTop):
                return r[0][1]
            return self.sym_value(pre.elem, "%s[%r]" % (nm[2], ix), "element of computed sequence")
        if isinstance(nm, tuple) and nm[0] == "sorted":
            src = nm[1]
            j = D.of_atom(D.atom("perm", (nm, ix), 0, 1 << 62))
            return self.elem(st, src, j)
        return self.sym_value(pre.elem, "%s[%r]" % (nm, ix))

    def index(self, st, v, i):
        if isinstance(v, (VArr, VSeq)):
            items = v.items
            pre = v.pre if isinstance(v, VSeq) else None
            if pre is None:
                if i.const:
                    if 0 <= i.c < len(items):
                        return items[i.c]
                    return VTop("index out of range")
                # table lookup
                if all(isinstance(x, Lin) and x.const for x in items) and len(i.terms) == 1 and i.terms[0][1] == 1 \
                        and i.terms[0][0].lo is not None and i.terms[0][0].hi is not None and i.terms[0][0].hi - i.terms[0][0].lo < D.SMALL:
                    tbl = tuple(x.c for x in items)
                    ia = i.terms[0][0]
                    ds = st.facts.set_of(ia)
                    if ds is not None and len(ds) == 1:
                        j = next(iter(ds)) + i.c
                        if 0 <= j < len(tbl):
                            return num(tbl[j])
                    return D.of_atom(D.atom("tab", (tbl, i), min(tbl), max(tbl)))
                bi = D.lin_bounds(i, st.facts)
                if bi[0] is not None and bi[0] == bi[1] and 0 <= bi[0] < len(items):
                    return items[bi[0]]
                if items and all(x == items[0] for x in items):
                    return items[0]
                return self.sel(items, i)
            d = i - pre.ln
            if d.const and d.c >= 0:
                if d.c < len(items):
                    return items[d.c]
                return VTop("index out of range")
            return self.elem(st, pre, i)
        if isinstance(v, VTop):
            return v
        if isinstance(v, VOp) and v.kind == "setvec":
            return self.sym_value(v.args[0], "%s[%r]" % (v.args[2], i))
        if isinstance(v, VGSeq):
            return self.gindex(st, v, i)
        return VTop("index of %r" % (v,))

    def gindex(self, st, v, i):
        """The i-th present item of a conditionally filled sequence (i below its length)."""
        if i.const and all(g is TRUE for g, _ in v.items[:i.c + 1]):
            return v.items[i.c][1]
        t = gthreshold(v)
        xs = tuple(x for _, x in v.items)
        if t is not None:
            p, k = t
            b = D.lin_bounds(p)
            if b[0] is not None and b[0] >= 0 and b[1] is not None and b[1] <= len(xs):
                return self.index(st, VSeq(None, xs), i if k == "lo" else p + i)
        if isinstance(xs[0], BF):
            return D.bvar(D.atom("gsel", (v.items, i), 0, 1))
        if isinstance(xs[0], Lin):
            bs = [D.lin_bounds(x) for x in xs if isinstance(x, Lin)]
            lo = None if any(b[0] is None for b in bs) else min(b[0] for b in bs)
            hi = None if any(b[1] is None for b in bs) else max(b[1] for b in bs)
            return D.of_atom(D.atom("gsel", (v.items, i), lo, hi))
        return VTop("symbolic index")

    def sel(self, items, i):
        """Symbolic selection from known items."""
        x = items[0] if items else None
        if isinstance(x, Lin):
            los = [D.lin_bounds(y) for y in items if isinstance(y, Lin)]
            lo = None if any(b[0] is None for b in los) else min(b[0] for b in los)
            hi = None if any(b[1] is None for b in los) else max(b[1] for b in los)
            return D.of_atom(D.atom("sel", (tuple(items), i), lo, hi))
        if isinstance(x, BF):
            return D.bvar(D.atom("sel", (tuple(items), i), 0, 1))
        return VTop("symbolic index")

    def subslice(self, st, v, lo, hi):
        if isinstance(v, (VArr, VSeq)):
            items = v.items
            pre = v.pre if isinstance(v, VSeq) else None
            n = self.seq_len(v)
            if hi is None:
                hi = n
            if pre is None:
                if lo.const and hi.const:
                    return VSeq(None, items[lo.c:hi.c])
                if len(items) <= 256:
                    return gseq((D.b_and(D.le(lo, num(j)), D.lt(num(j), hi)), x) for j, x in enumerate(items))
                return VTop("slice")
            if hi is n or hi == n:
                # suffix
                if lo.const:
                    np = VSymSeq(pre.name, pre.elem, pre.ln - lo, pre.off + lo)
                    return VSeq(np, items)
                return VTop("slice")
            if not items:
                return VSeq(VSymSeq(pre.name, pre.elem, hi - lo, pre.off + lo), ())
            return VTop("slice")
        if isinstance(v, VTop):
            return v
        return VTop("slice of %r" % (v,))

    def store_path(self, st, oid, path, val):
        """In-place (state must be owned)."""
        if not path:
            st.store[oid] = val
            return
        old = st.store.get(oid)
        st.store[oid] = self.upd(st, old, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        p = path[0]
        k = p[0]
        if k == "v":
            return self.upd(st, v, path[1:], val)
        if k == "f":
            if isinstance(v, VOp) and v.kind == "uninit" and len(path) == 2 and path[1][0] == "f":
                # MaybeUninit { value: ManuallyDrop { value } }
                return val
            if isinstance(v, VSym) and v.ty.k == "adt":
                v = self.expand(v, p[2] if len(p) > 2 and p[2] is not None else 0)
            if isinstance(v, VAdt):
                fs = list(v.fields)
                fs[p[1]] = self.upd(st, fs[p[1]], path[1:], val)
                return VAdt(v.ty, v.variant, tuple(fs))
            if isinstance(v, VTuple):
                fs = list(v.items)
                fs[p[1]] = self.upd(st, fs[p[1]], path[1:], val)
                return VTuple(tuple(fs))
            return VTop("write field of %r" % (v,))
        if k in ("i", "ci"):
            i = p[1] if k == "i" else num(p[1])
            if isinstance(v, (VArr, VSeq)):
                pre = v.pre if isinstance(v, VSeq) else None
                items = list(v.items)
                if pre is None and i.const and 0 <= i.c < len(items):
                    items[i.c] = self.upd(st, items[i.c], path[1:], val)
                    return VArr(tuple(items)) if isinstance(v, VArr) else VSeq(None, tuple(items))
                if pre is not None:
                    d = i - pre.ln
                    if d.const and 0 <= d.c < len(items):
                        items[d.c] = self.upd(st, items[d.c], path[1:], val)
                        return VSeq(pre, tuple(items))
                if pre is None and len(path) == 1 and all(isinstance(x, Lin) for x in items + [val]):
                    return type(v)(*([] if isinstance(v, VArr) else [None]), tuple(D.ite_int(D.eq(i, num(j)), val, x) for j, x in enumerate(items)))
            return VTop("indexed write")
        if k == "r":
            return VTop("slice write")
        return VTop("write %r" % (p,))

    def place_ptr(self, st, fr, pl):
        """Resolve a MIR place to ('ptr', oid, path) or ('val', value)."""
        local, projs = pl
        cur = ("ptr", fr.oid(local), ())
        variant = None
        for pr in projs:
            k = pr[0]
            if k == "*":
                v = self.read_cur(st, cur)
                if isinstance(v, VPtr):
                    cur = ("ptr", v.oid, v.path)
                elif isinstance(v, VRef):
                    cur = ("val", v.v)
                elif isinstance(v, VStr):
                    cur = ("val", v)
                elif isinstance(v, VOp) and v.kind == "box":
                    b = v.args[0]
                    cur = ("ptr", b.oid, b.path) if isinstance(b, VPtr) else ("val", b)
                elif isinstance(v, VTop):
                    cur = ("val", v)
                else:
                    cur = ("val", VTop("deref of %r" % (v,)))
                variant = None
                continue
            if k == "v":
                variant = pr[1]
                continue
            if k == "f":
                e = ("f", pr[1], variant)
                variant = None
            elif k == "i":
                iv = st.store.get(fr.oid(pr[1]))
                if not isinstance(iv, Lin):
                    cur = ("val", VTop("index"))
                    continue
                e = ("i", iv)
            elif k == "ci":
                e = ("ci", pr[1], pr[3])
            elif k == "ss":
                base = self.read_cur(st, cur)
                n = self.seq_len(base)
                if n is None:
                    cur = ("val", VTop("subslice"))
                    continue
                e = ("r", num(pr[1]), (n - pr[2]) if pr[3] else num(pr[2]))
            else:
                cur = ("val", VTop("projection"))
                continue
            if cur[0] == "ptr":
                cur = ("ptr", cur[1], cur[2] + (e,))
            else:
                cur = ("val", self.proj1(st, cur[1], e))
        return cur

    def read_cur(self, st, cur):
        if cur[0] == "val":
            return cur[1]
        return self.load(st, cur[1], cur[2])

    def read_place(self, st, fr, pl):
        if not pl[1]:
            v = st.store.get(fr.oid(pl[0]))
            return v if v is not None else VTop("uninit _%d" % pl[0])
        return self.read_cur(st, self.place_ptr(st, fr, pl))

    def write_place(self, st, fr, pl, val):
        if not pl[1]:
            st.store[fr.oid(pl[0])] = val
            return
        cur = self.place_ptr(st, fr, pl)
        if cur[0] == "ptr":
            self.store_path(st, cur[1], cur[2], val)
        else:
            raise Undecided("write through an unresolved reference in " + fr.fn.path)

    def deref(self, st, v):
        """Value behind a reference value (any number of levels is up to the caller)."""
        if isinstance(v, VPtr):
            return self.load(st, v.oid, v.path)
        if isinstance(v, VRef):
            return v.v
        return v

    def deref_all(self, st, v):
        n = 0
        while isinstance(v, (VPtr, VRef)) and n < 8:
            v = self.deref(st, v)
            n += 1
        return v

    def write_ptr(self, st, ptr, val):
        if isinstance(ptr, VPtr):
            self.store_path(st, ptr.oid, ptr.path, val)
        else:
            raise Undecided("write through an unresolved reference")

    # -------------------------------------------------------------- operands / rvalues

    def const(self, c, tid):
        k = c["c"]
        if k == "int" or k == "char":
            return num(c["v"])
        if k == "bool":
            return D.boolc(c["v"])
        if k == "str":
            return lit(c["v"])
        if k == "fn":
            return VFn(self.prog.types[c["t"]])
        if k == "zst":
            return VAdt(self.prog.types[c["t"]], 0, ())
        if k == "ref":
            inner = self.const(c["v"], None)
            if isinstance(inner, VStr):
                return inner
            return VRef(inner)
        if k == "slice":
            return VRef(VSeq(None, tuple(self.const(x, None) for x in c["v"])))
        if k == "static":
            return VPtr(("static", c["v"]), ())
        if k == "agg":
            t = self.prog.types[c["t"]]
            fs = tuple(self.const(x, None) for x in c["v"])
            if t.k == "array":
                return VArr(fs)
            if t.k == "tuple":
                return VTuple(fs)
            return VAdt(t, c.get("variant", 0), fs)
        if k == "opaque":
            t = self.prog.types[c["t"]]
            if t.k == "adt" and t.d["adt_kind"] == "struct":
                return VSym("const:" + t.s, t)
            return VTop("constant of type " + t.s)
        if k == "bits":
            return num(c["v"])
        return VTop("const " + k)

    def operand(self, st, fr, o):
        k = o[0]
        if k == "c" or k == "m":
            return self.read_place(st, fr, o[1])
        if k == "k":
            return self.const(o[2], o[1])
        if k == "rc":
            return FALSE
        return VTop("operand")

    def operand_ty(self, fr, o):
        if o[0] == "k":
            return self.prog.types[o[1]]
        return self.place_ty(fr, o[1])

    def place_ty(self, fr, pl):
        t = self.prog.types[fr.fn.body["locals"][pl[0]]]
        for pr in pl[1]:
            k = pr[0]
            if k == "*":
                if t.k in ("ref", "ptr"):
                    t = t.inner
                elif t.k == "adt" and t.args:
                    t = t.args[0]
            elif k == "f":
                t = self.prog.types[pr[2]]
            elif k in ("i", "ci"):
                t = t.inner
        return t

    def fit(self, st, l, ty, what="arith"):
        """Wrap an exact form into the type (two's complement), if needed."""
        lo, hi = int_range(ty)
        b = D.lin_bounds(l, st.facts)
        if b[0] is not None and b[1] is not None and b[0] >= lo and b[1] <= hi:
            return l
        if st.facts.ev(D.b_and(D.le(num(lo), l), D.le(l, num(hi)))) is True:
            return l
        if not ty.signed:
            r = D.trunc(l, ty.bits)
            if r is not None:
                return r
        return D.of_atom(D.atom("wrap", (l, ty.bits, ty.signed), lo, hi))

    def binop(self, st, op, a, b, ty):
        """Value of a MIR binary operation on scalars of type ty (left operand type)."""
        if op in ("BitAnd", "BitOr", "BitXor"):
            a, b = self.narrow(st, a), self.narrow(st, b)
        elif op.startswith("Sh"):
            a = self.narrow(st, a)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isinstance(a, BF) and isinstance(b, BF):
                x = D.b_xor(a, b)
                if op == "Ne":
                    return x
                if op == "Eq":
                    return D.b_not(x)
                if op == "Lt":
                    return D.b_and(D.b_not(a), b)
                if op == "Gt":
                    return D.b_and(a, D.b_not(b))
                if op == "Le":
                    return D.b_or(D.b_not(a), b)
                return D.b_or(a, D.b_not(b))
            if isinstance(a, Lin) and isinstance(b, Lin):
                return {"Eq": D.eq, "Ne": lambda x, y: D.b_not(D.eq(x, y)), "Lt": D.lt, "Le": D.le,
                        "Gt": lambda x, y: D.lt(y, x), "Ge": lambda x, y: D.le(y, x)}[op](a, b)
            return self.topbool("compare %r %r" % (a, b))
        if isinstance(a, BF) and isinstance(b, BF):
            return {"BitAnd": D.b_and, "BitOr": D.b_or, "BitXor": D.b_xor}.get(op, lambda x, y: self.topbool(op))(a, b)
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            if ty.k == "int":
                lo, hi = int_range(ty)
                return D.fresh("top", lo, hi, taint=D.taint_of(a) or D.taint_of(b) or "operand of " + op)
            return VTop("binop " + op)
        w = ty.bits if ty.k == "int" else 32
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if base == "Add":
            return a + b
        if base == "Sub":
            return a - b
        if base == "Mul":
            if a.const:
                return b.scale(a.c)
            if b.const:
                return a.scale(b.c)
            ba, bb = D.lin_bounds(a, st.facts), D.lin_bounds(b, st.facts)
            lo = hi = None
            if None not in ba and None not in bb:
                ps = [x * y for x in ba for y in bb]
                lo, hi = min(ps), max(ps)
            x, y = sorted((a, b), key=lambda l: repr(l))
            return D.of_atom(D.atom("mul", (x, y), lo, hi))
        if op in ("BitAnd", "BitOr", "BitXor"):
            r = None
            if not ty.signed:
                r = D.bitwise({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], a, b, w)
            elif a.const and b.const:
                r = num({"BitAnd": a.c & b.c, "BitOr": a.c | b.c, "BitXor": a.c ^ b.c}[op])
            else:
                la, lb = D.lin_bounds(a, st.facts), D.lin_bounds(b, st.facts)
                if la[0] is not None and lb[0] is not None and la[0] >= 0 and lb[0] >= 0:
                    r = D.bitwise({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op], a, b, w - 1)
            if r is not None:
                return r
            lo, hi = int_range(ty)
            return D.of_atom(D.atom(op, (a, b), lo, hi))
        if base in ("Shl", "Shr"):
            if b.const:
                k = b.c & (w - 1)
                if base == "Shl":
                    r = D.shl(a, k, w) if not ty.signed else None
                    if r is None and ty.signed:
                        bb = D.lin_bounds(a, st.facts)
                        lo, hi = int_range(ty)
                        if None not in bb and (bb[0] << k) >= lo and (bb[1] << k) <= hi:
                            r = a.scale(1 << k)
                else:
                    bb = D.lin_bounds(a, st.facts)
                    r = D.shr(a, k, w) if (not ty.signed or (bb[0] is not None and bb[0] >= 0)) else None
                if r is not None:
                    return r
            elif base == "Shl" and a.const and not ty.signed:
                if a.c == 1:
                    bb = D.lin_bounds(b, st.facts)
                    if bb[0] is not None and bb[0] >= 0 and bb[1] is not None and bb[1] < w:
                        return D.pow2(b)
                full = (1 << w) - 1
                if a.c == full:
                    # all-ones << k : the mask with w-k leading ones
                    bb = D.lin_bounds(b, st.facts)
                    if bb[0] is not None and bb[0] >= 0 and bb[1] is not None and bb[1] < w:
                        return D.mask_word(w, num(w) - b)
            elif base == "Shr" and a.const and a.c == (1 << w) - 1 and not ty.signed:
                bb = D.lin_bounds(b, st.facts)
                if bb[0] is not None and bb[0] >= 0 and bb[1] is not None and bb[1] < w:
                    return num((1 << w) - 1) - D.mask_word(w, b)
            lo, hi = int_range(ty)
            return D.of_atom(D.atom(base, (a, b, w), lo, hi))
        if base in ("Div", "Rem"):
            if a.const and b.const and b.c != 0:
                q = abs(a.c) // abs(b.c) * (1 if (a.c < 0) == (b.c < 0) else -1)
                return num(q if base == "Div" else a.c - q * b.c)
            bb = D.lin_bounds(a, st.facts)
            if b.const and b.c > 0 and bb[0] is not None and bb[0] >= 0:
                k = b.c
                if k & (k - 1) == 0:
                    n = k.bit_length() - 1
                    bits = D.to_bits(a, None)
                    if bits is not None:
                        return D.from_bits(bits[n:]) if base == "Div" else D.from_bits(bits[:n])
                hi = None if bb[1] is None else bb[1] // k
                q = D.of_atom(D.atom("div", (a, b), bb[0] // k, hi))
                if bb[1] is not None and bb[1] < k:
                    return num(0) if base == "Div" else a
                if base == "Div":
                    return q
                return D.of_atom(D.atom("mod", (a, b), 0, k - 1))
            lo, hi = int_range(ty)
            return D.of_atom(D.atom(base.lower(), (a, b), lo, hi))
        if op == "Cmp":
            return VTop("three-way compare")
        return VTop("binop " + op)

    def topbool(self, why):
        D._fresh[0] += 1
        return D.bvar(D.atom("pred", ("top#%d" % D._fresh[0],), 0, 1, taint=why))

    def in_range(self, l, ty):
        lo, hi = int_range(ty)
        return D.b_and(D.le(num(lo), l), D.le(l, num(hi)))

    def rvalue(self, st, fr, rv, dst_ty, where):
        """[(state, value)]"""
        k = rv[0]
        if k == "use":
            return [(st, self.operand(st, fr, rv[1]))]
        if k == "ref" or k == "raw":
            pl = rv[2] if k == "ref" else rv[1]
            cur = self.place_ptr(st, fr, pl)
            if cur[0] == "ptr":
                t = self.place_ty(fr, pl)
                if t.k == "str":
                    return [(st, self.load(st, cur[1], cur[2]))]
                return [(st, VPtr(cur[1], cur[2]))]
            v = cur[1]
            if isinstance(v, VStr) and self.place_ty(fr, pl).k == "str":
                return [(st, v)]
            return [(st, VRef(v))]
        if k == "bin":
            op = rv[1]
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            ty = self.operand_ty(fr, rv[2])
            if op == "Cmp":
                return self.models.three_way(self, st, a, b, dst_ty)
            if op.endswith("WithOverflow"):
                v = self.binop(st, op, a, b, ty)
                if isinstance(v, Lin):
                    return [(st, VTuple((v, D.b_not(self.in_range(v, ty)))))]
                return [(st, VTuple((v, self.topbool("overflow of unknown"))))]
            v = self.binop(st, op, a, b, ty)
            if isinstance(v, Lin) and op in ("Add", "Sub", "Mul"):
                v = self.fit(st, v, ty)
            return [(st, v)]
        if k == "un":
            op = rv[1]
            a = self.operand(st, fr, rv[2])
            ty = self.operand_ty(fr, rv[2])
            if op == "Not":
                if isinstance(a, BF):
                    return [(st, D.b_not(a))]
                if isinstance(a, Lin) and ty.k == "int":
                    if ty.signed:
                        return [(st, num(-1) - a)]
                    return [(st, num((1 << ty.bits) - 1) - a)]
                return [(st, VTop("not"))]
            if op == "Neg":
                if isinstance(a, Lin):
                    return [(st, self.fit(st, a.scale(-1), ty))]
                return [(st, VTop("neg"))]
            if op == "PtrMetadata":
                v = self.deref(st, a)
                n = self.seq_len(v)
                return [(st, n if n is not None else D.fresh("len", 0, (1 << 63) - 1, taint="length of %r" % (v,)))]
            return [(st, VTop("unop " + op))]
        if k == "discr":
            v = self.read_place(st, fr, rv[1])
            t = self.place_ty(fr, rv[1])
            out = []
            for s, a in self.variant_of(st, v):
                if isinstance(a, VAdt):
                    if s is not st or a is not v:
                        s = s.copy()
                        cur = self.place_ptr(s, fr, rv[1])
                        if cur[0] == "ptr":
                            self.store_path(s, cur[1], cur[2], a)
                    d = t.variants[a.variant]["d"] if t.k == "adt" else 0
                    out.append((s, num(d)))
                else:
                    out.append((s, D.fresh("discr", 0, max(0, len(t.variants) - 1) if t.k == "adt" else 255,
                                           taint=D.taint_of(a) or "discriminant of %r" % (a,))))
            return out
        if k == "agg":
            fs = tuple(self.operand(st, fr, o) for o in rv[2])
            kk = rv[1]
            if kk[0] == "tuple":
                return [(st, VTuple(fs))]
            if kk[0] == "array":
                return [(st, VArr(fs))]
            if kk[0] == "adt":
                return [(st, VAdt(self.prog.types[kk[1]], kk[2], fs))]
            if kk[0] == "closure":
                return [(st, VAdt(self.prog.types[kk[1]], 0, fs))]
            return [(st, VTop("aggregate"))]
        if k == "cast":
            return [(st, self.cast(st, rv[1], self.operand(st, fr, rv[2]), self.operand_ty(fr, rv[2]), self.prog.types[rv[3]]))]
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            if rv[2] is not None and rv[2] <= 4096:
                return [(st, VArr((v,) * rv[2]))]
            return [(st, VTop("repeat"))]
        return [(st, VTop("rvalue " + k))]

    def cast(self, st, kind, v, fty, tty):
        if kind == "IntToInt":
            if isinstance(v, BF):
                v = D.bool_to_int(v)
            if isinstance(v, Lin) and tty.k in ("int", "char"):
                if tty.k == "char":
                    return v
                return self.to_int_type(st, v, tty)
            if isinstance(v, VAdt) and v.ty.k == "adt" and v.ty.d["adt_kind"] == "enum":
                return num(v.ty.variants[v.variant]["d"])
            if tty.k == "int":
                lo, hi = int_range(tty)
                return D.fresh("cast", lo, hi, taint=D.taint_of(v) or "cast of %r" % (v,))
            return VTop("cast")
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind and isinstance(v, VRef) and isinstance(v.v, VArr):
                return VRef(VSeq(None, v.v.items))
            return v
        if kind in ("PtrToPtr", "Subtype"):
            return v
        if kind == "BoxDerefTransmute" and isinstance(v, VOp) and v.kind == "box" and isinstance(v.args[0], VPtr):
            return v.args[0]
        if kind == "Transmute":
            if isinstance(v, VPtr) and tty.k == "int":
                # an aligned address that is not null
                return D.sym("addr of %r" % (v,), 1, 1 << 48).scale(1 << 12)
            return self.transmute(v, fty, tty)
        return VTop("cast " + kind)

    def transmute(self, v, fty, tty):
        if isinstance(v, Lin) and fty.k == "int" and tty.k == "int" and fty.bits == tty.bits and fty.signed == tty.signed:
            return v
        if fty.s == tty.s:
            return v
        if isinstance(v, VArr) and tty.k == "int" and not tty.signed and fty.k == "array" and fty.inner.k == "int" and fty.inner.bits == 8:
            return sum_bytes([x for x in v.items], little=True)
        if isinstance(v, Lin) and fty.k == "int" and not fty.signed and tty.k == "array" and tty.inner.k == "int" and tty.inner.bits == 8:
            return VArr(tuple(self.seg_of(v, 8 * i, 8) for i in range(fty.bits // 8)))
        return VTop("transmute")

    def seg_of(self, l, lo, n):
        bits = D.to_bits(l, None)
        if bits is None:
            return D.seg(l, lo, n)
        return D.from_bits((bits + [FALSE] * (lo + n))[lo:lo + n])

    def to_int_type(self, st, v, tty):
        lo, hi = int_range(tty)
        b = D.lin_bounds(v, st.facts)
        if b[0] is not None and b[1] is not None and b[0] >= lo and b[1] <= hi:
            return v
        if st.facts.ev(self.in_range(v, tty)) is True:
            return v
        if not tty.signed:
            r = D.trunc(v, tty.bits)
            if r is not None:
                return r
        return D.of_atom(D.atom("wrap", (v, tty.bits, tty.signed), lo, hi))

    # -------------------------------------------------------------- control flow

    def run(self, fn, args, st, parent=None, callsite=None):
        """Analyse a call of fn; returns [(state, return value)]."""
        if fn.body is None:
            raise Undecided("no body for " + fn.full)
        depth = parent.depth + 1 if parent else 0
        if depth > self.depth_limit:
            raise Undecided("call depth")
        fr = Frame(fn, depth, parent, callsite)
        f = parent
        rec = 0
        while f:
            if f.fn is fn:
                rec += 1
            f = f.parent
        if rec > 3:
            raise Undecided("recursion through " + fn.full)
        self.visited_fns[fn.id] = self.visited_fns.get(fn.id, 0) + 1
        st = st.copy()
        argc = fn.body["argc"]
        spread = fn.body["spread"]
        if spread is not None:
            # closure bodies called through the tuple ABI are unpacked by the caller
            pass
        for i in range(argc):
            st.store[fr.oid(i + 1)] = args[i] if i < len(args) else VTop("missing argument")
        saved_frame, self.cur_frame = self.cur_frame, fr
        try:
            outs, exits, backs = self.region(fr, [(0, st)], None, None)
        finally:
            self.cur_frame = saved_frame
        res = []
        for s in outs:
            rv = s.store.get(fr.oid(0), UNIT)
            self.drop_frame(s, fr)
            res.append((s, rv))
        res = self.merge_results(res)
        return res

    def drop_frame(self, s, fr):
        d, f = fr.depth, fr.fn.id
        for o in [o for o in s.store if o[0] == d and o[1] == f]:
            del s.store[o]

    cap_result, cap_join, cap_loop = 10, 6, 1

    def merge_results(self, res):
        if len(res) < 2:
            return res
        g = {}
        for s, v in res:
            key = (v, frozenset(s.store.items()), frozenset(s.ghost.items()))
            g.setdefault(key, []).append(s)
        out = []
        for key, ss in g.items():
            for s in self.join_group(ss, self.cap_result):
                out.append((s, key[0]))
        return out

    def join_group(self, ss, cap):
        """Join states with equal stores: losslessly where possible, otherwise only above the cap."""
        if len(ss) < 2:
            return ss
        acc = []
        for s in ss:
            f = s.facts
            again = True
            while again:
                again = False
                D.check_time()
                for i, o in enumerate(acc):
                    if len(ss) > 24 and not close(o, f):
                        continue
                    j = o.join(f)
                    if not (j.approx and not (o.approx or f.approx)):
                        f = j
                        del acc[i]
                        again = True
                        break
            acc.append(f)
        if len(acc) > cap and not self.prefix_only:
            f = acc[0]
            for o in acc[1:]:
                f = f.join(o)
            acc = [f]
        return [State(ss[0].store, f, ss[0].ghost) for f in acc]

    def merge_states(self, sts, cap=1):
        """Join states with identical stores (facts are intersected)."""
        if len(sts) < 2:
            return sts
        g = {}
        for s in sts:
            key = (frozenset(s.store.items()), frozenset(s.ghost.items()))
            g.setdefault(key, []).append(s)
        out = []
        for ss in g.values():
            out += self.join_group(ss, cap)
        if len(out) > 1:
            out = self.gamma_merge(out)
        return out

    def gamma_merge(self, sts):
        """If-conversion: merge two states differing only in a few scalar slots under complementary
        bit/predicate literals."""
        groups = {}
        for s in sts:
            f = s.facts
            key = (frozenset((k, v if not isinstance(v, (Lin, BF, VSeq, VGSeq)) else None) for k, v in s.store.items()),
                   frozenset(s.ghost.items()))
            groups.setdefault(key, []).append(s)
        out = []
        for g in groups.values():
            changed = len(g) <= 400
            while changed and len(g) > 1:
                changed = False
                n = len(g)
                for i in range(n):
                    D.check_time()
                    for j in range(i + 1, n):
                        m = self.try_gamma(g[i], g[j])
                        if m is not None:
                            g = [s for t, s in enumerate(g) if t not in (i, j)] + [m]
                            changed = True
                            break
                    if changed:
                        break
            out += g
        return out

    def try_gamma(self, a, b):
        if a.store.keys() != b.store.keys() or a.ghost != b.ghost:
            return None
        diff = []
        for k, v in a.store.items():
            w = b.store[k]
            if v is not w and v != w:
                diff.append(k)
                if len(diff) > 4:
                    return None
                if not ((isinstance(v, Lin) and isinstance(w, Lin)) or (isinstance(v, BF) and isinstance(w, BF))
                        or (gitems(v) is not None and gitems(w) is not None and not isinstance(v, VArr))):
                    return None
        c = self.discriminator(a.facts, b.facts, any(isinstance(a.store[k], (VSeq, VGSeq)) for k in diff))
        if c is None:
            return None
        c, facts = c
        if any(v.kind in ("cmp", "in", "eq") for v in c.vars) and not any(isinstance(a.store[k], (VSeq, VGSeq)) for k in diff):
            return None
        if any(v.kind in ("cmp", "in", "eq") for v in c.vars):
            # splits on an index bound: only for a partition of the same items over two sequences
            na = sum(len(gitems(a.store[k])) for k in diff if isinstance(a.store[k], (VSeq, VGSeq)))
            nb = sum(len(gitems(b.store[k])) for k in diff if isinstance(b.store[k], (VSeq, VGSeq)))
            if na != nb:
                return None
        st = State(dict(a.store), facts, dict(a.ghost))
        for k in diff:
            z = self.gamma_value(c, a.store[k], b.store[k])
            if z is None:
                return None
            st.store[k] = z
        return st

    def gamma_value(self, c, x, y):
        if x is y or x == y:
            return x
        if isinstance(x, Lin) and isinstance(y, Lin):
            z = D.ite_int(c, x, y)
            return None if any(t.kind == "ite" for t, _ in z.terms) else z
        if isinstance(x, BF) and isinstance(y, BF):
            z = D.b_ite(c, x, y)
            return None if any(t.kind == "bop" for t in z.vars) else z
        if isinstance(x, (VSeq, VGSeq)) and isinstance(y, (VSeq, VGSeq)):
            gx, gy = gitems(x), gitems(y)
            if gx is None or gy is None:
                return None
            n = 0
            while n < min(len(gx), len(gy)) and gx[n] == gy[n]:
                n += 1
            rx, ry = gx[n:], gy[n:]
            if len(rx) == len(ry) and all(g is TRUE for g, _ in rx + ry):
                out = []
                for (_, u), (_, v) in zip(rx, ry):
                    z = self.gamma_value(c, u, v) if isinstance(u, (Lin, BF)) else None
                    if z is None:
                        out = None
                        break
                    out.append((TRUE, z))
                if out is not None:
                    return gseq(gx[:n] + tuple(out))
            if len(rx) + len(ry) > 2 or not all(isinstance(u, (Lin, BF)) for _, u in rx + ry):
                return None
            return gseq(gx[:n] + tuple((D.b_and(c, g), u) for g, u in rx) + tuple((D.b_and(D.b_not(c), g), u) for g, u in ry))
        return None

    def disc_lits(self, fa, fb, parts):
        """One complementary literal plus facts that follow from it: the common part keeps the hull of
        the derived facts (marked approximate unless each side's facts follow from the literal)."""
        if fa.lits.keys() != fb.lits.keys():
            return None
        vs = [v for v in fa.lits if fa.lits[v] != fb.lits[v]]
        if len(vs) != 1:
            return None
        v = vs[0]
        g = fa.copy()
        g.lits = {k: x for k, x in fa.lits.items() if k is not v}
        g.approx = fa.approx or fb.approx
        lost = ([], [])
        for p in parts:
            x, y = getattr(fa, p), getattr(fb, p)
            if p in ("cons", "clauses"):
                setattr(g, p, x & y)
                lost[0].extend((D.le0(c) if p == "cons" else c) for c in x - y)
                lost[1].extend((D.le0(c) if p == "cons" else c) for c in y - x)
            elif p in ("iv", "dom"):
                m = {}
                for k in set(x) | set(y):
                    a, b = x.get(k), y.get(k)
                    if a == b:
                        m[k] = a
                        continue
                    for w, l in ((a, lost[0]), (b, lost[1])):
                        if w is None:
                            continue
                        t = D.of_atom(k)
                        if p == "dom":
                            l.append(D.member_of(t, w))
                        else:
                            if w[0] is not None:
                                l.append(D.le(num(w[0]), t))
                            if w[1] is not None:
                                l.append(D.le(t, num(w[1])))
                    if a is None or b is None:
                        continue
                    if p == "dom":
                        m[k] = a | b
                    else:
                        m[k] = (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                                None if a[1] is None or b[1] is None else max(a[1], b[1]))
                setattr(g, p, m)
            elif p != "lits":
                return None
        c = D.bvar(v) if fa.lits[v] else D.b_not(D.bvar(v))
        for cc, ls in ((c, lost[0]), (D.b_not(c), lost[1])):
            h = g.assume(cc)
            if h.bot:
                return None
            if any(h.ev(l) is not True for l in ls):
                g.approx = True
        return c, g

    def discriminator(self, fa, fb, hull=False):
        """(c, common facts) such that fa is common and c, fb is common and not c."""
        def rest(f, **kw):
            g = f.copy()
            for k, v in kw.items():
                setattr(g, k, v)
            return g
        ap = fa.approx or fb.approx
        parts = ("lits", "cons", "iv", "dom", "clauses", "ne")
        d = [p for p in parts if getattr(fa, p) != getattr(fb, p)]
        if "lits" in d and len(d) > 1 and hull:
            return self.disc_lits(fa, fb, d)
        if len(d) != 1:
            return None
        d = d[0]
        if d == "lits":
            if fa.lits.keys() != fb.lits.keys():
                return None
            vs = [v for v in fa.lits if fa.lits[v] != fb.lits[v]]
            if len(vs) != 1:
                return None
            v = vs[0]
            c = D.bvar(v)
            g = rest(fa, lits={k: x for k, x in fa.lits.items() if k is not v}, approx=ap)
            return (c if fa.lits[v] else D.b_not(c)), g
        if d == "clauses":
            x, y = fa.clauses - fb.clauses, fb.clauses - fa.clauses
            if len(x) == 1 and len(y) == 1:
                x, y = next(iter(x)), next(iter(y))
                if x is D.b_not(y):
                    return x, rest(fa, clauses=fa.clauses & fb.clauses, approx=ap)
            return None
        if d == "cons":
            x, y = fa.cons - fb.cons, fb.cons - fa.cons
            if len(x) == 1 and len(y) == 1:
                x, y = next(iter(x)), next(iter(y))
                if y == num(1) - x:
                    return D.le0(x), rest(fa, cons=fa.cons & fb.cons, approx=ap)
            return None
        if d == "iv":
            vs = [v for v in set(fa.iv) | set(fb.iv) if fa.bounds(v) != fb.bounds(v)]
            if len(vs) != 1:
                return None
            v = vs[0]
            x, y = fa.bounds(v), fb.bounds(v)
            if x[1] is not None and y[0] == x[1] + 1:
                c, n = D.le(D.of_atom(v), num(x[1])), (x[0], y[1])
            elif y[1] is not None and x[0] == y[1] + 1:
                c, n = D.le(num(x[0]), D.of_atom(v)), (y[0], x[1])
            else:
                return None
            iv = dict(fa.iv)
            iv.pop(v, None)
            if n != (v.lo, v.hi):
                iv[v] = n
            return c, rest(fa, iv=iv, approx=ap)
        if d == "dom":
            vs = [v for v in set(fa.dom) | set(fb.dom) if fa.dom.get(v) != fb.dom.get(v)]
            if len(vs) != 1:
                return None
            v = vs[0]
            x, y = fa.set_of(v), fb.set_of(v)
            if x is None or y is None or x & y or v.lo is None:
                return None
            dom = dict(fa.dom)
            dom.pop(v, None)
            if len(x | y) < v.hi - v.lo + 1:
                dom[v] = x | y
            return D.in_set(v, x), rest(fa, dom=dom, approx=ap)
        return None

    def region(self, fr, starts, blocks, header):
        """Run from the given (block, state) pairs inside `blocks` (None = whole function).
        Returns (returned states, [(exit block, state)], back-edge states)."""
        cfg = fr.fn.cfg()
        pend = {}
        outs, exits, backs = [], [], []
        for b, s in starts:
            pend.setdefault(b, []).append(s)
        first = True
        while pend:
            b = min(pend, key=lambda x: cfg.idx[x])
            sts = pend.pop(b)
            if len(sts) > 1:
                self.prune_dead(fr, b, sts)
                sts = self.merge_states(sts, self.cap_loop if b in cfg.loops else 1 if fr.depth > 2 else self.cap_join)
            if len(sts) > self.MAXSTATES:
                raise Budget("too many states in %s" % fr.fn.full)
            if b in cfg.loops and not (b == header):
                o, e = self.loop(fr, b, sts)
                outs += o
                for nb, s in e:
                    self.route(nb, s, blocks, header, pend, exits, backs)
                continue
            for s in sts:
                for nb, s2 in self.block(fr, b, s):
                    if nb == "ret":
                        outs.append(s2)
                    else:
                        self.route(nb, s2, blocks, header, pend, exits, backs)
        return outs, exits, backs

    def prune_dead(self, fr, b, sts):
        live = fr.fn.cfg().live_in[b]
        d, i = fr.depth, fr.fn.id
        for s in sts:
            gone = [k for k in s.store if isinstance(k, tuple) and len(k) == 3 and k[0] == d and k[1] == i and type(k[2]) is int and k[2] not in live]
            if gone:
                s.store = dict(s.store)
                for k in gone:
                    del s.store[k]

    def route(self, nb, s, blocks, header, pend, exits, backs):
        if header is not None and nb == header:
            backs.append(s)
        elif blocks is not None and nb not in blocks:
            exits.append((nb, s))
        else:
            pend.setdefault(nb, []).append(s)

    def loop(self, fr, h, sts):
        cfg = fr.fn.cfg()
        body = cfg.loops[h]
        outs, exits = [], []
        forced = self.loop_hook and self.loop_hook(self, fr, h, sts)
        if forced is not None and forced is not False and forced is not True:
            return forced
        # 0. loops that only count and multiply have a closed form
        left = []
        for s in sts:
            r = self.accelerate(fr, h, s, body)
            if r is None:
                left.append(s)
            else:
                exits += r
        if not left:
            return outs, exits
        if len(left) < len(sts):
            o, e = self.loop(fr, h, left)
            return o, exits + e
        # 1. full unrolling while the trip count is decided by the state
        cur = sts
        und = opened = 0
        saved_sym = self.symtrip
        self.symtrip = False
        o_obl = {k: Obligation(v.kind, v.key, v.ok, v.detail, v.where, v.taint) for k, v in self.obligs.items()}
        o_unm = dict(self.unmodelled)
        o_ev = len(self.events)
        o_fl = len(self.fails)
        u_outs, u_exits = [], []
        ok = True
        it = 0
        if self.muted:
            lim = self.MAXUNDEC
        else:
            lim = self.MAXUNDEC
        from_model = self.begin_probe()
        try:
            while cur:
                it += 1
                o, e, backs = self.region(fr, [(h, s) for s in cur], body, h)
                u_outs += o
                u_exits += e
                if self.symtrip and not (self.prefix_only and it < self.PREFIX):
                    ok = False
                    break
                if len(backs) > 1:
                    self.prune_dead(fr, h, backs)
                cur = self.merge_states(backs, self.cap_loop)
                if cur and (e or len(cur) > 1 and not self.prefix_only):
                    und += 1
                if cur and e:
                    opened += 1
                    if opened > self.MAXOPEN and not self.prefix_only:
                        ok = False
                        break
                if it > self.MAXLOOP or und > self.und_limit(fr, h) or len(cur) > 700:
                    ok = False
                    break
        except Budget:
            ok = False
        self.end_probe(from_model, commit=ok)
        self.symtrip = saved_sym
        if ok:
            return u_outs, u_exits
        if self.prefix_only:
            # refutation pass: only the exactly traced prefix of the loop is kept
            self.truncated = True
            return u_outs, u_exits
        self.obligs = o_obl
        self.unmodelled = o_unm
        del self.events[o_ev:]
        del self.fails[o_fl:]
        # 2. summarise by invariants
        o, e = [], []
        for s in self.merge_states(sts):
            o1, e1 = self.summarise(fr, h, s)
            o += o1
            e += e1
        return o, e

    def accelerate(self, fr, h, s, body):
        """`for _ in lo..hi { x = x * c; ... }` with an undecided number of rounds: x * c^(hi-lo).
        The body is run on generalised values of the changed slots, so the closed form is checked for
        every round.  Returns exit states, or None when the loop is not of that shape."""
        if not self.models:
            return None
        rng = [(k, v) for k, v in s.store.items() if isinstance(v, VAdt) and v.ty.k == "adt" and v.ty.path == "std::ops::Range"
               and isinstance(v.fields[0], Lin) and isinstance(v.fields[1], Lin) and not (v.fields[1] - v.fields[0]).const and k[0] == fr.depth]
        if not rng:
            return self.accelerate_while(fr, h, s, body)
        rng = dict(rng)
        s = s.copy()
        self.prune_dead(fr, h, [s])
        self.muted += 1
        nf, ne = len(self.fails), len(self.events)
        try:
            t = self.begin_probe()
            o, e, backs = self.region(fr, [(h, s)], body, h)
            self.end_probe(t, commit=False)
            if len(backs) != 1 or o:
                return None
            self.prune_dead(fr, h, backs)
            moved = [k for k in rng if k in backs[0].store and backs[0].store[k] != rng[k]]
            if len(moved) != 1:
                return None
            rk = moved[0]
            rv = rng[rk]
            if s.facts.ev(D.le(rv.fields[0], rv.fields[1])) is not True:
                return None
            slots = self.accel_slots(s, backs, rk)
            if slots is None:
                return None
            g = s.copy()
            D._fresh[0] += 1
            i = D.sym("i#%d" % D._fresh[0], None, None)
            g.store[rk] = VAdt(rv.ty, rv.variant, (i, rv.fields[1]))
            g = g.assume(D.b_and(D.le(rv.fields[0], i), D.lt(i, rv.fields[1])))
            xs = {}
            for k, c in slots.items():
                if isinstance(c, str):
                    g.store[k] = VStr((("sym", "x#%d_%s" % (D._fresh[0], k[-1])),))
                    continue
                xs[k] = D.sym("x#%d_%s" % (D._fresh[0], k[-1]), 1, None)
                g.store[k] = self.accel_put(s.store[k], xs[k])
            r = self.every_round(fr, h, g, body)
            if r is None:
                return None
            o, e, backs = r
            self.prune_dead(fr, h, backs)
            again = self.accel_slots(g, backs, rk)
            if again != slots or o or e:
                return None
            # the exit edge, from the head state after the last round
            n = rv.fields[1] - rv.fields[0]
            f = s.copy()
            f.store[rk] = VAdt(rv.ty, rv.variant, (rv.fields[1], rv.fields[1]))
            for k, c in slots.items():
                if isinstance(c, str):
                    f.store[k] = cat(s.store[k], VStr((("rep", c, n),)))
                    continue
                x = self.accel_num(s.store[k])
                lg = self.models.log2(x)
                if lg is None:
                    return None
                f.store[k] = self.accel_put(s.store[k], D.pow2(lg + n.scale(c.bit_length() - 1)))
        except Budget:
            return None
        finally:
            self.muted -= 1
            del self.fails[nf:]
            del self.events[ne:]
        o, e, backs = self.region(fr, [(h, f)], body, h)
        if o or backs:
            return None
        return e

    def every_round(self, fr, h, g, body):
        """Run the loop body on a state standing for every round; its obligations count, and none may fail."""
        obl = {k: (o.ok, o.detail, o.where, o.taint) for k, o in self.obligs.items()}
        nf = len(self.fails)
        m, self.muted = self.muted, self.muted - 1
        try:
            r = self.region(fr, [(h, g)], body, h)
        finally:
            self.muted = m
        if len(self.fails) > nf:
            for k in list(self.obligs):
                if k not in obl:
                    del self.obligs[k]
                else:
                    o = self.obligs[k]
                    o.ok, o.detail, o.where, o.taint = obl[k]
            return None
        return r

    def accelerate_while(self, fr, h, s, body):
        """`while n < m { text.push(c); n += 1 }`: the number of rounds is the distance to the bound."""
        s = s.copy()
        self.prune_dead(fr, h, [s])
        if not any(isinstance(v, VStr) and v.pieces for k, v in s.store.items() if k[0] == fr.depth) or len(s.store) > 60:
            return None
        self.muted += 1
        nf, ne = len(self.fails), len(self.events)

        def slots_of(u, backs):
            if len(backs) != 1 or backs[0].ghost != u.ghost:
                return None
            out = {}
            for k, v in backs[0].store.items():
                x = u.store.get(k)
                if x is None or v is x or v == x:
                    continue
                if isinstance(x, VStr) and isinstance(v, VStr) and pushed(x, v) is not None:
                    out[k] = pushed(x, v)
                elif isinstance(x, Lin) and isinstance(v, Lin) and (v - x).const:
                    out[k] = (v - x).c
                else:
                    return None
            return out

        def after(u, slots, n):
            f = u.copy()
            for k, c in slots.items():
                x = u.store[k]
                f.store[k] = cat(x, VStr((("rep", c, n),))) if isinstance(c, str) else x + n.scale(c)
            return f
        try:
            o, e, backs = self.region(fr, [(h, s)], body, h)
            self.prune_dead(fr, h, backs)
            slots = slots_of(s, backs)
            if o or not e or not slots or not any(isinstance(c, str) for c in slots.values()):
                return None
            D._fresh[0] += 1
            i = D.sym("i#%d" % D._fresh[0], 0, 1 << 40)
            # the condition to go on, as a function of the number of rounds so far
            o, e, backs = self.region(fr, [(h, after(s, slots, i))], body, h)
            if o or len(e) != 1 or len(backs) != 1:
                return None
            c = self.discriminator(backs[0].facts, e[0][1].facts)
            if c is None or len(c[0].vars) != 1:
                return None
            c, v = c[0], c[0].vars[0]
            ia = i.single()
            if v.kind == "cmp":
                l = v.args[0]
                go = l if c is D.bvar(v) else num(1) - l if c is D.b_not(D.bvar(v)) else None
            else:
                return None
            if go is None or dict(go.terms).get(ia) != 1:
                return None
            a = go - i
            g = after(s, slots, i).assume(D.le0(go))
            if g is None:
                return None
            r = self.every_round(fr, h, g, body)
            if r is None:
                return None
            o, e, backs = r
            self.prune_dead(fr, h, backs)
            if o or e or slots_of(after(s, slots, i), backs) != slots:
                return None
        except Budget:
            return None
        finally:
            self.muted -= 1
            del self.fails[nf:]
            del self.events[ne:]
        out = []
        once, more = s.assume(D.lt(num(0), a)), s.assume(D.le0(a))
        for f in (once, after(more, slots, num(1) - a) if more is not None else None):
            if f is None:
                continue
            o, e, backs = self.region(fr, [(h, f)], body, h)
            if o or backs:
                return None
            out += e
        return out

    def accel_num(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, VAdt) and v.ty.k == "adt" and v.ty.path in ("num_bigint::BigUint", "num_bigint::BigInt") and len(v.fields) == 1 and isinstance(v.fields[0], Lin):
            return v.fields[0]
        return None

    def accel_put(self, v, x):
        return x if isinstance(v, Lin) else VAdt(v.ty, v.variant, (x,))

    def accel_slots(self, s, backs, rk):
        """{slot: factor} when the round only advances the range by one and multiplies slots by powers of two."""
        if len(backs) != 1:
            return None
        b = backs[0]
        if b.ghost != s.ghost:
            return None
        out = {}
        for k, v in b.store.items():
            u = s.store.get(k)
            if u is None or v is u or v == u:
                continue
            if k == rk:
                if not (isinstance(v, VAdt) and v.fields[1] == u.fields[1] and v.fields[0] == u.fields[0] + 1):
                    return None
                continue
            if isinstance(u, VStr) and isinstance(v, VStr):
                c = pushed(u, v)
                if c is None:
                    return None
                out[k] = c
                continue
            x, y = self.accel_num(u), self.accel_num(v)
            if x is None or y is None:
                return None
            c = None
            for j in range(1, 9):
                if self.models.big_op(self, s, "Mul", x, num(1 << j)) == y:
                    c = 1 << j
            if c is None:
                return None
            out[k] = c
        return out if out else None

    def und_limit(self, fr, h):
        return self.PREFIX if self.prefix_only else self.MAXUNDEC

    # event probing: hooks may buffer state that must be rolled back
    def begin_probe(self):
        return None

    def end_probe(self, tok, commit):
        return None

    # -- loop summaries ---------------------------------------------------------

    def flatten(self, v, path=()):
        """Scalar leaves of a value: yields (path, leaf)."""
        if isinstance(v, (VTuple,)):
            for i, x in enumerate(v.items):
                yield from self.flatten(x, path + (i,))
        elif isinstance(v, VAdt):
            if self.is_addr(v):
                yield path, v
                return
            for i, x in enumerate(v.fields):
                yield from self.flatten(x, path + (i,))
        elif isinstance(v, VOp):
            for i, x in enumerate(v.args):
                if isinstance(x, (Lin, BF, VTuple, VAdt, VSeq, VSymSeq, VOp, VStr, VArr, VSym)):
                    yield from self.flatten(x, path + (i,))
                else:
                    yield path + (i,), x
        else:
            yield path, v

    def generalise(self, vals, name, st, ty=None):
        """Most specific common shape of the values, with fresh symbols where they differ.
        vals: list of values met at a loop head."""
        v0 = vals[0]
        if all(v is v0 or v == v0 for v in vals):
            return v0
        if all(isinstance(v, Lin) for v in vals):
            lo, hi = self.ty_bounds(ty)
            return D.sym(name, lo, hi, self._any_taint(vals))
        if all(isinstance(v, BF) for v in vals):
            return D.bvar(D.atom("pred", (name,), 0, 1, taint=self._any_taint(vals)))
        if all(self.is_addr(v) for v in vals) and all(v.ty is v0.ty for v in vals):
            return self.addr_value(v0.ty, D.word(name, self.addr_width(v0.ty), self._any_taint(vals)))
        if self.net_info and all(isinstance(v, VAdt) and v.ty.path == self.net_info["path"] for v in vals):
            pi = self.net_info["prefix"]
            w = self.addr_width(v0.ty.args[0])
            if all(isinstance(v.fields[pi], VAdt) and v.fields[pi].variant == 1 for v in vals):
                p = D.sym(name + ".p", 0, w, self._any_taint(vals))
                m = D.mask_word(w, p)
                b = D.bitwise("and", D.word(name + ".a", w), m, w)
                return self.mk_net(v0.ty, b, m, VAdt(self.net_info["opt_ty"], 1, (p,)))
            return self.net_value(v0.ty, name, self._any_taint(vals))
        if all(isinstance(v, VAdt) for v in vals) and all(v.ty is v0.ty for v in vals):
            if all(v.variant == v0.variant for v in vals):
                fs = []
                for i in range(len(v0.fields)):
                    ft = None
                    try:
                        ft = v0.ty.field_ty(v0.variant, i)
                    except Exception:
                        pass
                    fs.append(self.generalise([v.fields[i] for v in vals], "%s.%d" % (name, i), st, ft))
                return VAdt(v0.ty, v0.variant, tuple(fs))
            return self.sym_value(v0.ty, name, self._any_taint(vals)) if v0.ty.k == "adt" else VTop("join")
        if all(isinstance(v, VTuple) for v in vals) and all(len(v.items) == len(v0.items) for v in vals):
            return VTuple(tuple(self.generalise([v.items[i] for v in vals], "%s.%d" % (name, i), st,
                                                ty.field_ty(0, i) if ty is not None and ty.k == "tuple" else None) for i in range(len(v0.items))))
        if all(isinstance(v, (VAdt, VSym, VOp)) for v in vals) and ty is not None and ty.k == "adt" and ty.d["adt_kind"] == "enum":
            return self.sym_value(ty, name, self._any_taint(vals))
        if all(isinstance(v, VSymSeq) for v in vals) and all(v.name == v0.name for v in vals):
            ln = v0.ln if all(v.ln is v0.ln for v in vals) else D.sym(name + ".len", 0, (1 << 63) - 1)
            off = v0.off if all(v.off is v0.off for v in vals) else D.sym(name + ".off", 0, (1 << 63) - 1)
            return VSymSeq(v0.name, v0.elem, ln, off)
        if all(isinstance(v, VSeq) for v in vals):
            et = None
            for v in vals:
                if v.pre is not None:
                    et = v.pre.elem
            if et is None and ty is not None:
                if ty.k == "adt" and ty.args:
                    et = ty.args[0]
                elif ty.k in ("slice", "array"):
                    et = ty.inner
            if et is None:
                return VTop("sequence of unknown element type")
            return VSeq(VSymSeq(name, et, D.sym("len(%s)" % name, 0, (1 << 63) - 1, self._any_taint(vals)), num(0)), ())
        if all(isinstance(v, VStr) for v in vals):
            return VStr((("sym", name),))
        if all(isinstance(v, VOp) for v in vals) and all(v.kind == v0.kind and len(v.args) == len(v0.args) for v in vals):
            args = []
            if v0.kind in ("set", "map"):
                return v0 if all(v == v0 for v in vals) else VOp(v0.kind, (name, v0.args[1], "…", FALSE))
            for i in range(len(v0.args)):
                xs = [v.args[i] for v in vals]
                if all(x is xs[0] or x == xs[0] for x in xs):
                    args.append(xs[0])
                elif all(isinstance(x, (Lin, BF, VAdt, VTuple, VSeq, VSymSeq, VStr, VOp)) for x in xs):
                    bt = None
                    args.append(self.generalise(xs, "%s.%d" % (name, i), st, bt))
                elif v0.kind in ("set", "map") and i == 0:
                    args.append(name)
                else:
                    return VTop("join of %s" % v0.kind)
            return VOp(v0.kind, tuple(args))
        t = self._any_taint(vals)
        return VTop(t or "join of %s" % ", ".join(sorted({type(v).__name__ for v in vals})))

    def _any_taint(self, vals):
        for v in vals:
            t = D.taint_of(v) if isinstance(v, (Lin, BF)) else None
            if t:
                return t
        return None

    def ty_bounds(self, ty):
        if ty is not None and ty.k == "int":
            return int_range(ty)
        if ty is not None and ty.k == "char":
            return 0, 0x10FFFF
        return None, None

    def slot_ty(self, fr, oid):
        f = fr
        while f:
            if oid[0] == f.depth and oid[1] == f.fn.id:
                return self.prog.types[f.fn.body["locals"][oid[2]]]
            f = f.parent
        return None

    def summarise(self, fr, h, st0):
        cfg = fr.fn.cfg()
        body = cfg.loops[h]
        tag = "%s:%s" % (fr.fn.name, h)
        self.muted += 1
        try:
            # slots that change around the loop
            cur = st0
            changed = {}
            gchanged = {}
            shapes = {}
            for rnd in range(12):
                o, e, backs = self.region(fr, [(h, cur)], body, h)
                if not backs:
                    break
                new = False
                vals = {}
                for b in backs:
                    for k in list(cur.store):
                        if k not in b.store:
                            vals.setdefault(k, []).append(None)
                            continue
                        if b.store[k] is not cur.store[k] and b.store[k] != cur.store[k]:
                            vals.setdefault(k, []).append(b.store[k])
                    for k in cur.ghost:
                        if b.ghost.get(k) != cur.ghost[k]:
                            vals.setdefault(("ghost", k), []).append(b.ghost.get(k))
                nxt = cur.copy()
                for k, vs in vals.items():
                    if isinstance(k, tuple) and k[0] == "ghost":
                        g = self.generalise([st0.ghost[k[1]], cur.ghost[k[1]]] + vs, "%s@%s" % (k[1], tag), st0,
                                            None) if not isinstance(cur.ghost[k[1]], (bool, int, str, frozenset, type(None))) else self.join_ghost(k[1], [cur.ghost[k[1]]] + vs)
                        if g != cur.ghost[k[1]]:
                            nxt.ghost[k[1]] = g
                            new = True
                        continue
                    if any(v is None for v in vs):
                        if k in nxt.store:
                            del nxt.store[k]
                            new = True
                        continue
                    ty = self.slot_ty(fr, k)
                    inits = [st0.store[k]] if k in st0.store else []
                    g = self.generalise(inits + vs + [cur.store[k]], "%s@%s" % (self.slot_name(fr, k), tag), st0, ty)
                    if g != cur.store[k]:
                        nxt.store[k] = g
                        new = True
                # drop entry facts about slots is unnecessary: symbols are fresh
                cur = nxt
                if not new:
                    break
            else:
                raise Undecided("loop summary did not stabilise in " + fr.fn.full)
            head = cur
            # candidate invariants over the generalised slots
            cands = self.candidates(fr, h, st0, head)
            holds = []
            for c in cands:
                e0 = c(st0)
                if e0 is not None and st0.facts.ev(e0) is True:
                    holds.append(c)
            for rnd in range(30):
                hs = head
                bad = False
                for c in holds:
                    b = c(head)
                    if b is None:
                        continue
                    hs2 = hs.assume(b)
                    if hs2 is None:
                        bad = True
                        break
                    hs = hs2
                if bad:
                    holds = []
                    hs = head
                o, e, backs = self.region(fr, [(h, hs)], body, h)
                keep = []
                for c in holds:
                    good = True
                    for b in backs:
                        bb = c(b)
                        if bb is None or b.facts.ev(bb) is not True:
                            good = False
                            break
                    if good:
                        keep.append(c)
                if len(keep) == len(holds):
                    break
                holds = keep
        finally:
            self.muted -= 1
        hs = head
        for c in holds:
            b = c(head)
            if b is not None:
                s2 = hs.assume(b)
                if s2 is None:
                    return [], []
                hs = s2
        if not self.muted:
            self.loop_log.append((fr.fn.full, h, [getattr(c, "label", "?") for c in holds]))
        o, e, backs = self.region(fr, [(h, hs)], body, h)
        return o, e

    def join_ghost(self, k, vs):
        v0 = vs[0]
        if all(v == v0 for v in vs):
            return v0
        return "⊤"

    def slot_name(self, fr, oid):
        f = fr
        while f:
            if oid[0] == f.depth and oid[1] == f.fn.id:
                for n, pl, _ in f.fn.body["names"]:
                    if pl[0] == oid[2] and not pl[1]:
                        return n
                return "_%d" % oid[2]
            f = f.parent
        return repr(oid)

    def observables(self, st):
        """Named integer observables of a state: {path key: getter}."""
        out = {}
        for k, v in st.store.items():
            self._obs(v, (k,), out, 0)
        for k, v in st.ghost.items():
            if isinstance(v, Lin) or self.is_addr(v):
                self._obs(v, (("ghost", k),), out, 0)
        return out

    def _obs(self, v, path, out, depth):
        if depth > 4:
            return
        if isinstance(v, Lin):
            out[path] = v
        elif self.is_addr(v):
            out[path + ("int",)] = self.addr_int(v)
        elif self.net_info and isinstance(v, VAdt) and v.ty.path == self.net_info["path"]:
            b = v.fields[self.net_info["base"]]
            m = v.fields[self.net_info["mask"]]
            if self.is_addr(b) and self.is_addr(m):
                w = self.addr_width(b.ty)
                bi, mi = self.addr_int(b), self.addr_int(m)
                out[path + ("base",)] = bi
                out[path + ("last",)] = bi + num((1 << w) - 1) - mi
                out[path + ("mask",)] = mi
            p = v.fields[self.net_info["prefix"]]
            if isinstance(p, VAdt) and p.variant == 1:
                out[path + ("prefix",)] = p.fields[0]
        elif isinstance(v, (VAdt,)):
            for i, x in enumerate(v.fields):
                self._obs(x, path + (i,), out, depth + 1)
        elif isinstance(v, VTuple):
            for i, x in enumerate(v.items):
                self._obs(x, path + (i,), out, depth + 1)
        elif isinstance(v, VSeq):
            out[path + ("len",)] = self.seq_len(v)
        elif isinstance(v, VSymSeq):
            out[path + ("ln",)] = v.ln
            out[path + ("off",)] = v.off
        elif isinstance(v, VOp):
            for i, x in enumerate(v.args):
                self._obs(x, path + (i,), out, depth + 1)

    def candidates(self, fr, h, st0, head):
        """Candidate inductive facts relating observables of changed slots."""
        o0, oh = self.observables(st0), self.observables(head)
        changed = [k for k in oh if k in o0 and oh[k] is not o0[k]]
        common = [k for k in oh if k in o0]
        cs = []

        def mkc(f, label):
            def c(st):
                o = self.observables(st)
                try:
                    return f(o)
                except KeyError:
                    return None
            c.label = label
            return c

        def size(k):
            b = D.lin_bounds(oh[k])
            return b[1]
        for i, a in enumerate(changed):
            va = oh[a]
            # constant bounds
            if o0[a].const:
                c0 = o0[a].c
                cs.append(mkc(lambda o, a=a, c0=c0: D.le(num(c0), o[a]), "%s>=%d" % (a, c0)))
                cs.append(mkc(lambda o, a=a, c0=c0: D.le(o[a], num(c0)), "%s<=%d" % (a, c0)))
            else:
                iv = o0[a]
                cs.append(mkc(lambda o, a=a, iv=iv: D.le(iv, o[a]), "%s>=init" % (a,)))
                cs.append(mkc(lambda o, a=a, iv=iv: D.le(o[a], iv), "%s<=init" % (a,)))
            b0 = D.lin_bounds(o0[a])
            for b in common:
                if b == a:
                    continue
                # only relate comparable magnitudes
                d0 = o0[a] - o0[b]
                cs.append(mkc(lambda o, a=a, b=b: D.eq(o[a], o[b]), "%s==%s" % (a, b)))
                cs.append(mkc(lambda o, a=a, b=b: D.le(o[a], o[b]), "%s<=%s" % (a, b)))
                cs.append(mkc(lambda o, a=a, b=b: D.le(o[b], o[a]), "%s<=%s" % (b, a)))
                if d0.const and d0.c != 0:
                    cs.append(mkc(lambda o, a=a, b=b, d=d0.c: D.eq(o[a], o[b] + d), "%s==%s%+d" % (a, b, d0.c)))
                s0 = o0[a] + o0[b]
                if b in changed and (s0.const or True):
                    cs.append(mkc(lambda o, a=a, b=b, s=s0: D.eq(o[a] + o[b], s), "%s+%s==init" % (a, b)))
        if self.candidate_hook:
            cs += self.candidate_hook(self, fr, h, st0, head, mkc)
        return cs

    # -------------------------------------------------------------- one block

    def block(self, fr, b, st):
        """Execute a basic block; returns [(next block or 'ret', state)]."""
        self.blocks_seen += 1
        D.check_time()
        blk = fr.fn.body["blocks"][b]
        sts = [st.copy()]
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                nxt = []
                for x in sts:
                    t = None
                    rs = self.rvalue(x, fr, s[2], self.place_ty(fr, s[1]), s[3])
                    for i, (y, v) in enumerate(rs):
                        if y is x and len(rs) > 1:
                            y = y.copy()
                        elif len(rs) > 1:
                            y = y.copy()
                        self.write_place(y, fr, s[1], v)
                        nxt.append(y)
                sts = nxt
            elif k == "dead":
                for x in sts:
                    x.store.pop(fr.oid(s[1]), None)
            elif k == "sd":
                for x in sts:
                    v = self.read_place(x, fr, s[1])
                    if isinstance(v, VAdt):
                        self.write_place(x, fr, s[1], VAdt(v.ty, s[2], v.fields))
                    else:
                        self.write_place(x, fr, s[1], VTop("set discriminant"))
            elif k == "assume":
                nxt = []
                for x in sts:
                    c = self.operand(x, fr, s[1])
                    if isinstance(c, BF):
                        y = x.assume(c)
                        if y is not None:
                            nxt.append(y)
                    else:
                        nxt.append(x)
                sts = nxt
        t = blk["t"]
        k = t[0]
        out = []
        for x in sts:
            if k == "goto":
                out.append((t[1], x))
            elif k == "ret":
                out.append(("ret", x))
            elif k == "drop":
                if not t[1][1]:
                    x.store.pop(fr.oid(t[1][0]), None)
                out.append((t[2], x))
            elif k == "switch":
                out += self.switch(fr, x, t)
            elif k == "assert":
                out += self.do_assert(fr, x, t, blk["sp"])
            elif k == "call":
                out += self.call_term(fr, x, t, blk["sp"])
            elif k == "unreach":
                if not x.facts.bot:
                    raise Undecided("reaches code that the compiler knows to be unreachable, in %s" % fr.fn.full)
            elif k == "unwind":
                pass
            else:
                raise Undecided("terminator %s in %s" % (t, fr.fn.full))
        return out

    def switch(self, fr, st, t):
        v = self.operand(st, fr, t[1])
        ty = self.prog.types[t[4]]
        out = []
        if isinstance(v, BF):
            zero = None
            for val, b in t[2]:
                if val == 0:
                    zero = b
            one = t[3]
            for val, b in t[2]:
                if val == 1:
                    one = b
            if zero is None:
                zero = t[3]
            tt, ff = st.split(v)
            if tt is not None:
                out.append((one, tt))
            if ff is not None:
                out.append((zero, ff))
            return out
        if isinstance(v, Lin):
            cur = st
            for val, b in t[2]:
                if cur is None:
                    break
                if ty.k == "int" and ty.signed and val >> (ty.bits - 1):
                    val -= 1 << ty.bits
                y, n = cur.split(D.eq(v, num(val)))
                if y is not None:
                    out.append((b, y))
                cur = n
            if cur is not None:
                out.append((t[3], cur))
            return out
        # unknown scrutinee: all targets
        self.note_unmodelled("branch on %r" % (v,), fr.fn.path)
        for val, b in t[2]:
            out.append((b, st.copy()))
        out.append((t[3], st.copy()))
        return out

    def local_frame(self, fr):
        f = fr
        while f is not None and not f.fn.local:
            f = f.parent
        return f or fr

    def site_key(self, fr, what):
        return "%s: %s" % (self.local_frame(fr).fn.path, what)

    def site_where(self, fr, sp):
        """Source position in the innermost frame that belongs to the crate."""
        f, at = fr, sp
        while f is not None and not f.fn.local:
            at = f.callsite or at
            f = f.parent
        return at

    def do_assert(self, fr, st, t, sp):
        c = self.operand(st, fr, t[1])
        exp = t[2]
        kind = t[3]
        if not isinstance(c, BF):
            c = self.topbool("assert on unknown")
        cond = c if exp else D.b_not(c)
        desc = kind
        self.oblige("panic", self.site_key(fr, "assert %s" % kind), st, cond, "%s may fail: %r  [%s]" % (kind, cond, st.facts.describe()[:600]), self.site_where(fr, sp))
        s = st.assume(cond)
        return [(t[5], s)] if s is not None else []

    # -------------------------------------------------------------- calls

    def call_term(self, fr, st, t, sp):
        callee, argops, dst, target = t[1], t[2], t[3], t[4]
        args = [self.operand(st, fr, o) for o in argops]
        # moved temporaries die here
        dty = self.place_ty(fr, dst)
        atys = [self.operand_ty(fr, o) for o in argops]
        res = self.call(fr, st, callee, args, dty, atys, sp)
        out = []
        for s, v in res:
            if target is None:
                continue
            s = s.copy()
            for o in argops:
                if o[0] == "m" and not o[1][1]:
                    s.store.pop(fr.oid(o[1][0]), None)
            self.write_place(s, fr, dst, v)
            out.append((target, s))
        return out

    def call(self, fr, st, callee, args, dty, atys, sp):
        """Dispatch a resolved callee descriptor.  Returns [(state, value)]."""
        self.calls_seen += 1
        if "ctor" in callee:
            c = callee["ctor"]
            return [(st, VAdt(self.prog.types[c["ty"]], c["variant"], tuple(args)))]
        if callee.get("kind") == "indirect":
            f = self.operand(st, fr, callee["op"])
            return self.call_value(fr, st, f, args, dty, sp)
        path = callee.get("rpath") or callee["path"]
        ov = self.overrides.get(path) or self.overrides.get(callee["path"])
        if ov is not None:
            r = ov(self, st, fr, callee, args, dty, sp)
            if r is not None:
                return r
        if callee.get("trait") in ("std::ops::Fn", "std::ops::FnMut", "std::ops::FnOnce"):
            tup = args[1]
            if isinstance(tup, VTuple):
                return self.call_value(fr, st, args[0], list(tup.items), dty, sp)
        inst = self.prog.fns.get(callee.get("inst")) if "inst" in callee else None
        if inst is not None and inst.local and inst.body is not None:
            m = self.models.local_model(self, st, fr, inst, callee, args, dty, sp)
            if m is not None:
                return m
            try:
                return self.run(inst, args, st, fr, sp)
            except (Undecided, Budget) as e:
                if self.strict:
                    raise
                return self.unknown_call(fr, st, "%s (%s)" % (path, e), args, dty, sp)
        try:
            r = self.models.call(self, st, fr, callee, args, dty, atys, sp)
        except (Undecided, Budget) as e:
            if self.strict:
                raise
            return self.unknown_call(fr, st, "%s (%s)" % (path, e), args, dty, sp)
        if r is not None:
            return r
        if inst is not None and inst.body is not None and self.inline_std and self.std_ok(inst):
            try:
                return self.run(inst, args, st, fr, sp)
            except (Undecided, Budget) as e:
                self.note_unmodelled("%s (%s)" % (path, e), fr.fn.path)
        return self.unknown_call(fr, st, path, args, dty, sp)

    def std_ok(self, fn):
        p = fn.path
        return not (p.startswith("hashbrown") or "raw_vec" in p or p.startswith("std::alloc") or p.startswith("alloc::"))

    def unknown_call(self, fr, st, path, args, dty, sp):
        why = "unmodelled call " + path
        self.note_unmodelled(path, fr.fn.path)
        s = st.copy()
        for a in self.reachable_ptrs(st, args):
            if a.oid in s.store:
                # may be mutated through the reference
                try:
                    self.store_path(s, a.oid, a.path, VTop(why))
                except Exception:
                    s.store[a.oid] = VTop(why)
        for k in s.ghost:
            if isinstance(s.ghost[k], VStr):
                # it may have printed
                s.ghost[k] = cat(s.ghost[k], VStr((("unknown", why),)))
        D._fresh[0] += 1
        return [(s, self.sym_value(dty, "ret#%d" % D._fresh[0], why))]

    def reachable_ptrs(self, st, args):
        out, todo, seen = [], list(args), set()
        while todo:
            v = todo.pop()
            if isinstance(v, VPtr):
                if (v.oid, v.path) in seen:
                    continue
                seen.add((v.oid, v.path))
                out.append(v)
                todo.append(self.load(st, v.oid, v.path))
            elif isinstance(v, VRef):
                todo.append(v.v)
            elif isinstance(v, VAdt):
                todo += v.fields
            elif isinstance(v, (VTuple, VArr, VSeq)):
                todo += v.items
            elif isinstance(v, VOp):
                todo += [x for x in v.args if isinstance(x, (VPtr, VRef, VAdt, VTuple, VArr, VSeq, VOp))]
        return out

    def call_value(self, fr, st, f, args, dty, sp):
        """Call a function value (closure, fn item, reference to either)."""
        g = self.deref_all(st, f)
        if isinstance(g, VFn):
            c = g.ty.d["fn"]
            return self.call(fr, st, c, args, dty, [None] * len(args), sp)
        if isinstance(g, VAdt) and g.ty.k == "closure":
            inst = self.prog.fns[g.ty.d["inst"]]
            if inst.body is None:
                raise Undecided("closure without body")
            self_ty = self.prog.types[inst.body["locals"][1]]
            if self_ty.k == "ref":
                me = f if isinstance(f, (VPtr, VRef)) else None
                # strip extra reference levels
                while isinstance(me, (VPtr, VRef)):
                    inner = self.deref(st, me)
                    if isinstance(inner, (VPtr, VRef)):
                        me = inner
                    else:
                        break
                if me is None:
                    me = VRef(g)
            else:
                me = g
            if inst.body["spread"] is not None:
                return self.run(inst, [me, VTuple(tuple(args))], st, fr, sp)
            return self.run(inst, [me] + list(args), st, fr, sp)
        self.note_unmodelled("call of %r" % (g,), fr.fn.path)
        return self.unknown_call(fr, st, "function value %r" % (g,), args, dty, sp)

    def panic(self, st, fr, what, sp, cond_detail=""):
        """A reachable explicit panic."""
        self.oblige("panic", self.site_key(fr, what), st, FALSE, "%s reachable %s [%s]" % (what, cond_detail, st.facts.describe()[:600]), self.site_where(fr, sp))
        return []


def sum_bytes(items, little=False):
    r = num(0)
    xs = items if not little else list(reversed(items))
    for x in xs:
        r = r.scale(256) + x
    return r
