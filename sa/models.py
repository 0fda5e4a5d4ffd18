"""Meaning of the standard-library and dependency operations the analysed crate uses."""
import functools
import re
from . import dom as D
from . import rx
from . import text
from .dom import Lin, BF, TRUE, FALSE, num
from .interp import (VTuple, VAdt, VArr, VSymSeq, VSeq, VGSeq, gseq, gitems, VStr, VPtr, VRef, VFn, VSym, VOp, VTop, UNIT, lit, cat,
                     Undecided, Budget, State, int_range)

USIZE_MAX = (1 << 64) - 1


def val_name(v):
    """Stable textual identity of a value, used to name derived symbols."""
    return repr(v)


def flat_key(v):
    return v


class Models:
    def __init__(self, prog):
        self.prog = prog
        self.contracts = []
        self.on_parse = None
        self.on_number = None     # (interp, st, VStr, type, result type): number texts chosen by the check
        self.on_push = None       # (interp, st, fr, ptr, VSeq before, element)
        self.on_print = None      # (interp, st, fr, stream, VStr, sp)
        self.on_exit = None
        self.env_args = None     # the arguments of the program, if given
        self.hooks = {}
        self._lazy = {}
        self.assumed = {}
        self._order_cache = {}
        self.derived = set()
        for im in prog.impls:
            if im.get("derived"):
                self.derived.add((im["trait"], im["self"]))

    # ------------------------------------------------------------------ helpers

    def ty(self, i):
        return self.prog.types[i] if isinstance(i, int) else i

    def gargs(self, callee):
        return [self.prog.types[i] for i in callee.get("args", [])]

    def opt(self, ty, v):
        return VAdt(ty, 0, ()) if v is None else VAdt(ty, 1, (v,))

    def ok(self, ty, v):
        return VAdt(ty, 0, (v,))

    def err(self, ty, v):
        return VAdt(ty, 1, (v,))

    def fire(self, ev, I, st, fr, *a):
        h = self.hooks.get(ev)
        if h is not None:
            return h(I, st, fr, *a)
        return None

    def ordering(self, ty, c):
        """Ordering value for c in -1,0,1: variants are Less, Equal, Greater."""
        return VAdt(ty, c + 1, ())

    # ------------------------------------------------------------------ comparisons

    def is_derived(self, trait, ty):
        if ty.k != "adt":
            return False
        return (trait, ty.id) in self.derived or (trait, ty.s) in self.derived or \
            any(t == trait and isinstance(x, str) and x.split("<")[0] == ty.path for t, x in self.derived)

    def struct_eq(self, I, st, a, b):
        """BF for structural equality, or None if not expressible."""
        a, b = I.deref_all(st, a), I.deref_all(st, b)
        if a is b:
            return TRUE
        if isinstance(a, Lin) and isinstance(b, Lin):
            return D.eq(a, b)
        if isinstance(a, BF) and isinstance(b, BF):
            return D.b_not(D.b_xor(a, b))
        if I.is_addr(a) and I.is_addr(b):
            return D.eq(I.addr_int(a), I.addr_int(b))
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            return self._all_eq(I, st, a.items, b.items)
        if isinstance(a, VArr) and isinstance(b, VArr):
            return self._all_eq(I, st, a.items, b.items)
        if isinstance(a, VAdt) and isinstance(b, VAdt):
            if a.variant != b.variant:
                return FALSE
            ni = I.net_info
            if ni and a.ty.path == ni["path"]:
                # equality of masks implies equality of the prefix option they determine
                pa, pb = a.fields[ni["prefix"]], b.fields[ni["prefix"]]
                if self.pfx_canonical(I, a) and self.pfx_canonical(I, b):
                    return self._all_eq(I, st, [a.fields[ni["base"]], a.fields[ni["mask"]]], [b.fields[ni["base"]], b.fields[ni["mask"]]])
            return self._all_eq(I, st, a.fields, b.fields)
        if isinstance(a, VSym) and isinstance(b, VSym) and a.ty is b.ty:
            return D.pred("symeq", *sorted((a, b), key=repr))
        if isinstance(a, VStr) and isinstance(b, VStr):
            return self.str_eq(a, b)
        if isinstance(a, (VSeq,)) and isinstance(b, VSeq) and a.pre is None and b.pre is None:
            return self._all_eq(I, st, a.items, b.items)
        if isinstance(a, VSym) and isinstance(b, VAdt) and a.ty is b.ty:
            a, b = b, a
        if isinstance(a, VAdt) and isinstance(b, VSym) and a.ty is b.ty:
            r = D.eq(I.discr_atom(b), num(a.variant))
            if a.fields:
                e = I.expand(b, a.variant)
                x = self._all_eq(I, st, a.fields, e.fields)
                if x is None:
                    return None
                r = D.b_and(r, x)
            return r
        if isinstance(a, VOp) and isinstance(b, VOp) and a.kind == b.kind == "pfxopt":
            return D.pred("pfxeq", *sorted((a.args[2], b.args[2]), key=repr))
        return None

    def pfx_canonical(self, I, net):
        ni = I.net_info
        m = I.addr_int(net.fields[ni["mask"]])
        p = net.fields[ni["prefix"]]
        return p == I.pfx_option(I.addr_width(net.ty.args[0]), m)

    def _all_eq(self, I, st, xs, ys):
        if len(xs) != len(ys):
            return FALSE
        r = TRUE
        for x, y in zip(xs, ys):
            e = self.struct_eq(I, st, x, y)
            if e is None:
                return None
            r = D.b_and(r, e)
        return r

    def str_eq(self, a, b):
        if a == b:
            return TRUE
        ca = all(isinstance(p, str) for p in a.pieces)
        cb = all(isinstance(p, str) for p in b.pieces)
        if ca and cb:
            return D.boolc("".join(a.pieces) == "".join(b.pieces))
        if ca:
            a, b = b, a
            ca, cb = cb, ca
        if cb:
            s = "".join(b.pieces)
            # element-wise on strings of known characters
            ch = self.known_chars(a)
            if ch is not None:
                if len(ch) != len(s):
                    return FALSE
                r = TRUE
                for c, x in zip(ch, s):
                    r = D.b_and(r, D.eq(c, num(ord(x))))
                return r
            return text.decide(a, "eq", s)
        return D.pred("streq2", *sorted((a, b), key=repr))

    def three_way(self, I, st, a, b, oty):
        """Split on the order of two values; [(state, Ordering)]."""
        a, b = I.deref_all(st, a), I.deref_all(st, b)
        if I.is_addr(a) and I.is_addr(b):
            a, b = I.decl_int(a), I.decl_int(b)
        if isinstance(a, BF) and isinstance(b, BF):
            a, b = D.bool_to_int(a), D.bool_to_int(b)
        if isinstance(a, Lin) and isinstance(b, Lin):
            out = []
            t, f = st.split(D.eq(a, b))
            if t is not None:
                out.append((t, self.ordering(oty, 0)))
            if f is not None:
                lt, gt = f.split(D.lt(a, b))
                if lt is not None:
                    out.append((lt, self.ordering(oty, -1)))
                if gt is not None:
                    out.append((gt, self.ordering(oty, 1)))
            return out
        if isinstance(a, (VTuple, VArr)) and isinstance(b, (VTuple, VArr)) and len(a.items) == len(b.items):
            return self.lex(I, st, a.items, b.items, oty)
        if isinstance(a, VAdt) and isinstance(b, VAdt) and a.ty is b.ty and (a.ty.path or "").endswith("cmp::Reverse"):
            return self.three_way(I, st, b.fields[0], a.fields[0], oty)
        if isinstance(a, VAdt) and isinstance(b, VAdt) and a.variant == b.variant:
            return self.lex(I, st, a.fields, b.fields, oty)
        if isinstance(a, VAdt) and isinstance(b, VAdt):
            return [(st, self.ordering(oty, -1 if a.variant < b.variant else 1))]
        return None

    def lex(self, I, st, xs, ys, oty):
        out = []
        cur = [st]
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                r = self.three_way(I, s, x, y, oty)
                if r is None:
                    return None
                for s2, o in r:
                    if o.variant == 1:
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            cur = nxt
        out += [(s, self.ordering(oty, 0)) for s in cur]
        return out

    def cmp_bf(self, I, st, op, a, b):
        """BF for an ordering comparison of directly comparable values, or None."""
        a, b = I.deref_all(st, a), I.deref_all(st, b)
        if I.is_addr(a) and I.is_addr(b):
            if not self.is_derived("std::cmp::PartialOrd", a.ty):
                return None
            a, b = I.decl_int(a), I.decl_int(b)
        if isinstance(a, BF) and isinstance(b, BF):
            a, b = D.bool_to_int(a), D.bool_to_int(b)
        if isinstance(a, Lin) and isinstance(b, Lin):
            return {"lt": D.lt, "le": D.le, "gt": lambda x, y: D.lt(y, x), "ge": lambda x, y: D.le(y, x)}[op](a, b)
        return None

    # ------------------------------------------------------------------ popcounts

    def popcount(self, I, st, l, w):
        if l.const:
            return num(bin(l.c & ((1 << w) - 1)).count("1"))
        a = l.single()
        if a is not None:
            return D.pop_seg(l, 0, w) if D.base_of(l) is not None or True else None
        full = (1 << w) - 1
        c = num(full) - l
        if c.single() is not None:
            return num(w) - self.popcount(I, st, c, w)
        bits = D.to_bits(l, None)
        if bits is not None and len(bits) <= 64:
            r = num(0)
            for b in bits:
                if b is FALSE:
                    continue
                r = r + D.bool_to_int(b)
            return r
        return D.of_atom(D.atom("popcnt", (l,), 0, w, taint="population count of %r" % (l,)))

    # ------------------------------------------------------------------ strings

    def known_chars(self, s):
        """List of Lin characters when the string's characters are individually known, else None."""
        out = []
        for p in s.pieces:
            if isinstance(p, str):
                out += [num(ord(c)) for c in p]
            elif p[0] == "char":
                out.append(p[1])
            else:
                return None
        return out

    def from_chars(self, cs):
        out = []
        for c in cs:
            out.append(chr(c.c) if c.const else ("char", c))
        return cat(*[VStr((p,)) for p in out]) if out else VStr(())

    def as_str(self, I, st, v):
        v = I.deref_all(st, v)
        if isinstance(v, VOp) and v.kind == "box":
            v = v.args[0]
        return v if isinstance(v, VStr) else None

    def display(self, I, st, v, ty, kind="d", opts=()):
        """String pieces of a formatted argument."""
        v = I.deref_all(st, v)
        if kind == "d" and I.is_addr(v) and not opts:
            return VStr((("addr", I.addr_width(v.ty), I.addr_int(v)),))
        if kind == "d" and isinstance(v, VAdt) and v.ty.k == "adt" and v.ty.path in ("num_bigint::BigUint", "num_bigint::BigInt") and I.accel_num(v) is not None:
            v = I.accel_num(v)
        if opts:
            spec = text.fmt_spec(opts)
            if spec is not None and isinstance(spec[6], Lin):
                spec = None
            if spec is not None and isinstance(spec[5], Lin):
                if isinstance(v, VStr) and kind == "d":
                    return VStr((("d", v, spec),))
                spec = None
            if spec is not None and isinstance(v, VStr) and kind == "d":
                if spec == text.NO_SPEC:
                    return v
                if all(isinstance(x, str) for x in v.pieces):
                    return lit(text.apply_spec("".join(v.pieces), spec, False))
                lo, hi = text.length_bounds(v)
                if spec[6] is None and lo >= (spec[5] or 0):
                    return v
                return VStr((("d", v, spec),))
            elif spec is not None and isinstance(v, Lin) and kind in ("d", "x", "X", "b", "o") and (ty is None or ty.k != "char"):
                if v.const and (v.c >= 0 or kind == "d"):
                    return lit(text.apply_spec(format(v.c, kind), spec, True, kind))
                if spec == text.NO_SPEC:
                    return VStr(((kind, v),))
                lo, hi = D.lin_bounds(v)
                if kind == "b" and spec[2] and not spec[3] and not spec[4] and lo is not None and lo >= 0 and hi is not None and hi < 1 << min(spec[5] or 0, 64):
                    bs = D.to_bits(v, spec[5])
                    if bs is not None:
                        return cat(*[VStr((("char", num(48) + D.ite_int(x, num(1), num(0))),)) for x in reversed(bs)])
                return VStr(((kind, v, spec),))
        if isinstance(v, VStr) and kind == "d" and not opts:
            return v
        if isinstance(v, Lin) and ty is not None and ty.k == "char" and kind == "d" and not opts:
            return VStr((("char", v),)) if not v.const else lit(chr(v.c))
        if isinstance(v, Lin) and v.const and kind == "d" and not opts:
            return lit(str(v.c))
        return VStr(((kind, v) + tuple(opts),))

    # ------------------------------------------------------------------ iterators

    ADAPT = {}

    def to_iter(self, I, st, fr, v, ty):
        """IntoIterator on a value of a given type."""
        if isinstance(v, VOp) and v.kind.startswith("it:"):
            return v
        if isinstance(v, VAdt) and v.ty.k == "adt" and v.ty.path in ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom"):
            return v
        if isinstance(v, VAdt) and v.ty.k == "adt" and v.ty.d.get("local"):
            return v
        if isinstance(v, (VSeq, VArr, VGSeq)):
            return VOp("it:seq", (v, num(0), I.seq_len(v), "val"))
        if isinstance(v, (VRef, VPtr)):
            t = I.deref(st, v)
            if isinstance(t, VOp) and t.kind.startswith("it:"):
                return VOp("it:byref", (v,))
            mut = ty is not None and ty.k == "ref" and ty.d.get("mut")
            if isinstance(t, (VSeq, VArr, VGSeq)):
                if mut and isinstance(v, VPtr):
                    return VOp("it:mut", (v, num(0), I.seq_len(t)))
                return VOp("it:seq", (t, num(0), I.seq_len(t), "ref"))
            if isinstance(t, VOp) and t.kind in ("set", "map"):
                return self.hash_iter(I, st, fr, t)
            if isinstance(t, VAdt):
                return self.to_iter(I, st, fr, t, None) if t.ty.path == "std::option::Option" else None
        if isinstance(v, VOp) and v.kind in ("set", "map"):
            return self.hash_iter(I, st, fr, v, own=True)
        if isinstance(v, VAdt) and v.ty.path == "std::option::Option":
            items = v.fields if v.variant == 1 else ()
            return VOp("it:seq", (VSeq(None, tuple(items)), num(0), num(len(items)), "val"))
        return None

    def plain_hash(self, v):
        """A hash container whose entries are all known."""
        return isinstance(v, VOp) and v.kind in ("set", "map") and isinstance(v.args[2], tuple) and v.args[3] == TRUE

    def hash_order(self, I, t):
        """The entries in one of the possible orders (the check names the orders to be tried), or None."""
        xs = list(t.args[2])
        if len(xs) <= 1:
            return xs
        if I.hash_order is None:
            return None
        return xs[::-1] if I.hash_order else xs

    def hash_find(self, I, st, v, x):
        """[(state, position of the entry equal to x or None)], or None"""
        x = I.deref_all(st, x)
        if self.has_handwritten(I, x, "std::cmp::PartialEq") or self.has_handwritten(I, x, "std::hash::Hash"):
            return None
        out, cur = [], st
        for i, e in enumerate(v.args[2]):
            c = self.struct_eq(I, cur, e if v.kind == "set" else e[0], x)
            if c is None:
                return None
            t, cur = cur.split(c)
            if t is not None:
                out.append((t, i))
            if cur is None:
                break
        if cur is not None:
            out.append((cur, None))
        return out

    def hash_plain_method(self, I, st, fr, v, m, p, args, dty, atys, sp):
        items = v.args[2]
        isset = v.kind == "set"

        def put(s, xs):
            s = s.copy()
            I.write_ptr(s, p, VOp(v.kind, (v.args[0], v.args[1], tuple(xs), TRUE)))
            return s
        if m == "len":
            return [(st, num(len(items)))]
        if m == "is_empty":
            return [(st, D.boolc(not items))]
        if m == "clear":
            return [(put(st, ()), UNIT)]
        if m in ("reserve", "shrink_to_fit"):
            return [(st, UNIT)]
        if m in ("insert", "remove", "contains", "contains_key", "get", "take", "replace", "remove_entry", "get_key_value"):
            r = self.hash_find(I, st, v, args[1])
            if r is None:
                return None
            out = []
            for s, i in r:
                has = D.boolc(i is not None)
                rest = items[:i] + items[i + 1:] if i is not None else items
                old = items[i] if i is not None else None
                if m in ("contains", "contains_key"):
                    out.append((s, has))
                elif m == "get":
                    out.append((s, self.opt(dty, None if i is None else VRef(old if isset else old[1]))))
                elif isset and m == "insert":
                    x = args[1]
                    out.append((put(s, items + (x,)) if i is None else s, D.b_not(has)))
                elif isset and m == "remove":
                    out.append((put(s, rest) if i is not None else s, has))
                elif isset and m == "take":
                    out.append((put(s, rest), self.opt(dty, old)))
                elif isset and m == "replace":
                    out.append((put(s, rest + (args[1],)), self.opt(dty, old)))
                elif m == "insert":
                    new = items[:i] + ((old[0], args[2]),) + items[i + 1:] if i is not None else items + ((args[1], args[2]),)
                    out.append((put(s, new), self.opt(dty, old[1] if i is not None else None)))
                elif m == "remove":
                    out.append((put(s, rest), self.opt(dty, old[1] if i is not None else None)))
                else:
                    return None
            return out
        if m in ("iter", "into_iter", "drain", "values", "keys", "into_values", "into_keys"):
            if m in ("iter", "into_iter"):
                return [(st, self.hash_iter(I, st, fr, v, own=not isinstance(p, (VRef, VPtr))))]
            xs = self.hash_order(I, v)
            if xs is None:
                I.note_unmodelled("order of a hash container", fr.fn.path)
                return None
            if m == "drain":
                xs = xs if isset else [VTuple(x) for x in xs]
                return [(put(st, ()), VOp("it:seq", (VSeq(None, tuple(xs)), num(0), num(len(xs)), "val")))]
            if isset:
                return None
            xs = [x[0 if m.endswith("keys") else 1] for x in xs]
            return [(st, VOp("it:seq", (VSeq(None, tuple(xs)), num(0), num(len(xs)), "val" if m.startswith("into") else "ref")))]
        if m == "retain":
            cur = [(st, ())]
            for x in items:
                nx = []
                for s, acc in cur:
                    for s2, b in I.call_value(fr, s, args[1], [VRef(x)] if isset else [VRef(x[0]), VRef(x[1])], self.bool_ty(), sp):
                        if not isinstance(b, BF):
                            return None
                        t, f = s2.split(b)
                        if t is not None:
                            nx.append((t, acc + (x,)))
                        if f is not None:
                            nx.append((f, acc))
                cur = nx
            return [(put(s, acc), UNIT) for s, acc in cur]
        return None

    def hash_fill(self, I, st, fr, v, xs):
        """Containers after adding the entries one by one: [(state, container)], or None"""
        cur = [(st, v)]
        for x in xs:
            nx = []
            for s, c in cur:
                if v.kind == "set":
                    if isinstance(x, (VRef, VPtr)) and c.args[1] is not None and c.args[1].k != "ref":
                        x = I.deref(s, x)
                    k = x
                else:
                    x = I.deref_all(s, x)
                    if not isinstance(x, VTuple):
                        return None
                    k, x = x.items[0], x.items
                r = self.hash_find(I, s, c, k)
                if r is None:
                    return None
                for s2, i in r:
                    its = c.args[2]
                    if i is None:
                        its = its + (x,)
                    elif v.kind == "map":
                        its = its[:i] + ((its[i][0], x[1]),) + its[i + 1:]
                    nx.append((s2, VOp(c.kind, (c.args[0], c.args[1], its, TRUE))))
            cur = nx
        return cur

    def hash_iter(self, I, st, fr, t, own=False):
        """Iteration over a hash container: unspecified order."""
        self.fire("hash_iter", I, st, fr, t)
        if self.plain_hash(t):
            items = self.hash_order(I, t)
            if items is not None:
                mode = "val" if own else "ref" if t.kind == "set" else "refpair"
                if t.kind == "map":
                    items = [VTuple(x) for x in items]
                return VOp("it:seq", (VSeq(None, tuple(items)), num(0), num(len(items)), mode))
            I.note_unmodelled("order of a hash container", fr.fn.path)
        name, elem = t.args[0], t.args[1]
        n = D.sym("len(%s)" % name, 0, (1 << 62))
        s = VSeq(VSymSeq("elems(%s)" % name, elem, n, num(0)), ())
        return VOp("it:seq", (s, num(0), n, "ref" if t.kind == "set" else "refpair"))

    def split_lt(self, I, st, a, b):
        """Split on a < b; notes undecided trip counts."""
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            raise Undecided("range bounds are not known")
        c = D.lt(a, b)
        r = st.facts.ev(c)
        if r is True:
            return st, None
        if r is False:
            return None, st
        bd = D.lin_bounds(b - a, st.facts)
        if not (bd[0] is not None and bd[1] is not None and bd[1] - max(0, bd[0]) <= 16):
            I.symtrip = True
        return st.assume(c), st.assume(D.b_not(c))

    def nxt(self, I, st, fr, it, sp, back=False):
        """One step of an iterator: [(state, iterator', item or None)]."""
        if isinstance(it, VAdt):
            p = it.ty.path
            if p == "std::ops::Range":
                a, b = it.fields
                t, f = self.split_lt(I, st, a, b)
                out = []
                if f is not None:
                    out.append((f, it, None))
                if t is not None:
                    if back:
                        out.append((t, VAdt(it.ty, 0, (a, b - 1)), b - 1))
                    else:
                        out.append((t, VAdt(it.ty, 0, (a + 1, b)), a))
                return out
            if p == "std::ops::RangeFrom":
                a = it.fields[0]
                return [(st, VAdt(it.ty, 0, (a + 1,)), a)]
            if p == "std::ops::RangeInclusive":
                a, b, ex = it.fields
                out = []
                t, f = st.split(ex)
                if t is not None:
                    out.append((t, it, None))
                if f is not None:
                    le = D.le(a, b)
                    r = f.facts.ev(le)
                    if r is None:
                        I.symtrip = True
                    t, f = f.split(le)
                    if f is not None:
                        out.append((f, it, None))
                    if t is not None:
                        lt, eq = t.split(D.lt(a, b))
                        if lt is not None:
                            if back:
                                out.append((lt, VAdt(it.ty, 0, (a, b - 1, FALSE)), b))
                            else:
                                out.append((lt, VAdt(it.ty, 0, (a + 1, b, FALSE)), a))
                        if eq is not None:
                            out.append((eq, VAdt(it.ty, 0, (a, b, TRUE)), a if not back else b))
                return out
            # a local iterator type
            f = self.prog.impl_method("std::iter::Iterator", "next", it.ty)
            if f is not None and not back:
                tmp = ("tmp", "iter", fr.depth, it.ty.id)
                s = st.copy()
                s.store[tmp] = it
                I.symtrip = True
                out = []
                for s2, v in I.run(f, [VPtr(tmp, ())], s, fr, sp):
                    for s3, v3 in I.variant_of(s2, v):
                        s3 = s3.copy()
                        it2 = s3.store.pop(tmp)
                        out.append((s3, it2, v3.fields[0] if isinstance(v3, VAdt) and v3.variant == 1 else (None if isinstance(v3, VAdt) else VTop("next"))))
                return out
            raise Undecided("iteration over %s" % it.ty.s)
        if not isinstance(it, VOp):
            raise Undecided("iteration over %r" % (it,))
        k = it.kind
        if k == "it:byref":
            inner = I.deref(st, it.args[0])
            out = []
            for s, i2, v in self.nxt(I, st, fr, inner, sp, back):
                s = s.copy()
                I.write_ptr(s, it.args[0], i2)
                out.append((s, it, v))
            return out
        if k == "it:seq":
            seq, i, n, mode = it.args
            t, f = self.split_lt(I, st, i, n)
            out = []
            if f is not None:
                out.append((f, it, None))
            if t is not None:
                if back:
                    v, i2, n2 = I.index(t, seq, n - 1), i, n - 1
                else:
                    v, i2, n2 = I.index(t, seq, i), i + 1, n
                if mode == "ref":
                    v = v if isinstance(v, VStr) and False else VRef(v)
                elif mode == "refpair":
                    v = VTuple(tuple(VRef(x) for x in v.items)) if isinstance(v, VTuple) else VTop("map entry")
                out.append((t, VOp("it:seq", (seq, i2, n2, mode)), v))
            return out
        if k == "it:args":
            # the arguments as texts: those that are not Unicode panic
            out = []
            for s, i2, v in self.nxt(I, st, fr, it.args[0], sp, back):
                if isinstance(v, VOp):
                    I.panic(s, fr, "an argument that is not valid Unicode", sp)
                    continue
                out.append((s, VOp(k, (i2,)), v))
            return out
        if k == "it:mut":
            ptr, i, n = it.args
            t, f = self.split_lt(I, st, i, n)
            out = []
            if f is not None:
                out.append((f, it, None))
            if t is not None:
                if back:
                    out.append((t, VOp(k, (ptr, i, n - 1)), VPtr(ptr.oid, ptr.path + (("i", n - 1),))))
                else:
                    out.append((t, VOp(k, (ptr, i + 1, n)), VPtr(ptr.oid, ptr.path + (("i", i),))))
            return out
        if k == "it:rev":
            return [(s, VOp(k, (i2,)), v) for s, i2, v in self.nxt(I, st, fr, it.args[0], sp, not back)]
        if k == "it:map":
            inner, f, rty = it.args
            out = []
            for s, i2, v in self.nxt(I, st, fr, inner, sp, back):
                if v is None:
                    out.append((s, VOp(k, (i2, f, rty)), None))
                else:
                    for s2, r in I.call_value(fr, s, f, [v], rty, sp):
                        out.append((s2, VOp(k, (i2, f, rty)), r))
            return out
        if k in ("it:filter", "it:takewhile", "it:skipwhile"):
            inner, f, bty = it.args[0], it.args[1], it.args[2]
            out = []
            cur = [(st, inner)]
            n = 0
            while cur:
                n += 1
                if n > 300:
                    raise Budget("filter")
                nx = []
                for s0, in0 in cur:
                    for s, i2, v in self.nxt(I, s0, fr, in0, sp, back):
                        if v is None:
                            out.append((s, VOp(k, (i2, f, bty)), None))
                            continue
                        for s2, r in I.call_value(fr, s, f, [VRef(v)], bty, sp):
                            if not isinstance(r, BF):
                                r = I.topbool("filter predicate")
                            t, e = s2.split(r)
                            if k == "it:filter":
                                if t is not None:
                                    out.append((t, VOp(k, (i2, f, bty)), v))
                                if e is not None:
                                    nx.append((e, i2))
                            elif k == "it:takewhile":
                                if t is not None:
                                    out.append((t, VOp(k, (i2, f, bty)), v))
                                if e is not None:
                                    out.append((e, VOp("it:seq", (VSeq(None, ()), num(0), num(0), "val")), None))
                            else:
                                if t is not None:
                                    nx.append((t, i2))
                                if e is not None:
                                    out.append((e, i2, v))
                if nx and I.symtrip:
                    # symbolic source: any later element (or none) may be the next one
                    raise Undecided("filter over a sequence of symbolic length")
                cur = nx
            return out
        if k == "it:enum":
            inner, c = it.args
            if back:
                n = self.length(I, st, inner)
                if n is None:
                    raise Undecided("rev enumerate")
                return [(s, VOp(k, (i2, c)), None if v is None else VTuple((c + n - 1, v))) for s, i2, v in self.nxt(I, st, fr, inner, sp, True)]
            return [(s, VOp(k, (i2, c + 1 if v is not None else c)), None if v is None else VTuple((c, v)))
                    for s, i2, v in self.nxt(I, st, fr, inner, sp)]
        if k == "it:zip":
            a, b = it.args
            if back:
                raise Undecided("rev zip")
            out = []
            for s, a2, x in self.nxt(I, st, fr, a, sp):
                if x is None:
                    out.append((s, VOp(k, (a2, b)), None))
                    continue
                for s2, b2, y in self.nxt(I, s, fr, b, sp):
                    out.append((s2, VOp(k, (a2, b2)), None if y is None else VTuple((x, y))))
            return out
        if k == "it:cloned":
            return [(s, VOp(k, (i2,)), None if v is None else I.deref(s, v)) for s, i2, v in self.nxt(I, st, fr, it.args[0], sp, back)]
        if k == "it:take":
            inner, n = it.args
            t, f = self.split_lt(I, st, num(0), n)
            out = []
            if f is not None:
                out.append((f, it, None))
            if t is not None:
                for s, i2, v in self.nxt(I, t, fr, inner, sp):
                    out.append((s, VOp(k, (i2, n - 1)), v))
            return out
        if k == "it:skip":
            inner, n = it.args
            if back:
                raise Undecided("rev skip")
            ln = self.skip_seq(I, st, inner, n)
            if ln is not None:
                return self.nxt(I, st, fr, ln, sp)
            if not n.const:
                raise Undecided("skip of symbolic count")
            cur = [(st, inner)]
            out = []
            for _ in range(n.c):
                nx = []
                for s0, in0 in cur:
                    for s, i2, v in self.nxt(I, s0, fr, in0, sp):
                        if v is None:
                            out.append((s, i2, None))
                        else:
                            nx.append((s, i2))
                cur = nx
            for s0, in0 in cur:
                out += self.nxt(I, s0, fr, in0, sp)
            return out
        if k == "it:chain":
            a, b = it.args
            if back:
                raise Undecided("rev chain")
            out = []
            if a is not None:
                for s, a2, v in self.nxt(I, st, fr, a, sp):
                    if v is not None:
                        out.append((s, VOp(k, (a2, b)), v))
                    else:
                        out += [(s2, VOp(k, (None, b2)), v2) for s2, b2, v2 in self.nxt(I, s, fr, b, sp)]
                return out
            return [(s2, VOp(k, (None, b2)), v2) for s2, b2, v2 in self.nxt(I, st, fr, b, sp)]
        if k == "it:chunks":
            seq, i, n, size, mode = it.args
            t, f = self.split_lt(I, st, i, n)
            out = []
            if f is not None:
                out.append((f, it, None))
            if t is not None:
                rem = n - i
                if rem.const and size.const:
                    e = min(rem.c, size.c)
                    if mode == "exact" and e < size.c:
                        out.append((t, it, None))
                    else:
                        v = VRef(I.subslice(t, seq, i, i + e))
                        out.append((t, VOp(k, (seq, i + e, n, size, mode)), v))
                else:
                    raise Undecided("chunks of symbolic sequence")
            return out
        if k == "it:stepby":
            inner, step, first = it.args
            if back or not step.const:
                raise Undecided("step_by")
            if first is TRUE:
                return [(s, VOp(k, (i2, step, FALSE)), v) for s, i2, v in self.nxt(I, st, fr, inner, sp)]
            return [(s, VOp(k, (i2.args[0] if isinstance(i2, VOp) and i2.kind == "it:skip" else i2, step, FALSE)), v)
                    for s, i2, v in self.nxt(I, st, fr, VOp("it:skip", (inner, step - 1)), sp)]
        if k == "it:repeat":
            return [(st, it, it.args[0])]
        if k == "it:once":
            return self.nxt(I, st, fr, VOp("it:seq", (VSeq(None, (it.args[0],)), num(0), num(1), "val")), sp, back)
        if k == "it:succ":
            cur, f, oty = it.args
            out = []
            for s, c in I.variant_of(st, cur):
                if not isinstance(c, VAdt):
                    raise Undecided("successors")
                if c.variant == 0:
                    out.append((s, VOp(k, (c, f, oty)), None))
                else:
                    v = c.fields[0]
                    for s2, n in I.call_value(fr, s, f, [VRef(v)], oty, sp):
                        out.append((s2, VOp(k, (n, f, oty)), v))
            return out
        if k == "it:fromfn":
            f, oty = it.args
            tmp = ("tmp", "fromfn", fr.depth, 0)
            s = st.copy()
            s.store[tmp] = f
            out = []
            for s2, r in I.call_value(fr, s, VPtr(tmp, ()), [], oty, sp):
                for s3, v in I.variant_of(s2, r):
                    s3 = s3.copy()
                    f2 = s3.store.pop(tmp)
                    if not isinstance(v, VAdt):
                        raise Undecided("from_fn")
                    out.append((s3, VOp(k, (f2, oty)), v.fields[0] if v.variant == 1 else None))
            return out
        raise Undecided("iterator " + k)

    def skip_seq(self, I, st, inner, n):
        if isinstance(inner, VOp) and inner.kind == "it:seq":
            seq, i, m, mode = inner.args
            c = D.le(i + n, m)
            if st.facts.ev(c) is True:
                return VOp("it:seq", (seq, i + n, m, mode))
        return None

    def length(self, I, st, it):
        """Exact number of remaining items, if expressible."""
        if isinstance(it, VAdt) and it.ty.path == "std::ops::Range":
            a, b = it.fields
            if st.facts.ev(D.le(a, b)) is True:
                return b - a
            return None
        if not isinstance(it, VOp):
            return None
        k = it.kind
        if k == "it:seq":
            return it.args[2] - it.args[1]
        if k == "it:args":
            return self.length(I, st, it.args[0])
        if k == "it:mut":
            return it.args[2] - it.args[1]
        if k in ("it:map", "it:enum", "it:cloned", "it:rev"):
            return self.length(I, st, it.args[0])
        if k == "it:zip":
            a, b = self.length(I, st, it.args[0]), self.length(I, st, it.args[1])
            if a is None or b is None:
                return None
            if st.facts.ev(D.le(a, b)) is True:
                return a
            if st.facts.ev(D.le(b, a)) is True:
                return b
        if k == "it:skip":
            a = self.length(I, st, it.args[0])
            if a is not None and st.facts.ev(D.le(it.args[1], a)) is True:
                return a - it.args[1]
        if k == "it:take":
            a = self.length(I, st, it.args[0])
            if a is not None and st.facts.ev(D.le(it.args[1], a)) is True:
                return it.args[1]
        return None

    def is_symbolic(self, I, st, it):
        """Does the iterator run over a sequence whose trip count the state does not decide?"""
        if isinstance(it, VAdt):
            if it.ty.path == "std::ops::Range":
                d = it.fields[1] - it.fields[0]
                if d.const:
                    return False
                b = D.lin_bounds(d, st.facts)
                return not (b[0] is not None and b[1] is not None and b[1] - b[0] <= 16 and b[1] <= 200)
            if it.ty.path == "std::ops::RangeInclusive":
                d = it.fields[1] - it.fields[0]
                b = D.lin_bounds(d, st.facts)
                return not (b[0] is not None and b[1] is not None and b[1] - b[0] <= 16 and b[1] <= 200)
            return True
        if not isinstance(it, VOp):
            return False
        k = it.kind
        if k == "it:seq":
            d = it.args[2] - it.args[1]
            if d.const:
                return False
            b = D.lin_bounds(d, st.facts)
            return not (b[0] is not None and b[1] is not None and b[1] - b[0] <= 8 and b[1] <= 200)
        if k == "it:mut":
            return not (it.args[2] - it.args[1]).const
        if k == "it:take":
            return not it.args[1].const and self.is_symbolic(I, st, it.args[0])
        if k in ("it:repeat",):
            return True
        if k == "it:zip":
            return self.is_symbolic(I, st, it.args[0]) and self.is_symbolic(I, st, it.args[1])
        if k == "it:chain":
            return any(a is not None and self.is_symbolic(I, st, a) for a in it.args)
        if k in ("it:succ", "it:fromfn"):
            return True
        if k == "it:byref":
            return self.is_symbolic(I, st, I.deref(st, it.args[0]))
        return any(self.is_symbolic(I, st, a) for a in it.args[:1] if isinstance(a, (VOp, VAdt)))

    def at(self, I, st, fr, it, ix, sp):
        """Item number ix (a form) of an iterator over a symbolic sequence: [(state, item)]."""
        if isinstance(it, VAdt) and it.ty.path in ("std::ops::Range", "std::ops::RangeFrom"):
            return [(st, it.fields[0] + ix)]
        if isinstance(it, VOp):
            k = it.kind
            if k == "it:seq":
                seq, i, n, mode = it.args
                v = I.index(st, seq, i + ix)
                if mode == "ref":
                    v = VRef(v)
                elif mode == "refpair":
                    v = VTuple(tuple(VRef(x) for x in v.items)) if isinstance(v, VTuple) else VTop("map entry")
                return [(st, v)]
            if k == "it:map":
                out = []
                for s, v in self.at(I, st, fr, it.args[0], ix, sp):
                    out += I.call_value(fr, s, it.args[1], [v], it.args[2], sp)
                return out
            if k == "it:cloned":
                return [(s, I.deref(s, v)) for s, v in self.at(I, st, fr, it.args[0], ix, sp)]
            if k == "it:enum":
                return [(s, VTuple((it.args[1] + ix, v))) for s, v in self.at(I, st, fr, it.args[0], ix, sp)]
            if k == "it:zip":
                return [(s2, VTuple((a, b))) for s, a in self.at(I, st, fr, it.args[0], ix, sp)
                        for s2, b in self.at(I, s, fr, it.args[1], ix, sp)]
            if k == "it:skip":
                return self.at(I, st, fr, it.args[0], ix + it.args[1], sp)
            if k == "it:take":
                return self.at(I, st, fr, it.args[0], ix, sp)
            if k == "it:rev":
                n = self.length(I, st, it.args[0])
                if n is not None:
                    return self.at(I, st, fr, it.args[0], n - 1 - ix, sp)
            if k == "it:filter":
                # some element satisfying the predicate
                j = D.of_atom(D.atom("filtidx", (repr(it.args[0]), repr(it.args[1]), ix), 0, None))
                out = []
                for s, v in self.at(I, st, fr, it.args[0], j, sp):
                    for s2, r in I.call_value(fr, s, it.args[1], [VRef(v)], it.args[2], sp):
                        if isinstance(r, BF):
                            s3 = s2.assume(r)
                            if s3 is not None:
                                out.append((s3, v))
                        else:
                            out.append((s2, v))
                return out
        raise Undecided("random access into %r" % (it,))

    def drain(self, I, st, fr, it, sp, limit=600):
        """All (state, [items]) of an iterator whose trip count is decided."""
        done = []
        cur = [(st, it, ())]
        n = 0
        save = I.symtrip
        I.symtrip = False
        try:
            while cur:
                n += 1
                if n > limit or len(cur) > 600:
                    raise Budget("drain")
                nx = []
                for s, i, acc in cur:
                    for s2, i2, v in self.nxt(I, s, fr, i, sp):
                        if v is None:
                            done.append((s2, acc))
                        else:
                            nx.append((s2, i2, acc + (v,)))
                cur = nx
        finally:
            I.symtrip = save
        return done

    def gdrain(self, I, st, fr, it, sp):
        """((guard, item), ...) of an iterator over finitely many conditionally present items, or None."""
        if isinstance(it, VAdt) and it.ty.path == "std::ops::Range" and it.fields[0].const and it.fields[1].const:
            return tuple((TRUE, num(i)) for i in range(it.fields[0].c, min(it.fields[1].c, it.fields[0].c + 300)))
        if not isinstance(it, VOp):
            return None
        k = it.kind
        if k == "it:seq":
            seq, i, n, mode = it.args
            g = gitems(seq)
            if g is None or len(g) > 300 or not (i == num(0) and n == I.seq_len(seq)):
                return None
            return g if mode == "val" else tuple((c, VRef(x)) for c, x in g)
        if k == "it:cloned":
            g = self.gdrain(I, st, fr, it.args[0], sp)
            return None if g is None else tuple((c, I.deref(st, x)) for c, x in g)
        if k == "it:enum":
            g = self.gdrain(I, st, fr, it.args[0], sp)
            if g is None or not all(c is TRUE for c, _ in g):
                return None
            return tuple((c, VTuple((it.args[1] + j, x))) for j, (c, x) in enumerate(g))
        if k == "it:chain":
            a, b = self.gdrain(I, st, fr, it.args[0], sp), self.gdrain(I, st, fr, it.args[1], sp)
            return None if a is None or b is None else a + b
        if k == "it:zip":
            a, b = self.gdrain(I, st, fr, it.args[0], sp), self.gdrain(I, st, fr, it.args[1], sp)
            if a is None or b is None or not all(c is TRUE for c, _ in a + b):
                return None
            return tuple((TRUE, VTuple((x, y))) for (_, x), (_, y) in zip(a, b))
        if k in ("it:take", "it:skip"):
            g = self.gdrain(I, st, fr, it.args[0], sp)
            if g is None or not all(c is TRUE for c, _ in g):
                return None
            p = it.args[1]
            return tuple((D.lt(num(j), p) if k == "it:take" else D.le(p, num(j)), x) for j, (_, x) in enumerate(g))
        if k in ("it:map", "it:filter"):
            g = self.gdrain(I, st, fr, it.args[0], sp)
            if g is None:
                return None
            out = []
            for c, x in g:
                s0 = st.assume(c)
                if s0 is None:
                    continue
                rs = I.call_value(fr, s0, it.args[1], [VRef(x) if k == "it:filter" else x], it.args[2], sp)
                if len(rs) != 1:
                    return None
                v = rs[0][1]
                if k == "it:map":
                    out.append((c, v))
                else:
                    if not isinstance(v, BF):
                        return None
                    out.append((D.b_and(c, v), x))
            return tuple(out)
        return None

    def gcollect(self, I, st, fr, it, sp, elem=None):
        def guarded(i):
            if not isinstance(i, VOp):
                return False
            if i.kind in ("it:filter", "it:take", "it:skip"):
                return True
            if i.kind == "it:seq":
                return isinstance(i.args[0], VGSeq)
            return any(guarded(a) for a in i.args if isinstance(a, VOp))
        if not guarded(it):
            return None
        try:
            g = self.gdrain(I, st, fr, it, sp)
        except (Undecided, Budget):
            return None
        if g is None or not all(isinstance(x, (Lin, BF)) for _, x in g):
            return None
        out = []
        for c, x in g:
            v = st.facts.ev(c)
            if v is False:
                continue
            out.append((TRUE if v else c, x))
        if sum(1 for c, _ in out if c is not TRUE) <= 4:
            return None
        return gseq(out)

    def collect(self, I, st, fr, it, dty, sp):
        if dty.k == "adt" and dty.path == "std::vec::Vec":
            g = self.gcollect(I, st, fr, it, sp)
            if g is not None:
                return [(st, g)]
        elem = None
        res = None
        tgt = dty
        wrap = None
        if dty.k == "adt" and dty.path in ("std::option::Option", "std::result::Result"):
            wrap = dty
            tgt = dty.args[0]
        if self.is_symbolic(I, st, it):
            if wrap is not None:
                raise Undecided("collect into %s" % dty.s)
            if tgt.k == "adt" and tgt.path == "std::vec::Vec":
                return self.collect_sym(I, st, fr, it, tgt, sp)
            if tgt.k == "adt" and tgt.path in ("std::collections::HashSet", "std::collections::HashMap", "std::collections::BTreeMap", "std::collections::BTreeSet"):
                return self.collect_set(I, st, fr, it, tgt, sp)
            raise Undecided("collect into %s" % dty.s)
        out = []
        for s, items in self.drain(I, st, fr, it, sp):
            if wrap is not None:
                cur = [(s, [])]
                for v in items:
                    nx = []
                    for s1, acc in cur:
                        for s2, e in I.variant_of(s1, v):
                            if not isinstance(e, VAdt):
                                raise Undecided("collect option")
                            good = (e.variant == 1) if wrap.path == "std::option::Option" else (e.variant == 0)
                            if good:
                                nx.append((s2, acc + [e.fields[0]]))
                            else:
                                if wrap.path == "std::option::Option":
                                    out.append((s2, VAdt(wrap, 0, ())))
                                else:
                                    out.append((s2, VAdt(wrap, 1, e.fields)))
                    cur = nx
                for s1, acc in cur:
                    for s2, r in self.build_hash(I, s1, fr, tgt, acc):
                        out.append((s2, VAdt(wrap, 1 if wrap.path == "std::option::Option" else 0, (r,))))
            else:
                out += self.build_hash(I, s, fr, tgt, list(items))
        return out

    def build_hash(self, I, st, fr, tgt, items):
        if tgt.k == "adt" and tgt.path in ("std::collections::HashSet", "std::collections::HashMap"):
            D._fresh[0] += 1
            kind = "set" if tgt.path.endswith("Set") else "map"
            v = VOp(kind, ("%s#%d" % (kind, D._fresh[0]), tgt.args[0] if kind == "set" else self.pair_ty(tgt), (), TRUE))
            r = self.hash_fill(I, st, fr, v, items)
            if r is None:
                raise Undecided("collect into %s" % tgt.s)
            return r
        return [(st, self.build(I, st, tgt, items))]

    def build(self, I, st, tgt, items):
        if tgt.k == "adt":
            if tgt.path == "std::vec::Vec" or tgt.path == "std::boxed::Box":
                return VSeq(None, tuple(items))
            if tgt.path == "std::string::String":
                out = []
                for v in items:
                    v = I.deref_all(st, v)
                    if isinstance(v, VStr):
                        out.append(v)
                    elif isinstance(v, Lin):
                        out.append(lit(chr(v.c)) if v.const else VStr((("char", v),)))
                    else:
                        raise Undecided("collect into String")
                return cat(*out) if out else VStr(())
        raise Undecided("collect into %s" % tgt.s)

    def collect_sym(self, I, st, fr, it, tgt, sp):
        elem = tgt.args[0]
        n = self.length(I, st, it)
        # a straight copy of a symbolic sequence keeps its identity
        if isinstance(it, VOp) and it.kind == "it:seq" and it.args[3] == "val" and it.args[1] == num(0) and it.args[2] == I.seq_len(it.args[0]):
            return [(st, it.args[0])]
        if isinstance(it, VOp) and it.kind == "it:cloned" and isinstance(it.args[0], VOp) and it.args[0].kind == "it:seq" \
                and it.args[0].args[1] == num(0) and it.args[0].args[2] == I.seq_len(it.args[0].args[0]):
            return [(st, it.args[0].args[0])]
        nm = "collect(%s)" % (self.iter_name(it),)
        if n is None:
            n = D.sym("len(%s)" % nm, 0, (1 << 62))
            src = self.length_bound(I, st, it)
        else:
            src = None
        # analyse the element computation once for an arbitrary index (obligations, effects)
        k = D.sym("k(%s)" % nm, 0, (1 << 62))
        s0 = st.assume(D.lt(k, n))
        if s0 is not None:
            self.at(I, s0, fr, it, k, sp)
        st2 = st
        if src is not None:
            st2 = st.assume(D.le(n, src)) or st
        return [(st2, VSeq(VSymSeq(("it", it, nm), elem, n, num(0)), ()))]

    def length_bound(self, I, st, it):
        if isinstance(it, VOp) and it.kind in ("it:filter", "it:map", "it:cloned", "it:enum", "it:takewhile", "it:skipwhile"):
            return self.length(I, st, it.args[0]) or self.length_bound(I, st, it.args[0])
        return self.length(I, st, it)

    def iter_name(self, it):
        return re.sub(r"#\d+", "", repr(it))

    def collect_set(self, I, st, fr, it, tgt, sp):
        D._fresh[0] += 1
        nm = "set#%d" % D._fresh[0]
        v = VOp("set" if "Set" in tgt.path else "map", (nm, tgt.args[0] if "Set" in tgt.path else self.pair_ty(tgt), ("from", it), TRUE))
        return [(st, v)]

    def pair_ty(self, tgt):
        s = "(%s, %s)" % (tgt.args[0].s, tgt.args[1].s)
        return self.prog.tyid_by_s.get(s)

    # fold-like consumers on decided iterators; symbolic ones get a summarised treatment
    def consume(self, I, st, fr, it, sp):
        if self.is_symbolic(I, st, it):
            return None
        return self.drain(I, st, fr, it, sp)

    def iterator_method(self, I, st, fr, m, callee, args, dty, atys, sp):
        g = self.gargs(callee)
        if m in ("next", "next_back"):
            p = args[0]
            it = I.deref(st, p)
            if it is None or isinstance(it, VTop):
                return None
            if isinstance(it, VAdt) and it.ty.d.get("local") and m == "next":
                return None
            if isinstance(it, (VPtr, VRef)):
                p = it
                it = I.deref(st, it)
            out = []
            for s, i2, v in self.nxt(I, st, fr, it, sp, m == "next_back"):
                s = s.copy()
                I.write_ptr(s, p, i2)
                out.append((s, self.opt(dty, v)))
            return out
        it = args[0]
        if m in ("nth",):
            it0 = I.deref(st, it)
            n = args[1]
            if isinstance(n, Lin) and n.const:
                cur = [(st, it0)]
                out = []
                for j in range(n.c + 1):
                    nx = []
                    for s, i in cur:
                        for s2, i2, v in self.nxt(I, s, fr, i, sp):
                            if v is None:
                                s2 = s2.copy()
                                I.write_ptr(s2, it, i2)
                                out.append((s2, self.opt(dty, None)))
                            elif j == n.c:
                                s2 = s2.copy()
                                I.write_ptr(s2, it, i2)
                                out.append((s2, self.opt(dty, v)))
                            else:
                                nx.append((s2, i2))
                    cur = nx
                return out
            ln = self.length(I, st, it0)
            if ln is not None:
                out = []
                t, f = st.split(D.lt(n, ln))
                if f is not None:
                    out.append((f, self.opt(dty, None)))
                if t is not None:
                    for s, v in self.at(I, t, fr, it0, n, sp):
                        out.append((s, self.opt(dty, v)))
                return out
            return None
        if m in ("map",):
            return [(st, VOp("it:map", (it, args[1], self.closure_ret(I, args[1], st))))]
        if m in ("filter", "take_while", "skip_while"):
            return [(st, VOp({"filter": "it:filter", "take_while": "it:takewhile", "skip_while": "it:skipwhile"}[m], (it, args[1], self.bool_ty())))]
        if m == "enumerate":
            return [(st, VOp("it:enum", (it, num(0))))]
        if m == "zip":
            other = self.to_iter(I, st, fr, args[1], atys[1])
            if other is None:
                return None
            return [(st, VOp("it:zip", (it, other)))]
        if m == "chain":
            other = self.to_iter(I, st, fr, args[1], atys[1])
            return [(st, VOp("it:chain", (it, other)))] if other is not None else None
        if m == "rev":
            return [(st, VOp("it:rev", (it,)))]
        if m in ("cloned", "copied"):
            return [(st, VOp("it:cloned", (it,)))]
        if m == "take":
            return [(st, VOp("it:take", (it, args[1])))]
        if m == "skip":
            return [(st, VOp("it:skip", (it, args[1])))]
        if m == "step_by":
            return [(st, VOp("it:stepby", (it, args[1], TRUE)))]
        if m in ("by_ref", "into_iter", "fuse", "peekable") and m != "peekable":
            return [(st, it)]
        if m == "collect":
            return self.collect(I, st, fr, it, dty, sp)
        if m in ("for_each",):
            if not self.is_symbolic(I, st, it):
                cur = [(st, it)]
                done = []
                n = 0
                while cur:
                    n += 1
                    if n > 600:
                        raise Budget("for_each")
                    nx = []
                    for s, i in cur:
                        for s2, i2, v in self.nxt(I, s, fr, i, sp):
                            if v is None:
                                done.append(s2)
                            else:
                                for s3, _ in I.call_value(fr, s2, args[1], [v], UNIT_TY(self), sp):
                                    nx.append((s3, i2))
                    cur = nx
                return [(s, UNIT) for s in done]
            return None
        if m == "count":
            n = self.length(I, st, it)
            if n is not None:
                return [(st, n)]
            if not self.is_symbolic(I, st, it):
                if isinstance(it, VOp) and it.kind == "it:filter":
                    r = self.count_filter(I, st, fr, it, sp)
                    if r is not None:
                        return r
                return [(s, num(len(x))) for s, x in self.drain(I, st, fr, it, sp)]
            src = self.length_bound(I, st, it)
            c = D.sym("count(%s)" % self.iter_name(it), 0, (1 << 62))
            if isinstance(it, VOp) and it.kind == "it:filter":
                # the predicate is analysed once for an arbitrary element
                k = D.sym("k(%s)" % self.iter_name(it), 0, (1 << 62))
                ln = self.length(I, st, it.args[0])
                s0 = st.assume(D.lt(k, ln)) if ln is not None else st
                if s0 is not None:
                    for s, v in self.at(I, s0, fr, it.args[0], k, sp):
                        I.call_value(fr, s, it.args[1], [VRef(v)], it.args[2], sp)
            s2 = st.assume(D.le(c, src)) if src is not None else st
            return [(s2, c)] if s2 is not None else []
        if m in ("sum", "product"):
            d = self.consume(I, st, fr, it, sp)
            if d is None:
                return None
            out = []
            for s, items in d:
                acc = num(0) if m == "sum" else num(1)
                bad = False
                for v in items:
                    v = I.deref_all(s, v)
                    if isinstance(v, BF) or not isinstance(v, Lin):
                        bad = True
                        break
                    acc = acc + v if m == "sum" else I.binop(s, "Mul", acc, v, dty)
                if bad or not isinstance(acc, Lin):
                    return None
                if dty.k == "int":
                    acc = self.checked(I, s, fr, acc, dty, "attempt to %s with overflow" % ("add" if m == "sum" else "multiply"), sp)
                    if acc is None:
                        continue
                out.append((s, acc))
            return out
        if m in ("max", "min", "max_by_key", "min_by_key", "max_by", "min_by"):
            return self.extremum(I, st, fr, m, it, args[1:], dty, sp)
        if m in ("any", "all"):
            itp = it
            it0 = I.deref(st, it) if isinstance(it, (VPtr, VRef)) else it
            if self.is_symbolic(I, st, it0):
                return self.sym_any_all(I, st, fr, m, it0, args[1], sp)
            cur = [(st, it0)]
            out = []
            n = 0
            while cur:
                n += 1
                if n > 400:
                    raise Budget(m)
                nx = []
                for s, i in cur:
                    for s2, i2, v in self.nxt(I, s, fr, i, sp):
                        if v is None:
                            out.append((s2, FALSE if m == "any" else TRUE))
                            continue
                        for s3, r in I.call_value(fr, s2, args[1], [v], self.bool_ty(), sp):
                            if not isinstance(r, BF):
                                r = I.topbool("predicate")
                            t, f = s3.split(r)
                            if m == "any":
                                if t is not None:
                                    out.append((t, TRUE))
                                if f is not None:
                                    nx.append((f, i2))
                            else:
                                if f is not None:
                                    out.append((f, FALSE))
                                if t is not None:
                                    nx.append((t, i2))
                cur = nx
            return out
        if m in ("find", "position", "find_map", "rposition"):
            it0 = I.deref(st, it) if isinstance(it, (VPtr, VRef)) else it
            if self.is_symbolic(I, st, it0) or m == "rposition":
                return None
            cur = [(st, it0)]
            out = []
            n = 0
            while cur:
                nx = []
                for s, i in cur:
                    for s2, i2, v in self.nxt(I, s, fr, i, sp):
                        if v is None:
                            out.append((s2, self.opt(dty, None)))
                            continue
                        arg = VRef(v) if m == "find" else v
                        for s3, r in I.call_value(fr, s2, args[1], [arg], self.bool_ty() if m != "find_map" else dty, sp):
                            if m == "find_map":
                                for s4, e in I.variant_of(s3, r):
                                    if isinstance(e, VAdt) and e.variant == 1:
                                        out.append((s4, e))
                                    else:
                                        nx.append((s4, i2))
                                continue
                            if not isinstance(r, BF):
                                r = I.topbool("predicate")
                            t, f = s3.split(r)
                            if t is not None:
                                s4 = t.copy()
                                I.write_ptr(s4, it, i2)
                                out.append((s4, self.opt(dty, v if m == "find" else num(n))))
                            if f is not None:
                                nx.append((f, i2))
                cur = nx
                n += 1
                if n > 400:
                    raise Budget(m)
            return out
        if m in ("fold", "try_fold", "reduce"):
            if self.is_symbolic(I, st, it if not isinstance(it, (VPtr, VRef)) else I.deref(st, it)) or m == "try_fold":
                return None
            if m == "fold":
                cur = [(st, it, args[1])]
                f = args[2]
            else:
                f = args[1]
                cur = []
                out0 = []
                for s, i2, v in self.nxt(I, st, fr, it, sp):
                    if v is None:
                        out0.append((s, self.opt(dty, None)))
                    else:
                        cur.append((s, i2, v))
            done = []
            n = 0
            while cur:
                n += 1
                if n > 600:
                    raise Budget("fold")
                nx = []
                for s, i, acc in cur:
                    for s2, i2, v in self.nxt(I, s, fr, i, sp):
                        if v is None:
                            done.append((s2, acc))
                        else:
                            for s3, r in I.call_value(fr, s2, f, [acc, v], dty if m == "fold" else dty.args[0], sp):
                                nx.append((s3, i2, r))
                # merge equal accumulators
                cur = self.merge3(I, nx)
            if m == "fold":
                return done
            return out0 + [(s, self.opt(dty, v)) for s, v in done]
        if m == "last":
            n = self.length(I, st, it)
            if n is not None:
                t, f = st.split(D.lt(num(0), n))
                out = []
                if f is not None:
                    out.append((f, self.opt(dty, None)))
                if t is not None:
                    for s, v in self.at(I, t, fr, it, n - 1, sp):
                        out.append((s, self.opt(dty, v)))
                return out
            return None
        if m == "size_hint":
            return None
        if m == "len":
            n = self.length(I, st, I.deref_all(st, it))
            return [(st, n)] if n is not None else None
        return None

    def count_filter(self, I, st, fr, it, sp):
        """filter(p).count() as the sum of the predicate's truth values."""
        out = []
        for s, items in self.drain(I, st, fr, it.args[0], sp):
            n = num(0)
            for v in items:
                r = I.call_value(fr, s, it.args[1], [VRef(v)], it.args[2], sp)
                if len(r) != 1 or not isinstance(r[0][1], BF):
                    return None
                s = r[0][0]
                n = n + D.bool_to_int(r[0][1])
            out.append((s, n))
        return out

    def merge3(self, I, nx):
        if len(nx) < 2:
            return nx
        g = {}
        for s, i, a in nx:
            key = (i, a, frozenset(s.store.items()), frozenset(s.ghost.items()))
            if key in g:
                s0 = g[key][0]
                from .interp import State
                g[key] = (State(s0.store, s0.facts.join(s.facts), s0.ghost), i, a)
            else:
                g[key] = (s, i, a)
        return list(g.values())

    def sym_any_all(self, I, st, fr, m, it, f, sp):
        """any/all over a symbolic sequence: the witness element is an arbitrary one."""
        nm = self.iter_name(it)
        k = D.sym("k(%s)" % nm, 0, (1 << 62))
        n = self.length(I, st, it)
        out = []
        D._fresh[0] += 1
        s0 = st.assume(D.lt(k, n)) if n is not None else st
        hit = []
        if s0 is not None:
            for s, v in self.at(I, s0, fr, it, k, sp):
                for s2, r in I.call_value(fr, s, f, [v], self.bool_ty(), sp):
                    if isinstance(r, BF):
                        t, e = s2.split(r)
                        if m == "any" and t is not None:
                            hit.append((t, TRUE))
                        if m == "all" and e is not None:
                            hit.append((e, FALSE))
                    else:
                        hit.append((s2, TRUE if m == "any" else FALSE))
        return hit + [(st, FALSE if m == "any" else TRUE)]

    def extremum(self, I, st, fr, m, it, rest, dty, sp):
        if m not in ("max", "min"):
            return None
        if not self.is_symbolic(I, st, it):
            out = []
            for s, items in self.drain(I, st, fr, it, sp):
                if not items:
                    out.append((s, self.opt(dty, None)))
                    continue
                cur = [(s, items[0])]
                for v in items[1:]:
                    nx = []
                    for s1, a in cur:
                        # max keeps the later of equal elements, min the earlier: same value either way for total orders
                        c = self.cmp_bf(I, s1, "le" if m == "max" else "gt", a, v)
                        if c is None:
                            return None
                        t, f = s1.split(c)
                        if t is not None:
                            nx.append((t, v))
                        if f is not None:
                            nx.append((f, a))
                    cur = nx
                out += [(s1, self.opt(dty, a)) for s1, a in cur]
            return out
        n = self.length(I, st, it)
        nm = self.iter_name(it)
        if n is None:
            return None
        t, f = st.split(D.lt(num(0), n))
        out = []
        if f is not None:
            out.append((f, self.opt(dty, None)))
        if t is not None:
            k = D.of_atom(D.atom("arg" + m, (nm,), 0, (1 << 62)))
            t = t.assume(D.lt(k, n))
            if t is not None:
                for s, v in self.at(I, t, fr, it, k, sp):
                    out.append((s, self.opt(dty, v)))
        return out

    def closure_ret(self, I, f, st):
        g = I.deref_all(st, f)
        if isinstance(g, VAdt) and g.ty.k == "closure":
            inst = self.prog.fns[g.ty.d["inst"]]
            return self.prog.types[inst.body["locals"][0]]
        if isinstance(g, VFn):
            c = g.ty.d["fn"]
            if "ctor" in c:
                return self.prog.types[c["ctor"]["ty"]]
            inst = self.prog.fns.get(c.get("inst"))
            if inst is not None and inst.body:
                return self.prog.types[inst.body["locals"][0]]
        return None

    def bool_ty(self):
        for t in self.prog.types:
            if t is not None and t.k == "bool":
                return t

    def checked(self, I, st, fr, v, ty, what, sp):
        """Arithmetic that panics on overflow in debug builds: obligation plus result, or None if it cannot go on."""
        c = I.in_range(v, ty)
        r = I.oblige("panic", I.site_key(fr, what), st, c, "%s: %r [%s]" % (what, v, st.facts.describe()[:400]), I.site_where(fr, sp))
        if r is False:
            return None
        return v

    # ------------------------------------------------------------------ dispatch

    def local_model(self, I, st, fr, inst, callee, args, dty, sp):
        tr, m = callee.get("trait"), callee.get("method")
        # derived comparisons have a fixed meaning
        if tr in ("std::cmp::PartialEq", "std::cmp::Ord", "std::cmp::PartialOrd") and inst.d.get("derived"):
            r = self.compare(I, st, fr, callee, args, dty, sp)
            if r is not None:
                return r
        if tr == "std::clone::Clone" and m == "clone" and inst.d.get("derived"):
            v = I.deref(st, args[0])
            if isinstance(v, VAdt):
                return [(st, v)]
        for c in self.contracts:
            r = c(I, st, fr, inst, callee, args, dty, sp)
            if r is not None:
                return r
        return None

    def compare(self, I, st, fr, callee, args, dty, sp):
        tr, m = callee.get("trait"), callee.get("method")
        if m in ("eq", "ne"):
            b = self.struct_eq(I, st, args[0], args[1])
            if b is None:
                return None
            return [(st, b if m == "eq" else D.b_not(b))]
        if m in ("lt", "le", "gt", "ge"):
            c = self.cmp_bf(I, st, m, args[0], args[1])
            return [(st, c)] if c is not None else None
        if m in ("cmp", "partial_cmp"):
            a, b = I.deref_all(st, args[0]), I.deref_all(st, args[1])
            oty = dty if m == "cmp" else dty.args[0]
            if isinstance(a, VAdt) and a.ty.d.get("local") and not I.is_addr(a) and (callee.get("local") is False):
                return None
            if I.is_addr(a) and not self.is_derived("std::cmp::Ord", a.ty):
                return None
            r = self.three_way(I, st, a, b, oty)
            if r is None:
                return None
            return r if m == "cmp" else [(s, VAdt(dty, 1, (o,))) for s, o in r]
        return None

    def has_handwritten(self, I, v, tr):
        """Does comparing this value run hand-written local code?"""
        if isinstance(v, VAdt) and v.ty.k == "adt" and v.ty.d.get("local"):
            if not self.is_derived(tr, v.ty):
                return True
            return any(self.has_handwritten(I, x, tr) for x in v.fields)
        if isinstance(v, VTuple):
            return any(self.has_handwritten(I, x, tr) for x in v.items)
        return False

    def call(self, I, st, fr, callee, args, dty, atys, sp):
        tr, m = callee.get("trait"), callee.get("method")
        path = callee["path"]
        rpath = callee.get("rpath") or path
        last = rpath.rsplit("::", 1)[-1]
        if tr == "std::iter::Iterator":
            r = self.iterator_method(I, st, fr, m, callee, args, dty, atys, sp)
            return r
        if tr == "std::iter::DoubleEndedIterator" and m == "next_back":
            return self.iterator_method(I, st, fr, m, callee, args, dty, atys, sp)
        if tr == "std::iter::DoubleEndedIterator" and m == "rev":
            return [(st, VOp("it:rev", (args[0],)))]
        if tr == "std::iter::ExactSizeIterator" and m == "len":
            n = self.length(I, st, I.deref_all(st, args[0]))
            return [(st, n)] if n is not None else None
        if tr == "std::iter::IntoIterator":
            it = self.to_iter(I, st, fr, args[0], atys[0] if atys else None)
            return [(st, it)] if it is not None else None
        if tr in ("std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord"):
            a = I.deref_all(st, args[0])
            if m in ("max", "min"):
                return self.minmax(I, st, fr, m, args, dty, sp)
            if not self.has_handwritten(I, a, tr if m != "lt" else tr):
                r = self.compare(I, st, fr, callee, args, dty, sp)
                if r is not None:
                    return r
            return None
        if path in ("std::cmp::max", "std::cmp::min"):
            return self.minmax(I, st, fr, path.rsplit("::", 1)[-1], args, dty, sp)
        f = getattr(self, "t_" + (tr or "").rsplit("::", 1)[-1], None)
        if f is not None:
            r = f(I, st, fr, m, callee, args, dty, atys, sp)
            if r is not None:
                return r
        mm = re.match(r"core::num::<impl ([iu](?:8|16|32|64|128|size))>::(\w+)$", rpath)
        if mm:
            return self.int_method(I, st, fr, mm.group(1), mm.group(2), args, dty, sp)
        mm = re.match(r"core::str::<impl str>::(\w+)$", rpath) or re.match(r"std::str::<impl str>::(\w+)$", rpath)
        if mm:
            return self.str_method(I, st, fr, mm.group(1), callee, args, dty, atys, sp)
        mm = re.match(r"std::string::String::(\w+)$", rpath)
        if mm:
            return self.string_method(I, st, fr, mm.group(1), callee, args, dty, atys, sp)
        mm = re.match(r"(?:core::slice::|std::slice::)<impl \[T\]>::(\w+)$", rpath)
        if mm:
            return self.slice_method(I, st, fr, mm.group(1), callee, args, dty, atys, sp)
        mm = re.match(r"std::vec::Vec::<T(?:, A)?>::(\w+)$", rpath)
        if mm:
            return self.vec_method(I, st, fr, mm.group(1), callee, args, dty, atys, sp)
        mm = re.match(r"std::(option::Option|result::Result)::<.*?>::(\w+)$", rpath)
        if mm:
            return self.optres(I, st, fr, mm.group(1), mm.group(2), callee, args, dty, atys, sp)
        mm = re.match(r"std::collections::Hash(Map|Set)::<.*?>::(\w+)$", rpath)
        if mm:
            return self.hash_method(I, st, fr, mm.group(1), mm.group(2), callee, args, dty, atys, sp)
        if rpath.startswith("std::fmt::") or rpath.startswith("core::fmt::"):
            return self.fmt_method(I, st, fr, rpath, last, callee, args, dty, atys, sp)
        return self.misc(I, st, fr, path, rpath, last, callee, args, dty, atys, sp)

    def minmax(self, I, st, fr, m, args, dty, sp):
        a, b = args
        c = self.cmp_bf(I, st, "le", a, b)
        if c is None:
            if isinstance(a, (VTuple, VAdt)) and not self.has_handwritten(I, I.deref_all(st, a), "std::cmp::Ord"):
                oty = self.ordering_ty()
                r = self.three_way(I, st, a, b, oty)
                if r is not None:
                    return [(s, (b if o.variant < 2 else a) if m == "max" else (a if o.variant < 2 else b)) for s, o in r]
            return None
        t, f = st.split(c)
        out = []
        if t is not None:
            out.append((t, b if m == "max" else a))
        if f is not None:
            out.append((f, a if m == "max" else b))
        return out

    def ordering_ty(self):
        for t in self.prog.types:
            if t is not None and t.k == "adt" and t.path == "std::cmp::Ordering":
                return t

    # ------------------------------------------------------------------ traits

    def t_Clone(self, I, st, fr, m, callee, args, dty, atys, sp):
        if m != "clone":
            return None
        v = I.deref(st, args[0])
        if isinstance(v, (Lin, BF, VStr, VSeq, VArr, VSym, VTuple, VOp, VAdt)):
            return [(st, v)]
        return None

    def t_Borrow(self, I, st, fr, m, callee, args, dty, atys, sp):
        return [(st, args[0])]

    def t_ToOwned(self, I, st, fr, m, callee, args, dty, atys, sp):
        if m == "to_owned":
            v = I.deref_all(st, args[0]) if not isinstance(args[0], VStr) else args[0]
            if isinstance(v, VArr):
                v = VSeq(None, v.items)
            if isinstance(v, (VStr, VSeq, VGSeq)):
                return [(st, v)]
        return None

    def t_AsRef(self, I, st, fr, m, callee, args, dty, atys, sp):
        g = self.gargs(callee)
        if len(g) >= 2 and g[1].k == "str":
            s = self.as_str(I, st, args[0])
            if s is not None:
                return [(st, s)]
        if len(g) >= 2 and g[1].k == "slice":
            v = args[0]
            t = I.deref(st, v)
            if isinstance(t, (VPtr, VRef)):
                v = t
            return [(st, v)]
        return None

    def t_Into(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self.convert(I, st, fr, args[0], atys[0] if atys and atys[0] is not None else self.gargs(callee)[0], dty, sp)

    def t_From(self, I, st, fr, m, callee, args, dty, atys, sp):
        g = self.gargs(callee)
        return self.convert(I, st, fr, args[0], g[1] if len(g) > 1 else None, dty, sp)

    def convert(self, I, st, fr, v, sty, dty, sp):
        if dty.k == "int":
            if isinstance(v, BF):
                v = D.bool_to_int(v)
            if isinstance(v, Lin):
                return [(st, v)]
            if isinstance(v, VSym):
                return None
        if dty.k == "char" and isinstance(v, Lin):
            return [(st, v)]
        if dty.k == "adt":
            p = dty.path
            if p == "std::string::String":
                x = I.deref_all(st, v)
                if isinstance(x, VStr):
                    return [(st, x)]
                if isinstance(x, Lin):
                    return [(st, lit(chr(x.c)) if x.const else VStr((("char", x),)))]
            if p in ("num_bigint::BigInt", "num_bigint::BigUint"):
                x = I.deref_all(st, v)
                if isinstance(x, Lin):
                    return [(st, x)]
            if p == "std::vec::Vec":
                x = I.deref_all(st, v)
                if isinstance(x, VArr):
                    return [(st, VSeq(None, x.items))]
                if isinstance(x, (VSeq, VGSeq)):
                    return [(st, x)]
            if sty is not None and sty.s == dty.s:
                return [(st, v)]
        if dty.k in ("tuple",) and sty is not None and sty.s == dty.s:
            return [(st, v)]
        return None

    def t_TryFrom(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self.try_convert(I, st, args[0], dty)

    def t_TryInto(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self.try_convert(I, st, args[0], dty)

    def try_convert(self, I, st, v, dty):
        t = dty.args[0]
        if t.k == "int" and isinstance(v, Lin):
            c = I.in_range(v, t)
            a, b = st.split(c)
            out = []
            if a is not None:
                out.append((a, VAdt(dty, 0, (v,))))
            if b is not None:
                out.append((b, VAdt(dty, 1, (VSym("TryFromIntError", dty.args[1]),))))
            return out
        if t.k == "array" or (t.k == "ref" and t.inner.k == "array"):
            n = (t if t.k == "array" else t.inner).d.get("n")
            x = I.deref_all(st, v)
            if isinstance(x, VArr):
                x = VSeq(None, x.items)
            if isinstance(x, VSeq) and n is not None:
                ln = I.seq_len(x)
                a, b = st.split(D.eq(ln, num(n)))
                out = []
                if a is not None:
                    items = tuple(I.index(a, x, num(j)) for j in range(n))
                    arr = VArr(items)
                    out.append((a, VAdt(dty, 0, (arr if t.k == "array" else VRef(arr),))))
                if b is not None:
                    out.append((b, VAdt(dty, 1, (VSym("TryFromSliceError", dty.args[1]),))))
                return out
        return None

    def t_Deref(self, I, st, fr, m, callee, args, dty, atys, sp):
        v = args[0]
        x = I.deref(st, v)
        if isinstance(x, VStr):
            return [(st, x)]
        if isinstance(x, (VSeq, VArr, VGSeq)):
            return [(st, v)]
        if isinstance(x, VOp) and x.kind == "lazy":
            return [(st, VRef(x.args[0]))]
        if isinstance(x, VOp) and x.kind == "os":
            return [(st, v)]
        if isinstance(x, VAdt) and x.ty.path == "std::borrow::Cow" and x.fields:
            y = I.deref_all(st, x.fields[0])
            if isinstance(y, VStr):
                return [(st, y)]
        g = self.gargs(callee)
        if isinstance(v, VPtr) and v.oid[0] == "static":
            r = self.lazy_static(I, st, fr, v.oid[1], sp)
            if r is not None:
                return [(st, r)]
        return None

    def t_DerefMut(self, I, st, fr, m, callee, args, dty, atys, sp):
        x = I.deref(st, args[0])
        if isinstance(x, (VSeq, VArr, VGSeq)):
            return [(st, args[0])]
        return None

    def lazy_static(self, I, st, fr, name, sp):
        """The value a lazily initialised static holds, by interpreting its initialiser."""
        if name in self._lazy:
            return self._lazy[name]
        self._lazy[name] = None
        j = self.prog.statics.get(name)
        if j is None or not j.get("body"):
            return None
        from .facts import Fn
        f = Fn(-1 - len(self._lazy), {"path": name, "full": name, "local": True, "body": j["body"], "args": []}, self.prog)
        r = I.run(f, [], State(), fr, sp)
        if len(r) != 1:
            return None
        s, v = r[0]
        if isinstance(v, VOp) and v.kind == "lazyinit":
            g = self.closure_ret(I, v.args[0], s)
            r = I.call_value(fr, s, v.args[0], [], g, sp)
            if len(r) == 1 and isinstance(r[0][1], VOp) and r[0][1].kind == "regex":
                self._lazy[name] = VRef(r[0][1])
        return self._lazy[name]

    def t_ToString(self, I, st, fr, m, callee, args, dty, atys, sp):
        g = self.gargs(callee)
        return [(st, self.display(I, st, args[0], g[0]))]

    def t_Default(self, I, st, fr, m, callee, args, dty, atys, sp):
        if dty.k == "int":
            return [(st, num(0))]
        if dty.k == "bool":
            return [(st, FALSE)]
        if dty.k == "adt" and dty.path == "std::vec::Vec":
            return [(st, VSeq(None, ()))]
        if dty.k == "adt" and dty.path == "std::string::String":
            return [(st, VStr(()))]
        return None

    def t_Try(self, I, st, fr, m, callee, args, dty, atys, sp):
        if m == "branch":
            out = []
            for s, v in I.variant_of(st, args[0]):
                if not isinstance(v, VAdt):
                    return None
                if v.ty.path == "std::option::Option":
                    if v.variant == 1:
                        out.append((s, VAdt(dty, 0, (v.fields[0],))))
                    else:
                        out.append((s, VAdt(dty, 1, (VAdt(dty.args[0], 0, ()),))))
                elif v.ty.path == "std::result::Result":
                    if v.variant == 0:
                        out.append((s, VAdt(dty, 0, (v.fields[0],))))
                    else:
                        out.append((s, VAdt(dty, 1, (VAdt(dty.args[0], 1, (v.fields[0],)),))))
                else:
                    return None
            return out
        if m == "from_output":
            return [(st, VAdt(dty, 1 if dty.path == "std::option::Option" else 0, (args[0],)))]
        return None

    def t_FromResidual(self, I, st, fr, m, callee, args, dty, atys, sp):
        v = args[0]
        if not isinstance(v, VAdt):
            return None
        if dty.path == "std::option::Option":
            return [(st, VAdt(dty, 0, ()))]
        if dty.path == "std::result::Result":
            e = v.fields[0]
            src = atys[0].args[1] if atys and atys[0] is not None else None
            tgt = dty.args[1]
            if src is not None and src.s == tgt.s:
                return [(st, VAdt(dty, 1, (e,)))]
            f = self.prog.impl_method("std::convert::From", "from", tgt)
            if f is not None:
                return [(s, VAdt(dty, 1, (r,))) for s, r in I.run(f, [e], st, fr, sp)]
        return None

    def t_Index(self, I, st, fr, m, callee, args, dty, atys, sp):
        base, ix = args
        v = I.deref(st, base)
        c = I.deref_all(st, base)
        if isinstance(c, VOp) and c.kind == "caps":
            out = []
            for s, o in self.re_name(I, st, fr, args, None, sp) or ():
                if o is None:
                    I.panic(s, fr, "no group of that name or number", sp)
                else:
                    out.append((s, o.args[0]))
            return out
        if isinstance(c, VOp) and c.kind == "map":
            r = self.hash_find(I, st, c, ix) if self.plain_hash(c) else None
            if r is None:
                return None
            out = []
            for s, i in r:
                if i is None:
                    I.panic(s, fr, "no such key in the map", sp)
                else:
                    out.append((s, VRef(c.args[2][i][1])))
            return out
        n = I.seq_len(v)
        if isinstance(v, VStr):
            return self.str_index(I, st, fr, v, ix, dty, sp)
        if n is None or not isinstance(v, (VSeq, VArr, VGSeq)):
            return None
        if isinstance(ix, Lin):
            c = D.b_and(D.le(num(0), ix), D.lt(ix, n))
            I.oblige("panic", I.site_key(fr, "index out of bounds"), st, c, "index %r of length %r [%s]" % (ix, n, st.facts.describe()[:500]), I.site_where(fr, sp))
            s = st.assume(c)
            if s is None:
                return []
            if isinstance(base, VPtr):
                # keep string slices by value
                e = I.index(s, v, ix)
                if isinstance(e, VStr) and m != "index_mut":
                    return [(s, VRef(e))] if dty.k == "ref" and dty.inner.k != "str" else [(s, e)]
                return [(s, VPtr(base.oid, base.path + (("i", ix),)))]
            return [(s, VRef(I.index(s, v, ix)))]
        if isinstance(ix, VAdt) and ix.ty.path.startswith("std::ops::Range"):
            lo, hi = self.range_bounds(I, st, ix, n)
            if lo is None:
                return None
            c = D.b_and(D.le(lo, hi), D.le(hi, n))
            I.oblige("panic", I.site_key(fr, "slice index out of range"), st, c, "range %r..%r of length %r [%s]" % (lo, hi, n, st.facts.describe()[:500]), I.site_where(fr, sp))
            s = st.assume(c)
            if s is None:
                return []
            if isinstance(base, VPtr):
                if m == "index_mut":
                    return [(s, VPtr(base.oid, base.path + (("r", lo, hi),)))]
                return [(s, VRef(I.subslice(s, v, lo, hi)))]
            return [(s, VRef(I.subslice(s, v, lo, hi)))]
        return None

    t_IndexMut = t_Index

    def range_bounds(self, I, st, r, n):
        p = r.ty.path
        f = r.fields
        if p == "std::ops::Range":
            return f[0], f[1]
        if p == "std::ops::RangeFrom":
            return f[0], n
        if p == "std::ops::RangeTo":
            return num(0), f[0]
        if p == "std::ops::RangeFull":
            return num(0), n
        if p == "std::ops::RangeInclusive":
            return f[0], f[1] + 1
        if p == "std::ops::RangeToInclusive":
            return num(0), f[0] + 1
        return None, None

    def str_index(self, I, st, fr, v, ix, dty, sp):
        ch = self.known_chars(v)
        if not isinstance(ix, VAdt):
            return None
        if ch is None:
            lo, hi = self.range_bounds(I, st, ix, I.str_len(v))
            us, i = text.cut(I, v, lo)
            us, j = text.cut(I, v, hi)
            if i is None or j is None or i > j:
                return None
            return [(st, text.build(us[i:j]))]
        lo, hi = self.range_bounds(I, st, ix, num(len(ch)))
        if lo is None or not lo.const or not hi.const:
            return None
        if not all((D.lin_bounds(c, st.facts)[1] or 999) < 128 for c in ch):
            return None
        okc = 0 <= lo.c <= hi.c <= len(ch)
        I.oblige("panic", I.site_key(fr, "string slice out of range"), st, D.boolc(okc), "%d..%d of %d" % (lo.c, hi.c, len(ch)), I.site_where(fr, sp))
        if not okc:
            return []
        return [(st, self.from_chars(ch[lo.c:hi.c]))]

    def t_BitAnd(self, I, st, fr, m, callee, args, dty, atys, sp, op="BitAnd"):
        a, b = I.deref_all(st, args[0]), I.deref_all(st, args[1])
        if dty.k in ("int", "bool") and isinstance(a, (Lin, BF)) and isinstance(b, (Lin, BF)):
            return [(st, I.binop(st, op, I.narrow(st, a), I.narrow(st, b), dty))]
        return None

    def t_BitOr(self, *a):
        return self.t_BitAnd(*a, op="BitOr")

    def t_BitXor(self, *a):
        return self.t_BitAnd(*a, op="BitXor")

    def t_Shl(self, I, st, fr, m, callee, args, dty, atys, sp, op="Shl"):
        a, b = I.deref_all(st, args[0]), I.deref_all(st, args[1])
        if dty.k == "int" and isinstance(a, Lin) and isinstance(b, Lin):
            c = D.b_and(D.le(num(0), b), D.lt(b, num(dty.bits)))
            I.oblige("panic", I.site_key(fr, "shift overflow"), st, c, "%r" % b, I.site_where(fr, sp))
            s = st.assume(c)
            if s is None:
                return []
            return [(s, I.binop(s, op, I.narrow(s, a), b, dty))]
        if dty.k == "adt" and dty.path in ("num_bigint::BigInt", "num_bigint::BigUint") and isinstance(a, Lin) and isinstance(b, Lin):
            v = self.big_op(I, st, op, a, b)
            if v is not None:
                return [(st, v)]
        return None

    def t_Shr(self, *a):
        return self.t_Shl(*a, op="Shr")

    def t_Not(self, I, st, fr, m, callee, args, dty, atys, sp):
        a = I.deref_all(st, args[0])
        if isinstance(a, BF):
            return [(st, D.b_not(a))]
        if isinstance(a, Lin) and dty.k == "int" and not dty.signed:
            return [(st, num((1 << dty.bits) - 1) - a)]
        return None

    def _arith(self, I, st, fr, args, dty, sp, op):
        a, b = I.deref_all(st, args[0]), I.deref_all(st, args[1])
        if isinstance(a, Lin) and isinstance(b, Lin):
            if dty.k == "int":
                if op in ("Div", "Rem"):
                    c = D.b_not(D.eq(b, num(0)))
                    I.oblige("panic", I.site_key(fr, "division by zero"), st, c, "", I.site_where(fr, sp))
                    st = st.assume(c)
                    if st is None:
                        return []
                v = I.binop(st, op, a, b, dty)
                v2 = self.checked(I, st, fr, v, dty, "attempt to %s with overflow" % op.lower(), sp)
                if v2 is None:
                    return []
                s = st.assume(I.in_range(v, dty))
                return [(s, v)] if s is not None else []
            if dty.k == "adt" and dty.path in ("num_bigint::BigInt", "num_bigint::BigUint"):
                v = self.big_op(I, st, op, a, b)
                if v is None:
                    return None
                if dty.path.endswith("BigUint") and op == "Sub":
                    c = D.le(num(0), v)
                    I.oblige("panic", I.site_key(fr, "BigUint subtraction underflow"), st, c, "%r" % v, I.site_where(fr, sp))
                    st = st.assume(c)
                    if st is None:
                        return []
                return [(st, v)]
        return None

    def big_op(self, I, st, op, a, b):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            if a.const:
                a, b = b, a
            if b.const:
                e = self.log2(a)
                if e is not None and b.c > 0 and b.c & (b.c - 1) == 0:
                    return D.pow2(e + (b.c.bit_length() - 1))
                return a.scale(b.c)
            ea, eb = self.log2(a), self.log2(b)
            if ea is not None and eb is not None:
                return D.pow2(ea + eb)
        if op == "Shl":
            e = self.log2(a)
            if e is not None:
                return D.pow2(e + b)
        return None

    def log2(self, a):
        if a.const:
            return num(a.c.bit_length() - 1) if a.c > 0 and a.c & (a.c - 1) == 0 else None
        t = a.single()
        if t is not None and t.kind == "pow2":
            return t.args[0]
        if len(a.terms) == 1 and a.c == 0:
            t, k = a.terms[0]
            if t.kind == "pow2" and k > 0 and k & (k - 1) == 0:
                return t.args[0] + (k.bit_length() - 1)
        return None

    def t_Add(self, I, st, fr, m, callee, args, dty, atys, sp):
        if dty.k == "adt" and dty.path == "std::string::String":
            a, b = self.as_str(I, st, args[0]), self.as_str(I, st, args[1])
            if a is not None and b is not None:
                return [(st, cat(a, b))]
        return self._arith(I, st, fr, args, dty, sp, "Add")

    def t_Sub(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._arith(I, st, fr, args, dty, sp, "Sub")

    def t_Mul(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._arith(I, st, fr, args, dty, sp, "Mul")

    def t_Div(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._arith(I, st, fr, args, dty, sp, "Div") if dty.k == "int" else None

    def t_Rem(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._arith(I, st, fr, args, dty, sp, "Rem") if dty.k == "int" else None

    def t_Neg(self, I, st, fr, m, callee, args, dty, atys, sp):
        a = I.deref_all(st, args[0])
        if isinstance(a, Lin) and dty.k == "adt":
            return [(st, a.scale(-1))]
        return None

    def _assign(self, I, st, fr, callee, args, sp, op):
        a = I.deref(st, args[0])
        b = I.deref_all(st, args[1])
        t = self.gargs(callee)[0]
        if t.k == "adt" and t.path == "std::string::String" and op == "Add" and isinstance(a, VStr) and isinstance(b, VStr):
            s = st.copy()
            I.write_ptr(s, args[0], cat(a, b))
            return [(s, UNIT)]
        if op in ("BitAnd", "BitOr", "BitXor") and t.k in ("int", "bool") and isinstance(a, (Lin, BF)) and isinstance(b, (Lin, BF)):
            r = [(st, I.binop(st, op, I.narrow(st, a), I.narrow(st, b), t))]
        elif op in ("Shl", "Shr") and t.k == "int":
            r = self.t_Shl(I, st, fr, None, callee, [a, b], t, None, sp, op=op)
        else:
            r = self._arith(I, st, fr, [a, b], t, sp, op)
        if r is None:
            return None
        out = []
        for s, v in r:
            s = s.copy()
            I.write_ptr(s, args[0], v)
            out.append((s, UNIT))
        return out

    def t_AddAssign(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._assign(I, st, fr, callee, args, sp, "Add")

    def t_SubAssign(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._assign(I, st, fr, callee, args, sp, "Sub")

    def t_MulAssign(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._assign(I, st, fr, callee, args, sp, "Mul")

    def t_ShlAssign(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._assign(I, st, fr, callee, args, sp, "Shl")

    def t_ShrAssign(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._assign(I, st, fr, callee, args, sp, "Shr")

    def t_BitAndAssign(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._assign(I, st, fr, callee, args, sp, "BitAnd")

    def t_BitOrAssign(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._assign(I, st, fr, callee, args, sp, "BitOr")

    def t_BitXorAssign(self, I, st, fr, m, callee, args, dty, atys, sp):
        return self._assign(I, st, fr, callee, args, sp, "BitXor")

    def t_Extend(self, I, st, fr, m, callee, args, dty, atys, sp):
        v = I.deref(st, args[0])
        it = self.to_iter(I, st, fr, args[1], atys[1] if atys else None)
        if it is None:
            return None
        if isinstance(v, VOp) and v.kind in ("set", "map"):
            r = self.fire("extend", I, st, fr, args[0], v, it)
            if self.plain_hash(v) and not self.is_symbolic(I, st, it):
                out = []
                for s, items in self.drain(I, st, fr, it, sp):
                    f = self.hash_fill(I, s, fr, v, items)
                    if f is None:
                        out = None
                        break
                    for s2, c in f:
                        s2 = s2.copy()
                        I.write_ptr(s2, args[0], c)
                        out.append((s2, UNIT))
                if out is not None:
                    return out
            s = st.copy()
            D._fresh[0] += 1
            I.write_ptr(s, args[0], VOp(v.kind, (v.args[0], v.args[1], v.args[2] + (("extend", it),) if isinstance(v.args[2], tuple) else v.args[2], FALSE)))
            return [(s, UNIT)]
        if isinstance(v, VGSeq) or isinstance(v, VSeq) and v.pre is None:
            g = self.gcollect(I, st, fr, it, sp)
            if g is not None:
                s = st.copy()
                I.write_ptr(s, args[0], gseq(gitems(v) + gitems(g)))
                return [(s, UNIT)]
        if isinstance(v, VGSeq):
            s = st
            g = self.gdrain(I, st, fr, it, sp)
            if g is None:
                return None
            s = st.copy()
            I.write_ptr(s, args[0], gseq(v.items + tuple((c, I.deref(s, x) if isinstance(x, (VRef, VPtr)) else x) for c, x in g)))
            return [(s, UNIT)]
        if isinstance(v, VSeq):
            if self.is_symbolic(I, st, it):
                return None
            out = []
            for s, items in self.drain(I, st, fr, it, sp):
                s = s.copy()
                items = [I.deref(s, x) if isinstance(x, (VRef, VPtr)) and self._elem_not_ref(callee) else x for x in items]
                I.write_ptr(s, args[0], VSeq(v.pre, v.items + tuple(items)))
                out.append((s, UNIT))
            return out
        if isinstance(v, VStr):
            if self.is_symbolic(I, st, it):
                return None
            out = []
            for s, items in self.drain(I, st, fr, it, sp):
                s = s.copy()
                t = self.build(I, s, self.gargs(callee)[0], list(items))
                I.write_ptr(s, args[0], cat(v, t))
                out.append((s, UNIT))
            return out
        return None

    def _elem_not_ref(self, callee):
        t = self.gargs(callee)[0]
        return t.k == "adt" and t.args and t.args[0].k != "ref"

    def t_FromIterator(self, I, st, fr, m, callee, args, dty, atys, sp):
        it = self.to_iter(I, st, fr, args[0], atys[0] if atys else None)
        return self.collect(I, st, fr, it, dty, sp) if it is not None else None

    def t_Hash(self, I, st, fr, m, callee, args, dty, atys, sp):
        return [(st, UNIT)]

    def t_FromStr(self, I, st, fr, m, callee, args, dty, atys, sp):
        s = self.as_str(I, st, args[0])
        return self.parse(I, st, fr, s, self.gargs(callee)[0], dty, sp) if s is not None else None

    def t_Write(self, I, st, fr, m, callee, args, dty, atys, sp):
        w = I.deref_all(st, args[0])
        if m in ("write_str", "write_fmt", "write_char"):
            x = args[1]
            if m == "write_fmt":
                x = x.args[0] if isinstance(x, VOp) and x.kind == "fmtargs" else None
            elif m == "write_char":
                x = (lit(chr(x.c)) if x.const else VStr((("char", x),))) if isinstance(x, Lin) else None
            if not isinstance(x, VStr):
                return None
            p = args[0]
            while isinstance(I.deref(st, p), (VPtr,)):
                p = I.deref(st, p)
            return self.emit(I, st, fr, p, x, dty)
        return None

    def emit(self, I, st, fr, p, x, dty):
        w = I.deref(st, p)
        s = st.copy()
        if isinstance(w, VStr):
            I.write_ptr(s, p, cat(w, x))
        elif isinstance(w, VOp) and w.kind == "fmtr":
            I.write_ptr(s, p, VOp("fmtr", (cat(w.args[0], x),) + w.args[1:]))
        else:
            return None
        return [(s, VAdt(dty, 0, (UNIT,)))]

    # ------------------------------------------------------------------ integers

    def int_method(self, I, st, fr, tname, m, args, dty, sp):
        bits = 64 if tname.endswith("size") else int(tname[1:])
        signed = tname[0] == "i"
        xs = [I.deref_all(st, a) for a in args]
        if not xs or not all(isinstance(x, (Lin, BF)) for x in xs):
            if m in ("from_be_bytes", "from_le_bytes", "from_ne_bytes") and isinstance(xs[0], VArr) and not signed:
                from .interp import sum_bytes
                if all(isinstance(x, Lin) for x in xs[0].items):
                    return [(st, sum_bytes(list(xs[0].items), little=(m != "from_be_bytes")))]
            if m == "from_str_radix":
                s = self.as_str(I, st, args[0])
                if s is not None and isinstance(args[1], Lin) and args[1].const:
                    return self.parse_int(I, st, s, dty, args[1].c)
            return None

        class T:
            k = "int"
        T.bits = bits
        T.signed = signed
        ty = T
        a = xs[0]
        lo, hi = int_range(ty)
        if m == "count_ones" and not signed:
            return [(st, self.popcount(I, st, a, bits))]
        if m == "count_zeros" and not signed:
            return [(st, num(bits) - self.popcount(I, st, a, bits))]
        op = None
        mm = re.match(r"(checked|wrapping|overflowing|saturating|unchecked|strict)_(add|sub|mul|neg|shl|shr|div|rem)$", m)
        if mm:
            kind, op = mm.groups()
            if op in ("add", "sub", "mul", "neg"):
                if op == "add":
                    v = a + xs[1]
                elif op == "sub":
                    v = a - xs[1]
                elif op == "neg":
                    v = a.scale(-1)
                else:
                    v = I.binop(st, "Mul", a, xs[1], ty)
                c = I.in_range(v, ty)
                t, f = st.split(c)
                out = []
                M = 1 << bits
                if t is not None:
                    out.append((t, {"checked": lambda: VAdt(dty, 1, (v,)), "overflowing": lambda: VTuple((v, FALSE))}.get(kind, lambda: v)()))
                if f is not None:
                    if kind == "checked":
                        out.append((f, VAdt(dty, 0, ())))
                    elif kind in ("wrapping", "overflowing"):
                        # one wrap for add/sub/neg
                        if op in ("add", "sub", "neg"):
                            up, dn = f.split(D.lt(num(hi), v))
                            for s, k in ((up, -M), (dn, M)):
                                if s is not None:
                                    w = v + k
                                    out.append((s, w if kind == "wrapping" else VTuple((w, TRUE))))
                        else:
                            w = I.fit(f, v, ty)
                            out.append((f, w if kind == "wrapping" else VTuple((w, TRUE))))
                    elif kind == "saturating":
                        up, dn = f.split(D.lt(num(hi), v))
                        if up is not None:
                            out.append((up, num(hi)))
                        if dn is not None:
                            out.append((dn, num(lo)))
                    elif kind == "strict":
                        I.panic(f, fr, "arithmetic overflow", sp)
                return out
            if op in ("shl", "shr"):
                b = xs[1]
                c = D.b_and(D.le(num(0), b), D.lt(b, num(bits)))
                t, f = st.split(c)
                out = []
                if t is not None:
                    v = I.binop(t, "Shl" if op == "shl" else "Shr", I.narrow(t, a), b, ty)
                    out.append((t, {"checked": lambda: VAdt(dty, 1, (v,)), "overflowing": lambda: VTuple((v, FALSE))}.get(kind, lambda: v)()))
                if f is not None:
                    if kind == "checked":
                        out.append((f, VAdt(dty, 0, ())))
                    else:
                        return None
                return out
            if op in ("div", "rem") and kind == "checked":
                t, f = st.split(D.eq(xs[1], num(0)))
                out = []
                if t is not None:
                    out.append((t, VAdt(dty, 0, ())))
                if f is not None:
                    out.append((f, VAdt(dty, 1, (I.binop(f, "Div" if op == "div" else "Rem", a, xs[1], ty),))))
                return out
            return None
        if m in ("to_be_bytes", "to_le_bytes", "to_ne_bytes") and not signed:
            bs = [I.seg_of(a, 8 * i, 8) for i in range(bits // 8)]
            if m == "to_be_bytes":
                bs.reverse()
            return [(st, VArr(tuple(bs)))]
        if m in ("to_be", "from_be", "swap_bytes") and not signed:
            from .interp import sum_bytes
            bs = [I.seg_of(a, 8 * i, 8) for i in range(bits // 8)]
            return [(st, sum_bytes(bs))]
        if m in ("min", "max"):
            return self.minmax(I, st, fr, m, xs, dty, sp)
        if m == "pow":
            b = xs[1]
            if a.const and b.const:
                v = num(a.c ** b.c) if b.c < 300 else None
            elif a.const and a.c == 2:
                v = D.pow2(b)
            elif a.const and a.c > 0 and a.c & (a.c - 1) == 0:
                v = D.pow2(b.scale(a.c.bit_length() - 1))
            else:
                return None
            v = self.checked(I, st, fr, v, ty, "attempt to multiply with overflow", sp)
            return [] if v is None else [(st, v)]
        if m == "abs":
            t, f = st.split(D.le(num(0), a))
            out = []
            if t is not None:
                out.append((t, a))
            if f is not None:
                v = self.checked(I, f, fr, a.scale(-1), ty, "attempt to negate with overflow", sp)
                if v is not None:
                    out.append((f, v))
            return out
        if m == "unsigned_abs":
            t, f = st.split(D.le(num(0), a))
            return ([(t, a)] if t is not None else []) + ([(f, a.scale(-1))] if f is not None else [])
        if m in ("is_negative", "is_positive"):
            return [(st, D.lt(a, num(0)) if m == "is_negative" else D.lt(num(0), a))]
        if m == "abs_diff":
            t, f = st.split(D.le(xs[1], a))
            return ([(t, a - xs[1])] if t is not None else []) + ([(f, xs[1] - a)] if f is not None else [])
        if m in ("rem_euclid", "div_euclid") and not signed:
            return [(st, I.binop(st, "Rem" if m.startswith("rem") else "Div", a, xs[1], ty))]
        if m in ("leading_ones", "leading_zeros", "trailing_ones", "trailing_zeros") and not signed:
            return self.lead_trail(I, st, m, a, bits)
        if m in ("reverse_bits",) and not signed:
            b = D.to_bits(a, None)
            if b is not None:
                b = b + [FALSE] * (bits - len(b))
                r = D.from_bits(list(reversed(b)))
                if r is not None:
                    return [(st, r)]
            return None
        if m in ("rotate_left", "rotate_right") and not signed and xs[1].const:
            b = D.to_bits(a, None)
            if b is not None:
                b = b + [FALSE] * (bits - len(b))
                k = xs[1].c % bits
                if m == "rotate_right":
                    k = (bits - k) % bits
                # little-endian list: rotating left by k moves bit i to i+k
                r = D.from_bits(b[bits - k:] + b[:bits - k])
                if r is not None:
                    return [(st, r)]
            return None
        if m == "is_power_of_two":
            bb = D.lin_bounds(a, st.facts)
            return None
        if m == "is_ascii_digit":
            return [(st, D.b_and(D.le(num(48), a), D.le(a, num(57))))]
        return None

    def lead_trail(self, I, st, m, a, bits):
        """Case split on the position of the first differing bit; exact for forms with known bits."""
        ab = a.single()
        if ab is not None and ab.kind == "mask" and ab.args[0] == bits:
            p = ab.args[1]
            if m == "leading_ones":
                return [(st, p)]
            if m == "trailing_zeros":
                return [(st, num(bits) - p)]
        ca = (num((1 << bits) - 1) - a)
        cb = ca.single()
        if cb is not None and cb.kind == "mask" and cb.args[0] == bits:
            p = cb.args[1]
            if m == "leading_zeros":
                return [(st, p)]
            if m == "trailing_ones":
                return [(st, num(bits) - p)]
        bs = D.to_bits(a, None)
        if bs is None:
            return None
        bs = (bs + [FALSE] * bits)[:bits]
        order = list(reversed(bs)) if m.startswith("leading") else bs
        want = m.endswith("ones")
        out = []
        cur = st
        for i, b in enumerate(order):
            c = b if want else D.b_not(b)
            go, stop = cur.split(c)
            if stop is not None:
                out.append((stop, num(i)))
            cur = go
            if cur is None:
                return out
        out.append((cur, num(bits)))
        return out

    # ------------------------------------------------------------------ strings

    def pat_key(self, I, st, p):
        """Pattern argument: ('c', codepoint) or ('s', str)."""
        v = I.deref_all(st, p)
        if isinstance(v, Lin) and v.const:
            return chr(v.c)
        if isinstance(v, VStr) and all(isinstance(x, str) for x in v.pieces):
            return "".join(v.pieces)
        if isinstance(v, (VArr, VSeq)) and (isinstance(v, VArr) or v.pre is None) and v.items and all(isinstance(x, Lin) and x.const for x in v.items):
            return frozenset(chr(x.c) for x in v.items)
        return None

    def text_method(self, I, st, fr, m, s, args, dty, sp):
        """Methods of str on structured texts; None when not definite."""
        def seq(xs):
            return [(st, VOp("it:seq", (VSeq(None, tuple(xs)), num(0), num(len(xs)), "val")))]

        def pair(a, b):
            return self.opt(dty, VTuple((a, b)))
        if m in ("contains", "starts_with", "ends_with"):
            k = self.pat_key(I, st, args[1])
            return [(st, text.decide(s, m, k, st.facts))] if k is not None else None
        if m in ("split", "rsplit", "split_terminator", "splitn", "rsplitn", "split_once", "rsplit_once", "find", "rfind", "matches", "split_inclusive"):
            k = self.pat_key(I, st, args[2] if m in ("splitn", "rsplitn") else args[1])
            if k is None:
                return None
            if m in ("split_once", "rsplit_once", "find", "rfind") and text.decide(s, "contains", k, st.facts) is FALSE:
                return [(st, self.opt(dty, None))]
            r = text.find_all(s, k, st.facts)
            if r is None and m in ("split_once", "find", "rsplit_once", "rfind"):
                r = self.first_definite(s, k, st.facts, m[0] == "r")
            if r is None and m == "split":
                return self.split_tail(I, st, s, k)
            if r is None:
                return None
            us, occ = r
            if m[0] == "r" and not isinstance(k, frozenset) and len(set(k)) < len(k):
                return None
            if m == "split":
                return seq(text.split_units(us, occ))
            if m == "rsplit":
                return seq(text.split_units(us, occ)[::-1])
            if m == "split_terminator":
                xs = text.split_units(us, occ)
                if not xs[-1].pieces:
                    xs = xs[:-1]
                elif occ and not all(isinstance(p, str) for p in xs[-1].pieces) and st.facts.ev(D.lt(num(0), I.str_len(xs[-1]))) is not True:
                    return None
                return seq(xs)
            if m in ("splitn", "rsplitn"):
                n = args[1]
                if not (isinstance(n, Lin) and n.const):
                    return None
                if n.c == 0:
                    return seq([])
                if m == "splitn":
                    return seq(text.split_units(us, occ[:n.c - 1]))
                return seq(text.split_units(us, occ[len(occ) - (n.c - 1):] if n.c - 1 < len(occ) and n.c > 1 else ([] if n.c == 1 else occ))[::-1])
            if m == "matches":
                return seq([text.build(us[i:j]) for i, j in occ])
            if m in ("split_once", "rsplit_once"):
                if not occ:
                    return [(st, self.opt(dty, None))]
                i, j = occ[0] if m == "split_once" else occ[-1]
                return [(st, pair(text.build(us[:i]), text.build(us[j:])))]
            if m in ("find", "rfind"):
                if not occ:
                    return [(st, self.opt(dty, None))]
                i, j = occ[0] if m == "find" else occ[-1]
                return [(st, self.opt(dty, text.offsets(I, us)[i]))]
            return None
        if m in ("strip_prefix", "strip_suffix"):
            k = self.pat_key(I, st, args[1])
            if k is None or isinstance(k, frozenset):
                return None
            us = text.units(s)
            r = text.decide(s, "starts_with" if m == "strip_prefix" else "ends_with", k, st.facts)
            if r is FALSE:
                return [(st, self.opt(dty, None))]
            if r is TRUE:
                n = len(k)
                e = us[:n] if m == "strip_prefix" else us[len(us) - n:]
                if all(isinstance(x, str) for x in e) and "".join(e) == k:
                    return [(st, self.opt(dty, text.build(us[n:] if m == "strip_prefix" else us[:len(us) - n])))]
            return None
        if m in ("trim", "trim_start", "trim_end"):
            us = text.units(s)
            i, j = 0, len(us)
            if m != "trim_end":
                while i < j and isinstance(us[i], str) and us[i].isspace():
                    i += 1
            if m != "trim_start":
                while i < j and isinstance(us[j - 1], str) and us[j - 1].isspace():
                    j -= 1

            def firm(u):
                c, lo, hi = text.piece_class(u)
                return not c & (rx.SPACE | rx.cs("\u0661"))

            def edge(xs):
                for u in xs:
                    if isinstance(u, str):
                        return not u.isspace()
                    if not firm(u):
                        return False
                    if text.piece_class(u)[1] > 0:
                        return True
                return True
            if m != "trim_end" and not edge(us[i:j]) or m != "trim_start" and not edge(us[i:j][::-1]):
                return None
            return [(st, text.build(us[i:j]))]
        if m in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
            low = "lower" in m
            bad = rx.cs("ABCDEFGHIJKLMNOPQRSTUVWXYZ" if low else "abcdefghijklmnopqrstuvwxyz") | (rx.cs("\u0661") if "ascii" not in m else 0)
            out = []
            for p in s.pieces:
                if isinstance(p, str):
                    out.append(p.lower() if low else p.upper())
                elif text.piece_class(p)[0] & bad:
                    if not low and p[0] == "x" and len(p) == 2:
                        out.append(("X",) + p[1:])
                    elif low and p[0] == "X" and len(p) == 2:
                        out.append(("x",) + p[1:])
                    else:
                        return None
                else:
                    out.append(p)
            return [(st, VStr(tuple(out)))]
        if m == "eq_ignore_ascii_case":
            return None
        if m in ("get", "split_at", "is_char_boundary"):
            if m == "split_at":
                us, i = text.cut(I, s, args[1])
                if i is None:
                    return None
                return [(st, VTuple((text.build(us[:i]), text.build(us[i:]))))]
            return None
        if m == "lines":
            r = text.find_all(s, "\n", st.facts)
            if r is None or any(not isinstance(u, str) and text.piece_class(u)[0] & rx.cs("\r") for u in r[0]) or "\r" in r[0]:
                return None
            xs = text.split_units(*r)
            if not xs[-1].pieces:
                xs = xs[:-1]
            elif not all(isinstance(p, str) for p in xs[-1].pieces) and st.facts.ev(D.lt(num(0), I.str_len(xs[-1]))) is not True:
                return None
            return seq(xs)
        return None

    def split_tail(self, I, st, s, k):
        """A text whose first part is arbitrary and whose cut points after it are definite."""
        if not isinstance(k, str) or len(k) != 1:
            return None
        us = text.units(s)
        i = max(j for j, u in enumerate(us) if not isinstance(u, str) and not text.excludes(st.facts, u, frozenset((k,))))
        if i + 1 >= len(us) or us[i + 1] != k:
            return None
        head = text.build(us[:i + 1])
        rest = text.find_all(text.build(us[i + 2:]), k, st.facts)
        if rest is None:
            return None
        items = tuple(text.split_units(*rest))
        nm = "split(%r,%r)" % (head, k)
        text.DERIVED_SEQ[nm] = (head, functools.partial(_split, k))
        n = D.of_atom(D.atom("nparts", (head, k), 1, 1 << 60, taint=D.taint_of(head)))
        return [(st, VOp("it:seq", (VSeq(VSymSeq(nm, self.refstr_ty(), n, num(0)), items), num(0), n + len(items), "val")))]

    def first_definite(self, s, k, facts, rev):
        """The first (last) occurrence of a single-character pattern when the pieces before (after) it exclude it."""
        ks = k if isinstance(k, frozenset) else frozenset((k,))
        if not isinstance(k, frozenset) and len(k) != 1:
            return None
        us = text.units(s)
        order = range(len(us) - 1, -1, -1) if rev else range(len(us))
        for i in order:
            u = us[i]
            if isinstance(u, str):
                if u in ks:
                    return us, [(i, i + 1)]
            elif not text.excludes(facts, u, ks):
                return None
        return us, []

    def str_method(self, I, st, fr, m, callee, args, dty, atys, sp):
        s = self.as_str(I, st, args[0])
        if s is None:
            return None
        if m in ("len",):
            n = I.str_len(s)
            return [(st, n)]
        if m == "is_empty":
            return [(st, D.eq(I.str_len(s), num(0)))]
        if m == "eq_ignore_ascii_case":
            t = self.as_str(I, st, args[1])
            if t is None:
                return None
            if not all(isinstance(p, str) for p in t.pieces):
                s, t = t, s
            if not all(isinstance(p, str) for p in t.pieces) or not (text.structured(s) or all(isinstance(p, str) for p in s.pieces)):
                return None
            k = "".join(t.pieces)
            if any(ord(c) >= 128 for c in k):
                return None
            pat = "^" + "".join("[%s%s]" % (c.lower(), c.upper()) if c.isalpha() else c if c.isalnum() or c in "-_:/ " else "[%s]" % c if c not in "\\^]" else "\\" + c for c in k) + "$"
            return [(st, self.re_match(pat, s)[0])]
        if s.pieces and not all(isinstance(p, str) for p in s.pieces) and not (len(s.pieces) == 1 and s.pieces[0][0] == "sym" and m in ("split",)):
            r = self.text_method(I, st, fr, m, s, args, dty, sp)
            if r is not None:
                return r
        elif m in ("splitn", "rsplitn", "split_once", "rsplit_once", "find", "rfind", "rsplit", "split_terminator", "matches", "lines", "split_at"):
            r = self.text_method(I, st, fr, m, s, args, dty, sp)
            if r is not None:
                return r
        if m in ("chars",):
            ch = self.known_chars(s)
            if ch is not None:
                return [(st, VOp("it:seq", (VSeq(None, tuple(ch)), num(0), num(len(ch)), "val")))]
            if len(s.pieces) == 1 and s.pieces[0][0] in ("sym", "txt"):
                t = self.char_ty()
                if t is not None:
                    q = VSymSeq("chars(%r)" % (s,), t, D.sym("nchars(%r)" % (s,), 0, 1 << 60), num(0))
                    return [(st, VOp("it:seq", (VSeq(q, ()), num(0), q.ln, "val")))]
            return None
        if m in ("bytes", "as_bytes"):
            ch = self.known_chars(s)
            if ch is not None and all((D.lin_bounds(c, st.facts)[1] or 999) < 128 for c in ch):
                q = VSeq(None, tuple(ch))
                if m == "as_bytes":
                    return [(st, VRef(q))]
                return [(st, VOp("it:seq", (q, num(0), num(len(ch)), "val")))]
            return None
        if m in ("contains", "starts_with", "ends_with"):
            k = self.pat_key(I, st, args[1])
            if k is None:
                return None
            if isinstance(k, frozenset):
                return [(st, text.decide(s, m, k, st.facts))]
            ch = self.known_chars(s)
            if ch is not None:
                if m == "contains":
                    r = FALSE
                    for i in range(0, len(ch) - len(k) + 1):
                        c = TRUE
                        for j, x in enumerate(k):
                            c = D.b_and(c, D.eq(ch[i + j], num(ord(x))))
                        r = D.b_or(r, c)
                    return [(st, r)]
                if len(ch) < len(k):
                    return [(st, FALSE)]
                sub = ch[:len(k)] if m == "starts_with" else ch[len(ch) - len(k):]
                c = TRUE
                for x, y in zip(sub, k):
                    c = D.b_and(c, D.eq(x, num(ord(y))))
                return [(st, c)]
            # literal edges
            if s.pieces and m == "starts_with" and isinstance(s.pieces[0], str) and len(s.pieces[0]) >= len(k):
                return [(st, D.boolc(s.pieces[0].startswith(k)))]
            if s.pieces and m == "ends_with" and isinstance(s.pieces[-1], str) and len(s.pieces[-1]) >= len(k):
                return [(st, D.boolc(s.pieces[-1].endswith(k)))]
            return [(st, D.pred(m, s, k))]
        if m in ("split", "rsplit", "split_terminator"):
            k = self.pat_key(I, st, args[1])
            if k is None:
                return None
            if isinstance(k, frozenset):
                return None
            if all(isinstance(p, str) for p in s.pieces) and m == "split":
                parts = "".join(s.pieces).split(k)
                return [(st, VOp("it:seq", (VSeq(None, tuple(lit(x) for x in parts)), num(0), num(len(parts)), "val")))]
            if m != "split":
                return None
            nm = "split(%r,%r)" % (s, k)
            text.DERIVED_SEQ[nm] = (s, functools.partial(_split, k))
            ety = self.refstr_ty()
            n = D.of_atom(D.atom("nparts", (s, k), 1, 1 << 60, taint=D.taint_of(s)))
            return [(st, VOp("it:seq", (VSeq(VSymSeq(nm, ety, n, num(0)), ()), num(0), n, "val")))]
        if m == "parse":
            return self.parse(I, st, fr, s, dty.args[0], dty, sp)
        if m in ("trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
            if all(isinstance(p, str) for p in s.pieces):
                t = "".join(s.pieces)
                t = {"trim": t.strip, "trim_start": t.lstrip, "trim_end": t.rstrip, "to_lowercase": t.lower, "to_ascii_lowercase": t.lower,
                     "to_uppercase": t.upper, "to_ascii_uppercase": t.upper}[m]()
                return [(st, lit(t))]
            return [(st, VStr((("fn", m, s),)))]
        if m in ("trim_start_matches", "trim_end_matches", "trim_matches"):
            k = self.pat_key(I, st, args[1])
            if not isinstance(k, str) or not k:
                return None
            if all(isinstance(p, str) for p in s.pieces):
                from . import wit
                return [(st, lit(wit.cut_fn(m, k)("".join(s.pieces))))]
            return [(st, VStr((("fn", m, s, k),)))]
        if m in ("to_string", "to_owned", "as_str", "into_string"):
            return [(st, s)]
        if m == "repeat":
            n = args[1]
            if isinstance(n, Lin):
                if n.const and n.c < 300:
                    return [(st, cat(*([s] * n.c)) if n.c else VStr(()))]
                if len(s.pieces) == 1 and isinstance(s.pieces[0], str) and len(s.pieces[0]) == 1:
                    return [(st, VStr((("rep", s.pieces[0], n),)))]
            return None
        if m in ("strip_prefix", "strip_suffix"):
            k = self.pat_key(I, st, args[1])
            if k is None or isinstance(k, frozenset):
                return None
            if all(isinstance(p, str) for p in s.pieces):
                t = "".join(s.pieces)
                hit = t.startswith(k) if m == "strip_prefix" else t.endswith(k)
                rest = (t[len(k):] if m == "strip_prefix" else t[:len(t) - len(k)]) if hit else None
                return [(st, self.opt(dty, lit(rest) if hit else None))]
            a, b = st.split(D.pred("starts_with" if m == "strip_prefix" else "ends_with", s, k))
            out = []
            if a is not None:
                out.append((a, self.opt(dty, VStr((("fn", m, s, k),)))))
            if b is not None:
                out.append((b, self.opt(dty, None)))
            return out
        return None

    def char_ty(self):
        for t in self.prog.types:
            if t is not None and t.k == "char":
                return t

    def refstr_ty(self):
        for t in self.prog.types:
            if t is not None and t.k == "ref" and t.inner.k == "str":
                return t

    def parse(self, I, st, fr, s, t, dty, sp):
        if t.k == "int":
            return self.parse_int(I, st, s, dty, 10)
        if t.k == "adt":
            f = self.prog.impl_method("std::str::FromStr", "from_str", t)
            if f is not None and f.local and f.body is not None:
                callee = {"path": "std::str::FromStr::from_str", "trait": "std::str::FromStr", "method": "from_str", "rpath": f.path,
                          "args": [t.id], "local": True, "inst": f.id, "kind": "item"}
                return I.call(fr, st, callee, [s], dty, [None], sp)
            if t.path in ("num_bigint::BigInt", "num_bigint::BigUint"):
                if self.on_number:
                    r = self.on_number(I, st, s, t, dty)
                    if r is not None:
                        return r
                c = D.pred("parses", s, t.path)
                a, b = st.split(c)
                out = []
                if a is not None:
                    out.append((a, VAdt(dty, 0, (D.of_atom(D.atom("parsed", (s, t.path), 0 if t.path.endswith("BigUint") else None, None)),))))
                if b is not None:
                    out.append((b, VAdt(dty, 1, (VSym("perr(%r)" % (s,), dty.args[1]),))))
                return out
        return None

    def parse_int(self, I, st, s, dty, radix):
        t = dty.args[0]
        lo, hi = int_range(t)
        if all(isinstance(p, str) for p in s.pieces):
            x = "".join(s.pieces)
            body = x[1:] if x[:1] == "+" or (x[:1] == "-" and t.signed) else x
            digits = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
            good = body != "" and all(c in digits for c in body.lower())
            if good:
                v = int(x.replace("+", ""), radix)
                good = lo <= v <= hi
            if good:
                return [(st, VAdt(dty, 0, (num(v),)))]
            return [(st, VAdt(dty, 1, (VSym("perr(%r)" % x, dty.args[1]),)))]
        while len(s.pieces) == 1 and s.pieces[0][0] == "fn" and s.pieces[0][1] in ("to_lowercase", "to_ascii_lowercase", "to_uppercase", "to_ascii_uppercase"):
            s = s.pieces[0][2]
        # a number written in the same base reads back as itself
        p = s.pieces[0]
        bad = VAdt(dty, 1, (VSym("perr(%r)" % (s,), dty.args[1]),))
        if len(s.pieces) == 1 and p[0] in ("d", "x", "X") and len(p) == 2 and isinstance(p[1], Lin) and {"d": 10}.get(p[0], 16) == radix:
            v = p[1]
            c = D.b_and(D.le(v, num(hi)), D.le(num(lo), v))
        else:
            sign = "[-+]?" if t.signed else "[+]?"
            ds = "0-9" if radix == 10 else "0-9a-fA-F" if radix == 16 else "01" if radix == 2 else "0-7" if radix == 8 else None
            k = text.rel(s, "rx", "^%s[%s]+$" % (sign, ds))[0] if ds else "part"
            if k == "out":
                return [(st, bad)]
            vlo, vhi = (None if t.signed else 0), None
            v = D.of_atom(D.atom("numval", (s, radix), vlo, None))
            c = D.b_and(D.le(v, num(hi)), D.le(num(lo), v)) if t.signed else D.le(v, num(hi))
            if k != "in":
                c = D.b_and(D.pred("isnum", s, radix, t.signed), c)
            if len(s.pieces) == 1 and p[0] == "txt":
                n = p[4]
                if n is not None and not t.signed and radix ** n - 1 <= hi:
                    c = TRUE if k == "in" else D.pred("isnum", s, radix, t.signed)
                    st = st.assume(D.le(v, num(radix ** n - 1)))
                    if st is None:
                        return []
        a, b = st.split(c)
        out = []
        if a is not None:
            a2 = a.assume(D.lt(num(0), I.str_len(s)))
            if a2 is not None:
                out.append((a2, VAdt(dty, 0, (v,))))
        if b is not None:
            out.append((b, bad))
        return out

    def string_method(self, I, st, fr, m, callee, args, dty, atys, sp):
        if m in ("new", "with_capacity"):
            return [(st, VStr(()))]
        if m in ("len", "is_empty", "as_str", "as_bytes"):
            s = self.as_str(I, st, args[0])
            if s is None:
                return None
            if m == "len":
                return [(st, I.str_len(s))]
            if m == "is_empty":
                return [(st, D.eq(I.str_len(s), num(0)))]
            if m == "as_str":
                return [(st, s)]
            return self.str_method(I, st, fr, m, callee, args, dty, atys, sp)
        if m in ("push", "push_str", "insert", "insert_str", "clear", "pop", "truncate", "reserve"):
            s = self.as_str(I, st, args[0])
            if s is None:
                return None
            p = args[0]
            r = st.copy()
            if m == "push":
                c = args[1]
                if not isinstance(c, Lin):
                    return None
                x = lit(chr(c.c)) if c.const else VStr((("char", c),))
                if c.const and s.pieces and not isinstance(s.pieces[-1], str) and s.pieces[-1][0] == "rep" and s.pieces[-1][1] == chr(c.c):
                    new = VStr(s.pieces[:-1] + (("rep", chr(c.c), s.pieces[-1][2] + 1),))
                else:
                    new = cat(s, x)
            elif m == "push_str":
                x = self.as_str(I, st, args[1])
                if x is None:
                    return None
                new = cat(s, x)
            elif m == "clear":
                new = VStr(())
            elif m == "reserve":
                return [(st, UNIT)]
            elif m in ("insert", "insert_str"):
                i = args[1]
                x = args[2]
                if m == "insert":
                    if not isinstance(x, Lin):
                        return None
                    x = lit(chr(x.c)) if x.const else VStr((("char", x),))
                else:
                    x = self.as_str(I, st, x)
                if x is None or not (isinstance(i, Lin)):
                    return None
                if i.const and i.c == 0:
                    new = cat(x, s)
                elif i == I.str_len(s):
                    new = cat(s, x)
                else:
                    return None
            else:
                return None
            I.write_ptr(r, p, new)
            return [(r, UNIT)]
        return None

    # ------------------------------------------------------------------ slices and vectors

    def slice_method(self, I, st, fr, m, callee, args, dty, atys, sp):
        v = I.deref(st, args[0])
        if isinstance(v, (VPtr, VRef)):
            args = [v] + list(args[1:])
            v = I.deref(st, v)
        if m == "join" or m == "concat":
            return self.join(I, st, v, args[1] if len(args) > 1 else VStr(()), dty)
        if isinstance(v, VGSeq) and m not in ("len", "is_empty", "iter", "get", "first", "to_vec", "to_owned", "into_vec"):
            return None
        if not isinstance(v, (VSeq, VArr, VGSeq)):
            return None
        n = I.seq_len(v)
        if m == "len":
            return [(st, n)]
        if m == "is_empty":
            return [(st, D.eq(n, num(0)))]
        if m == "iter":
            return [(st, VOp("it:seq", (v, num(0), n, "ref")))]
        if m == "iter_mut" and isinstance(args[0], VPtr):
            return [(st, VOp("it:mut", (args[0], num(0), n)))]
        if m in ("first", "last"):
            t, f = st.split(D.lt(num(0), n))
            out = []
            if t is not None:
                out.append((t, self.opt(dty, VRef(I.index(t, v, num(0) if m == "first" else n - 1)))))
            if f is not None:
                out.append((f, self.opt(dty, None)))
            return out
        if m == "get" and isinstance(args[1], Lin):
            t, f = st.split(D.lt(args[1], n))
            out = []
            if t is not None:
                out.append((t, self.opt(dty, VRef(I.index(t, v, args[1])))))
            if f is not None:
                out.append((f, self.opt(dty, None)))
            return out
        if m == "get" and isinstance(args[1], VAdt) and args[1].ty.path.startswith("std::ops::Range"):
            lo, hi = self.range_bounds(I, st, args[1], n)
            if lo is None:
                return None
            t, f = st.split(D.b_and(D.le(lo, hi), D.le(hi, n)))
            out = []
            if t is not None:
                out.append((t, self.opt(dty, VRef(I.subslice(t, v, lo, hi)))))
            if f is not None:
                out.append((f, self.opt(dty, None)))
            return out
        if m == "split_first":
            t, f = st.split(D.lt(num(0), n))
            out = []
            if t is not None:
                out.append((t, self.opt(dty, VTuple((VRef(I.index(t, v, num(0))), VRef(I.subslice(t, v, num(1), n)))))))
            if f is not None:
                out.append((f, self.opt(dty, None)))
            return out
        if m == "split_at" and isinstance(args[1], Lin):
            c = D.le(args[1], n)
            I.oblige("panic", I.site_key(fr, "split_at out of range"), st, c, "%r of %r" % (args[1], n), I.site_where(fr, sp))
            s = st.assume(c)
            if s is None:
                return []
            return [(s, VTuple((VRef(I.subslice(s, v, num(0), args[1])), VRef(I.subslice(s, v, args[1], n)))))]
        if m in ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key"):
            return self.sort(I, st, fr, m, args, v, sp)
        if m == "reverse":
            if isinstance(v, VArr) or v.pre is None:
                s = st.copy()
                I.write_ptr(s, args[0], type(v)(*([] if isinstance(v, VArr) else [None]), tuple(reversed(v.items))))
                return [(s, UNIT)]
            return None
        if m in ("to_vec", "into_vec", "to_owned"):
            return [(st, v if isinstance(v, (VSeq, VGSeq)) else VSeq(None, v.items))]
        if m in ("chunks", "chunks_exact") and isinstance(args[1], Lin):
            return [(st, VOp("it:chunks", (v, num(0), n, args[1], "exact" if m.endswith("exact") else "any")))]
        if m == "windows" and isinstance(args[1], Lin) and args[1].const and n.const:
            k = args[1].c
            ws = tuple(VRef(I.subslice(st, v, num(i), num(i + k))) for i in range(0, n.c - k + 1))
            return [(st, VOp("it:seq", (VSeq(None, ws), num(0), num(len(ws)), "val")))]
        if m == "contains":
            if (isinstance(v, VArr) or v.pre is None):
                r = FALSE
                for x in v.items:
                    e = self.struct_eq(I, st, x, args[1])
                    if e is None:
                        return None
                    r = D.b_or(r, e)
                return [(st, r)]
            return None
        if m == "copy_from_slice" and isinstance(args[0], VPtr):
            src = I.deref(st, args[1])
            if isinstance(src, VArr):
                src = VSeq(None, src.items)
            if isinstance(src, VSeq) and src.pre is None and n.const:
                c = D.boolc(len(src.items) == n.c)
                I.oblige("panic", I.site_key(fr, "copy_from_slice length mismatch"), st, c, "", I.site_where(fr, sp))
                if c is FALSE:
                    return []
                s = st.copy()
                p = args[0]
                if p.path and p.path[-1][0] == "r":
                    lo = p.path[-1][1]
                    for j, x in enumerate(src.items):
                        I.store_path(s, p.oid, p.path[:-1] + (("i", lo + j),), x)
                else:
                    for j, x in enumerate(src.items):
                        I.store_path(s, p.oid, p.path + (("i", num(j)),), x)
                return [(s, UNIT)]
            return None
        if m == "fill" and isinstance(args[0], VPtr) and n.const:
            s = st.copy()
            p = args[0]
            for j in range(n.c):
                if p.path and p.path[-1][0] == "r":
                    I.store_path(s, p.oid, p.path[:-1] + (("i", p.path[-1][1] + j),), args[1])
                else:
                    I.store_path(s, p.oid, p.path + (("i", num(j)),), args[1])
            return [(s, UNIT)]
        if m == "swap" and isinstance(args[0], VPtr) and all(isinstance(x, Lin) for x in args[1:]):
            s = st.copy()
            p = args[0]
            c = D.b_and(D.lt(args[1], n), D.lt(args[2], n))
            I.oblige("panic", I.site_key(fr, "index out of bounds"), st, c, "swap", I.site_where(fr, sp))
            x, y = I.index(s, v, args[1]), I.index(s, v, args[2])
            I.store_path(s, p.oid, p.path + (("i", args[1]),), y)
            I.store_path(s, p.oid, p.path + (("i", args[2]),), x)
            return [(s, UNIT)]
        return None

    def sort(self, I, st, fr, m, args, v, sp):
        if len(args) > 1:
            self.fire("sort", I, st, fr, m, args, v, sp)
        else:
            self.fire("sort", I, st, fr, m, args, v, sp)
        if isinstance(v, (VSeq, VArr)) and (isinstance(v, VArr) or v.pre is None):
            if len(v.items) <= 1:
                return [(st, UNIT)]
            r = self.sort_items(I, st, fr, m, args, v.items, sp)
            if r is None:
                return None
            out = []
            for s, xs in r:
                s = s.copy()
                I.write_ptr(s, args[0], VSeq(None, tuple(xs)) if isinstance(v, VSeq) else VArr(tuple(xs)))
                out.append((s, UNIT))
            return out
        s = st.copy()
        if isinstance(v, VSeq) and v.pre is not None and not v.items:
            nm = ("sorted", v.pre, m, args[1] if len(args) > 1 else None)
            I.write_ptr(s, args[0], VSeq(VSymSeq(nm, v.pre.elem, v.pre.ln, num(0)), ()))
            # the comparator runs on arbitrary pairs: analyse it once
            if len(args) > 1:
                k1 = D.sym("sorti(%s)" % self.iter_name(v), 0, 1 << 62)
                k2 = D.sym("sortj(%s)" % self.iter_name(v), 0, 1 << 62)
                s0 = st.assume(D.lt(k1, v.pre.ln))
                s0 = s0.assume(D.lt(k2, v.pre.ln)) if s0 is not None else None
                if s0 is not None:
                    a, b = VRef(I.index(s0, v, k1)), VRef(I.index(s0, v, k2))
                    I.call_value(fr, s0, args[1], [a] if "key" in m else [a, b], None, sp)
            return [(s, UNIT)]
        return None

    def sort_items(self, I, st, fr, m, args, items, sp):
        """Insertion sort with splits on undecided comparisons: [(state, [items])], or None.  Equal
        elements keep their order in a stable sort and come in either order in an unstable one."""
        stable = "unstable" not in m
        cur = [(st, ())]
        for x in items:
            if "key" in m:
                cur = [(s2, acc + ((x, k),)) for s, acc in cur for s2, k in I.call_value(fr, s, args[1], [VRef(x)], self.closure_ret(I, args[1], s), sp)]
            else:
                cur = [(s, acc + ((x, x),)) for s, acc in cur]
        oty = self.ordering_ty()
        out = []
        work = [(s, acc, ()) for s, acc in cur]
        n = 0
        while work:
            s, todo, done = work.pop()
            n += 1
            if n > 4000:
                raise Undecided("orders of a sort")
            if not todo:
                out.append((s, [x for x, _ in done]))
                continue
            (x, k), rest = todo[0], todo[1:]
            pos = [(s, len(done))]
            while pos:
                s1, i = pos.pop()
                if i == 0:
                    work.append((s1, rest, ((x, k),) + done))
                    continue
                y, ky = done[i - 1]
                if m in ("sort_by", "sort_unstable_by"):
                    r = I.call_value(fr, s1, args[1], [VRef(y), VRef(x)], oty, sp)
                elif self.has_handwritten(I, I.deref_all(s1, k), "std::cmp::Ord"):
                    return None
                else:
                    r = self.three_way(I, s1, ky, k, oty)
                if r is None:
                    return None
                for s2, o in r:
                    for s3, o in I.variant_of(s2, o):
                        if not isinstance(o, VAdt):
                            return None
                        if o.variant == 2:
                            pos.append((s3, i - 1))
                            continue
                        work.append((s3, rest, done[:i] + ((x, k),) + done[i:]))
                        # (the refuting pass may leave orders out)
                        if o.variant == 1 and not stable and I.hash_order != 0 and not (I.prefix_only and len(items) > 4) and self.struct_eq(I, s3, x, y) != TRUE:
                            pos.append((s3, i - 1))
        return out

    def join(self, I, st, v, sep, dty):
        if isinstance(v, VArr):
            v = VSeq(None, v.items)
        sep = I.deref_all(st, sep)
        if isinstance(v, VSeq) and isinstance(sep, VStr):
            if v.pre is None:
                out = VStr(())
                for i, x in enumerate(v.items):
                    x = self.as_str(I, st, x)
                    if x is None:
                        return None
                    out = cat(out, sep, x) if i else x
                return [(st, out)]
            return [(st, VStr((("joinseq", v, sep),)))]
        return None

    def gvec_method(self, I, st, m, p, v, args):
        n = I.seq_len(v)
        if m == "len":
            return [(st, n)]
        if m == "is_empty":
            return [(st, D.eq(n, num(0)))]
        s = st.copy()
        if m == "push":
            I.write_ptr(s, p, gseq(v.items + ((D.TRUE, args[1]),)))
            return [(s, UNIT)]
        if m in ("append", "extend_from_slice"):
            o = gitems(I.deref(st, args[1]))
            if o is None:
                return None
            I.write_ptr(s, p, gseq(v.items + o))
            if m == "append":
                I.write_ptr(s, args[1], VSeq(None, ()))
            return [(s, UNIT)]
        if m in ("as_slice", "as_mut_slice"):
            return [(st, p)]
        if m in ("reserve", "shrink_to_fit"):
            return [(st, UNIT)]
        if m == "clear":
            I.write_ptr(s, p, VSeq(None, ()))
            return [(s, UNIT)]
        return None

    def vec_method(self, I, st, fr, m, callee, args, dty, atys, sp):
        if m in ("new", "with_capacity"):
            return [(st, VSeq(None, ()))]
        p = args[0]
        v = I.deref(st, p) if isinstance(p, (VPtr, VRef)) else p
        if isinstance(v, VSeq) and v.pre is None and m in ("append", "extend_from_slice"):
            if isinstance(I.deref(st, args[1]), VGSeq):
                v = VGSeq(gitems(v))
        if isinstance(v, VGSeq):
            return self.gvec_method(I, st, m, p, v, args)
        if not isinstance(v, (VSeq,)):
            return None
        n = I.seq_len(v)
        if m == "len":
            return [(st, n)]
        if m == "is_empty":
            return [(st, D.eq(n, num(0)))]
        if m == "push":
            s = st.copy()
            self.fire("vec_push", I, st, fr, p, v, args[1], sp)
            I.write_ptr(s, p, VSeq(v.pre, v.items + (args[1],)))
            if self.on_push:
                s = self.on_push(I, s, fr, p, v, args[1])
            return [(s, UNIT)]
        if m in ("append",):
            o = I.deref(st, args[1])
            if not isinstance(o, VSeq):
                return None
            s = st.copy()
            if o.pre is None:
                I.write_ptr(s, p, VSeq(v.pre, v.items + o.items))
            elif v.pre is None and not v.items:
                I.write_ptr(s, p, o)
            else:
                return None
            I.write_ptr(s, args[1], VSeq(None, ()))
            return [(s, UNIT)]
        if m == "extend_from_slice":
            o = I.deref(st, args[1])
            if isinstance(o, VArr):
                o = VSeq(None, o.items)
            if not isinstance(o, VSeq):
                return None
            s = st.copy()
            if o.pre is None:
                I.write_ptr(s, p, VSeq(v.pre, v.items + o.items))
            elif v.pre is None and not v.items:
                I.write_ptr(s, p, o)
            else:
                return None
            return [(s, UNIT)]
        if m in ("as_slice", "as_mut_slice"):
            return [(st, p)]
        if m == "clear":
            s = st.copy()
            I.write_ptr(s, p, VSeq(None, ()))
            return [(s, UNIT)]
        if m == "reserve" or m == "shrink_to_fit":
            return [(st, UNIT)]
        if m == "pop":
            out = []
            if v.items:
                s = st.copy()
                I.write_ptr(s, p, VSeq(v.pre, v.items[:-1]))
                return [(s, self.opt(dty, v.items[-1]))]
            if v.pre is None:
                return [(st, self.opt(dty, None))]
            t, f = st.split(D.lt(num(0), v.pre.ln))
            if f is not None:
                out.append((f, self.opt(dty, None)))
            if t is not None:
                s = t.copy()
                e = I.index(s, v, v.pre.ln - 1)
                I.write_ptr(s, p, VSeq(VSymSeq(v.pre.name, v.pre.elem, v.pre.ln - 1, v.pre.off), ()))
                out.append((s, self.opt(dty, e)))
            return out
        if m in ("dedup", "dedup_by_key", "dedup_by", "retain", "retain_mut") and v.pre is None:
            cur = [(st, ())]
            for x in v.items:
                nx = []
                for s, acc in cur:
                    if m.startswith("retain"):
                        r = I.call_value(fr, s, args[1], [VRef(x)], self.bool_ty(), sp)
                    elif not acc:
                        nx.append((s, (x,)))
                        continue
                    elif m == "dedup":
                        if self.has_handwritten(I, x, "std::cmp::PartialEq"):
                            return None
                        r = [(s, self.struct_eq(I, s, acc[-1], x))]
                    elif m == "dedup_by":
                        r = I.call_value(fr, s, args[1], [VRef(x), VRef(acc[-1])], self.bool_ty(), sp)
                    else:
                        ty = self.closure_ret(I, args[1], s)
                        r = [(s3, self.struct_eq(I, s3, k1, k2)) for s2, k1 in I.call_value(fr, s, args[1], [VRef(acc[-1])], ty, sp)
                             for s3, k2 in I.call_value(fr, s2, args[1], [VRef(x)], ty, sp)]
                    for s2, b in r:
                        if not isinstance(b, BF):
                            return None
                        if not m.startswith("retain"):
                            b = D.b_not(b)
                        t, f = s2.split(b)
                        if t is not None:
                            nx.append((t, acc + (x,)))
                        if f is not None:
                            nx.append((f, acc))
                cur = nx
            out = []
            for s, acc in cur:
                s = s.copy()
                I.write_ptr(s, p, VSeq(None, acc))
                out.append((s, UNIT))
            return out
        if m == "split_off" and v.pre is None and isinstance(args[1], Lin) and args[1].const and args[1].c <= len(v.items):
            s = st.copy()
            I.write_ptr(s, p, VSeq(None, v.items[:args[1].c]))
            return [(s, VSeq(None, v.items[args[1].c:]))]
        if m == "truncate" and v.pre is None and isinstance(args[1], Lin) and args[1].const:
            s = st.copy()
            I.write_ptr(s, p, VSeq(None, v.items[:args[1].c]))
            return [(s, UNIT)]
        if m == "resize" and v.pre is None and isinstance(args[1], Lin) and args[1].const:
            k = args[1].c
            s = st.copy()
            I.write_ptr(s, p, VSeq(None, (v.items + (args[2],) * max(0, k - len(v.items)))[:k]))
            return [(s, UNIT)]
        if m in ("insert",) and v.pre is None and isinstance(args[1], Lin) and args[1].const:
            k = args[1].c
            if k > len(v.items):
                I.panic(st, fr, "Vec::insert out of range", sp)
                return []
            s = st.copy()
            I.write_ptr(s, p, VSeq(None, v.items[:k] + (args[2],) + v.items[k:]))
            return [(s, UNIT)]
        if m in ("remove", "swap_remove") and v.pre is None and isinstance(args[1], Lin) and args[1].const:
            k = args[1].c
            if k >= len(v.items):
                I.panic(st, fr, "Vec::%s out of range" % m, sp)
                return []
            s = st.copy()
            x = v.items[k]
            if m == "remove":
                I.write_ptr(s, p, VSeq(None, v.items[:k] + v.items[k + 1:]))
            else:
                l = list(v.items)
                l[k] = l[-1]
                l.pop()
                I.write_ptr(s, p, VSeq(None, tuple(l)))
            return [(s, x)]
        if m == "remove" and v.pre is not None and isinstance(args[1], Lin) and args[1].const and args[1].c == 0:
            I.oblige("panic", I.site_key(fr, "Vec::remove out of range"), st, D.lt(num(0), n), "%r" % n, I.site_where(fr, sp))
            out = []
            t, f = st.split(D.lt(num(0), v.pre.ln))
            if t is not None:
                s = t.copy()
                e = I.index(s, v, num(0))
                I.write_ptr(s, p, VSeq(VSymSeq(v.pre.name, v.pre.elem, v.pre.ln - 1, v.pre.off + 1), v.items))
                out.append((s, e))
            if f is not None and v.items:
                s = f.copy()
                I.write_ptr(s, p, VSeq(None, v.items[1:]))
                out.append((s, v.items[0]))
            return out
        if m == "drain" and v.pre is None and isinstance(args[1], VAdt) and args[1].ty.path.startswith("std::ops::Range"):
            lo, hi = self.range_bounds(I, st, args[1], n)
            if lo is not None and lo.const and hi.const and lo.c <= hi.c <= len(v.items):
                s = st.copy()
                x = v.items[lo.c:hi.c]
                I.write_ptr(s, p, VSeq(None, v.items[:lo.c] + v.items[hi.c:]))
                return [(s, VOp("it:seq", (VSeq(None, x), num(0), num(len(x)), "val")))]
        return None

    # ------------------------------------------------------------------ Option / Result

    def optres(self, I, st, fr, which, m, callee, args, dty, atys, sp):
        v = args[0]
        isopt = which.endswith("Option")
        good = 1 if isopt else 0
        if m in ("unwrap", "expect", "unwrap_err", "expect_err", "unwrap_unchecked"):
            want = good if not m.endswith("err") else 1 - good
            out = []
            for s, e in I.variant_of(st, v):
                if not isinstance(e, VAdt):
                    r = I.topbool("variant of %r" % (e,))
                    I.oblige("panic", I.site_key(fr, "%s" % m), s, r, "unknown value %r" % (e,), I.site_where(fr, sp))
                    out.append((s, I.sym_value(dty, "unwrapped#%d" % self._fresh(), D.taint_of(e) or "unknown value")))
                    continue
                if e.variant == want:
                    out.append((s, e.fields[0]))
                else:
                    I.panic(s, fr, "%s on %s" % (m, "None" if isopt else "Err"), sp, repr(e)[:200])
            # a passing instance is recorded too
            I.oblige("panic", I.site_key(fr, "%s on %s" % (m, "None" if isopt else "Err")), st, TRUE, "", I.site_where(fr, sp))
            return out
        if m in ("is_some", "is_none", "is_ok", "is_err"):
            x = I.deref(st, v)
            want = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[m]
            if isinstance(x, VOp) and x.kind == "pfxopt":
                c = D.pred("contig", x.args[2])
                return [(st, c if want == 1 else D.b_not(c))]
            out = []
            for s, e in I.variant_of(st, x):
                if not isinstance(e, VAdt):
                    return None
                out.append((s, D.boolc(e.variant == want)))
            return out
        if m in ("as_ref", "as_deref") and isopt:
            x = I.deref(st, v)
            if isinstance(x, VOp) and x.kind == "pfxopt":
                return None
            out = []
            for s, e in I.variant_of(st, x):
                if not isinstance(e, VAdt):
                    return None
                if e.variant == 1:
                    f = e.fields[0]
                    inner = f if (m == "as_deref" and isinstance(f, VStr)) else VRef(f)
                    if isinstance(v, VPtr) and not (m == "as_deref"):
                        inner = VPtr(v.oid, v.path + (("f", 0, 1),)) if e is x else VRef(f)
                    out.append((s, VAdt(dty, 1, (inner,))))
                else:
                    out.append((s, VAdt(dty, 0, ())))
            return out
        if m == "unwrap_or":
            out = []
            for s, e in I.variant_of(st, v):
                if not isinstance(e, VAdt):
                    return None
                out.append((s, e.fields[0] if e.variant == good else args[1]))
            return out
        if m in ("map", "and_then", "map_err", "unwrap_or_else", "or_else", "ok_or", "ok_or_else", "ok", "err", "or", "filter", "map_or", "map_or_else",
                 "copied", "cloned", "is_some_and", "is_ok_and", "take", "unwrap_or_default", "as_mut", "and", "is_none_or"):
            if m in ("take", "as_mut"):
                return None
            out = []
            for s, e in I.variant_of(st, v):
                if not isinstance(e, VAdt):
                    return None
                isg = e.variant == good
                x = e.fields[0] if e.fields else None
                if m == "map":
                    if isg:
                        out += [(s2, VAdt(dty, good, (r,))) for s2, r in I.call_value(fr, s, args[1], [x], dty.args[0], sp)]
                    else:
                        out.append((s, VAdt(dty, e.variant, e.fields)))
                elif m == "map_err":
                    if isg:
                        out.append((s, VAdt(dty, 0, e.fields)))
                    else:
                        out += [(s2, VAdt(dty, 1, (r,))) for s2, r in I.call_value(fr, s, args[1], [x], dty.args[1], sp)]
                elif m == "and_then":
                    if isg:
                        out += I.call_value(fr, s, args[1], [x], dty, sp)
                    else:
                        out.append((s, VAdt(dty, e.variant, e.fields)))
                elif m == "and":
                    out.append((s, args[1] if isg else VAdt(dty, e.variant, e.fields)))
                elif m == "unwrap_or_else":
                    if isg:
                        out.append((s, x))
                    else:
                        out += I.call_value(fr, s, args[1], [] if isopt else [x], dty, sp)
                elif m == "or_else":
                    if isg:
                        out.append((s, VAdt(dty, good, e.fields)))
                    else:
                        out += I.call_value(fr, s, args[1], [] if isopt else [x], dty, sp)
                elif m == "ok_or":
                    out.append((s, VAdt(dty, 0, (x,)) if isg else VAdt(dty, 1, (args[1],))))
                elif m == "ok_or_else":
                    if isg:
                        out.append((s, VAdt(dty, 0, (x,))))
                    else:
                        out += [(s2, VAdt(dty, 1, (r,))) for s2, r in I.call_value(fr, s, args[1], [], dty.args[1], sp)]
                elif m == "ok":
                    out.append((s, VAdt(dty, 1, (x,)) if isg else VAdt(dty, 0, ())))
                elif m == "err":
                    out.append((s, VAdt(dty, 0, ()) if isg else VAdt(dty, 1, (x,))))
                elif m == "or":
                    out.append((s, VAdt(dty, good, e.fields) if isg else args[1]))
                elif m == "filter":
                    if not isg:
                        out.append((s, e))
                    else:
                        for s2, r in I.call_value(fr, s, args[1], [VRef(x)], self.bool_ty(), sp):
                            if not isinstance(r, BF):
                                return None
                            t, f = s2.split(r)
                            if t is not None:
                                out.append((t, e))
                            if f is not None:
                                out.append((f, VAdt(dty, 0, ())))
                elif m == "map_or":
                    if isg:
                        out += I.call_value(fr, s, args[2], [x], dty, sp)
                    else:
                        out.append((s, args[1]))
                elif m == "map_or_else":
                    if isg:
                        out += I.call_value(fr, s, args[2], [x], dty, sp)
                    else:
                        out += I.call_value(fr, s, args[1], [] if isopt else [x], dty, sp)
                elif m in ("copied", "cloned"):
                    out.append((s, VAdt(dty, e.variant, tuple(I.deref(s, y) for y in e.fields) if isg else e.fields)))
                elif m in ("is_some_and", "is_ok_and"):
                    if isg:
                        out += I.call_value(fr, s, args[1], [x], dty, sp)
                    else:
                        out.append((s, FALSE))
                elif m == "is_none_or":
                    if isg:
                        out += I.call_value(fr, s, args[1], [x], dty, sp)
                    else:
                        out.append((s, TRUE))
                elif m == "unwrap_or_default":
                    if isg:
                        out.append((s, x))
                    else:
                        d = self.t_Default(I, s, fr, "default", callee, [], dty, [], sp)
                        if d is None:
                            return None
                        out += d
            return out
        return None

    def _fresh(self):
        D._fresh[0] += 1
        return D._fresh[0]

    # ------------------------------------------------------------------ hash containers

    def hash_method(self, I, st, fr, which, m, callee, args, dty, atys, sp):
        kind = which.lower()
        if m in ("new", "with_capacity", "default"):
            t = dty
            elem = t.args[0] if kind == "set" else self.pair_ty(t)
            name = "%s@%s" % (kind, fr.fn.path)
            return [(st, VOp(kind, (name, elem, (), TRUE)))]
        p = args[0]
        v = I.deref(st, p)
        if not (isinstance(v, VOp) and v.kind in ("set", "map")):
            return None
        if self.plain_hash(v) and (I.hash_order is not None or not v.args[2]):
            r = self.hash_plain_method(I, st, fr, v, m, p, args, dty, atys, sp)
            if r is not None:
                return r
        if m in ("insert", "remove"):
            self.fire("hash_" + m, I, st, fr, v, args[1:], sp)
            s = st.copy()
            # contents become opaque; membership facts live in the checks' ghost state
            I.write_ptr(s, p, VOp(v.kind, (v.args[0], v.args[1], "…", FALSE)))
            if dty.k == "bool":
                return [(s, D.bvar(D.atom("pred", ("%s.%s#%d" % (v.args[0], m, self._fresh()),), 0, 1)))]
            return [(s, I.sym_value(dty, "%s.%s#%d" % (v.args[0], m, self._fresh())))]
        if m in ("iter", "values", "keys", "into_iter", "drain", "into_values", "into_keys"):
            it = self.hash_iter(I, st, fr, v)
            if m in ("values", "keys") and v.kind == "map":
                i = 1 if m == "values" else 0
                return None
            return [(st, it)]
        if m == "len":
            return [(st, D.sym("len(%s)#%d" % (v.args[0], self._fresh()), 0, 1 << 62))]
        if m in ("contains", "contains_key"):
            self.fire("hash_" + m, I, st, fr, v, args[1:], sp)
            return [(st, D.bvar(D.atom("pred", ("%s.%s#%d" % (v.args[0], m, self._fresh()),), 0, 1)))]
        if m == "get":
            self.fire("hash_get", I, st, fr, v, args[1:], sp)
            return [(st, I.sym_value(dty, "%s.get#%d" % (v.args[0], self._fresh())))]
        return None

    # ------------------------------------------------------------------ formatting

    def decode_template(self, bs):
        """[(literal str) | (arg index, opts)] of a format template byte string."""
        out = []
        i = 0
        argn = 0
        while i < len(bs):
            b = bs[i]
            i += 1
            if b == 0:
                break
            if b < 128:
                out.append(bytes(bs[i:i + b]).decode())
                i += b
            elif b == 128:
                n = bs[i] | (bs[i + 1] << 8)
                i += 2
                out.append(bytes(bs[i:i + n]).decode())
                i += n
            elif b >= 0xC0:
                opts = []
                if b & 1:
                    opts.append(("flags", bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24))
                    i += 4
                if b & 2:
                    opts.append(("width at" if b & 16 else "width", bs[i] | bs[i + 1] << 8))
                    i += 2
                if b & 4:
                    opts.append(("prec at" if b & 32 else "prec", bs[i] | bs[i + 1] << 8))
                    i += 2
                ix = argn
                if b & 8:
                    ix = bs[i] | bs[i + 1] << 8
                    i += 2
                argn = ix + 1
                out.append((ix, tuple(opts)))
            else:
                raise Undecided("format template byte %d" % b)
        return out

    def fmt_method(self, I, st, fr, rpath, last, callee, args, dty, atys, sp):
        if "Argument" in rpath and last.startswith("new_") and "Arguments" not in rpath:
            kind = {"new_display": "d", "new_debug": "?", "new_lower_hex": "x", "new_upper_hex": "X", "new_binary": "b", "new_octal": "o"}.get(last)
            if kind is None:
                return None
            g = self.gargs(callee)
            return [(st, VOp("fmtarg", (kind, I.deref_all(st, args[0]), g[0] if g else None)))]
        if "Argument" in rpath and last == "from_usize" and "Arguments" not in rpath:
            n = I.deref_all(st, args[0])
            if not isinstance(n, Lin):
                return None
            a, b = st.split(D.le(n, num(65535)))
            if b is not None:
                I.panic(b, fr, "formatting width too large", sp)
            return [(a, VOp("fmtarg", ("usize", n, None)))] if a is not None else []
        if "Arguments" in rpath and last in ("new", "new_const", "new_v1", "from_str"):
            if last == "from_str":
                s = I.deref_all(st, args[0])
                return [(st, VOp("fmtargs", (s,)))] if isinstance(s, VStr) else None
            tpl = I.deref_all(st, args[0])
            av = I.deref_all(st, args[1]) if len(args) > 1 else VArr(())
            if not (isinstance(tpl, (VArr, VSeq)) and isinstance(av, (VArr, VSeq)) and all(isinstance(x, Lin) and x.const for x in tpl.items)):
                return None
            out = VStr(())
            for p in self.decode_template([x.c for x in tpl.items]):
                if isinstance(p, str):
                    out = cat(out, lit(p))
                else:
                    a = av.items[p[0]]
                    if not (isinstance(a, VOp) and a.kind == "fmtarg"):
                        return None
                    opts = []
                    for o, x in p[1]:
                        if o in ("width at", "prec at"):
                            x = av.items[x]
                            if not (isinstance(x, VOp) and x.kind == "fmtarg" and x.args[0] == "usize" and isinstance(x.args[1], Lin)):
                                return None
                            x, o = x.args[1], o[:-3]
                            x = x.c if x.const else x
                        opts.append((o, x))
                    p = (p[0], tuple(opts))
                    out = cat(out, self.display(I, st, a.args[1], a.args[2], a.args[0], p[1]))
            return [(st, VOp("fmtargs", (out,)))]
        if last in ("write_fmt", "write_str", "pad", "write_char") and "Formatter" in rpath:
            x = args[1]
            if last == "write_fmt":
                x = x.args[0] if isinstance(x, VOp) and x.kind == "fmtargs" else None
            elif last == "write_char":
                x = (lit(chr(x.c)) if x.const else VStr((("char", x),))) if isinstance(x, Lin) else None
            else:
                x = self.as_str(I, st, x)
            if x is None:
                return None
            p = args[0]
            return self.emit(I, st, fr, p, x, dty)
        if last == "format":
            a = args[0]
            if isinstance(a, VOp) and a.kind == "fmtargs":
                return [(st, a.args[0])]
        return None

    # ------------------------------------------------------------------ everything else

    def misc(self, I, st, fr, path, rpath, last, callee, args, dty, atys, sp):
        if path == "std::hint::must_use" or path == "std::convert::identity" or path == "std::hint::black_box":
            return [(st, args[0])]
        if path in ("std::io::_print", "std::io::_eprint"):
            a = args[0]
            s = a.args[0] if isinstance(a, VOp) and a.kind == "fmtargs" else None
            if s is None:
                s = VStr((("unknown", "print"),))
            r = None
            if self.on_print:
                r = self.on_print(I, st, fr, "err" if path.endswith("_eprint") else "out", s, sp)
            return [(r if r is not None else st, UNIT)]
        if path == "std::process::exit":
            if self.on_exit:
                self.on_exit(I, st, fr, args[0], sp)
            return []
        if path in ("std::env::args", "std::env::args_os") and self.env_args is not None:
            it = VOp("it:seq", (self.env_args, num(0), num(len(self.env_args.items)), "val"))
            if path == "std::env::args" and any(isinstance(x, VOp) for x in self.env_args.items):
                it = VOp("it:args", (it,))
            return [(st, it)]
        if "ffi::" in path and "OsStr" in path or "os_str::" in path:
            v = I.deref_all(st, args[0])
            if isinstance(v, VStr):
                if last == "into_string":
                    return [(st, VAdt(dty, 0, (v,)))]
                if last == "to_str":
                    return [(st, self.opt(dty, VRef(v)))]
                if last == "to_string_lossy":
                    return [(st, VAdt(dty, 0, (VRef(v),)))]
            elif isinstance(v, VOp) and v.kind == "os":
                if last == "into_string":
                    return [(st, VAdt(dty, 1, (v,)))]
                if last == "to_str":
                    return [(st, self.opt(dty, None))]
                if last == "to_string_lossy":
                    return [(st, VAdt(dty, 1, (v.args[0],)))]
            if last in ("as_os_str", "to_os_string", "as_ref"):
                return [(st, args[0] if last != "to_os_string" else v)]
            return None
        if path.startswith("std::borrow::Cow") and last in ("into_owned", "to_mut", "is_owned", "is_borrowed"):
            v = I.deref(st, args[0])
            if isinstance(v, VAdt) and v.fields and last == "into_owned":
                x = I.deref_all(st, v.fields[0])
                if isinstance(x, VStr):
                    return [(st, x)]
            return None
        if path == "std::env::args" or path == "std::env::args_os":
            t = None
            for ty in self.prog.types:
                if ty is not None and ty.k == "adt" and ty.path == "std::string::String":
                    t = ty
            q = VSymSeq("argv", t, D.sym("argc", 0, 1 << 20), num(0))
            return [(st, VOp("it:seq", (VSeq(q, ()), num(0), q.ln, "val")))]
        if path.startswith("core::panicking::") or last in ("panic", "panic_fmt", "panic_display", "panic_explicit", "begin_panic") or \
                last in ("unwrap_failed", "expect_failed", "panic_bounds_check") or "panicking" in path:
            why = "panic"
            if args and isinstance(I.deref_all(st, args[0]), VStr):
                why = "panic %r" % (I.deref_all(st, args[0]),)
            I.panic(st, fr, why, sp)
            return []
        if path in ("once_cell::sync::Lazy::<T, F>::new", "std::sync::LazyLock::<T, F>::new", "once_cell::unsync::Lazy::<T, F>::new"):
            return [(st, VOp("lazyinit", (args[0],)))]
        if path in ("once_cell::sync::Lazy::<T, F>::force", "std::sync::LazyLock::<T, F>::force"):
            v = args[0]
            if isinstance(v, VPtr) and v.oid[0] == "static":
                r = self.lazy_static(I, st, fr, v.oid[1], sp)
                return [(st, r)] if r is not None else None
            return None
        if path == "regex::Regex::new":
            s = self.as_str(I, st, args[0])
            if s is None or not all(isinstance(p, str) for p in s.pieces):
                return None
            return [(st, VAdt(dty, 0, (VOp("regex", ("".join(s.pieces),)),)))]
        if path == "regex::Regex::captures":
            return self.re_captures(I, st, fr, args, dty, sp)
        if path.startswith("regex::Captures") and last in ("name", "get"):
            return self.re_name(I, st, fr, args, dty, sp)
        if path.startswith("regex::Match") and last == "as_str":
            v = I.deref_all(st, args[0])
            if isinstance(v, VOp) and v.kind == "match":
                return [(st, v.args[0])]
            return None
        if path == "regex::Regex::is_match":
            r = I.deref_all(st, args[0])
            s = self.as_str(I, st, args[1])
            if isinstance(r, VOp) and r.kind == "regex" and s is not None:
                return [(st, self.re_match(r.args[0], s)[0])]
            return None
        if path == "console::colors_enabled":
            return [(st, D.pred("colors_enabled"))]
        if path == "console::style":
            return [(st, VOp("styled", (args[0], ())))]
        if path.startswith("console::StyledObject"):
            v = args[0]
            if isinstance(v, VOp) and v.kind == "styled":
                return [(st, VOp("styled", (v.args[0], v.args[1] + (last,))))]
            return None
        if path == "std::iter::repeat":
            return [(st, VOp("it:repeat", (args[0],)))]
        if path == "std::iter::repeat_n":
            return [(st, VOp("it:take", (VOp("it:repeat", (args[0],)), args[1])))]
        if path == "std::iter::once":
            return [(st, VOp("it:once", (args[0],)))]
        if path == "std::iter::empty":
            return [(st, VOp("it:seq", (VSeq(None, ()), num(0), num(0), "val")))]
        if path == "std::iter::successors":
            return [(st, VOp("it:succ", (args[0], args[1], atys[0] if atys else None)))]
        if path == "std::iter::from_fn":
            return [(st, VOp("it:fromfn", (args[0], self.closure_ret(I, args[0], st))))]
        if path in ("std::mem::swap",):
            a, b = I.deref(st, args[0]), I.deref(st, args[1])
            s = st.copy()
            I.write_ptr(s, args[0], b)
            I.write_ptr(s, args[1], a)
            return [(s, UNIT)]
        if path in ("std::mem::replace",):
            a = I.deref(st, args[0])
            s = st.copy()
            I.write_ptr(s, args[0], args[1])
            return [(s, a)]
        if path == "std::mem::take":
            a = I.deref(st, args[0])
            d = self.t_Default(I, st, fr, "default", callee, [], dty, atys, sp)
            if d is None:
                return None
            s = st.copy()
            I.write_ptr(s, args[0], d[0][1])
            return [(s, a)]
        if path in ("std::mem::drop", "std::mem::forget"):
            return [(st, UNIT)]
        if last == "from_elem" and "vec" in path:
            n = args[1]
            if isinstance(n, Lin) and n.const and n.c <= 4096:
                return [(st, VSeq(None, (args[0],) * n.c))]
            return None
        if path == "std::boxed::Box::<T>::new_uninit":
            oid = ("heap", fr.depth, sp)
            s = st.copy()
            s.store[oid] = VOp("uninit", ())
            return [(s, VOp("box", (VPtr(oid, ()),)))]
        if last in ("into_vec", "box_assume_init_into_vec_unsafe") and args:
            v = args[0]
            if isinstance(v, VOp) and v.kind == "box":
                v = v.args[0]
            v = I.deref_all(st, v)
            if isinstance(v, VArr):
                return [(st, VSeq(None, v.items))]
            if isinstance(v, VSeq):
                return [(st, v)]
            return None
        if path.startswith("std::ops::RangeInclusive") and last == "new":
            return [(st, VAdt(dty, 0, (args[0], args[1], FALSE)))]
        if path.startswith("std::ops::Range") and last in ("contains",):
            r = I.deref_all(st, args[0])
            x = I.deref_all(st, args[1])
            if isinstance(r, VAdt) and isinstance(x, Lin):
                p = r.ty.path
                if p == "std::ops::Range":
                    return [(st, D.b_and(D.le(r.fields[0], x), D.lt(x, r.fields[1])))]
                if p == "std::ops::RangeInclusive":
                    return [(st, D.b_and(D.le(r.fields[0], x), D.le(x, r.fields[1])))]
            return None
        if path.startswith("std::cmp::Ordering::"):
            v = I.deref_all(st, args[0])
            if not isinstance(v, VAdt):
                return None
            c = v.variant - 1
            if last == "reverse":
                return [(st, self.ordering(v.ty, -c))]
            if last == "then":
                return [(st, v if c else args[1])]
            if last == "then_with":
                if c:
                    return [(st, v)]
                return I.call_value(fr, st, args[1], [], dty, sp)
            t = {"is_lt": c < 0, "is_le": c <= 0, "is_gt": c > 0, "is_ge": c >= 0, "is_eq": c == 0, "is_ne": c != 0}.get(last)
            if t is not None:
                return [(st, D.boolc(t))]
            return None
        if rpath.endswith("num_bigint::BigInt::sign"):
            a = I.deref_all(st, args[0])
            names = [v["n"] for v in dty.variants]
            if not isinstance(a, Lin) or sorted(names) != ["Minus", "NoSign", "Plus"]:
                return None
            out = []
            for n, c in (("Minus", D.lt(a, num(0))), ("NoSign", D.eq(a, num(0))), ("Plus", D.lt(num(0), a))):
                s = st.assume(c)
                if s is not None:
                    out.append((s, VAdt(dty, names.index(n), ())))
            return out
        if rpath.endswith("num_bigint::BigUint::pow") or rpath.endswith("BigInt::pow"):
            a, b = I.deref_all(st, args[0]), args[1]
            e = self.log2(a) if isinstance(a, Lin) else None
            if e is not None and e.const and isinstance(b, Lin):
                return [(st, D.pow2(b.scale(e.c)) if e.c else num(1))]
            return None
        if path == "std::char::from_u32" or path.endswith("char::methods::<impl char>::from_u32"):
            return None
        if path == "std::char::from_digit" or path.endswith("<impl char>::from_digit"):
            a, r = args
            if isinstance(a, Lin) and isinstance(r, Lin) and r.const and r.c <= 10:
                t, f = st.split(D.lt(a, r))
                out = []
                if t is not None:
                    out.append((t, self.opt(dty, a + 48)))
                if f is not None:
                    out.append((f, self.opt(dty, None)))
                return out
            return None
        mm = re.search(r"<impl char>::(\w+)$", rpath)
        if mm and isinstance(I.deref_all(st, args[0]), Lin):
            a = I.deref_all(st, args[0])
            n = mm.group(1)
            if n == "is_ascii_digit":
                return [(st, D.b_and(D.le(num(48), a), D.le(a, num(57))))]
            if n == "len_utf8" and (D.lin_bounds(a, st.facts)[1] or 999) < 128:
                return [(st, num(1))]
            return None
        if path.endswith("array::from_fn") and dty.k == "array":
            cur = [(st, ())]
            for i in range(dty.d["n"]):
                nx = []
                for s, acc in cur:
                    for s2, v in I.call_value(fr, s, args[0], [num(i)], dty.inner, sp):
                        nx.append((s2, acc + (v,)))
                cur = nx
            return [(s, VArr(acc)) for s, acc in cur]
        mm = re.search(r"array::<impl \[T; N\]>::(\w+)$", rpath)
        if mm:
            v = I.deref_all(st, args[0])
            if mm.group(1) == "map" and isinstance(v, VArr):
                cur = [(st, ())]
                for x in v.items:
                    nx = []
                    for s, acc in cur:
                        for s2, y in I.call_value(fr, s, args[1], [x], dty.inner, sp):
                            nx.append((s2, acc + (y,)))
                    cur = nx
                return [(s, VArr(acc)) for s, acc in cur]
            if mm.group(1) in ("as_slice", "iter"):
                return [(st, args[0])]
        if rpath.endswith("::type_name") or rpath.endswith("size_of"):
            return None
        return None

    # ------------------------------------------------------------------ regex

    def re_captures(self, I, st, fr, args, dty, sp):
        r = I.deref_all(st, args[0])
        s = self.as_str(I, st, args[1])
        if not (isinstance(r, VOp) and r.kind == "regex") or s is None:
            return None
        c, how = self.re_match(r.args[0], s)
        t, f = st.split(c)
        out = []
        if t is not None:
            out.append((t, self.opt(dty, VOp("caps", (r.args[0], s, how)))))
        if f is not None:
            out.append((f, self.opt(dty, None)))
        return out

    def re_match(self, pattern, s):
        try:
            k = text.rel(s, "rx", pattern)[0]
        except rx.Unsupported:
            return D.pred("rxmatch", pattern, s), "part"
        return (TRUE if k == "in" else FALSE if k == "out" else D.pred("rxmatch", pattern, s)), k

    def re_group(self, caps, g):
        """('always'|'never'|'maybe', text or None) of a group, by number or name."""
        pattern, s, how = caps.args
        try:
            n = text.regex(pattern)
            if isinstance(g, str):
                if g not in n.groups:
                    return "never", None
                g = n.groups.index(g) + 1
            elif g == 0:
                return ("always", s) if pattern.startswith("^") and pattern.endswith("$") else ("always", None)
            elif g > len(n.groups):
                return "never", None
            info = _groups(s if text.structured(s) else None, pattern)
        except rx.Unsupported:
            return "maybe", None
        opens, closes, always, never = info[g]
        if never:
            return "never", None
        w = "always" if always else "maybe"
        if not text.structured(s) or len(opens) != 1 or len(closes) != 1 or None in opens or None in closes:
            return w, None
        us = text.units(s)
        i, j = next(iter(opens)), next(iter(closes))
        us = us[i:j]
        if how != "in":
            # where the pattern matches, the group consists of its characters only
            m = _group_class(pattern, g)
            us = [text.narrow(u, m) for u in us]
        return w, text.build(us)

    def re_name(self, I, st, fr, args, dty, sp, required=False):
        caps = I.deref_all(st, args[0])
        g = I.deref_all(st, args[1])
        if isinstance(g, Lin) and g.const:
            g = g.c
        elif isinstance(g, VStr) and all(isinstance(p, str) for p in g.pieces):
            g = "".join(g.pieces)
        else:
            return None
        if not (isinstance(caps, VOp) and caps.kind == "caps"):
            return None

        def wrap(v):
            return v if dty is None else self.opt(dty, v)
        w, x = self.re_group(caps, g)
        if x is None:
            nm = "rxgroup(%s:%s:%r)" % (caps.args[0], g, caps.args[1])
            text.DERIVED[nm] = (caps.args[1], functools.partial(_py_group, caps.args[0], g))
            x = VStr((("txt", nm, _group_class(caps.args[0], g), 0, None),))
        m = VOp("match", (x,))
        if w == "never":
            return [(st, wrap(None))]
        if w == "always":
            return [(st, wrap(m))]
        c = D.pred("rxgroup", caps.args[0], caps.args[1], g)
        t, f = st.split(c)
        return ([(t, wrap(m))] if t is not None else []) + ([(f, wrap(None))] if f is not None else [])


def _split(k, t):
    return t.split(k) if k else None


def _py_group(pattern, g, t):
    from . import wit
    m = wit.py_regex(pattern).search(t)
    return None if m is None else m.group(g)


@functools.lru_cache(maxsize=512)
def _group_class(pattern, g):
    """Characters that can occur in a group."""
    try:
        n = text.regex(pattern)
    except rx.Unsupported:
        return rx.FULL
    if isinstance(g, str):
        g = n.groups.index(g) + 1 if g in n.groups else 0
    if g == 0:
        return rx.FULL
    todo = [y for es in n.eps for y, mk in es if mk == ("open", g)]
    seen, m = set(todo), 0
    while todo:
        x = todo.pop()
        for c, y in n.cls[x]:
            m |= c
            if y not in seen:
                seen.add(y)
                todo.append(y)
        for y, mk in n.eps[x]:
            if mk != ("close", g) and y not in seen:
                seen.add(y)
                todo.append(y)
    return m


@functools.lru_cache(maxsize=4096)
def _groups(s, pattern):
    return rx.groups(text.auto(s) if s is not None else rx.chain([(rx.FULL, 0, None)]), text.regex(pattern))


def UNIT_TY(models):
    for t in models.prog.types:
        if t is not None and t.k == "tuple" and not t.d["ts"]:
            return t
