"""Groups for the algorithms on lists of networks."""
from .cmdgroups import *
from . import core
from .textgroups import canon


def plain_net(I, st, v):
    """(width, base, mask, prefix length or None) of any network value, or None."""
    v = I.deref_all(st, v)
    info = I.prog.net_info
    if not isinstance(v, VAdt) or v.ty.path != info["path"]:
        return None
    b, m = I.deref_all(st, v.fields[info["base"]]), I.deref_all(st, v.fields[info["mask"]])
    if not (I.is_addr(b) and I.is_addr(m)):
        return None
    p = I.deref_all(st, v.fields[info["prefix"]])
    p = p.fields[0] if isinstance(p, VAdt) and p.variant == 1 and isinstance(p.fields[0], Lin) else None
    return I.addr_width(b.ty), I.addr_int(b), I.addr_int(m), p


# ================================================================ ranges as lists of networks

def same_value(I, st, b):
    """Forms of the state known to have the value b."""
    out = [b]
    for k, x in I.observables(st).items():
        if k[-1] == "int" and x not in out and st.facts.ev(D.eq(x, b)) is True:
            out.append(x)
    return out[:4]


def congruent(st, x, y):
    """x = f(.., a, ..) and y = f(.., b, ..) with a = b known"""
    x, y = whole(st.facts, x), whole(st.facts, y)
    if st.facts.ev(D.eq(x, y)) is True:
        return True
    a, b = x.single(), y.single()
    if a is None or b is None or a.kind != b.kind or len(a.args) != len(b.args):
        return False
    for p, q in zip(a.args, b.args):
        if p is q or p == q:
            continue
        if isinstance(p, frozenset) and isinstance(q, frozenset) and a.kind == "and":
            p, q = p - q, q - p
            if len(p) == len(q) == 1 and congruent(st, D.of_atom(*p), D.of_atom(*q)):
                continue
            return False
        if not (isinstance(p, Lin) and isinstance(q, Lin) and congruent(st, p, q)):
            return False
    return True


def one_list(ctx, key, st, a, b, d, fn):
    """The list seen growing is the one returned: as many entries as additions (else nothing is concluded)."""
    if isinstance(a, Lin) and isinstance(b, Lin) and st.facts.ev(D.eq(a, b)) is True:
        return ctx.prove(key, st.facts, D.TRUE, d, where(fn))
    ctx.undecided(key, "%s: %r entries after %r additions" % (d, a, b), where(fn))
    return False


def tile(ctx, I, st, e, cov, first, last, fn, d):
    """Obligations of one block of the cover; returns the first address behind it."""
    n = plain_net(I, st, e)
    key = "range cover"
    if n is None or n[3] is None:
        ctx.undecided(key, "%s: block %r" % (d, e), where(fn))
        return None
    w, b, m, p = n
    full = (1 << w) - 1
    end = b + num(full) - m
    ctx.eq_int(key + ": blocks follow each other without gap or overlap", st.facts, b, cov, d + ": base of the block", where(fn))
    ctx.eq_int(key + ": blocks are networks", st.facts, m, D.mask_word(w, p), d + ": mask of the block", where(fn))
    ctx.prove(key + ": blocks stay inside the range", st.facts, D.le(end, last), "%s: a block ends at %r" % (d, end), where(fn))
    for s, zero in splits(st, D.eq(p, num(0))):
        if zero:
            continue
        pm = D.mask_word(w, p - 1)
        goals = []
        for x in same_value(I, s, b):
            pb = D.bitwise("and", x, pm, w)
            goals.append(D.b_or(D.lt(pb, first), D.b_or(D.lt(pb, x), D.lt(last, pb + num(full) - pm))))
        goal = next((g for g in goals if s.facts.ev(g) is True), goals[0])
        ctx.prove(key + ": blocks are as large as possible", s.facts, goal,
                  "%s: the block with base %r and prefix %r could be doubled" % (d, b, p), where(fn))
    return end + 1


@group("derange", "net_ctor", "net_derived", "order", "cidr_prefix", "cidr_mask")
def g_derange(ctx):
    """A range of addresses becomes the list of largest networks that cover it exactly, in order."""
    fns = {}
    for ty, w in each_addr(ctx):
        fns[ty] = ctx.need([f for f in ctx.prog.find("range_to_subnets") if f.body and ctx.prog.types[f.body["locals"][1]] is ty],
                           "range_to_subnets for %s" % short(ty))
    if ctx.mode != "sound":
        # ranges whose ends differ in three bits only, everything above them arbitrary
        for ty, w in each_addr(ctx):
            for k in (0, 1, w // 2 - 2, w - 4, w - 3):
                h = D.word("h", w - k - 3).scale(1 << (k + 3)) if k + 3 < w else num(0)
                for i in range(8):
                    for j in range(i, 8):
                        if any(o.viol for o in ctx.obs.values()):
                            return
                        derange_from(ctx, ty, w, fns[ty], h + (i << k), h + (j << k) + ((1 << k) - 1), (i + j + k) % 3 == 0,
                                     "range of h*2^%d + %d..%d" % (k + 3, i << k, (j << k) + (1 << k) - 1))
        # ranges that take many networks
        for ty, w in each_addr(ctx):
            for k in (w // 2, min(w, 44)):
                h = D.word("h", w - k).scale(1 << k) if k < w else num(0)
                derange_from(ctx, ty, w, fns[ty], h + 1, h + ((1 << k) - 2), False, "range of h*2^%d + 1..%d" % (k, (1 << k) - 2), 4000)
                if any(o.viol for o in ctx.obs.values()):
                    return
        return
    for ty, w in each_addr(ctx):
        for swap in (False, True):
            derange_from(ctx, ty, w, fns[ty], D.word("a", w), D.word("b", w), swap, "range a..b" if not swap else "range b..a given backwards")


def derange_from(ctx, ty, w, fn, a, b, swap, d, rounds=None):
    I = ctx.engine()
    if rounds:
        I.MAXLOOP = rounds
    derived_contract(ctx, I)
    st = State().assume(D.le(a, b))
    if st is None:
        return
    first, last = a, b
    st.ghost["cov"] = first
    st.ghost["cnt"] = num(0)

    def on_push(I, s, fr, p, v, e):
        if plain_net(I, s, e) is None:
            return s
        g = s.ghost
        if isinstance(g.get("cov"), Lin) and isinstance(g.get("cnt"), Lin):
            if not I.muted:
                I.events.append((s.copy(), v, e, g["cov"], g["cnt"]))
            w, b, m, p = plain_net(I, s, e)
            g["cov"] = b + num((1 << w) - m.c if m.const else 1 << w) - (num(0) if m.const else m)
            g["cnt"] = g["cnt"] + 1
        return s
    def inside(I, fr, h, st0, head, mkc):
        """a network ends by an address, or starts behind it; an address is at most one past another"""
        o0, oh = I.observables(st0), I.observables(head)
        ints = [k for k in oh if k in o0 and k[-1] == "int"]
        cs = []
        for k in oh:
            if k[-1] == "last" and k in o0 and k[:-1] + ("base",) in oh:
                for a in ints:
                    cs.append(mkc(lambda o, k=k, a=a: D.b_or(D.le(o[k], o[a]), D.lt(o[a], o[k[:-1] + ("base",)])), "%s inside or behind %s" % (k, a)))
        for k in ints:
            for a in ints:
                if a != k and oh[k] is not o0[k]:
                    cs.append(mkc(lambda o, k=k, a=a: D.le(o[k], o[a] + 1), "%s<=%s+1" % (k, a)))
        return cs
    I.candidate_hook = inside
    if ctx.mode == "sound":
        I.models.on_push = on_push
        I.MAXOPEN = 0
    evs = len(I.events)
    args = [I.addr_value(ty, x) for x in ((b, a) if swap else (a, b))]
    for s, r in run_all(ctx, I, fn, args, st):
        r = I.deref_all(s, r)
        key = "range cover"
        if not isinstance(r, VSeq):
            ctx.undecided(key, "%s: result %r" % (d, r), where(fn))
            continue
        if r.pre is None:
            cov = first
            for e in r.items:
                cov = tile(ctx, I, s, e, cov, first, last, fn, d)
                if cov is None:
                    break
        else:
            if not one_list(ctx, "range cover: one list", s, I.seq_len(r), s.ghost.get("cnt"), d, fn):
                continue
            for s1, v, e, cov, cnt in I.events[evs:]:
                if not one_list(ctx, "range cover: one list", s1, I.seq_len(v), cnt, d, fn):
                    continue
                tile(ctx, I, s1, e, cov, first, last, fn, d)
            evs = len(I.events)
            cov = s.ghost.get("cov")
        if cov is not None:
            ctx.eq_int(key + ": ends at the end of the range", s.facts, cov, last + 1, d, where(fn))
    ctx.panics(I)


# ================================================================ commands on parsed specifications

BAD = "bad"


def specs_contract(ctx, I, choices):
    """parse_netspec answers for the texts s0, s1, ...: an error, or one of the networks offered for it.
    choices: name -> [(tag, type, address form, mask form, prefix form or None, [facts])]."""
    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name != "parse_netspec":
            return None
        s = I.deref_all(st, args[0])
        n = s.pieces[0][1] if isinstance(s, VStr) and len(s.pieces) == 1 and not isinstance(s.pieces[0], str) else None
        if n not in choices:
            return None
        ok = dty.args[0]
        out = []
        if not isinstance(st.ghost.get("sel", ()), tuple):
            raise Undecided("specifications looked at so far are not known")
        for c in choices[n]:
            known = dict(st.ghost.get("sel", ())).get(n)
            if known is not None and known != (c if c == BAD else c[0]):
                continue
            s2 = st.copy()
            if known is None:
                s2.ghost["sel"] = s2.ghost.get("sel", ()) + ((n, c if c == BAD else c[0]),)
            if c == BAD:
                v = VAdt(dty, 1, (VSym("specerr(%s)" % n, dty.args[1]),))
            else:
                tag, ty, x, m, p, fs = c
                for f in fs:
                    s2 = s2 and s2.assume(f)
                if s2 is None:
                    continue
                w = I.addr_width(ty)
                var = next((i for i, u in enumerate(ok.variants) if [ctx.prog.types[f["t"]] for f in u["f"]][:1] == [ty]), None)
                if var is None or len(ok.variants[var]["f"]) != 2:
                    raise Undecided("shape of network specifications")
                nty = ctx.prog.types[ok.variants[var]["f"][1]["t"]]
                b = D.bitwise("and", x, m, w)
                po = VAdt(I.prog.net_info["opt_ty"], 1, (p,)) if p is not None else VAdt(I.prog.net_info["opt_ty"], 0, ())
                v = VAdt(dty, 0, (VAdt(ok, var, (I.addr_value(ty, x), I.mk_net(nty, b, m, po))),))
            if I.models.on_parse:
                s2 = I.models.on_parse(I, s2, n, c)
            out.append((s2, v))
        return out
    I.models.contracts.insert(0, contract)


def net_choices(ctx, n, kinds=("prefix", "mixed"), families=(32, 128)):
    """Networks of either family with a contiguous or a mixed mask."""
    out = []
    for ty, w in each_addr(ctx):
        if w not in families:
            continue
        x = D.word("x.%s" % n, w)
        for k in kinds:
            if k == "prefix":
                p = D.sym("p.%s" % n, 0, w)
                out.append(("%s %d" % (k, w), ty, x, D.mask_word(w, p), p, []))
            else:
                m = D.word("m.%s" % n, w)
                q = pop_of(m, w)
                out.append(("%s %d" % (k, w), ty, x, m, None, [D.b_not(D.pred("contig", m)), D.le(num(1), q), D.le(q, num(w - 1))]))
    return out


def small_masks(w):
    """Masks with at most three host bits, contiguous and mixed, in various places."""
    full = (1 << w) - 1
    for hosts in ((), (0,), (0, 1), (0, 1, 2), (1,), (w - 1,), (0, w - 1), (w // 2 - 1, w // 2), (3, w // 2, w - 1), (7, 8), (0, w // 2)):
        m = full
        for h in hosts:
            m &= ~(1 << h)
        yield m


def large_masks(w):
    """Masks with few network bits."""
    full = (1 << w) - 1
    return [0, 1 << (w - 1), 0xff, 1, full >> 1, full & 0x5555555555555555aaaaaaaaaaaaaaaa]


def small_choices(ctx, n, w, m):
    ty = next(t for t, v in each_addr(ctx) if v == w)
    p = next((num(k) for k in range(w + 1) if m == ((1 << k) - 1) << (w - k)), None)
    return [("mask %x" % m, ty, D.word("x.%s" % n, w), num(m), p, [])]


def host_order(st, w, m, p, x):
    """The address as it is ordered within networks with mask m: network bits first."""
    return x if p is not None else C.unravel(st, x, m, w)


def from_host_order(st, w, m, p, u):
    return u if p is not None else C.weave(st, u, m, w)


class Listing:
    """What is printed is, for one specification after the other, all its addresses in order."""

    def __init__(self, ctx, I, names, choices, fn):
        self.ctx, self.I, self.names, self.choices, self.fn = ctx, I, names, choices, fn
        I.models.on_print = self.on_print
        I.models.on_parse = lambda I, st, n, c: self.advance(st)

    def start(self, st):
        st = st.copy()
        st.ghost.update(sel=(), idx=-1, U=None, errs=0)
        return st

    def pick(self, st, i):
        tag = dict(st.ghost["sel"]).get(self.names[i])
        return tag, next((c for c in self.choices[self.names[i]] if c != BAD and c[0] == tag), None)

    def bounds(self, st, c):
        tag, ty, x, m, p, fs = c
        w = self.I.addr_width(ty)
        b = D.bitwise("and", x, m, w)
        return host_order(st, w, m, p, b), host_order(st, w, m, p, b + num((1 << w) - 1) - m)

    def advance(self, st):
        g = st.ghost
        while isinstance(g.get("idx"), int) and isinstance(g.get("sel"), tuple):
            if g["U"] is not None:
                c = self.pick(st, g["idx"])[1]
                if c is None or not isinstance(g["U"], Lin) or st.facts.ev(D.eq(g["U"], self.bounds(st, c)[1] + 1)) is not True:
                    break
            if g["idx"] + 1 >= len(self.names):
                g["U"], g["idx"] = None, len(self.names)
                break
            tag, c = self.pick(st, g["idx"] + 1)
            if tag is None:
                g["U"] = None
                break
            g["idx"] += 1
            g["U"] = self.bounds(st, c)[0] if c is not None else None
        return st

    def on_print(self, I, st, fr, stream, s, sp):
        r = st.copy()
        if stream == "err":
            r.ghost["errs"] = 1
            return r
        r = self.advance(r)
        if not I.muted:
            I.events.append((r.copy(), s))
        if isinstance(r.ghost.get("U"), Lin):
            r.ghost["U"] = r.ghost["U"] + 1
        return r

    def check_events(self, start, d):
        ctx, I, fn = self.ctx, self.I, self.fn
        key = "listing"
        for st, s in I.events[start:]:
            g = st.ghost
            t = plain(I, st, s)
            if not isinstance(g.get("idx"), int) or g.get("U") is not None and not isinstance(g["U"], Lin):
                ctx.undecided(key, "%s: position in the listing is not known at a print" % d, where(fn))
                continue
            if g["U"] is None:
                ctx.fail(key + ": nothing else is printed", st.facts, "%s: prints %r where no address is due" % (d, t), where(fn))
                continue
            tag, ty, x, m, p, fs = self.pick(st, g["idx"])[1]
            w = I.addr_width(ty)
            last = self.bounds(st, self.pick(st, g["idx"])[1])[1]
            ctx.prove(key + ": stays inside the network", st.facts, D.le(g["U"], last), "%s: more addresses than the network has (%s)" % (d, tag), where(fn))
            want = cat(addr_piece(w, from_host_order(st, w, m, p, g["U"])), lit("\n"))
            if want.pieces != t.pieces:
                v = t.pieces[0] if len(t.pieces) == 2 and t.pieces[1] == "\n" else None
                if v is not None and not isinstance(v, str) and v[0] == "addr" and v[1] == w:
                    y = from_host_order(st, w, m, p, g["U"])
                    goal = D.eq(whole(st.facts, v[2]), whole(st.facts, y))
                    if congruent(st, v[2], y):
                        goal = D.TRUE
                    ctx.prove(key + ": the next address", st.facts, goal, "%s: prints %r, next address is %r (%s)" % (d, t, want, tag), where(fn))
                    continue
            eq_text(ctx, key + ": the next address", st.facts, t, want, "%s (%s)" % (d, tag), where(fn))

    def check_end(self, st, d):
        ctx, fn = self.ctx, self.fn
        st = self.advance(st.copy())
        g = st.ghost
        if not isinstance(g.get("idx"), int) or g.get("U") is not None and not isinstance(g["U"], Lin):
            ctx.undecided("listing: complete", "%s: position in the listing is not known at the end" % d, where(fn))
            return
        if g["U"] is not None:
            c = self.pick(st, g["idx"])[1]
            ctx.eq_int("listing: complete", st.facts, g["U"], self.bounds(st, c)[1] + 1, "%s: addresses of %s listed so far end before" % (d, self.names[g["idx"]]), where(fn))
            return
        rest = [n for n in self.names if dict(g["sel"]).get(n) is None]
        ctx.prove("listing: complete", st.facts, D.boolc(not rest), "%s: specifications %s are never looked at" % (d, rest), where(fn))


def cond_candidates(I, fr, h, st0, head, mkc):
    """a <= b + 1; and, for every flag of the state, equality of two values unless the flag has a given value"""
    o0, oh = I.observables(st0), I.observables(head)
    ints = [k for k in oh if k in o0 and (k[-1] == "int" or k[0] == ("ghost", "U"))]
    cs = []
    for k in ints:
        for a in ints:
            if a != k and (oh[k] is not o0[k] or oh[a] is not o0[a]):
                cs.append(mkc(lambda o, k=k, a=a: D.le(o[k], o[a] + 1), "%s<=%s+1" % (k, a)))
    flags = list(flag_obs(I, head))
    u = (("ghost", "U"),)
    if u in oh:
        for path in flags:
            for k in ints:
                if k == u:
                    continue
                for dlt in (0, 1):
                    for neg in (False, True):
                        def c(st, path=path, k=k, dlt=dlt, neg=neg):
                            o = I.observables(st)
                            f = dict(flag_obs(I, st)).get(path) if path in flag_obs(I, st) else None
                            if f is None or u not in o or k not in o:
                                return None
                            return D.b_or(f if not neg else D.b_not(f), D.eq(o[u], o[k] + dlt))
                        c.label = "%s%s or U==%s+%d" % ("not " if neg else "", path, k, dlt)
                        cs.append(c)
    return cs


def flag_obs(I, st):
    out = {}

    def go(v, path, depth):
        if depth > 3:
            return
        if isinstance(v, BF):
            out[path] = v
        elif isinstance(v, VAdt) and not I.is_addr(v):
            for i, x in enumerate(v.fields):
                go(x, path + (i,), depth + 1)
    for k, v in st.store.items():
        go(v, (k,), 0)
    return out


@group("enumerate", "perm", "net_derived", "arith", "disp4", "disp6", "order")
def g_enumerate(ctx):
    """Listing networks prints every address of every network once, in host order."""
    fn = ctx.need([f for f in ctx.prog.find("enumerate") if f.body and f.full.startswith("cmds::")], "the enumerate command")

    def go(choices, d, rounds=None):
        I = ctx.engine()
        I.MAXLOOP = rounds or I.MAXLOOP
        derived_contract(ctx, I)
        arith_contract(ctx, I)
        names = sorted(choices)
        specs_contract(ctx, I, choices)
        L = Listing(ctx, I, names, choices, fn)
        I.candidate_hook = cond_candidates
        if ctx.mode == "sound":
            I.MAXOPEN = 0
        args = VRef(VSeq(None, (lit("ripcalc"), lit("--enumerate")) + tuple(txt(x) for x in names)))
        ev = len(I.events)
        rs = run_all(ctx, I, fn, [args], L.start(State()))
        L.check_events(ev, d)
        for s, r in rs:
            L.check_end(s, d)
            bad = any(t == BAD for n, t in s.ghost["sel"]) if isinstance(s.ghost.get("sel"), tuple) else None
            if bad is None or not isinstance(s.ghost.get("errs"), int):
                ctx.undecided("listing: errors", "%s: not known" % d, where(fn))
                continue
            ctx.prove("listing: error output iff a specification is bad", s.facts, D.boolc(bool(s.ghost["errs"]) == bad), "%s: %s" % (d, s.ghost["sel"]), where(fn))
            if isinstance(r, Lin):
                ctx.eq_int("listing: exit status", s.facts, r, num(1 if bad else 0), "%s: %s" % (d, s.ghost["sel"]), where(fn))
            else:
                ctx.undecided("listing: exit status", "%r" % (r,), where(fn))
        ctx.panics(I)
    if ctx.mode != "sound":
        for ty, w in each_addr(ctx):
            for m in small_masks(w):
                go({"s0": small_choices(ctx, "s0", w, m)}, "a network with mask %x" % m)
                if any(o.viol for o in ctx.obs.values()):
                    return
        for ty, w in each_addr(ctx):
            for m in large_masks(w):
                go({"s0": small_choices(ctx, "s0", w, m)}, "a network with mask %x" % m, 20)
            go({"s0": small_choices(ctx, "s0", w, (1 << w) - 1024)}, "a network of 1024 addresses")
        for w in (32, 128):
            c = {"s%d" % i: [BAD] + small_choices(ctx, "s%d" % i, w, ((1 << w) - 1) ^ (1 << i)) for i in range(3)}
            go(c, "three networks")
        return
    go({"s0": [BAD] + net_choices(ctx, "s0")}, "one network")
    go({"s0": [BAD] + net_choices(ctx, "s0"), "s1": [BAD] + net_choices(ctx, "s1")}, "two networks")
    go({"s%d" % i: [BAD] + small_choices(ctx, "s%d" % i, w, ((1 << w) - 1) ^ (1 << i)) for i, w in enumerate((32, 128, 32))}, "three networks")
    go({"s%d" % i: small_choices(ctx, "s%d" % i, 32, 0xffffffff) for i in range(10)}, "ten networks")
    for ty, w in each_addr(ctx):
        go({"s0": small_choices(ctx, "s0", w, (1 << w) - 1024)}, "a network of 1024 addresses")


# ================================================================ resizing

def mask_choices(ctx, tag, w):
    """Masks of either kind: [(name, form, prefix form or None, facts)]."""
    q = D.sym("q.%s" % tag, 0, w)
    n = D.word("n.%s" % tag, w)
    k = pop_of(n, w)
    return [("contiguous", D.mask_word(w, q), q, []),
            ("mixed", n, None, [D.b_not(D.pred("contig", n)), D.le(num(1), k), D.le(k, num(w - 1))])]


class Resize:
    """Networks made by resizing, against their definition in host order (network bits first)."""

    def __init__(self, ctx, I, fn, d, w, net, new):
        self.ctx, self.I, self.fn, self.d, self.w = ctx, I, fn, d, w
        self.b, self.m, self.p = net
        self.n, self.q = new
        self.full = (1 << w) - 1

    def nb(self):
        """network bits of the old and the new mask"""
        return (pop_of(self.m, self.w) if self.p is None else self.p, pop_of(self.n, self.w) if self.q is None else self.q)

    def start(self, st):
        self.u0 = host_order(st, self.w, self.m, self.p, self.b)
        self.ulast = host_order(st, self.w, self.m, self.p, self.b + num(self.full) - self.m)
        self.step = num(self.full) - D.mask_word(self.w, self.nb()[1]) + 1
        st = st.copy()
        st.ghost["U"], st.ghost["cnt"] = self.u0, num(0)
        return st

    def aligned(self, u):
        k = D.mask_word(self.w, self.nb()[1])
        return D.bitwise("and", u, k, self.w) or D.bitwise("and", D.seg(u, 0, self.w), k, self.w)

    def on_push(self, I, st, fr, ptr, before, e):
        n = plain_net(I, st, e)
        g = st.ghost
        if n is None or not isinstance(g.get("U"), Lin) or not isinstance(g.get("cnt"), Lin):
            return st
        st = st.copy()
        g = st.ghost
        w, b, m, p = n
        U = g["U"]
        f = st.facts
        if f.ev(D.le(num(0), U)) is True and f.ev(D.le(U, num(self.full))) is True:
            # U started as, and only ever grew by, a multiple of the new network size
            al = self.aligned(U)
            if al is not None and f.ev(D.le(self.nb()[0], self.nb()[1])) is True:
                st = st.assume(D.eq(al, U))
                if st is None:
                    return None
                r = host_order(st, w, m, p, b)
                if congruent(st, r, al):
                    st = st.assume(D.eq(r, U))
                    if st is None:
                        return None
                # so did the end of the old network
                if st.facts.ev(D.le(U, self.ulast)) is True:
                    st = st.assume(D.le(U + self.step, self.ulast + 1))
                    if st is None:
                        return None
                g = st.ghost
        if not I.muted:
            I.events.append((st.copy(), before, e, U, g["cnt"]))
        st.ghost["U"] = U + self.step
        st.ghost["cnt"] = g["cnt"] + 1
        return st

    def one(self, st, e, u, key):
        """the network at position u of the host order"""
        ctx, w, d, fn = self.ctx, self.w, self.d, where(self.fn)
        n = plain_net(self.I, st, e)
        if n is None or n[0] != w:
            ctx.undecided(key, "%s: network %r" % (d, e), fn)
            return
        w, b, m, p = n
        ctx.eq_int(key + ": the new mask is used", st.facts, m, self.n, d, fn)
        if (p is None) != (self.q is None):
            ctx.undecided(key + ": the new mask is used", "%s: prefix of %r" % (d, e), fn)
        elif p is not None:
            ctx.eq_int(key + ": the new prefix length is used", st.facts, p, self.q, d, fn)
        want = from_host_order(st, w, self.n, self.q, u)
        al = self.aligned(u)
        got = host_order(st, w, self.n, self.q, b)
        if congruent(st, b, want) or al is not None and congruent(st, got, al) and congruent(st, al, u):
            ctx.prove(key + ": base address", st.facts, D.TRUE, d, fn)
        else:
            ctx.eq_int(key + ": base address", st.facts, b, want, d, fn)


@group("resize", "perm", "net_ctor", "net_derived", "bitcount", "order", "cidr_mask", "cidr_prefix")
def g_resize(ctx):
    """Resizing yields the one larger or equal network, or all the smaller ones, in host order."""
    fns = {}
    for ty, w in each_addr(ctx):
        fns[ty] = ctx.need([f for f in ctx.prog.find("resize_network") if f.body and ctx.prog.types[f.body["locals"][2]] is ty],
                           "resize_network for %s" % short(ty))

    def go(ty, w, net, new, d, rounds=20):
        I = ctx.engine()
        derived_contract(ctx, I)
        arith_contract(ctx, I)
        fn = fns[ty]
        x, m, p, fs = net
        n, q, gs = new
        st = State()
        for f in fs + gs:
            st = st and st.assume(f)
        if st is None:
            return
        b = D.bitwise("and", x, m, w)
        nty = ctx.prog.types[fn.body["locals"][1]]
        po = VAdt(I.prog.net_info["opt_ty"], 1, (p,)) if p is not None else VAdt(I.prog.net_info["opt_ty"], 0, ())
        R = Resize(ctx, I, fn, d, w, (b, m, p), (n, q))
        st = R.start(st)
        I.models.on_push = R.on_push
        if ctx.mode != "sound":
            I.MAXLOOP = rounds
        else:
            I.MAXOPEN = 0
            I.candidate_hook = cond_candidates
        ev = len(I.events)
        old, neu = R.nb()
        whole_lists = 0
        for s, r in run_all(ctx, I, fn, [I.mk_net(nty, b, m, po), I.addr_value(ty, n)], st):
            r = I.deref_all(s, r)
            k = I.deref_all(s, r.items[1]) if isinstance(r, VTuple) and len(r.items) == 2 else None
            v = I.deref_all(s, r.items[0]) if k is not None else None
            if not isinstance(k, VAdt) or not isinstance(v, VSeq):
                ctx.undecided("resize", "%s: result %r" % (d, r), where(fn))
                continue
            name = k.ty.variants[k.variant]["n"]
            cond = {"Less": D.lt(neu, old), "Equal": D.eq(neu, old), "Greater": D.lt(old, neu)}[name]
            ctx.prove("resize: kind of result", s.facts, cond, "%s: reports %s" % (d, name), where(fn))
            if name != "Greater":
                key = "resize to a %s network" % {"Less": "larger", "Equal": "same-sized"}[name]
                if v.pre is not None:
                    ctx.undecided(key, "%s: result %r" % (d, v), where(fn))
                    continue
                ctx.prove(key + ": exactly one network", s.facts, D.boolc(len(v.items) == 1), "%s: %d networks" % (d, len(v.items)), where(fn))
                for e in v.items[:1]:
                    R.one(s, e, D.bitwise("and", R.u0, D.mask_word(w, neu), w) if name == "Less" else R.u0, key)
                continue
            key = "resize to smaller networks"
            if v.pre is None:
                whole_lists += 1
                U = R.u0
                for e in v.items:
                    ctx.prove(key + ": no more than fit", s.facts, D.le(U, R.ulast), "%s: network %d" % (d, len(v.items)), where(fn))
                    R.one(s, e, U, key)
                    U = U + R.step
            else:
                U = s.ghost.get("U")
                if not one_list(ctx, key + ": one list", s, I.seq_len(v), s.ghost.get("cnt"), d, fn):
                    continue
            ctx.eq_int(key + ": complete", s.facts, U, R.ulast + 1, d, where(fn))
        # lists that were never returned whole (sound pass: because the loop is summarised)
        for s1, v1, e, u, cnt in I.events[ev:] if ctx.mode == "sound" or not whole_lists else ():
            s1 = s1.assume(D.lt(old, neu))
            if s1 is None:
                continue
            key = "resize to smaller networks"
            if not one_list(ctx, key + ": one list", s1, I.seq_len(v1), cnt, d, fn):
                continue
            ctx.prove(key + ": no more than fit", s1.facts, D.le(u, R.ulast), d, where(fn))
            R.one(s1, e, u, key)
        ctx.panics(I)
    for ty, w in each_addr(ctx):
        if ctx.mode != "sound":
            pf = lambda z: next((num(k) for k in range(w + 1) if z == ((1 << k) - 1) << (w - k)), None)
            full = (1 << w) - 1
            for m in small_masks(w):
                low = (m & -m, (m & (m - 1)) & -(m & (m - 1)))
                xs = [("lowest network bit clear", D.bitwise("and", D.word("x", w), num(full - low[0]), w)),
                      ("lowest network bits 01", D.bitwise("and", D.word("x", w), num(full - low[0] - low[1]), w) + low[0]),
                      ("all ones", num(full))]
                for i, n in enumerate(small_masks(w)):
                    for xn, x in xs:
                        if i % 3 and xn[-1] == "1":
                            continue
                        go(ty, w, (x, num(m), pf(m), []), (num(n), pf(n), []), "from mask %x to mask %x, %s" % (m, n, xn))
                    if any(o.viol for o in ctx.obs.values()):
                        return
            # many networks
            go(ty, w, (D.word("x", w), num(full - 1023), num(w - 10), []), (num(full), num(w), []), "into 1024 networks", 1100)
            go(ty, w, (D.word("x", w), num(full - 2047), num(w - 11), []), (num(full - 7), num(w - 3), []), "into 256 networks of eight", 300)
            continue
        for tag, ty1, x, m, p, fs in net_choices(ctx, "net", families=(w,)):
            for nm, n, q, gs in mask_choices(ctx, "new", w):
                go(ty, w, (x, m, p, fs), (n, q, gs), "%s network to %s mask" % (tag, nm))


# ================================================================ minimizing lists of networks

class Window:
    """Networks h*2^(k+3) + v*2^k with the mask fixed in the bits above, m in the three bits and zero below: each is a set
    of the eight blocks of 2^k addresses starting at h*2^(k+3).  A second window (blocks 8..15) begins `far` behind it."""

    def __init__(self, w, k, far=None):
        self.w, self.k, self.far = w, k, far
        self.full = (1 << w) - 1
        self.above = self.full >> (k + 3) << (k + 3)
        if far is None:
            self.h = D.word("h", w - k - 3).scale(1 << (k + 3)) if k + 3 < w else num(0)
        else:
            self.h = D.bitwise("and", D.word("h", w), num(self.above & ~(1 << far)), w)

    def cubes(self, contiguous):
        """(v, m): blocks v of 0..7 (or 8..15) under mask m"""
        for m in (7, 6, 4, 0) if contiguous else (5, 3, 2, 1):
            if m != 7 and m & 1 and self.k:
                continue        # a host part below a network bit only in the lowest window
            for v in range(16 if self.far is not None else 8):
                if v & ~m & 7 == 0:
                    yield v, m

    contiguous = (0, 4, 6, 7)

    @staticmethod
    def cover(blocks):
        return cidr_cover(blocks)

    @staticmethod
    def blocks(v, m):
        return frozenset(x + (v & 8) for x in range(8) if x & m == v & 7)

    def base(self, v):
        return self.h + ((v & 7) << self.k) + ((1 << self.far) if v & 8 else 0)

    def mask(self, m):
        return self.above + (m << self.k)

    def prefix(self, m):
        x = self.mask(m)
        return next((num(q) for q in range(self.w + 1) if x == self.full >> (self.w - q) << (self.w - q)), None)

    def back(self, st, n):
        """(v, m) of a network value in the window, False when it is outside, None when not decided"""
        w, b, m, p = n
        if not m.const:
            return None
        if w != self.w or m.c & self.above != self.above or m.c & ((1 << self.k) - 1):
            return False
        mm = m.c >> self.k & 7
        for v in range(16 if self.far is not None else 8):
            r = st.facts.ev(D.eq(b, self.base(v)))
            if r is True:
                return (v, mm) if v & ~mm & 7 == 0 else False
            if r is None:
                return None
        return False


class Run(Window):
    """Networks of single blocks h*2^(k+n) + v*2^k, v below 2^n."""

    def __init__(self, w, k, n):
        self.w, self.k, self.n, self.far = w, k, n, None
        self.full = (1 << w) - 1
        self.top = (1 << n) - 1
        self.above = self.full >> (k + n) << (k + n)
        self.h = D.word("h", w - k - n).scale(1 << (k + n)) if k + n < w else num(0)
        self.contiguous = tuple(self.top >> i << i for i in range(n + 1))

    def blocks(self, v, m):
        return frozenset(x for x in range(self.top + 1) if x & m == v & self.top)

    def base(self, v):
        return self.h + (v << self.k)

    def back(self, st, n):
        w, b, m, p = n
        if not m.const:
            return None
        if w != self.w or m.c & self.above != self.above or m.c & ((1 << self.k) - 1):
            return False
        mm = m.c >> self.k & self.top
        for v in range(self.top + 1):
            r = st.facts.ev(D.eq(b, self.base(v)))
            if r is True:
                return (v, mm) if v & ~mm & self.top == 0 else False
            if r is None:
                return None
        return False

    def cover(self, blocks):
        out, x = [], 0
        while x <= self.top:
            m = next((m for m in reversed(self.contiguous) if x & m == x and self.blocks(x, m) <= blocks), None)
            if m is None:
                x += 1
            else:
                out.append((x, m))
                x += len(self.blocks(x, m))
        return out


def cidr_cover(blocks):
    """The fewest aligned power-of-two runs covering exactly the given blocks of 0..7 and 8..15."""
    out, x = [], 0
    while x < 16:
        for size, m in ((8, 0), (4, 4), (2, 6), (1, 7)):
            if x % size == 0 and all(y in blocks for y in range(x, x + size)):
                out.append((x, m))
                x += size
                break
        else:
            x += 1
    return out


def some_lists(xs, thorough):
    """Lists of members of xs: all of length 1 and 2, a spread of longer ones."""
    xs = list(xs)
    n = len(xs)
    yield ()
    for a in xs:
        yield (a,)
    for a in xs:
        for b in xs:
            yield (a, b)
    r = 12345
    for ln, cnt in ((3, 40 if not thorough else 400), (4, 30 if not thorough else 300), (5, 20 if not thorough else 200), (8, 6 if not thorough else 60), (14, 4 if not thorough else 40)):
        for _ in range(cnt):
            pick = []
            for _ in range(ln):
                r = (r * 1103515245 + 12345) & 0x7fffffff
                pick.append(xs[(r >> 8) % n])
            yield tuple(pick)


def long_lists():
    """Single blocks, many of which cannot be joined."""
    yield tuple((v, 7) for v in range(16))
    yield tuple((v, 7) for v in (0, 3, 4, 7, 8, 11, 12, 15))
    yield tuple((v, 7) for v in (14, 15, 8, 11, 4, 7, 0, 3))
    yield tuple((v, 7) for v in (1, 2, 5, 6, 8, 11, 14, 15, 9))
    yield tuple((v * 5 % 16, 7) for v in range(14))
    yield tuple((v, 7) for v in (0, 3, 4, 7, 9, 10, 12, 13))
    yield tuple((v, 7) for v in (2, 1, 1, 5, 6, 6, 9, 10, 13, 14, 15)) + ((8, 7), (12, 6))


@group("minimize", "net_ctor", "net_rel", "net_derived", "order", "bitcount", "bitops", "cidr_mask", "cidr_prefix", "perm", "arith")
def g_minimize(ctx):
    """Minimizing keeps the set of addresses; of contiguous networks, the shortest list remains, in order."""
    fns = {}
    for ty, w in each_addr(ctx):
        fns[ty] = ctx.need([f for f in ctx.prog.find("minimize_subnets") if f.body and ctx.prog.types[f.body["locals"][1]].args[0].args[0] is ty],
                           "minimize_subnets for %s" % short(ty))

    def go(ty, W, kind, lst, order):
        fn = fns[ty]
        I = ctx.engine()
        I.hash_order = order
        I.MAXLOOP, I.MAXUNDEC, I.cap_loop = 60, 4000, 64
        derived_contract(ctx, I)
        arith_contract(ctx, I)
        ctor_contract(ctx, I)
        nty = ctx.prog.types[fn.body["locals"][1]].args[0]
        d = "IPv%d, 2^%d blocks, %s" % (4 if W.w == 32 else 6, W.k, " ".join("%s/%s" % (bin(v)[2:], bin(8 + m)[3:]) for v, m in lst[:16]) + (" ... (%d)" % len(lst) if len(lst) > 16 else ""))
        nets = []
        for v, m in lst:
            p = W.prefix(m)
            po = VAdt(I.prog.net_info["opt_ty"], 1, (p,)) if p is not None else VAdt(I.prog.net_info["opt_ty"], 0, ())
            nets.append(I.mk_net(nty, W.base(v), num(W.mask(m)), po))
        want = frozenset().union(*(W.blocks(v, m) for v, m in lst))
        for s, r in run_all(ctx, I, fn, [VSeq(None, tuple(nets))], State()):
            r = I.deref_all(s, r)
            if not isinstance(r, VSeq) or r.pre is not None:
                ctx.undecided("minimize", "%s: result %r" % (d, r), where(fn))
                continue
            out = []
            for e in r.items:
                n = plain_net(I, s, e)
                out.append(W.back(s, n) if n is not None else None)
            if None in out:
                ctx.undecided("minimize", "%s: network %r" % (d, r.items[out.index(None)]), where(fn))
                continue
            d2 = "%s become %s" % (d, r)
            same = False not in out and frozenset().union(*(W.blocks(v, m) for v, m in out)) == want
            if not ctx.prove("minimize: the same addresses as before", s.facts, D.boolc(same), d2, where(fn)):
                continue
            ctx.prove("minimize: ordered by base address, then mask, without duplicates", s.facts, D.boolc(all(a < b for a, b in zip(out, out[1:]))), d2, where(fn))
            if kind == "contiguous":
                ctx.prove("minimize: the fewest networks", s.facts, D.boolc(len(out) == len(W.cover(want))), d2, where(fn))
                ctx.prove("minimize: contiguous networks stay contiguous", s.facts, D.boolc(all(m in W.contiguous for v, m in out)), d2, where(fn))
            else:
                low = lambda m: m & -m
                ctx.prove("minimize: neighbouring networks are joined", s.facts,
                          D.boolc(not any(m == m2 and m and v ^ v2 == low(m) for v, m in out for v2, m2 in out)), d2, where(fn))
                b = [W.blocks(v, m) for v, m in out]
                ctx.prove("minimize: contained networks are dropped", s.facts, D.boolc(not any(x < y for x in b for y in b)), d2, where(fn))
        ctx.panics(I)
    for ty, w in each_addr(ctx):
        for k in (0, w // 2 - 1, w - 3):
            W = Window(w, k)
            xs = list(W.cubes(True))
            for i, lst in enumerate(some_lists(xs, core.TIER == "thorough")):
                go(ty, W, "contiguous", lst, i % 2)
                if any(o.viol for o in ctx.obs.values()):
                    return
        for k, far in ((0, w - 1), (w // 2 - 5, w // 2 + 1), (0, 4)):
            W = Window(w, k, far)
            xs = list(W.cubes(True))
            for lst in long_lists():
                go(ty, W, "contiguous", lst, k % 2)
            for i, lst in enumerate(some_lists(xs, core.TIER == "thorough")):
                if i % (3 if far == w - 1 else 7) == 0:
                    go(ty, W, "contiguous", lst, i // 3 % 2)
                    if any(o.viol for o in ctx.obs.values()):
                        return
        for k, n in ((0, 32), (w // 2 - 3, 27)):
            W = Run(w, k, 5)
            go(ty, W, "contiguous", [(v * 7 % 32, 31) for v in range(n)], 0)
            if any(o.viol for o in ctx.obs.values()):
                return
        W = Window(w, 0)
        for i, lst in enumerate(some_lists(list(W.cubes(True)) + list(W.cubes(False)), core.TIER == "thorough")):
            if i % 3 == 0:
                go(ty, W, "mixed", lst, i // 3 % 2)
                if any(o.viol for o in ctx.obs.values()):
                    return


# ================================================================ splitting a network

def report_contract(ctx, I):
    """The report on a network stands as one mark in the output (its text is shown by the group report)."""
    if not allowed(ctx, "report"):
        return

    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name not in ("output_ipv4_network", "output_ipv6_network") or "out" not in st.ghost:
            return None
        n = plain_net(I, st, args[0])
        a = I.deref_all(st, args[1])
        if n is None or not isinstance(a, VAdt) or not isinstance(st.ghost["reports"], tuple):
            return None
        s = st.copy()
        x = I.deref_all(st, a.fields[0]) if a.variant == 1 else None
        k = len(s.ghost["reports"])
        s.ghost["reports"] = s.ghost["reports"] + ((n, x),)
        s.ghost["out"] = cat(s.ghost["out"], lit("{report %d}\n" % k))
        return [(s, UNIT)]
    I.models.contracts.insert(0, contract)


def range_contract(ctx, I, marks):
    """A range becomes a list of networks (shown by the group derange); here two arbitrary ones stand for them."""
    if not allowed(ctx, "range"):
        return

    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name != "range_to_subnets" or len(args) != 2 or "ranges" not in st.ghost:
            return None
        a, b = (I.deref_all(st, x) for x in args)
        if not (I.is_addr(a) and I.is_addr(b)) or not isinstance(st.ghost["ranges"], tuple):
            return None
        s = st.copy()
        s.ghost["ranges"] = s.ghost["ranges"] + ((I.addr_int(a), I.addr_int(b)),)
        return [(s, VSeq(None, marks(I, dty.args[0])))]
    I.models.contracts.insert(0, contract)


def numbers_contract(I, numbers):
    """The texts c0, c1, ... read as numbers: name -> [None (unreadable) or form]."""
    def on_number(I, st, s, t, dty):
        n = s.pieces[0][1] if len(s.pieces) == 1 and not isinstance(s.pieces[0], str) and s.pieces[0][0] == "txt" else None
        if n not in numbers:
            return None
        out = []
        known = dict(st.ghost.get("nums", ()))
        for v in numbers[n]:
            if n in known and known[n] != v:
                continue
            s2 = st.copy()
            if n not in known:
                s2.ghost["nums"] = s2.ghost.get("nums", ()) + ((n, v),)
            if v is None:
                out.append((s2, VAdt(dty, 1, (VSym("numerr(%s)" % n, dty.args[1]),))))
                continue
            if t.path.endswith("BigUint"):
                b, a = s2.split(D.lt(v, num(0)))
                if b is not None:
                    out.append((b, VAdt(dty, 1, (VSym("numerr(%s)" % n, dty.args[1]),))))
                if a is None:
                    continue
                s2 = a
            out.append((s2, VAdt(dty, 0, (v,))))
        return out
    I.models.on_number = on_number


def hosts(w, p):
    return (1 << (w - p)) - 2


def count_class(w, p, name):
    """All numbers of hosts for which the prefix length p is the longest one that suffices (None: no network does)."""
    if p is None:
        return D.sym(name, hosts(w, 0) + 1, None)
    return D.sym(name, max(0, hosts(w, p + 1) + 1) if p < w else 0, hosts(w, p))


def counts(w, l, mode):
    """Numbers of hosts that need the prefix lengths l: two of one class in any order, more of them equal or ordered."""
    out = []
    for i, p in enumerate(l):
        c = count_class(w, p, "c%d" % i)
        same = [j for j, q in enumerate(l) if q == p]
        if p is not None and len(same) > 2:
            lo, hi = max(0, hosts(w, p + 1) + 1), hosts(w, p)
            k = same.index(i)
            n = hi - lo + 1
            if mode or n < len(same):
                c = D.sym("c%d" % same[0], lo, hi)
            else:
                c = D.sym("c%d" % i, lo + n * k // len(same), lo + n * (k + 1) // len(same) - 1)
        out.append(c)
    return out


def split_cases(w, thorough):
    """(parent prefix, [needed prefix or None, ...])"""
    ps = [p for p in range(w)]
    for p in ps:
        for q in sorted({max(0, p - 3), p, min(w, p + 2), 0}):
            yield q, [p]
    yield 24, [None]
    yield 0, [None]
    yield w - 12, [w - 4] * 40
    yield w - 12, [w - 5, w - 6, w - 5, w - 4, w - 6, w - 5, w - 5, w - 4, w - 6, w - 7, w - 4, w - 5]
    some = [0, 1, 2, 3, 8, w // 2 - 1, w // 2, w // 2 + 1, w - 9, w - 8, w - 3, w - 2, w - 1]
    for a in some:
        for b in some:
            yield max(0, min(a, b) - 1), [a, b]
            if abs(a - b) < 3:
                yield min(a, b), [a, b]
    for a in (1, w // 2, w - 6, w - 2):
        for dq in (0, 1, 2):
            q = max(0, a - dq)
            for l in ([a, a, a], [a + 1, a, a + 1], [a + 1, a + 1, a], [a, a + 1, a - 1], [a - 1, a, a + 1], [a + 1] * 3 + [a], [a + 1, a - 1, a + 1, a], [a, None]):
                if all(x is None or x < w for x in l):
                    yield q, l
    r = 777
    for _ in range(40 if not thorough else 400):
        l = []
        r = (r * 1103515245 + 12345) & 0x7fffffff
        base = (r >> 8) % (w - 8)
        for _ in range(2 + (r >> 20) % 3):
            r = (r * 1103515245 + 12345) & 0x7fffffff
            l.append(base + (r >> 8) % 8)
        yield max(0, base - (r >> 22) % 3), l


@group("split", "report", "derange", "net_ctor", "net_rel", "net_derived", "count", "order", "cidr_mask", "cidr_prefix", "arith", "netdisp")
def g_split(ctx):
    """Splitting hands out one large enough network per request, without gaps, and lists what is left."""
    fn = ctx.need([f for f in ctx.prog.find("split") if f.body and f.full.startswith("cmds::")], "the split command")

    def run(parents, numbers, order, d):
        I = ctx.engine()
        I.hash_order = order
        I.MAXLOOP, I.MAXUNDEC, I.cap_loop = 140, 4000, 64
        derived_contract(ctx, I)
        arith_contract(ctx, I)
        ctor_contract(ctx, I)
        specs_contract(ctx, I, {"s0": parents})
        report_contract(ctx, I)
        numbers_contract(I, numbers)

        def marks(I, nty):
            w = I.addr_width(nty.args[0])
            out = []
            for i in (1, 2):
                p = D.sym("up%d" % i, 0, w)
                m = D.mask_word(w, p)
                out.append(I.mk_net(nty, D.bitwise("and", D.word("ux%d" % i, w), m, w), m, VAdt(I.prog.net_info["opt_ty"], 1, (p,))))
            return tuple(out)
        range_contract(ctx, I, marks)
        st = record(I)
        st.ghost.update(sel=(), nums=(), reports=(), ranges=())
        names = sorted(numbers, key=lambda n: int(n[1:]))
        args = VRef(VSeq(None, (lit("ripcalc"), lit("--split"), txt("s0")) + tuple(txt(x) for x in names)))
        out = []
        for s, r in run_all(ctx, I, fn, [args], st):
            if not isinstance(r, Lin) or not all(isinstance(s.ghost.get(k), (tuple, VStr)) for k in ("out", "err", "sel", "nums", "reports", "ranges")):
                ctx.undecided("split", "%s: result %r" % (d, r), where(fn))
                continue
            out.append((s, r))
        ctx.panics(I)
        return I, out, marks

    def unused_text(I, s, marks, nty):
        return cat(*(VStr((("d", v), "\n")) for v in marks(I, nty)))

    def parents(w, q, l):
        """Addresses of the network to split: any, where nothing carries out of it; else arbitrary above the part that may
        change, and at the end of the address space."""
        full = (1 << w) - 1
        tops = [p for p in l if p is not None]
        total = sum(1 << (w - p) for p in tops)
        if total <= 1 << (w - q) or len(tops) < 2:
            return [D.word("x", w)]
        t = max(total, 1 << (w - q)).bit_length() + 1
        h = D.word("h", w - t).scale(1 << t) if t < w else num(0)
        step = 1 << (w - q)
        out = [h]
        if step < 1 << min(t, w):
            out.append(h + step)
        out.append(num(full // step * step))
        if total <= full + 1:
            out.append(num((full + 1 - total) // step * step))
        return out

    def case(ty, w, q, l, order, x):
        full = (1 << w) - 1
        pm = full >> (w - q) << (w - q) if q else 0
        base = D.bitwise("and", x, num(pm), w)
        numbers = {"c%d" % i: [c] for i, c in enumerate(counts(w, l, order))}
        d = "IPv%d /%d split for %s" % (4 if w == 32 else 6, q, ", ".join("a /%s" % p if p is not None else "more than there are" for p in l))
        I, rs, marks = run([("parent", ty, x, num(pm), num(q), [])], numbers, order, d)
        wh = where(fn)
        big = None in l
        size = lambda p: 1 << (w - p)
        for s, r in rs:
            g = s.ghost
            f = s.facts
            head = lit("Subnet to split:\n{report 0}\n\n")
            n0 = g["reports"][0] if g["reports"] else None
            if n0 is None or n0[1] is not None:
                ctx.prove("split: the network to split is reported first", f, D.FALSE, d, wh)
                continue
            if not ctx.eq_int("split: the network to split is reported first", f, n0[0][1], base, d, wh) or \
               not ctx.eq_int("split: the network to split is reported first", f, n0[0][2], num(pm), d, wh):
                continue
            eq_text(ctx, "split: nothing on standard error", f, g["err"], VStr(()), d, wh)
            tops = [p for p in l if p is not None]
            b0 = D.bitwise("and", base, num(full ^ (size(min(tops)) - 1)), w) if tops else base
            total = sum(size(p) for p in tops)
            no = cat(head, lit("Not enough addresses available for this split.\n"))
            if canon(f, g["out"]) == canon(f, no):
                ctx.prove("split: refused only if the address space ends before all are placed", f,
                          D.boolc(True) if big else D.lt(num(full + 1), b0 + total), d, wh)
                ctx.eq_int("split: status of a refused split", f, r, num(1), d, wh)
                continue
            if not ctx.prove("split: refused if no network is large enough", f, D.boolc(not big), d, wh):
                continue
            if not ctx.prove("split: refused if the address space ends before all are placed", f, D.le(b0 + total, num(full + 1)), d, wh):
                continue
            want = head
            for i in range(len(l)):
                want = cat(want, lit("Subnet for "), dec_piece(numbers["c%d" % i][0]), lit(" hosts:\n{report %d}\n\n" % (i + 1)))
            fits = min(tops) >= q and total <= size(q)
            if not fits:
                want = cat(want, lit("Network is too small\n"))
            elif total < size(q):
                want = cat(want, lit("Unused networks:\n"), unused_text(I, s, marks, nty_of(ty)))
            if not (fits and total < size(q)) and not ctx.prove("split: only the rest is listed as unused", f, D.boolc(not g["ranges"]), d, wh):
                continue
            eq_text(ctx, "split: what is printed", f, g["out"], want, d, wh)
            ctx.eq_int("split: status", f, r, num(0), d, wh)
            if len(g["reports"]) != len(l) + 1:
                ctx.prove("split: one network per request", f, D.FALSE, "%s: %d networks" % (d, len(g["reports"]) - 1), wh)
                continue
            # largest first, one after the other; equal ones in any order
            spots, at = {}, 0
            for p in sorted(tops):
                spots.setdefault(p, []).append(at)
                at += size(p)
            for i, p in enumerate(l):
                (nw, b, m, pp), a = g["reports"][i + 1]
                ctx.eq_int("split: each network is the smallest that is large enough", f, m, num(full ^ (size(p) - 1)), "%s: request %d" % (d, i + 1), wh)
                hit = next((o for o in spots[p] if f.ev(D.eq(b, b0 + o)) is True), None)
                if hit is not None:
                    spots[p].remove(hit)
                    ctx.prove("split: networks are placed one after the other, larger ones first", f, D.TRUE, d, wh)
                else:
                    goal = D.FALSE
                    for o in spots[p]:
                        goal = D.b_or(goal, D.eq(b, b0 + o))
                    ctx.prove("split: networks are placed one after the other, larger ones first", f, goal, "%s: request %d gets base %r" % (d, i + 1, b), wh)
            if fits and total < size(q):
                if not ctx.prove("split: the rest is listed", f, D.boolc(len(g["ranges"]) == 1), d, wh):
                    continue
                a, b = g["ranges"][0]
                lo, hi = base + total, base + (size(q) - 1)
                ctx.prove("split: the rest is listed", f, D.b_or(D.b_and(D.eq(a, lo), D.eq(b, hi)), D.b_and(D.eq(a, hi), D.eq(b, lo))), "%s: lists %r to %r" % (d, a, b), wh)

    def nty_of(ty):
        for f in ctx.prog.find("range_to_subnets"):
            if f.body and ctx.prog.types[f.body["locals"][1]] is ty:
                return ctx.prog.types[f.body["locals"][0]].args[0]
        raise Missing("range_to_subnets")

    # bad numbers and specifications
    for k in (1, 2):
        numbers = {"c%d" % i: [None, D.sym("n%d" % i, None, -1), count_class(32, 28, "c%d" % i)] for i in range(k)}
        for s, r in run([BAD], numbers, 0, "bad arguments")[1] + run(small_choices(ctx, "s0", 32, 0xffffff00), numbers, 1, "bad counts")[1]:
            bad = [n for n, v in s.ghost["nums"] if v is None or s.facts.ev(D.lt(v, num(0))) is True]
            if not bad and ("s0", BAD) not in s.ghost["sel"]:
                continue
            ctx.eq_int("split: status after bad arguments", s.facts, r, num(1), "bad arguments", where(fn))
            only_err(ctx, "split: bad arguments are reported on standard error only", s, "bad arguments", where(fn))
    for ty, w in each_addr(ctx):
        for i, (q, l) in enumerate(split_cases(w, core.TIER == "thorough")):
            if core.TIER != "thorough" and i % (2 if w == 32 else 6) and None not in l and len(l) < 9:
                continue
            for x in parents(w, q, l):
                case(ty, w, q, l, i // 6 % 2 if len(l) < 9 else 0, x)
            if any(o.viol for o in ctx.obs.values()):
                return
