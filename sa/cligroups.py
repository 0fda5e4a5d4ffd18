"""Groups for whole invocations of the program, from the arguments to output and status."""
import re
from .algogroups import *
from .cmdgroups import on_colour, STYLES

OPTIONS = {"minimize": ("-m", "--minimize"), "derange": ("-d", "--derange"), "split": ("-s", "--split"), "resize": ("-r", "--resize"),
           "enumerate": ("-e", "--enumerate")}
NOT_OPTION = "^(?:-m|--minimize|-d|--derange|-s|--split|-r|--resize|-e|--enumerate|--color-test|--help)$"

# an argument that is not Unicode, and what is left of it when it is taken for a text all the same
OS = VOp("os", (text.txt_in("u0", "\ufffd"),))

# every text that can be taken for a specification
SPEC_LIKE = "^[0-9A-Fa-f:.]+(?:/[-0-9A-Fa-f:.]*)?$"


def run_main(ctx, I, args, st):
    """[(state, exit status)] of a run of the program with the given arguments."""
    fn = ctx.need([f for f in ctx.prog.find("main") if f.body and f.full in ("main", "ripcalc::main", "crate::main")] or [f for f in ctx.prog.find("main") if f.body], "main")
    I.models.env_args = VSeq(None, (lit("ripcalc"),) + tuple(lit(x) if isinstance(x, str) else x for x in args))
    out = []
    I.models.on_exit = lambda I, st, fr, code, sp: out.append((st, code))
    for s, r in run_all(ctx, I, fn, [], st):
        out.append((s, num(0)))
    return out, where(fn)


def same_net(f, n, want):
    """n: (width, base, mask, prefix); want: (width, base, mask)"""
    if n[0] != want[0]:
        return FALSE
    return D.b_and(D.eq(n[1], want[1]), D.eq(n[2], want[2]))


def net_of(I, c):
    tag, ty, x, m, p, fs = c
    w = I.addr_width(ty)
    return w, D.bitwise("and", x, m, w), m


def chosen(s, choices):
    """The alternative each specification was taken as; for one not looked at, any one (a good one if there is one)."""
    sel = dict(s.ghost["sel"])
    out = []
    for n in sorted(choices, key=lambda n: (len(n), n)):
        cs = choices[n]
        if n in sel:
            out.append(next(c for c in cs if (c if c == BAD else c[0]) == sel[n]))
        else:
            out.append(next((c for c in cs if c != BAD), BAD))
    return out


class Cli:
    def __init__(self, ctx, key):
        self.ctx, self.key = ctx, key

    def engine(self):
        ctx = self.ctx
        I = ctx.engine()
        I.hash_order = 0
        derived_contract(ctx, I)
        arith_contract(ctx, I)
        ctor_contract(ctx, I)
        return I

    def go(self, I, args, d, st=None):
        """Runs with everything recorded known."""
        ctx = self.ctx
        self.I = I
        # texts that are nothing else are not specifications, addresses or masks either
        I.models.contracts.append(self.rest)
        st = record(I, st)
        st.ghost.update(sel=(), nums=(), reports=(), ranges=(), calls=())
        rs, self.wh = run_main(ctx, I, args, st)
        for s, r in rs:
            if not isinstance(r, Lin) or not all(isinstance(s.ghost.get(k), (tuple, VStr)) for k in ("out", "err", "sel", "nums", "reports", "ranges", "calls")):
                ctx.undecided(self.key, "%s: result %r" % (d, r), self.wh)
                continue
            yield s, r
        ctx.panics(I)

    def rest(self, I, st, fr, inst, callee, args, dty, sp):
        if inst.name not in ("parse_netspec", "parse_addr", "parse_subnet") or len(args) != 1:
            return None
        s = I.deref_all(st, args[0])
        n = s.pieces[0][1] if isinstance(s, VStr) and len(s.pieces) == 1 and not isinstance(s.pieces[0], str) else None
        own = {"s": "parse_netspec", "a": "parse_addr", "m": "parse_subnet"}.get(n[0] if n else None)
        if own is not None and inst.name != own and n[1:].isdigit():
            # what one of them takes, another does not, except that addresses are masks and some masks are addresses
            if {own, inst.name} == {"parse_addr", "parse_subnet"}:
                raise Undecided("%s reads an argument of another kind" % inst.name)
            return [(st.copy(), VAdt(dty, 1, (VSym("err(%s)" % n, dty.args[1]),)))]
        if n is None or not isinstance(st.ghost["sel"], tuple) or dict(st.ghost["sel"]).get(n, BAD) != BAD:
            return None
        s2 = st.copy()
        if n not in dict(s2.ghost["sel"]):
            s2.ghost["sel"] = s2.ghost["sel"] + ((n, BAD),)
        return [(s2, VAdt(dty, 1, (VSym("err(%s)" % n, dty.args[1]),)))]

    def failed(self, s, r, d):
        ctx = self.ctx
        ctx.eq_int(self.key + ": status after an error", s.facts, r, num(1), d, self.wh)
        only_err(ctx, self.key + ": errors are reported on standard error only", s, d, self.wh)
        # an argument shown in the message is one at fault
        bad = {n for n, t in s.ghost["sel"] if t == BAD}
        shown = {p[1].pieces[0][1] for p in s.ghost["err"].pieces if not isinstance(p, str) and p[0] in ("?", "d") and isinstance(p[1], VStr)
                 and len(p[1].pieces) == 1 and not isinstance(p[1].pieces[0], str) and p[1].pieces[0][0] == "txt"} if known(s.ghost["err"]) else set()
        if bad and shown:
            ctx.prove(self.key + ": errors quote the argument at fault", s.facts, D.boolc(shown <= bad), "%s: shows %s" % (d, ", ".join(sorted(shown))), self.wh)

    def succeeds(self, s, r, d):
        ctx = self.ctx
        ctx.eq_int(self.key + ": status", s.facts, r, num(0), d, self.wh)
        eq_text(ctx, self.key + ": nothing on standard error", s.facts, s.ghost["err"], VStr(()), d, self.wh)

    def says(self, s, d, start):
        """The output begins like this."""
        if known(s.ghost["out"]) and len(s.ghost["out"].pieces) < 2:
            o = s.ghost["out"].pieces
            if not o or isinstance(o[0], str):
                self.ctx.prove(self.key + ": output", s.facts, D.boolc((o[0] if o else "").startswith(start)), "%s: prints %r" % (d, o), self.wh)

    def speaks(self, s, d):
        if known(s.ghost["out"]) and not s.ghost["out"].pieces:
            self.ctx.prove(self.key + ": output", s.facts, FALSE, "%s: prints nothing" % d, self.wh)

    def fine(self, s, r, d, want):
        ctx = self.ctx
        self.succeeds(s, r, d)
        if isinstance(want, tuple):
            eq_lines(ctx, self.I, self.key + ": output", s, s.ghost["out"], want, d, self.wh)
        else:
            eq_text(ctx, self.key + ": output", s.facts, s.ghost["out"], want, d, self.wh)

    def sense(self, I, names):
        """Arguments that every command can make sense of."""
        ctx = self.ctx
        specs_contract(ctx, I, {z: small_choices(ctx, z, 32, 0xffffff00) for z in names})
        addrs_contract(ctx, I, {z: [("IPv%d" % (4 if w == 32 else 6), ty, D.word("x.%s" % z, w)) for ty, w in each_addr(ctx)][:1] for z in names})
        for z in names:
            subnet_contract(ctx, I, z, [("a number", None, num(24), [])])
        report_contract(ctx, I)
        numbers_contract(I, dict({z: [D.sym("n." + z, 0, 30)] for z in names}, u0=[None]))
        for f in ("range_to_subnets", "minimize_subnets"):
            call_contract(I, f, lambda st, args, dty: [(st, VSeq(None, marks_of(I, dty.args[0], 1)))])

    def wrong_counts(self, opts, counts, d):
        ctx = self.ctx
        for o in opts:
            for n in counts:
                I = self.engine()
                self.sense(I, ["z%d" % i for i in range(n)])
                for s, r in self.go(I, [o] + [txt("z%d" % i) for i in range(n)], d):
                    self.failed(s, r, "%s %s" % (o, " ".join("..." for i in range(n))))


MANY = 40


def marks_of(I, nty, k, tag="u"):
    """k arbitrary networks with contiguous masks"""
    w = I.addr_width(nty.args[0])
    out = []
    for i in range(1, k + 1):
        p = D.sym("%sp%d" % (tag, i), 0, w)
        m = D.mask_word(w, p)
        out.append(I.mk_net(nty, D.bitwise("and", D.word("%sx%d" % (tag, i), w), m, w), m, VAdt(I.prog.net_info["opt_ty"], 1, (p,))))
    return tuple(out)


def lines(nets):
    return cat(*(VStr((("d", v), "\n")) for v in nets)) if nets else VStr(())


def eq_lines(ctx, I, key, s, got, nets, d, wh):
    """The text lists the networks, one per line (the text of a network is shown by the group netdisp)."""
    f = s.facts
    got = canon(f, got)
    ps = list(got.pieces)
    if all(not isinstance(p, str) and p[0] == "d" and len(p) == 2 and isinstance(p[1], VAdt) and nets and p[1].ty is nets[0].ty for p in ps[::2]) and all(p == "\n" for p in ps[1::2]) and \
            len(ps) % 2 == 0 and nets:
        if not ctx.prove(key, f, D.boolc(len(ps) == 2 * len(nets)), "%s: %d networks listed, should be %d" % (d, len(ps) // 2, len(nets)), wh):
            return
        for p, v in zip(ps[::2], nets):
            if p[1] == v:
                ctx.prove(key, f, TRUE, d, wh)
                continue
            a, b = plain_net(I, s, p[1]), plain_net(I, s, v)
            ctx.prove(key, f, same_net(f, a, b[:3]) if a is not None else None, "%s: lists %r, should be %r" % (d, p[1], v), wh)
        return
    eq_text(ctx, key, f, got, lines(nets), d, wh)


def call_contract(I, name, answer):
    """Calls of a function (shown elsewhere) are recorded and answered: answer(state, args, type) -> [(state, value)]."""
    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name != name or "calls" not in st.ghost:
            return None
        if not isinstance(st.ghost["calls"], tuple):
            raise Undecided("calls made so far are not known")
        return answer(st, [I.deref_all(st, a) for a in args], dty)
    I.models.contracts.insert(0, contract)


# ================================================================ dispatch

@group("cli_main", "padding")
def g_cli_main(ctx):
    """No arguments, and the options that ask for nothing but text."""
    c = Cli(ctx, "invocation")
    I = c.engine()
    for s, r in c.go(I, [], "no arguments"):
        c.failed(s, r, "no arguments")
    for extra in ((), (txt("z0"),)):
        I = c.engine()
        for s, r in c.go(I, ["--help"] + list(extra), "--help"):
            ctx.eq_int("invocation: status of --help", s.facts, r, num(0), "--help", c.wh)
            o, e = s.ghost["out"], s.ghost["err"]
            if known(o) and known(e):
                ctx.prove("invocation: --help explains", s.facts, D.boolc(bool(o.pieces or e.pieces)), "--help prints nothing", c.wh)
                told = "".join(x if isinstance(x, str) else "\0" for x in o.pieces + e.pieces)
                if "\0" not in told:
                    for x in sum(OPTIONS.values(), ()):
                        ctx.prove("invocation: --help names every option", s.facts, D.boolc(re.search("(?<![-\\w])%s(?![-\\w])" % x, told) is not None), "--help does not name %s" % x, c.wh)
        I = c.engine()
        print_contract(ctx, I)
        for s, r in c.go(I, ["--color-test"] + list(extra), "--color-test"):
            ctx.eq_int("invocation: status of --color-test", s.facts, r, num(0), "--color-test", c.wh)
    # every colour by its name
    I = c.engine()
    shown = []

    def see(st, t, name, pad):
        if name is None or not known(t):
            return ctx.undecided("invocation: --color-test", "%s in %r" % (show(t), name), c.wh)
        ctx.prove("invocation: --color-test shows every colour under its name", st.facts, D.boolc(t == lit(name)), "%s is shown in %s" % (show(t), name or "no colour"), "main")
        shown.append(name)
    on_colour(ctx, I, see)
    for s, r in c.go(I, ["--color-test"], "--color-test"):
        for x in STYLES:
            if "out" in s.ghost and shown:
                ctx.prove("invocation: --color-test shows every colour under its name", s.facts, D.boolc(x in shown), "%s is not shown" % x, "main")
    # neither an option nor a specification
    for k in range(4):
        I = c.engine()
        names = ["z%d" % i for i in range(k)]
        c.sense(I, names)
        specs_contract(ctx, I, dict({z: small_choices(ctx, z, 32, 0xffffff00) for z in names}, s0=[BAD]))
        for s, r in c.go(I, [text.txt_in("s0", ("and", ("not", NOT_OPTION), ("not", SPEC_LIKE)))] + [txt(z) for z in names], "an unknown option"):
            c.failed(s, r, "an unknown option and %d arguments" % k)
    # arguments that are not Unicode
    for args, names in (([OS], ()), ([OS, "s0"], ("s0",)), (["s0", OS], ("s0",)), (["-m", OS], ()), (["-m", "s0", OS], ("s0",)), (["-d", OS, "s0"], ("s0",)), (["-d", "s0", OS], ("s0",)),
                        (["-r", "s0", OS], ("s0",)), (["-r", OS, "m0"], ("m0",)), (["-s", OS, "s0"], ("s0",)), (["-s", "s0", OS], ("s0",)), (["-e", OS], ())):
        I = c.engine()
        c.sense(I, names)
        d = " ".join(a if isinstance(a, str) else "(not Unicode)" for a in args)
        for s, r in c.go(I, [text.txt_in(a, SPEC_LIKE) if a in names else a for a in args], d):
            c.failed(s, r, d)
    c.wrong_counts(OPTIONS["minimize"], (0,), "no specification")
    c.wrong_counts(OPTIONS["enumerate"], (0,), "no specification")
    c.wrong_counts(OPTIONS["derange"], (0, 1, 3, 4), "wrong number of addresses")
    c.wrong_counts(OPTIONS["resize"], (0, 1, 3, 4), "wrong number of arguments")
    c.wrong_counts(OPTIONS["split"], (0, 1), "no host counts")


# ================================================================ reports

@group("cli_show",  "net_ctor", "net_derived", "arith", "cidr_mask", "cidr_prefix")
def g_cli_show(ctx):
    """Without an option, one report per specification, in order, blank lines between."""
    c = Cli(ctx, "reports")
    base = {n: [BAD] + net_choices(ctx, n) for n in ("s0", "s1")}
    for k in (1, 2, 3, MANY):
        choices = {n: base[n] for n in ("s0", "s1")[:k]}
        if k == MANY:
            choices = {"s%d" % i: net_choices(ctx, "s%d" % i, ("prefix",), ((32, 128)[i % 2],)) for i in range(k)}
        if k == 3:
            choices = {n: [BAD] + net_choices(ctx, n, ("prefix",)) for n in ("s0", "s1", "s2")}
        I = c.engine()
        specs_contract(ctx, I, choices)
        report_contract(ctx, I)
        args = [text.txt_in("s0", SPEC_LIKE)] + [txt("s%d" % i) for i in range(1, k)]
        for s, r in c.go(I, args, "%d specifications" % k):
            cs = chosen(s, choices)
            d = ", ".join(x if x == BAD else x[0] for x in cs)
            if BAD in cs:
                c.failed(s, r, d)
                continue
            c.fine(s, r, d, cat(*(lit(("\n" if i else "") + "{report %d}\n" % i) for i in range(k))))
            if len(s.ghost["reports"]) != k:
                continue
            for i, (n, a) in enumerate(s.ghost["reports"]):
                ctx.prove("reports: on the networks given, in order", s.facts, same_net(s.facts, n, net_of(I, cs[i])), "%s: report %d is on %r" % (d, i + 1, n), c.wh)
                if not I.is_addr(a):
                    ctx.prove("reports: with the address given", s.facts, FALSE, "%s: report %d is without address" % (d, i + 1), c.wh) if a is None else \
                        ctx.undecided("reports: with the address given", "%r" % (a,), c.wh)
                    continue
                ctx.eq_int("reports: with the address given", s.facts, I.addr_int(a), cs[i][2], "%s: report %d" % (d, i + 1), c.wh)


# ================================================================ minimizing

@group("cli_minimize",  "netdisp", "net_ctor", "net_derived", "arith", "cidr_mask", "cidr_prefix")
def g_cli_minimize(ctx):
    """The networks of the shortened list, one per line; one family only."""
    c = Cli(ctx, "minimize command")
    for k, opts in ((1, OPTIONS["minimize"]), (2, ("-m",)), (3, ("--minimize",)), (MANY, ("-m",)), (MANY + 1, ("-m",))):
        names = ["s%d" % i for i in range(k)]
        choices = {n: [BAD] + net_choices(ctx, n, ("prefix", "mixed") if k == 1 else ("prefix",)) for n in names}
        if k >= MANY:
            choices = {n: net_choices(ctx, n, ("prefix",), (32 if k == MANY else 128,)) for n in names}
        for o in opts:
            for left in (0, 1, 2, 3) if k < MANY else (k,):
                if left > k:
                    continue
                I = c.engine()
                specs_contract(ctx, I, choices)

                def answer(st, args, dty):
                    v = args[0]
                    if not isinstance(v, VSeq) or v.pre is not None:
                        return None
                    ns = tuple(plain_net(I, st, x) for x in v.items)
                    if None in ns:
                        return None
                    s = st.copy()
                    s.ghost["calls"] = s.ghost["calls"] + ((ns, dty.args[0]),)
                    return [(s, VSeq(None, marks_of(I, dty.args[0], left)))]
                call_contract(I, "minimize_subnets", answer)
                for s, r in c.go(I, [o] + [txt(n) for n in names], "%d specifications" % k):
                    cs = chosen(s, choices)
                    d = ", ".join(x if x == BAD else x[0] for x in cs)
                    if BAD in cs or len({net_of(I, x)[0] for x in cs}) > 1:
                        c.failed(s, r, d)
                        continue
                    calls = s.ghost["calls"]
                    if not calls:
                        c.succeeds(s, r, d)
                        c.speaks(s, d)
                    if len(calls) != 1:
                        ctx.undecided("minimize command: output", "%s: minimized %d times" % (d, len(calls)), c.wh)
                        continue
                    given = [net_of(I, x) for x in cs]
                    got = calls[0][0]
                    rest = list(got)
                    for g in given:
                        hit = next((i for i, n in enumerate(rest) if s.facts.ev(same_net(s.facts, n, g)) is True), None)
                        if hit is None:
                            break
                        del rest[hit]
                    ok = len(got) == k and not rest
                    goal = D.boolc(ok)
                    if not ok and len(got) == k:
                        goal = TRUE
                        for n, g in zip(got, given):
                            goal = D.b_and(goal, same_net(s.facts, n, g))
                    elif not ok and len(got) > k:
                        goal = None
                    ctx.prove("minimize command: all networks given are taken", s.facts, goal, "%s: takes %r" % (d, got), c.wh)
                    c.fine(s, r, d, marks_of(I, calls[0][1], left))


# ================================================================ ranges

def addrs_contract(ctx, I, choices):
    """parse_addr answers for the named texts: an error or an arbitrary address of a family."""
    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name != "parse_addr":
            return None
        s = I.deref_all(st, args[0])
        n = s.pieces[0][1] if isinstance(s, VStr) and len(s.pieces) == 1 and not isinstance(s.pieces[0], str) else None
        if n not in choices:
            return None
        ok = dty.args[0]
        out = []
        if not isinstance(st.ghost["sel"], tuple):
            raise Undecided("arguments looked at so far are not known")
        for c in choices[n]:
            known_ = dict(st.ghost["sel"]).get(n)
            if known_ is not None and known_ != (c if c == BAD else c[0]):
                continue
            s2 = st.copy()
            if known_ is None:
                s2.ghost["sel"] = s2.ghost["sel"] + ((n, c if c == BAD else c[0]),)
            if c == BAD:
                v = VAdt(dty, 1, (VSym("addrerr(%s)" % n, dty.args[1]),))
            else:
                tag, ty, x = c[:3]
                var = next((i for i, u in enumerate(ok.variants) if [ctx.prog.types[f["t"]] for f in u["f"]] == [ty]), None)
                if var is None:
                    raise Undecided("shape of parsed addresses")
                v = VAdt(dty, 0, (VAdt(ok, var, (I.addr_value(ty, x),)),))
            out.append((s2, v))
        return out
    I.models.contracts.insert(0, contract)


@group("cli_derange", "netdisp")
def g_cli_derange(ctx):
    """The networks that make up the range between two addresses of one family, one per line."""
    c = Cli(ctx, "derange command")
    choices = {n: [BAD] + [("IPv%d" % (4 if w == 32 else 6), ty, D.word("x.%s" % n, w)) for ty, w in each_addr(ctx)] for n in ("a0", "a1")}
    for o in OPTIONS["derange"]:
        for k in (1, 2, 3, 62):     # a range of IPv4 addresses takes up to 62 networks
            I = c.engine()
            addrs_contract(ctx, I, choices)
            ntys = {}

            def marks(I, nty):
                return marks_of(I, nty, k)

            def answer(st, args, dty):
                if len(args) != 2 or not all(I.is_addr(a) for a in args):
                    return None
                s = st.copy()
                s.ghost["calls"] = s.ghost["calls"] + (tuple((I.addr_width(a.ty), I.addr_int(a)) for a in args) + (dty.args[0],),)
                return [(s, VSeq(None, marks(I, dty.args[0])))]
            call_contract(I, "range_to_subnets", answer)
            for s, r in c.go(I, [o, txt("a0"), txt("a1")], "two addresses"):
                cs = chosen(s, choices)
                d = ", ".join(x if x == BAD else x[0] for x in cs)
                if BAD in cs or cs[0][0] != cs[1][0]:
                    c.failed(s, r, d)
                    continue
                calls = s.ghost["calls"]
                if not calls:
                    c.succeeds(s, r, d)
                    c.speaks(s, d)
                if len(calls) != 1:
                    ctx.undecided("derange command: output", "%s: %d ranges" % (d, len(calls)), c.wh)
                    continue
                (w1, a), (w2, b), nty = calls[0]
                x, y = cs[0][2], cs[1][2]
                goal = D.b_or(D.b_and(D.eq(a, x), D.eq(b, y)), D.b_and(D.eq(a, y), D.eq(b, x))) if w1 == w2 == I.addr_width(cs[0][1]) else FALSE
                ctx.prove("derange command: the range between the addresses given", s.facts, goal, "%s: takes %r to %r" % (d, a, b), c.wh)
                c.fine(s, r, d, marks(I, nty))


# ================================================================ resizing

def subnet_contract(ctx, I, name, choices):
    """parse_subnet answers for the named text: an error, a prefix length or a mask.
    choices: BAD or (tag, None, number) or (tag, address type, mask form)"""
    def contract(I, st, fr, inst, callee, args, dty, sp):
        if inst.name != "parse_subnet":
            return None
        s = I.deref_all(st, args[0])
        n = s.pieces[0][1] if isinstance(s, VStr) and len(s.pieces) == 1 and not isinstance(s.pieces[0], str) else None
        if n != name:
            return None
        if not isinstance(st.ghost["sel"], tuple):
            raise Undecided("arguments looked at so far are not known")
        ok = dty.args[0]
        out = []
        for c in choices:
            known_ = dict(st.ghost["sel"]).get(n)
            if known_ is not None and known_ != (c if c == BAD else c[0]):
                continue
            s2 = st.copy()
            if known_ is None:
                s2.ghost["sel"] = s2.ghost["sel"] + ((n, c if c == BAD else c[0]),)
            if c == BAD:
                out.append((s2, VAdt(dty, 1, (VSym("suberr(%s)" % n, dty.args[1]),))))
                continue
            tag, ty, v, fs = c
            for f in fs:
                s2 = s2 and s2.assume(f)
            if s2 is None:
                continue
            var = [i for i, u in enumerate(ok.variants) if len(u["f"]) == 1 and
                   (ctx.prog.types[u["f"][0]["t"]] is ty if ty is not None else ctx.prog.types[u["f"][0]["t"]].k in ("uint", "int"))]
            if len(var) != 1:
                raise Undecided("shape of parsed masks")
            out.append((s2, VAdt(dty, 0, (VAdt(ok, var[0], (v if ty is None else I.addr_value(ty, v),)),))))
        return out
    I.models.contracts.insert(0, contract)


@group("cli_resize", "cidr_mask", "bytes", "cidr_prefix", "net_ctor", "net_derived", "count", "arith")
def g_cli_resize(ctx):
    """The original network and what resizing makes of it, each reported under its heading."""
    c = Cli(ctx, "resize command")
    oty = ctx.prog
    for o in OPTIONS["resize"]:
        for kind in ("prefix", "mixed"):
            specs = {"s0": [BAD] + net_choices(ctx, "s0", (kind,))}
            masks = [BAD, ("a number", None, D.sym("n.m0", 0, (1 << 64) - 1), [])]
            for ty, w in each_addr(ctx):
                for tag, m, q, fs in mask_choices(ctx, "m0", w):
                    masks.append(("%s IPv%d mask" % (tag, 4 if w == 32 else 6), ty, m, fs))
            for many in (2, 4, 512) if kind == "prefix" else (2,):
                I = c.engine()
                specs_contract(ctx, I, specs)
                subnet_contract(ctx, I, "m0", masks)
                report_contract(ctx, I)

                def answer(st, args, dty):
                    n, m = plain_net(I, st, args[0]), args[1]
                    vty, ordty = dty.args if dty.args else [ctx.prog.types[t] for t in dty.d["ts"]]
                    if n is None or not I.is_addr(m):
                        return None
                    w = n[0]
                    old, new = pop_of(n[2], w) if n[3] is None else n[3], pop_of(I.addr_int(m), w)
                    out = []
                    for rel, k, f in ((-1, 1, D.lt(new, old)), (0, 1, D.eq(new, old)), (1, many, D.eq(new, old + (many.bit_length() - 1)))):
                        s = st.assume(f)
                        if s is None:
                            continue
                        s = s.copy()
                        s.ghost["calls"] = s.ghost["calls"] + ((n, I.addr_int(m), rel, vty.args[0]),)
                        out.append((s, VTuple((VSeq(None, marks_of(I, vty.args[0], k)), I.models.ordering(ordty, rel)))))
                    return out
                call_contract(I, "resize_network", answer)
                for s, r in c.go(I, [o, txt("s0"), txt("m0")], "a network and a mask"):
                    cs = chosen(s, specs)
                    mc = chosen(s, {"m0": masks})[0]
                    d = "%s to %s" % (cs[0] if cs[0] == BAD else cs[0][0], mc if mc == BAD else mc[0])
                    if BAD in cs or mc == BAD:
                        c.failed(s, r, d)
                        continue
                    w = I.addr_width(cs[0][1])
                    if mc[1] is not None and mc[1] is not cs[0][1]:
                        c.failed(s, r, d)
                        continue
                    full = (1 << w) - 1
                    if mc[1] is None:
                        good, bad = s.split(D.le(mc[2], num(w)))
                        if bad is not None:
                            c.failed(bad, r, d + " above %d" % w)
                        if good is None:
                            continue
                        s = good
                        want_m = D.mask_word(w, mc[2])
                    else:
                        want_m = mc[2]
                    calls = s.ghost["calls"]
                    if not calls:
                        c.succeeds(s, r, d)
                    if not calls:
                        c.says(s, d, "Original network:\n")
                    if len(calls) != 1:
                        ctx.undecided("resize command: output", "%s: resized %d times" % (d, len(calls)), c.wh)
                        continue
                    n, m, rel, nty = calls[0]
                    ctx.prove("resize command: the network given is resized", s.facts, same_net(s.facts, n, net_of(I, cs[0])), "%s: resizes %r" % (d, n), c.wh)
                    ctx.eq_int("resize command: the mask given is used", s.facts, m, want_m, d, c.wh)
                    k = many if rel > 0 else 1
                    heads = ["Supernet:"] if rel < 0 else ["Same-sized net:"] if rel == 0 else ["Subnet %d:" % i for i in range(1, k + 1)]
                    c.fine(s, r, d, cat(*[lit("Original network:\n{report 0}\n\n")] + [lit("%s\n{report %d}\n\n" % (h, i + 1)) for i, h in enumerate(heads)]))
                    if len(s.ghost["reports"]) != k + 1:
                        continue
                    mk = [plain_net(I, s, v) for v in marks_of(I, nty, k)]
                    for i, (g, a) in enumerate(s.ghost["reports"]):
                        want = net_of(I, cs[0]) if i == 0 else mk[i - 1][:3]
                        ctx.prove("resize command: reports on the original network and the results, in order", s.facts, D.b_and(same_net(s.facts, g, want), D.boolc(a is None)),
                                  "%s: report %d is on %r" % (d, i + 1, g), c.wh)


# ================================================================ options of the other commands

@group("cli_options", "net_ctor", "net_derived", "count", "arith", "perm", "cidr_mask", "cidr_prefix", "disp4", "disp6")
def g_cli_options(ctx):
    """The options for listing and splitting lead to these commands."""
    c = Cli(ctx, "options")
    for o in OPTIONS["enumerate"]:
        for ty, w in each_addr(ctx):
            for k in (1, 2, 3):
                choices = {"s%d" % i: [BAD] + small_choices(ctx, "s%d" % i, w, (1 << w) - 1) for i in range(k)}
                I = c.engine()
                specs_contract(ctx, I, choices)
                for s, r in c.go(I, [o] + [txt("s%d" % i) for i in range(k)], o):
                    cs = chosen(s, choices)
                    d = "%s %s" % (o, ", ".join(x if x == BAD else x[0] for x in cs))
                    ctx.eq_int("options: status of %s" % o, s.facts, r, num(1 if BAD in cs else 0), d, c.wh)
                    want = [cat(addr_piece(w, x[2]), lit("\n")) for x in cs if x != BAD]
                    eq_text(ctx, "options: %s lists addresses" % o, s.facts, plain(I, s, s.ghost["out"]), cat(*want) if want else VStr(()), d, c.wh)
    # the other commands, on the simplest arguments
    for cmd, names in (("minimize", ("s0",)), ("derange", ("a0", "a1")), ("resize", ("s0", "m0"))):
        for o in OPTIONS[cmd]:
            I = c.engine()
            specs = {"s0": small_choices(ctx, "s0", 32, 0xffffff00)}
            specs_contract(ctx, I, specs)
            addrs_contract(ctx, I, {z: [("IPv%d" % (4 if w == 32 else 6), ty, D.word("x.%s" % z, w)) for ty, w in each_addr(ctx)][:1] for z in ("a0", "a1")})
            subnet_contract(ctx, I, "m0", [("a number", None, num(24), [])])
            report_contract(ctx, I)
            did = []
            for f, k in (("range_to_subnets", "derange"), ("minimize_subnets", "minimize")):
                call_contract(I, f, lambda st, args, dty, k=k: (did.append(k), [(st, VSeq(None, marks_of(I, dty.args[0], 1)))])[1])

            def resized(st, args, dty):
                did.append("resize")
                vty, ordty = dty.args if dty.args else [ctx.prog.types[t] for t in dty.d["ts"]]
                return [(st, VTuple((VSeq(None, marks_of(I, vty.args[0], 1)), I.models.ordering(ordty, 0))))]
            call_contract(I, "resize_network", resized)
            for s, r in c.go(I, [o] + [txt(z) for z in names], o):
                c.succeeds(s, r, o)
                if did:
                    ctx.prove("options: lead to their commands", s.facts, D.boolc(set(did) == {cmd}), "%s does %s" % (o, ", ".join(sorted(set(did)))), c.wh)
                elif known(s.ghost["out"]):
                    ctx.prove("options: lead to their commands", s.facts, D.boolc(bool(s.ghost["out"].pieces)), "%s prints nothing" % o, c.wh)
    for o in OPTIONS["split"]:
        choices = {"s0": small_choices(ctx, "s0", 32, 0xffffff00)}
        I = c.engine()
        specs_contract(ctx, I, choices)
        report_contract(ctx, I)
        numbers_contract(I, {"c0": [count_class(32, 24, "c0")]})
        for s, r in c.go(I, [o, txt("s0"), txt("c0")], o):
            want = cat(lit("Subnet to split:\n{report 0}\n\nSubnet for "), dec_piece(count_class(32, 24, "c0")), lit(" hosts:\n{report 1}\n\n"))
            c.fine(s, r, o, want)
