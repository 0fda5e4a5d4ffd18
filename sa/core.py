"""Analysis context, obligation bookkeeping and the check command line."""
import ctypes, json, os, sys, threading, time, traceback
from . import facts as F
from . import dom as D
from . import wit, text
from .dom import Lin, BF, num, TRUE, FALSE
from .interp import (Interp, State, VAdt, VSeq, VGSeq, gseq, VSymSeq, VStr, VTuple, VOp, VRef, VPtr, VSym, VArr, VFn, VTop, Undecided, Budget, UNIT, lit, cat)
from .models import Models

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# seconds per group for the sound pass and for the pass that looks for members of failing regions
BUDGET = {"sound": 150, "exact": 110} if TIER != "thorough" else {"sound": 330, "exact": 250}
TOTAL = 600 if TIER != "thorough" else 780
START = time.time()


def deadline(kind):
    """Per-group budget, within what is left of the whole check's time."""
    now = time.time()
    return now + max(5, min(BUDGET[kind], TOTAL - (now - START)))


class Missing(Exception):
    """A named construct the property is about is not in the program."""


class Ob:
    __slots__ = ("key", "n", "ok", "viol", "und", "where")

    def __init__(self, key):
        self.key, self.n, self.ok, self.viol, self.und, self.where = key, 0, 0, [], [], None


class Ctx:
    """One analysis of the program under a mode: 'sound' (loops summarised, states joined) or
    'prefix' (exact path prefix of every loop, used only to exhibit members of failed regions)."""

    def __init__(self, prog, group, mode="sound"):
        self.prog, self.group, self.mode = prog, group, mode
        self.obs = {}
        self.fns_seen = set()
        self.blocks = 0
        self.unmodelled = {}
        self.loops = []
        self.paths = 0
        self.notes = []

    # ------------------------------------------------------------ engine
    def engine(self, contracts=True, overrides=None):
        M = Models(self.prog)
        I = Interp(self.prog, M, overrides=overrides)
        I.prefix_only = self.mode == "prefix"
        I.exact = self.mode == "prefix"
        I.net_info = getattr(self.prog, "net_info", None)
        if contracts:
            from . import contracts as C
            C.install(I, M, self.prog, contracts)
        return I

    def run(self, I, fn, args, st=None):
        t0 = time.time()
        r = I.run(fn, list(args), st or State())
        self.paths += len(r)
        self.absorb(I)
        if os.environ.get("SA_TRACE"):
            print("    run %s: %.2fs %d results" % (fn.full, time.time() - t0, len(r)), file=sys.stderr)
        return r

    def absorb(self, I):
        for i in I.visited_fns:
            self.fns_seen.add(i)
        self.blocks = max(self.blocks, I.blocks_seen)
        self.unmodelled.update(I.unmodelled)
        self.loops += [x for x in I.loop_log if x not in self.loops]

    # ------------------------------------------------------------ obligations
    def ob(self, key, where=None):
        o = self.obs.get(key)
        if o is None:
            o = self.obs[key] = Ob(key)
        if where and not o.where:
            o.where = where
        return o

    def prove(self, key, facts, goal, detail="", where=None):
        """goal: BF or bool that must hold under the facts."""
        o = self.ob(key, where)
        o.n += 1
        if facts.bot:
            o.ok += 1
            return True
        if isinstance(goal, bool):
            goal = D.boolc(goal)
        if goal is None:
            o.und.append("not expressible: " + str(detail)[:400])
            return None
        r = facts.ev(goal)
        if r is True:
            o.ok += 1
            return True
        if facts.infeasible():
            o.ok += 1
            return True
        bad = facts.assume(D.b_not(goal))
        if bad.bot or bad.contradiction():
            o.ok += 1
            return True
        if len(o.viol) < 3:
            m = wit.member(facts, goal, SEED)
            if isinstance(m, dict):
                o.viol.append("%s [member of the failing region: %s]" % (str(detail)[:900], show_member(m)))
                return False
        else:
            m = "further failures"
        o.und.append("%s: %s; goal %r under %s" % (str(detail)[:300], m, goal, facts.describe()[:500]))
        return None

    def eq_int(self, key, facts, got, want, detail="", where=None):
        if not isinstance(got, Lin):
            return self.undecided(key, "%s: value %r is not a number" % (detail, got), where)
        got, want = whole(facts, got), whole(facts, want)
        g = D.eq(got, want)
        if facts.ev(g) is not True and not (got.const and want.const):
            # bit by bit, with the bits the path determines
            a, b = by_bits(facts, got), by_bits(facts, want)
            if a is not None and a == b:
                g = TRUE
        return self.prove(key, facts, g, "%s: computes %r, should be %r" % (detail, got, want), where)

    def eq_bool(self, key, facts, got, want, detail="", where=None):
        if not isinstance(got, BF):
            return self.undecided(key, "%s: value %r is not a boolean" % (detail, got), where)
        g = D.b_not(D.b_xor(got, want))
        return self.prove(key, facts, g, "%s: computes %r, should be %r" % (detail, got, want), where)

    def fail(self, key, facts, detail, where=None):
        return self.prove(key, facts, FALSE, detail, where)

    def undecided(self, key, why, where=None):
        o = self.ob(key, where)
        o.n += 1
        o.und.append(str(why)[:600])
        return None

    def good(self, key, where=None, n=1):
        o = self.ob(key, where)
        o.n += n
        o.ok += n
        return True

    def definite(self, key, detail, where=None):
        """A violation established structurally (no path facts involved)."""
        o = self.ob(key, where)
        o.n += 1
        o.viol.append(str(detail)[:900])
        return False

    def panics(self, I, key=None):
        """Turn the engine's assertion/unwrap/overflow obligations into obligations of this group."""
        done = set()
        for k, ob in I.obligs.items():
            if ob.ok:
                self.good("panic-free %s" % k[1], ob.where)
        for kind, k, facts, cond, detail, where in I.fails:
            c = cond if isinstance(cond, (BF, bool)) else None
            self.prove("panic-free %s" % k, facts, c if c is not None else FALSE if cond is False else None, detail, where)
        I.obligs.clear()
        I.fails.clear()

    # ------------------------------------------------------------ anchors
    def need(self, fns, what):
        if not fns:
            raise Missing(what)
        return fns[0]


def by_bits(facts, l):
    b = D.lin_bounds(l)
    if b[0] is None or b[1] is None or b[0] < 0 or b[1] >= 1 << 128:
        return None
    bits = D.to_bits(l, b[1].bit_length())
    if bits is None:
        return None
    out = []
    for x in bits:
        r = facts.ev(x)
        out.append(TRUE if r is True else FALSE if r is False else x)
    return D.from_bits(out)


def whole(facts, l):
    """Replace the low-order segment of a form that is known to fit by the form itself."""
    for a, k in l.terms:
        if a.kind == "seg" and a.args[1] == 0:
            x = a.args[0] if isinstance(a.args[0], Lin) else D.of_atom(a.args[0])
            if facts.ev(D.le(num(0), x)) is True and facts.ev(D.le(x, num((1 << a.args[2]) - 1))) is True:
                return whole(facts, l - D.of_atom(a).scale(k) + x.scale(k))
    return l


def show_member(m):
    out = []
    for k, v in sorted(m.items()):
        if len(k) > 80:
            k = k[:77] + "..."
        out.append("%s=%s" % (k, hex(v) if isinstance(v, int) and abs(v) > 4095 else v))
    return ", ".join(out[:14])


# ---------------------------------------------------------------- program facts derived semantically

def derive_layout(prog):
    """Which field of an address carries which bits, read off to_bytes()."""
    prog.layout = {}
    for ty in prog.addr_types:
        fs = [prog.types[f["t"]] for f in ty.variants[0]["f"]]
        w = sum(t.bits for t in fs if t.k == "int")
        decl, off = [], w
        for t in fs:
            off -= t.bits
            decl.append(off)
        prog.layout[ty] = decl
        if len(fs) == 1:
            continue
        fn = prog.impl_method(prog.addr_trait, "to_bytes", ty)
        if fn is None:
            continue
        try:
            I = Interp(prog, Models(prog))
            syms = [D.word("fld%d" % i, t.bits) for i, t in enumerate(fs)]
            r = I.run(fn, [VRef(VAdt(ty, 0, tuple(syms)))], State())
            if len(r) != 1:
                continue
            v = r[0][1]
            pos = {}
            for j, b in enumerate(v.items):
                for i, s in enumerate(syms):
                    for k in range(fs[i].bits // 8):
                        if b == D.seg(s.single(), 8 * k, 8):
                            pos.setdefault(i, set()).add(w - 8 * (j + 1) - 8 * k)
            if len(pos) == len(fs) and all(len(x) == 1 for x in pos.values()):
                prog.layout[ty] = [next(iter(pos[i])) for i in range(len(fs))]
        except (Undecided, Budget, AttributeError):
            pass


def derive_net(prog):
    """Fields of the network type, identified by what new_with_mask puts in them."""
    prog.net_info = None
    cands = prog.find("new_with_mask")
    for fn in cands:
        rt = prog.types[fn.body["locals"][0]]
        if rt.k != "adt" or not rt.args or rt.args[0] not in prog.addr_types:
            continue
        fs = rt.variants[0]["f"]
        a = rt.args[0]
        addr = [i for i, f in enumerate(fs) if prog.types[f["t"]] is a]
        opt = [i for i, f in enumerate(fs) if prog.types[f["t"]].k == "adt" and prog.types[f["t"]].path == "std::option::Option"]
        if len(addr) != 2 or len(opt) != 1 or len(fs) != 3:
            continue
        I = Interp(prog, Models(prog))
        x, m = I.sym_value(a, "x"), I.sym_value(a, "m")
        mi = None
        try:
            from . import contracts as C
            C.install(I, I.models, prog, {"prefix"})
            for s, v in I.run(fn, [x, m], State()):
                for i in addr:
                    if v.fields[i] == m:
                        mi = i
        except (Undecided, Budget, AttributeError, TypeError):
            pass
        if mi is None:
            mi = addr[1]
        b = [i for i in addr if i != mi][0]
        prog.net_info = {"path": rt.path, "base": b, "mask": mi, "prefix": opt[0], "opt_ty": prog.types[fs[opt[0]]["t"]]}
        return


def load():
    prog = F.load()
    prog.addr_trait = None
    for im in prog.impls:
        if im.get("trait", "").endswith("::IpAddress") or im.get("trait") == "IpAddress":
            prog.addr_trait = im["trait"]
    prog.contract_log = {}
    derive_layout(prog)
    derive_net(prog)
    return prog


# ---------------------------------------------------------------- driver

class Watchdog:
    """Ends a group that is past its deadline by some margin, wherever it is."""
    def __init__(self, kind):
        D.DEADLINE[0] = self.at = deadline(kind)
        self.tid, self.over, self.lock = threading.get_ident(), False, threading.Lock()
        self.done = threading.Event()

    def __enter__(self):
        threading.Thread(target=self.watch, daemon=True).start()
        return self

    def watch(self):
        while not self.done.wait(max(1, self.at + 15 - time.time())):
            with self.lock:
                if self.over:
                    return
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), ctypes.py_object(D.Deadline))
            self.at = time.time()

    def __exit__(self, *a):
        with self.lock:
            self.over = True
            # one that has not been delivered yet
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), None)
        self.done.set()
        return False


def run_group(prog, name, cache=None, own=True):
    """Run one group; returns its Ctx with merged verdicts."""
    from . import groups as G
    from . import textgroups, cmdgroups, algogroups, cligroups  # noqa: registers more groups
    if cache is not None and name in cache:
        return cache[name]
    ctx = Ctx(prog, name)
    t0 = time.time()
    try:
        with Watchdog("sound"):
            G.GROUPS[name](ctx)
    except Missing as e:
        ctx.undecided("anchor %s" % e, "the construct this rule is about is missing: %s" % e)
    except (Undecided, Budget, D.Deadline) as e:
        ctx.undecided("group %s" % name, "%s" % e)
    except RecursionError:
        ctx.undecided("group %s" % name, "term nesting too deep")
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        ctx.undecided("group %s" % name, "engine error: %s: %s at %s" % (type(e).__name__, e, traceback.format_exc().strip().split("\n")[-3:]))
    if own and any(o.und and not o.viol for o in ctx.obs.values()):
        # look for members of the failing regions on exactly traced loop prefixes
        c2 = Ctx(prog, name, "prefix")
        try:
            with Watchdog("exact"):
                G.GROUPS[name](c2)
        except Exception as e:
            if os.environ.get("SA_DEBUG") and not isinstance(e, D.Deadline):
                traceback.print_exc()
            c2.notes.append("prefix pass: %s" % e)
        partial = any(o.und and k.startswith(("analysis of ", "group ")) for k, o in ctx.obs.items())
        for k, o in c2.obs.items():
            if o.viol:
                t = ctx.ob(k, o.where)
                if not t.viol and (t.und or t.n == 0 or partial):
                    t.viol = o.viol
                    t.n = max(t.n, 1)
    D.DEADLINE[0] = None
    ctx.wall = time.time() - t0
    if cache is not None:
        cache[name] = ctx
    return ctx


def closure(names):
    from . import groups as G
    from . import textgroups, cmdgroups, algogroups, cligroups  # noqa
    out = []

    def go(n):
        if n in out:
            return
        for d in G.DEPS.get(n, ()):
            go(d)
        out.append(n)
    for n in names:
        go(n)
    return out


CONTRACT_GROUPS = {"arith": ("arith",), "cidr_prefix": ("prefix",), "cidr_mask": ("mask",), "perm": ("unravel", "weave"),
                   "parse4": ("fromstr32",), "parse6": ("fromstr128",),
                   "disp4": ("disp32",), "disp6": ("disp128",), "padding": ("print",), "binary": ("binary",),
                   "net_derived": ("derived",), "count": ("count",), "bits": ("bits",), "net_ctor": ("ctor",), "report": ("report",), "derange": ("range",)}


def note_contracts(prog, name, ctx):
    """A helper summary is only used when the group that justifies it has been discharged."""
    if not hasattr(prog, "contract_ok"):
        prog.contract_ok = {}
    for kind in CONTRACT_GROUPS.get(name, ()):
        bad = [k for k, o in ctx.obs.items() if (o.viol or o.und) and (name != "perm" or k.startswith(kind))]
        prog.contract_ok[kind] = not bad and any(o.n for o in ctx.obs.values())
        if kind in ("disp32", "disp128"):
            text.DISPLAY_OK[int(kind[4:])] = prog.contract_ok[kind]
