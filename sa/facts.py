"""Build /repo with the fact-extracting compiler driver and load the resulting program facts."""
import json, os, subprocess, shutil, sys, glob, hashlib, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RIPCALC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER_DIR = os.path.join(VERIF, "driver")


class FactsError(Exception):
    pass


def _sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_driver():
    """Compile the rustc_private driver (a few seconds); returns its path."""
    tgt = os.path.join(BUILD, "driver")
    exe = os.path.join(tgt, "release", "ripfacts")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ)
        env.pop("RUSTC_WORKSPACE_WRAPPER", None)
        env.pop("RUSTFLAGS", None)
        env["CARGO_TARGET_DIR"] = tgt
        r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=DRIVER_DIR, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not os.path.exists(exe):
            raise FactsError("driver build failed:\n" + r.stdout[-4000:])
    return exe


def extract(repo=None, features=None):
    """Run the driver over the crate's current working tree; returns the parsed JSON facts."""
    repo = repo or REPO
    exe = build_driver()
    tgt = os.path.join(BUILD, "check")
    tag = hashlib.sha1((os.path.abspath(repo) + repr(features)).encode()).hexdigest()[:10]
    out = os.path.join(BUILD, "facts-%s-%d.json" % (tag, os.getpid()))
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env["CARGO_TARGET_DIR"] = tgt
    env["RUSTC_WORKSPACE_WRAPPER"] = exe
    env["LD_LIBRARY_PATH"] = os.path.join(_sysroot(), "lib")
    env["RIPFACTS_OUT"] = out
    with open(os.path.join(BUILD, ".lock2"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # force re-analysis: drop everything cargo remembers about the crate itself (dependencies stay)
        for p in (glob.glob(os.path.join(tgt, "debug", ".fingerprint", "ripcalc-*"))
                  + glob.glob(os.path.join(tgt, "debug", "build", "ripcalc"))
                  + glob.glob(os.path.join(tgt, "debug", "incremental", "ripcalc-*"))):
            shutil.rmtree(p)
        cmd = ["cargo", "+nightly", "check", "--offline", "-q", "--manifest-path", os.path.join(repo, "Cargo.toml")]
        if features is not None:
            cmd += ["--no-default-features"] + (["--features", ",".join(features)] if features else [])
        lockf = os.path.join(repo, "Cargo.lock")
        before = open(lockf, "rb").read() if os.path.exists(lockf) else None
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=repo)
        if before is not None and open(lockf, "rb").read() != before:
            open(lockf, "wb").write(before)
    if r.returncode != 0 or not os.path.exists(out):
        raise FactsError("analysis build failed:\n" + r.stdout[-6000:])
    with open(out) as f:
        d = json.load(f)
    os.unlink(out)
    return d


def typecheck(repo=None, features=None):
    """Only type-check a feature combination; returns (ok, compiler output)."""
    repo = repo or REPO
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "check")
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    cmd = ["cargo", "+nightly", "check", "--offline", "-q", "--manifest-path", os.path.join(repo, "Cargo.toml")]
    if features is not None:
        cmd += ["--no-default-features"] + (["--features", ",".join(features)] if features else [])
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=repo)
    return r.returncode == 0, r.stdout


class Ty:
    __slots__ = ("id", "k", "d", "s", "prog")

    def __init__(self, id, d, prog):
        self.id, self.d, self.k, self.s, self.prog = id, d, d["k"], d["s"], prog

    def __repr__(self):
        return self.s

    @property
    def path(self):
        return self.d.get("path")

    @property
    def bits(self):
        return self.d["bits"]

    @property
    def signed(self):
        return self.d["signed"]

    @property
    def inner(self):
        return self.prog.types[self.d["t"]]

    @property
    def args(self):
        return [self.prog.types[i] for i in self.d.get("args", [])]

    @property
    def variants(self):
        return self.d["variants"]

    def field_ty(self, variant, i):
        if self.k == "adt":
            return self.prog.types[self.d["variants"][variant]["f"][i]["t"]]
        if self.k == "tuple":
            return self.prog.types[self.d["ts"][i]]
        if self.k == "closure":
            return self.prog.types[self.d["upvars"][i]]
        raise KeyError((self.s, variant, i))


class Fn:
    __slots__ = ("id", "path", "full", "local", "d", "body", "name", "prog", "_cfg", "args")

    def __init__(self, id, d, prog):
        self.id, self.d, self.prog = id, d, prog
        self.path, self.full, self.local = d["path"], d["full"], d["local"]
        self.body = d.get("body")
        self.name = d.get("name") or self.path
        self.args = [prog.types[i] for i in d["args"]]
        self._cfg = None

    def __repr__(self):
        return "fn " + self.full

    @property
    def span(self):
        return self.body["span"] if self.body else "?"

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    return []


class Cfg:
    """Reverse postorder, natural loops (normal control flow only; unwind paths are not followed)."""

    def __init__(self, fn):
        B = fn.body["blocks"]
        self.n = len(B)
        self.succ = [succs(b["t"]) for b in B]
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                order.append(b)
                stack.pop()
        self.rpo = list(reversed(order))
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._live(fn)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = new, p
                    while a != c:
                        while self.idx[a] > self.idx[c]:
                            a = idom[a]
                        while self.idx[c] > self.idx[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])

    def _live(self, fn):
        """live_in[b]: locals whose value may still be read at the start of block b.  Locals whose
        address is ever taken, and the return place, always count as live."""
        B = fn.body["blocks"]
        taken = {0}

        def uses(x, out):
            if isinstance(x, list):
                if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list) and all(isinstance(y, list) for y in x[1]):
                    out.add(x[0])
                    for y in x[1]:
                        uses(y, out)
                        if len(y) == 2 and y[0] == "i":
                            out.add(y[1])
                    return
                for y in x:
                    uses(y, out)
        gen, kill = {}, {}
        for b in self.rpo:
            g, k = set(), set()
            stm = B[b]["s"]
            for s in stm:
                if s[0] == "=":
                    u = set()
                    uses(s[2], u)
                    if s[2] and s[2][0] in ("ref", "raw"):
                        taken |= u
                    if s[1][1]:
                        uses(s[1], u)
                    g |= u - k
                    if not s[1][1]:
                        k.add(s[1][0])
                elif s[0] in ("live", "dead"):
                    k.add(s[1])
                else:
                    u = set()
                    uses(s[1:], u)
                    g |= u - k
            t = B[b]["t"]
            u = set()
            if t[0] == "call":
                for j, y in enumerate(t[1:]):
                    if j == 2 and isinstance(y, list) and len(y) == 2 and y[1] == []:
                        continue
                    uses(y, u)
                if isinstance(t[1], list):
                    uses([t[1]], u)
            else:
                uses(t[1:], u)
            g |= u - k
            gen[b], kill[b] = g, k
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                # the destination of a call is written on the way out of the block
                t = B[b]["t"]
                if t[0] == "call" and isinstance(t[3], list) and t[3][1] == []:
                    o = o - {t[3][0]}
                n = gen[b] | (o - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live_in = {b: frozenset(live[b] | taken) for b in self.rpo}

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


class Program:
    def __init__(self, d):
        self.raw = d
        self.types = [Ty(i, t, self) if t else None for i, t in enumerate(d["types"])]
        self.fns = {i: Fn(i, x, self) for i, x in d["insts"]}
        self.entry = d["entry"]
        self.statics = {p: j for p, j in d["statics"]}
        self.addr_types = [self.types[i] for i in d["addr_types"]]
        self.fnlist = d["fns"]
        self.impls = d["impls"]
        self.by_path = {}
        for f in self.fns.values():
            self.by_path.setdefault(f.path, []).append(f)
        # local trait impl methods: (trait, method, self type id) -> Fn
        self.impl_methods = {}
        for f in self.fns.values():
            if f.d.get("impl_trait"):
                self.impl_methods[(f.d["impl_trait"], f.name, f.d["impl_self"])] = f
        self.tyid_by_s = {t.s: t for t in self.types if t}

    def local_fns(self):
        return [f for f in self.fns.values() if f.local and f.body]

    def find(self, suffix, args=None):
        """Local functions whose path ends with the given suffix (optionally with a given first type arg)."""
        r = []
        for f in self.fns.values():
            if f.local and f.body and (f.path == suffix or f.path.endswith("::" + suffix)):
                if args is None or [a.s for a in f.args] == args:
                    r.append(f)
        return r

    def impl_method(self, trait, method, ty):
        return self.impl_methods.get((trait, method, ty.id if isinstance(ty, Ty) else ty))


def load(repo=None):
    return Program(extract(repo))
