"""Specification world: contracts are functions over W; the same text is used at call sites,
as the postcondition a body is checked against, and (with concrete arguments) as the oracle for replays."""
import hashlib
from . import mem
from .execu import Exec, St, Outcome, Buf, Event, Region, Obl, simp_under, tobytes
from .terms import *


# ------------------------------------------------------------------ environments
class SymEnv:
    concrete = False

    def uf(self, name, args, w):
        if not args:
            return V(name, w)
        return UF(name, args, w)


M32 = 0xffffffff
SMALL = {"cdsize": 160, "codesize": 160, "rds": 160, "callret": 3, "createret": 3, "extcodesize": 100000,
         "blockhashret": 2}
SOURCES = ("cd", "rd", "code", "extcode", "evm")


class ConcEnv:
    """deterministic concrete host environment, the same function host.js implements"""
    concrete = True

    def __init__(self, seed, over=None):
        self.seed = seed
        self.over = dict(over or {})
        self.bases = {}

    def key(self, name, args):
        return "|".join([name] + ["%x" % a.v for a in args])

    def uf(self, name, args, w):
        for a in args:
            if not isc(a):
                raise Exception("concrete specification hit a symbolic argument in " + name)
        k = self.key(name, args)
        if k in self.over:
            return C(self.over[k], w)
        if w == 8 and args and (name in SOURCES or name.startswith("mem.")):
            return C(self.byte(self.key(name, args[:-1]), args[-1].v), 8)
        v = int.from_bytes(self.sha(k)[:(w + 7) // 8], "big") & ((1 << w) - 1)
        if name in SMALL:
            v %= SMALL[name]
        return C(v, w)

    def sha(self, k):
        return hashlib.sha256(("%d|%s" % (self.seed, k)).encode()).digest()

    def byte(self, pre, i):
        b = self.bases.get(pre)
        if b is None:
            b = self.bases[pre] = int.from_bytes(self.sha(pre)[:4], "big")
        x = b ^ (((i + 0x9e3779b9) * 0x85ebca6b) & M32)
        x ^= x >> 15
        x = (x * 0x2c1b3c6d) & M32
        x ^= x >> 12
        x = (x * 0x297a2d39) & M32
        x ^= x >> 15
        return x & 0xff


class W:
    """a world (machine state + host) a specification reads and updates"""

    def __init__(self, ex, st, label):
        self.ex, self.st, self.label = ex, st, label
        self.results = []
        self.needs = []
        self.check = True
        self.full0 = None

    # -- control
    def fork(self, cond):
        """both branches of a case distinction"""
        out = []
        for c in (cond, Not(cond)):
            s = self.st.assume(c)
            if s is None:
                out.append(None)
            else:
                w = W(self.ex, s, self.label)
                w.results, w.needs, w.check, w.full0 = self.results, self.needs, self.check, self.full0
                out.append(w)
        return out

    def cases(self, cond):
        """iterate over (branch taken?, world)"""
        a, b = self.fork(cond)
        if a is not None:
            yield True, a
        if b is not None:
            yield False, b

    def ret(self, v=None):
        self.results.append(Outcome("ret", self.st, v))

    def stop(self, kind, val=None):
        self.results.append(Outcome(kind, self.st, val))

    # -- memory
    def rd(self, p, n):
        return self.ex.load(self.st, p, n, self.label + ": readable argument", self.check)

    def be(self, p, n=32):
        return concat(*self.rd(p, n))

    def le(self, p, n=32):
        return concat(*reversed(self.rd(p, n)))

    def wr(self, p, bs):
        self.ex.store(self.st, p, bs, self.label + ": writable argument", self.check)

    def wr_be(self, p, v):
        self.wr(p, list(reversed(tobytes(v, v.w // 8))))

    def wr_le(self, p, v):
        self.wr(p, tobytes(v, v.w // 8))

    def buf(self, p, n):
        return self.ex.buf(self.st, p, n, self.label + ": readable range")

    def fill(self, p, n, fn):
        self.ex.fnwrite(self.st, p, n, fn, self.label + ": writable range", self.check)

    # -- EVM memory
    @property
    def E(self):
        return self.ex.regions["evm"].base

    def ea(self, off):
        return add(self.E, off)

    def touch(self, need, allow=None):
        """the first `need` bytes of EVM memory become accessible (or the run aborts for lack of memory;
        `allow`: the body may ask for up to this many bytes)"""
        st, ex = self.st, self.ex
        full = ex.gget(st, "Efull")
        # (a specification checked against a body may run out of memory whenever the body may,
        # however much an earlier step over-allocated)
        grow = ult(full if self.full0 is None else self.full0, need if allow is None else allow)
        if grow is FALSE:
            return
        s2 = st.assume(grow)
        if s2 is not None:
            self.results.append(Outcome("oom", s2))
        f2 = ex.fresh("Efull'", 32)
        ex.hyps.append(And(ule(full, f2), ule(need, f2), ule(f2, C(0x80000000, 32))))
        if ex.concrete:
            f2 = C(max(full.v, need.v), 32)
        ex.gset(st, "Efull", f2)
        self.needs.append((st.pc, need))

    def eread(self, off, n):
        """bytes of EVM memory as an instruction operand; reading makes the range accessible"""
        if not isinstance(n, T):
            n = C(n, 32)
        self.touch(end(off, n))
        return self.buf(self.ea(off), n)

    def eword(self, off, n=32):
        return concat(*self.eread(off, n).bytes())

    def pre(self, name, cond, kind="pre"):
        self.ex.oblige(self.label + ": " + name, self.st, cond, kind)

    def disjoint_or_forward(self, name, d, s_, n):
        """obligation: copying bytes in increasing order from s_ to d never reads a byte already written"""
        rd, rs = self.ex.resolve(d), self.ex.resolve(s_)
        for c1, r1, o1 in rd:
            for c2, r2, o2 in rs:
                if r1 is not None and r2 is not None and r1 is not r2:
                    continue
                self.pre(name, Implies(And(c1, c2), Or(ule(o1, o2), ule(add(o2, n), o1))))

    # -- host
    def env(self, name, args, w):
        return self.ex.env.uf(name, list(args), w)

    def field(self, name, n):
        v = self.env(name, [], 8 * n)
        return v

    def event(self, kind, terms=(), bufs=()):
        self.st.ev = self.st.ev + (Event(kind, terms, bufs),)

    def callno(self):
        return C(self.st.gh["ncall"], 32)

    def rd_inside(self, off, n):
        z = self.env("rds", [self.callno()], 32)
        return Or(eq(n, C(0, 32)), And(ule(n, z), ule(off, sub(z, n))))

    def inside_region(self, addr, n):
        out = TRUE
        for c, r, o in self.ex.resolve(addr):
            if r is None:
                out = And(out, Not(c))
                continue
            z = self.ex.rsize(self.st, r)
            out = And(out, Implies(c, And(ule(n, z), ule(o, sub(z, n)))))
        return out

    def inside(self, off, n):
        """the EVM-relative range lies inside the object it points into"""
        return Or(eq(n, C(0, 32)), self.inside_region(self.ea(off), n))

    def region_off(self, addr):
        rr = self.ex.resolve(addr)
        return rr[0][2]

    def ret_word(self, v):
        self.results.append(Outcome("ret", self.st, ("word", v)))

    def power(self, b, e):
        if isc(b) and isc(e):
            return C(pow(b.v, e.v, 1 << b.w), b.w)
        return UF("pow", [b, e], b.w)

    def nev(self, kind):
        return sum(1 for e in self.st.ev if e.kind == kind)

    @property
    def gh(self):
        return Ghost(self.ex, self.st)


class Ghost:
    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def __getitem__(self, k):
        return self.ex.gget(self.st, k)

    def __setitem__(self, k, v):
        self.ex.gset(self.st, k, v)


# ------------------------------------------------------------------ contracts
REG = {}


class Contract:
    def __init__(self, name, props, params, fn, req=None, decreases=None, never_apply=False, ghost=(), cases=None,
                 module="chain", gen=None, notes=(), refs=None, debug=False, variant="", setup=None, soft=False,
                 any_layout=False, custom=None, targets=(), standin=None):
        self.standin = standin
        self.targets = targets
        self.any_layout, self.custom = any_layout, custom
        self.soft = soft
        self.variant = variant
        self.key = name + ("#" + variant if variant else "")
        self.setup = setup
        self.name, self.props, self.params, self.fn = name, props, params, fn
        self.req, self.decreases, self.never_apply = req, decreases, never_apply
        self.ghost, self.cases, self.module, self.gen, self.notes = ghost, cases, module, gen, notes
        self.debug = debug

    def requires(self, w, args):
        return list(self.req(w, *args)) if self.req else []

    def run(self, w, args):
        self.fn(w, *args)


def fn(name, props, params="", **kw):
    ps = []
    for p in params.split():
        n, k = p.split(":")
        ps.append((n, k))
    if isinstance(props, str):
        props = props.split()

    def deco(f):
        c = Contract(name, props, ps, f, **kw)
        REG[c.key] = c
        return f
    return deco


def custom(name, props, **kw):
    """obligations stated directly over the symbolic execution of the code"""
    def deco(f):
        c = Contract(name, props.split(), [], None, custom=f, **kw)
        REG[c.key] = c
        return f
    return deco


def i32(v):
    return C(v, 32)


# ------------------------------------------------------------------ EVM memory ranges
LIM = 0x7fffffff


def rng(what, off, n):
    """precondition: the range [off, off+n) lies in the 31-bit EVM address space the runtime supports"""
    if not isinstance(n, T):
        n = C(n, 32)
    L = C(LIM, 32)
    return (what + " lies below 2^31", And(ule(n, L), ule(off, sub(L, n))))


def end(off, n):
    """bytes of EVM memory a read of n bytes at off makes accessible"""
    if not isinstance(n, T):
        n = C(n, 32)
    return ite(eq(n, C(0, 32)), C(0, 32), add(off, n))


def low160(x):
    return extract(159, 0, x)


def b2i(c, w=32):
    return ite(c, C(1, w), C(0, w))


def kv_base(env, name):
    return lambda k: env.uf(name, [k], 256)
