"""Deductive verification of Rust functions over MIR against a specification automaton.

A function that turns an input text into an output text is verified together with its specification, a
transducer that reads the same characters: every path between two loop headers is executed symbolically
(for any character, any number of iterations), and the invariant of each header - which relates the code's
variables, its cursors and its output buffer to the transducer's mode, registers and output - is a set of
candidate facts from which everything that is not preserved by some path is removed (Houdini), so what is
left is inductive.  Obligations: every panic site (overflow, slicing, unwrap, assert, unreachable) is
unreachable, the output equals the transducer's at every return, and every cycle consumes input
(termination).  Library calls are replaced by the contracts in `std_call`.

Assumed: input shorter than 2^30 bytes, &str is valid UTF-8, allocation succeeds.
"""
import re

from vf import mir, solve
from vf.terms import (C, V, T, TRUE, FALSE, And, Or, Not, Implies, eq, ne, ult, ule, slt, sle, add, sub, mul, udiv, urem,
                      sdiv, srem, band, bor, bxor, bnot, neg, shl, lshr, ashr, zext, sext, trunc, ite, isc, istrue, isfalse,
                      subst, extract, leaves)

MARK = "<Lexer error"
TOT = V("TOT", 64)
AXIOMS = [ult(TOT, C(1 << 30, 64))]


class Unsup(Exception):
    pass


class Bad(Exception):
    """a failed obligation"""


class NeedFork(Exception):
    """a flag at a loop header is not decided yet"""

    def __init__(self, t):
        super().__init__("flag")
        self.t = t


class Agg:
    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty, self.var, self.f = ty, var, tuple(f)

    def __repr__(self):
        return "%s::%s%r" % (self.ty, self.var, self.f)


class Ref:
    __slots__ = ("d", "l", "p")

    def __init__(self, d, l, p):
        self.d, self.l, self.p = d, l, tuple(p)

    def __repr__(self):
        return "&%d._%d%r" % (self.d, self.l, self.p)


class CRef:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "&const %r" % (self.v,)


class Str:
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __repr__(self):
        return "str[%s..%s]" % (self.lo, self.hi)


class Lit:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Lit(%r)" % (self.s,)


class It:
    __slots__ = ("kind", "lo", "hi")

    def __init__(self, kind, lo, hi):
        self.kind, self.lo, self.hi = kind, lo, hi

    def __repr__(self):
        return "%s[%s..%s]" % (self.kind, self.lo, self.hi)


class Buf:
    __slots__ = ("kind", "k", "lits")

    def __init__(self, kind, k=0, lits=()):
        self.kind, self.k, self.lits = kind, k, tuple(lits)

    def __repr__(self):
        return "Buf(%s,%d,%r)" % (self.kind, self.k, self.lits)


class Seq:
    """byte sequence: segments ('b', term8) or ('in', name, length term, offset in the input)"""
    __slots__ = ("segs",)

    def __init__(self, segs):
        self.segs = tuple(segs)

    def __repr__(self):
        return "Seq%r" % (self.segs,)


class Opq:
    __slots__ = ("tag", "v")

    def __init__(self, tag, v=None):
        self.tag, self.v = tag, v

    def __repr__(self):
        return "Opq(%s,%r)" % (self.tag, self.v)


UNIT = Agg("()", None, ())
NONE = Agg("Option", "None", ())


def some(v):
    return Agg("Option", "Some", (v,))


def vmap(v, fn):
    """apply fn to every term of a value"""
    if isinstance(v, T):
        return fn(v)
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [vmap(x, fn) for x in v.f])
    if isinstance(v, CRef):
        return CRef(vmap(v.v, fn))
    if isinstance(v, Buf):
        return Buf(v.kind, v.k, [fn(x) for x in v.lits])
    if isinstance(v, Seq):
        return Seq([tuple(fn(x) if isinstance(x, T) else x for x in s) for s in v.segs])
    return v


class Frame:
    __slots__ = ("fn", "bb", "i", "loc", "dst", "ret", "sync")

    def __init__(self, fn, dst=None, ret=None, sync=False):
        self.fn, self.bb, self.i, self.loc, self.dst, self.ret, self.sync = fn, "bb0", 0, {}, dst, ret, sync

    def copy(self):
        f = Frame(self.fn, self.dst, self.ret, self.sync)
        f.bb, f.i, f.loc = self.bb, self.i, dict(self.loc)
        return f


class Ch:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class Run:
    """a possibly empty run of characters of one set, ended by end of input or another character"""
    __slots__ = ("chars", "n", "has", "uid")

    def __init__(self, chars, n, has, uid):
        self.chars, self.n, self.has, self.uid = chars, n, has, uid


def len8(c):
    """len_utf8 as a 64-bit term"""
    return ite(ult(c, C(0x80, 32)), C(1, 64), ite(ult(c, C(0x800, 32)), C(2, 64),
               ite(ult(c, C(0x10000, 32)), C(3, 64), C(4, 64))))


def ilen(it):
    return len8(it.c) if isinstance(it, Ch) else it.n


def valid(c):
    return Or(ult(c, C(0xd800, 32)), And(ule(C(0xe000, 32), c), ult(c, C(0x110000, 32))))


class State:
    def __init__(self):
        self.frames, self.items, self.eof, self.P, self.pc = [], [], False, C(0, 64), []
        self.allc, self.smode, self.sregs, self.sp = (), None, {}, []
        self.total = True           # spec output since the start is exactly sp
        self.trace = ()
        self.last = {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.items, s.eof, s.P, s.pc = list(self.items), self.eof, self.P, list(self.pc)
        s.allc, s.smode, s.sregs, s.sp = self.allc, self.smode, dict(self.sregs), list(self.sp)
        s.total, s.trace = self.total, self.trace
        return s

    def mapterms(self, fn):
        for f in self.frames:
            for k in f.loc:
                f.loc[k] = vmap(f.loc[k], fn)
        self.items = [Ch(fn(i.c)) if isinstance(i, Ch) else i for i in self.items]
        self.P = fn(self.P)
        self.pc = [fn(x) for x in self.pc]
        self.sregs = {k: fn(x) for k, x in self.sregs.items()}
        self.sp = [fn(x) for x in self.sp]

    def pos(self, k):
        return add(self.P, *[ilen(i) for i in self.items[:k]]) if k else self.P


BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64,
        "char": 32, "u128": 128, "i128": 128}


def fresh_name(ctr=[0]):
    ctr[0] += 1
    return ctr[0]


class Tmpl:
    def __init__(self, cls, facts, st):
        self.cls, self.facts, self.st, self.dirty, self.seen = cls, facts, st, True, 1


class Exec:
    def __init__(self, fns, enums, spec, timeout=4000):
        self.fns, self.enums, self.spec = fns, dict(enums), spec
        self.enums.update(Option=["None", "Some"], Result=["Ok", "Err"], ControlFlow=["Continue", "Break"])
        self.timeout = timeout
        self.cuts = {}
        self.consts_seen = {}
        self.edges = {}
        self.fails = []
        self.obls = {}
        self.used_std = set()
        self.used_fns = set()
        self.cache = {}
        self.preds = {}
        self.qs = {}
        self.byname = {}
        for n, f in fns.items():
            self.byname.setdefault(n.split("::")[-1] if not n.endswith("]") else n, []).append(f)
        self.steps = 0
        self.limit = 400000
        self.debug = False
        self.pool = set()

    # ------------------------------------------------------------ logic
    def sat(self, conds):
        conds = list(conds)
        f = And(*((AXIOMS if any(big(c) for c in conds) else []) + conds))
        if f is FALSE:
            return False
        r = self.cache.get(f.id)
        if r is None:
            import time
            t0 = time.time()
            k, m = solve.check([f], self.timeout)
            b = (any(big(c) for c in conds), k)
            q = self.qs.setdefault(b, [0, 0.0])
            q[0] += 1
            q[1] += time.time() - t0
            r = self.cache[f.id] = (k, f)
        if r[0] == "unknown":
            raise Unsup("solver gave no answer")
        return r[0] == "sat"

    def assume(self, st, c):
        """add a path condition; False when infeasible"""
        st.last = {}
        if istrue(c):
            return True
        if isfalse(c):
            return False
        # a condition on characters alone: the facts about positions are left out (over-approximates)
        near = [x for x in st.pc if not big(x)] if not big(c) else st.pc
        if not self.sat(near + [c]):
            return False
        m = {}
        for q in (c.a if c.op == "band" else (c,)):
            if q.op == "eq":
                a, b = q.a
                if isc(a):
                    a, b = b, a
                if a.op == "var" and isc(b) and a is not TOT:
                    m[a] = b
        if m:
            st.mapterms(lambda t: subst(t, m))
            c = subst(c, m)
        if not istrue(c):
            st.pc.append(c)
        st.last = m
        return True

    def obvious(self, st, c):
        """literally a known fact, or a lower bound read off a sum"""
        if istrue(c) or any(c is x for x in st.pc):
            return True
        if c.op == "band":
            return all(self.obvious(st, x) for x in c.a)
        if c.op == "bnot" and c.a[0].op == "ult" and c.a[0].a[0].w == 64 and isc(c.a[0].a[1]):
            return self.lower(st, c.a[0].a[0]) >= c.a[0].a[1].v
        if c.op == "ult" and c.a[0].w == 64 and (isc(c.a[0]) or c.a[0].op == "var"):
            if isc(c.a[0]):
                return self.lower(st, c.a[1]) > c.a[0].v
            d = sub(c.a[1], c.a[0])
            return self.lower(st, d) > 0 and self.small(st, c.a[0])
        if c.op == "bnot" and c.a[0].op == "ult" and c.a[0].a[0].w == 64:
            a, b = c.a[0].a                     # a >= b
            return b.op == "var" and b is not TOT and self.lower(st, sub(a, b)) >= 0 and self.small(st, b) and a is not TOT
        return False

    def small(self, st, t):
        """known to be at most TOT, hence below 2^30"""
        if t.op != "var" or t.w != 64:
            return False
        le = ule(t, TOT)
        return t.v.startswith("run") or any(x is le for x in st.pc)

    def lower(self, st, t):
        """a lower bound of a sum of positions and character lengths (-1: none)"""
        if isc(t):
            return t.v if t.v < 1 << 40 else -1
        if t.op == "lin":
            r = 0
            for y, k in zip(t.a, t.v[:-1]):
                if k != 1:
                    return -1
                l = self.lower(st, y)
                if l < 0:
                    return -1
                r += l
            return r + t.v[-1] if t.v[-1] < 1 << 40 else -1
        if t.op == "ite":
            a, b = self.lower(st, t.a[1]), self.lower(st, t.a[2])
            return min(a, b)
        if self.small(st, t):
            r = 0
            for x in st.pc:
                if x.op == "bnot" and x.a[0].op == "ult" and x.a[0].a[0] is t and isc(x.a[0].a[1]):
                    r = max(r, x.a[0].a[1].v)
                elif x.op == "bnot" and x.a[0].op == "eq" and x.a[0].a[1] is t and isc(x.a[0].a[0]) and x.a[0].a[0].v == 0:
                    r = max(r, 1)
            return r
        return -1

    def entails(self, st, c):
        if self.obvious(st, c):
            return True
        return not self.sat(st.pc + [Not(c)])

    def houdini(self, pc, fs):
        """the largest subset of facts entailed by pc"""
        while fs:
            g = And(*(pc + [Not(And(*[c for _, c in fs]))]))
            if g is FALSE:
                break
            k, m = solve.check([g], self.timeout)
            if k == "unsat":
                break
            if k != "sat":
                raise Unsup("solver gave no answer")
            n = [(f, c) for f, c in fs if m.z(c)]
            if len(n) == len(fs):
                raise Unsup("model does not decide the facts")
            fs = n
        return fs

    def keep(self, st, facts, slots):
        """the facts that hold of this state, found with counterexamples"""
        fs = [(f, f[1](slots)) for f in facts]
        ok = {f[0] for f, c in fs if self.obvious(st, c)}
        fs = [(f, c) for f, c in fs if f[0] not in ok and not f[0].startswith("P>=")]
        # facts about values alone need no positions
        near = [x for x in st.pc if not big(x)]
        val = [(f, c) for f, c in fs if not big(c)]
        good = self.houdini(near, val)
        ok |= {f[0] for f, _ in good}
        fs = [(f, c) for f, c in fs if f[0] not in ok]
        if any("<2^31" in f[0] or big(c) for f, c in fs):
            fs = self.houdini(AXIOMS + st.pc, [(f, c) for f, c in fs if big(c) or "<2^31" in f[0]])
        else:
            fs = []
        ok |= {f[0] for f, _ in fs}
        return [f for f in facts if f[0] in ok]

    def fork(self, st, conds):
        """[(index, state)] for the feasible ones"""
        out = []
        for i, c in enumerate(conds):
            if isfalse(c):
                continue
            s = st.copy()
            if self.assume(s, c):
                out.append((i, s))
        return out

    def oblige(self, st, c, what):
        self.obls[what] = self.obls.get(what, 0) + 1
        if self.obvious(st, c):
            return
        if isfalse(c) or self.sat(st.pc + [Not(c)]):
            raise Bad(what)

    # ------------------------------------------------------------ places
    def walk(self, st, d, place):
        """resolve to (depth, local, proj) or ('val', value)"""
        l, proj = place
        cur = (d, l, ())
        for p in proj:
            if p[0] == "*":
                v = self.get(st, cur)
                if isinstance(v, Ref):
                    cur = (v.d, v.l, v.p)
                elif isinstance(v, CRef):
                    cur = ("val", v.v, ())
                elif isinstance(v, (Str, Lit, Seq)):
                    cur = ("val", v, ())
                else:
                    raise Unsup("deref of %r" % (v,))
            elif p[0] == "v":
                continue
            elif p[0] in ("f", "ci"):
                cur = (cur[0], cur[1], cur[2] + (p[1],))
            elif p[0] == "i":
                ix = self.get(st, (d, p[1], ()))
                if not (isinstance(ix, T) and isc(ix)):
                    raise Unsup("symbolic index")
                cur = (cur[0], cur[1], cur[2] + (ix.v,))
        return cur

    def get(self, st, cur):
        if cur[0] == "val":
            v = cur[1]
        else:
            loc = st.frames[cur[0]].loc
            if cur[1] not in loc:
                raise Unsup("read of an unset local")
            v = loc[cur[1]]
        for i in cur[2]:
            if isinstance(v, Agg):
                if i >= len(v.f):
                    raise Unsup("field of %r" % (v,))
                v = v.f[i]
            elif isinstance(v, Seq):
                v = seqbyte(v, i)
            else:
                raise Unsup("projection into %r" % (v,))
        return v

    def put(self, st, cur, val):
        if cur[0] == "val":
            raise Unsup("write to a constant")

        def upd(v, path):
            if not path:
                return val
            if not isinstance(v, Agg):
                raise Unsup("write into %r" % (v,))
            f = list(v.f)
            f[path[0]] = upd(f[path[0]], path[1:])
            return Agg(v.ty, v.var, f)
        loc = st.frames[cur[0]].loc
        loc[cur[1]] = upd(loc.get(cur[1]), cur[2])

    def read(self, st, place):
        return self.get(st, self.walk(st, len(st.frames) - 1, place))

    def write(self, st, place, v):
        self.put(st, self.walk(st, len(st.frames) - 1, place), v)

    def deref(self, st, v):
        """value behind any number of references"""
        n = 0
        while isinstance(v, (Ref, CRef)):
            v = self.get(st, (v.d, v.l, v.p)) if isinstance(v, Ref) else v.v
            n += 1
            if n > 20:
                raise Unsup("reference cycle")
        return v

    def target(self, st, v):
        """the innermost reference of a chain (for writing through it)"""
        while True:
            if not isinstance(v, Ref):
                raise Unsup("not a mutable reference: %r" % (v,))
            w = self.get(st, (v.d, v.l, v.p))
            if isinstance(w, Ref):
                v = w
                continue
            return v, w

    # ------------------------------------------------------------ operands
    def const(self, s):
        s = s.strip()
        if s in ("true", "false"):
            return TRUE if s == "true" else FALSE
        if s == "()":
            return UNIT
        m = re.match(r"(-?\d+)_(\w+)$", s)
        if m:
            return C(int(m.group(1)), BITS[m.group(2)])
        if s.startswith("'"):
            return C(ord(unesc(s[1:-1])), 32)
        if s.startswith('"'):
            return Lit(unesc(s[1:-1]))
        if s.startswith('b"'):
            return CRef(Agg("[]", None, [C(ord(x), 8) for x in unesc(s[2:-1])]))
        if s.startswith('b"'):
            return CRef(Opq("bytes", unesc_b(s[2:-1])))
        m = re.match(r"ZeroSized: (.*)$", s)
        if m:
            return Agg(m.group(1), None, ())
        m = re.match(r"(?:core|std)::num::<impl (\w+)>::(MAX|MIN|BITS)$", s) or re.match(r"(\w+)::(MAX|MIN|BITS)$", s)
        if m and m.group(1) in BITS and m.group(1) != "char":
            w, sg = BITS[m.group(1)], m.group(1)[0] == "i"
            return {"MAX": C((1 << (w - sg)) - 1, w), "MIN": C(1 << (w - 1) if sg else 0, w), "BITS": C(w, 32)}[m.group(2)]
        f = self.fns.get(s) or self.fns.get(s.split("::")[-1]) if not s.endswith("]") else self.fns.get(s)
        if f is None and s.endswith("]"):
            c = [g for n, g in self.fns.items() if n.endswith(s) or s.endswith(n)]
            f = c[0] if len(c) == 1 else None
        if f is not None and not f.params and f.blocks:
            sub_ = State()
            sub_.smode = "DC"
            sub_.frames = [Frame(f)]
            r = self.sync(sub_, 0, "const")
            if len(r) != 1:
                raise Unsup("constant %s" % s)
            return r[0][1]
        if re.match(r"(\w+::)*RangeFull$", s):
            return Agg("RangeFull", None, ())
        segs = mir.strip_generics(s).split("::")
        if len(segs) >= 2 and segs[-2] in self.enums and segs[-1] in self.enums[segs[-2]]:
            return Agg(segs[-2], segs[-1], ())
        raise Unsup("constant %s" % s[:60])

    def freeze(self, st, v):
        """references into a finished evaluation become references to constants"""
        if isinstance(v, Ref):
            return CRef(self.freeze(st, self.get(st, (v.d, v.l, v.p))))
        if isinstance(v, Agg):
            return Agg(v.ty, v.var, [self.freeze(st, x) for x in v.f])
        return v

    def operand(self, st, o):
        if o[0] == "const":
            return self.const(o[1])
        return self.read(st, o[1])

    def optype(self, st, o):
        f = st.frames[-1].fn
        if o[0] == "const":
            s = o[1]
            m = re.match(r"-?\d+_(\w+)$", s)
            if m:
                return m.group(1)
            m = re.search(r"<impl (\w+)>::|^(\w+)::(MAX|MIN)$", s)
            if m:
                return m.group(1) or m.group(2)
            return "char" if s.startswith("'") else "bool" if s in ("true", "false") else "?"
        t = f.types.get(o[1][0], "?")
        for p in o[1][1]:
            if p[0] == "*":
                t = re.sub(r"^&('\w+ )?(mut )?", "", t)
            elif p[0] == "f":
                t = p[2]
        return t

    def term(self, v):
        if not isinstance(v, T):
            raise Unsup("not a scalar: %r" % (v,))
        return v

    def rvalue(self, st, r):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref":
            cur = self.walk(st, len(st.frames) - 1, r[1])
            if cur[0] == "val":
                v = self.get(st, cur)
                return v if isinstance(v, (Str, Lit, Seq)) else CRef(v)
            v = self.get(st, cur) if r[1][1] and r[1][1][-1][0] == "*" else None
            if isinstance(v, (Str, Lit)):
                return v
            return Ref(*cur)
        if k == "discr":
            v = self.read(st, r[1])
            if isinstance(v, Agg) and v.var is not None:
                vs = self.enums.get(v.ty.split("::")[-1])
                if vs and v.var in vs:
                    return C(vs.index(v.var), 64)
            raise Unsup("discriminant of %r" % (v,))
        if k == "len":
            v = self.deref(st, self.operand(st, r[1]))
            if isinstance(v, Seq):
                return seqlen(v)
            if isinstance(v, Agg) and v.ty == "[]":
                return C(len(v.f), 64)
            raise Unsup("length of %r" % (v,))
        if k == "agg":
            ops = [self.operand(st, o) for o in r[3]]
            return Agg(r[1], r[2], ops)
        if k == "rep":
            return Agg("[]", None, [self.operand(st, r[1])] * r[2])
        if k == "cast":
            v = self.operand(st, r[1])
            if r[3] == "PointerCoercion":
                return v
            if r[3] == "IntToInt":
                v = self.term(v)
                if r[2] not in BITS:
                    raise Unsup("cast to " + r[2])
                w, src = BITS[r[2]], self.optype(st, r[1])
                if v.w == 0:
                    return ite(v, C(1, w), C(0, w))
                if w <= v.w:
                    return trunc(v, w)
                return sext(v, w) if src.startswith("i") else zext(v, w)
            raise Unsup("cast " + r[3])
        if k == "un":
            v = self.term(self.operand(st, r[2]))
            return (Not(v) if v.w == 0 else bnot(v)) if r[1] == "Not" else neg(v)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), self.optype(st, r[2]))
        raise Unsup("rvalue " + k)

    def binop(self, st, op, a, b, ty):
        a, b = self.term(a), self.term(b)
        sg = ty.startswith("i")
        if a.w == 0:
            f = {"Eq": lambda: Or(And(a, b), And(Not(a), Not(b))), "Ne": lambda: Or(And(a, Not(b)), And(Not(a), b)),
                 "BitAnd": lambda: And(a, b), "BitOr": lambda: Or(a, b),
                 "BitXor": lambda: Or(And(a, Not(b)), And(Not(a), b))}.get(op)
            if not f:
                raise Unsup("boolean " + op)
            return f()
        if op in ("Shl", "Shr"):
            b = zext(b, a.w) if b.w < a.w else trunc(b, a.w)
            b = band(b, C(a.w - 1, a.w))
            return shl(a, b) if op == "Shl" else ashr(a, b) if sg else lshr(a, b)
        if op.endswith("WithOverflow"):
            f = {"Add": add, "Sub": sub, "Mul": mul}[op[:3]]
            r = f(a, b)
            w = a.w
            if op[:3] == "Add" and not sg:
                ov = ult(r, a)
            elif op[:3] == "Sub" and not sg:
                ov = ult(a, b)
            else:
                ext = sext if sg else zext
                ov = ne(f(ext(a, 2 * w), ext(b, 2 * w)), ext(r, 2 * w))
            return Agg("()", None, (r, ov))
        f = {"Add": add, "Sub": sub, "Mul": mul, "BitAnd": band, "BitOr": bor, "BitXor": bxor, "Eq": eq, "Ne": ne,
             "Lt": slt if sg else ult, "Le": sle if sg else ule,
             "Gt": lambda x, y: (slt if sg else ult)(y, x), "Ge": lambda x, y: (sle if sg else ule)(y, x),
             "Div": sdiv if sg else udiv, "Rem": srem if sg else urem}.get(op)
        if not f:
            raise Unsup("operator " + op)
        return f(a, b)

    # ------------------------------------------------------------ the input and the specification
    def spec_fork(self, st, alts):
        """alts: (cond, mode, regs, outs) -> states"""
        out = []
        for i, s in self.fork(st, [a[0] for a in alts]):
            m = s.last          # an assumption may have replaced variables
            s.smode = "DC" if alts[i][1] == "FIND" else alts[i][1]
            s.sregs = {k: subst(v, m) for k, v in alts[i][2].items()}
            s.sp += [subst(o, m) for o in alts[i][3]]
            out.append(s)
        return out

    def draw(self, st):
        """the input continues: [(state, item or None)]"""
        out = []
        e = st.copy()
        # (always possible: the text drawn so far can be all there is)
        e.pc.append(eq(TOT, e.pos(len(e.items))))
        if True:
            e.eof = True
            for s in self.spec_fork(e, self.spec.eof(e.smode, e.sregs)):
                out.append((s, None))
        n = st.copy()
        c = V("ch%d" % fresh_name(), 32)
        n.items.append(Ch(c))
        n.pc += [valid(c), ule(n.pos(len(n.items)), TOT)] + [f(c) for _, f in n.allc]
        ok = True
        last = n.items[-2] if len(n.items) > 1 else None
        if ok and isinstance(last, Run):
            ok = self.assume(n, And(*[ne(c, C(x, 32)) for x in last.chars]))
        if ok:
            for s in self.spec_fork(n, self.spec.step(n.smode, n.sregs, c)):
                out.append((s, s.items[-1]))
        return out

    def at(self, st, it):
        """[(state, char term or None)] at a cursor"""
        if isinstance(it.hi, int) and it.lo >= it.hi:
            return [(st, None)]
        if it.lo < len(st.items):
            x = st.items[it.lo]
            if isinstance(x, Run):
                raise Unsup("reading inside a run")
            return [(st, x.c)]
        if st.eof:
            return [(st, None)]
        return [(s, None if x is None else s.items[it.lo].c) for s, x in self.draw(st)]

    # ------------------------------------------------------------ buffers
    def norm(self, st, b):
        """drop the spec output the buffer already holds"""
        if b.kind == "lit":
            t = ""
            for c in b.lits:
                if not isc(c):
                    break
                t += chr(c.v)
            if t.startswith(MARK):
                return Buf("tag")
            return b
        if b.kind != "rel":
            return b
        k, l = b.k, list(b.lits)
        while l and k < len(st.sp):
            if not self.entails(st, eq(l[0], st.sp[k])):
                return Buf("havoc")
            l.pop(0)
            k += 1
        return Buf("rel", k, l)

    def torel(self, st, b):
        if b.kind == "lit" and st.total:
            return self.norm(st, Buf("rel", 0, b.lits))
        return b

    def push(self, st, b, chars):
        if not isinstance(b, Buf):
            raise Unsup("push to %r" % (b,))
        if b.kind in ("tag", "havoc"):
            return b
        return self.norm(st, Buf(b.kind, b.k, b.lits + tuple(chars)))

    # ------------------------------------------------------------ running
    def find_fn(self, callee, args, st):
        """local function for a callee path, or None"""
        p = mir.strip_generics(callee)
        if p in self.fns:
            return self.fns[p]
        last = p.split("::")[-1]
        c = [f for f in self.byname.get(last, []) if len(f.params) == len(args) and f.blocks]
        if not c:
            return None
        # a free function named the same, or a method of a local type
        q = [f for f in c if f.name.split("::")[-1] == last and (f.name == last or f.name.endswith("::" + last))]
        lead = p.split("::")[:-1]
        loc = [f for f in q if not f.name.startswith("<impl")]
        if loc and (not lead or lead[-1] in [x.split("::")[-2] if "::" in x else "" for x in self.fns] or lead[-1] in ("self", "crate")):
            return loc[0] if len(loc) == 1 else None
        m = [f for f in q if f.name.startswith("<impl")]
        if m and args and lead:
            ty = re.sub(r"^<(&?)([\w:]+).*", r"\2", callee) if callee.startswith("<") else lead[-1]
            ty = ty.split("::")[-1]
            m = [f for f in m if ty in (base(f.params[0][1]) if f.params else "", base(f.ret))]
            if len(m) == 1:
                return m[0]
        elif m and not args and lead:
            m = [f for f in m if base(f.ret) == lead[-1]]
            if len(m) == 1:
                return m[0]
        return None

    def enter(self, st, fn, args, dst, ret, sync=False):
        if len(st.frames) > 12:
            raise Unsup("call depth")
        self.used_fns.add(fn.name)
        f = Frame(fn, dst, ret, sync)
        for (n, _), v in zip(fn.params, args):
            f.loc[n] = v
        st.frames.append(f)

    def closure_fn(self, v):
        ty = v.ty
        for f in self.fns.values():
            if f.params and re.sub(r"^&('\w+ )?(mut )?", "", f.params[0][1]) == ty and "{closure#" in f.name:
                return f
        raise Unsup("closure " + ty)

    def call_closure(self, st, clo, args):
        """run a closure to completion: [(state, value)]"""
        cv = self.deref(st, clo)
        if not isinstance(cv, Agg):
            raise Unsup("callable %r" % (cv,))
        f = self.closure_fn(cv)
        byref = f.params[0][1].startswith("&")
        self_ = cv
        if byref:
            self_ = clo if isinstance(clo, (Ref, CRef)) else CRef(cv)
            if isinstance(self_, Ref):
                self_ = self.target(st, self_)[0]
        s = st.copy()
        self.enter(s, f, [self_] + list(args), None, None, sync=True)
        return self.sync(s, len(s.frames) - 1)

    def sync(self, st, depth, how=True):
        """run until frame `depth` returns; no loop headers allowed"""
        st.frames[depth].sync = how
        out, work = [], [st]
        while work:
            s = work.pop()
            for kind, x in self.block(s):
                if kind == "done":
                    out.append(x)
                else:
                    f = x.frames[-1]
                    if f.i == 0 and f.bb in mir.heads(f.fn):
                        raise Unsup("loop inside a closure")
                    work.append(x)
        return out

    def block(self, st):
        """run one state to its next block boundary: [('go', state) | ('done', (state, value))]"""
        while True:
            self.steps += 1
            if self.steps > self.limit:
                raise Unsup("too many steps")
            f = st.frames[-1]
            stmts = f.fn.blocks[f.bb]
            if f.i >= len(stmts):
                raise Unsup("block %s of %s has no end" % (f.bb, f.fn.name))
            s = stmts[f.i]
            k = s[0]
            if k == "nop":
                f.i += 1
            elif k == "assign":
                self.write(st, s[1], self.rvalue(st, s[2]))
                f.i += 1
            elif k == "goto":
                f.bb, f.i = s[1], 0
                return [("go", st)]
            elif k == "switch":
                return [("go", x) for x in self.switch(st, s)]
            elif k == "assert":
                c = self.term(self.operand(st, s[1]))
                self.oblige(st, Not(c) if s[2] else c, "%s: no panic %s" % (f.fn.name, s[3].strip('"')[:60]))
                f.bb, f.i = s[4], 0
                return [("go", st)]
            elif k == "return":
                v = f.loc.get(0, UNIT)
                return self.leave(st, v)
            elif k == "call":
                return self.call(st, s)
            elif k == "unreachable":
                self.oblige(st, FALSE, "%s: unreachable code" % f.fn.name)
            elif k == "setdiscr":
                v = self.read(st, s[1])
                self.write(st, s[1], Agg(v.ty, self.enums[v.ty.split("::")[-1]][s[2]], v.f))
                f.i += 1
            elif k == "bad":
                raise Unsup("statement: " + s[1][:80])
            else:
                raise Unsup("statement " + k)

    def leave(self, st, v):
        d = len(st.frames) - 1
        if st.frames[-1].sync == "const":
            v = self.freeze(st, v)
        f = st.frames.pop()
        if refers(v, d):
            raise Unsup("reference to a finished frame")
        if f.sync:
            return [("done", (st, v))]
        if not st.frames:
            return [("done", (st, v))]
        g = st.frames[-1]
        if f.dst is not None:
            self.write(st, f.dst, v)
        g.bb, g.i = f.ret, 0
        return [("go", st)]

    def switch(self, st, s):
        v = self.term(self.operand(st, s[1]))
        out, rest = [], []
        for k, b in s[2]:
            if k is None:
                c = And(*rest)
            elif v.w == 0:
                c = Not(v) if k == 0 else v
            else:
                c = eq(v, C(k, v.w))
            if k is not None:
                rest.append(Not(c))
                if v.w == 32:
                    self.pool.add(k)
            n = st.copy()
            if self.assume(n, c):
                n.frames[-1].bb, n.frames[-1].i = b, 0
                out.append(n)
        return out

    def call(self, st, s):
        _, dst, callee, ops, ret = s
        args = [self.operand(st, o) for o in ops]
        p = mir.strip_generics(callee)
        last = p.split("::")[-1]
        fname = st.frames[-1].fn.name
        if "panicking" in p or last in ("panic", "panic_fmt", "panic_display", "unwrap_failed", "expect_failed", "begin_panic",
                                        "unreachable_display", "panic_explicit", "assert_failed", "slice_index_fail"):
            self.oblige(st, FALSE, "%s: no panic (%s)" % (fname, last))
        if ret is None:
            raise Unsup("diverging call " + p)
        if last in ("call_mut", "call", "call_once") and isinstance(args[-1], Agg) and args[-1].ty == "()":
            clo = args[0]
            cv = self.deref(st, clo)
            if isinstance(cv, Agg) and cv.ty.startswith("{closure"):
                f = self.closure_fn(cv)
                self_ = cv
                if f.params[0][1].startswith("&"):
                    self_ = self.target(st, clo)[0] if isinstance(clo, Ref) else CRef(cv)
                self.enter(st, f, [self_] + list(args[-1].f), dst, ret)
                return [("go", st)]
            raise Unsup("call of %r" % (cv,))
        f = self.find_fn(callee, args, st)
        if f is not None and not (last in ("clone", "eq", "ne") and all(isinstance(self.deref(st, a), Agg) for a in args)):
            self.enter(st, f, args, dst, ret)
            return [("go", st)]
        if last == "new" and "Range" in p:
            f = None
        res = std_call(self, st, p, last, args, callee, fname)
        self.used_std.add(p if len(p) < 60 else last)
        out = []
        for n, v in res:
            self.write(n, dst, v)
            n.frames[-1].bb, n.frames[-1].i = ret, 0
            out.append(("go", n))
        return out

    # ------------------------------------------------------------ loop headers
    def trim(self, st):
        """drop what no code can see any more (dead locals, consumed items)"""
        keep = []
        n = len(st.frames)
        for d, f in enumerate(st.frames):
            if d == n - 1:
                live = set(mir.liveness(f.fn)[f.bb])
            else:
                g = st.frames[d + 1]
                live = set(mir.liveness(f.fn).get(g.ret, set()))
                if g.dst is not None and not g.dst[1]:
                    live.discard(g.dst[0])
                elif g.dst is not None:
                    mir.place_uses(g.dst, live)
            keep.append(live)
        work = [(d, l) for d in range(n) for l in keep[d]]
        seen = set()
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            d, l = x
            v = st.frames[d].loc.get(l)
            if v is not None:
                for r in refs(v):
                    work.append((r.d, r.l))
        for d, f in enumerate(st.frames):
            f.loc = {l: v for l, v in f.loc.items() if (d, l) in seen}
        lo = len(st.items)
        for f in st.frames:
            for v in f.loc.values():
                for x in cursors(v):
                    lo = min(lo, x)
        if lo:
            st.P = st.pos(lo)
            st.items = st.items[lo:]
            for f in st.frames:
                for k in f.loc:
                    f.loc[k] = shift(f.loc[k], lo)
        for f in st.frames:
            for k in f.loc:
                f.loc[k] = bufmap(f.loc[k], lambda b: self.torel(st, self.norm(st, b)))
        if st.smode in ("DC", "FIND", "REJ"):
            # what has been written no longer matters, unless it is the rejection mark
            for f in st.frames:
                for k in f.loc:
                    f.loc[k] = bufmap(f.loc[k], lambda b: b if b.kind == "tag" else Buf("havoc"))
        ks = [b.k for f in st.frames for v in f.loc.values() for b in bufs(v) if b.kind == "rel"]
        k = min(ks) if ks else len(st.sp)
        if k:
            st.sp = st.sp[k:]
            st.total = False
            for f in st.frames:
                for q in f.loc:
                    f.loc[q] = bufmap(f.loc[q], lambda b: Buf("rel", b.k - k, b.lits) if b.kind == "rel" else b)

    def skeleton(self, st):
        """(key, slot terms, rebuild)"""
        slots, names = [], []
        here = tuple((f.fn.name, f.bb, repr(f.dst), f.ret) for f in st.frames)

        def leaf(t, path):
            if istrue(t) or isfalse(t):
                return ("b", istrue(t))
            if t is TOT:
                return ("TOT",)
            if isc(t):
                key = (here, path)
                vals = self.consts_seen.setdefault(key, set())
                if t.v in vals or len(vals) < 8:
                    vals.add(t.v)
                    return ("k", t.w, t.v)
            elif t.w == 0:
                raise NeedFork(t)
            slots.append(t)
            names.append(path)
            return ("s", t.w)

        def sk(v, path):
            if isinstance(v, T):
                return leaf(v, path)
            if isinstance(v, Agg):
                return ("A", v.ty, v.var, tuple(sk(x, path + (i,)) for i, x in enumerate(v.f)))
            if isinstance(v, Ref):
                return ("R", v.d, v.l, v.p)
            if isinstance(v, CRef):
                return ("C", sk(v.v, path + ("*",)))
            if isinstance(v, Str):
                return ("S", v.lo, v.hi)
            if isinstance(v, It):
                return ("I", v.kind, v.lo, v.hi)
            if isinstance(v, Lit):
                return ("L", v.s)
            if isinstance(v, Buf):
                if len(v.lits) > 6:
                    raise Unsup("output buffer runs ahead")
                return ("B", v.kind, v.k, tuple(sk(x, path + ("l", i)) for i, x in enumerate(v.lits)))
            if isinstance(v, Opq):
                return ("O", v.tag, repr(v.v))
            raise Unsup("loop header state %r" % (v,))
        parts = [here]
        for d, f in enumerate(st.frames):
            for l in sorted(f.loc):
                parts.append((d, l, sk(f.loc[l], (d, l))))
        if len(st.items) > 4 or len(st.sp) > 8:
            raise Unsup("unbounded lookahead")
        for i, it in enumerate(st.items):
            if not isinstance(it, Ch):
                raise Unsup("run at a loop header")
            parts.append(("item", leaf(it.c, ("item", i))))
        parts.append(("spec", st.smode, tuple((k, leaf(st.sregs[k], ("reg", st.smode, k))) for k in sorted(st.sregs))))
        parts.append(("sp", tuple(leaf(t, ("sp", i)) for i, t in enumerate(st.sp))))
        parts.append(("flags", st.eof, st.total, tuple(n for n, _ in st.allc)))
        slots.append(st.P)
        names.append(("P",))
        return tuple(parts), slots, names

    def candidates(self, slots, names, st):
        """facts over the slots: (name, function of the slot variables -> term)"""
        out = []
        ip = len(slots) - 1
        for i, t in enumerate(slots):
            w = t.w
            if i == ip:
                out.append(("P<=TOT", lambda s, i=i: ule(s[i], TOT)))
                for k in range(1, 16):
                    out.append(("P>=%d" % k, lambda s, i=i, k=k: ule(C(k, 64), s[i])))
                continue
            char = names[i][0] == "item" or isinstance(names[i][0], int) and \
                "char" in st.frames[names[i][0]].fn.types.get(names[i][1], "")
            if char:
                out.append(("%s valid" % (names[i],), lambda s, i=i: valid(s[i])))
                for k in sorted(self.pool | self.spec.consts):
                    out.append(("%s!=%d" % (names[i], k), lambda s, i=i, k=k: ne(s[i], C(k, 32))))
                continue
            if w == 32:
                for k in (1, 3, 4, 8, 12, 16, 20, 24, 28, 31):
                    out.append(("%s<2^%d" % (names[i], k), lambda s, i=i, k=k: ult(s[i], C(1 << k, 32))))
                for k in (1, 6, 7, 8):
                    out.append(("%s>=%d" % (names[i], k), lambda s, i=i, k=k: ule(C(k, 32), s[i])))
            if w == 64:
                out.append(("%s<=TOT" % (names[i],), lambda s, i=i: ule(s[i], TOT)))
                out.append(("%s<=P" % (names[i],), lambda s, i=i: ule(s[i], s[ip])))
            if w in (8, 16, 32, 64):
                e = (lambda x: x) if w == 64 else (lambda x: zext(x, 64))
                out.append(("%s<=P+4" % (names[i],), lambda s, i=i, e=e: ule(e(s[i]), add(s[ip], C(4, 64)))))
        return out

    def arrivals(self, st, came):
        out, todo = [], [st]
        while todo:
            x = todo.pop()
            try:
                r = self.arrive(x, came)
                if r is not None:
                    out.append(r)
            except NeedFork as e:
                for i, y in self.fork(x, [e.t, Not(e.t)]):
                    y.mapterms(lambda t: subst(t, {e.t: TRUE if i == 0 else FALSE}))
                    if i == 0:
                        y.pc.append(e.t)
                    else:
                        y.pc.append(Not(e.t))
                    todo.append(y)
        return out

    def arrive(self, st, came):
        """at a loop header; returns a state to explore, or None"""
        self.trim(st)
        key, slots, names = self.skeleton(st)
        n = len(slots)
        t = self.cuts.get(key)
        # termination: every edge between headers consumes input, or is not on a cycle
        if came is not None:
            ckey, cP = came
            strict = self.entails(st, ult(cP, st.P))
            self.edges[(ckey, key)] = self.edges.get((ckey, key), True) and strict
        if t is None:
            if len(self.cuts) > 400:
                raise Unsup("too many loop states")
            cls, reps = [], []
            for i, x in enumerate(slots):
                for j in reps:
                    if slots[j].w == x.w and names[j][0] not in ("P",) and i != n - 1 and self.entails(st, eq(slots[j], x)):
                        cls.append(j)
                        break
                else:
                    cls.append(i)
                    reps.append(i)
            facts = [f for f in self.candidates(slots, names, st)]
            facts = self.keep(st, facts, slots)
            t = self.cuts[key] = Tmpl(cls, facts, st)
        else:
            t.seen += 1
            for i in range(n):
                j = t.cls[i]
                if j != i and not self.entails(st, eq(slots[i], slots[j])):
                    # split the class: those equal to slot i stay together
                    mem = [q for q in range(i, n) if t.cls[q] == j]
                    for q in mem:
                        if q == i or self.entails(st, eq(slots[q], slots[i])):
                            t.cls[q] = i
                    t.dirty = True
            k = self.keep(st, t.facts, slots)
            if len(k) < len(t.facts):
                t.facts, t.dirty = k, True
        if not t.dirty:
            return None
        t.dirty = False
        # the general state of this header
        g = t.st.copy()
        _, gs, _ = self.skeleton(g)
        vs = []
        uid = fresh_name()
        for i in range(n):
            vs.append(vs[t.cls[i]] if t.cls[i] != i else V("h%d.%d" % (uid, i), gs[i].w))
        it = iter(range(n))
        self.generalise(g, vs)
        g.pc = [f[1](vs) for f in t.facts]
        # what holds of the input at every point (established where it is drawn)
        end = g.pos(len(g.items))
        g.pc.append(eq(TOT, end) if g.eof else ule(end, TOT))
        for x in g.items:
            g.pc += [valid(x.c)] + [f(x.c) for _, f in g.allc]
        g.pc = [x for x in g.pc if not istrue(x)]
        g.trace = st.trace[-5:] + ((key[0][-1][:2], key[-3], key[-1], [p for p in key[1:-3]][-4:]),)
        return g, key, vs[-1]

    def generalise(self, g, vs):
        """replace the slots by variables, in the traversal order of skeleton"""
        it = iter(vs)
        here = tuple((f.fn.name, f.bb, repr(f.dst), f.ret) for f in g.frames)

        def leaf(t, path):
            if istrue(t) or isfalse(t) or t is TOT:
                return t
            if isc(t):
                vals = self.consts_seen.get((here, path), set())
                if t.v in vals:
                    return t
            return next(it)

        def sk(v, path):
            if isinstance(v, T):
                return leaf(v, path)
            if isinstance(v, Agg):
                return Agg(v.ty, v.var, [sk(x, path + (i,)) for i, x in enumerate(v.f)])
            if isinstance(v, CRef):
                return CRef(sk(v.v, path + ("*",)))
            if isinstance(v, Buf):
                return Buf(v.kind, v.k, [sk(x, path + ("l", i)) for i, x in enumerate(v.lits)])
            return v
        for d, f in enumerate(g.frames):
            for l in sorted(f.loc):
                f.loc[l] = sk(f.loc[l], (d, l))
        g.items = [Ch(leaf(x.c, ("item", i))) for i, x in enumerate(g.items)]
        g.sregs = {k: leaf(g.sregs[k], ("reg", g.smode, k)) for k in sorted(g.sregs)}
        g.sp = [leaf(t, ("sp", i)) for i, t in enumerate(g.sp)]
        g.P = next(it)

    # ------------------------------------------------------------ top level
    def verify(self, fn, args):
        st = State()
        st.smode, st.sregs = self.spec.init()
        self.enter(st, fn, args, None, None)
        work = [(st, None)]
        while work:
            s, came = work.pop()
            try:
                for kind, x in self.block(s):
                    if kind == "done":
                        self.finish(*x, fn)
                        continue
                    f = x.frames[-1]
                    if f.i == 0 and f.bb in mir.heads(f.fn):
                        for r in self.arrivals(x, came):
                            g, key, P = r
                            work.append((g, (key, P)))
                    else:
                        work.append((x, came))
            except Bad as e:
                if self.debug:
                    print(e, s.trace, s.smode, [(f.fn.name, f.bb, f.loc) for f in s.frames][-2:], s.sregs, s.P, s.pc)
                self.fails.append(str(e))
                return
        zero = {}
        for (a, b), ok in self.edges.items():
            if not ok:
                zero.setdefault(a, set()).add(b)
        if cyclic(zero):
            self.fails.append("%s: termination (a loop iteration consumes no input)" % fn.name)
        self.obls["%s: every cycle between loop headers consumes input" % fn.name] = len(self.edges)

    def verify_bytes(self, fn, arg, pre, post):
        """a loop-free function from bytes to bytes: post(result segments) gives (condition, name) pairs"""
        st = State()
        st.smode = "DC"
        st.pc = list(pre)
        self.enter(st, fn, [arg], None, None)
        work = [st]
        budget = 1000
        while work:
            s = work.pop()
            try:
                for kind, x in self.block(s):
                    if kind == "done":
                        st2, v = x
                        v = self.deref(st2, v)
                        if isinstance(v, Agg) and v.ty == "[]":
                            v = Seq([("b", y) for y in v.f])
                        if not isinstance(v, Seq):
                            raise Unsup("result %r" % (v,))
                        for cond, name in post(v.segs):
                            s = st2
                            self.oblige(st2, cond, "%s: %s" % (fn.name, name))
                        continue
                    f = x.frames[-1]
                    if f.i == 0 and f.bb in mir.heads(f.fn):
                        budget -= 1
                        if budget < 0:
                            raise Unsup("loop over bytes")
                    work.append(x)
            except Bad as e:
                self.fails.append(str(e))
                self.input = self.witness(s) if budget >= 0 else None
                return

    def witness(self, st):
        """an input that reaches the refuted obligation (replayed against the compiled function)"""
        try:
            k, m = solve.check(st.pc, self.timeout)
            if k != "sat":
                return None
            n = m.val(V("LEN", 64))
            if n > 1 << 24:
                k, m = solve.check(st.pc + [ult(V("LEN", 64), C(1 << 16, 64))], self.timeout)
                if k != "sat":
                    return None
                n = m.val(V("LEN", 64))
            return bytes(m.val(V("input@%d" % i, 8)) if i < 64 else i & 255 for i in range(n))
        except Exception:
            return None

    def finish(self, st, v, fn):
        what = "%s: result equals the specified text" % fn.name
        self.obls[what] = self.obls.get(what, 0) + 1
        if st.smode in ("DC", "FIND"):
            return
        v = self.deref(st, v)
        if isinstance(v, Opq) and v.tag == "copy":
            # the whole rest of the input is copied to the output: the specification must do the same
            if not self.copies(st, v.v):
                raise Bad(what)
            return
        if not isinstance(v, Buf):
            raise Unsup("result %r" % (v,))
        v = self.torel(st, self.norm(st, v))
        if st.smode == "REJ":
            if v.kind != "tag":
                raise Bad(what + " (invalid input not rejected)")
            return
        if not st.eof:
            raise Bad(what + " (input not read to its end)")
        if v.kind != "rel" or v.lits or v.k != len(st.sp):
            raise Bad(what)

    def copies(self, st, lo):
        """from here the specification copies every character (under the facts known of all of them)"""
        if lo != 0 or st.items or not st.total or st.sp:
            return False
        modes, work = set(), [st.smode]
        if st.sregs:
            return False
        while work:
            m = work.pop()
            if m in modes:
                continue
            modes.add(m)
            c = V("cp%d" % fresh_name(), 32)
            pre = [valid(c)] + [f(c) for _, f in st.allc]
            for cond, m2, r2, outs in self.spec.step(m, {}, c):
                if not self.sat(pre + [cond]):
                    continue
                if m2 in ("DC", "FIND"):
                    continue
                if m2 == "REJ" or r2 or len(outs) != 1 or self.sat(pre + [cond, ne(outs[0], c)]):
                    return False
                work.append(m2)
            for cond, m2, r2, outs in self.spec.eof(m, {}):
                if self.sat(pre + [cond]) and (m2 == "REJ" or outs):
                    return False
        return True


_big = {}


def big(t):
    """mentions a position (64 bits)"""
    r = _big.get(t.id)
    if r is None:
        r = _big[t.id] = any(x.w == 64 and not isc(x) for x in leaves(t))
    return r


def cyclic(g):
    col = {}

    def go(n):
        col[n] = 1
        for m in g.get(n, ()):
            if col.get(m) == 1 or (m not in col and go(m)):
                return True
        col[n] = 2
        return False
    return any(n not in col and go(n) for n in list(g))


def refs(v):
    if isinstance(v, Ref):
        yield v
    elif isinstance(v, Agg):
        for x in v.f:
            yield from refs(x)
    elif isinstance(v, CRef):
        yield from refs(v.v)


def refers(v, d):
    return any(r.d >= d for r in refs(v))


def cursors(v):
    if isinstance(v, (Str, It)):
        if isinstance(v.lo, int):
            yield v.lo
    elif isinstance(v, Agg):
        for x in v.f:
            yield from cursors(x)
    elif isinstance(v, CRef):
        yield from cursors(v.v)


def shift(v, k):
    if isinstance(v, Str):
        return Str(v.lo - k, v.hi - k if isinstance(v.hi, int) else v.hi)
    if isinstance(v, It):
        return It(v.kind, v.lo - k, v.hi - k if isinstance(v.hi, int) else v.hi)
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [shift(x, k) for x in v.f])
    if isinstance(v, CRef):
        return CRef(shift(v.v, k))
    return v


def bufs(v):
    if isinstance(v, Buf):
        yield v
    elif isinstance(v, Agg):
        for x in v.f:
            yield from bufs(x)


def bufmap(v, fn):
    if isinstance(v, Buf):
        return fn(v)
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [bufmap(x, fn) for x in v.f])
    return v


def base(t):
    t = re.sub(r"^&('\w+ )?(mut )?", "", t)
    return re.sub(r"<.*", "", t).split("::")[-1]


def seqlen(v):
    return add(*[C(1, 64) if s[0] == "b" else s[2] for s in v.segs]) if v.segs else C(0, 64)


def seqbyte(v, i):
    """byte i; i is known to be in range"""
    for s in v.segs:
        if s[0] == "in":
            if s is not v.segs[-1]:
                break
            return V("%s@%d" % (s[1], s[3] + i), 8)
        if i == 0:
            return s[1]
        i -= 1
    raise Unsup("byte %d of %r" % (i, v))


def seqtail(v, n):
    """from byte n on; n is known to be in range"""
    segs = list(v.segs)
    while n and segs:
        if segs[0][0] == "b":
            segs.pop(0)
            n -= 1
        else:
            _, nm, l, o = segs[0]
            if len(segs) > 1:
                raise Unsup("tail of %r" % (v,))
            return Seq([("in", nm, sub(l, C(n, 64)), o + n)])
    if n:
        raise Unsup("tail of %r" % (v,))
    return Seq(segs)


def unesc(s):
    out, i = "", 0
    while i < len(s):
        if s[i] != "\\":
            out += s[i]
            i += 1
            continue
        e = s[i + 1]
        if e == "x":
            out += chr(int(s[i + 2:i + 4], 16))
            i += 4
        elif e == "u":
            j = s.index("}", i)
            out += chr(int(s[i + 3:j], 16))
            i = j + 1
        else:
            out += {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e, e)
            i += 2
    return out


def unesc_b(s):
    return bytes(ord(c) for c in unesc(s)) if all(ord(c) < 256 for c in unesc(s)) else s.encode()


# ---------------------------------------------------------------- contracts of the library
WS = [9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]


def inset(c, xs):
    return Or(*[eq(c, C(x, c.w)) for x in xs])


def rng(c, a, b):
    return And(ule(C(ord(a), c.w), c), ule(c, C(ord(b), c.w)))


def digit10(c):
    return rng(c, "0", "9")


def hexdigit(c):
    return Or(digit10(c), rng(c, "a", "f"), rng(c, "A", "F"))


def charclass(name, c):
    """char::is_ascii_* and friends"""
    f = {"is_ascii": lambda: ult(c, C(128, c.w)), "is_ascii_digit": lambda: digit10(c), "is_ascii_hexdigit": lambda: hexdigit(c),
         "is_ascii_alphabetic": lambda: Or(rng(c, "a", "z"), rng(c, "A", "Z")),
         "is_ascii_alphanumeric": lambda: Or(rng(c, "a", "z"), rng(c, "A", "Z"), digit10(c)),
         "is_ascii_lowercase": lambda: rng(c, "a", "z"), "is_ascii_uppercase": lambda: rng(c, "A", "Z"),
         "is_ascii_whitespace": lambda: inset(c, [9, 10, 12, 13, 32]),
         "is_whitespace": lambda: inset(c, WS) if c.w == 32 else None}.get(name)
    r = f() if f else None
    return r


def todigit(c, radix):
    """(is a digit, its value) as terms"""
    if radix == 16:
        return hexdigit(c), ite(digit10(c), sub(c, C(48, 32)), ite(rng(c, "a", "f"), sub(c, C(87, 32)), sub(c, C(55, 32))))
    if radix == 10:
        return digit10(c), sub(c, C(48, 32))
    raise Unsup("radix %d" % radix)


def deq(ex, st, a, b):
    """structural equality as a term"""
    a, b = ex.deref(st, a), ex.deref(st, b)
    if isinstance(a, T) and isinstance(b, T):
        if a.w == 0:
            return Or(And(a, b), And(Not(a), Not(b)))
        return eq(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        if a.var != b.var:
            return FALSE
        if len(a.f) != len(b.f):
            raise Unsup("comparison of %r and %r" % (a, b))
        return And(*[deq(ex, st, x, y) for x, y in zip(a.f, b.f)])
    raise Unsup("comparison of %r and %r" % (a, b))


def mut_it(ex, st, v):
    r, w = ex.target(st, v)
    if not isinstance(w, It):
        raise Unsup("iterator %r" % (w,))
    return r, w


def forkval(ex, st, cond, tv, fv):
    out = []
    for i, s in ex.fork(st, [cond, Not(cond)]):
        out.append((s, tv if i == 0 else fv))
    # the assumption may have replaced variables: redo terms
    return out


def patset(ex, st, v):
    """chars of a pattern: char, &[char], [char; n]"""
    v = ex.deref(st, v)
    if isinstance(v, T) and v.w == 32 and isc(v):
        return [v.v]
    if isinstance(v, Agg) and v.ty == "[]":
        r = [ex.deref(st, x) for x in v.f]
        if all(isinstance(x, T) and isc(x) for x in r):
            return [x.v for x in r]
    if isinstance(v, Lit) and len(v.s) == 1:
        return [ord(v.s)]
    raise Unsup("pattern %r" % (v,))


def chars_of(ex, st, v):
    """known characters of a piece of text to append, or None for the whole input"""
    v = ex.deref(st, v)
    if isinstance(v, Lit):
        return [C(ord(c), 32) for c in v.s]
    if isinstance(v, Str):
        hi = len(st.items) if v.hi == "END" and st.eof else v.hi
        if hi == "END":
            raise Unsup("append of the rest of the input")
        r = st.items[v.lo:hi]
        if any(isinstance(x, Run) for x in r):
            raise Unsup("append of a run")
        return [x.c for x in r]
    if isinstance(v, Buf) and v.kind == "lit":
        return list(v.lits)
    raise Unsup("text %r" % (v,))


def std_call(ex, st, p, last, args, callee, fname):
    """contract of a library function: [(state, value)]"""
    one = lambda v: [(st, v)]
    a0 = args[0] if args else None
    d0 = ex.deref(st, a0) if args else None
    # --- strings: construction
    if re.search(r"(^|::)String::(new|with_capacity|default)$", p) or (last == "default" and "String" in callee):
        return one(Buf("lit"))
    if last == "push" and isinstance(d0, Buf):
        r, b = ex.target(st, a0)
        ex.put(st, (r.d, r.l, r.p), ex.push(st, b, [ex.term(ex.deref(st, args[1]))]))
        return one(UNIT)
    if last in ("push_str", "extend") and isinstance(d0, Buf):
        r, b = ex.target(st, a0)
        v = ex.deref(st, args[1])
        if isinstance(v, Agg) and v.ty == "Option":
            cs = list(v.f)
        elif isinstance(v, It):
            cs = chars_of(ex, st, Str(v.lo, v.hi))
        else:
            cs = chars_of(ex, st, v)
        ex.put(st, (r.d, r.l, r.p), ex.push(st, b, cs))
        return one(UNIT)
    if last == "clear" and isinstance(d0, Buf):
        r, b = ex.target(st, a0)
        ex.put(st, (r.d, r.l, r.p), Buf("lit") if ex.spec else Buf("lit"))
        return one(UNIT)
    if last in ("to_string", "to_owned", "into", "from", "into_string", "into_boxed_str") and len(args) == 1:
        if isinstance(d0, Lit):
            return one(ex.norm(st, Buf("lit", 0, [C(ord(c), 32) for c in d0.s])))
        if isinstance(d0, Buf):
            return one(d0)
        if isinstance(d0, Str):
            if d0.lo == 0 and d0.hi == "END" and not st.items and isc(st.P) and st.P.v == 0:
                return one(Opq("copy", 0))
            return one(Buf("lit", 0, chars_of(ex, st, d0)))
        if isinstance(d0, T) and last in ("into", "from"):
            m = re.search(r"<(\w+) as (?:\w+::)*(?:From|Into)<(\w+)>>", callee)
            tgt = m and (m.group(1) if "From" in callee else m.group(2))
            if tgt in BITS:
                return one(zext(d0, BITS[tgt]) if BITS[tgt] >= d0.w else trunc(d0, BITS[tgt]))
        if isinstance(d0, T) and last == "to_string" and d0.w == 32 and "char" in callee:
            return one(Buf("lit", 0, [d0]))
    # --- iterators over the input
    if last in ("chars", "bytes", "char_indices") and isinstance(d0, Str):
        return one(It(last, d0.lo, d0.hi))
    if last in ("iter", "into_iter") and isinstance(d0, Agg) and d0.ty == "[]":
        return one(Opq("arr it", tuple(d0.f)))
    if last in ("iter", "into_iter") and isinstance(d0, Seq):
        return one(Opq("bytes it", d0.segs))
    if last in ("peekable", "into_iter", "by_ref", "iter", "fuse", "as_mut", "borrow_mut", "deref", "deref_mut", "as_ref",
                "must_use", "as_slice", "identity", "as_mut_slice") and len(args) == 1:
        if last in ("as_mut", "as_ref") and isinstance(d0, Agg) and d0.ty == "Option":
            if not d0.f:
                return one(NONE)
            r = ex.target(st, a0)[0] if isinstance(a0, Ref) else None
            return one(some(Ref(r.d, r.l, r.p + (0,)) if r else CRef(d0.f[0])))
        return one(a0)
    if last == "clone" and len(args) == 1:
        return one(d0)
    if last in ("copied", "cloned") and isinstance(d0, Agg) and d0.ty == "Option":
        return one(some(ex.deref(st, d0.f[0])) if d0.f else NONE)
    if last == "as_str" and isinstance(d0, It):
        return one(Str(d0.lo, d0.hi))
    if last in ("as_str", "as_bytes") and isinstance(d0, (Str, Buf, Lit, Seq)):
        return one(d0 if isinstance(d0, Str) else a0)
    if last in ("next", "peek", "next_if_eq", "next_if", "next_if_map") and isinstance(d0, It):
        r, it = mut_it(ex, st, a0)
        out = []
        for s, c in ex.at(st, it):
            if c is None:
                out.append((s, NONE))
                continue
            adv = It(it.kind, it.lo + 1, it.hi)
            cur = (r.d, r.l, r.p)
            v = c
            if it.kind == "bytes":
                if not ex.entails(s, ult(c, C(128, 32))):
                    raise Unsup("bytes of a wide character")
                v = trunc(c, 8)
            elif it.kind == "char_indices":
                if it.hi != "END":
                    raise Unsup("char_indices of a slice")
                v = Agg("()", None, (s.pos(it.lo), c))
            if last == "peek":
                out.append((s, some(CRef(v))))
            elif last == "next":
                ex.put(s, cur, adv)
                out.append((s, some(v)))
            elif last == "next_if_eq":
                for i, t in ex.fork(s, [deq(ex, s, v, args[1]), Not(deq(ex, s, v, args[1]))]):
                    if i == 0:
                        ex.put(t, cur, adv)
                        out.append((t, some(t.items[it.lo].c)))
                    else:
                        out.append((t, NONE))
            else:
                for t, b in ex.call_closure(s, args[1], [CRef(v)]):
                    for i, u in ex.fork(t, [b, Not(b)]):
                        if i == 0:
                            ex.put(u, cur, adv)
                            out.append((u, some(u.items[it.lo].c)))
                        else:
                            out.append((u, NONE))
        return out
    # --- text queries
    if last == "len" and isinstance(d0, Str):
        hi = TOT if d0.hi == "END" else st.pos(d0.hi)
        return one(sub(hi, st.pos(d0.lo)))
    if last == "len" and isinstance(d0, Lit):
        return one(C(len(d0.s.encode()), 64))
    if last == "len" and isinstance(d0, Seq):
        return one(seqlen(d0))
    if last == "is_empty" and isinstance(d0, (Str, It)):
        return [(s, TRUE if c is None else FALSE) for s, c in ex.at(st, It("chars", d0.lo, d0.hi))]
    if last == "is_empty" and isinstance(d0, Buf) and d0.kind == "lit":
        return one(FALSE if d0.lits else TRUE)
    if last == "starts_with" and isinstance(d0, Str):
        pv = ex.deref(st, args[1])
        want = [C(ord(c), 32) for c in pv.s] if isinstance(pv, Lit) else [ex.term(pv)]
        out, work = [], [(st, 0)]
        while work:
            s, k = work.pop()
            if k == len(want):
                out.append((s, TRUE))
                continue
            for t, c in ex.at(s, It("chars", d0.lo + k, d0.hi)):
                if c is None:
                    out.append((t, FALSE))
                    continue
                for i, u in ex.fork(t, [eq(c, want[k]), ne(c, want[k])]):
                    if i == 0:
                        work.append((u, k + 1))
                    else:
                        out.append((u, FALSE))
        return out
    if last == "contains" and isinstance(d0, Str):
        xs = patset(ex, st, args[1])
        if d0.lo == 0 and d0.hi == "END" and not st.items and not st.eof:
            n = st.copy()
            n.allc = n.allc + (("no " + " ".join(map(str, sorted(xs))), lambda c: And(*[ne(c, C(x, 32)) for x in xs])),)
            return [(st, TRUE), (n, FALSE)]
        hi = len(st.items) if d0.hi == "END" and st.eof else d0.hi
        if hi == "END":
            raise Unsup("search in the rest of the input")
        cs = []
        for it in st.items[d0.lo:hi]:
            if isinstance(it, Ch):
                cs.append(inset(it.c, xs))
            else:
                for x in xs:
                    if x in it.chars:
                        cs.append(it.has(x))
        return one(Or(*cs))
    if last == "position" and isinstance(d0, It) and d0.kind == "bytes":
        return position(ex, st, a0, args[1])
    if last == "index" and isinstance(d0, Str):
        return [(st, slice_(ex, st, d0, ex.deref(st, args[1]), fname))]
    if last in ("index", "get_unchecked") and isinstance(ex.deref(st, args[1]), Agg) and ex.deref(st, args[1]).ty.endswith("RangeFull"):
        return one(a0)
    # --- Option / Result plumbing
    if isinstance(d0, Agg) and d0.ty in ("Option", "Result"):
        o = d0
        good = o.var in ("Some", "Ok")
        ctl = "ControlFlow"
        if last == "branch":
            if good:
                return one(Agg(ctl, "Continue", o.f))
            return one(Agg(ctl, "Break", (Agg(o.ty, o.var, o.f),)))
        if last == "from_residual":
            return one(Agg(o.ty, o.var, o.f))
        if last == "ok_or":
            return one(Agg("Result", "Ok", o.f) if good else Agg("Result", "Err", (args[1],)))
        if last == "ok":
            return one(some(o.f[0]) if good else NONE)
        if last == "err":
            return one(NONE if good else some(o.f[0]))
        if last in ("unwrap_or", "unwrap_or_default") and (good or last == "unwrap_or"):
            return one(o.f[0] if good else args[1])
        if last in ("unwrap", "expect"):
            ex.oblige(st, TRUE if good else FALSE, "%s: no panic (%s)" % (fname, last))
            return one(o.f[0])
        if last in ("is_some", "is_ok"):
            return one(TRUE if good else FALSE)
        if last in ("is_none", "is_err"):
            return one(FALSE if good else TRUE)
        if last in ("take", "replace", "insert") and isinstance(a0, Ref):
            r = ex.target(st, a0)[0]
            ex.put(st, (r.d, r.l, r.p), NONE if last == "take" else some(args[1]))
            return one(o)
        if last in ("map", "and_then", "is_some_and", "map_or", "ok_or_else", "unwrap_or_else", "map_err", "is_none_or", "filter"):
            if last == "map_or":
                return [(s, v) for s, v in ex.call_closure(st, args[2], o.f)] if good else one(args[1])
            if last in ("ok_or_else", "unwrap_or_else"):
                if good:
                    return one(Agg("Result", "Ok", o.f) if last == "ok_or_else" else o.f[0])
                pr = [] if o.ty == "Option" else list(o.f)
                return [(s, Agg("Result", "Err", (v,)) if last == "ok_or_else" else v)
                        for s, v in ex.call_closure(st, args[1], pr)]
            if last == "map_err":
                return one(o) if good else [(s, Agg("Result", "Err", (v,))) for s, v in ex.call_closure(st, args[1], o.f)]
            if not good:
                return one({"is_some_and": FALSE, "is_none_or": TRUE}.get(last, o))
            if last == "filter":
                out = []
                for s, v in ex.call_closure(st, args[1], [CRef(o.f[0])]):
                    out += [(t, o if i == 0 else NONE) for i, t in ex.fork(s, [v, Not(v)])]
                return out
            return [(s, v if last != "map" else Agg(o.ty, o.var, (v,))) for s, v in ex.call_closure(st, args[1], o.f)]
    if last in ("replace", "take") and isinstance(a0, Ref):
        r, w = ex.target(st, a0)
        if last == "take" and isinstance(w, Buf):
            ex.put(st, (r.d, r.l, r.p), Buf("lit"))
            return one(w)
        if last == "replace":
            ex.put(st, (r.d, r.l, r.p), args[1])
            return one(w)
        if last == "take" and isinstance(w, T):
            ex.put(st, (r.d, r.l, r.p), FALSE if w.w == 0 else C(0, w.w))
            return one(w)
    if last in ("eq", "ne") and len(args) == 2:
        e = deq(ex, st, args[0], args[1])
        return one(e if last == "eq" else Not(e))
    # --- characters and numbers
    if isinstance(d0, T):
        c = d0
        if last in ("is_digit", "to_digit") and c.w == 32:
            rad = ex.term(args[1])
            if not isc(rad):
                raise Unsup("radix")
            cond, val = todigit(c, rad.v)
            if last == "is_digit":
                return one(cond)
            out = []
            for i, s in ex.fork(st, [cond, Not(cond)]):
                if i == 1:
                    out.append((s, NONE))
                elif isc(c) or len(s.pc) == len(st.pc):
                    out.append((s, some(val)))
                else:
                    d = V("dig%d" % c.id, 32)       # one variable for the value of this digit
                    s.pc += [eq(d, val), ult(d, C(rad.v, 32))]
                    out.append((s, some(d)))
            return out
        k = charclass(last, c)
        if k is not None:
            return one(k)
        if last in ("eq_ignore_ascii_case",):
            raise Unsup(last)
        if last == "len_utf8":
            return one(len8(c))
        if last == "from_u32" and c.w == 32 and "unchecked" not in p:
            return [(s, some(c) if i == 0 else NONE) for i, s in ex.fork(st, [valid(c), Not(valid(c))])]
        if last == "to_be_bytes":
            n = c.w // 8
            return one(Agg("[]", None, [extract(8 * (n - i) - 1, 8 * (n - i) - 8, c) for i in range(n)]))
        if last == "to_le_bytes":
            return one(Agg("[]", None, [extract(8 * i + 7, 8 * i, c) for i in range(c.w // 8)]))
        if last in ("swap_bytes", "to_be"):
            from vf.terms import concat
            return one(concat(*[extract(8 * i + 7, 8 * i, c) for i in range(c.w // 8)]))
        if last.startswith("wrapping_") and last[9:] in ("add", "sub", "mul"):
            return one({"add": add, "sub": sub, "mul": mul}[last[9:]](c, ex.term(args[1])))
        if last.startswith("checked_") and last[8:] in ("add", "sub", "mul"):
            ty = re.search(r"impl (\w+)", callee)
            r = ex.binop(st, last[8:].capitalize() + "WithOverflow", c, ex.term(args[1]), ty.group(1) if ty else "u")
            return [(s, NONE if i == 0 else some(r.f[0])) for i, s in ex.fork(st, [r.f[1], Not(r.f[1])])]
        if last in ("min", "max") and len(args) == 2 and "i" != (re.search(r"<(\w)", callee) or [0, "u"])[1]:
            b = ex.term(args[1])
            return one(ite(ule(c, b), c, b) if last == "min" else ite(ule(c, b), b, c))
    # --- formatting
    if last in ("new_debug", "new_display", "new_lower_hex"):
        return one(Opq("arg"))
    if p.endswith("Arguments::new") or last in ("new_v1", "from_str", "from_str_nonconst", "new_const") and "Arguments" in p:
        t = d0
        if isinstance(t, Opq) and t.tag == "bytes":
            b = t.v
            # length-prefixed literal pieces; an argument marker has its top bit set
            n = b[0]
            return one(Opq("fmt", b[1:1 + n].decode("utf8", "replace") if n < 0x80 else ""))
        if isinstance(t, Lit):
            return one(Opq("fmt", t.s))
        raise Unsup("format template %r" % (t,))
    if last == "format" and isinstance(a0, Opq) and a0.tag == "fmt":
        return one(Buf("tag") if a0.v.startswith(MARK) else Buf("havoc"))
    # --- byte sequences
    if last == "try_from" and isinstance(a0, T):
        m = re.search(r"<(\w+) as TryFrom<(\w+)>>", callee) or re.search(r"<impl TryFrom<(?P<b>\w+)> for (?P<a>\w+)>", callee)
        if m:
            to, frm = (m.group("a"), m.group("b")) if "a" in m.groupdict() else (m.group(1), m.group(2))
            if to in BITS and frm in BITS and to[0] == "u" and frm[0] == "u":
                w, v = BITS[to], a0
                if w >= v.w:
                    return one(Agg("Result", "Ok", (zext(v, w),)))
                fits = ult(v, C(1 << w, v.w))
                return [(s, Agg("Result", "Ok", (trunc(v, w),)) if i == 0 else Agg("Result", "Err", (Opq("TryFromIntError"),)))
                        for i, s in ex.fork(st, [fits, Not(fits)])]
    if isinstance(d0, (Seq, Agg)) and last in SLICE and (isinstance(d0, Seq) or d0.ty == "[]") and "impl [" in callee + "impl [" * (last in ("eq", "ne", "index", "deref", "as_ref", "borrow")):
        return slice_call(ex, st, last, args, d0, fname)
    if last == "next" and isinstance(d0, Opq) and d0.tag in ("bytes it", "arr it"):
        r, w = ex.target(st, a0)
        if not w.v:
            return one(NONE)
        x = w.v[0]
        if d0.tag == "bytes it":
            if x[0] != "b":
                raise Unsup("loop over bytes")
            x = x[1]
        ex.put(st, (r.d, r.l, r.p), Opq(w.tag, w.v[1:]))
        return one(some(CRef(x) if "slice::Iter<" in callee else x))
    if last in ("rev", "by_ref") and isinstance(d0, Opq) and d0.tag == "arr it":
        return one(a0 if last == "by_ref" else Opq("arr it", tuple(reversed(d0.v))))
    if last in ("iter", "into_iter") and isinstance(d0, Opq) and d0.tag in ("bytes it", "arr it"):
        return one(a0)
    if last in ("iter", "into_iter", "chain", "copied", "cloned", "collect", "by_ref"):
        return bytes_call(ex, st, p, last, args, callee)
    if last in ("concat", "to_vec", "extend_from_slice", "push", "extend", "from") or (last in ("new", "with_capacity") and "Vec" in p):
        return bytes_call(ex, st, p, last, args, callee)
    raise Unsup("library function %s" % p)


def position(ex, st, itref, clo):
    """Iterator::position over the bytes of the input: the known characters, then a run"""
    r, it = mut_it(ex, st, itref)
    if it.hi != "END":
        raise Unsup("position in a slice")
    # the predicate as a set of bytes
    cv = ex.deref(st, clo)
    stop = ex.preds.get(cv.ty) if isinstance(cv, Agg) and not cv.f else None
    if stop is None:
        stop = [False] * 256
        for v in range(256):
            q = ex.call_closure(st, clo, [C(v, 8)])
            if len(q) != 1 or not (istrue(q[0][1]) or isfalse(q[0][1])):
                raise Unsup("predicate of position")
            stop[v] = istrue(q[0][1])
        if isinstance(cv, Agg) and not cv.f:
            ex.preds[cv.ty] = stop
    if not all(stop[0x80:]):
        raise Unsup("predicate of position on wide characters")
    go = [v for v in range(128) if not stop[v]]
    out, work = [], [(st, it.lo)]
    while work:
        s, k = work.pop()
        if k < len(s.items):
            x = s.items[k]
            if isinstance(x, Run):
                raise Unsup("position over a run")
            for i, t in ex.fork(s, [inset(x.c, go), Not(inset(x.c, go))]):
                if i == 0:
                    work.append((t, k + 1))
                else:
                    out.append((t, some(sub(t.pos(k), t.pos(it.lo)))))
            continue
        if s.eof:
            out.append((s, NONE))
            continue
        # unknown rest: a run of skipped characters, then end of input or a character that stops
        u = fresh_name()
        n = V("run%d" % u, 64)
        memo = {}

        def has(x, memo=memo, u=u):
            return memo.setdefault(x, V("run%d.has%d" % (u, x), 0))
        run = Run(tuple(go), n, has, u)
        t = s.copy()
        t.items.append(run)
        if not ex.assume(t, ule(n, sub(TOT, s.pos(k)))):
            continue
        for x in go:
            t.pc.append(Implies(has(x), ult(C(0, 64), n)))
        alts = ex.spec.run(t.smode, t.sregs, run)
        if alts is None:
            raise Unsup("run in spec mode %s" % t.smode)
        for t2 in ex.spec_fork(t, alts):
            for t3, x in ex.draw(t2):
                if x is None:
                    out.append((t3, NONE))
                else:
                    out.append((t3, some(sub(t3.pos(k + 1), t3.pos(it.lo)))))
    for s, v in out:
        ex.put(s, (r.d, r.l, r.p), It(it.kind, len(s.items) if not v.f else len(s.items) - 1, it.hi))
    return out


def slice_(ex, st, s, r, fname):
    """&s[a..b]: the offsets must fall on known cursors"""
    ty = r.ty.split("::")[-1]
    if ty == "Range":
        a, b = r.f
    elif ty == "RangeFrom":
        a, b = r.f[0], None
    elif ty == "RangeTo":
        a, b = C(0, 64), r.f[0]
    elif ty == "RangeFull":
        return s
    else:
        raise Unsup("index by %s" % ty)

    def cursor(t, lo):
        for k in range(lo, len(st.items) + 1):
            if ex.entails(st, eq(t, sub(st.pos(k), st.pos(s.lo)))):
                return k
        return None
    lo = cursor(a, s.lo)
    hi = s.hi if b is None else cursor(b, lo if lo is not None else s.lo)
    if lo is None or hi is None:
        raise Unsup("slice at an unknown offset")
    if isinstance(s.hi, int) and (lo > s.hi or (isinstance(hi, int) and hi > s.hi)):
        raise Unsup("slice beyond its end")
    ex.obls["%s: slice in range on character boundaries" % fname] = 1
    return Str(lo, hi)


SLICE = {"starts_with", "strip_prefix", "first", "get", "index", "split_at", "split_first", "is_empty", "eq", "ne", "deref", "as_ref", "borrow", "to_owned", "len"}


def slice_call(ex, st, last, args, d0, fname):
    """slices of bytes at known offsets"""
    one = lambda v: [(st, v)]

    def seq(v):
        v = ex.deref(st, v)
        if isinstance(v, Agg) and v.ty == "[]" and all(isinstance(x, T) and x.w == 8 for x in v.f):
            return Seq([("b", x) for x in v.f])
        if isinstance(v, Seq):
            return v
        raise Unsup("bytes %r" % (v,))

    def num(v):
        v = ex.deref(st, v)
        if isinstance(v, T) and isc(v):
            return v.v
        raise Unsup("slice at a symbolic offset")

    def opt(c, v):
        return [(s, v() if i == 0 else NONE) for i, s in ex.fork(st, [c, Not(c)])]
    d = seq(d0)
    n = seqlen(d)

    def upto(k, what):
        ex.oblige(st, ule(C(k, 64), n), "%s: %s in range" % (fname, what))
    if last in ("deref", "as_ref", "borrow"):
        return one(args[0])
    if last == "to_owned":
        return one(d)
    if last == "len":
        return one(n)
    if last == "is_empty":
        return one(eq(n, C(0, 64)))
    if last in ("starts_with", "strip_prefix"):
        p = seq(args[1])
        if any(x[0] != "b" for x in p.segs):
            raise Unsup("prefix of unknown length")
        k = len(p.segs)
        c = And(ule(C(k, 64), n), *[eq(seqbyte(d, i), p.segs[i][1]) for i in range(k)])
        return one(c) if last == "starts_with" else opt(c, lambda: some(seqtail(d, k)))
    if last in ("eq", "ne"):
        p = seq(args[1])
        if any(x[0] != "b" for x in p.segs):
            d, p = p, d
        if any(x[0] != "b" for x in p.segs):
            raise Unsup("comparison of unknown lengths")
        k = len(p.segs)
        c = And(eq(C(k, 64), seqlen(d)), *[eq(seqbyte(d, i), p.segs[i][1]) for i in range(k)])
        return one(c if last == "eq" else Not(c))
    if last == "first":
        return opt(ult(C(0, 64), n), lambda: some(CRef(seqbyte(d, 0))))
    if last == "split_first":
        return opt(ult(C(0, 64), n), lambda: some(Agg("()", None, (CRef(seqbyte(d, 0)), seqtail(d, 1)))))
    if last == "split_at":
        k = num(args[1])
        upto(k, "split")
        return one(Agg("()", None, (Seq([("b", seqbyte(d, i)) for i in range(k)]), seqtail(d, k))))
    r = ex.deref(st, args[1])
    if isinstance(r, Agg):
        t = r.ty.split("::")[-1].split("<")[0]
        if t == "RangeFull":
            return one(args[0])
        lo, hi = {"RangeFrom": lambda: (num(r.f[0]), None), "RangeTo": lambda: (0, num(r.f[0])), "Range": lambda: (num(r.f[0]), num(r.f[1]))}.get(
            t, lambda: (None, None))()
        if lo is None or (hi is not None and hi < lo):
            raise Unsup("slice %r" % (r,))
        v = lambda: seqtail(d, lo) if hi is None else Seq([("b", seqbyte(d, i)) for i in range(lo, hi)])
        k = lo if hi is None else hi
        if last == "get":
            return opt(ule(C(k, 64), n), lambda: some(v()))
        upto(k, "slice")
        return one(v())
    k = num(r)
    if last == "get":
        return opt(ult(C(k, 64), n), lambda: some(CRef(seqbyte(d, k))))
    upto(k + 1, "index")
    return one(CRef(seqbyte(d, k)))


def bytes_call(ex, st, p, last, args, callee):
    one = lambda v: [(st, v)]
    if last in ("new", "with_capacity") and "Vec" in p:
        return one(Seq(()))

    def seq(v):
        v = ex.deref(st, v)
        if isinstance(v, Seq):
            return list(v.segs)
        if isinstance(v, Opq) and v.tag == "bytes it":
            return list(v.v)
        if isinstance(v, Opq) and v.tag == "arr it" and all(isinstance(x, T) and x.w == 8 for x in v.v):
            return [("b", x) for x in v.v]
        if isinstance(v, Agg) and v.ty == "[]" and all(isinstance(x, T) and x.w == 8 for x in v.f):
            return [("b", x) for x in v.f]
        raise Unsup("bytes %r" % (v,))
    if last == "concat":
        v = ex.deref(st, args[0])
        if isinstance(v, Agg) and v.ty == "[]":
            return one(Seq(sum((seq(x) for x in v.f), [])))
    elif last in ("to_vec", "from", "collect"):
        return one(Seq(seq(args[0])))
    elif last in ("iter", "into_iter", "copied", "cloned"):
        return one(Opq("bytes it", tuple(seq(args[0]))))
    elif last == "chain":
        return one(Opq("bytes it", tuple(seq(args[0]) + seq(args[1]))))
    elif last in ("extend_from_slice", "extend"):
        r, w = ex.target(st, args[0])
        ex.put(st, (r.d, r.l, r.p), Seq(seq(w) + seq(args[1])))
        return one(UNIT)
    elif last == "push":
        r, w = ex.target(st, args[0])
        ex.put(st, (r.d, r.l, r.p), Seq(seq(w) + [("b", ex.term(args[1]))]))
        return one(UNIT)
    raise Unsup("library function %s" % p)
