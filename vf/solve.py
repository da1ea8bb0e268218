"""Discharging obligations: own terms -> z3 (and SMT-LIB text for a second solver)."""
import z3
import time
from .terms import *

from collections import defaultdict
STATS = defaultdict(float)


class Tr:
    def __init__(self):
        self.memo = {}
        self.fns = {}

    def var(self, t):
        return z3.BitVec(t.v, t.w) if t.w else z3.Bool(t.v)

    def __call__(self, t):
        m = self.memo
        r = m.get(t.id)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in m:
                st.pop()
                continue
            todo = [y for y in x.a if y.id not in m]
            if todo:
                st.extend(todo)
                continue
            m[x.id] = self.one(x, [m[y.id] for y in x.a])
            st.pop()
        return m[t.id]

    def one(self, x, a):
        op, w = x.op, x.w
        if op == "c":
            return z3.BitVecVal(x.v, w)
        if op == "var":
            return self.var(x)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "lin":
            r = None
            for y, c in zip(a, x.v[:-1]):
                if c == 1:
                    z = y
                elif c == (1 << w) - 1:
                    z = -y
                else:
                    z = z3.BitVecVal(c, w) * y
                r = z if r is None else r + z
            if x.v[-1]:
                r = r + z3.BitVecVal(x.v[-1], w)
            return r
        if op == "mul":
            if w >= 128:
                # wide symbolic products stay uninterpreted (assoc-comm normalised by the term layer)
                f = self.fn("umul%d_%d" % (w, len(a)), [w] * len(a), w)
                return f(*a)
            r = a[0]
            for y in a[1:]:
                r = r * y
            return r
        if op == "uf":
            f = self.fn(x.v, [y.w for y in x.a], w)
            return f(*a)
        if op == "extract":
            return z3.Extract(x.v[0], x.v[1], a[0])
        if op == "concat":
            return z3.Concat(*a)
        if op == "sext":
            return z3.SignExt(w - x.a[0].w, a[0])
        if op == "and":
            return a[0] & a[1]
        if op == "or":
            return a[0] | a[1]
        if op == "xor":
            return a[0] ^ a[1]
        if op == "not":
            return ~a[0]
        if op == "shl":
            return a[0] << a[1]
        if op == "lshr":
            return z3.LShR(a[0], a[1])
        if op == "ashr":
            return a[0] >> a[1]
        if op == "udiv":
            return z3.UDiv(a[0], a[1])
        if op == "urem":
            return z3.URem(a[0], a[1])
        if op == "sdiv":
            return a[0] / a[1]
        if op == "srem":
            return z3.SRem(a[0], a[1])
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "eq":
            return a[0] == a[1]
        if op == "ult":
            return z3.ULT(a[0], a[1])
        if op == "slt":
            return a[0] < a[1]
        if op == "bnot":
            return z3.Not(a[0])
        if op == "band":
            return z3.And(*a)
        if op == "bor":
            return z3.Or(*a)
        raise Exception("tr " + op)

    def fn(self, name, ws, w):
        k = (name, tuple(ws), w)
        f = self.fns.get(k)
        if f is None:
            f = z3.Function(name, *([z3.BitVecSort(q) if q else z3.BoolSort() for q in ws] +
                                    [z3.BitVecSort(w) if w else z3.BoolSort()]))
            self.fns[k] = f
        return f


class Tr0(Tr):
    """uninterpreted applications become variables; congruence is added on demand"""

    def __init__(self):
        super().__init__()
        self.apps = {}

    def one(self, x, a):
        if x.op == "uf" or (x.op == "mul" and x.w >= 128):
            n = "!uf%d" % x.id
            self.apps[x.id] = x
            return z3.BitVec(n, x.w) if x.w else z3.Bool(n)
        return super().one(x, a)


TR = Tr()
TR0 = Tr0()


def fkey(x):
    return (x.v if x.op == "uf" else "umul", x.w) + tuple(y.w for y in x.a)


def apps_of(f):
    out, seen, st = [], set(), [f]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "uf" or (x.op == "mul" and x.w >= 128):
            out.append(x)
        st.extend(x.a)
    return out


class Model:
    def __init__(self, m, apps):
        self.m = m
        self.tab = {}
        self.memo = {}
        for x in sorted(apps, key=lambda y: y.id):
            k = fkey(x) + tuple(self.z(y) for y in x.a)
            self.tab.setdefault(k, self.z(x))

    def z(self, t):
        r = self.m.eval(TR0(t), model_completion=True)
        if t.w == 0:
            return z3.is_true(r)
        return r.as_long()

    def val(self, t, default=0):
        """value of t; applications the model says nothing about evaluate to default (None: give up)"""
        try:
            return self._val(t, default)
        except KeyError:
            return None

    def _val(self, t, default):
        m = {}
        st = [t]
        while st:
            x = st[-1]
            if x.id in m:
                st.pop()
                continue
            todo = [y for y in x.a if y.id not in m]
            if todo:
                st.extend(todo)
                continue
            if x.op == "var":
                v = self.z(x)
                m[x.id] = B(v) if x.w == 0 else C(v, x.w)
            elif x.op == "uf" or (x.op == "mul" and x.w >= 128 and fkey(x) + tuple(m[y.id].v for y in x.a) in self.tab):
                k = fkey(x) + tuple((m[y.id] is TRUE) if y.w == 0 else m[y.id].v for y in x.a)
                v = self.tab.get(k, default)
                if v is None:
                    raise KeyError(k)
                m[x.id] = B(v) if x.w == 0 else C(v, x.w)
            else:
                m[x.id] = rebuild(x, tuple(m[y.id] for y in x.a)) if x.a else x
            st.pop()
        r = m[t.id]
        return (r is TRUE) if t.w == 0 else r.v


class Lia:
    """bit-vector sums and comparisons as integers with explicit wrap-around; every other operator is opaque.
    Only 'unsat' answers are used."""

    def __init__(self):
        self.memo, self.side, self.fns = {}, [], {}

    def rngv(self, name, w):
        x = z3.Int(name)
        self.side.append(x >= 0)
        self.side.append(x < (1 << w))
        return x

    def __call__(self, t):
        m, st = self.memo, [t]
        while st:
            x = st[-1]
            if x.id in m:
                st.pop()
                continue
            todo = [y for y in x.a if y.id not in m]
            if todo:
                st.extend(todo)
                continue
            m[x.id] = self.one(x, [m[y.id] for y in x.a])
            st.pop()
        return m[t.id]

    def sg(self, a, w):
        if z3.is_int_value(a):
            v = a.as_long()
            return z3.IntVal(v - (1 << w) if v >> (w - 1) else v)
        return z3.If(a < (1 << (w - 1)), a, a - (1 << w))

    def one(self, x, a):
        op, w = x.op, x.w
        if op == "c":
            return z3.IntVal(x.v)
        if op == "var":
            return self.rngv(x.v, w) if w else z3.Bool(x.v)
        if op in ("true", "false"):
            return z3.BoolVal(op == "true")
        if op == "lin":
            t = []
            for y, c in zip(a, x.v[:-1]):
                if c >> (w - 1):
                    c -= 1 << w
                t.append(y * c if c != 1 else y)
            c = x.v[-1]
            if c >> (w - 1):
                c -= 1 << w
            r = self.rngv("!l%d" % x.id, w)
            k = z3.Int("!k%d" % x.id)
            self.side.append(z3.Sum(t) + c == r + k * (1 << w))
            return r
        if op == "uf":
            if any(y.w == 0 for y in x.a):
                return z3.Bool("!o%d" % x.id) if w == 0 else self.rngv("!o%d" % x.id, w)
            k = fkey(x)
            f = self.fns.get(k)
            if f is None:
                f = self.fns[k] = z3.Function("%s/%s" % (x.v, k[1:]), *([z3.IntSort()] * len(a) + [
                    z3.IntSort() if w else z3.BoolSort()]))
            r = f(*a)
            if w:
                self.side.append(r >= 0)
                self.side.append(r < (1 << w))
            return r
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "eq":
            return a[0] == a[1]
        if op == "ult":
            return a[0] < a[1]
        if op == "slt":
            wy = x.a[0].w
            return self.sg(a[0], wy) < self.sg(a[1], wy)
        if op == "bnot":
            return z3.Not(a[0])
        if op == "band":
            return z3.And(*a)
        if op == "bor":
            return z3.Or(*a)
        if op == "sext":
            v = x.a[0].w
            return z3.If(a[0] < (1 << (v - 1)), a[0], a[0] + (1 << w) - (1 << v))
        if op == "concat" and x.a[0].op == "c" and x.a[0].v == 0 and len(a) == 2:
            return a[1]
        if op == "extract":
            # x = hi part * 2^(h+1) + r * 2^l + low part
            hi, lo = x.v
            W = x.a[0].w
            r = self.rngv("!e%d" % x.id, w)
            h = self.rngv("!h%d" % x.id, W - hi - 1) if hi < W - 1 else None
            l = self.rngv("!b%d" % x.id, lo) if lo else None
            t = r * (1 << lo)
            if h is not None:
                t = t + h * (1 << (hi + 1))
            if l is not None:
                t = t + l
            self.side.append(a[0] == t)
            return r
        if w == 0:
            return z3.Bool("!o%d" % x.id)
        return self.rngv("!o%d" % x.id, w)


def lia_unsat(f, timeout):
    L = Lia()
    s = z3.Solver()
    s.set("timeout", timeout)
    cs = [L(c) for c in (f.a if f.op == "band" else (f,))]
    for c in L.side + cs:
        s.add(c)
    return s.check() == z3.unsat


def check(conds, timeout=20000):
    """returns ('unsat', None) | ('sat', Model) | ('unknown', reason)"""
    f = And(*conds)
    if f is FALSE:
        STATS["simplifier"] += 1
        return "unsat", None
    t0 = time.time()
    r = check_bv(f, min(1500, timeout), t0)
    if r[0] == "unknown":
        if lia_unsat(f, max(timeout // 2, 1000)):
            r = ("unsat", None)
            STATS["integer"] = STATS.get("integer", 0) + 1
        elif timeout > 1500:
            r = check_bv(f, timeout, time.time())
    STATS["time"] += time.time() - t0
    STATS["queries"] += 1
    STATS[r[0]] += 1
    return r


def check_bv(f, timeout, t0):
    s = z3.SolverFor("QF_BV")
    for c in (f.a if f.op == "band" else (f,)):
        s.add(TR0(c))
    apps = apps_of(f)
    groups = {}
    for x in apps:
        groups.setdefault(fkey(x), []).append(x)
    groups = [sorted(g, key=lambda y: y.id) for g in groups.values() if len(g) > 1]
    res, info = "unknown", "timeout"
    added = set()
    while True:
        left = timeout - int(1000 * (time.time() - t0))
        if left <= 0:
            break
        s.set("timeout", left)
        r = s.check()
        if r == z3.unsat:
            res, info = "unsat", None
            break
        if r != z3.sat:
            info = s.reason_unknown()
            break
        m = s.model()
        bad = 0

        def ev(t):
            return m.eval(TR0(t), model_completion=True).get_id()
        for g in groups:
            tab = {}
            for x in g:
                k = tuple(str(m.eval(TR0(y), model_completion=True)) for y in x.a)
                v = str(m.eval(TR0(x), model_completion=True))
                o = tab.get(k)
                if o is None:
                    tab[k] = (x, v)
                elif o[1] != v:
                    y = o[0]
                    if (y.id, x.id) in added:
                        continue
                    added.add((y.id, x.id))
                    eqs = [eq(p, q) for p, q in zip(x.a, y.a)]
                    s.add(TR0(Implies(And(*eqs), eq(x, y))))
                    bad += 1
        if not bad:
            res, info = "sat", Model(m, apps)
            break
    return res, info


def smt2(conds):
    s = z3.Solver()
    for c in conds:
        s.add(TR(c))
    return "(set-logic QF_UFBV)\n" + s.to_smt2()
