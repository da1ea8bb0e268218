"""Hash-consed bit-vector/boolean terms with aggressive local simplification.

The same constructors are used to build verification conditions (symbolic
arguments) and to evaluate a specification on concrete arguments (everything
folds to constants).  w == 0 means Bool.
"""
import sys
sys.setrecursionlimit(200000)

_tab = {}
_next = [0]


class T:
    __slots__ = ("op", "w", "a", "v", "id")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("term used as a Python bool: %s" % show(self))


def _mk(op, w, a=(), v=None):
    key = (op, w, tuple([x.id for x in a]), v)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.w, t.a, t.v = op, w, a, v
        t.id = _next[0]
        _next[0] += 1
        _tab[key] = t
    return t


def reset():
    """Forget all terms (between independent verification tasks)."""
    global TRUE, FALSE
    _tab.clear()
    TRUE = _mk("true", 0)
    FALSE = _mk("false", 0)


TRUE = _mk("true", 0)
FALSE = _mk("false", 0)


def B(b):
    return TRUE if b else FALSE


def C(v, w):
    return _mk("c", w, (), v & ((1 << w) - 1))


def V(name, w):
    return _mk("var", w, (), name)


def UF(name, args, w):
    return _mk("uf", w, tuple(args), name)


def isc(t):
    return t.op == "c"


def istrue(t):
    return t is TRUE


def isfalse(t):
    return t is FALSE


def sval(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


# ---------------------------------------------------------------- linear form
# 'lin': a = monomial terms sorted by id, v = (coefs..., const)
def _lin_parts(t):
    if t.op == "c":
        return {}, t.v
    if t.op == "lin":
        return {x: c for x, c in zip(t.a, t.v[:-1])}, t.v[-1]
    return {t: 1}, 0


def _mk_lin(parts, const, w):
    m = (1 << w) - 1
    const &= m
    items = [(x, c & m) for x, c in parts.items() if c & m]
    if not items:
        return C(const, w)
    items.sort(key=lambda p: p[0].id)
    if len(items) == 1 and items[0][1] == 1 and const == 0:
        return items[0][0]
    return _mk("lin", w, tuple(x for x, _ in items), tuple(c for _, c in items) + (const,))


def add(*ts):
    w = ts[0].w
    parts, const = {}, 0
    for t in ts:
        p, c = _lin_parts(t)
        const += c
        for x, k in p.items():
            parts[x] = parts.get(x, 0) + k
    return _mk_lin(parts, const, w)


def scale(t, k):
    p, c = _lin_parts(t)
    return _mk_lin({x: q * k for x, q in p.items()}, c * k, t.w)


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    w = a.w
    if isc(a):
        return scale(b, a.v)
    if isc(b):
        return scale(a, b.v)
    coef = 1
    fs = []
    for t in (a, b):
        if t.op == "lin" and len(t.a) == 1 and t.v[-1] == 0:
            coef *= t.v[0]
            t = t.a[0]
        if t.op == "mul":
            fs.extend(t.a)
        else:
            fs.append(t)
    fs.sort(key=lambda x: x.id)
    return scale(_mk("mul", w, tuple(fs)), coef)


def udiv(a, b):
    if isc(b) and b.v:
        if isc(a):
            return C(a.v // b.v, a.w)
        if b.v & (b.v - 1) == 0:
            return lshr(a, C(b.v.bit_length() - 1, a.w))
    return _mk("udiv", a.w, (a, b))


def urem(a, b):
    if isc(b) and b.v:
        if isc(a):
            return C(a.v % b.v, a.w)
        if b.v & (b.v - 1) == 0:
            return band(a, C(b.v - 1, a.w))
    return _mk("urem", a.w, (a, b))


def sdiv(a, b):
    if isc(a) and isc(b) and b.v:
        x, y = sval(a.v, a.w), sval(b.v, a.w)
        q = abs(x) // abs(y)
        return C(q if (x < 0) == (y < 0) else -q, a.w)
    return _mk("sdiv", a.w, (a, b))


def srem(a, b):
    if isc(a) and isc(b) and b.v:
        x, y = sval(a.v, a.w), sval(b.v, a.w)
        r = abs(x) % abs(y)
        return C(-r if x < 0 else r, a.w)
    return _mk("srem", a.w, (a, b))


# ---------------------------------------------------------------- structure
def extract(hi, lo, x):
    w = hi - lo + 1
    if lo == 0 and w == x.w:
        return x
    op = x.op
    if op == "c":
        return C(x.v >> lo, w)
    if op == "extract":
        return extract(hi + x.v[1], lo + x.v[1], x.a[0])
    if op == "concat":
        out = []
        top = x.w
        for p in x.a:
            ph, pl = top - 1, top - p.w
            top = pl
            h, l = min(hi, ph), max(lo, pl)
            if h >= l:
                out.append(extract(h - pl, l - pl, p))
        return concat(*out)
    if op == "ite":
        return ite(x.a[0], extract(hi, lo, x.a[1]), extract(hi, lo, x.a[2]))
    if op in ("and", "or", "xor"):
        f = {"and": band, "or": bor, "xor": bxor}[op]
        r = extract(hi, lo, x.a[0])
        for y in x.a[1:]:
            r = f(r, extract(hi, lo, y))
        return r
    if op == "not":
        return bnot(extract(hi, lo, x.a[0]))
    if op == "sext":
        y = x.a[0]
        if hi < y.w:
            return extract(hi, lo, y)
        if lo == 0:
            return sext(y, w)
    if lo == 0 and op == "lin":
        ps = {}
        const = x.v[-1]
        r = C(const, w)
        return add(r, *[scale(extract(hi, 0, t), c) for t, c in zip(x.a, x.v[:-1])])
    return _mk("extract", w, (x,), (hi, lo))


def _same_ite(parts):
    c = None
    any_ite = False
    for p in parts:
        if p.op == "ite":
            if c is None:
                c = p.a[0]
            elif c is not p.a[0]:
                return None
            any_ite = True
    return c if any_ite else None


def concat(*parts):
    """parts from most significant to least significant"""
    flat = []
    for p in parts:
        if p.op == "concat":
            flat.extend(p.a)
        else:
            flat.append(p)
    out = []
    for p in flat:
        if out:
            q = out[-1]
            if q.op == "c" and p.op == "c":
                out[-1] = C((q.v << p.w) | p.v, q.w + p.w)
                continue
            qs, qh, ql = _ex(q)
            ps, ph, pl = _ex(p)
            if qs is ps and ql == ph + 1 and q.op != "c":
                if qs.op == "ite":
                    pass
                else:
                    out[-1] = extract(qh, pl, qs)
                    continue
            if q.op == "extract" and q.v[1] >= p.w and q.a[0].op == "lin" and \
                    extract(q.v[1] - 1, q.v[1] - p.w, q.a[0]) is p:
                out[-1] = extract(q.v[0], q.v[1] - p.w, q.a[0])
                continue
            if (q.op == "ite" and p.op == "ite" and q.a[0] is p.a[0]):
                out[-1] = ite(q.a[0], concat(q.a[1], p.a[1]), concat(q.a[2], p.a[2]))
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    return _mk("concat", sum(p.w for p in out), tuple(out))


def _ex(t):
    if t.op == "extract":
        return t.a[0], t.v[0], t.v[1]
    return t, t.w - 1, 0


def zext(x, w):
    if w == x.w:
        return x
    return concat(C(0, w - x.w), x)


def sext(x, w):
    if w == x.w:
        return x
    if isc(x):
        return C(sval(x.v, x.w), w)
    if x.op == "concat" and x.a[0].op == "c" and not (x.a[0].v >> (x.a[0].w - 1)) & 1:
        return zext(x, w)
    if x.op == "ite":
        return ite(x.a[0], sext(x.a[1], w), sext(x.a[2], w))
    if x.op == "sext":
        return sext(x.a[0], w)
    return _mk("sext", w, (x,))


def trunc(x, w):
    return extract(w - 1, 0, x)


# ---------------------------------------------------------------- bitwise
def _maskruns(v, w):
    """decompose constant into runs [(bit, width)] from msb"""
    runs = []
    i = w - 1
    while i >= 0:
        b = v >> i & 1
        j = i
        while j >= 0 and (v >> j & 1) == b:
            j -= 1
        runs.append((b, i, j + 1))
        i = j
    return runs


def band(a, b):
    if a is b:
        return a
    if isc(a):
        a, b = b, a
    w = a.w
    if isc(b):
        if isc(a):
            return C(a.v & b.v, w)
        if b.v == 0:
            return b
        if b.v == (1 << w) - 1:
            return a
        runs = _maskruns(b.v, w)
        if len(runs) <= 4:
            return concat(*[extract(h, l, a) if bit else C(0, h - l + 1) for bit, h, l in runs])
    if a.op == "concat" or b.op == "concat":
        r = _split2(a, b, band)
        if r is not None:
            return r
    if a.op == "not" and a.a[0] is b or b.op == "not" and b.a[0] is a:
        return C(0, w)
    if a.id > b.id:
        a, b = b, a
    return _mk("and", w, (a, b))


def _cuts(t):
    cuts = set()
    if t.op == "concat":
        p = t.w
        for x in t.a:
            p -= x.w
            cuts.add(p)
    return cuts


def _haszero(t):
    return t.op == "concat" and any(x.op == "c" for x in t.a)


def _split2(a, b, f):
    """split a bitwise op along constant parts of a concat"""
    if not (_haszero(a) or _haszero(b)):
        if not (a.op == "concat" and b.op == "concat" and _cuts(a) == _cuts(b)):
            return None
    cuts = sorted(_cuts(a) | _cuts(b) | {0})
    if len(cuts) > 40:
        return None
    out = []
    top = a.w
    for c in reversed(cuts):
        if c < top:
            out.append(f(extract(top - 1, c, a), extract(top - 1, c, b)))
            top = c
    return concat(*out)


def bor(a, b):
    if a is b:
        return a
    if isc(a):
        a, b = b, a
    w = a.w
    if isc(b):
        if isc(a):
            return C(a.v | b.v, w)
        if b.v == 0:
            return a
        if b.v == (1 << w) - 1:
            return b
        runs = _maskruns(b.v, w)
        if len(runs) <= 4:
            return concat(*[C(-1, h - l + 1) if bit else extract(h, l, a) for bit, h, l in runs])
    if a.op == "concat" or b.op == "concat":
        r = _split2(a, b, bor)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return _mk("or", w, (a, b))


def bxor(a, b):
    w = a.w
    if a is b:
        return C(0, w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return C(a.v ^ b.v, w)
        if b.v == 0:
            return a
        if b.v == (1 << w) - 1:
            return bnot(a)
    if a.op == "concat" or b.op == "concat":
        r = _split2(a, b, bxor)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    return _mk("xor", w, (a, b))


def bnot(a):
    if isc(a):
        return C(~a.v, a.w)
    if a.op == "not":
        return a.a[0]
    if a.op == "concat":
        return concat(*[bnot(x) for x in a.a])
    if a.op == "ite":
        return ite(a.a[0], bnot(a.a[1]), bnot(a.a[2]))
    return _mk("not", a.w, (a,))


def shl(a, b):
    w = a.w
    if isc(b):
        k = b.v
        if k >= w:
            return C(0, w)
        if k == 0:
            return a
        return concat(extract(w - 1 - k, 0, a), C(0, k))
    if isc(a) and a.v == 0:
        return a
    return _mk("shl", w, (a, b))


def lshr(a, b):
    w = a.w
    if isc(b):
        k = b.v
        if k >= w:
            return C(0, w)
        if k == 0:
            return a
        return concat(C(0, k), extract(w - 1, k, a))
    if isc(a) and a.v == 0:
        return a
    return _mk("lshr", w, (a, b))


def ashr(a, b):
    w = a.w
    if isc(b):
        k = min(b.v, w - 1)
        if k == 0:
            return a
        return sext(extract(w - 1, k, a), w)
    return _mk("ashr", w, (a, b))


# ---------------------------------------------------------------- bool
def Not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "bnot":
        return a.a[0]
    return _mk("bnot", 0, (a,))


def And(*ts):
    out = {}
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "band":
            for x in t.a:
                out[x] = 1
        else:
            out[t] = 1
    for t in out:
        if t.op == "bnot" and t.a[0] in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return _mk("band", 0, tuple(sorted(out, key=lambda x: x.id)))


def Or(*ts):
    out = {}
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == "bor":
            for x in t.a:
                out[x] = 1
        else:
            out[t] = 1
    for t in out:
        if t.op == "bnot" and t.a[0] in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return _mk("bor", 0, tuple(sorted(out, key=lambda x: x.id)))


def Implies(a, b):
    return Or(Not(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "bnot":
        return ite(c.a[0], b, a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.w == 0:
        if a is TRUE:
            return Or(c, b)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
        if b is FALSE:
            return And(c, a)
    return _mk("ite", a.w, (c, a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 0:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return Not(b)
        if b is FALSE:
            return Not(a)
        if a.id > b.id:
            a, b = b, a
        return _mk("eq", 0, (a, b))
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return FALSE  # different constants
        if a.op == "ite":
            x, y = a.a[1], a.a[2]
            if isc(x) or isc(y):
                return ite(a.a[0], eq(x, b), eq(y, b))
        if a.op == "concat" and any(p.op == "c" for p in a.a):
            r = TRUE
            top = a.w
            for p in a.a:
                r = And(r, eq(p, extract(top - 1, top - p.w, b)))
                top -= p.w
            return r
    d = sub(a, b)
    if isc(d):
        return FALSE if d.v else TRUE
    if d.op == "lin" and (a.op == "lin" or b.op == "lin"):
        # canonical: single var vs const
        if len(d.a) == 1 and d.v[0] in (1, (1 << d.w) - 1):
            k = -d.v[1] if d.v[0] == 1 else d.v[1]
            if a is not d.a[0] and b is not d.a[0]:
                return eq(d.a[0], C(k, d.w))
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", 0, (a, b))


def ne(a, b):
    return Not(eq(a, b))


def _leadzero(t):
    if t.op == "concat" and t.a[0].op == "c" and t.a[0].v == 0:
        return t.a[0].w
    return 0


def ult(a, b):
    if a is b:
        return FALSE
    if isc(b):
        if b.v == 0:
            return FALSE
        if isc(a):
            return B(a.v < b.v)
        z = _leadzero(a)
        if z and b.v >> (a.w - z):
            return TRUE
        if b.v == 1:
            return eq(a, C(0, a.w))
    if isc(a):
        if a.v == (1 << a.w) - 1:
            return FALSE
        if a.v == 0:
            return ne(b, a)
    z = min(_lz(a), _lz(b))
    if z:
        return ult(extract(a.w - 1 - z, 0, a), extract(a.w - 1 - z, 0, b))
    if a.op == "ite" and isc(b) and (isc(a.a[1]) or isc(a.a[2])):
        return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    return _mk("ult", 0, (a, b))


def _lz(t):
    if isc(t):
        return min(t.w - t.v.bit_length(), t.w - 1)
    return _leadzero(t)


def ule(a, b):
    return Not(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return Not(ult(a, b))


def slt(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return B(sval(a.v, a.w) < sval(b.v, b.w))
    if min(_lz(a), _lz(b)) > 0:
        return ult(a, b)
    if _lz(a) > 0 and isc(b) and b.v >> (b.w - 1):
        return FALSE
    if _lz(b) > 0 and isc(a) and a.v >> (a.w - 1):
        return TRUE
    if isc(b) and b.v == 0 and False:
        pass
    if a.op == "ite" and isc(b) and (isc(a.a[1]) or isc(a.a[2])):
        return ite(a.a[0], slt(a.a[1], b), slt(a.a[2], b))
    return _mk("slt", 0, (a, b))


def sle(a, b):
    return Not(slt(b, a))


def bool2bv(b, w=1):
    return ite(b, C(1, w), C(0, w))


def bv2bool(t):
    return ne(t, C(0, t.w))


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if t.op in ("c",):
        return "%d:%d" % (t.v, t.w) if t.v < 1 << 64 else "0x%x:%d" % (t.v, t.w)
    if t.op in ("true", "false"):
        return t.op
    if t.op == "var":
        return t.v
    if depth == 0:
        return "..."
    a = " ".join(show(x, depth - 1) for x in t.a)
    if t.v is not None:
        return "(%s%s %s)" % (t.op, list(t.v) if isinstance(t.v, tuple) else "." + str(t.v), a)
    return "(%s %s)" % (t.op, a)


def subst(t, m, memo=None):
    """Substitute terms (dict T->T) rebuilding through the simplifying constructors."""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a:
        return t
    args = [_subst(x, m, memo) for x in t.a]
    if all(x is y for x, y in zip(args, t.a)):
        r = t
    else:
        r = rebuild(t, args)
    memo[t] = r
    return r


def rebuild(t, a):
    op = t.op
    if op == "lin":
        return add(C(t.v[-1], t.w), *[scale(x, c) for x, c in zip(a, t.v[:-1])])
    if op == "mul":
        r = a[0]
        for x in a[1:]:
            r = mul(r, x)
        return r
    if op == "extract":
        return extract(t.v[0], t.v[1], a[0])
    if op == "concat":
        return concat(*a)
    if op == "uf":
        return UF(t.v, a, t.w)
    if op == "sext":
        return sext(a[0], t.w)
    return _BUILD[op](*a)


_BUILD = {
    "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem, "and": band, "or": bor,
    "xor": bxor, "not": bnot, "shl": shl, "lshr": lshr, "ashr": ashr, "bnot": Not,
    "band": And, "bor": Or, "ite": ite, "eq": eq, "ult": ult, "slt": slt,
}


def leaves(t, seen=None):
    """all variables and UF applications in t"""
    seen = set()
    out = []
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("var", "uf"):
            out.append(x)
        st.extend(x.a)
    return out
