"""Loop summaries: inductive invariants proposed from one symbolic iteration and then proved.

Three templates.  In each the invariant is checked for initiation and preservation for an
arbitrary iteration; nothing is assumed that has not been discharged.
  linear  - induction variables v = v0 + c*k, memory effect "bytes [A, A+g*k) hold f(0..k-1)",
            trip bound k <= K, and for early exits "no earlier iteration took the exit".
  pow     - r * b^e is constant (square-and-multiply).
"""
import itertools
from . import mem, ir
from .terms import *
from .ir import Unsupported


def summarise(ex, f, cfg, loop, cur, snap, rets):
    if len(cur) != 1:
        return None
    saved_obls, saved_term, saved_rets = ex.obls[snap[0]:], ex.terminal[snap[1]:], rets[snap[2]:]
    saved_hyps = list(ex.hyps)

    def reset():
        del ex.obls[snap[0]:]
        del ex.terminal[snap[1]:]
        del rets[snap[2]:]
        ex.hyps[:] = saved_hyps

    for tmpl in (linear, power):
        reset()
        try:
            r = tmpl(ex, f, cfg, loop, cur[0], rets)
        except (Unsupported, GiveUp):
            r = None
        if r is not None:
            return r
    reset()
    ex.obls.extend(saved_obls)
    ex.terminal.extend(saved_term)
    rets.extend(saved_rets)
    return None


class GiveUp(Exception):
    pass


def body(ex, f, cfg, loop, st, rets):
    return ex.run_region(f, cfg, loop, {loop.header: [st.copy()]}, rets)


def dry(ex, f, cfg, loop, st):
    """run the body once without recording anything"""
    o, t, h = len(ex.obls), len(ex.terminal), list(ex.hyps)
    rr = []
    r = body(ex, f, cfg, loop, st, rr)
    del ex.obls[o:]
    del ex.terminal[t:]
    ex.hyps[:] = h
    return r, rr


def ok(ex, st, goal, facts=()):
    from . import solve
    if goal is TRUE:
        return True
    r, _ = solve.check(list(ex.hyps) + list(st.pc) + list(facts) + [Not(goal)], 10000)
    return r == "unsat"


def changed_regions(a, b):
    return [k for k in a.mem if k in b.mem and a.mem[k] is not b.mem[k]]


def is_scalar(ex, f, name):
    r = ex.regions[name]
    return r.kind == "local" and isinstance(r.size, int) and r.size in (1, 2, 4, 8, 16, 32) and \
        name.split("~")[0] in scalar_allocas(ex)


def scalar_allocas(ex):
    c = getattr(ex.m, "_scal", None)
    if c is None:
        c = set()
        for f in ex.m.funcs.values():
            for b in f.blocks.values():
                for i in b:
                    if i.op == "alloca" and i.ty[0] in ("i", "ptr"):
                        c.add("%s/%s" % (f.name, i.res))
        ex.m._scal = c
    return c


def cell(ex, st, name):
    n = ex.regions[name].size
    nd = st.mem[name]
    return concat(*[nd.read(C(i, 32)) for i in range(n - 1, -1, -1)])


def setcell(ex, st, name, v):
    n = ex.regions[name].size
    st.mem[name] = mem.Dict(mem.Base(lambda o: C(0, 8)), {i: extract(8 * i + 7, 8 * i, v) for i in range(n)})


def header_phis(f, loop):
    return [i.res for i in f.blocks[loop.header] if i.op == "phi"]


def same_ghost(a, b):
    if len(a.ev) != len(b.ev):
        return False
    for k in a.gh:
        if a.gh[k] is not b.gh.get(k):
            return False
    return True


def merged_back(ex, back, s):
    m = ex.merge_only(back)
    if len(m) != 1 or not same_ghost(m[0], s):
        raise GiveUp()
    return m[0]


# ------------------------------------------------------------------ linear
def linear(ex, f, cfg, loop, s0, rets):
    (ex1, back), _ = dry(ex, f, cfg, loop, s0)
    if not back:
        return None
    b1 = merged_back(ex, back, s0)
    phis = header_phis(f, loop)
    # fixpoint over the set of modified scalars / regions
    slots, havoc, regs = {}, set(), set()

    def classify(s, b):
        ch = False
        for name in changed_regions(s, b):
            if is_scalar(ex, f, name):
                if name in havoc:
                    continue
                v0, v1 = cell(ex, s, name), cell(ex, b, name)
                if v0 is v1:
                    continue
                d = sub(v1, v0)
                if isc(d) and (name not in slots or slots[name][1] == sval(d.v, d.w)):
                    if name not in slots:
                        slots[name] = (cell(ex, s0, name), sval(d.v, d.w))
                        ch = True
                else:
                    slots.pop(name, None)
                    havoc.add(name)
                    ch = True
            elif name not in regs:
                regs.add(name)
                ch = True
        for p in phis:
            v0, v1 = s.env[p], b.env[p]
            if v0 is v1 or ("%" + p) in havoc:
                continue
            key = "%" + p
            d = sub(v1, v0) if isinstance(v0, T) and v0.w else None
            if d is not None and isc(d) and (key not in slots or slots[key][1] == sval(d.v, d.w)):
                if key not in slots:
                    slots[key] = (s0.env[p], sval(d.v, d.w))
                    ch = True
            else:
                slots.pop(key, None)
                havoc.add(key)
                ch = True
        return ch

    k = ex.fresh("k", 32)

    def at(kt, writes=None, hv=None, extra=()):
        s = s0.copy()
        for name, (v0, c) in slots.items():
            w = v0.w
            kk = trunc(kt, w) if w < 32 else zext(kt, w)
            v = add(v0, scale(kk, c))
            if name[0] == "%":
                s.env[name[1:]] = v
            else:
                setcell(ex, s, name, v)
        for name in havoc:
            if name[0] == "%":
                v0 = s0.env[name[1:]]
                s.env[name[1:]] = ex.fresh("hv", v0.w)
            else:
                setcell(ex, s, name, ex.fresh("hv", 8 * ex.regions[name].size))
        if writes:
            for rn, (A, step, g, fns) in writes.items():
                s.mem[rn] = guess(s0.mem[rn], A, step, g, fns, kt)
        s.pc = s.pc + tuple(x for x in extra if x is not TRUE)
        return s

    def guess(n0, A, step, g, fns, kt):
        lg = g.bit_length() - 1

        def fn(i):
            it = lshr(i, C(lg, 32)) if g > 1 else i
            if step < 0:
                it = sub(sub(kt, C(1, 32)), it)
            v = fns(it, 0)
            for j in range(1, g):
                v = ite(eq(band(i, C(g - 1, 32)), C(j, 32)), fns(it, j), v)
            return v
        ln = scale(kt, g)
        off = A if step > 0 else add(A, C(g, 32), neg(ln))
        if isc(ln) and ln.v == 0:
            return n0
        return mem.FnW(n0, off, ln, fn)

    classify(s0, b1)
    for _ in range(8):
        sk = at(k)
        (exk, back), _ = dry(ex, f, cfg, loop, sk)
        if not back:
            return None
        bk = merged_back(ex, back, sk)
        if not classify(sk, bk):
            break
    else:
        return None
    if not slots:
        return None
    # memory effects of a generic iteration
    writes = {}
    for rn in regs:
        if rn not in bk.mem:
            continue
        n0, n1 = sk.mem[rn], bk.mem[rn]
        if n0 is n1:
            continue
        st = []
        x = n1
        while x is not n0:
            if isinstance(x, mem.Sto):
                st.append(x)
                x = x.prev
            else:
                raise GiveUp()
        # join adjacent stores of the same iteration
        st.sort(key=lambda q: 0)
        base = st[0].off
        cells = {}
        for q in reversed(st):
            d = sub(q.off, base)
            if not isc(d):
                raise GiveUp()
            for j, bb in enumerate(q.bs):
                cells[sval(d.v, 32) + j] = bb
        lo = min(cells)
        g = len(cells)
        if sorted(cells) != list(range(lo, lo + g)) or g & (g - 1):
            raise GiveUp()
        off = add(base, C(lo, 32))
        A = subst(off, {k: C(0, 32)})
        step = sub(subst(off, {k: C(1, 32)}), A)
        if not isc(step) or abs(sval(step.v, 32)) != g:
            raise GiveUp()
        if sub(off, add(A, scale(k, step.v))) is not C(0, 32):
            raise GiveUp()
        bs = [cells[lo + j] for j in range(g)]
        hvars = None

        def fns(it, j, bs=bs):
            return subst(bs[j], {k: it})
        writes[rn] = (A, sval(step.v, 32), g, fns)
    # trip bound
    npc = len(sk.pc)
    cands = []
    for t, ss in exk.items():
        for s in ss:
            for c in s.pc[npc:]:
                cands += bounds(c, k)
    if not cands:
        raise GiveUp()
    for K in dict.fromkeys(cands):
        o0, t0, r0, h0 = len(ex.obls), len(ex.terminal), len(rets), list(ex.hyps)
        r = try_bound(ex, f, cfg, loop, s0, k, K, at, writes, guess, rets, slots, havoc)
        if r is not None:
            return r
        del ex.obls[o0:]
        del ex.terminal[t0:]
        del rets[r0:]
        ex.hyps[:] = h0
    return None


def try_bound(ex, f, cfg, loop, s0, k, K, at, writes, guess, rets, slots, havoc):
    fname = f.name
    sk = at(k, writes, extra=(ule(k, K),))
    r0 = len(rets)
    npc = len(sk.pc)
    exk, back = body(ex, f, cfg, loop, sk, rets)
    if not back:
        return None
    bk = merged_back(ex, back, sk)
    # classify exits: counter exit (forces k == K) or early exit
    early, counter = {}, False
    for t, ss in exk.items():
        for s in ss:
            if ok(ex, s, eq(k, K)):
                counter = True
            else:
                early.setdefault(t, []).append(s)
    early_rets = []
    for s, v in rets[r0:]:
        early_rets.append((s, v))
    if not counter and not early:
        return None
    # prefix facts for early exits
    conds = [And(*s.pc[npc:]) for ss in early.values() for s in ss] + [And(*s.pc[npc:]) for s, v in early_rets]
    facts = []
    if conds:
        D = Or(*conds)
        hv = [x for x in leaves(D) if x.op == "var" and x.v.startswith("hv#")]
        if hv:
            raise GiveUp()
        if not ok(ex, bk, Not(D)):
            raise GiveUp()
        base = s0.pc

        def fact(i, kt, D=D):
            return Implies(And(*(base + (ult(i, kt), ult(i, C(1 << 31, 32)) if False else TRUE))),
                           Not(subst(D, {k: i})))
        facts.append(fact)
    # preservation
    goals = [("loop bound is maintained", ult(k, K))]
    k1 = add(k, C(1, 32))
    s1 = at(k1, writes)
    for name in slots:
        a = bk.env[name[1:]] if name[0] == "%" else cell(ex, bk, name)
        b = s1.env[name[1:]] if name[0] == "%" else cell(ex, s1, name)
        goals.append(("induction variable is maintained", eq(a, b)))
    o = ex.fresh("o", 32)
    for rn in s0.mem:
        if rn not in bk.mem:
            continue
        if rn in slots or rn in havoc:
            continue
        a, b = bk.mem[rn], s1.mem[rn]
        if a is b:
            continue
        sz = ex.rsize(s0, ex.regions[rn])
        goals.append(("memory effect is maintained", Implies(ult(o, sz), eq(a.read(o), b.read(o)))))
    for nm, g in goals:
        if not ok(ex, bk, g):
            return None
        ex.obls.append(mkobl(ex, "%s: %s" % (fname, nm), bk, g))
    # the state after the loop
    out = {}
    for t, ss in early.items():
        for s in ss:
            addfacts(s, facts, k)
            out.setdefault(t, []).append(s)
    for s, v in early_rets:
        addfacts(s, facts, k)
    # generic counter exits are replaced by the state at k = K
    if counter:
        sK = at(K, writes)
        n1 = len(rets)
        o1, t1 = len(ex.obls), len(ex.terminal)
        exK, backK = body(ex, f, cfg, loop, sK, rets)
        for s in backK:
            if not ok(ex, s, FALSE):
                return None
        for t, ss in exK.items():
            for s in ss:
                if t in early and not ok(ex, s, FALSE) and False:
                    pass
                addfacts(s, facts, K)
                out.setdefault(t, []).append(s)
        # returns taken at iteration K itself are already covered by the generic run
        keep = []
        for s, v in rets[n1:]:
            if ok(ex, s, FALSE):
                continue
            keep.append((s, v))
        del rets[n1:]
        if keep and not early_rets:
            rets.extend(keep)
    return out


def addfacts(s, facts, kt):
    for fa in facts:
        s.facts = s.facts + ((lambda i, fa=fa, kt=kt: fa(i, kt)),)


def mkobl(ex, name, st, goal):
    from .execu import Obl
    return Obl(ex.label + name, tuple(ex.hyps) + st.pc, goal, st.facts, "loop")


def klin(t, k):
    """t = c*k + rest (rest free of k); returns (c, rest) or None"""
    if t is k:
        return 1, C(0, t.w)
    if t.op == "lin":
        c = 0
        for x, q in zip(t.a, t.v[:-1]):
            if x is k:
                c = q
            elif k in leaves(x):
                return None
        c = sval(c, t.w)
        return c, sub(t, scale(k, c))
    if k in leaves(t):
        # zero-extended / truncated counters are not handled
        return None
    return 0, t


def bounds(c, k):
    """iteration numbers at which the exit condition c becomes true"""
    out = []
    if c.op == "band":
        for x in c.a:
            out += bounds(x, k)
        return out
    if c.op == "eq" and c.a[0].w == 32:
        l = klin(sub(c.a[0], c.a[1]), k)
        if l and l[0] in (1, -1):
            out.append(neg(l[1]) if l[0] == 1 else l[1])
        return out
    negated = False
    x = c
    if x.op == "bnot":
        negated, x = True, x.a[0]
    if x.op in ("ult", "slt") and x.a[0].w == 32:
        lt = ult if x.op == "ult" else slt
        a, b = klin(x.a[0], k), klin(x.a[1], k)
        if a is None or b is None:
            return out
        z = C(0, 32)
        one = C(1, 32)
        if negated and a[0] == 1 and b[0] == 0:      # exit when a0+k >= b
            out.append(ite(lt(a[1], b[1]), sub(b[1], a[1]), z))
        elif not negated and a[0] == 0 and b[0] == 1:  # exit when a < b0+k
            out.append(ite(lt(a[1], b[1]), z, add(sub(a[1], b[1]), one)))
        elif negated and a[0] == 0 and b[0] == -1:   # exit when a >= b0-k
            out.append(ite(lt(a[1], b[1]), sub(b[1], a[1]), z))
        elif not negated and a[0] == -1 and b[0] == 0:  # exit when a0-k < b
            out.append(ite(lt(a[1], b[1]), z, add(sub(a[1], b[1]), one)))
    return out


# ------------------------------------------------------------------ power
def POW(b, e):
    return UF("pow", [b, e], b.w)


def pushmul(a, b):
    if a.op == "ite":
        return ite(a.a[0], pushmul(a.a[1], b), pushmul(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], pushmul(a, b.a[1]), pushmul(a, b.a[2]))
    return mul(a, b)


def powx(b, e, depth):
    """b^e unfolded by its recursive definition"""
    z = C(0, e.w)
    if depth == 0:
        return POW(b, e)
    h = lshr(e, C(1, e.w))
    x = powx(mul(b, b), h, depth - 1)
    odd = eq(extract(0, 0, e), C(1, 1))
    return ite(eq(e, z), C(1, b.w), ite(odd, pushmul(b, x), x))


def power(ex, f, cfg, loop, s0, rets):
    (_, back), _ = dry(ex, f, cfg, loop, s0)
    if not back:
        return None
    b1 = merged_back(ex, back, s0)
    ch = changed_regions(s0, b1)
    wide = [n for n in ch if is_scalar(ex, f, n) and ex.regions[n].size == 32]
    other = [n for n in ch if n not in wide]
    if any(not is_scalar(ex, f, n) for n in other) or header_phis(f, loop):
        return None
    # scalars assigned before the loop but constant in it may also take part
    for rn, bn, en in itertools.permutations(wide, 3):
        o0, t0, r0, h0 = len(ex.obls), len(ex.terminal), len(rets), list(ex.hyps)
        s = s0.copy()
        r, b, e = ex.fresh("pr", 256), ex.fresh("pb", 256), ex.fresh("pe", 256)
        for n in ch:
            setcell(ex, s, n, ex.fresh("hv", 8 * ex.regions[n].size))
        for n, v in ((rn, r), (bn, b), (en, e)):
            setcell(ex, s, n, v)
        r_0, b_0, e_0 = cell(ex, s0, rn), cell(ex, s0, bn), cell(ex, s0, en)
        P = pushmul(r_0, POW(b_0, e_0))
        inv = eq(pushmul(r, powx(b, e, 2)), P)
        s.pc = s.pc + (inv,)
        try:
            exk, back = body(ex, f, cfg, loop, s, rets)
            if not back:
                raise GiveUp()
            bk = merged_back(ex, back, s)
            r1, bb1, e1 = cell(ex, bk, rn), cell(ex, bk, bn), cell(ex, bk, en)
            good = True
            for nm, g in (("product r*b^e is maintained", eq(pushmul(r1, POW(bb1, e1)), pushmul(r, powx(b, e, 1)))),
                          ("exponent decreases", ult(e1, e))):
                if not ok(ex, bk, g):
                    good = False
                    break
                ex.obls.append(mkobl(ex, "%s: %s" % (f.name, nm), bk, g))
            if good:
                return exk
        except GiveUp:
            pass
        del ex.obls[o0:]
        del ex.terminal[t0:]
        del rets[r0:]
        ex.hyps[:] = h0
    return None
