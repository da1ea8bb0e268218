"""Symbolic execution of LLVM IR functions against contracts (verification-condition generation)."""
from . import ir
from .ir import Unsupported
from .terms import *
from . import mem, solve


ROLE_OF = {"deploying": "deploying", "memptr": "memptr", "Efull": "efull"}


class Region:
    def __init__(self, name, base, size, kind, writable=True):
        self.name, self.base, self.size, self.kind, self.writable = name, base, size, kind, writable

    def __repr__(self):
        return "<%s>" % self.name


class Buf:
    """a byte string read out of memory at one moment: length term + index -> byte"""

    def __init__(self, length, fn):
        self.len, self.fn = length, fn

    def bytes(self):
        return [self.fn(C(i, 32)) for i in range(self.len.v)]


class Event:
    """an interaction with the host: kind, scalar fields (terms) and byte strings"""

    def __init__(self, kind, terms=(), bufs=()):
        self.kind, self.terms, self.bufs = kind, tuple(terms), tuple(bufs)


class Outcome:
    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class St:
    __slots__ = ("pc", "mem", "gh", "ev", "env", "facts")

    def __init__(self):
        self.pc, self.mem, self.gh, self.ev, self.env, self.facts = (), {}, {}, (), {}, ()

    def copy(self):
        s = St()
        s.pc, s.mem, s.gh, s.ev, s.env, s.facts = self.pc, dict(self.mem), dict(self.gh), self.ev, dict(self.env), self.facts
        return s

    def assume(self, c):
        """returns a copy with c on the path, or None if syntactically infeasible"""
        c = simp_under(self.pc, c)
        if c is FALSE:
            return None
        s = self.copy()
        if c is not TRUE:
            s.pc = self.pc + (c,)
        return s


def simp_under(pc, c):
    if c is TRUE or c is FALSE:
        return c
    nc = Not(c)
    for p in pc:
        if p is c:
            return TRUE
        if p is nc:
            return FALSE
        if p.op == "band":
            for q in p.a:
                if q is c:
                    return TRUE
                if q is nc:
                    return FALSE
    return c


class Obl:
    def __init__(self, name, hyps, goal, facts=(), kind="post", skolems=()):
        self.name, self.hyps, self.goal, self.facts, self.kind, self.skolems = name, hyps, goal, facts, kind, skolems
        self.result = None
        self.model = None
        self.time = 0.0


class Exec:
    def __init__(self, module, contracts, env, host):
        self.m = module
        self.contracts = contracts
        self.env = env
        self.host = host
        self.regions = {}
        self.base_of = {}
        self.obls = []
        self.hyps = []
        self.terminal = []
        self.fresh_n = {}
        self.stack = []
        self.notes = set()
        self.used_contracts = set()
        self.inlined = set()
        self.loops_summarised = 0
        self.loops_unrolled = 0
        self.concrete = False
        self.max_unroll = 300
        self.variant = ""
        self.dropped = ()
        self.prune = None
        self.max_sym_unroll = 40
        self.label = ""
        self.static_init = None   # callback (global, state) -> Base fn or None
        self.statics = None
        self.byrole = {}
        self.force_grow = False
        self.gen = 0
        self.base_addrs = None
        self.bound_hit = False

    # ------------------------------------------------------------ regions
    def fresh(self, name, w):
        n = self.fresh_n.get(name, 0)
        self.fresh_n[name] = n + 1
        return V("%s#%d" % (name, n), w)

    def region(self, name, size, kind, writable=True):
        n = self.fresh_n.get("R" + name, 0)
        self.fresh_n["R" + name] = n + 1
        nm = name if n == 0 else "%s~%d" % (name, n)
        base = V("&" + nm, 32)
        r = Region(nm, base, size, kind, writable)
        self.regions[nm] = r
        self.base_of[base] = r
        return r

    def rsize(self, st, r):
        if r.kind == "evm":
            return self.gget(st, "Efull")
        return r.size if isinstance(r.size, T) else C(r.size, 32)

    # ------------------------------------------------------------ abstract state kept in statics
    def gget(self, st, key):
        """abstract state: held by the static variable that represents it, once that was touched"""
        nm = self.byrole.get(ROLE_OF.get(key))
        if nm is None and key == "Efull" and self.byrole.get("eend") in st.mem:
            # the size of the window is kept as its end
            nm = self.byrole["eend"]
            return sub(concat(*[st.mem[nm].read(C(i, 32)) for i in range(3, -1, -1)]), self.regions["evm"].base)
        if nm is None or nm not in st.mem:
            return st.gh[key]
        n = self.regions[nm].size
        v = concat(*[st.mem[nm].read(C(i, 32)) for i in range(n - 1, -1, -1)])
        return eq(v, C(self.statics.flag[nm][1], v.w)) if key == "deploying" else v

    def gset(self, st, key, v):
        st.gh[key] = v
        for role, f in (((ROLE_OF[key], lambda x: x),) + (((("eend", lambda x: add(self.regions["evm"].base, x))),)
                                                          if key == "Efull" else ()) if key in ROLE_OF else ()):
            nm = self.byrole.get(role)
            if nm is not None and nm in st.mem:
                n = self.regions[nm].size
                x = f(v)
                if x.w == 0:
                    f0, f1 = self.statics.flag[nm]
                    x = ite(x, C(f1, 8 * n), C(f0, 8 * n))
                st.mem[nm] = mem.store(st.mem[nm], C(0, 32), tobytes(x, n))

    def base_hyps(self):
        """well-formedness of the address space: no region wraps; regions are disjoint"""
        hs = []
        rs = [r for r in self.regions.values() if r.kind != "evm"]
        for r in rs:
            sz = r.size if isinstance(r.size, T) else C(r.size, 32)
            hs.append(ule(r.base, sub(C(0x7fffffff, 32), sz)))
            hs.append(ne(r.base, C(0, 32)))
        return hs

    def resolve(self, a, depth=0):
        parts, _ = _lp(a)
        bs = [(x, c) for x, c in parts.items() if x in self.base_of]
        pos = [x for x, c in bs if c == 1]
        if len(bs) == 1 and len(pos) == 1:
            return [(TRUE, self.base_of[pos[0]], sub(a, pos[0]))]
        if depth > 12:
            raise Unsupported("address case split too deep")
        for x, c in parts.items():
            if x.op == "ite" and (c == 1):
                rest = sub(a, x)
                out = []
                for cond, alt in ((x.a[0], x.a[1]), (Not(x.a[0]), x.a[2])):
                    rr = self.resolve(add(rest, alt), depth + 1)
                    for cc, r, o in rr:
                        cc = And(cond, cc)
                        if cc is not FALSE:
                            out.append((cc, r, o))
                return out
        return [(TRUE, None, a)]

    # ------------------------------------------------------------ obligations
    def oblige(self, name, st, goal, kind="safety"):
        goal = simp_under(st.pc, goal)
        self.obls.append(Obl(self.label + name, tuple(self.hyps) + st.pc, goal, st.facts, kind))

    def check_range(self, st, addr, n, what, write):
        """obligation: [addr, addr+n) lies inside one live region"""
        if isc(n) and n.v == 0:
            return
        for c, r, o in self.resolve(addr):
            pre = c
            if not isc(n):
                pre = And(c, ne(n, C(0, 32)))
            if r is None or r.name not in st.mem:
                self.oblige("%s: outside every live object" % what, st, Not(pre))
                continue
            sz = self.rsize(st, r)
            g = And(ule(n, sz), ule(o, sub(sz, n)))
            if write and not r.writable:
                g = FALSE
            self.oblige("%s: within %s" % (what, r.name if r.kind != "local" else "local storage"), st, Implies(pre, g))

    # ------------------------------------------------------------ memory access
    def read_byte_fn(self, st, addr):
        """index -> byte at addr+index, snapshot of st"""
        cases = []
        for c, r, o in self.resolve(addr):
            node = st.mem.get(r.name) if r is not None else None
            cases.append((c, node, o))

        def fn(i, cases=cases):
            val = None
            for c, node, o in reversed(cases):
                b = node.read(add(o, i)) if node is not None else V("wild", 8)
                val = b if val is None else ite(c, b, val)
            return val
        return fn

    def buf(self, st, addr, n, what):
        self.check_range(st, addr, n, what, False)
        if isc(n) and n.v == 0:
            return Buf(n, lambda i: C(0, 8))
        return Buf(n, self.read_byte_fn(st, addr))

    def load(self, st, addr, n, what="load", check=True):
        if check:
            self.check_range(st, addr, C(n, 32), what, False)
        fn = self.read_byte_fn(st, addr)
        return [fn(C(i, 32)) for i in range(n)]

    def store(self, st, addr, bs, what="store", check=True):
        if check:
            self.check_range(st, addr, C(len(bs), 32), what, True)
        cs = self.resolve(addr)
        for c, r, o in cs:
            if r is None or r.name not in st.mem:
                continue
            old = st.mem[r.name]
            new = mem.store(old, o, bs)
            st.mem[r.name] = new if c is TRUE else mem.merge(c, new, old)

    def fnwrite(self, st, addr, n, fn, what="store", check=True):
        if check:
            self.check_range(st, addr, n, what, True)
        if isc(n) and n.v == 0:
            return
        for c, r, o in self.resolve(addr):
            if r is None or r.name not in st.mem:
                continue
            old = st.mem[r.name]
            new = mem.fnwrite(old, o, n, fn)
            st.mem[r.name] = new if c is TRUE else mem.merge(c, new, old)

    # ------------------------------------------------------------ globals
    def global_region(self, st, name):
        if name not in self.regions:
            g = self.m.globals.get(name)
            if g is None:
                raise Unsupported("unknown global @" + name)
            sz = ir.size(g.ty)
            base = V("&" + name, 32)
            r = Region(name, base, sz, "const" if g.const else "static", not g.const)
            self.regions[name] = r
            self.base_of[base] = r
        r = self.regions[name]
        if name not in st.mem:
            g = self.m.globals[name]
            fn = None
            if self.static_init is not None and not g.const:
                fn = self.static_init(g, st)
            if fn is None:
                data = self.init_bytes(st, g.ty, g.init)
                node = mem.Dict(mem.Base(lambda o: C(0, 8)), {i: b for i, b in enumerate(data)} if any(
                    not (isc(b) and b.v == 0) for b in data) else {})
            else:
                node = mem.Base(fn)
            st.mem[name] = node
        return r

    def init_bytes(self, st, ty, v):
        n = ir.size(ty)
        if v is None or v[0] in ("zero", "undef"):
            return [C(0, 8)] * n
        if v[0] == "bytes":
            return [C(x, 8) for x in v[1]]
        if v[0] == "agg":
            if ty[0] == "arr":
                out = []
                for t, x in v[1]:
                    out += self.init_bytes(st, t, x)
                return out
            out = [C(0, 8)] * n
            for k, (t, x) in enumerate(v[1]):
                b = self.init_bytes(st, t, x)
                o = ir.field_off(ty, k)
                out[o:o + len(b)] = b
            return out
        val = self.val(st, ty, v)
        return tobytes(val, n)

    # ------------------------------------------------------------ values
    def val(self, st, ty, v):
        k = v[0]
        if k == "loc":
            r = st.env.get(v[1])
            if r is None:
                raise Unsupported("undefined %" + v[1])
            return r
        if k == "int":
            if ty == ("i", 1):
                return B(v[1] & 1)
            return C(v[1], ir.width(ty))
        if k == "zero":
            if ty[0] in ("arr", "st"):
                return self.zero_agg(ty)
            return C(0, ir.width(ty)) if ty != ("i", 1) else FALSE
        if k == "undef":
            if ty[0] in ("arr", "st"):
                return self.zero_agg(ty)
            return self.fresh("undef", ir.width(ty)) if ty != ("i", 1) else self.fresh("undef", 0)
        if k == "glob":
            if v[1] in self.m.funcs or v[1] in self.m.decls:
                return V("&fn." + v[1], 32)
            return self.global_region(st, v[1]).base
        if k == "cgep":
            return self.gep(st, v[1], v[2])
        if k == "ccast":
            return self.cast(v[1], v[2], self.val(st, v[2], v[3]), v[4])
        if k == "cbin":
            f = {"add": add, "sub": sub, "mul": mul, "xor": bxor, "and": band, "or": bor, "shl": shl}[v[1]]
            return f(self.val(st, v[2], v[3]), self.val(st, v[2], v[4]))
        if k == "agg":
            return tuple(self.val(st, t, x) for t, x in v[1])
        raise Unsupported("value %r" % (v,))

    def zero_agg(self, ty):
        if ty[0] == "arr":
            return tuple(self.zero_agg(ty[2]) for _ in range(ty[1]))
        if ty[0] == "st":
            return tuple(self.zero_agg(t) for t in ty[2])
        return C(0, ir.width(ty)) if ty != ("i", 1) else FALSE

    def cast(self, op, st_, x, dt):
        if op in ("ptrtoint", "inttoptr", "bitcast"):
            w = ir.width(dt)
            if x.w == w:
                return x
            return trunc(x, w) if x.w > w else zext(x, w)
        sw, w = ir.width(st_), ir.width(dt)
        if x.w == 0:
            one = C(1, w) if op == "zext" else C(-1, w)
            return ite(x, one, C(0, w))
        if op == "zext":
            return zext(x, w)
        if op == "sext":
            return sext(x, w)
        r = trunc(x, w)
        return bv2bool(r) if w == 1 else r

    def gep(self, st, bt, ops):
        addr = self.val(st, ops[0][0], ops[0][1])
        ty = bt
        for n, (t, v) in enumerate(ops[1:]):
            ix = self.val(st, t, v)
            if n == 0:
                sz = ir.size(ty)
                addr = add(addr, scale(fit(ix, 32), sz))
            elif ty[0] == "arr":
                ty = ty[2]
                addr = add(addr, scale(fit(ix, 32), ir.size(ty)))
            elif ty[0] == "st":
                addr = add(addr, C(ir.field_off(ty, ix.v), 32))
                ty = ty[2][ix.v]
            else:
                raise Unsupported("gep")
        return addr

    # ------------------------------------------------------------ functions
    def call_function(self, name, st, args, bvs=None):
        """inline a defined function; returns list of (state, value) that return normally"""
        f = self.m.funcs[name]
        if len(self.stack) > 24:
            raise Unsupported("inlining too deep at " + name)
        depth = self.stack.count(name)
        if depth > 4:
            raise Unsupported("recursion of " + name)
        if depth >= 1 and not self.feasible(st):
            return []
        if self.stack:
            self.inlined.add(name)
        self.stack.append(name)
        saved = st.env
        s = st.copy()
        s.env = {}
        locs = []
        for (pn, pt, bv), a in zip(f.params, args):
            if bv is not None:
                # byval: callee works on a private copy
                r = self.region(name + "." + pn, ir.size(bv), "local")
                data = self.load(s, a, ir.size(bv), name + ": byval argument")
                s.mem[r.name] = mem.Dict(mem.Base(lambda o: C(0, 8)), {i: b for i, b in enumerate(data)})
                locs.append(r.name)
                s.env[pn] = r.base
            else:
                s.env[pn] = a
        s.env["!locals"] = tuple(locs)
        cfg = Cfg.of(f)
        rets = []
        self.run_region(f, cfg, cfg.top, {cfg.entry: [s]}, rets)
        self.stack.pop()
        out = []
        # merge normal returns
        merged = self.merge_states([(x, v) for x, v in rets])
        for x, v in merged:
            for l in x.env.get("!locals", ()):
                x.mem.pop(l, None)
            x.env = dict(saved)
            out.append((x, v))
        return out

    def pruned_feasible(self, st, out):
        f = And(*(tuple(self.hyps) + st.pc))
        if f not in self.prune:
            self.prune[f] = self.feasible(st)
        return self.prune[f]

    def feasible(self, st):
        r, _ = solve.check(list(self.hyps) + list(st.pc), 5000)
        return r != "unsat"

    # region execution -------------------------------------------------
    def run_region(self, f, cfg, loop, pend, rets):
        """execute blocks of `loop` (acyclic after collapsing inner loops).
        pend: block -> [states].  Returns (exits: block->[states], back: [states])"""
        exits, back = {}, []
        header = loop.header
        order = cfg.order_in(loop)
        for b in order:
            sts = pend.pop(b, None)
            if not sts:
                continue
            inner = cfg.inner_loop_at(b, loop)
            if inner is not None and b == inner.header:
                for s in self.merge_only(sts):
                    ex = self.run_loop(f, cfg, inner, s, rets)
                    for t, ss in ex.items():
                        self._route(loop, header, t, ss, pend, exits, back)
                continue
            for s in self.merge_only(sts):
                for t, s2 in self.exec_block(f, cfg, b, s, rets):
                    if t == header and loop is not cfg.top:
                        back.append(s2)
                    else:
                        self._route(loop, header, t, [s2], pend, exits, back)
        return exits, back

    def _route(self, loop, header, t, ss, pend, exits, back):
        if loop.blocks is not None and t not in loop.blocks:
            exits.setdefault(t, []).extend(ss)
        elif t == header and loop.blocks is not None:
            back.extend(ss)
        else:
            pend.setdefault(t, []).extend(ss)

    def run_loop(self, f, cfg, loop, s0, rets):
        exits = {}
        cur = [s0]
        n = 0
        tried = False
        while cur:
            self.exit_const = False
            snap = (len(self.obls), len(self.terminal), len(rets))
            ex, back = self.run_region(f, cfg, loop, {loop.header: list(cur)}, rets)
            const_exit = self.exit_const or not ex and len(rets) == snap[2]
            if n == 0 and ex and back and not const_exit and not tried and not self.concrete:
                tried = True
                from . import loops
                r = loops.summarise(self, f, cfg, loop, cur, snap, rets)
                if r is not None:
                    self.loops_summarised += 1
                    for t, ss in r.items():
                        exits.setdefault(t, []).extend(ss)
                    return exits
            for t, ss in ex.items():
                exits.setdefault(t, []).extend(ss)
            cur = self.merge_only(back)
            n += 1
            if n >= 2 and not self.concrete and not const_exit:
                cur = [s for s in cur if self.feasible(s)]
            if n > (200000 if self.concrete else self.max_unroll if const_exit else self.max_sym_unroll):
                raise Unsupported("loop in %s not unrolled within %d iterations" % (f.name, n))
        self.loops_unrolled += 1
        return exits

    # block ----------------------------------------------------------------
    def exec_block(self, f, cfg, b, st, rets):
        work = [(st.copy(), 0)]
        out = []
        instrs = f.blocks[b]
        while work:
            s, i = work.pop()
            while True:
                ins = instrs[i]
                op = ins.op
                if op == "br":
                    self._br(cfg, f, b, s, ins, out)
                    break
                if op == "switch":
                    self._switch(cfg, f, b, s, ins, out)
                    break
                if op == "ret":
                    v = self.val(s, ins.ty, ins.a["v"]) if ins.a["v"] is not None else None
                    rets.append((s, v))
                    break
                if op == "unreachable":
                    self.oblige("%s: undefined behaviour (reaches code marked unreachable)" % f.name, s, FALSE, "ub")
                    break
                if op == "phi":
                    i += 1
                    continue
                if op == "call":
                    rs = self._call(f, s, ins)
                    if not rs:
                        break
                    s = rs[0]
                    for extra in rs[1:]:
                        work.append((extra, i + 1))
                    i += 1
                    continue
                self.step(f, s, ins)
                i += 1
        return out

    def _edge(self, f, b, t, s):
        """evaluate phis of t for edge b->t"""
        upd = {}
        for ins in f.blocks[t]:
            if ins.op != "phi":
                break
            for v, p in ins.a["inc"]:
                if p == b:
                    upd[ins.res] = self.val(s, ins.ty, v)
                    break
        if upd:
            s.env.update(upd)
        return s

    def _br(self, cfg, f, b, s, ins, out):
        d = ins.a["dst"]
        if ins.a["cond"] is None:
            out.append((d[0], self._edge(f, b, d[0], s)))
            return
        c = simp_under(s.pc, self.val(s, ("i", 1), ins.a["cond"]))
        if c is TRUE or c is FALSE:
            t = d[0] if c is TRUE else d[1]
            if cfg.is_exit_branch(b):
                self.exit_const = True
            out.append((t, self._edge(f, b, t, s)))
            return
        for cond, t in ((c, d[0]), (Not(c), d[1])):
            s2 = s.assume(cond)
            if s2 is not None and self.prune is not None and not self.pruned_feasible(s2, out):
                continue
            if s2 is not None:
                out.append((t, self._edge(f, b, t, s2)))

    def _switch(self, cfg, f, b, s, ins, out):
        v = self.val(s, ins.ty, ins.a["v"])
        rest = s
        for cv, t in ins.a["cases"]:
            c = eq(v, self.val(s, ins.ty, cv))
            s2 = rest.assume(c)
            if s2 is not None:
                out.append((t, self._edge(f, b, t, s2)))
            rest = rest.assume(Not(c))
            if rest is None:
                return
        t = ins.a["default"]
        out.append((t, self._edge(f, b, t, rest)))

    def step(self, f, s, ins):
        op, a = ins.op, ins.a
        env = s.env
        if op == "alloca":
            n = ir.size(ins.ty)
            if a["n"] is not None:
                k = self.val(s, ("i", 32), a["n"])
                if not isc(k):
                    raise Unsupported("dynamic alloca")
                n *= k.v
            r = self.region("%s/%s" % (f.name, ins.res), n, "local")
            nm = r.name
            s.mem[nm] = mem.Dict(mem.Base(lambda o, nm=nm: UF("uninit." + nm, [o], 8)), {})
            env["!locals"] = env.get("!locals", ()) + (nm,)
            env[ins.res] = r.base
            return
        if op == "load":
            p = self.val(s, ("ptr",), a["p"])
            env[ins.res] = self.load_ty(s, ins.ty, p, f.name + ": load")
            return
        if op == "store":
            p = self.val(s, ("ptr",), a["p"])
            v = self.val(s, ins.ty, a["v"])
            self.store_ty(s, ins.ty, p, v, f.name + ": store")
            return
        if op == "gep":
            env[ins.res] = self.gep(s, ins.ty, a["ops"])
            return
        if op in ir.BIN:
            x, y = self.val(s, ins.ty, a["x"]), self.val(s, ins.ty, a["y"])
            env[ins.res] = self.binop(f, s, op, ins.ty, x, y, a["flags"])
            return
        if op in ir.CAST:
            env[ins.res] = self.cast(op, a["src"], self.val(s, a["src"], a["v"]), ins.ty)
            return
        if op == "icmp":
            x, y = self.val(s, ins.ty, a["x"]), self.val(s, ins.ty, a["y"])
            env[ins.res] = icmp(a["pred"], x, y)
            return
        if op == "select":
            c = self.val(s, ("i", 1), a["c"])
            env[ins.res] = ite(c, self.val(s, ins.ty, a["x"]), self.val(s, ins.ty, a["y"]))
            return
        if op == "freeze":
            env[ins.res] = self.val(s, ins.ty, a["v"])
            return
        if op == "extractvalue":
            v = self.val(s, ins.ty, a["v"])
            for k in a["ix"]:
                v = v[k]
            env[ins.res] = v
            return
        if op == "insertvalue":
            v = self.val(s, ins.ty, a["v"])
            if len(a["ix"]) != 1:
                raise Unsupported("insertvalue")
            l = list(v)
            l[a["ix"][0]] = self.val(s, a["et"], a["ev"])
            env[ins.res] = tuple(l)
            return
        raise Unsupported("instruction " + op)

    def load_ty(self, s, ty, p, what):
        if ty[0] in ("arr", "st"):
            raise Unsupported("aggregate load")
        w = ir.width(ty)
        n = (w + 7) // 8
        bs = self.load(s, p, n, what)
        v = concat(*reversed(bs))
        if v.w != w:
            v = trunc(v, w)
        return bv2bool(v) if w == 1 else v

    def store_ty(self, s, ty, p, v, what):
        if ty[0] in ("arr", "st"):
            raise Unsupported("aggregate store")
        w = ir.width(ty)
        if w == 1:
            v = bool2bv(v, 8)
        n = (w + 7) // 8
        if v.w != n * 8:
            v = zext(v, n * 8)
        self.store(s, p, tobytes(v, n), what)

    def binop(self, f, s, op, ty, x, y, flags):
        if ty == ("i", 1):
            if op == "xor":
                return ite(x, Not(y), y)
            if op == "and" or op == "mul":
                return And(x, y)
            if op == "or":
                return Or(x, y)
            if op in ("add", "sub"):
                return ite(x, Not(y), y)
            raise Unsupported("i1 " + op)
        w = x.w
        if op in ("shl", "lshr", "ashr"):
            self.oblige("%s: shift amount below the operand width" % f.name, s, ult(y, C(w, w)), "ub")
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.oblige("%s: divisor is not zero" % f.name, s, ne(y, C(0, w)), "ub")
            if op in ("sdiv", "srem"):
                self.oblige("%s: signed division does not overflow" % f.name, s,
                            Not(And(eq(x, C(1 << (w - 1), w)), eq(y, C(-1, w)))), "ub")
        if "nsw" in flags and op in ("add", "sub", "mul"):
            self.oblige("%s: no signed overflow" % f.name, s, Not(soverflow(op, x, y)), "ub")
        if "nuw" in flags and op in ("add", "sub"):
            g = ule(x, sub(C(-1, w), y)) if op == "add" else ule(y, x)
            self.oblige("%s: no unsigned overflow" % f.name, s, g, "ub")
        return {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem,
                "and": band, "or": bor, "xor": bxor, "shl": shl, "lshr": lshr, "ashr": ashr}[op](x, y)

    # calls ------------------------------------------------------------------
    def _call(self, f, s, ins):
        """returns list of continuing states with the result bound"""
        cal = ins.a["f"]
        if cal[0] != "glob":
            raise Unsupported("indirect call")
        name = cal[1]
        args = [self.val(s, t, v) if t != ("metadata",) else None for t, v, bv in ins.a["args"]]
        if name.startswith("llvm."):
            r = self.intrinsic(f, s, name, args)
            if r is None:
                return []
            if isinstance(r, list):
                out = []
                for s2, v in r:
                    if ins.res is not None:
                        s2.env[ins.res] = v
                    out.append(s2)
                return out
            if ins.res is not None:
                s.env[ins.res] = r[0]
            return [s]
        rs = self.invoke(name, s, args, f.name)
        out = []
        for s2, v in rs:
            if ins.res is not None:
                if v is None:
                    raise Unsupported("void result used: " + name)
                s2.env[ins.res] = v
            out.append(s2)
        return out

    def invoke(self, name, s, args, caller):
        base = name.split("!")[0]
        c = self.contracts.get(base)
        if self.variant:
            c = self.contracts.get(base + "#" + self.variant, c)
        if c is not None and name in self.m.funcs:
            ps = self.m.funcs[name].params
            if base in self.dropped or len(ps) != len(args) or len(c.params) != len(args):
                c = None        # not the function the contract was written for: verify through its body
        if c is not None and name in self.m.funcs and (not self.stack or not c.never_apply):
            if not (len(self.stack) == 1 and self.stack[0] == name and c.decreases is None):
                return self.apply_contract(c, name, s, args, caller)
        if name in self.m.funcs:
            return self.call_function(name, s, args)
        h = self.host.get(base)
        if h is not None:
            self.notes.add("host:" + base)
            s2 = s.copy()
            return h(self, s2, args, caller)
        raise Unsupported("call to unknown function " + name)

    def apply_contract(self, c, name, s, args, caller):
        from .spec import W
        self.used_contracts.add(c.name)
        w = W(self, s.copy(), "%s: precondition of %s" % (caller, c.name))
        env = w.st.env
        w.results = []
        if c.decreases is not None and self.stack and self.stack[0] == name:
            m0 = self.cur_measure
            self.oblige("%s: recursion on %s decreases" % (caller, c.name), s, ult(c.decreases(*args), m0))
        for nm, cond in c.requires(w, args):
            self.oblige("%s: precondition of %s: %s" % (caller, c.name, nm), s, cond, "pre")
        if self.statics is not None and not self.concrete:
            self.statics.before_call(self, w.st, name, caller)
        c.run(w, args)
        out = []
        for o in w.results:
            if o.kind == "ret":
                st2 = o.st
                out.append((st2, o.val))
            else:
                self.terminal.append(o)
        return out

    def intrinsic(self, f, s, name, args):
        import re
        m = re.match(r"llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if m:
            sg, op, w = m.group(1), m.group(2), int(m.group(3))
            x, y = args
            r = {"add": add, "sub": sub, "mul": mul}[op](x, y)
            if sg == "s":
                ov = soverflow(op, x, y)
            elif op == "add":
                ov = ult(r, x)
            elif op == "sub":
                ov = ult(x, y)
            else:
                ov = ne(trunc(lshr(mul(zext(x, 2 * w), zext(y, 2 * w)), C(w, 2 * w)), w), C(0, w))
            return ((r, ov),)
        if name.startswith("llvm.memset."):
            d, v, n = args[0], args[1], args[2]
            self.fnwrite(s, d, fit(n, 32), lambda i, v=v: v, f.name + ": memset")
            return (None,)
        if name.startswith(("llvm.memcpy.", "llvm.memmove.")):
            d, src, n = args[0], args[1], fit(args[2], 32)
            b = self.buf(s, src, n, f.name + ": memcpy source")
            self.fnwrite(s, d, n, b.fn, f.name + ": memcpy destination")
            return (None,)
        if name in ("llvm.trap", "llvm.debugtrap") or name.startswith("llvm.ubsantrap"):
            kind = "trap"
            self.terminal.append(Outcome(kind, s, f.name))
            return None
        if name.startswith(("llvm.lifetime", "llvm.assume", "llvm.experimental.noalias", "llvm.dbg")):
            return (None,)
        if name.startswith("llvm.expect."):
            return (args[0],)
        if name.startswith("llvm.bswap."):
            n = args[0].w // 8
            return (concat(*tobytes(args[0], n)),)
        m = re.match(r"llvm\.(umin|umax|smin|smax)\.", name)
        if m:
            x, y = args
            c = {"umin": ult(x, y), "umax": ult(y, x), "smin": slt(x, y), "smax": slt(y, x)}[m.group(1)]
            return (ite(c, x, y),)
        if name.startswith("llvm.abs."):
            x = args[0]
            return (ite(slt(x, C(0, x.w)), neg(x), x),)
        m = re.match(r"llvm\.fsh([lr])\.", name)
        if m:
            x, y, k = args
            w = x.w
            cc = concat(x, y)
            k2 = zext(urem(k, C(w, w)), 2 * w)
            if m.group(1) == "l":
                return (extract(2 * w - 1, w, shl(cc, k2)),)
            return (extract(w - 1, 0, lshr(cc, k2)),)
        m = re.match(r"llvm\.(ctpop|ctlz|cttz)\.", name)
        if m:
            x = args[0]
            w = x.w
            if m.group(1) == "ctpop":
                r = C(0, w)
                for i in range(w):
                    r = add(r, zext(extract(i, i, x), w))
                return (r,)
            r = C(w, w)
            rng = range(w) if m.group(1) == "ctlz" else range(w - 1, -1, -1)
            for i in rng:
                k = w - 1 - i if m.group(1) == "ctlz" else i
                r = ite(eq(extract(i, i, x), C(1, 1)), C(k, w), r)
            return (r,)
        if name.startswith("llvm.wasm.memory.size"):
            return (s.gh["pages"],)
        if name.startswith("llvm.wasm.memory.grow"):
            n = args[1]
            ok = TRUE if self.force_grow else self.fresh("growok", 0)
            p = s.gh["pages"]
            self.hyps.append(Implies(ok, And(ule(n, C(65536, 32)), ule(add(p, n), C(65536, 32)))))
            s.gh["pages"] = ite(ok, add(p, n), p)
            s.gh["growok"] = And(s.gh.get("growok", TRUE), ok)
            return (ite(ok, p, C(-1, 32)),)
        raise Unsupported("intrinsic " + name)

    # merging ------------------------------------------------------------
    def merge_only(self, sts):
        return [x for x, _ in self.merge_states([(s, None) for s in sts])]

    def merge_states(self, pairs):
        groups = []
        for s, v in pairs:
            for g in groups:
                if self.mergeable(g[0], s):
                    g[0], g[1] = self.merge2(g[0], g[1], s, v)
                    break
            else:
                groups.append([s, v])
        return [(g[0], g[1]) for g in groups]

    def mergeable(self, a, b):
        if len(a.ev) != len(b.ev) or any(x is not y for x, y in zip(a.ev, b.ev)):
            return False
        for k, v in a.gh.items():
            u = b.gh.get(k)
            if isinstance(v, (int, str, bool)) and u != v:
                return False
        return True

    def merge2(self, a, va, b, vb):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n] is b.pc[n]:
            n += 1
        r1, r2 = And(*a.pc[n:]), And(*b.pc[n:])
        # branch-local condition
        s = St()
        d = Or(r1, r2)
        d = self._or_factor(a.pc[n:], b.pc[n:])
        s.pc = a.pc[:n] + tuple(x for x in d if x is not TRUE)
        c = r1
        # shorter distinguishing condition if the two differ by one literal
        if a.pc[n:] and b.pc[n:] and a.pc[n] is Not(b.pc[n]):
            c = a.pc[n]
        s.ev = a.ev
        for k in set(a.mem) & set(b.mem):
            s.mem[k] = mem.merge(c, a.mem[k], b.mem[k])
        for k in set(a.mem) ^ set(b.mem):
            # globals materialised on one side only
            x = a.mem.get(k) or b.mem.get(k)
            r = self.regions.get(k)
            if r is not None and r.kind in ("static", "const"):
                other = St()
                other.env = {}
                other.gh = (b if k in a.mem else a).gh
                self.global_region(other, k)
                o = other.mem[k]
                s.mem[k] = mem.merge(c, a.mem.get(k, o), b.mem.get(k, o))
            else:
                s.mem[k] = x
        for k in a.gh:
            x, y = a.gh[k], b.gh.get(k)
            if x is y:
                s.gh[k] = x
            elif isinstance(x, T):
                s.gh[k] = ite(c, x, y) if isinstance(y, T) else x
            elif hasattr(x, "merge"):
                s.gh[k] = x.merge(c, y)
            else:
                s.gh[k] = x
        for k in b.gh:
            if k not in s.gh:
                s.gh[k] = b.gh[k]
        for k, x in a.env.items():
            y = b.env.get(k)
            if y is None:
                continue
            s.env[k] = mergev(c, x, y)
        fs = list(a.facts)
        for x in b.facts:
            if x not in fs:
                fs.append(x)
        s.facts = tuple(fs)
        v = None
        if va is not None and vb is not None:
            v = mergev(c, va, vb)
        return s, v

    def _or_factor(self, p, q):
        """Or(And(p),And(q)) as a list of conjuncts, recognising p=[c,..],q=[not c,..]"""
        sp, sq = list(p), list(q)
        com = [x for x in sp if x in sq]
        sp = [x for x in sp if x not in com]
        sq = [x for x in sq if x not in com]
        if len(sp) == 1 and len(sq) >= 1 and Not(sp[0]) in sq:
            sq = [x for x in sq if x is not Not(sp[0])]
            if not sq:
                return com
        elif len(sq) == 1 and Not(sq[0]) in sp:
            sp = [x for x in sp if x is not Not(sq[0])]
            if not sp:
                return com
        return com + [Or(And(*sp), And(*sq))]


def mergev(c, x, y):
    if x is y:
        return x
    if isinstance(x, T):
        return ite(c, x, y)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) or not x:
            return x if len(x) >= len(y) else y
        return tuple(mergev(c, p, q) for p, q in zip(x, y))
    return x


def _lp(t):
    if t.op == "c":
        return {}, t.v
    if t.op == "lin":
        return {x: c for x, c in zip(t.a, t.v[:-1])}, t.v[-1]
    return {t: 1}, 0


def fit(x, w):
    if x.w == w:
        return x
    return trunc(x, w) if x.w > w else sext(x, w)


def tobytes(v, n):
    return [extract(8 * i + 7, 8 * i, v) for i in range(n)]


def soverflow(op, x, y):
    w = x.w
    if op == "mul":
        if isc(x) and isc(y):
            r = sval(x.v, w) * sval(y.v, w)
            return B(not (-(1 << (w - 1)) <= r < (1 << (w - 1))))
        if isc(x):
            x, y = y, x
        if isc(y) and y.v in (0, 1):
            return FALSE
        if isc(y) and sval(y.v, w) > 0:
            k = sval(y.v, w)
            hi = ((1 << (w - 1)) - 1) // k
            lo = -((1 << (w - 1)) // k)
            return Or(slt(C(hi, w), x), slt(x, C(lo, w)))
        r = mul(sext(x, 2 * w), sext(y, 2 * w))
        return ne(sext(trunc(r, w), 2 * w), r)
    if isc(x) and isc(y):
        a, b = sval(x.v, w), sval(y.v, w)
        r = a + b if op == "add" else a - b
        return B(not (-(1 << (w - 1)) <= r < (1 << (w - 1))))
    if isc(y) and op == "sub" and y.v != 1 << (w - 1):
        return soverflow("add", x, C(-y.v, w))
    if isc(x) and op == "add":
        x, y = y, x
    if isc(y) and op == "add":
        k = sval(y.v, w)
        if k == 0:
            return FALSE
        if k > 0:
            return slt(C((1 << (w - 1)) - 1 - k, w), x)
        return slt(x, C(-(1 << (w - 1)) - k, w))
    r = add(x, y) if op == "add" else sub(x, y)
    z = C(0, w)
    sx, sy, sr = slt(x, z), slt(y, z), slt(r, z)
    if op == "add":
        return And(eq(sx, sy), Not(eq(sx, sr)))
    return And(Not(eq(sx, sy)), Not(eq(sx, sr)))


def icmp(p, x, y):
    if x.w == 0:
        x, y = bool2bv(x), bool2bv(y)
    return {"eq": eq, "ne": ne, "ult": ult, "ule": ule, "ugt": ugt, "uge": uge, "slt": slt, "sle": sle,
            "sgt": lambda a, b: slt(b, a), "sge": lambda a, b: Not(slt(a, b))}[p](x, y)


# ---------------------------------------------------------------- CFG
class Loop:
    def __init__(self, header, blocks):
        self.header, self.blocks = header, blocks


class Cfg:
    @staticmethod
    def of(f):
        c = getattr(f, "_cfg", None)
        if c is None:
            c = Cfg(f)
            f._cfg = c
        return c

    def __init__(self, f):
        self.f = f
        self.entry = f.order[0]
        self.succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            self.succ[b] = list(dict.fromkeys(t.a.get("dst", []))) if t.op in ("br", "switch") else []
        # rpo
        seen, post = set(), []
        stack = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for t in it:
                if t not in seen:
                    seen.add(t)
                    stack.append((t, iter(self.succ[t])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.ix = {b: i for i, b in enumerate(self.rpo)}
        preds = {b: [] for b in self.rpo}
        for b in self.rpo:
            for t in self.succ[b]:
                preds[t].append(b)
        # dominators
        dom = {self.entry: {self.entry}}
        allb = set(self.rpo)
        for b in self.rpo[1:]:
            dom[b] = set(allb)
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                n = set.intersection(*[dom[p] for p in preds[b]]) | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        loops = {}
        for b in self.rpo:
            for t in self.succ[b]:
                if self.ix[t] <= self.ix[b]:
                    if t not in dom[b]:
                        raise Unsupported("irreducible control flow in " + f.name)
                    body = loops.setdefault(t, {t})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self.loops = [Loop(h, bl) for h, bl in loops.items()]
        self.top = Loop(None, None)
        self.parent = {}
        self._order = {}
        self._exit = set()
        for L in self.loops:
            for b in L.blocks:
                if len(self.succ[b]) > 1 and any(t not in L.blocks for t in self.succ[b]):
                    self._exit.add(b)
        # blocks that never return (trap paths) do not count as loop exits for constancy
        dead = set()
        for b in self.rpo:
            if f.blocks[b][-1].op == "unreachable":
                dead.add(b)
        self._exit = {b for b in self._exit if any(t not in dead for t in self.succ[b]
                                                   if not any(t in L.blocks for L in self.loops if b in L.blocks))}

    def is_exit_branch(self, b):
        return b in self._exit

    def order_in(self, loop):
        if loop.blocks is None:
            return self.rpo
        k = loop.header
        o = self._order.get(k)
        if o is None:
            o = [b for b in self.rpo if b in loop.blocks]
            self._order[k] = o
        return o

    def inner_loop_at(self, b, loop):
        """the outermost loop headed at b strictly inside `loop`"""
        for L in self.loops:
            if L.header == b and L is not loop and b != loop.header:
                return L
        return None
