"""Check function bodies (LLVM IR of the real source) against their contracts."""
import os
import time
import traceback
from . import ir, mem, solve
from .execu import Exec, St, Outcome, Buf, Obl, simp_under, tobytes, Unsupported
from .spec import *
from .host import HOST
from .terms import *


# ------------------------------------------------------------------ module statics
class Statics:
    """which mutable globals carry which abstract state; found by use, not by name"""

    def __init__(self, m):
        self.m = m
        self.writes = {}
        self._stores = {}
        self.mutable = mutable_globals(m, self.writes)
        self.role = {}
        uses = {}
        for f in m.funcs.values():
            for b in f.blocks.values():
                for ins in b:
                    for g in globs(ins.a):
                        uses.setdefault(g, set()).add(f.name)
        self.uses = uses
        gl = m.globals
        self.flag = {}          # flag static -> (value before, value after)
        cds = [n for n, g in gl.items() if not g.const and g.ty == ("i", 32) and g.init == ("int", -1)
               and n in self.mutable and self._calls(uses.get(n, ()), "getCallDataSize")]
        if len(cds) == 1:
            self.role[cds[0]] = "cdsize"
        elif not cds:
            # the size is cached next to a flag that says so
            cds = [n for n in sorted(self.results_of("getCallDataSize")) if n in self.mutable and gl[n].ty == ("i", 32)]
            if len(cds) == 1:
                fs = {f for f in uses[cds[0]] if cds[0] in self.writes.get(f, ())}
                flags = [n for n in sorted(self.mutable) if gl[n].ty[0] == "i" and n != cds[0] and uses.get(n, set()) & fs
                         and self.two_valued(n)]
                if len(flags) == 1:
                    self.role[cds[0]] = "cdsize"
                    self.role[flags[0]] = "cdsflag"
        bufs = [n for n, g in gl.items() if not g.const and g.ty[0] == "arr" and g.ty[2] == ("i", 8)
                and n in self.mutable and self._calls(uses.get(n, ()), "callDataCopy")]
        if len(bufs) == 1:
            self.role[bufs[0]] = "cdbuf"
            fs = uses[bufs[0]]
            flags = [n for n in sorted(self.mutable) if gl[n].ty[0] == "i" and uses.get(n, set()) & fs
                     and n not in self.role and self.two_valued(n)]
            if not flags:
                # one flag for the size and the bytes
                flags = [n for n in self.role if self.role[n] == "cdsflag" and uses[n] & fs]
                if flags:
                    self.role[flags[0]] = "cdboth"
            elif len(flags) == 1:
                self.role[flags[0]] = "cdflag"
            if len(flags) != 1:
                del self.role[bufs[0]]
        for fnm, role in (("set_is_deploying_tx", "deploying"), ("wrapper_set_memptr_global", "memptr")):
            f = m.funcs.get(fnm)
            if f:
                gs = [g for g in sorted({g for b in f.blocks.values() for i in b for g in globs(i.a)})
                      if g in gl and not gl[g].const]
                if len(gs) == 1:
                    if role == "deploying" and not self.two_valued(gs[0]):
                        continue
                    self.role[gs[0]] = role
        self.role.update(window_roles(m, self.mutable))
        self.byrole = {r: n for n, r in self.role.items()}
        # mutable statics whose role could not be recognised although the code is there
        self.missing = set()
        for need, fs in (({"cdsize"}, [f for f in m.funcs if self._calls((f,), "getCallDataSize")]),
                         ({"cdbuf"}, [f for f in m.funcs if self._calls((f,), "callDataCopy")]),
                         ({"ebegin"}, ["__init_evm_heap"]), ({"deploying"}, ["set_is_deploying_tx"]),
                         ({"memptr"}, ["wrapper_set_memptr_global"])):
            if not need <= set(self.byrole) or need == {"ebegin"}:
                fs, todo = set(), list(fs) + [f for n, r in self.role.items() if r in WINDOW for f in uses.get(n, ())]
                while todo:
                    f = todo.pop()
                    if f not in fs and f in m.funcs:
                        fs.add(f)
                        todo += [i.a["f"][1] for b in m.funcs[f].blocks.values() for i in b
                                 if i.op == "call" and i.a["f"][0] == "glob"]
                self.missing |= {g for g in self.mutable if g not in self.role and uses.get(g, set()) & fs}

    def results_of(self, callee):
        """globals that are assigned a result of the callee (in the function that calls it)"""
        out = set()
        for f in self.m.funcs.values():
            if not self._calls((f.name,), callee):
                continue
            t, ch = set(), True
            while ch:
                n0 = len(t)
                for b in f.blocks.values():
                    for i in b:
                        if i.op == "call" and i.a["f"] == ("glob", callee) and i.res:
                            t.add(("loc", i.res))
                        elif i.op == "store" and tuple(i.a["v"]) in t:
                            t.add(tuple(i.a["p"]))
                        elif i.op == "load" and tuple(i.a["p"]) in t and i.res:
                            t.add(("loc", i.res))
                ch = len(t) > n0
            out |= {x[1] for x in t if x[0] == "glob" and x[1] in self.m.globals}
        return out

    def two_valued(self, name):
        """a flag: every store to it is the same constant, other than its initial value"""
        g = self.m.globals[name]
        init = 0 if g.init is None or g.init[0] in ("zero", "undef") else g.init[1] if g.init[0] == "int" else None
        vals = set()
        for f in self.m.funcs.values():
            for b in f.blocks.values():
                for i in b:
                    if i.op == "store" and i.a["p"] == ("glob", name):
                        vals.add(i.a["v"][1] if i.a["v"][0] == "int" else None)
                    elif name in globs(i.a) and i.op not in ("load",):
                        return False
        if init is None or len(vals) != 1 or None in vals or init in vals:
            return False
        self.flag[name] = (init, vals.pop())
        return True

    def _calls(self, fns, callee):
        for n in fns:
            for b in self.m.funcs[n].blocks.values():
                for i in b:
                    if i.op == "call" and i.a["f"] == ("glob", callee):
                        return True
        return False

    def window(self, ex, st0, st):
        """the data structure invariant of the EVM memory window"""
        E = ex.regions["evm"].base

        def word(role):
            name = self.byrole[role]
            ex.global_region(st, name)
            return concat(*[st.mem[name].read(C(i, 32)) for i in range(3, -1, -1)])
        st0 = st0 or ex.st0
        out = []
        for role in ("efull", "eend"):
            if role in self.byrole:
                word(role)
        full, full0 = ex.gget(st, "Efull"), ex.gget(st0, "Efull")
        out.append(("invariant: accessible EVM memory never shrinks", ule(full0, full)))
        if {"eend", "efull"} <= set(self.byrole):
            out.append(("invariant: the end of the window is its start plus its size", eq(word("eend"), add(E, full))))
        pages = zext(st.gh["pages"], 64)
        used = add(zext(E, 64), zext(full, 64))
        out.append(("invariant: the window lies inside the wasm memory",
                    Or(eq(full, full0), ule(used, mul(pages, C(65536, 64))))))
        out.append(("invariant: the window is whole pages after growing",
                    Or(eq(full, full0), eq(band(full, C(0xffff, 32)), C(0, 32)))))
        out.append(("invariant: the window stays below 2^31 bytes", ule(full, C(0x80000000, 32))))
        out.append(("newly accessible bytes are not part of anything else",
                    Or(eq(full, full0), eq(add(zext(E, 64), zext(full0, 64)), mul(zext(st0.gh["pages"], 64), C(65536, 64))))))
        return out

    def stores(self, name):
        """statics a call of the function may change"""
        r = self._stores.get(name)
        if r is None:
            seen, st, r = set(), [name], set()
            while st:
                y = st.pop()
                if y in seen or y not in self.m.funcs:
                    continue
                seen.add(y)
                r |= self.writes.get(y, set())
                st += [i.a["f"][1] for b in self.m.funcs[y].blocks.values() for i in b
                       if i.op == "call" and i.a["f"][0] == "glob"]
            self._stores[name] = r
        return r

    def before_call(self, ex, st, name, caller):
        """a callee used through its contract may change statics: they satisfy the invariant before and after,
        nothing else is known about them"""
        hit = [g for g in self.stores(name) if g in st.mem and self.role.get(g) not in KEPT]
        if not hit:
            return
        for nm, g in self.post(ex, None, st):
            ex.oblige("%s: before calling %s: %s" % (caller, name, nm), st, g, "pre")
        ex.gen += 1
        for g in hit:
            st.mem.pop(g)
        st.gh["gen"] = ex.gen

    def init(self, ex, st):
        """callback giving the initial contents of a static under the module invariant"""
        env = ex.env
        cds = env.uf("cdsize", [], 32)

        def cb(g, st):
            gen = st.gh.get("gen", 0)
            tag = "'%d" % gen if gen else ""
            cc = V("inv.calldata_cached" + tag, 0)
            cs = V("inv.calldata_size_cached" + tag, 0)
            role = self.role.get(g.name)
            n = ir.size(g.ty)
            if role == "cdsize":
                return from_term(ite(cs, cds, self.sizeinit(g.name)))
            if role in ("cdflag", "cdsflag", "cdboth"):
                f0, f1 = self.flag[g.name]
                return from_term(ite(cc if role == "cdflag" else cs, C(f1, 8 * n), C(f0, 8 * n)))
            if role == "cdbuf":
                if "cdboth" in self.byrole:
                    cc = cs
                return lambda o: ite(And(cc, ult(o, cds)), env.uf("cd", [o], 8), UF("static." + g.name + tag, [o], 8))
            if role == "deploying":
                return from_term(ite(st.gh["deploying"], C(self.flag[g.name][1], 8 * n), C(self.flag[g.name][0], 8 * n)))
            if role == "memptr":
                return from_term(st.gh["memptr"])
            if role == "ebegin":
                return from_term(ex.regions["evm"].base)
            if role == "efull":
                return from_term(st.gh["Efull"])
            if role == "eend":
                return from_term(add(ex.regions["evm"].base, st.gh["Efull"]))
            if role == "einit":
                return from_term(C(1, 8 * n))
            if g.name in self.mutable:
                return lambda o: UF("static." + g.name + tag, [o], 8)
            return None
        return cb

    def sizeinit(self, name):
        i = self.m.globals[name].init
        return C(i[1] if i is not None and i[0] == "int" else 0, 32)

    def hyps(self, ex):
        """the part of the invariant that is a condition on the state"""
        hs = []
        cds = ex.env.uf("cdsize", [], 32)
        for n, r in self.role.items():
            if r == "cdbuf" and "cdboth" not in self.byrole:
                hs.append(Implies(V("inv.calldata_cached", 0), ule(cds, C(ir.size(self.m.globals[n].ty), 32))))
        return hs

    def post(self, ex, st0, st):
        """(name, goal) list: the invariant holds again in st, relative to the abstract state st.gh"""
        out = []
        cds = ex.env.uf("cdsize", [], 32)

        def word(name):
            n = ir.size(self.m.globals[name].ty)
            nd = st.mem[name]
            return concat(*[nd.read(C(i, 32)) for i in range(n - 1, -1, -1)])
        byrole = {r: n for n, r in self.role.items()}
        for name in list(st.mem):
            g = self.m.globals.get(name)
            if g is None or g.const:
                continue
            role = self.role.get(name)
            if role == "cdsize" and not {"cdsflag", "cdboth"} & set(byrole):
                v = word(name)
                out.append(("invariant: cached calldata size is right", Or(eq(v, C(-1, 32)), eq(v, cds))))
            elif role in ("cdsize", "cdsflag", "cdflag", "cdbuf", "cdboth"):
                def known(role):
                    fl = byrole[role]
                    ex.global_region(st, fl)
                    v = word(fl)
                    f0, f1 = self.flag[fl]
                    out.append(("invariant: flag @%s has one of its two values" % fl, Or(eq(v, C(f0, v.w)), eq(v, C(f1, v.w)))))
                    return eq(v, C(f1, v.w))
                both = "cdboth" in byrole
                if role != "cdflag" and role != "cdbuf":
                    ex.global_region(st, byrole["cdsize"])
                    out.append(("invariant: cached calldata size is right",
                                Implies(known("cdboth" if both else "cdsflag"), eq(word(byrole["cdsize"]), cds))))
                if role in ("cdflag", "cdbuf", "cdboth"):
                    bufn = byrole["cdbuf"]
                    ex.global_region(st, bufn)
                    k = known("cdboth" if both else "cdflag")
                    bn = st.mem[bufn]
                    o = ex.fresh("sk.cache", 32)
                    fits = ule(cds, C(ir.size(self.m.globals[bufn].ty), 32))
                    right = Implies(ult(o, cds), eq(bn.read(o), ex.env.uf("cd", [o], 8)))
                    out.append(("invariant: cached calldata bytes are right",
                                Implies(And(k, fits), right) if both else Implies(k, And(fits, right))))
            elif role == "deploying":
                v = word(name)
                out.append(("deployment flag has one of its two values", Or(*[eq(v, C(k, v.w)) for k in self.flag[name]])))
            elif role == "memptr":
                pass
            elif role == "ebegin":
                out.append(("invariant: EVM memory stays where it is", eq(word(name), ex.regions["evm"].base)))
            elif role == "einit":
                v = word(name)
                out.append(("invariant: EVM memory stays initialised", ne(v, C(0, v.w))))
            elif role in ("efull", "eend"):
                for nm, g in self.window(ex, st0, st):
                    if (nm, g) not in out:
                        out.append((nm, g))
            elif name not in self.mutable:
                o = ex.fresh("sk.static", 32)
                sz = ex.regions[name].size
                base = St()
                ex.global_region(base, name)
                a, b = st.mem[name], base.mem[name]
                if a is not b:
                    out.append(("constant data @%s is unchanged" % name, Implies(ult(o, C(sz, 32)), eq(a.read(o), b.read(o)))))
        return out


def from_term(v):
    bs = tobytes(v, v.w // 8)

    def fn(o):
        if isc(o):
            return bs[o.v] if o.v < len(bs) else C(0, 8)
        r = bs[-1]
        for i in range(len(bs) - 2, -1, -1):
            r = ite(eq(o, C(i, 32)), bs[i], r)
        return r
    return fn


def globs(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "glob":
            yield x[1]
            return
        for y in x:
            yield from globs(y)
    elif isinstance(x, list):
        for y in x:
            yield from globs(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from globs(y)


READERS = {"revert": (0,), "finish": (0,), "emitLogEvent": (0, 3, 4, 5, 6), "debug_bytes": (0,),
           "keccak256": (0,), "storageStore": (0, 1), "storageStoreLittleEndian": (0, 1), "debug_string": (0,)}


WINDOW = ("ebegin", "efull", "eend", "einit")
KEPT = ("deploying", "memptr", "ebegin", "efull", "eend", "einit")


def window_roles(m, mutable):
    """which statics describe the EVM memory window: found by what initialisation leaves in them"""
    f = m.funcs.get("__init_evm_heap")
    if f is None or len(f.params) != 1:
        return {}
    ex = Exec(m, {}, SymEnv(), HOST)
    ex.force_grow = True
    st = initial(ex)
    st.gh["pages"] = C(7, 32)
    try:
        rs = ex.call_function("__init_evm_heap", st, [C(1, 32)])
    except Unsupported:
        return {}
    if len(rs) != 1:
        return {}
    st = rs[0][0]
    names = {}
    for n in sorted(mutable):
        g = m.globals[n]
        if n in st.mem and n in ex.regions and ir.size(g.ty) in (1, 4, 8):
            v = concat(*[st.mem[n].read(C(i, 32)) for i in range(ir.size(g.ty) - 1, -1, -1)])
            if isc(v):
                r = {7 * 65536: "ebegin", 8 * 65536: "eend", 65536: "efull", 1: "einit"}.get(v.v)
                if r:
                    names.setdefault(r, []).append(n)
    out = {ns[0]: r for r, ns in names.items() if len(ns) == 1}
    return out if "ebegin" in out.values() and {"efull", "eend"} & set(out.values()) else {}


def mutable_globals(m, writes=None):
    """globals whose contents some function may change (syntactic over-approximation)"""
    out = set()
    called = {i.a["f"][1] for f in m.funcs.values() for b in f.blocks.values() for i in b
              if i.op == "call" and i.a["f"][0] == "glob"}
    for f in m.funcs.values():
        out0, out = out, set()
        derived = {}

        def dg(v):
            s = set(g for g in globs(v) if g in m.globals)
            if isinstance(v, tuple) and v and v[0] == "loc":
                s |= derived.get(v[1], set())
            return s
        ch = True
        while ch:
            ch = False
            for b in f.blocks.values():
                for i in b:
                    if i.op in ("gep",):
                        s = set()
                        for t, v in i.a["ops"]:
                            s |= dg(v)
                    elif i.op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
                        s = dg(i.a["v"])
                    elif i.op in ("add", "sub"):
                        s = dg(i.a["x"]) | dg(i.a["y"])
                    elif i.op == "select":
                        s = dg(i.a["x"]) | dg(i.a["y"])
                    elif i.op == "phi":
                        s = set()
                        for v, _ in i.a["inc"]:
                            s |= dg(v)
                    else:
                        continue
                    if not s <= derived.get(i.res, set()):
                        derived.setdefault(i.res, set()).update(s)
                        ch = True
        for b in f.blocks.values():
            for i in b:
                if i.op == "store":
                    out |= dg(i.a["p"]) | dg(i.a["v"])
                elif i.op == "ret" and f.name in called and i.a["v"] is not None:
                    # the address goes to a caller, who may write there
                    out |= dg(i.a["v"])
                elif i.op == "call":
                    cal = i.a["f"][1] if i.a["f"][0] == "glob" else None
                    rd = READERS.get(cal, ())
                    if cal and cal.startswith(("llvm.memcpy", "llvm.memmove")):
                        rd = (1,)
                    elif cal == "memcpy":
                        rd = (1,)
                    for k, (t, v, bv) in enumerate(i.a["args"]):
                        if k not in rd:
                            out |= dg(v)
                elif i.op in ("insertvalue",):
                    out |= dg(i.a["ev"])
        if writes is not None:
            writes[f.name] = {g for g in out if not m.globals[g].const}
        out |= out0
    return {g for g in out if not m.globals[g].const}


class Done(Exception):
    pass


class LostAnchor(Exception):
    pass


# ------------------------------------------------------------------ one function
class FnResult:
    def __init__(self, name):
        self.name = name
        self.obls = []          # (name, kind, status, seconds)
        self.failed = []        # dicts
        self.undecided = []
        self.error = None
        self.case = None
        self.meta = {}


def setup(ex, c, st, conc=None):
    """symbolic arguments for a contract; returns args list"""
    args = []
    ex.kinds = {}
    for n, k in c.params:
        if k[0] in "po" and k[1:].isdigit():
            sz = int(k[1:])
            r = ex.region("arg." + n, sz, "param", k[0] == "o")
            st.mem[r.name] = mem.Dict(mem.Base(lambda o: C(0, 8)), {i: V("%s[%d]" % (n, i), 8) for i in range(sz)})
            args.append(r.base)
        elif k[0] in "bB" and k[1:2] == "=":
            # byte buffer of exactly as many bytes as another argument says
            ln = k[2:]
            ln = C(int(ln), 32) if ln.isdigit() else V(ln, 32)
            r = ex.region("arg." + n, ln, "param", k[0] == "B")
            ex.hyps.append(ule(ln, C(0x3fffffff, 32)))
            st.mem[r.name] = mem.Base(lambda o, n=n: UF("mem." + n, [o], 8))
            args.append(r.base)
        elif k[0] == "r":
            # address somewhere inside a shared buffer
            rn = "arg." + k[1:]
            if rn not in ex.regions:
                r = ex.region(rn, V("size." + k[1:], 32), "param", True)
                ex.hyps.append(ule(r.size, C(0x3fffffff, 32)))
                st.mem[r.name] = mem.Base(lambda o, k=k: UF("mem." + k[1:], [o], 8))
            args.append(add(ex.regions[rn].base, V(n + ".off", 32)))
        elif k[0] in "bB":
            # byte buffer of symbolic length: b:<lenparam>
            r = ex.region("arg." + n, V("size." + n, 32), "param", k[0] == "B")
            ex.hyps.append(ule(V("size." + n, 32), C(0x3fffffff, 32)))
            st.mem[r.name] = mem.Base(lambda o, n=n: UF("mem." + n, [o], 8))
            args.append(r.base)
        elif k == "doff":
            r = ex.region("dataseg", V("size." + n, 32), "param", False)
            ex.hyps.append(ule(V("size." + n, 32), C(0x3fffffff, 32)))
            st.mem[r.name] = mem.Base(lambda o: UF("mem.dataseg", [o], 8))
            off = sub(r.base, ex.regions["evm"].base)
            args.append(off)
            ex.hyps.append(slt(off, C(0, 32)))
            ex.hyps.append(ult(r.base, ex.regions["evm"].base))
        elif k in ("i8", "i16", "i32", "i64"):
            args.append(V(n, int(k[1:])))
        elif k == "eoff":
            args.append(V(n, 32))
            ex.hyps.append(sle(C(0, 32), V(n, 32)))
        else:
            raise Exception("param kind " + k)
    return args


def initial(ex, statics=None):
    st = St()
    env = ex.env
    base = V("&evm", 32)
    from .execu import Region
    r = Region("evm", base, None, "evm")
    ex.regions["evm"] = r
    ex.base_of[base] = r
    full = V("Efull", 32)
    st.gh = {"Efull": full, "stor": mem.KV(kv_base(env, "stor")), "tran": mem.KV(kv_base(env, "tran")), "ncall": 0,
             "pages": V("pages", 32), "deploying": V("deploying", 0), "memptr": V("memptr", 32), "growok": TRUE}
    st.mem["evm"] = mem.Base(lambda o: ite(ult(o, full), UF("evm", [o], 8), C(0, 8)))
    ex.hyps.append(ule(full, C(0x80000000, 32)))
    ex.hyps.append(ule(base, C(0x7fffffff, 32)))
    # (the window lies inside the wasm memory)
    ex.hyps.append(ule(add(zext(base, 64), zext(full, 64)), mul(zext(V("pages", 32), 64), C(65536, 64))))
    for sz in [env.uf("cdsize", [], 32), env.uf("codesize", [], 32)] + \
            [env.uf("rds", [C(k, 32)], 32) for k in range(3)]:
        ex.hyps.append(ule(sz, C(0x3fffffff, 32)))
    ex.hyps.append(ule(V("pages", 32), C(65536, 32)))
    if statics is not None:
        ex.static_init = statics.init(ex, st)
        ex.hyps += statics.hyps(ex)
    return st


def compare(ex, c, st0, impl, spec, w, statics, label):
    """obligations: every behaviour of the body is a behaviour the contract allows"""
    hy = tuple(ex.hyps)
    obls = []

    def ob(name, pc, goal, facts, kind="post"):
        if And(*pc) is FALSE:
            return
        obls.append(Obl(label + name, hy + tuple(pc), goal, facts, kind))
    sp_oom = [o for o in spec if o.kind == "oom"]
    sp = [o for o in spec if o.kind != "oom"]
    for i in impl:
        pci = i.st.pc
        if i.kind == "trap" and sp_oom and not any(o.kind == "trap" for o in sp):
            ob("traps only when memory cannot grow", pci, Not(i.st.gh["growok"]), i.st.facts)
        if i.kind == "oom" or i.kind == "trap" and sp_oom and not any(o.kind == "trap" for o in sp):
            ob("aborts only when memory cannot grow", pci, Or(*[And(*o.st.pc) for o in sp_oom]), i.st.facts)
            continue
        if not any(o.kind == i.kind for o in sp):
            ob("never ends with '%s'" % i.kind, pci, FALSE, i.st.facts)
            continue
        if len(sp) > 1:
            ob("outcome '%s' only when specified" % i.kind, pci,
               Or(*[And(*o.st.pc) for o in sp if o.kind == i.kind]), i.st.facts)
        for s in sp:
            if s.kind != i.kind:
                continue
            pcs = tuple(x for x in s.st.pc)
            pc = pci + tuple(x for x in pcs if simp_under(pci, x) is not TRUE)
            if any(simp_under(pci, x) is FALSE for x in pcs):
                continue
            fs = i.st.facts + s.st.facts
            if i.kind in ("revert", "finish"):
                for nm, g in bufeq(ex, i.val, s.val):
                    ob("data passed to %s: %s" % (i.kind, nm), pc, g, fs)
            elif i.kind == "selfdestruct":
                ob("beneficiary", pc, eq(i.val, s.val), fs)
            elif i.kind == "ret":
                if isinstance(s.val, tuple):
                    # address of a word with the given value that no function modifies
                    p = i.val
                    for cc, r, o in ex.resolve(p):
                        if r is None or r.name not in i.st.mem or r.kind not in ("static", "const") or \
                                (statics is not None and r.name in statics.mutable):
                            ob("returns the address of a constant", pc, Not(cc), fs)
                            continue
                        ob("returned address lies inside its object", pc, Implies(cc, ule(o, sub(ex.rsize(i.st, r), C(32, 32)))), fs)
                        wv = concat(*[i.st.mem[r.name].read(add(o, C(q, 32))) for q in range(32)])
                        ob("value at the returned address", pc, Implies(cc, eq(wv, s.val[1])), fs)
                elif s.val is not None:
                    if i.val is None:
                        ob("returns a value", pc, FALSE, fs)
                    else:
                        iv = i.val if i.val.w else bool2bv(i.val)
                        ob("returned value", pc, eq(fitw(iv, s.val.w), s.val), fs)
            if i.kind in ("ret", "finish", "selfdestruct"):
                for nm, g in state_eq(ex, st0, i.st, s.st):
                    ob(nm, pc, g, fs)
                if i.kind == "ret":
                    for npc, need in w.needs:
                        ob("memory it covers is accessible afterwards", pc + tuple(npc), ule(need, ex.gget(i.st, "Efull")), fs)
                    if statics is not None:
                        # abstract state after the call is the specified one
                        for key, nm in (("deploying", "deployment flag"), ("memptr", "free memory pointer")):
                            x, y = ex.gget(i.st, key), ex.gget(s.st, key)
                            if x is not y:
                                ob(nm, pc, eq(x, y), fs)
                        for nm, g in statics.post(ex, st0, i.st):
                            ob(nm, pc, g, fs)
    return obls


def fitw(v, w):
    return v if v.w == w else (trunc(v, w) if v.w > w else zext(v, w))


def bufeq(ex, a, b):
    out = [("length", eq(a.len, b.len))]
    if isc(b.len):
        if b.len.v == 0:
            return out
        if b.len.v <= 256:
            g = And(*[eq(a.fn(C(i, 32)), b.fn(C(i, 32))) for i in range(b.len.v)])
            return out + [("contents", g)]
    o = ex.fresh("sk.buf", 32)
    out.append(("contents", Implies(ult(o, b.len), eq(a.fn(o), b.fn(o)))))
    return out


def state_eq(ex, st0, a, b):
    out = []
    # host interactions
    if len(a.ev) != len(b.ev) or any(x.kind != y.kind for x, y in zip(a.ev, b.ev)):
        out.append(("host interactions: %s (specified: %s)" % ([e.kind for e in a.ev], [e.kind for e in b.ev]), FALSE))
    else:
        for n, (x, y) in enumerate(zip(a.ev, b.ev)):
            if x is y:
                continue
            for k, (p, q) in enumerate(zip(x.terms, y.terms)):
                out.append(("%s: field %d" % (x.kind, k), eq(p, q)))
            if len(x.terms) != len(y.terms):
                out.append(("%s: number of fields" % x.kind, FALSE))
            for k, (p, q) in enumerate(zip(x.bufs, y.bufs)):
                for nm, g in bufeq(ex, p, q):
                    out.append(("%s: data %s" % (x.kind, nm), g))
    for m_ in ("stor", "tran"):
        x, y = a.gh[m_], b.gh[m_]
        if x is y or not x.ups and not y.ups:
            continue
        k = ex.fresh("sk.key", 256)
        nm = "persistent storage" if m_ == "stor" else "transient storage"
        # the touched keys first (small queries), then every other key
        touched = []
        for (_, kk, _v) in x.ups + y.ups:
            if kk not in touched:
                touched.append(kk)
        for kk in touched:
            out.append((nm + " at a written key", eq(x.read(kk), y.read(kk))))
        out.append((nm + " elsewhere", Or(eq(x.read(k), y.read(k)), *[eq(k, kk) for kk in touched])))
    # memory, pointwise (functional result and frame at once)
    for rn, n0 in st0.mem.items():
        r = ex.regions[rn]
        if r.kind in ("static", "const", "local"):
            continue
        x, y = a.mem.get(rn), b.mem.get(rn)
        if x is y:
            continue
        nm = "EVM memory" if rn == "evm" else "memory at " + rn
        if r.kind != "evm" and not isinstance(r.size, T) and r.size <= 64:
            out.append((nm, And(*[eq(x.read(C(i, 32)), y.read(C(i, 32))) for i in range(r.size)])))
        else:
            o = ex.fresh("sk.mem", 32)
            hy = ult(o, C(0x80000000, 32)) if r.kind == "evm" else ult(o, ex.rsize(st0, r))
            out.append((nm, Implies(hy, eq(x.read(o), y.read(o)))))
    return out


def skolems(t):
    return [x for x in leaves(t) if x.op == "var" and x.w == 32 and x.v.startswith("sk.")]


def basehyps(ex, conds):
    seen = {}
    for c in conds:
        for x in leaves(c):
            if x in ex.base_of:
                seen[x] = ex.base_of[x]
    hs = []
    rs = list(seen.values())

    def size(r):
        if r.kind == "evm":
            return C(0x10000, 32)
        return r.size if isinstance(r.size, T) else C(r.size, 32)
    for r in rs:
        hs.append(ult(C(0, 32), r.base))
        hs.append(ule(r.base, sub(C(0x7fffffff, 32), size(r))))
        hs.append(ule(size(r), C(0x7ffffffe, 32)))
    if len(rs) <= 6:
        for i in range(len(rs)):
            for j in range(i):
                a, b = rs[i], rs[j]
                same = FALSE
                if a.kind == b.kind == "param" and not a.writable and not b.writable and \
                        isinstance(a.size, int) and a.size == b.size and a.size <= 64:
                    # two operands that are only read may be the same cell
                    na, nb = a.name[4:], b.name[4:]
                    same = And(eq(a.base, b.base), *[eq(V("%s[%d]" % (na, q), 8), V("%s[%d]" % (nb, q), 8)) for q in range(a.size)])
                hs.append(Or(same, ule(add(a.base, size(a)), b.base), ule(add(b.base, size(b)), a.base)))
    return hs


def solve_obl(ex, o, timeout, extra=()):
    t0 = time.time()
    if o.goal is TRUE:
        o.result = "unsat"
        solve.STATS["simplifier"] += 1
        return o
    conds = list(o.hyps) + list(extra)
    ng = Not(o.goal)
    conds.append(ng)
    inst = []
    if o.facts:
        sks = skolems(And(*conds)) or []
        idx = list(sks)
        for f in o.facts:
            for i in idx:
                inst.append(f(i))
    conds += inst
    conds += basehyps(ex, conds)
    r, m = solve.check(conds, timeout)
    o.result, o.model, o.conds = r, m, conds
    o.time = time.time() - t0
    return o


def verify_function(module, c, timeout=30000, statics=None, only_cases=None, stop_on_fail=True, dropped=()):
    res = FnResult(c.name)
    cases = c.cases() if c.cases else [(None, {}, TRUE)]
    # ex is needed for models; keep the failing ones
    if c.cases:
        # the case split is exhaustive
        ex = Exec(module, REG, SymEnv(), HOST)
        st = initial(ex)
        args = setup(ex, c, st)
        conds = []
        for lab, sub_, cond in cases:
            cc = cond(*args) if callable(cond) else cond
            conds.append(cc)
        o = Obl("%s: the case split is exhaustive" % c.name, tuple(ex.hyps), Or(*conds), (), "meta")
        solve_obl(ex, o, timeout)
        res.obls.append((o.name, o.kind, o.result, o.time))
        if o.result != "unsat":
            res.error = "case split not exhaustive"
            return res
    for lab, sub_, cond in cases:
        if only_cases is not None and lab not in only_cases:
            continue
        verify_case(module, c, lab, sub_, cond, timeout, statics, res, dropped)
        if res.error or (res.failed and stop_on_fail):
            break
    return res


def build(module, c, lab, sub_, cond, statics, dropped=()):
    ex = Exec(module, REG, SymEnv(), HOST)
    ex.statics = statics
    if statics is not None:
        ex.byrole = statics.byrole
    ex.label = ""
    ex.variant = "finding" if c.variant.startswith("finding") else ""
    ex.dropped = dropped
    st0 = initial(ex, statics)
    args = setup(ex, c, st0)
    cc = cond(*args) if callable(cond) else cond
    if cc is not TRUE:
        ex.hyps.append(cc)
    names = [n for n, k in c.params]
    ex.sub = {}
    for i, n in enumerate(names):
        if n in sub_:
            ex.sub[args[i].v] = sub_[n].v
            args[i] = sub_[n]
    ex.st0 = st0
    w0 = W(ex, st0, c.name)
    for nm, g in c.requires(w0, args):
        ex.hyps.append(g)
    if not c.any_layout:
        # (the EVM window is the last thing in the wasm memory; see the findings F4 and F5)
        ex.hyps.append(eq(add(zext(V("&evm", 32), 64), zext(V("Efull", 32), 64)), mul(zext(V("pages", 32), 64), C(65536, 64))))
        ex.hyps.append(eq(band(V("Efull", 32), C(0xffff, 32)), C(0, 32)))
    ex.obls = []
    return ex, st0, args


def verify_case(module, c, lab, sub_, cond, timeout, statics, res, dropped=()):
    label = "" if lab is None else "[%s] " % lab
    try:
        if c.custom:
            ex, obls, args = c.custom(module, c, statics)
            impl = [1]
            raise Done()
        ex, st0, args = build(module, c, lab, sub_, cond, statics, dropped)
        if c.name not in module.funcs:
            res.error = "lost anchor: function %s is gone" % c.name
            return
        f = module.funcs[c.name]
        if len(f.params) != len(args) or any(a.w != ir.width(t) for a, (_, t, _b) in zip(args, f.params)):
            res.error = "lost anchor: signature of %s changed" % c.name
            return
        if c.decreases:
            ex.cur_measure = c.decreases(*args)
        # vacuity: the precondition is satisfiable
        r, _ = solve.check(list(ex.hyps), timeout)
        res.obls.append((label + c.name + ": precondition is satisfiable", "vacuity", "unsat" if r == "sat" else r, 0.0))
        if r == "unsat":
            res.error = "contradictory precondition"
            return
        impl = [Outcome("ret", s, v) for s, v in ex.call_function(c.name, st0, args)] + ex.terminal
        ex.terminal = []
        nhy = len(ex.obls)
        w = W(ex, st0.copy(), c.name + ": specification")
        w.full0 = ex.gget(st0, "Efull")
        c.run(w, args)
        spec = w.results
        # specification is total and deterministic up to memory exhaustion on the precondition
        pcs = [And(*o.st.pc) for o in spec]
        ex.obls.append(Obl(c.name + ": specification covers every case", tuple(ex.hyps), Or(*pcs), (), "meta"))
        obls = ex.obls + compare(ex, c, st0, impl, spec, w, statics, c.name + ": ")
    except Done:
        pass
    except LostAnchor as e:
        res.error = "lost anchor: %s" % e
        return
    except Unsupported as e:
        res.error = "unsupported: %s" % e
        return
    except RecursionError as e:
        res.error = "unsupported: recursion depth"
        return
    if not impl:
        res.error = "no outcome"
        return
    for o in obls:
        solve_obl(ex, o, timeout)
        res.obls.append((label + o.name, o.kind, o.result, round(o.time, 4)))
        if o.result == "sat":
            res.failed.append(dict(obl=label + o.name, kind=o.kind, ex=ex, model=o.model, conds=o.conds, args=args, o=o, case=lab))
            if len(res.failed) >= 4:
                break
        elif o.result == "unknown":
            res.undecided.append(label + o.name)
    res.meta.setdefault("loops_summarised", 0)
    res.meta["loops_summarised"] += ex.loops_summarised
    res.meta["loops_unrolled"] = res.meta.get("loops_unrolled", 0) + ex.loops_unrolled
    res.meta.setdefault("contracts_used", set()).update(ex.used_contracts)
    res.meta.setdefault("inlined", set()).update(ex.inlined)
    res.meta.setdefault("host", set()).update(ex.notes)
