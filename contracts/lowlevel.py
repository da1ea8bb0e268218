"""Obligations about module initialisation and the allocators that are stated over the statics themselves."""
from vf import ir
from vf.execu import Exec, Obl, Unsupported
from vf.host import HOST
from vf.spec import *
from vf.terms import *
from vf import verify


def fresh_module(module):
    """symbolic machine right after instantiation: statics hold their initialisers"""
    ex = Exec(module, {}, SymEnv(), HOST)
    st = verify.initial(ex)
    ex.hyps = [ule(C(1, 32), V("pages", 32)), ule(V("pages", 32), C(65536, 32))]
    del st.mem["evm"]
    return ex, st


def cell(ex, st, name):
    ex.global_region(st, name)
    n = ir.size(ex.m.globals[name].ty)
    return concat(*[st.mem[name].read(C(i, 32)) for i in range(n - 1, -1, -1)])


def M(x):
    return mul(zext(x, 64), C(65536, 64))


@custom("__init_evm_heap", "C09", targets=("wrapper_mstore_bytes32", "wrapper_memory_guard"))
def _(module, c, statics):
    if "__init_evm_heap" not in module.funcs:
        raise verify.LostAnchor("__init_evm_heap is gone")
    br = statics.byrole
    if "ebegin" not in br or not {"efull", "eend"} & set(br):
        raise verify.LostAnchor("the EVM memory window is not recognised")
    ex, st = fresh_module(module)
    p0 = st.gh["pages"]
    flag = V("try_new_wasm_page_as_evm_heap_bool", 32)
    rets = ex.call_function("__init_evm_heap", st, [flag])
    obls = list(ex.obls)

    def ob(name, s, goal, kind="post"):
        obls.append(Obl("__init_evm_heap: " + name, tuple(ex.hyps) + s.pc, goal, s.facts, kind))
    for o in ex.terminal:
        ob("ends with '%s' only when memory cannot grow" % o.kind, o.st, Not(o.st.gh["growok"]) if o.kind == "trap" else FALSE)
    for s, _v in rets:
        B = cell(ex, s, br["ebegin"])
        F = cell(ex, s, br["efull"]) if "efull" in br else sub(cell(ex, s, br["eend"]), B)
        p1 = s.gh["pages"]
        own = And(eq(zext(B, 64), M(p0)), eq(add(zext(B, 64), zext(F, 64)), M(p1)))
        ob("on request, or in a module of more than one page, EVM memory is new pages of its own", s,
           Implies(Or(ne(flag, C(0, 32)), ult(C(1, 32), p0)), own))
        alts = [own]
        for cc, r, off in ex.resolve(B):
            if r is not None and r.kind == "static" and statics.uses.get(r.name) == {"__init_evm_heap"}:
                alts.append(And(cc, eq(off, C(0, 32)), ule(F, C(r.size, 32))))
        ob("EVM memory is new pages or a buffer nothing else uses", s, Or(*alts))
        ob("EVM memory exists", s, ult(C(0, 32), F))
        if {"eend", "efull"} <= set(br):
            ob("the end of the window is its start plus its size", s, eq(cell(ex, s, br["eend"]), add(B, F)))
        if "einit" in br:
            v = cell(ex, s, br["einit"])
            ob("EVM memory is marked initialised", s, ne(v, C(0, v.w)))
        base = verify.St()
        for n in list(s.mem):
            if n in module.globals and n not in br.values() and n in ex.regions:
                ex.global_region(base, n)
                if base.mem[n] is not s.mem[n]:
                    o = ex.fresh("sk.static", 32)
                    if n in statics.mutable and statics.uses.get(n) and statics.uses[n] <= {f for f in statics.uses[n] if f in EVMFNS}:
                        continue
                    ob("@%s keeps its initial value" % n, s, Implies(ult(o, C(ex.regions[n].size, 32)),
                                                                    eq(base.mem[n].read(o), s.mem[n].read(o))))
    return ex, obls, []


EVMFNS = ("__init_evm_heap", "evm_make_sure_memory", "is_available_evm_memory", "evm_get_memory_addr")


@custom("initial values of the statics", "C12 C13", targets=("wrapper_calldata_copy", "wrapper_calldata_size", "wrapper_codecopy"))
def _(module, c, statics):
    ex, st = fresh_module(module)
    obls = []

    def ob(name, goal):
        obls.append(Obl("initial state: " + name, (), goal, (), "post"))
    br = statics.byrole
    for role, what in (("cdflag", "no calldata is cached"), ("cdsflag", "no calldata size is cached"),
                       ("cdboth", "no calldata is cached"), ("deploying", "not deploying")):
        if role in br:
            v = cell(ex, st, br[role])
            ob(what, eq(v, C(statics.flag[br[role]][0], v.w)))
    if "cdsize" in br and not {"cdsflag", "cdboth"} & set(br):
        v = cell(ex, st, br["cdsize"])
        ob("no calldata size is cached", eq(v, C(-1, v.w)))
    if not obls:
        raise verify.LostAnchor("no static with a known role")
    return ex, obls, []


# ------------------------------------------------------------------ C10
# Every history of allocations is covered by enumerating the reachable abstract states: the values of the
# allocator's statics, with the page number of the newest extra page kept symbolic (P, any page of a wasm
# memory).  Every step is the symbolic execution of the real function from such a state, with any number of
# pages in use (EVM memory may have grown in between); the enumeration ends because stepping from the last
# state leads back to one already covered.
ALLOC = ("memory_alloca_bytes32", "memory_alloca_u256")


def alloc_statics(module, statics):
    fs, todo = set(), [f for f in ALLOC if f in module.funcs]
    while todo:
        f = todo.pop()
        if f in fs:
            continue
        fs.add(f)
        for b in module.funcs[f].blocks.values():
            for i in b:
                if i.op == "call" and i.a["f"][0] == "glob" and i.a["f"][1] in module.funcs:
                    todo.append(i.a["f"][1])
    return fs, [g for g in sorted(statics.mutable) if statics.uses.get(g, set()) & fs]


def alloc_standin(run):
    """bounded: random histories on the compiled library"""
    import random
    rng = random.Random(run.seed)
    jobs = [[["memory_alloca_bytes32", 5000]], [["memory_alloca_u256", 5000]],
            [["memory_alloca_bytes32", 310], ["grow", 3], ["memory_alloca_bytes32", 5000]]]
    for _ in range(24 if run.tier == "quick" else 400):
        ops = []
        for _ in range(rng.randrange(1, 12)):
            ops.append(rng.choice([["memory_alloca_bytes32", rng.choice([1, 2, 299, 300, 301, 500, 2047, 2048, 2049])],
                                   ["memory_alloca_u256", rng.choice([1, 2, 300, 1000, 2048])], ["grow", rng.randrange(1, 4)]]))
        jobs.append(ops)
    R = run.runner()
    out = []
    for ops, r in zip(jobs, R.raw([dict(alloc=ops, seed=run.seed) for ops in jobs])):
        R.ran += 1
        if r:
            out.append((r, dict(job=dict(alloc=ops, seed=run.seed), call=0, function="memory_alloca_bytes32", difference=r, observed=r)))
    return out


@custom("memory_alloca_bytes32", "C10", targets=ALLOC, standin=alloc_standin)
def _(module, c, statics):
    if any(f not in module.funcs for f in ALLOC):
        raise verify.LostAnchor("the allocator is gone")
    fs, names = alloc_statics(module, statics)
    words = [n for n in names if ir.size(module.globals[n].ty) <= 64]
    P, B = V("P", 32), V("pages", 32)
    obls = []
    ex0, st0 = fresh_module(module)
    init = []
    for n in words:
        ex0.global_region(st0, n)
        init.append(tuple(st0.mem[n].read(C(i, 32)) for i in range(ir.size(module.globals[n].ty))))
    for n in names:
        out = sorted(f for f in statics.uses[n] if f not in fs)
        obls.append(Obl("@%s is used by the allocator only%s" % (n, ": also by " + ", ".join(out) if out else ""), (),
                        FALSE if out else TRUE, (), "frame"))
    exs = ex0
    seen = set()
    todo = [(tuple(init), (), 0)]
    nstep, cache = 0, {}
    while todo:
        state, used, depth = todo.pop()
        if (state, used) in seen:
            continue
        seen.add((state, used))
        if len(seen) > 12000:
            raise Unsupported("no closed set of allocator states found")
        n0 = len(obls)
        for f in ALLOC:
            for force in (True, False):
                if not force and not grew:
                    continue
                ex, st = fresh_module(module)
                exs = ex
                ex.statics, ex.prune, ex.force_grow = None, cache, force
                ex.hyps = [ule(B, C(65534, 32)), ult(C(0, 32), P), ult(P, B)]
                st.gh["pages"] = B
                for n, bs in zip(words, state):
                    ex.global_region(st, n)
                    st.mem[n] = verify.mem.Dict(verify.mem.Base(lambda o: C(0, 8)), dict(enumerate(bs)))
                # only the allocator's own state may be written
                pre = dict(st.mem)
                rets = ex.call_function(f, st, [])
                nstep += 1
                where = "%s, call %d: " % (f, depth + 1)
                hy = tuple(ex.hyps)

                def ob(name, s, goal, kind="post"):
                    if goal is not TRUE:
                        obls.append(Obl(where + name, hy + s.pc, goal, s.facts, kind))
                    else:
                        obls.append(Obl(where + name, (), TRUE, (), kind))
                for o in ex.obls:
                    obls.append(Obl(where + o.name, o.hyps, o.goal, o.facts, o.kind))
                for o in ex.terminal:
                    ob("ends with '%s' only when memory cannot grow" % o.kind, o.st, Not(o.st.gh["growok"]) if o.kind == "trap" else FALSE)
                if force:
                    grew = any(s.gh["pages"] is not B for s, _ in rets) or any(o.st.gh["pages"] is not B for o in ex.terminal)
                if not force:
                    # the run in which growing may fail: nothing may be handed out then
                    for s, _v in rets:
                        ob("no cell when memory cannot grow", s, s.gh.get("growok", TRUE))
                    continue
                for s, v in rets:
                    if len(rets) > 1 and not ex.feasible(s):
                        continue
                    pc = s.pc
                    grown = s.gh["pages"] is not B
                    page = B if grown else P
                    for n, nd in s.mem.items():
                        if n in pre and n not in words and nd is not pre[n] or n not in pre and n in ex.regions and \
                                ex.regions[n].kind == "static" and n not in words and not isinstance(nd, (verify.mem.Base, verify.mem.Dict)):
                            ob("no existing contents change (@%s)" % n, s, FALSE)
                    rr = [(cc, r, off) for cc, r, off in ex.resolve(v)]
                    if len(rr) != 1:
                        raise Unsupported("allocator result is a case split")
                    _cc, r, off = rr[0]
                    u = dict(used)
                    if grown:
                        u.pop("page", None)
                        ob("one new page", s, ule(add(B, C(1, 32)), s.gh["pages"]))
                    if r is not None:
                        if not isc(off):
                            raise Unsupported("allocator offset is not constant")
                        chunk, size = r.name, r.size
                        if r.kind != "static" or r.name not in names or r.name in words:
                            ob("the cell lies in memory of its own", s, FALSE)
                    else:
                        off = sub(v, mul(page, C(65536, 32)))
                        if not isc(off):
                            raise Unsupported("allocator result is not an offset into the newest page")
                        chunk, size = "page", 65536
                    k = off.v
                    ob("the cell lies inside its block (offset %d of %s)" % (k, chunk), s, TRUE if k + 32 <= size else FALSE)
                    bits = ((1 << 32) - 1) << k if k < 1 << 20 else 0
                    ob("the cell overlaps no earlier cell (offset %d of %s)" % (k, chunk), s,
                       TRUE if not u.get(chunk, 0) & bits else FALSE)
                    u[chunk] = u.get(chunk, 0) | bits
                    nxt = []
                    for n in words:
                        bs = [s.mem[n].read(C(i, 32)) for i in range(ir.size(module.globals[n].ty))]
                        if grown:
                            if any(P in leaves(b) for b in bs):
                                raise Unsupported("allocator keeps the previous page")
                            bs = [subst(b, {B: P}) for b in bs]
                        elif any(B in leaves(b) for b in bs):
                            raise Unsupported("allocator state depends on the memory size")
                        nxt.append(tuple(bs))
                    todo.append((tuple(nxt), tuple(sorted(u.items())), depth + 1))
        if any(o.goal is FALSE for o in obls[n0:]):
            break
    exs.loops_summarised += 0
    return exs, obls, []
