"""Run the shipped code (wasm, real compiler output) on concrete inputs and compare it with the contract
evaluated on the same inputs: counterexample replay and the labelled, bounded stand-in."""
import json
import os
import random
import subprocess
from . import ir, mem, build
from .execu import Exec, St, Outcome, Region
from .host import HOST
from .spec import *
from .terms import *

HERE = os.path.dirname(os.path.abspath(__file__))
MAXNEED = 8 << 20


class Skip(Exception):
    """the inputs do not satisfy the precondition (or are too large to run)"""


class Call:
    def __init__(self, c, vals):
        self.c, self.vals = c, vals      # vals: param name -> int | bytes | (len) | ...


def expected(calls, seed, over):
    """contract-level results of the calls; list of dicts"""
    env = ConcEnv(seed, over)
    ex = Exec(ir.Module(), REG, env, HOST)
    ex.concrete = True
    st = St()
    base = V("&evm", 32)
    r = Region("evm", base, None, "evm")
    ex.regions["evm"] = r
    ex.base_of[base] = r
    full = C(65536, 32)
    st.gh = {"Efull": full, "stor": mem.KV(kv_base(env, "stor")), "tran": mem.KV(kv_base(env, "tran")), "ncall": 0,
             "pages": V("pages", 32), "deploying": FALSE, "memptr": C(0, 32)}
    st.mem["evm"] = mem.Base(lambda o: ite(ult(o, full), env.uf("evm", [o], 8), C(0, 8)))
    out, jobs = [], []
    for call in calls:
        c = call.c
        args, regs, jargs = [], {}, []
        bufs = {}
        for n, k in c.params:
            v = call.vals.get(n)
            if k[0] in "po" and k[1:].isdigit():
                sz = int(k[1:])
                if n in call.vals.get("alias", {}):
                    # the same read-only cell as an earlier operand
                    of = call.vals["alias"][n]
                    args.append(regs[of].base)
                    jargs.append(dict(t="alias", name=n, of=of))
                    continue
                r = ex.region("arg." + n, sz, "param", k[0] == "o")
                st.mem[r.name] = mem.Dict(mem.Base(lambda o: C(0, 8)), {i: C(v[i], 8) for i in range(sz)})
                args.append(r.base)
                regs[n] = r
                jargs.append(dict(t="bytes", name=n, hex=bytes(v).hex()))
            elif k[0] in "bBr":
                key = k[1:] if k[0] == "r" else n
                if key not in bufs:
                    if k[1:2] == "=":
                        ln = k[2:]
                        ln = int(ln) if ln.isdigit() else call.vals[ln]
                    else:
                        ln = call.vals["size." + key]
                    if ln > 300000:
                        raise Skip("large buffer")
                    r = ex.region("arg." + key, C(ln, 32), "param", k[0] != "b")
                    st.mem[r.name] = mem.Base(lambda o, key=key: env.uf("mem." + key, [o], 8))
                    bufs[key] = r
                    regs[key if k[0] != "r" else n] = r
                r = bufs[key]
                if k[0] == "r":
                    args.append(add(r.base, C(v, 32)))
                    jargs.append(dict(t="rbuf", name=n, id=key, src="mem." + key, n=r.size.v, off=v))
                else:
                    args.append(r.base)
                    jargs.append(dict(t="src", name=n, src="mem." + n, n=r.size.v))
            elif k == "doff":
                ln = call.vals["size." + n]
                if ln > 300000:
                    raise Skip("large buffer")
                r = ex.region("dataseg", C(ln, 32), "param", False)
                st.mem[r.name] = mem.Base(lambda o: env.uf("mem.dataseg", [o], 8))
                args.append(sub(r.base, base))
                jargs.append(dict(t="doff", name=n, src="mem.dataseg", n=ln))
            elif k in ("i8", "i16", "i32", "eoff"):
                w = 32 if k == "eoff" else int(k[1:])
                if k == "eoff" and v >> 31:
                    raise Skip("negative offset")
                args.append(C(v, w))
                jargs.append(dict(t="i32", name=n, v=sval(v, w)))
            elif k == "i64":
                args.append(C(v, 64))
                jargs.append(dict(t="i64", name=n, v=str(v)))
            else:
                raise Exception(k)
        w = W(ex, st, c.name)
        for nm, g in c.requires(w, args):
            if g is not TRUE:
                raise Skip(nm)
        before = {k: st.mem[k] for k in st.mem}
        ex.obls = []
        w = W(ex, st.copy(), c.name)
        c.run(w, args)
        for nd in w.needs:
            if nd[1].v > MAXNEED:
                raise Skip("large memory")
        for o in ex.obls:
            if And(*o.hyps) is not FALSE and o.goal is not TRUE and all(h is TRUE or h is FALSE for h in o.hyps):
                raise Skip(o.name)
        res = [o for o in w.results if o.kind != "oom" and And(*o.st.pc) is TRUE]
        if len(res) != 1:
            raise Skip("specification gives %d outcomes" % len(res))
        o = res[0]
        out.append(dict(call=call, o=o, before=before, regs=regs, full=st.gh["Efull"],
                        need=max([nd[1].v for nd in w.needs if And(*nd[0]) is TRUE] or [0])))
        jobs.append(dict(fn=c.name, args=jargs))
        if o.kind != "ret":
            break
        st = o.st
    return out, jobs


def touched(old, new):
    """offsets a memory update may have changed"""
    s = set()
    n = new
    k = 0
    while n is not old:
        if isinstance(n, mem.Dict):
            s.update(n.d)
            n = n.prev
        elif isinstance(n, mem.Sto):
            s.update((n.off.v + i) & M32 for i in range(len(n.bs)))
            n = n.prev
        elif isinstance(n, mem.FnW):
            ln = n.len.v
            if ln > 1 << 17:
                raise Skip("large write")
            s.update((n.off.v + i) & M32 for i in range(ln))
            n = n.prev
        elif isinstance(n, mem.Ite):
            n = n.x if n.c is TRUE else n.y
        else:
            if isinstance(old, mem.Dict):
                # a Dict extended in place of its predecessor
                return s | set(old.d)
            break
        k += 1
    return s


def unruns(rs):
    d = {}
    for o, h in rs:
        for i, b in enumerate(bytes.fromhex(h)):
            d[o + i] = b
    return d


def memdiff(what, old, new, rs, limit=None):
    d = unruns(rs)
    at = sorted(d)
    if len(at) > 20000:
        at = at[:2000] + at[2000:-2000:len(at) // 4000] + at[-2000:]
    else:
        at = sorted(set(at) | touched(old, new))
    for o in at:
        if limit is not None and o >= limit:
            continue
        e = new.read(C(o, 32)).v
        a = d[o] if o in d else old.read(C(o, 32)).v
        if e != a:
            return "%s at offset %d: is 0x%02x, specified 0x%02x" % (what, o, a, e)
    return None


def bufhex(b):
    if b.len.v > 1 << 17:
        raise Skip("large data")
    return bytes(b.fn(C(i, 32)).v for i in range(b.len.v)).hex()


def compare1(x, r):
    """None or a description of the difference"""
    o = x["o"]
    if r["kind"] == "harness error":
        raise build.BuildError("host.js: " + r["why"])
    if r["kind"] != o.kind:
        return "ended with '%s'%s, specified '%s'" % (r["kind"], " (" + r["why"] + ")" if "why" in r else "", o.kind)
    if o.kind in ("revert", "finish"):
        if r.get("bytes", "") != bufhex(o.val):
            return "%s data is %s, specified %s" % (o.kind, r.get("bytes"), bufhex(o.val))
    if o.kind == "selfdestruct" and int(r["bytes"], 16) != o.val.v:
        return "beneficiary %s, specified %x" % (r["bytes"], o.val.v)
    if o.kind == "ret" and o.val is not None:
        if isinstance(o.val, tuple):
            if r.get("word") is None or int(r["word"], 16) != o.val[1].v:
                return "word at the returned address is %s, specified %x" % (r.get("word"), o.val[1].v)
        else:
            v = int(r["val"], 16) if "val" in r else None
            base = x["regs"]
            if isc(o.val):
                if v is None or v & ((1 << o.val.w) - 1) != o.val.v:
                    return "returned %s, specified 0x%x" % (r.get("val"), o.val.v)
    if o.kind not in ("ret", "finish", "selfdestruct"):
        return None
    st = o.st
    if len(r["ev"]) != len(st.ev) or any(a["kind"] != b.kind for a, b in zip(r["ev"], st.ev)):
        return "host interactions %s, specified %s" % ([a["kind"] for a in r["ev"]], [b.kind for b in st.ev])
    for a, b in zip(r["ev"], st.ev):
        for i, (p, q) in enumerate(zip(a["terms"], b.terms)):
            if int(p, 16) != q.v:
                return "%s field %d is 0x%s, specified 0x%x" % (b.kind, i, p, q.v)
        if len(a["terms"]) != len(b.terms):
            return "%s has %d fields" % (b.kind, len(a["terms"]))
        for p, q in zip(a["bufs"], b.bufs):
            if p != bufhex(q):
                return "%s data is %s, specified %s" % (b.kind, p, bufhex(q))
    for m_ in ("stor", "tran"):
        real = {int(k, 16): int(v, 16) for k, v in r[m_].items()}
        keys = set(real) | {kk.v for c, kk, v in st.gh[m_].ups if c is TRUE}
        for k in sorted(keys):
            e = st.gh[m_].read(C(k, 256)).v
            a = real[k] if k in real else st.gh[m_].base(C(k, 256)).v
            if a != e:
                return "%s[0x%x] is 0x%x, specified 0x%x" % ("storage" if m_ == "stor" else "transient storage", k, a, e)
    d = memdiff("EVM memory", x["before"]["evm"], st.mem["evm"], r["evm"])
    if d:
        return d
    for n, reg in x["regs"].items():
        d = memdiff("memory of argument " + n, x["before"].get(reg.name, st.mem[reg.name]), st.mem[reg.name],
                    r["mem"].get(n, []))
        if d:
            return d
    if r["stray"]:
        n, off, h = r["stray"][0]
        return "memory outside the arguments changed: %d bytes from %s%+d" % (len(h) // 2, n, off)
    if o.kind == "ret":
        if r["size"] < x["need"]:
            return "only %d bytes of EVM memory are accessible afterwards, specified %d" % (r["size"], x["need"])
        dep = st.gh["deploying"]
        if "deploying" in r and dep in (TRUE, FALSE) and (r["deploying"] != 0) != (dep is TRUE):
            return "deployment flag is %d" % r["deploying"]
        if "memptr" in r and isc(st.gh["memptr"]) and r["memptr"] != st.gh["memptr"].v:
            return "free memory pointer is 0x%x, specified 0x%x" % (r["memptr"], st.gh["memptr"].v)
    return None


class Runner:
    def __init__(self, wasm):
        self.wasm = wasm
        self.ran = 0
        self.skipped = 0
        self.samples = []

    def raw(self, jobs):
        p = subprocess.run(["node", os.path.join(HERE, "host.js"), self.wasm], input=json.dumps(jobs).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if p.returncode:
            raise build.BuildError("host.js: " + p.stderr.decode()[-2000:])
        return json.loads(p.stdout)

    def batch(self, hist):
        """hist: list of (calls, seed, over); returns list of (index, call index, text, dump) for differences"""
        jobs, exp = [], []
        for i, (calls, seed, over) in enumerate(hist):
            try:
                e, j = expected(calls, seed, over)
            except Skip as s:
                self.skipped += 1
                continue
            jobs.append(dict(seed=seed, over={k: "%x" % v for k, v in over.items()}, calls=j))
            exp.append((i, e))
        if not jobs:
            return []
        p = subprocess.run(["node", os.path.join(HERE, "host.js"), self.wasm], input=json.dumps(jobs).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if p.returncode:
            raise build.BuildError("host.js: " + p.stderr.decode()[-2000:])
        out = []
        for (i, e), rs, job in zip(exp, json.loads(p.stdout), jobs):
            self.ran += 1
            if len(self.samples) < 3:
                self.samples.append(job)
            for k, (x, r) in enumerate(zip(e, rs)):
                try:
                    d = compare1(x, r)
                except Skip:
                    self.skipped += 1
                    break
                if d:
                    out.append((i, k, d, dict(job=job, call=k, function=x["call"].c.name, difference=d, observed=r)))
                    break
        return out


# ------------------------------------------------------------------ random inputs
def rand_word(rng, n=32):
    m = rng.randrange(14)
    if m == 0:
        return bytes(n)
    if m == 1:
        return bytes([255] * n)
    if m in (2, 3):
        v = rng.choice([1, 2, 3, 5, 10, 11, 31, 32, 127, 128, 255, 256, 0x7fffffff, 0x80000000, 1 << 63, 1 << 64])
        return v.to_bytes(n, "big" if m == 2 else "little") if v < 1 << (8 * n) else bytes(n)
    if m == 4:
        v = ((1 << (8 * n - 1)) + rng.randrange(-2, 3)) & ((1 << 8 * n) - 1)
        return v.to_bytes(n, rng.choice(["big", "little"]))
    if m == 5:
        b = bytearray(n)
        b[rng.randrange(n)] = rng.randrange(1, 256)
        return bytes(b)
    if m == 6 and n == 32:
        return bytes(12) + rng.randbytes(20)
    if m == 7 and n == 32:
        return rng.randbytes(12) + bytes(20)
    if m == 8:
        k = rng.randrange(n)
        return bytes(k) + rng.randbytes(n - k)
    if m == 9:
        k = rng.randrange(n)
        return rng.randbytes(k) + bytes(n - k)
    if m == 10:
        return bytes(rng.choice([0, 0x7f, 0x80, 0xff, 1]) for _ in range(n))
    return rng.randbytes(n)


EDGE = [0, 1, 2, 3, 4, 7, 8, 9, 16, 20, 31, 32, 33, 36, 63, 64, 65, 95, 96, 97, 100, 127, 128, 159, 160, 255, 256, 257,
        1023, 1024, 1025]


def rand_i32(rng, off=False):
    m = rng.randrange(20)
    if m < 9:
        return rng.choice(EDGE)
    if m < 13:
        return rng.randrange(0, 300)
    if m < 16 and off:
        return (65536 * rng.choice([1, 1, 1, 2]) + rng.randrange(-70, 70)) & M32
    if m == 16:
        return (1 << rng.randrange(32)) & M32
    if m == 17:
        return (-rng.choice(EDGE)) & M32
    if m == 15:
        return rng.randrange(256, 2100)
    if m == 18:
        return rng.choice([0x7fffffff, 0x80000000, 0x80000001, 0xffffffff])
    return rng.randrange(0, 5000 if rng.random() < 0.1 else 400)


def rand_call(rng, c):
    vals = {}
    prev = []
    long = rng.random() < 0.15
    for n, k in c.params:
        if k[0] in "po" and k[1:].isdigit():
            v = rand_word(rng, int(k[1:]))
            if prev and rng.random() < 0.3:
                q = rng.choice(prev)
                if len(q) == len(v):
                    b = bytearray(q)
                    if rng.random() < 0.5:
                        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                    v = bytes(b)
            if k[0] == "o":
                v = rng.randbytes(int(k[1:]))
            else:
                prev.append(v)
                q = rng.choice([m for m, kk in c.params if kk == k])
                if rng.random() < 0.1 and q in vals and q not in vals.get("alias", {}):
                    vals.setdefault("alias", {})[n] = q
                    v = vals[q]
            vals[n] = v
        elif long and k == "i32":
            vals[n] = rng.randrange(200, 2200)
        elif k in ("i32", "i16", "i8", "eoff"):
            vals[n] = rand_i32(rng, k == "eoff" or rng.random() < 0.05) & ((1 << (32 if k == "eoff" else int(k[1:]))) - 1)
        elif k == "i64":
            vals[n] = rng.choice([0, 1, 255, 256, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, rng.getrandbits(64), rng.getrandbits(32)])
        elif k == "doff":
            vals["size." + n] = rng.choice([0, 1, 32, 64, 200])
        elif k[0] == "r":
            z = vals.setdefault("size." + k[1:], rng.choice([8, 32, 100, 300, 700, 2500]))
            vals[n] = rng.randrange(z)
        elif k[0] in "bB" and k[1:2] != "=":
            vals["size." + n] = rng.choice(EDGE)
    for n, k in c.params:
        if k[0] in "bB" and k[1:2] == "=" and not k[2:].isdigit():
            if vals.get(k[2:], 0) > 5000:
                vals[k[2:]] = rng.choice(EDGE)
    # close (overlapping) positions
    offs = [(n, k) for n, k in c.params if k == "eoff" or k[0] == "r"]
    if len(offs) > 1 and rng.random() < 0.5:
        (a, ka), (b, kb) = rng.sample(offs, 2)
        v = vals[a] + rng.choice([-1, 1]) * rng.choice([0, 1, 2, 7, 8, 15, 16, 31, 32, 33, 64, 100, 128, 255, 256, 300, 1000])
        z = vals.get("size." + kb[1:]) if kb[0] == "r" else 1 << 20
        if 0 <= v < z:
            vals[b] = v
    if c.gen:
        c.gen(rng, vals)
    return Call(c, vals)


def rand_over(rng):
    o = {}
    if rng.random() < 0.8:
        o["cdsize"] = rng.choice([0, 1, 3, 4, 5, 32, 35, 36, 68, 99, 100, 101, 102, 132, 200, 70000])
    if rng.random() < 0.6:
        o["codesize"] = rng.choice([0, 1, 31, 32, 33, 64, 100, 200, 5000, 70000])
    for k in range(3):
        if rng.random() < 0.5:
            o["rds|%x" % k] = rng.choice(EDGE)
        if rng.random() < 0.5:
            o["callret|%x" % k] = rng.choice([0, 0, 1, 2, 3, 0xffffffff])
        if rng.random() < 0.5:
            o["createret|%x" % k] = rng.choice([0, 0, 1, 2, 0xffffffff])
    for n in ("timestamp", "gaslimit", "gasleft", "blocknumber"):
        if rng.random() < 0.2:
            o[n] = rng.choice([0, 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 0xffffffff])
    if rng.random() < 0.3:
        o["callvalue"] = rng.choice([0, 1, 1 << 255, 256, 1 << 128])
    return o


def search(runner, targets, prefixes, seed, rounds, size=400, stop=1, over=rand_over):
    """random differential runs of the targets (contracts); returns the differences found"""
    rng = random.Random(seed)
    found = []
    for r in range(rounds):
        hist = []
        for _ in range(size):
            n = 0 if not prefixes or rng.random() < 0.5 else rng.choice([1, 1, 2, 3])
            calls = [rand_call(rng, rng.choice(prefixes)) for _ in range(n)]
            calls.append(rand_call(rng, rng.choice(targets)))
            hist.append((calls, rng.getrandbits(31), over(rng)))
        for (i, k, d, dump) in runner.batch(hist):
            if dump["function"] in {t.name for t in targets}:
                found.append((d, dump))
        if len(found) >= stop:
            break
    return found
