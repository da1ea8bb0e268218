"""Parser for the subset of textual LLVM IR that clang emits for this code base."""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
  (?P<ws>\s+|;[^\n]*)
 |(?P<cstr>c"[^"]*")
 |(?P<str>"[^"]*")
 |(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 |(?P<hex>0x[0-9A-Fa-f]+)
 |(?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 |(?P<dots>\.\.\.)
 |(?P<p><\{|\}>|[\[\](){}<>,=:*|])
''', re.X)


def tokens(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("tokenize: %r" % s[i:i + 40])
        i = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        out.append((k, m.group()))
    return out


def _name(x):
    x = x[1:]
    if x.startswith('"'):
        x = x[1:-1]
    return x


# types: ('i', n) | ('ptr',) | ('void',) | ('arr', n, T) | ('st', packed, [T])
class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise Unsupported("expected %r got %r in %r" % (s, self.peek(), " ".join(x[1] for x in self.t)))

    def type(self):
        k, x = self.next()
        if k == "word" and re.fullmatch(r"i\d+", x):
            t = ("i", int(x[1:]))
        elif x == "ptr":
            if self.eat("addrspace"):
                raise Unsupported("addrspace")
            t = ("ptr",)
        elif x == "void":
            t = ("void",)
        elif x == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = ("arr", n, e)
        elif x in ("{", "<{"):
            packed = x == "<{"
            close = "}>" if packed else "}"
            fs = []
            if not self.eat(close):
                while True:
                    fs.append(self.type())
                    if self.eat(close):
                        break
                    self.expect(",")
            t = ("st", packed, tuple(fs))
        elif k == "loc":
            t = self.mod.types.get(_name(x))
            if t is None:
                raise Unsupported("type " + x)
        elif x in ("metadata", "label", "double", "float"):
            t = (x,)
        else:
            raise Unsupported("type %r" % x)
        while self.peek() == "*":
            self.next()
            t = ("ptr",)
        return t

    def value(self, ty):
        k, x = self.next()
        if k == "loc":
            return ("loc", _name(x))
        if k == "glob":
            return ("glob", _name(x))
        if k == "num":
            return ("int", int(x))
        if x in ("true", "false"):
            return ("int", 1 if x == "true" else 0)
        if x in ("null", "zeroinitializer"):
            return ("zero",)
        if x in ("undef", "poison"):
            return ("undef",)
        if k == "cstr":
            return ("bytes", _cstr(x[2:-1]))
        if x in ("[", "{", "<{", "<"):
            close = {"[": "]", "{": "}", "<{": "}>", "<": ">"}[x]
            vs = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    vs.append((t, self.value(t)))
                    if self.eat(close):
                        break
                    self.expect(",")
            return ("agg", vs)
        if x == "getelementptr":
            self.eat("inbounds")
            self.expect("(")
            bt = self.type()
            ops = []
            while self.eat(","):
                self.eat("inrange")
                t = self.type()
                ops.append((t, self.value(t)))
            self.expect(")")
            return ("cgep", bt, ops)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            t2 = self.type()
            self.expect(")")
            return ("ccast", x, t, v, t2)
        if x in ("add", "sub", "mul", "xor", "and", "or", "shl"):
            while self.peek() in ("nsw", "nuw"):
                self.next()
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect(",")
            t2 = self.type()
            v2 = self.value(t2)
            self.expect(")")
            return ("cbin", x, t, v, v2)
        raise Unsupported("value %r" % x)


def _cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.extend(s[i].encode())
            i += 1
    return bytes(out)


class Instr:
    __slots__ = ("op", "res", "ty", "a", "line")

    def __init__(self, op, res=None, ty=None, **a):
        self.op, self.res, self.ty, self.a = op, res, ty, a
        self.line = None

    def __repr__(self):
        return "%s=%s %s %s" % (self.res, self.op, self.ty, self.a)


class Func:
    def __init__(self, name, ret, params, attrs):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.internal = "internal" in attrs


class Global:
    def __init__(self, name, ty, init, const, internal):
        self.name, self.ty, self.init, self.const, self.internal = name, ty, init, const, internal


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.module_of = {}

    def merge(self, other, tag):
        """link: internal symbols get a unique name when they clash"""
        ren = {}
        for n, g in other.globals.items():
            if n in self.globals or n in self.funcs:
                ren[n] = "%s!%s" % (n, tag)
        for n, f in other.funcs.items():
            if n in self.funcs and f.internal:
                ren[n] = "%s!%s" % (n, tag)
        for n, g in other.globals.items():
            g.name = ren.get(n, n)
            g.init = _ren_val(g.init, ren)
            self.globals[g.name] = g
            self.module_of[g.name] = tag
        for n, f in other.funcs.items():
            f.name = ren.get(n, n)
            if ren:
                for b in f.blocks.values():
                    for ins in b:
                        ins.a = _ren_any(ins.a, ren)
            self.funcs[f.name] = f
            self.module_of[f.name] = tag
        for n, d in other.decls.items():
            self.decls.setdefault(n, d)
        self.types.update(other.types)


def _ren_val(v, ren):
    return _ren_any(v, ren)


def _ren_any(x, ren):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "glob":
            return ("glob", ren.get(x[1], x[1]))
        return tuple(_ren_any(y, ren) for y in x)
    if isinstance(x, list):
        return [_ren_any(y, ren) for y in x]
    if isinstance(x, dict):
        return {k: _ren_any(y, ren) for k, y in x.items()}
    return x


PATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "signext", "zeroext",
          "returned", "immarg", "dereferenceable", "readnone", "inreg", "nofree", "noext", "allocptr"}


def _skip_attrs(p):
    """skip parameter/return attributes; return byval type if present"""
    byval = None
    while True:
        x = p.peek()
        if x in PATTRS:
            p.next()
            if p.peek() == "(" and x in ("dereferenceable",):
                while p.next()[1] != ")":
                    pass
        elif x == "align":
            p.next()
            if p.eat("("):
                p.next(); p.expect(")")
            else:
                p.next()
        elif x in ("byval", "sret", "byref", "elementtype", "preallocated"):
            p.next()
            p.expect("(")
            t = p.type()
            p.expect(")")
            if x == "byval":
                byval = t
        elif x == "dereferenceable_or_null" or x == "range" or x == "captures":
            p.next()
            d = 0
            while True:
                y = p.next()[1]
                d += y == "("
                d -= y == ")"
                if d == 0:
                    break
        else:
            return byval


LINK = {"private", "internal", "external", "hidden", "protected", "default", "dso_local", "weak", "weak_odr",
        "linkonce", "linkonce_odr", "common", "appending", "available_externally", "extern_weak",
        "unnamed_addr", "local_unnamed_addr", "thread_local", "externally_initialized", "dllimport", "dllexport"}
CC = {"fastcc", "ccc", "coldcc", "tail", "musttail", "notail"}


def parse(text):
    m = Module()
    lines = text.split("\n")
    # pass 1: types
    for ln in lines:
        mm = re.match(r'^(%[^ ]+) = type (.*)$', ln)
        if mm and not mm.group(2).startswith("opaque"):
            m.types[_name(mm.group(1))] = P(tokens(mm.group(2)), m).type()
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith("@"):
            _global(m, ln)
        elif ln.startswith("define"):
            j = i + 1
            while lines[j] != "}":
                j += 1
            _func(m, ln, lines[i + 1:j])
            i = j
        elif ln.startswith("declare"):
            f, _ = _sig(m, ln[len("declare"):])
            m.decls[f.name] = f
        i += 1
    return m


def _global(m, ln):
    p = P(tokens(ln), m)
    name = _name(p.next()[1])
    p.expect("=")
    internal = False
    ext = False
    while p.peek() not in ("global", "constant"):
        x = p.next()[1]
        internal |= x in ("internal", "private")
        ext |= x == "external"
        if x == "alias":
            raise Unsupported("alias")
        if x == "addrspace":
            raise Unsupported("addrspace")
    const = p.next()[1] == "constant"
    ty = p.type()
    init = None
    if not ext and p.peek() is not None and p.peek() != ",":
        init = p.value(ty)
    m.globals[name] = Global(name, ty, init, const, internal)


def _sig(m, s):
    p = P(tokens(s), m)
    attrs = set()
    while True:
        x = p.peek()
        if x in LINK or x in CC:
            attrs.add(x)
            p.next()
        else:
            break
    _skip_attrs(p)
    ret = p.type()
    name = _name(p.next()[1])
    p.expect("(")
    params = []
    if not p.eat(")"):
        k = 0
        while True:
            if p.eat("..."):
                params.append(("...", None, None))
            else:
                t = p.type()
                bv = _skip_attrs(p)
                pn = None
                if p.kind() == "loc":
                    pn = _name(p.next()[1])
                else:
                    pn = str(k)
                params.append((pn, t, bv))
            k += 1
            if p.eat(")"):
                break
            p.expect(",")
    return Func(name, ret, params, attrs), p


def _func(m, head, body):
    f, _ = _sig(m, head[len("define"):])
    cur = None
    # number of implicit entry label
    unn = sum(1 for n, t, b in f.params if n is not None and n.isdigit())
    pend = ""
    first = True
    for ln in body:
        if not ln.strip() or ln.strip().startswith(";"):
            continue
        mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
        if mm:
            cur = mm.group(1).strip('"')
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
            continue
        if first:
            cur = str(unn)
            f.blocks[cur] = []
            f.order.append(cur)
            first = False
        s = ln.strip()
        if pend:
            s = pend + " " + s
            pend = ""
        if s.startswith("switch") and "]" not in s:
            pend = s
            continue
        ins = _instr(m, s)
        if ins is not None:
            ins.line = s
            f.blocks[cur].append(ins)
    m.funcs[f.name] = f


BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
CAST = {"zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"}


def _instr(m, s):
    p = P(tokens(s), m)
    res = None
    if p.kind() == "loc" and p.peek(1) == "=":
        res = _name(p.next()[1])
        p.next()
    op = p.next()[1]
    while op in ("tail", "musttail", "notail"):
        op = p.next()[1]
    if op == "ret":
        t = p.type()
        v = None if t == ("void",) else p.value(t)
        return Instr("ret", None, t, v=v)
    if op == "br":
        if p.eat("label"):
            return Instr("br", a1=None, dst=[_name(p.next()[1])], cond=None)
        p.type()
        c = p.value(("i", 1))
        p.expect(","); p.expect("label")
        d1 = _name(p.next()[1])
        p.expect(","); p.expect("label")
        d2 = _name(p.next()[1])
        return Instr("br", cond=c, dst=[d1, d2])
    if op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(","); p.expect("label")
        d = _name(p.next()[1])
        p.expect("[")
        cases = []
        while not p.eat("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(","); p.expect("label")
            cases.append((cv, _name(p.next()[1])))
        return Instr("switch", None, t, v=v, default=d, cases=cases, dst=[d] + [c[1] for c in cases])
    if op == "unreachable":
        return Instr("unreachable")
    if op == "alloca":
        p.eat("inalloca")
        t = p.type()
        n = None
        if p.eat(","):
            if p.peek() != "align":
                nt = p.type()
                n = p.value(nt)
        return Instr("alloca", res, t, n=n)
    if op == "load":
        p.eat("volatile")
        if p.peek() == "atomic":
            raise Unsupported("atomic")
        t = p.type()
        p.expect(",")
        pt = p.type()
        return Instr("load", res, t, p=p.value(pt))
    if op == "store":
        p.eat("volatile")
        t = p.type()
        v = p.value(t)
        p.expect(",")
        pt = p.type()
        return Instr("store", None, t, v=v, p=p.value(pt))
    if op == "getelementptr":
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        bt = p.type()
        ops = []
        while p.eat(","):
            if p.kind() == "meta":
                break
            t = p.type()
            ops.append((t, p.value(t)))
        return Instr("gep", res, bt, ops=ops)
    if op in BIN:
        fl = set()
        while p.peek() in ("nsw", "nuw", "exact", "disjoint"):
            fl.add(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Instr(op, res, t, x=a, y=b, flags=fl)
    if op in CAST:
        while p.peek() in ("nneg", "nsw", "nuw"):
            p.next()
        t = p.type()
        v = p.value(t)
        p.expect("to")
        return Instr(op, res, p.type(), src=t, v=v)
    if op == "icmp":
        pred = p.next()[1]
        if pred == "samesign":
            pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(",")
        return Instr("icmp", res, t, pred=pred, x=a, y=p.value(t))
    if op == "phi":
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            b = _name(p.next()[1])
            p.expect("]")
            inc.append((v, b))
            if not p.eat(",") or p.kind() == "meta":
                break
        return Instr("phi", res, t, inc=inc)
    if op == "select":
        p.type()
        c = p.value(("i", 1))
        p.expect(",")
        t = p.type()
        a = p.value(t)
        p.expect(",")
        p.type()
        return Instr("select", res, t, c=c, x=a, y=p.value(t))
    if op == "freeze":
        t = p.type()
        return Instr("freeze", res, t, v=p.value(t))
    if op == "extractvalue":
        t = p.type()
        v = p.value(t)
        ix = []
        while p.eat(","):
            if p.kind() != "num":
                break
            ix.append(int(p.next()[1]))
        return Instr("extractvalue", res, t, v=v, ix=ix)
    if op == "insertvalue":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        et = p.type()
        ev = p.value(et)
        ix = []
        while p.eat(","):
            if p.kind() != "num":
                break
            ix.append(int(p.next()[1]))
        return Instr("insertvalue", res, t, v=v, ev=ev, et=et, ix=ix)
    if op == "call":
        while p.peek() in CC or p.peek() in ("fast", "nsz"):
            p.next()
        _skip_attrs(p)
        rt = p.type()
        if p.peek() == "(":  # function type
            d = 0
            while True:
                y = p.next()[1]
                d += y == "("
                d -= y == ")"
                if d == 0:
                    break
        if p.peek() == "asm":
            raise Unsupported("inline asm")
        callee = p.value(("ptr",))
        p.expect("(")
        args = []
        if callee[0] == "glob" and callee[1].startswith("llvm.dbg."):
            return None
        if not p.eat(")"):
            while True:
                t = p.type()
                bv = _skip_attrs(p)
                args.append((t, p.value(t), bv))
                if p.eat(")"):
                    break
                p.expect(",")
        return Instr("call", res, rt, f=callee, args=args)
    raise Unsupported("instruction %r" % op)


# ------------------------------------------------------------ layout (wasm32)
def align(t):
    k = t[0]
    if k == "i":
        n = t[1]
        if n <= 8:
            return 1
        if n <= 16:
            return 2
        if n <= 32:
            return 4
        return 8
    if k == "ptr":
        return 4
    if k == "arr":
        return align(t[2])
    if k == "st":
        return 1 if t[1] else max([align(x) for x in t[2]] or [1])
    raise Unsupported("align %r" % (t,))


def size(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        a = align(t)
        return (n + a - 1) // a * a
    if k == "ptr":
        return 4
    if k == "arr":
        return t[1] * size(t[2])
    if k == "st":
        off = 0
        for x in t[2]:
            if not t[1]:
                a = align(x)
                off = (off + a - 1) // a * a
            off += size(x)
        if not t[1]:
            a = align(t)
            off = (off + a - 1) // a * a
        return off
    raise Unsupported("size %r" % (t,))


def field_off(t, i):
    off = 0
    for j, x in enumerate(t[2]):
        if not t[1]:
            a = align(x)
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += size(x)
    raise Unsupported("field")


def width(t):
    if t[0] == "i":
        return t[1]
    if t[0] == "ptr":
        return 32
    raise Unsupported("width %r" % (t,))


# ---------------------------------------------------------------- static structs
def split_structs(m):
    """a static struct whose fields are only ever accessed one by one is the same as one static per field
    (accesses stay inside a field: that is an obligation of its own)"""
    cand = {n: g for n, g in m.globals.items() if not g.const and g.ty[0] == "st" and g.internal and
            (g.init is None or g.init[0] in ("zero", "undef", "agg"))}
    if not cand:
        return
    bad = set()

    def part(n, k):
        return ("glob", "%s.%d" % (n, k))

    def gep(bt, ops):
        """(global, field, remaining ops) of a constant path into a candidate"""
        b = ops[0][1]
        if b[0] != "glob" or b[1] not in cand or len(ops) < 2 or ops[1][1] not in (("int", 0), ("zero",)):
            return None
        st = cand[b[1]].ty
        if bt == st:
            if len(ops) < 3 or ops[2][1][0] not in ("int", "zero"):
                return None
            k = ops[2][1][1] if ops[2][1][0] == "int" else 0
            return b[1], k, st[2][k], ops[3:]
        if bt == st[2][0] and bt[0] in ("arr", "st"):
            return b[1], 0, bt, ops[2:]
        return None

    def rw(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == "glob" and x[1] in cand:
                bad.add(x[1])
                return x
            if len(x) == 3 and x[0] == "cgep":
                r = gep(x[1], x[2])
                if r:
                    n, k, ft, rest = r
                    rest = [(t, rw(v)) for t, v in rest]
                    return part(n, k) if not rest else ("cgep", ft, [(("ptr",), part(n, k)), (("i", 32), ("int", 0))] + rest)
            return tuple(rw(y) for y in x)
        if isinstance(x, list):
            return [rw(y) for y in x]
        if isinstance(x, dict):
            return {k: rw(y) for k, y in x.items()}
        return x

    def ins(i):
        if i.op in ("load", "store") and i.a["p"][0] == "glob" and i.a["p"][1] in cand:
            n = i.a["p"][1]
            if cand[n].ty[2] and i.ty == cand[n].ty[2][0]:
                d = dict(i.a, p=part(n, 0))
                if i.op == "store":
                    d["v"] = rw(d["v"])
                return d
        if i.op == "gep":
            r = gep(i.ty, i.a["ops"])
            if r:
                n, k, ft, rest = r
                return (ft, [(("ptr",), part(n, k)), (("i", 32), ("int", 0))] + [(t, rw(v)) for t, v in rest])
        return rw(i.a)
    new = {}
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b:
                new[id(i)] = ins(i)
    for g in m.globals.values():
        rw(g.init)
    for n in bad:
        del cand[n]
    if not cand:
        return
    bad = set()
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b:
                r = ins(i)
                if isinstance(r, tuple):
                    i.ty, i.a = r[0], {"ops": r[1]}
                else:
                    i.a = r
    for n, g in cand.items():
        del m.globals[n]
        for k, t in enumerate(g.ty[2]):
            init = g.init[1][k][1] if g.init is not None and g.init[0] == "agg" else \
                (("int", 0) if t[0] == "i" else ("zero",)) if g.init is not None and g.init[0] == "zero" else g.init
            h = Global("%s.%d" % (n, k), t, init, False, g.internal)
            m.globals[h.name] = h
            if n in m.module_of:
                m.module_of[h.name] = m.module_of[n]
