"""Rust front end of the verifier: text MIR of the real source -> functions, blocks, statements.

The MIR is printed by the nightly compiler on every run (-Zunpretty=mir) from /repo's file as it is;
nothing is rewritten by hand.  parse() returns {name: Fn}.
"""
import os
import re
import subprocess
import tempfile


class Fn:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.types = {}
        self.blocks = {}
        self.cleanup = set()
        self.heads = None
        self.live = None

    def __repr__(self):
        return "Fn(%s)" % self.name


class ParseError(Exception):
    pass


OPEN, CLOSE = "([{", ")]}"


def skip_lit(s, i):
    """i at a quote: index after the literal, or i+1 for a lifetime"""
    q = s[i]
    if q == '"':
        j = i + 1
        while s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j + 1
    m = re.match(r"'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F]+\}|\\.|[^\\'])'", s[i:])
    return i + m.end() if m else i + 1


def split_top(s, sep=","):
    """split at top-level separators, respecting brackets, angle brackets and literals"""
    out, d, a, i, st = [], 0, 0, 0, 0
    while i < len(s):
        ch = s[i]
        if ch in "\"'":
            i = skip_lit(s, i)
            continue
        if s.startswith("->", i):
            i += 2
            continue
        if ch in OPEN:
            d += 1
        elif ch in CLOSE:
            d -= 1
        elif ch == "<":
            a += 1
        elif ch == ">":
            a -= 1
        elif ch == sep and d == 0 and a == 0:
            out.append(s[st:i].strip())
            st = i + 1
        i += 1
    t = s[st:].strip()
    if t:
        out.append(t)
    return out


def matching(s, i):
    """i at an opening bracket: index of its closing one"""
    d = 0
    while i < len(s):
        ch = s[i]
        if ch in "\"'":
            i = skip_lit(s, i)
            continue
        if ch in OPEN:
            d += 1
        elif ch in CLOSE:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ParseError("unbalanced: " + s[:80])


def parse_place(s):
    """-> (local, [projections])"""
    s = s.strip()
    p, rest = _place(s)
    if rest:
        raise ParseError("place: " + s)
    return p


def _place(s):
    m = re.match(r"_(\d+)", s)
    if m:
        p, s = (int(m.group(1)), ()), s[m.end():]
    elif s.startswith("("):
        e = matching(s, 0)
        inner, s = s[1:e], s[e + 1:]
        if inner.startswith("*"):
            q, r = _place(inner[1:])
            if r:
                raise ParseError("deref: " + inner)
            p = (q[0], q[1] + (("*",),))
        else:
            q, r = _place(inner)
            m = re.match(r"\.(\d+): (.*)$", r, re.S)
            if m:
                p = (q[0], q[1] + (("f", int(m.group(1)), m.group(2)),))
            elif r.startswith(" as "):
                p = (q[0], q[1] + (("v", r[4:].strip()),))
            else:
                raise ParseError("projection: " + inner)
    else:
        raise ParseError("place: " + s)
    while s.startswith("["):
        e = matching(s, 0)
        ix, s = s[1:e], s[e + 1:]
        m = re.match(r"_(\d+)$", ix)
        if m:
            p = (p[0], p[1] + (("i", int(m.group(1))),))
        elif re.match(r"(\d+) of (\d+)$", ix):
            p = (p[0], p[1] + (("ci", int(ix.split()[0])),))
        else:
            raise ParseError("index: " + ix)
    return p, s


def parse_operand(s):
    s = s.strip()
    s = re.sub(r"^no_retag ", "", s)
    for k in ("copy ", "move "):
        if s.startswith(k):
            return (k.strip(), parse_place(s[5:]))
    if s.startswith("const "):
        return ("const", s[6:])
    raise ParseError("operand: " + s)


BIN = {"Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr", "Eq", "Lt", "Le", "Ne", "Ge", "Gt",
       "AddWithOverflow", "SubWithOverflow", "MulWithOverflow", "AddUnchecked", "SubUnchecked", "MulUnchecked", "Cmp",
       "ShlUnchecked", "ShrUnchecked", "Offset"}


def parse_rvalue(s):
    s = s.strip()
    if re.match(r"(no_retag )?(copy|move) |const ", s):
        # cast?
        m = re.match(r"(.*) as (.*) \((\w+)(\(.*\))?\)$", s, re.S)
        if m and not s.startswith('const "') and balanced(m.group(1)):
            return ("cast", parse_operand(m.group(1)), m.group(2), m.group(3))
        return ("use", parse_operand(s))
    if s.startswith("&"):
        t = re.sub(r"^&(no_retag )?(mut |raw const |raw mut |fake shallow |fake )?", "", s)
        return ("ref", parse_place(t))
    if s.startswith("deref_copy "):
        return ("use", ("copy", parse_place(s[11:])))
    m = re.match(r"(\w+)\(", s)
    if m and s.endswith(")") and matching(s, m.end() - 1) == len(s) - 1:
        n, args = m.group(1), s[m.end():-1]
        if n in BIN:
            a, b = split_top(args)
            return ("bin", n, parse_operand(a), parse_operand(b))
        if n in ("Not", "Neg"):
            return ("un", n, parse_operand(args))
        if n == "discriminant":
            return ("discr", parse_place(args))
        if n == "PtrMetadata":
            return ("len", parse_operand(args))
        if n == "Len":
            return ("len", ("copy", parse_place(args)))
        if n == "CopyForDeref":
            return ("use", ("copy", parse_place(args)))
    if s.startswith("("):
        return ("agg", "()", None, [parse_operand(x) for x in split_top(s[1:-1])], None)
    if s.startswith("["):
        inner = s[1:-1]
        if ";" in inner and len(split_top(inner, ";")) == 2:
            a, n = split_top(inner, ";")
            m = re.match(r"(?:const )?(\d+)", n)
            return ("rep", parse_operand(a), int(m.group(1)))
        return ("agg", "[]", None, [parse_operand(x) for x in split_top(inner)], None)
    if s.startswith("{closure@"):
        e = matching(s, 0)
        name, rest = s[:e + 1], s[e + 1:].strip()
        ops = []
        if rest.startswith("{"):
            for f in split_top(rest[1:-1].strip()):
                ops.append(parse_operand(f.split(":", 1)[1]))
        return ("agg", name, None, ops, None)
    # ADT: Path::<..> { f: op } | Path::Variant(op) | Path::Variant
    head, rest = callee_split(s)
    path = strip_generics(head)
    segs = path.split("::")
    if rest.startswith("("):
        return ("agg", "::".join(segs[:-1]) or segs[-1], segs[-1], [parse_operand(x) for x in split_top(rest[1:-1])], None)
    if rest.startswith("{"):
        names, ops = [], []
        for f in split_top(rest[1:-1].strip()):
            k, v = f.split(":", 1)
            names.append(k.strip())
            ops.append(parse_operand(v))
        return ("agg", path, None, ops, names)
    if not rest:
        return ("agg", "::".join(segs[:-1]) or segs[-1], segs[-1], [], None)
    raise ParseError("rvalue: " + s)


def balanced(s):
    try:
        d = 0
        i = 0
        while i < len(s):
            if s[i] in "\"'":
                i = skip_lit(s, i)
                continue
            d += (s[i] in OPEN) - (s[i] in CLOSE)
            i += 1
        return d == 0
    except Exception:
        return False


def callee_split(s):
    """path part, and what follows it ('(...)', '{...}' or '')"""
    a, i = 0, 0
    while i < len(s):
        if s.startswith("->", i):
            i += 2
            continue
        ch = s[i]
        if ch == "<":
            a += 1
        elif ch == ">":
            a -= 1
        elif a == 0 and ch == "(":
            return s[:i].strip(), s[i:]
        elif a == 0 and ch == "{" and s[i - 1] in " ":
            return s[:i].strip(), s[i:]
        elif a == 0 and ch == "{":
            i = matching(s, i)
        i += 1
    return s.strip(), ""


def strip_generics(p):
    """drop generic arguments; keep a leading <T as Trait>:: as Trait::"""
    m = re.match(r"<", p)
    if m:
        d, i = 0, 0
        while i < len(p):
            if p.startswith("->", i):
                i += 2
                continue
            d += (p[i] == "<") - (p[i] == ">")
            if d == 0:
                break
            i += 1
        inner, rest = p[1:i], p[i + 1:]
        parts = split_as(inner)
        return strip_generics(parts[1] if len(parts) > 1 else parts[0]) + strip_generics(rest)
    out, d, i = "", 0, 0
    while i < len(p):
        if p.startswith("->", i):
            i += 2
            continue
        if p[i] == "<":
            d += 1
        elif p[i] == ">":
            d -= 1
        elif d == 0:
            out += p[i]
        i += 1
    return re.sub(r"::(::)+", "::", out).rstrip(":") if out != "::" else out


def split_as(s):
    d, i = 0, 0
    while i < len(s):
        if s.startswith("->", i):
            i += 2
            continue
        d += (s[i] in "<([") - (s[i] in ">)]")
        if d == 0 and s.startswith(" as ", i):
            return [s[:i], s[i + 4:]]
        i += 1
    return [s]


def parse_stmt(s):
    if s in ("return", "unreachable", "resume", "nop") or s.startswith("terminate") or s.startswith("abort"):
        return (s.split("(")[0],)
    m = re.match(r"goto -> (bb\d+)$", s)
    if m:
        return ("goto", m.group(1))
    m = re.match(r"switchInt\((.*)\) -> \[(.*)\]$", s, re.S)
    if m:
        tg = []
        for t in m.group(2).split(","):
            k, b = t.strip().split(": ")
            tg.append((None if k == "otherwise" else int(k), b))
        return ("switch", parse_operand(m.group(1)), tg)
    m = re.match(r"drop\((.*)\) -> \[return: (bb\d+)", s, re.S)
    if m:
        return ("goto", m.group(2))
    m = re.match(r"assert\((.*)\) -> \[success: (bb\d+)", s, re.S)
    if m:
        args = split_top(m.group(1))
        neg = args[0].startswith("!")
        return ("assert", parse_operand(args[0].lstrip("!")), neg, args[1], m.group(2))
    if re.match(r"(StorageLive|StorageDead|FakeRead|PlaceMention|Retag|AscribeUserType|Coverage|ConstEvalCounter|BackwardIncompatibleDropHint)\b", s):
        return ("nop",)
    m = re.match(r"discriminant\((.*)\) = (\d+)$", s)
    if m:
        return ("setdiscr", parse_place(m.group(1)), int(m.group(2)))
    i = find_eq(s)
    dst, rv = s[:i].strip(), s[i + 1:].strip()
    m = re.search(r" -> (\[return: (bb\d+).*\]|unwind .*|bb\d+)$", rv)
    if m:
        head, rest = callee_split(rv[:m.start()])
        return ("call", parse_place(dst), head, [parse_operand(x) for x in split_top(rest[1:-1])], m.group(2))
    return ("assign", parse_place(dst), parse_rvalue(rv))


def find_eq(s):
    d = 0
    for i, ch in enumerate(s):
        d += (ch in OPEN) - (ch in CLOSE)
        if ch == "=" and d == 0:
            return i
    raise ParseError("statement: " + s)


def parse(text):
    fns, allocs = {}, {}
    f, bb, buf = None, None, ""
    for line in text.split("\n"):
        if f is None:
            m = re.match(r"fn (.*) \{$", line)
            c = re.match(r"(?:const|static(?: mut)?) (.*?): (.*) = \{$", line)
            if m:
                sig = m.group(1)
                # the parameter list starts at the '(' followed by _1: or )
                k = re.search(r"\((_1: |\) ->)", sig)
                if not k:
                    continue
                name = sig[:k.start()]
                e = matching(sig, k.start())
                params = []
                for p in split_top(sig[k.start() + 1:e]):
                    n, t = p.split(": ", 1)
                    params.append((int(n[1:]), t))
                ret = sig[e + 1:].replace("->", "", 1).strip()
                f = Fn(name, params, ret)
                f.types.update(params)
                f.types[0] = ret
            elif c:
                f = Fn(c.group(1), [], c.group(2))
                f.types[0] = c.group(2)
            continue
        if line == "}":
            fns.setdefault(f.name, f) if f.name not in fns else fns.__setitem__(f.name + "#%d" % len(fns), f)
            f, bb = None, None
            continue
        m = re.match(r"\s*let (?:mut )?_(\d+): (.*);$", line)
        if m and bb is None:
            f.types[int(m.group(1))] = m.group(2)
            continue
        m = re.match(r"    (bb\d+)( \(cleanup\))?: \{$", line)
        if m:
            bb = m.group(1)
            f.blocks[bb] = []
            if m.group(2):
                f.cleanup.add(bb)
            continue
        if bb and re.match(r"    \}$", line):
            bb = None
            continue
        if bb is not None:
            buf += (" " if buf else "") + line.strip()
            if buf.endswith(";"):
                if bb not in f.cleanup:
                    try:
                        f.blocks[bb].append(parse_stmt(buf[:-1]))
                    except ParseError as e:
                        f.blocks[bb].append(("bad", str(e)))
                    except Exception as e:
                        f.blocks[bb].append(("bad", "%r in %s" % (e, buf[:120])))
                buf = ""
    return fns


def succs(f, bb):
    st = f.blocks[bb]
    if not st:
        return []
    t = st[-1]
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "switch":
        return [b for _, b in t[2]]
    if t[0] == "assert":
        return [t[4]]
    if t[0] == "call":
        return [t[4]] if t[4] else []
    return []


def heads(f):
    """targets of back edges (depth-first)"""
    if f.heads is not None:
        return f.heads
    h, state = set(), {}
    stack = [("bb0", iter(succs(f, "bb0")))]
    state["bb0"] = 1
    while stack:
        b, it = stack[-1]
        for n in it:
            if state.get(n) == 1:
                h.add(n)
            elif n not in state:
                state[n] = 1
                stack.append((n, iter(succs(f, n))))
                break
        else:
            state[b] = 2
            stack.pop()
    f.heads = h
    return h


def place_uses(p, out):
    out.add(p[0])
    for q in p[1]:
        if q[0] == "i":
            out.add(q[1])


def op_uses(o, out):
    if o[0] != "const":
        place_uses(o[1], out)


def rv_uses(r, out):
    k = r[0]
    if k in ("use", "len"):
        op_uses(r[1], out)
    elif k == "cast":
        op_uses(r[1], out)
    elif k in ("ref", "discr"):
        place_uses(r[1], out)
    elif k == "bin":
        op_uses(r[2], out)
        op_uses(r[3], out)
    elif k == "un":
        op_uses(r[2], out)
    elif k == "agg":
        for o in r[3]:
            op_uses(o, out)
    elif k == "rep":
        op_uses(r[1], out)


def liveness(f):
    """live locals at each block entry"""
    if f.live is not None:
        return f.live
    live = {b: set() for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(list(f.blocks)):
            l = set()
            for s in succs(f, b):
                l |= live.get(s, set())
            for st in reversed(f.blocks[b]):
                k = st[0]
                if k in ("assign", "call"):
                    d = st[1]
                    if not d[1]:
                        l.discard(d[0])
                    else:
                        place_uses(d, l)
                    if k == "assign":
                        rv_uses(st[2], l)
                    else:
                        for o in st[3]:
                            op_uses(o, l)
                elif k in ("switch", "assert"):
                    op_uses(st[1], l)
                elif k == "return":
                    l.add(0)
                elif k == "setdiscr":
                    place_uses(st[1], l)
            if l != live[b]:
                live[b] = l
                ch = True
    f.live = live
    return live


def emit(src, args=()):
    """MIR text of a source file (compiled alone)"""
    with tempfile.TemporaryDirectory(prefix="verif.") as d:
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "unit",
                            "-Zunpretty=mir", "-Copt-level=0", "-Awarnings"] + list(args) + [src],
                           cwd=d, capture_output=True, text=True, timeout=300)
    if r.returncode:
        raise ParseError("rustc: " + r.stderr[-1500:])
    return r.stdout


def enums(src_text):
    """variant order of the enums declared in the source (explicit discriminants refused)"""
    out = {}
    txt = re.sub(r"//[^\n]*", "", src_text)
    for m in re.finditer(r"\benum\s+(\w+)[^{;]*\{", txt):
        e = matching(txt, m.end() - 1)
        vs = []
        for v in split_top(txt[m.end():e]):
            v = re.sub(r"#\[[^\]]*\]", "", v).strip()
            if not v:
                continue
            if "=" in re.sub(r"\(.*|\{.*", "", v, flags=re.S):
                vs = None
                break
            vs.append(re.match(r"\w+", v).group(0))
        if vs is not None:
            out[m.group(1)] = vs
    return out


if __name__ == "__main__":
    import sys
    fs = parse(emit(sys.argv[1]))
    for n, f in fs.items():
        bad = [s for b in f.blocks.values() for s in b if s[0] == "bad"]
        print(n, len(f.blocks), heads(f) if "bb0" in f.blocks else "", bad[:3])
