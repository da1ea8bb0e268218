"""Specification automata of the Rust text functions (src/yul2ir/utils.rs), read by vf/rsx.py (symbolically)
and vf/rs.py (on concrete inputs).

A transducer reads one character at a time; step() returns exclusive, exhaustive alternatives
(condition, next mode, registers, output).  Modes: REJ = the input is invalid and must be rejected;
DC = this property leaves the result open; FIND = a known finding (left open, reported separately).
"""
from vf.terms import C, TRUE, And, Or, Not, eq, ne, ule, ult, add, mul, ite, sub


def q(c, ch):
    return eq(c, C(ord(ch), 32))


def other(alts, mode, regs=None, outs=()):
    """complete the alternatives with everything else"""
    return alts + [(And(*[Not(a[0]) for a in alts]), mode, regs or {}, tuple(outs))]


class Comments:
    """C30: delete // to the end of the line and /* to the first */, outside string literals; keep all else"""
    consts = {ord(x) for x in "/*\n\"'\\"}
    alphabet = "/*\n\"'\\a"
    name = "comments"

    def init(self):
        return "N", {}

    def step(self, m, r, c):
        if m == "N":
            return other([(q(c, "/"), "SL", {}, ()), (q(c, '"'), 'S"', {}, (c,)), (q(c, "'"), "S'", {}, (c,))], "N", {}, (c,))
        if m == "SL":
            s = C(ord("/"), 32)
            return other([(q(c, "/"), "LINE", {}, ()), (q(c, "*"), "BLK", {}, ()), (q(c, '"'), 'S"', {}, (s, c)),
                          (q(c, "'"), "S'", {}, (s, c))], "N", {}, (s, c))
        if m == "LINE":
            return other([(q(c, "\n"), "N", {}, (c,))], "LINE")
        if m == "BLK":
            return other([(q(c, "*"), "STAR", {}, ())], "BLK")
        if m == "STAR":
            return other([(q(c, "*"), "STAR", {}, ()), (q(c, "/"), "N", {}, ())], "BLK")
        if m[0] == "S":
            return other([(q(c, "\\"), "E" + m[1], {}, (c,)), (q(c, m[1]), "N", {}, (c,))], m, {}, (c,))
        if m[0] == "E":
            return [(TRUE, "S" + m[1], {}, (c,))]

    def eof(self, m, r):
        return [(TRUE, "END", {}, (C(ord("/"), 32),) if m == "SL" else ())]

    def run(self, m, r, run):
        return None


def hexd(c):
    """(is a hex digit, value)"""
    d = And(ule(C(48, 32), c), ule(c, C(57, 32)))
    l = And(ule(C(97, 32), c), ule(c, C(102, 32)))
    u = And(ule(C(65, 32), c), ule(c, C(70, 32)))
    return Or(d, l, u), ite(d, sub(c, C(48, 32)), ite(l, sub(c, C(87, 32)), sub(c, C(55, 32))))


WSP = [9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]


class Unescape:
    """C31: the text between the quotes of a string literal -> the characters it denotes.

    \\" \\\\ \\' \\n \\r \\t \\0, \\xHH (one character), \\u{1-6 hex digits, underscores after the first} of a Unicode
    scalar value; a backslash before a line break skips that break and the blanks after it; every other
    escape is invalid.  Left open: a raw quote or carriage return (no literal contains them), a skipped
    region with a second line break or followed by other white space (reported as a warning)."""
    consts = {ord(x) for x in "\\\"'nrtxu0{}_\n\r\t "}
    alphabet = "\\nux4{}_g\n"
    name = "unescape"

    def init(self):
        return "N", {}

    def plain(self, c):
        """outside an escape"""
        return other([(q(c, "\\"), "ESC", {}, ()), (Or(q(c, '"'), q(c, "\r")), "DC", {}, ())], "N", {}, (c,))

    def step(self, m, r, c):
        if m in ("DC", "REJ", "FIND", "END"):
            return [(TRUE, m, r, ())]
        if m == "N":
            return self.plain(c)
        if m == "ESC":
            simple = {'"': '"', "n": "\n", "r": "\r", "t": "\t", "\\": "\\", "'": "'", "0": "\0"}
            return other([(q(c, k), "N", {}, (C(ord(v), 32),)) for k, v in simple.items()] +
                         [(q(c, "x"), "X1", {}, ()), (q(c, "u"), "U", {}, ()), (q(c, "\n"), "WS", {}, ())], "REJ")
        if m == "X1":
            d, v = hexd(c)
            return [(d, "X2", {"v": v}, ()), (Not(d), "REJ", {}, ())]
        if m == "X2":
            d, v = hexd(c)
            t = add(mul(r["v"], C(16, 32)), v)
            lo = ult(t, C(128, 32))
            return [(And(d, lo), "N", {}, (t,)), (And(d, Not(lo)), "FIND", {}, ()), (Not(d), "REJ", {}, ())]
        if m == "U":
            return other([(q(c, "{"), "U0", {}, ())], "REJ")
        if m == "U0":
            d, v = hexd(c)
            return [(d, "U1", {"v": v, "n": C(1, 32)}, ()), (Not(d), "REJ", {}, ())]
        if m == "U1":
            d, v = hexd(c)
            few = ult(r["n"], C(6, 32))
            ok = Or(ult(r["v"], C(0xd800, 32)), And(ule(C(0xe000, 32), r["v"]), ult(r["v"], C(0x110000, 32))))
            us, cl = q(c, "_"), q(c, "}")
            return [(us, "U1", dict(r), ()),
                    (And(cl, ok), "N", {}, (r["v"],)), (And(cl, Not(ok)), "REJ", {}, ()),
                    (And(d, few), "U1", {"v": add(mul(r["v"], C(16, 32)), v), "n": add(r["n"], C(1, 32))}, ()),
                    (And(Not(us), Not(cl), Not(And(d, few))), "REJ", {}, ())]
        if m == "WS":
            ws = [x for x in WSP if x not in (9, 10, 13, 32)] + [10]
            blank = Or(q(c, " "), q(c, "\t"), q(c, "\r"))
            dc = Or(*[eq(c, C(x, 32)) for x in ws])
            rest = And(Not(blank), Not(dc))
            return [(blank, "WS", {}, ()), (dc, "DC", {}, ())] + \
                [(And(rest, k), m2, r2, o) for k, m2, r2, o in self.plain(c)]
        raise KeyError(m)

    def eof(self, m, r):
        if m in ("N", "WS"):
            return [(TRUE, "END", {}, ())]
        return [(TRUE, m if m in ("DC", "FIND") else "REJ", {}, ())]

    def run(self, m, r, run):
        if m == "WS" and set(run.chars) <= {9, 10, 13, 32}:
            return [(run.has(10), "DC", {}, ()), (Not(run.has(10)), "WS", {}, ())]
        if m in ("DC", "REJ", "FIND"):
            return [(TRUE, m, r, ())]
        return None


def concrete(spec, text):
    """run a specification on a concrete text: (final mode, output)"""
    from vf.terms import istrue
    m, r = spec.init()
    out = []
    for ch in text:
        for cond, m2, r2, o in spec.step(m, r, C(ord(ch), 32)):
            if istrue(cond):
                m, r = m2, r2
                out += [chr(x.v) for x in o]
                break
        else:
            raise AssertionError("specification not exhaustive at %r in mode %s" % (ch, m))
    for cond, m2, r2, o in spec.eof(m, r):
        if istrue(cond):
            m = m2
            out += [chr(x.v) for x in o]
            break
    return m, "".join(out)
