"""chain_math.c and the word encoders of chain.c: 256-bit arithmetic on big-endian words."""
from vf.spec import *
from vf.terms import *

M = "chain_math"


def sbit(x):
    return eq(extract(255, 255, x), C(1, 1))


@fn("wrapper_bytes32_lt", "C01", "a:p32 b:p32", module=M)
def _(w, a, b):
    w.ret(b2i(ult(w.be(a), w.be(b))))


@fn("wrapper_bytes32_gt", "C01", "a:p32 b:p32", module=M)
def _(w, a, b):
    w.ret(b2i(ult(w.be(b), w.be(a))))


@fn("wrapper_bytes32_eq", "C01", "a:p32 b:p32", module=M)
def _(w, a, b):
    w.ret(b2i(eq(w.be(a), w.be(b))))


@fn("wrapper_bytes32_slt", "C01", "a:p32 b:p32", module=M)
def _(w, a, b):
    w.ret(b2i(slt(w.be(a), w.be(b))))


@fn("wrapper_bytes32_sgt", "C01", "a:p32 b:p32", module=M)
def _(w, a, b):
    w.ret(b2i(slt(w.be(b), w.be(a))))


@fn("wrapper_bytes32_iszero", "C01", "a:p32", module=M)
def _(w, a):
    w.ret(b2i(eq(w.be(a), C(0, 256))))


@fn("wrapper_bytes32_not", "C02", "a:p32 result:o32", module=M)
def _(w, a, r):
    w.wr_be(r, bnot(w.be(a)))
    w.ret()


for _n, _f in (("and", band), ("or", bor), ("xor", bxor), ("add", add)):
    def _mk(f):
        def sp(w, a, b, r):
            w.wr_be(r, f(w.be(a), w.be(b)))
            w.ret()
        return sp
    fn("wrapper_bytes32_" + _n, "C02", "a:p32 b:p32 result:o32", module=M)(_mk(_f))


# ------------------------------------------------------------------ shifts
def shift_cases(pname, ix):
    def cases():
        out = [("amount <= 0", {}, lambda *a: sle(a[ix], C(0, 32)))]
        for k in range(1, 256):
            out.append(("amount %d" % k, {pname: C(k, 32)}, lambda *a, k=k: eq(a[ix], C(k, 32))))
        out.append(("amount >= 256", {}, lambda *a: sle(C(256, 32), a[ix])))
        return out
    return cases


def shifted(v, n, f):
    """EVM shift by a non-negative 32-bit amount; a non-positive amount leaves the value unchanged"""
    wide = zext(n, 256)
    return ite(sle(n, C(0, 32)), v, ite(sle(C(256, 32), n), C(0, 256), f(v, wide)))


@fn("wrapper_bytes32_shl", "C03", "value:p32 shift:i32 result:o32", module=M, cases=shift_cases("shift", 1),
    decreases=lambda v, s, r: s)
def _(w, v, s, r):
    w.wr_be(r, shifted(w.be(v), s, shl))
    w.ret()


@fn("wrapper_bytes32_shr", "C03", "value:p32 shift:i32 result:o32", module=M, cases=shift_cases("shift", 1))
def _(w, v, s, r):
    w.wr_be(r, shifted(w.be(v), s, lshr))
    w.ret()


@fn("wrapper_u256_shl", "C03", "value:p32 shift:i32 result:o32", module=M)
def _(w, v, s, r):
    w.wr_le(r, shifted(w.le(v), s, shl))
    w.ret()


@fn("wrapper_u256_shr", "C03", "value:p32 shift:i32 result:o32", module=M)
def _(w, v, s, r):
    w.wr_le(r, shifted(w.le(v), s, lshr))
    w.ret()
