"""chain.c: the runtime functions compiled code calls, one contract per function."""
from vf.spec import *
from vf.terms import *
from vf.execu import Outcome, Buf, tobytes
from vf.host import do_call, do_create, do_keccak

Z32 = C(0, 32)
Z256 = C(0, 256)


# ------------------------------------------------------------------ C06 word encoding
@fn("u256_from_big_endian_bytes", "C06", "memory_ptr:p32 result:o32")
def _(w, p, r):
    w.wr_le(r, w.be(p))
    w.ret()


@fn("u256_to_big_endian_bytes", "C06", "value:p32 memory_ptr:o32")
def _(w, v, p):
    w.wr_be(p, w.le(v))
    w.ret()


@fn("i32_to_bytes32_big_endian_bytes", "C06", "value:i32 memory_ptr:o32")
def _(w, v, p):
    w.wr_be(p, zext(v, 256))
    w.ret()


@fn("i32_from_big_endian_bytes32", "C06", "value:p32")
def _(w, p):
    w.ret(trunc(w.be(p), 32))


@fn("wrapper_decode_big_endian_i256_from_wasm_mem", "C06", "wasm_mem:p32 result:o32")
def _(w, p, r):
    w.wr_le(r, w.be(p))
    w.ret()


@fn("wrapper_zero_bytes32", "C06", "")
def _(w):
    # a readable all-zero word that nothing else may change; compared through the returned address
    w.ret_word(Z256)


# ------------------------------------------------------------------ C04 / C05 arithmetic
def signext(k, v):
    """EVM signextend for a constant byte number"""
    n = 8 * (k + 1)
    return sext(trunc(v, n), 256)


def _sx_cases():
    out = [("byte %d" % k, {"bits": C(k, 32)}, lambda *a, k=k: eq(a[0], C(k, 32))) for k in range(31)]
    out.append(("byte >= 31", {}, lambda *a: ule(C(31, 32), a[0])))
    return out


@fn("wrapper_sign_extend", "C04", "bits:i32 value_ptr:p32 result:o32", cases=_sx_cases)
def _(w, b, v, r):
    x = w.le(v)
    y = x
    for k in range(31):
        y = ite(eq(b, C(k, 32)), signext(k, x), y)
    w.wr_le(r, y)
    w.ret()


@fn("wrapper_exp", "C05", "base_ptr:p32 exp_ptr:p32 result:o32")
def _(w, b, e, r):
    w.wr_le(r, w.power(w.le(b), w.le(e)))
    w.ret()


# ------------------------------------------------------------------ C07 EVM memory words
def _mstore(name, params, val):
    @fn(name, "C07", "evm_mem:eoff " + params, req=lambda w, p, v: [rng("word", p, 32)])
    def _(w, p, v):
        x = val(w, v)
        w.touch(add(p, C(32, 32)))
        w.wr_be(w.ea(p), x)
        w.ret()


_mstore("wrapper_mstore_bytes32", "value_ptr:p32", lambda w, v: w.be(v))
_mstore("wrapper_mstore_u256", "value_ptr:p32", lambda w, v: w.le(v))
_mstore("wrapper_mstore_u32", "value:i32", lambda w, v: zext(v, 256))
_mstore("wrapper_mstore_u64", "value:i64", lambda w, v: zext(v, 256))


@fn("wrapper_mstore_u8", "C07", "evm_mem:eoff value:i8", req=lambda w, p, v: [rng("word", p, 32)])
def _(w, p, v):
    w.touch(add(p, C(1, 32)), allow=add(p, C(32, 32)))
    w.wr(w.ea(p), [v])
    w.ret()


def _mload_req(w, p, *a):
    return [rng("word", p, 32)]


@fn("wrapper_mload_u256", "C07", "evm_mem:eoff result:o32", req=_mload_req)
def _(w, p, r):
    w.wr_le(r, w.eword(p))
    w.ret()


@fn("wrapper_mload_bytes32", "C07", "evm_mem:eoff result:o32", req=_mload_req)
def _(w, p, r):
    w.wr_be(r, w.eword(p))
    w.ret()


@fn("wrapper_mload_u32", "C07", "evm_mem:eoff", req=_mload_req)
def _(w, p):
    w.ret(trunc(w.eword(p), 32))


@fn("wrapper_mload_u64", "C07", "evm_mem:eoff", req=_mload_req)
def _(w, p):
    w.ret(trunc(w.eword(p), 64))


# ------------------------------------------------------------------ C08 copies inside memory
@fn("wrapper_mcopy", "C08", "evm_dst:eoff evm_src:eoff size:i32",
    req=lambda w, d, s, n: [rng("destination", d, n), rng("source", s, n)])
def _(w, d, s, n):
    w.touch(end(d, n), allow=add(d, n))
    b = w.eread(s, n)
    w.fill(w.ea(d), n, b.fn)
    w.ret()


@fn("wrapper_data_copy", "C08", "dst_evm:eoff src_evm:doff len:i32",
    req=lambda w, d, s, n: [rng("destination", d, n), ("source inside the data segment", w.inside(s, n))])
def _(w, d, s, n):
    w.touch(end(d, n), allow=add(d, n))
    b = w.buf(w.ea(s), n)
    w.fill(w.ea(d), n, b.fn)
    w.ret()


# ------------------------------------------------------------------ C09 growth (callers' view)
def _grow(w, n):
    w.touch(n)
    w.ret(w.E)


_GREQ = lambda w, n: [("size below 2^31", ule(n, C(LIM, 32)))]
fn("evm_make_sure_memory", "C09", "size:i32", req=_GREQ, soft=True, any_layout=True)(_grow)
# (findings F4, F5: the bytes gained by growing are the EVM's own only if the window is the last thing in memory)
fn("evm_make_sure_memory", "C09", "size:i32", req=_GREQ, soft=True, variant="finding")(_grow)


@fn("evm_get_memory_addr", "C09", "offset:i32", soft=True)
def _(w, o):
    w.ret(w.ea(o))


@fn("__init_evm_heap", "C09", "try_new_wasm_page_as_evm_heap_bool:i32", variant="again", soft=True)
def _(w, x):
    # a second initialisation keeps the memory
    w.ret()


@fn("wrapper_memory_guard", "C09", "size:i32", req=lambda w, n: [("size below 2^31", ule(n, C(LIM, 32)))])
def _(w, n):
    w.touch(n)
    w.ret(C(96, 32))


# ------------------------------------------------------------------ C11 free memory pointer
@fn("wrapper_set_memptr_global", "C11", "evm_mem:i32")
def _(w, p):
    w.gh["memptr"] = p
    w.ret()


@fn("wrapper_get_memptr_global", "C11", "")
def _(w):
    w.ret(w.gh["memptr"])


@fn("wrapper_allocate_memory", "C11", "size:i32", req=lambda w, n: [
    ("free pointer below 2^31", sle(Z32, w.gh["memptr"]))])
def _(w, n):
    p = w.gh["memptr"]
    # round up to a word in exact (33-bit) arithmetic
    r = band(add(zext(n, 40), C(31, 40)), bnot(C(31, 40)))
    new = add(zext(p, 40), r)
    for bad, v in w.cases(ult(C(LIM, 40), new)):
        if bad:
            v.stop("trap")
        else:
            v.gh["memptr"] = trunc(new, 32)
            v.ret(p)


# ------------------------------------------------------------------ C12 calldata
def cd_byte(w, off, i):
    """byte i after offset off of the calldata, zero past its end (no wrap-around)"""
    n = w.env("cdsize", [], 32)
    return ite(And(ult(off, n), ult(i, sub(n, off))), w.env("cd", [add(off, i)], 8), C(0, 8))


def cd_word(w, off, k=32):
    return concat(*[cd_byte(w, off, C(i, 32)) for i in range(k)])


@fn("wrapper_calldataload_u256", "C12", "calldata_offset:i32 result:o32")
def _(w, o, r):
    w.wr_le(r, cd_word(w, o))
    w.ret()


@fn("wrapper_calldataload_bytes32", "C12", "calldata_offset:i32 result:o32")
def _(w, o, r):
    w.wr_be(r, cd_word(w, o))
    w.ret()


@fn("wrapper_calldata_load_selector", "C12", "")
def _(w):
    w.ret(cd_word(w, Z32, 4))


@fn("wrapper_calldata_size", "C12", "")
def _(w):
    w.ret(w.env("cdsize", [], 32))


@fn("wrapper_calldata_size_minus_4", "C12", "")
def _(w):
    w.ret(sub(w.env("cdsize", [], 32), C(4, 32)))


@fn("wrapper_calldata_copy", "C12", "dst_evm:eoff calldata_offset:i32 len:i32",
    req=lambda w, d, o, n: [rng("destination", d, n)])
def _(w, d, o, n):
    w.touch(end(d, n), allow=add(d, n))
    w.fill(w.ea(d), n, lambda i: cd_byte(w, o, i))
    w.ret()


# ------------------------------------------------------------------ C13 code
@fn("wrapper_codecopy", "C13", "target_evm_mem_offset:eoff evm_memory_offset:eoff size:i32",
    req=lambda w, d, o, n: [rng("destination", d, n)])
def _(w, d, o, n):
    """code, then the calldata of the deployment, then zeros"""
    w.touch(end(d, n), allow=add(d, n))
    cs, ds = w.env("codesize", [], 32), w.env("cdsize", [], 32)

    def byte(i):
        # o < 2^31, i < 2^31: no wrap-around
        p = add(o, i)
        return ite(ult(p, cs), w.env("code", [p], 8),
                   ite(ult(sub(p, cs), ds), w.env("cd", [sub(p, cs)], 8), C(0, 8)))
    w.fill(w.ea(d), n, byte)
    w.ret()


@fn("wrapper_codecopy", "C13", "target_evm_mem_offset:eoff evm_memory_offset:doff size:i32", variant="data",
    req=lambda w, d, s, n: [rng("destination", d, n), ("source inside the data segment", w.inside(s, n))])
def _(w, d, s, n):
    w.touch(end(d, n), allow=add(d, n))
    b = w.buf(w.ea(s), n)
    w.fill(w.ea(d), n, b.fn)
    w.ret()


@fn("wrapper_extcode_copy", "C13", "addr_ptr:p32 dst_evm:eoff offset:i32 len:i32",
    req=lambda w, a, d, o, n: [rng("destination", d, n)])
def _(w, a, d, o, n):
    ad = low160(w.be(a))
    w.touch(end(d, n), allow=add(d, n))
    w.fill(w.ea(d), n, lambda i: w.env("extcode", [ad, add(o, i)], 8))
    w.ret()


@fn("wrapper_extcode_size", "C13", "addr_ptr:p32")
def _(w, a):
    w.ret(w.env("extcodesize", [low160(w.be(a))], 32))


@fn("wrapper_extcode_hash", "C13", "addr_ptr:p32 result:o32")
def _(w, a, r):
    w.wr_be(r, w.env("codehash", [low160(w.be(a))], 256))
    w.ret()


@fn("wrapper_current_contract_code_size", "C13", "")
def _(w):
    cs, ds = w.env("codesize", [], 32), w.env("cdsize", [], 32)
    w.ret(ite(w.gh["deploying"], add(cs, ds), cs))


@fn("wrapper_current_contract_pure_contract_size", "C13", "")
def _(w):
    w.ret(w.env("codesize", [], 32))


@fn("set_is_deploying_tx", "C13", "")
def _(w):
    w.gh["deploying"] = TRUE
    w.ret()


@fn("is_deploying_tx", "C13", "")
def _(w):
    w.ret(b2i(w.gh["deploying"]))


# ------------------------------------------------------------------ C14 chain context
def _addr_getter(name, field):
    @fn(name, "C14", "result:o32")
    def _(w, r):
        w.wr_be(r, zext(w.field(field, 20), 256))
        w.ret()


for _n, _f in (("wrapper_caller", "caller"), ("wrapper_current_contract", "address"), ("wrapper_origin", "origin"),
               ("wrapper_block_coin_base", "coinbase")):
    _addr_getter(_n, _f)


def _u256_getter(name, field):
    @fn(name, "C14", "result:o32")
    def _(w, r):
        w.wr_le(r, w.field(field, 32))
        w.ret()


for _n, _f in (("wrapper_callvalue", "callvalue"), ("wrapper_current_chainid", "chainid"),
               ("wrapper_current_base_fee", "basefee"), ("wrapper_current_blob_base_fee", "blobbasefee"),
               ("wrapper_gas_price", "gasprice")):
    _u256_getter(_n, _f)


@fn("wrapper_block_prevRandao", "C14", "result:o32")
def _(w, r):
    w.wr_be(r, w.field("prevrandao", 32))
    w.ret()


@fn("wrapper_block_prevRandao", "C14", "result:o44", variant="finding")
def _(w, r):
    """known finding: the word is stored 12 bytes too high and its first 12 bytes are cleared"""
    v = w.field("prevrandao", 32)
    w.wr_be(r, concat(C(0, 96), v))
    w.ret()


@fn("wrapper_callvalue_not_zero", "C14", "")
def _(w):
    w.ret(b2i(ne(w.field("callvalue", 32), Z256)))


def _u64_getter(name, field):
    @fn(name, "C14", "")
    def _(w):
        w.ret(w.env(field, [], 64))


for _n, _f in (("wrapper_gas", "gasleft"), ("wrapper_time_stamp", "timestamp"), ("wrapper_block_number", "blocknumber"),
               ("wrapper_gas_limit", "gaslimit")):
    _u64_getter(_n, _f)


@fn("wrapper_block_hash", "C14", "block_number:i64 result:o32")
def _(w, n, r):
    w.wr_be(r, w.env("blockhash", [n], 256))
    w.ret()


@fn("wrapper_query_balance", "C14", "addr_ptr:p32 result:o32")
def _(w, a, r):
    w.wr_le(r, w.env("balance", [low160(w.be(a))], 256))
    w.ret()


@fn("wrapper_self_balance", "C14", "result:o32")
def _(w, r):
    w.wr_le(r, w.env("balance", [w.field("address", 20)], 256))
    w.ret()


# ------------------------------------------------------------------ C15 storage
def _store(name, m, ks, vs):
    @fn(name, "C15", "slot_ptr:p32 value_ptr:p32")
    def _(w, s, v):
        w.gh[m] = w.gh[m].write(getattr(w, ks)(s), getattr(w, vs)(v))
        w.ret()


_store("wrapper_sstore_u256", "stor", "le", "le")
_store("wrapper_sstore_u256_using_little_endian_hostapi", "stor", "be", "le")
_store("wrapper_sstore_bytes32", "stor", "be", "be")
_store("wrapper_tstore_u256", "tran", "le", "le")
_store("wrapper_tstore_bytes32", "tran", "be", "be")


def _load(name, m, rs):
    @fn(name, "C15", "slot_ptr:p32 result:o32")
    def _(w, s, r):
        getattr(w, rs)(r, w.gh[m].read(w.be(s)))
        w.ret()


_load("wrapper_sload_u256", "stor", "wr_le")
_load("wrapper_sload_u256_using_little_endian_hostapi", "stor", "wr_le")
_load("wrapper_sload_bytes32", "stor", "wr_be")
_load("wrapper_tload_u256", "tran", "wr_le")
_load("wrapper_tload_bytes32", "tran", "wr_be")


# ------------------------------------------------------------------ C16 immutables
def cstr(s):
    b = s.encode()
    return Buf(C(len(b), 32), lambda i: ite_tab(b, i))


def ite_tab(b, i):
    if isc(i):
        return C(b[i.v], 8) if i.v < len(b) else C(0, 8)
    r = C(0, 8)
    for k, x in enumerate(b):
        r = ite(eq(i, C(k, 32)), C(x, 8), r)
    return r


def flag_slot(slot):
    p = b"setimmutable_"
    bs = list(reversed(tobytes(slot, 32)))
    for i, x in enumerate(p):
        bs[i] = add(bs[i], C(x, 8))
    return concat(*bs)


@fn("wrapper_setimmutable", "C16", "offset:i32 slot_ptr:p32 value_ptr:p32")
def _(w, o, s, v):
    slot, val = w.le(s), w.le(v)
    fs = flag_slot(slot)
    for already, x in w.cases(ne(w.gh["stor"].read(fs), Z256)):
        if already:
            x.stop("revert", cstr("immutable slot already set"))
        else:
            x.gh["stor"] = x.gh["stor"].write(slot, val).write(fs, C(1, 256))
            x.ret()


@fn("wrapper_loadimmutable", "C16", "slot_ptr:p32 result:o32")
def _(w, s, r):
    w.wr_le(r, w.gh["stor"].read(w.le(s)))
    w.ret()


# ------------------------------------------------------------------ C17 logs
def _log(k):
    ps = " ".join("topic%d_ptr:p32" % i for i in range(k))

    @fn("wrapper_log%d" % k, "C17", "data_evm_mem:eoff data_size:i32 " + ps,
        req=lambda w, p, n, *ts: [rng("log data", p, n)])
    def _(w, p, n, *ts):
        topics = [w.be(t) for t in ts]
        b = w.eread(p, n)
        w.event("log", [C(k, 32)] + topics, [b])
        w.ret()


for _k in range(5):
    _log(_k)


# ------------------------------------------------------------------ C18 calls and return data
@fn("wrapper_returndata_size", "C18", "")
def _(w):
    w.ret(w.env("rds", [w.callno()], 32))


@fn("wrapper_returndata_copy", "C18", "dst_evm:eoff return_data_offset:i32 len:i32",
    req=lambda w, d, o, n: [rng("destination", d, n), ("source inside the return data", w.rd_inside(o, n))])
def _(w, d, o, n):
    w.touch(end(d, n), allow=add(d, n))
    k = w.callno()
    w.fill(w.ea(d), n, lambda i: w.env("rd", [k, add(o, i)], 8))
    w.ret()


def rd_req(w, oo, on):
    return [rng("output area", oo, on)]


def finish_call(w, status, oo, on):
    """what a call does with the callee's answer: its success flag, and as much of the output area as there
    is return data"""
    k = w.callno()
    rds = w.env("rds", [k], 32)
    n = ite(ult(rds, on), rds, on)
    w.touch(end(oo, n), allow=add(oo, on))
    w.fill(w.ea(oo), n, lambda i: w.env("rd", [k, i], 8))
    w.ret(b2i(eq(status, Z32)))


def finish_call_deviant(w, status, oo, on):
    """known finding F2: a failed call reverts the caller when the host reports status 2, or when the callee
    returned less data than the output area holds"""
    k = w.callno()
    rds = w.env("rds", [k], 32)
    ok = b2i(eq(status, Z32))
    for hard, a in w.cases(eq(status, C(2, 32))):
        if hard:
            a.stop("revert", cstr("call contract failed"))
            continue
        for none, b in a.cases(eq(on, Z32)):
            if none:
                b.ret(ok)
                continue
            for short, c in b.cases(ult(rds, on)):
                if not short:
                    c.touch(add(oo, on))
                    c.fill(c.ea(oo), on, lambda i: w.env("rd", [k, i], 8))
                    c.ret(ok)
                    continue
                for good, d in c.cases(eq(status, Z32)):
                    if good:
                        d.touch(end(oo, rds), allow=add(oo, rds))
                        d.fill(d.ea(oo), rds, lambda i: w.env("rd", [k, i], 8))
                        d.ret(C(1, 32))
                        continue
                    for empty, e in d.cases(eq(rds, Z32)):
                        if empty:
                            e.stop("revert", cstr("call failed with no revert data"))
                            continue
                        for big, f in e.cases(ult(C(1024, 32), rds)):
                            if big:
                                f.stop("revert", cstr("out length is not enough"))
                            else:
                                f.stop("revert", Buf(rds, lambda i: w.env("rd", [k, i], 8)))


for _v, _f in (("", finish_call), ("finding", finish_call_deviant)):
    def _mk(f):
        def spec(w, s, oo, on):
            f(w, s, oo, on)
        return spec
    fn("write_call_data", "C18", "call_status:i32 out_evm_offset:eoff out_length:i32",
       req=lambda w, s, oo, on: rd_req(w, oo, on), variant=_v, soft=True)(_mk(_f))


def precompile(a):
    return And(ule(C(1, 256), a), ule(a, C(10, 256)))


def _callfn(name, kind, has_value, variant="", finish_call=finish_call):
    @fn(name, "C18", "gas:i64 callee_addr_ptr:p32 " + ("value:p32 " if has_value else "") +
        "in_evm_offset:eoff in_length:i32 out_evm_offset:eoff out_length:i32", variant=variant,
        req=lambda w, g, a, *r: [rng("input", r[-4], r[-3])] + rd_req(w, r[-2], r[-1]))
    def _(w, g, a, *r):
        v = w.le(r[0]) if has_value else None
        io, il, oo, on = r[-4:]
        word = w.be(a)
        data = w.eread(io, il)
        status = do_call(w.ex, w.st, kind, g, low160(word), v, data)
        for quiet, x in w.cases(And(ne(status, Z32), precompile(word))):
            if quiet:
                x.ret(Z32)
            else:
                finish_call(x, status, oo, on)


_callfn("wrapper_call_contract", "callContract", True)
_callfn("wrapper_delegatecall", "callDelegate", False)
_callfn("wrapper_staticcall", "callStatic", False)
_callfn("wrapper_call_contract", "callContract", True, "finding", finish_call_deviant)
_callfn("wrapper_delegatecall", "callDelegate", False, "finding", finish_call_deviant)
_callfn("wrapper_staticcall", "callStatic", False, "finding", finish_call_deviant)


# ------------------------------------------------------------------ C19 create
def create_req(w, v, p, n, *r):
    ln = concat(*[w.ex.read_byte_fn(w.st, w.ea(p))(C(i, 32)) for i in range(4)])
    return [rng("creation data", p, n), ("creation data starts with a length that fits",
                                         And(ule(C(4, 32), n), ule(ln, sub(n, C(4, 32)))))]


def _create(name, two, variant=""):
    @fn(name, "C19", variant=variant, params="value:p32 code_evm_mem:eoff code_length:i32 " + ("salt:p32 " if two else "") + "result:o32",
        req=create_req)
    def _(w, v, p, n, *r):
        val = w.le(v)
        salt = w.le(r[0]) if two else Z256
        res = r[-1]
        w.touch(end(p, n))
        ln = concat(*w.buf(w.ea(p), C(4, 32)).bytes())
        total = add(ln, C(4, 32))
        code = w.buf(w.ea(p), total)
        data = w.buf(add(w.ea(p), total), sub(n, total))
        status, addr = do_create(w.ex, w.st, val, code, data, salt, C(1 if two else 0, 32))
        for ok, x in w.cases(eq(status, Z32)):
            if ok:
                # the upper 12 bytes of the result word are the caller's business
                x.wr_be(add(res, C(12, 32)), addr)
                x.ret()
            elif not variant:
                x.wr_be(add(res, C(12, 32)), C(0, 160))
                x.ret()
            else:
                # known finding F3
                x.stop("revert", cstr("create2 contract failed" if two else "create contract failed"))


_create("wrapper_create", False)
_create("wrapper_create2", True)
_create("wrapper_create", False, "finding")
_create("wrapper_create2", True, "finding")


# ------------------------------------------------------------------ C20 optimized ERC20 transfer
def balance_slot(w, addr):
    return w.env("keccak.64", [concat(zext(addr, 256), Z256)], 256)


TRANSFER = 0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef


def words(*ts):
    c = concat(*ts)
    n = c.w // 8
    bs = list(reversed(tobytes(c, n)))

    def f(i):
        if isc(i):
            return bs[i.v] if i.v < n else C(0, 8)
        r = C(0, 8)
        for k, x in enumerate(bs):
            r = ite(eq(i, C(k, 32)), x, r)
        return r
    return Buf(C(n, 32), f)


@fn("wrapper_optimized_erc20_fun_transfer", "C20", "from:p32 to:p32 var_value:p32")
def _(w, f, t, v):
    fr, to, val = low160(w.be(f)), low160(w.be(t)), w.be(v)
    for z, a in w.cases(eq(fr, C(0, 160))):
        if z:
            a.stop("revert", words(C(0x4b637e8f << 1, 32), Z256))
            continue
        for z2, b in a.cases(eq(to, C(0, 160))):
            if z2:
                b.stop("revert", words(C(0xec442f05, 32), Z256))
                continue
            ks = balance_slot(b, fr)
            bal = b.gh["stor"].read(ks)
            for low, c in b.cases(ult(bal, val)):
                if low:
                    c.stop("revert", words(C(0x391434e3 << 2, 32), zext(fr, 256), bal, val))
                    continue
                s1 = c.gh["stor"].write(ks, sub(bal, val))
                kd = balance_slot(c, to)
                c.gh["stor"] = s1.write(kd, add(s1.read(kd), val))
                c.event("log", [C(3, 32), C(TRANSFER, 256), zext(fr, 256), zext(to, 256)], [words(val)])
                c.ret()


# ------------------------------------------------------------------ C21 endings and host arithmetic
@fn("wrapper_return", "C21", "src_evm_mem:eoff size:i32", req=lambda w, p, n: [rng("returned data", p, n)])
def _(w, p, n):
    w.stop("finish", w.eread(p, n))


@fn("wrapper_revert", "C21", "error_msg_evm_mem:eoff size:i32", req=lambda w, p, n: [rng("revert data", p, n)])
def _(w, p, n):
    w.stop("revert", w.eread(p, n))


@fn("wrapper_stop", "C21", "")
def _(w):
    w.stop("finish", Buf(Z32, lambda i: C(0, 8)))


@fn("wrapper_invalid", "C21", "")
def _(w):
    w.stop("invalid")


@fn("wrapper_selfdestruct", "C21", "addr_bytes:p32")
def _(w, a):
    w.stop("selfdestruct", low160(w.be(a)))


@fn("wrapper_keccak256", "C21", "evm_mem:eoff size:i32 result:o32", req=lambda w, p, n, r: [rng("hashed data", p, n)])
def _(w, p, n, r):
    b = w.eread(p, n)
    w.wr_be(r, do_keccak(w.ex, w.st, b))
    w.ret()


def _modfn(name, op):
    @fn(name, "C21", "a_ptr:p32 b_ptr:p32 mod_ptr:p32 result_ptr:o32")
    def _(w, a, b, n, r):
        w.wr_be(r, w.env(op, [w.be(a), w.be(b), w.be(n)], 256))
        w.ret()


_modfn("wrapper_addmod", "addmod")
_modfn("wrapper_mulmod", "mulmod")


# ------------------------------------------------------------------ C22 byte primitives
@fn("memcpy", "C22", "_dest:B=length _src:b=length length:i32", module="stdlib")
def _(w, d, s, n):
    w.disjoint_or_forward("source and destination do not overlap backwards", d, s, n)
    b = w.buf(s, n)
    w.fill(d, n, b.fn)
    w.ret(d)


@fn("memcpy", "C22", "_dest:rbuf _src:rbuf length:i32", module="stdlib", variant="overlapping", req=lambda w, d, s, n: [
    ("ranges inside the buffer", And(w.inside_region(d, n), w.inside_region(s, n))),
    ("destination not above source", ule(w.region_off(d), w.region_off(s)))])
def _(w, d, s, n):
    b = w.buf(s, n)
    w.fill(d, n, b.fn)
    w.ret(d)


@fn("__memset", "C22", "_dest:B=length val:i8 length:i32", module="stdlib")
def _(w, d, v, n):
    w.fill(d, n, lambda i: v)
    w.ret()


@fn("memset", "C22", "dest:B=length val:i8 length:i32", module="stdlib")
def _(w, d, v, n):
    w.fill(d, n, lambda i: v)
    w.ret(d)


# ------------------------------------------------------------------ C23 debug output does not change behaviour
@fn("wrapper_debug_i256", "C23", "value_ptr:p32")
def _(w, v):
    w.ret()


@fn("wrapper_debug_bytes32", "C23", "value_ptr:p32")
def _(w, v):
    w.ret()
