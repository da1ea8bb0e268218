"""Assumed contracts of the host interface (hostapi.h) and of debug_bytes.  These are trusted."""
from .execu import Outcome, Buf, Event, tobytes
from .terms import *
from . import mem

HOST = {}


def host(name):
    def deco(f):
        HOST[name] = f
        return f
    return deco


def _bytes_be(v):
    return list(reversed(tobytes(v, v.w // 8)))


def _getter(name, env, n):
    def f(ex, st, args, caller):
        ex.store(st, args[0], _bytes_be(ex.env.uf(env, [], 8 * n)), "%s: result of %s" % (caller, name))
        return [(st, None)]
    HOST[name] = f


for _n, _e, _k in (("getAddress", "address", 20), ("getCaller", "caller", 20), ("getTxOrigin", "origin", 20),
                   ("getBlockCoinbase", "coinbase", 20), ("getCallValue", "callvalue", 32),
                   ("getBlockPrevRandao", "prevrandao", 32), ("getTxGasPrice", "gasprice", 32),
                   ("getBaseFee", "basefee", 32), ("getBlobBaseFee", "blobbasefee", 32),
                   ("getChainId", "chainid", 32)):
    _getter(_n, _e, _k)


def _num(name, env, w):
    def f(ex, st, args, caller):
        return [(st, ex.env.uf(env, [], w))]
    HOST[name] = f


for _n, _e, _w in (("getCallDataSize", "cdsize", 32), ("getBlockGasLimit", "gaslimit", 64),
                   ("getBlockTimestamp", "timestamp", 64), ("getGasLeft", "gasleft", 64),
                   ("getBlockNumber", "blocknumber", 64), ("getCodeSize", "codesize", 32)):
    _num(_n, _e, _w)


def range_in(off, n, size):
    return And(ule(n, size), ule(off, sub(size, n)))


@host("callDataCopy")
def _(ex, st, args, caller):
    t, off, n = args
    ex.oblige("%s: callDataCopy range lies inside the calldata" % caller, st,
              Or(eq(n, C(0, 32)), range_in(off, n, ex.env.uf("cdsize", [], 32))), "pre")
    ex.fnwrite(st, t, n, lambda i: ex.env.uf("cd", [add(off, i)], 8), "%s: destination of callDataCopy" % caller)
    return [(st, None)]


@host("getBlockHash")
def _(ex, st, args, caller):
    ex.store(st, args[1], _bytes_be(ex.env.uf("blockhash", [args[0]], 256)), "%s: result of getBlockHash" % caller)
    return [(st, ex.env.uf("blockhashret", [args[0]], 32))]


def addr160(ex, st, p, caller, what):
    return concat(*ex.load(st, p, 20, "%s: address argument of %s" % (caller, what)))


@host("getExternalBalance")
def _(ex, st, args, caller):
    a = addr160(ex, st, args[0], caller, "getExternalBalance")
    ex.store(st, args[1], _bytes_be(ex.env.uf("balance", [a], 256)), "%s: result of getExternalBalance" % caller)
    return [(st, None)]


@host("getExternalCodeHash")
def _(ex, st, args, caller):
    a = addr160(ex, st, args[0], caller, "getExternalCodeHash")
    ex.store(st, args[1], _bytes_be(ex.env.uf("codehash", [a], 256)), "%s: result of getExternalCodeHash" % caller)
    return [(st, None)]


@host("getExternalCodeSize")
def _(ex, st, args, caller):
    a = addr160(ex, st, args[0], caller, "getExternalCodeSize")
    return [(st, ex.env.uf("extcodesize", [a], 32))]


@host("externalCodeCopy")
def _(ex, st, args, caller):
    a = addr160(ex, st, args[0], caller, "externalCodeCopy")
    off, n = args[2], args[3]
    ex.fnwrite(st, args[1], n, lambda i: ex.env.uf("extcode", [a, add(off, i)], 8),
               "%s: destination of externalCodeCopy" % caller)
    return [(st, None)]


def _word(ex, st, p, what):
    return concat(*ex.load(st, p, 32, what))


def _storage(load, store, map_, le):
    def sl(ex, st, args, caller):
        k = _word(ex, st, args[0], "%s: key of %s" % (caller, load))
        v = st.gh[map_].read(k)
        bs = tobytes(v, 32) if le else _bytes_be(v)
        ex.store(st, args[1], bs, "%s: result of %s" % (caller, load))
        return [(st, None)]

    def ss(ex, st, args, caller):
        k = _word(ex, st, args[0], "%s: key of %s" % (caller, store))
        v = ex.load(st, args[1], 32, "%s: value of %s" % (caller, store))
        v = concat(*(reversed(v) if le else v))
        st.gh[map_] = st.gh[map_].write(k, v)
        return [(st, None)]
    HOST[load], HOST[store] = sl, ss


_storage("storageLoad", "storageStore", "stor", False)
_storage("storageLoadLittleEndian", "storageStoreLittleEndian", "stor", True)
_storage("transientLoad", "transientStore", "tran", False)


@host("codeCopy")
def _(ex, st, args, caller):
    t, off, n = args
    ex.oblige("%s: codeCopy range lies inside the code" % caller, st,
              Or(eq(n, C(0, 32)), range_in(off, n, ex.env.uf("codesize", [], 32))), "pre")
    ex.fnwrite(st, t, n, lambda i: ex.env.uf("code", [add(off, i)], 8), "%s: destination of codeCopy" % caller)
    return [(st, None)]


def do_call(ex, st, kind, gas, addr, value, data):
    n = st.gh["ncall"]
    st.ev = st.ev + (Event(kind, (gas, addr) + ((value,) if value is not None else ()), (data,)),)
    st.gh["ncall"] = n + 1
    return ex.env.uf("callret", [C(n, 32)], 32)


def _call(name, has_value):
    def f(ex, st, args, caller):
        gas = args[0]
        a = addr160(ex, st, args[1], caller, name)
        v = None
        rest = args[2:]
        if has_value:
            v = _word(ex, st, args[2], "%s: value of %s" % (caller, name))
            rest = args[3:]
        data = ex.buf(st, rest[0], rest[1], "%s: input of %s" % (caller, name))
        return [(st, do_call(ex, st, name, gas, a, v, data))]
    HOST[name] = f


_call("callContract", True)
_call("callCode", True)
_call("callDelegate", False)
_call("callStatic", False)


def do_create(ex, st, value, code, data, salt, is2):
    n = st.gh["ncall"]
    st.ev = st.ev + (Event("createContract", (value, is2, salt), (code, data)),)
    st.gh["ncall"] = n + 1
    return ex.env.uf("createret", [C(n, 32)], 32), ex.env.uf("created", [C(n, 32)], 160)


@host("createContract")
def _(ex, st, args, caller):
    vo, co, cl, do, dl, so, is2, ro = args
    v = _word(ex, st, vo, caller + ": value of createContract")
    code = ex.buf(st, co, cl, caller + ": code of createContract")
    data = ex.buf(st, do, dl, caller + ": constructor data of createContract")
    if isc(so) and so.v == 0:
        salt = C(0, 256)
    else:
        salt = _word(ex, st, so, caller + ": salt of createContract")
    r, a = do_create(ex, st, v, code, data, salt, is2)
    ex.store(st, ro, _bytes_be(a), caller + ": result of createContract")
    return [(st, r)]


def _term(name):
    def f(ex, st, args, caller):
        b = ex.buf(st, args[0], args[1], "%s: data passed to %s" % (caller, name))
        ex.terminal.append(Outcome(name, st, b))
        return []
    HOST[name] = f


_term("finish")
_term("revert")


@host("invalid")
def _(ex, st, args, caller):
    ex.terminal.append(Outcome("invalid", st))
    return []


@host("selfDestruct")
def _(ex, st, args, caller):
    a = addr160(ex, st, args[0], caller, "selfDestruct")
    ex.terminal.append(Outcome("selfdestruct", st, a))
    return []


@host("emitLogEvent")
def _(ex, st, args, caller):
    d, n, k = args[:3]
    if not isc(k) or k.v > 4:
        from .ir import Unsupported
        raise Unsupported("symbolic topic count")
    data = ex.buf(st, d, n, caller + ": data of emitLogEvent")
    ts = [_word(ex, st, args[3 + i], caller + ": topic of emitLogEvent") for i in range(k.v)]
    st.ev = st.ev + (Event("log", [k] + ts, (data,)),)
    return [(st, None)]


@host("getReturnDataSize")
def _(ex, st, args, caller):
    return [(st, ex.env.uf("rds", [C(st.gh["ncall"], 32)], 32))]


@host("returnDataCopy")
def _(ex, st, args, caller):
    t, off, n = args
    nc = C(st.gh["ncall"], 32)
    ex.oblige("%s: returnDataCopy range lies inside the return data" % caller, st,
              Or(eq(n, C(0, 32)), range_in(off, n, ex.env.uf("rds", [nc], 32))), "pre")
    ex.fnwrite(st, t, n, lambda i: ex.env.uf("rd", [nc, add(off, i)], 8), "%s: destination of returnDataCopy" % caller)
    return [(st, None)]


def do_keccak(ex, st, data):
    if isc(data.len) and data.len.v <= 256:
        n = data.len.v
        if n == 0:
            return ex.env.uf("keccak.0", [], 256)
        return ex.env.uf("keccak.%d" % n, [concat(*data.bytes())], 256)
    k = sum(1 for e in st.ev if e.kind == "keccak")
    st.ev = st.ev + (Event("keccak", (), (data,)),)
    return ex.env.uf("keccak#", [C(k, 32)], 256)


@host("keccak256")
def _(ex, st, args, caller):
    data = ex.buf(st, args[0], args[1], caller + ": input of keccak256")
    h = do_keccak(ex, st, data)
    ex.store(st, args[2], _bytes_be(h), caller + ": result of keccak256")
    return [(st, None)]


def _modop(name):
    def f(ex, st, args, caller):
        a, b, n = [_word(ex, st, p, "%s: operand of %s" % (caller, name)) for p in args[:3]]
        ex.store(st, args[3], _bytes_be(ex.env.uf(name, [a, b, n], 256)), "%s: result of %s" % (caller, name))
        return [(st, None)]
    HOST[name] = f


_modop("addmod")
_modop("mulmod")


@host("debug_bytes")
def _(ex, st, args, caller):
    b = ex.buf(st, args[0], args[1], caller + ": data of debug_bytes")
    st.ev = st.ev + (Event("debug", (), (b,)),)
    return [(st, None)]
