// Minimal EVM host for running the compiled runtime library; values are set by the demo.
'use strict';
const fs = require('fs');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
class Halt extends Error { constructor(k, d) { super(k); this.kind = k; this.data = d; } }
const hx = b => Buffer.from(b).toString('hex');
const be = (v, n) => Buffer.from(BigInt(v).toString(16).padStart(2 * n, '0'), 'hex');
const num = b => b.length ? BigInt('0x' + hx(b)) : 0n;
function boot(st) {
  st = Object.assign({ calldata: Buffer.alloc(0), code: Buffer.alloc(0), ret: Buffer.alloc(0), callret: 0, createret: 0,
    created: Buffer.alloc(20), caller: Buffer.alloc(20), self: Buffer.alloc(20), origin: Buffer.alloc(20), coinbase: Buffer.alloc(20),
    value: 0n, chainid: 0n, basefee: 0n, blobfee: 0n, gasprice: 0n, randao: 0n, gas: 0n, time: 0n, number: 0n, gaslimit: 0n,
    balances: {}, extcode: {}, stor: new Map(), tran: new Map(), small: false, keccak: b => Buffer.from(require('crypto').createHash('sha256').update(b).digest()) }, st);
  st.calls = []; st.logs = []; st.creates = []; st.debug = []; st.counts = {};
  let x;
  const M = () => Buffer.from(x.memory.buffer);
  const rd = (p, n) => { p >>>= 0; n >>>= 0; const m = M(); if (n && p + n > m.length) throw new Halt('oob read'); return Buffer.from(m.subarray(p, p + n)); };
  const wr = (p, b) => { p >>>= 0; const m = M(); if (p + b.length > m.length) throw new Halt('oob write'); Buffer.from(b).copy(m, p); };
  const cut = (src, o, n, what) => { o >>>= 0; n >>>= 0; if (n && o + n > src.length) throw new Halt(what + ' out of range'); return src.subarray(o, o + n); };
  const rev = b => Buffer.from(b).reverse();
  const ld = (m, k) => m.get(k) || 0n;
  const call = (kind, g, a, v, d, n) => { st.calls.push({ kind, gas: BigInt.asUintN(64, g), to: hx(rd(a, 20)), value: v === null ? null : num(rd(v, 32)), data: hx(rd(d, n)) }); return st.callret; };
  const h = {
    getAddress: p => wr(p, st.self), getCaller: p => wr(p, st.caller), getTxOrigin: p => wr(p, st.origin), getBlockCoinbase: p => wr(p, st.coinbase),
    getCallValue: p => wr(p, be(st.value, 32)), getChainId: p => wr(p, be(st.chainid, 32)), getBaseFee: p => wr(p, be(st.basefee, 32)),
    getBlobBaseFee: p => wr(p, be(st.blobfee, 32)), getTxGasPrice: p => wr(p, be(st.gasprice, 32)), getBlockPrevRandao: p => wr(p, be(st.randao, 32)),
    getCallDataSize: () => st.calldata.length, callDataCopy: (t, o, n) => wr(t, cut(st.calldata, o, n, 'callDataCopy')),
    getCodeSize: () => st.code.length, codeCopy: (t, o, n) => wr(t, cut(st.code, o, n, 'codeCopy')),
    getReturnDataSize: () => st.ret.length, returnDataCopy: (t, o, n) => wr(t, cut(st.ret, o, n, 'returnDataCopy')),
    getGasLeft: () => st.gas, getBlockTimestamp: () => st.time, getBlockNumber: () => st.number, getBlockGasLimit: () => st.gaslimit,
    getBlockHash: (n, p) => { wr(p, be(n, 32)); return 1; },
    getExternalBalance: (a, p) => wr(p, be(st.balances[hx(rd(a, 20))] || 0n, 32)),
    getExternalCodeSize: a => (st.extcode[hx(rd(a, 20))] || '').length, getExternalCodeHash: (a, p) => wr(p, st.keccak(rd(a, 20))),
    externalCodeCopy: (a, t, o, n) => { const c = st.extcode[hx(rd(a, 20))] || Buffer.alloc(0), b = Buffer.alloc(n >>> 0); c.copy(b, 0, Math.min(o >>> 0, c.length)); wr(t, b); },
    storageLoad: (k, p) => wr(p, be(ld(st.stor, num(rd(k, 32))), 32)), storageLoadLittleEndian: (k, p) => wr(p, rev(be(ld(st.stor, num(rd(k, 32))), 32))),
    storageStore: (k, p) => { st.stor.set(num(rd(k, 32)), num(rd(p, 32))); }, storageStoreLittleEndian: (k, p) => { st.stor.set(num(rd(k, 32)), num(rev(rd(p, 32)))); },
    transientLoad: (k, p) => wr(p, be(ld(st.tran, num(rd(k, 32))), 32)), transientStore: (k, p) => { st.tran.set(num(rd(k, 32)), num(rd(p, 32))); },
    callContract: (g, a, v, d, n) => call('call', g, a, v, d, n), callCode: (g, a, v, d, n) => call('callcode', g, a, v, d, n),
    callDelegate: (g, a, d, n) => call('delegatecall', g, a, null, d, n), callStatic: (g, a, d, n) => call('staticcall', g, a, null, d, n),
    createContract: (v, c, cn, d, dn, s, is2, r) => { st.creates.push({ value: num(rd(v, 32)), code: hx(rd(c, cn)), data: hx(rd(d, dn)), salt: s ? num(rd(s, 32)) : null, is2 }); wr(r, st.created); return st.createret; },
    finish: (p, n) => { throw new Halt('finish', hx(rd(p, n))); }, revert: (p, n) => { throw new Halt('revert', hx(rd(p, n))); },
    invalid: () => { throw new Halt('invalid'); }, selfDestruct: p => { throw new Halt('selfdestruct', hx(rd(p, 20))); },
    emitLogEvent: (d, n, k, ...t) => st.logs.push({ data: hx(rd(d, n)), topics: t.slice(0, k).map(p => num(rd(p, 32))) }),
    keccak256: (p, n, r) => wr(r, st.keccak(rd(p, n))),
    addmod: (a, b, n, r) => { const m = num(rd(n, 32)); wr(r, be(m ? (num(rd(a, 32)) + num(rd(b, 32))) % m : 0n, 32)); },
    mulmod: (a, b, n, r) => { const m = num(rd(n, 32)); wr(r, be(m ? (num(rd(a, 32)) * num(rd(b, 32))) % m : 0n, 32)); },
    debug_bytes: (p, n) => st.debug.push(rd(p, n).toString('latin1')),
    __multi3: (r, al, ah, bl, bh) => { const u = v => BigInt.asUintN(64, v); wr(r, rev(be(BigInt.asUintN(128, (u(al) | u(ah) << 64n) * (u(bl) | u(bh) << 64n)), 16))); },
  };
  const env = {};
  for (const im of WebAssembly.Module.imports(mod)) if (im.kind === 'function')
    env[im.name] = (...a) => { st.counts[im.name] = (st.counts[im.name] || 0) + 1; if (!h[im.name]) throw new Error('no host function ' + im.name); return h[im.name](...a); };
  x = new WebAssembly.Instance(mod, { env }).exports;
  let at = (x.__heap_base.value + 63) & ~63;
  const begin = st.small ? null : x.memory.buffer.byteLength;
  x.__init_evm_heap(st.small ? 0 : 1);
  const T = { st, x, begin, rd, wr, hx, be, num, Halt,
    word(v) { const p = at; at += 96; wr(p, be(BigInt.asUintN(256, BigInt(v)), 32)); wr(p + 32, Buffer.alloc(64, 0xa5)); return p; },     // big-endian cell, guarded
    le(v) { const p = T.word(0); wr(p, rev(be(BigInt.asUintN(256, BigInt(v)), 32))); return p; },                                       // 256-bit integer cell
    buf(b) { const p = at; at += (b.length + 127) & ~63; wr(p, b); return p; },
    rdw: p => num(rd(p, 32)), rdle: p => num(rev(rd(p, 32))), guard: p => hx(rd(p + 32, 64)) === 'a5'.repeat(64),
    evm: (o, n) => hx(rd(begin + o, n)), setevm: (o, b) => { x.evm_make_sure_memory(o + b.length); wr(begin + o, b); },
    run(f, ...a) { try { const v = x[f](...a); return { kind: 'ret', v }; } catch (e) { if (e instanceof Halt) return { kind: e.kind, data: e.data }; if (e instanceof WebAssembly.RuntimeError) return { kind: 'trap', why: e.message }; throw e; } } };
  return T;
}
let bad = 0;
function eq(what, got, want) { const s = v => typeof v === 'bigint' ? '0x' + v.toString(16) : JSON.stringify(v); if (s(got) !== s(want)) { bad = 1; console.log('FAIL ' + what + ': got ' + s(got) + ', want ' + s(want)); } }
function ok(what, c) { if (!c) { bad = 1; console.log('FAIL ' + what); } }
process.on('exit', () => { if (!process.exitCode) process.exitCode = bad; });
module.exports = { boot, eq, ok, be, num, hx };
