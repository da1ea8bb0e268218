// Runs the compiled library (wasm) against a deterministic host.  The host answers every query the way
// ConcEnv in replay.py does.  Usage: node host.js WASM  < jobs.json  > results.json
'use strict';
const fs = require('fs'), crypto = require('crypto');
const mod = new WebAssembly.Module(fs.readFileSync(process.argv[2]));
const PAGE = 65536;
const SMALL = new Map([['cdsize', 160], ['codesize', 160], ['rds', 160], ['callret', 3], ['createret', 3],
  ['extcodesize', 100000], ['blockhashret', 2]]);
class Stop extends Error { constructor(kind, val) { super(kind); this.kind = kind; this.val = val; } }

class Env {
  constructor(seed, over) { this.seed = seed; this.over = over || {}; this.bases = new Map();
    this.pre = new Set(); for (const k in this.over) { const i = k.lastIndexOf('|'); if (i > 0) this.pre.add(k.slice(0, i)); } }
  hash(k) { return crypto.createHash('sha256').update(this.seed + '|' + k).digest(); }
  // integer valued query
  uf(name, args, w) {
    const k = [name, ...args.map(a => a.toString(16))].join('|');
    if (k in this.over) return BigInt('0x' + this.over[k]);
    const h = this.hash(k);
    let v = BigInt('0x' + h.subarray(0, (w + 7) >> 3).toString('hex')) & ((1n << BigInt(w)) - 1n);
    if (SMALL.has(name)) v %= BigInt(SMALL.get(name));
    return v;
  }
  // byte i of a byte source
  bytes(name, args, start, n) {
    const pre = [name, ...args.map(a => a.toString(16))].join('|');
    let b = this.bases.get(pre);
    if (b === undefined) { b = this.hash(pre).readUInt32BE(0); this.bases.set(pre, b); }
    const out = Buffer.alloc(n), anyover = this.hasOver(pre);
    for (let j = 0; j < n; j++) {
      const i = (start + j) >>> 0;
      if (anyover) { const k = pre + '|' + i.toString(16); if (k in this.over) { out[j] = parseInt(this.over[k], 16); continue; } }
      let x = b ^ Math.imul((i + 0x9e3779b9) | 0, 0x85ebca6b);
      x ^= x >>> 15; x = Math.imul(x, 0x2c1b3c6d); x ^= x >>> 12; x = Math.imul(x, 0x297a2d39); x ^= x >>> 15;
      out[j] = x & 0xff;
    }
    return out;
  }
  hasOver(pre) { return this.pre.has(pre); }
}
const big = b => b.length ? BigInt('0x' + b.toString('hex')) : 0n;
function be(v, n) { return Buffer.from(v.toString(16).padStart(2 * n, '0'), 'hex'); }
const rev = b => Buffer.from(b).reverse();

class Machine {
  constructor(job) {
    this.env = new Env(job.seed, job.over);
    this.ev = []; this.ncall = 0; this.nk = 0; this.map = { stor: new Map(), tran: new Map() };
    const imps = { env: {} };
    for (const im of WebAssembly.Module.imports(mod)) {
      const h = this['h_' + im.name];
      imps[im.module] = imps[im.module] || {};
      if (im.kind === 'function')
        imps[im.module][im.name] = h ? h.bind(this) : () => { throw new Stop('unknown import ' + im.name); };
    }
    this.inst = new WebAssembly.Instance(mod, imps);
    this.x = this.inst.exports;
    this.arena = (this.x.__heap_base.value + 127) & ~63;
    this.begin = this.x.memory.buffer.byteLength;
    if (job.raw || job.alloc) return;
    this.x.__init_evm_heap(1);
    const m = this.mem();
    this.full = m.length - this.begin;
    this.env.bytes('evm', [], 0, this.full).copy(m, this.begin);
    m.fill(0xa5, this.arena, this.begin);
  }
  mem() { return Buffer.from(this.x.memory.buffer); }
  rd(p, n) {
    if (n === 0) return Buffer.alloc(0);
    p >>>= 0; n >>>= 0;
    const m = this.mem();
    if (p + n > m.length) throw new Stop('host read outside memory');
    return Buffer.from(m.subarray(p, p + n));
  }
  wr(p, b) {
    p >>>= 0;
    const m = this.mem();
    if (p + b.length > m.length) throw new Stop('host write outside memory');
    b.copy(m, p);
  }
  event(kind, terms, bufs) { this.ev.push({ kind, terms: terms.map(t => t.toString(16)), bufs: bufs.map(b => b.toString('hex')) }); }
  word(name, n, p) { this.wr(p, be(this.env.uf(name, [], 8 * n), n)); }
  num(name, w) { const v = BigInt.asIntN(w, this.env.uf(name, [], w)); return w === 64 ? v : Number(v); }
  h_getAddress(p) { this.word('address', 20, p); } h_getCaller(p) { this.word('caller', 20, p); }
  h_getTxOrigin(p) { this.word('origin', 20, p); } h_getBlockCoinbase(p) { this.word('coinbase', 20, p); }
  h_getCallValue(p) { this.word('callvalue', 32, p); } h_getBlockPrevRandao(p) { this.word('prevrandao', 32, p); }
  h_getTxGasPrice(p) { this.word('gasprice', 32, p); } h_getBaseFee(p) { this.word('basefee', 32, p); }
  h_getBlobBaseFee(p) { this.word('blobbasefee', 32, p); } h_getChainId(p) { this.word('chainid', 32, p); }
  h_getCallDataSize() { return this.num('cdsize', 32); } h_getBlockGasLimit() { return this.num('gaslimit', 64); }
  h_getBlockTimestamp() { return this.num('timestamp', 64); } h_getGasLeft() { return this.num('gasleft', 64); }
  h_getBlockNumber() { return this.num('blocknumber', 64); } h_getCodeSize() { return this.num('codesize', 32); }
  range(off, n, size, what) {
    off >>>= 0; n >>>= 0; size = Number(size);
    if (n && off + n > size) throw new Stop(what + ' range outside the source');
  }
  h_callDataCopy(t, o, n) {
    this.range(o, n, this.env.uf('cdsize', [], 32), 'callDataCopy');
    this.wr(t, this.env.bytes('cd', [], o >>> 0, n >>> 0));
  }
  h_codeCopy(t, o, n) {
    this.range(o, n, this.env.uf('codesize', [], 32), 'codeCopy');
    this.wr(t, this.env.bytes('code', [], o >>> 0, n >>> 0));
  }
  h_returnDataCopy(t, o, n) {
    this.range(o, n, this.env.uf('rds', [BigInt(this.ncall)], 32), 'returnDataCopy');
    this.wr(t, this.env.bytes('rd', [BigInt(this.ncall)], o >>> 0, n >>> 0));
  }
  h_getReturnDataSize() { return Number(BigInt.asIntN(32, this.env.uf('rds', [BigInt(this.ncall)], 32))); }
  h_getBlockHash(n, p) {
    n = BigInt.asUintN(64, n);
    this.wr(p, be(this.env.uf('blockhash', [n], 256), 32));
    return Number(BigInt.asIntN(32, this.env.uf('blockhashret', [n], 32)));
  }
  h_getExternalBalance(a, p) { this.wr(p, be(this.env.uf('balance', [big(this.rd(a, 20))], 256), 32)); }
  h_getExternalCodeHash(a, p) { this.wr(p, be(this.env.uf('codehash', [big(this.rd(a, 20))], 256), 32)); }
  h_getExternalCodeSize(a) { return Number(BigInt.asIntN(32, this.env.uf('extcodesize', [big(this.rd(a, 20))], 32))); }
  h_externalCodeCopy(a, t, o, n) { this.wr(t, this.env.bytes('extcode', [big(this.rd(a, 20))], o >>> 0, n >>> 0)); }
  load(map, k) { const m = this.map[map]; return m.has(k) ? m.get(k) : this.env.uf(map, [k], 256); }
  h_storageLoad(k, p) { this.wr(p, be(this.load('stor', big(this.rd(k, 32))), 32)); }
  h_storageLoadLittleEndian(k, p) { this.wr(p, rev(be(this.load('stor', big(this.rd(k, 32))), 32))); }
  h_transientLoad(k, p) { this.wr(p, be(this.load('tran', big(this.rd(k, 32))), 32)); }
  h_storageStore(k, p) { this.map.stor.set(big(this.rd(k, 32)), big(this.rd(p, 32))); }
  h_storageStoreLittleEndian(k, p) { this.map.stor.set(big(this.rd(k, 32)), big(rev(this.rd(p, 32)))); }
  h_transientStore(k, p) { this.map.tran.set(big(this.rd(k, 32)), big(this.rd(p, 32))); }
  call(kind, gas, a, v, d, n) {
    const addr = big(this.rd(a, 20));
    const terms = [BigInt.asUintN(64, gas), addr];
    if (v !== null) terms.push(big(this.rd(v, 32)));
    this.event(kind, terms, [this.rd(d, n)]);
    this.ncall++;
    return Number(BigInt.asIntN(32, this.env.uf('callret', [BigInt(this.ncall - 1)], 32)));
  }
  h_callContract(g, a, v, d, n) { return this.call('callContract', g, a, v, d, n); }
  h_callCode(g, a, v, d, n) { return this.call('callCode', g, a, v, d, n); }
  h_callDelegate(g, a, d, n) { return this.call('callDelegate', g, a, null, d, n); }
  h_callStatic(g, a, d, n) { return this.call('callStatic', g, a, null, d, n); }
  h_createContract(v, c, cn, d, dn, s, is2, r) {
    const val = big(this.rd(v, 32)), salt = s ? big(this.rd(s, 32)) : 0n;
    this.event('createContract', [val, BigInt.asUintN(32, BigInt(is2)), salt], [this.rd(c, cn), this.rd(d, dn)]);
    const k = BigInt(this.ncall++);
    this.wr(r, be(this.env.uf('created', [k], 160), 20));
    return Number(BigInt.asIntN(32, this.env.uf('createret', [k], 32)));
  }
  h_finish(p, n) { throw new Stop('finish', this.rd(p, n)); }
  h_revert(p, n) { throw new Stop('revert', this.rd(p, n)); }
  h_invalid() { throw new Stop('invalid'); }
  h_selfDestruct(p) { throw new Stop('selfdestruct', this.rd(p, 20)); }
  h_emitLogEvent(d, n, k, ...t) {
    this.event('log', [BigInt(k), ...t.slice(0, k).map(p => big(this.rd(p, 32)))], [this.rd(d, n)]);
  }
  h_keccak256(p, n, r) {
    const b = this.rd(p, n);
    let v;
    if (n === 0) v = this.env.uf('keccak.0', [], 256);
    else if (n <= 256) v = this.env.uf('keccak.' + n, [big(b)], 256);
    else { v = this.env.uf('keccak#', [BigInt(this.nk++)], 256); this.event('keccak', [], [b]); }
    this.wr(r, be(v, 32));
  }
  op3(name, a, b, n, r) { this.wr(r, be(this.env.uf(name, [a, b, n].map(p => big(this.rd(p, 32))), 256), 32)); }
  h_addmod(a, b, n, r) { this.op3('addmod', a, b, n, r); }
  h_mulmod(a, b, n, r) { this.op3('mulmod', a, b, n, r); }
  h___multi3(r, al, ah, bl, bh) {
    const u = x => BigInt.asUintN(64, x);
    const v = BigInt.asUintN(128, (u(al) | (u(ah) << 64n)) * (u(bl) | (u(bh) << 64n)));
    this.wr(r, rev(be(v, 16)));
  }
  h_debug_bytes(p, n) { this.event('debug', [], [this.rd(p, n)]); }

  // histories of cell allocations; returns a description of what is wrong, or null
  alloc(ops) {
    const cells = [], at = new Set();
    let bad = null;
    const pattern = i => { const b = Buffer.alloc(32, 0x5a); b.writeUInt32LE(i, 0); b.writeUInt32LE(~i >>> 0, 28); return b; };
    const whole = () => Buffer.from(this.mem());
    try {
      for (const [f, n] of ops) {
        if (f === 'grow') { for (let i = 0; i < n; i++) this.x.memory.grow(1); continue; }
        for (let i = 0; i < n; i++) {
          const p = this.x[f]() >>> 0;
          if (p + 32 > this.mem().length) return `cell ${cells.length} at ${p} lies outside the wasm memory`;
          if (p < 1024) return `cell ${cells.length} at ${p} is no memory of its own`;
          for (let d = -31; d < 32; d++) if (at.has(p + d)) return `cell ${cells.length} at ${p} overlaps an earlier cell at ${p + d}`;
          at.add(p);
          pattern(cells.length).copy(this.mem(), p);
          cells.push(p);
        }
      }
      for (let i = 0; i < cells.length; i++)
        if (this.rd(cells[i], 32).compare(pattern(i))) return `cell ${i} at ${cells[i]} changed`;
    } catch (e) {
      return 'ended with ' + e.message;
    }
    return bad;
  }
  step(call) {
    let at = this.arena;
    const shared = {}, regs = [];
    const place = (name, b, n) => {
      const p = at;
      if (at + n + 128 > this.begin) throw new Stop('argument too large');
      b.copy(this.mem(), p);
      regs.push({ name, p, n, before: Buffer.from(b) });
      at = (at + n + 64 + 63) & ~63;
      return p;
    };
    const args = [];
    for (const a of call.args) {
      if (a.t === 'i32') args.push(a.v | 0);
      else if (a.t === 'i64') args.push(BigInt.asIntN(64, BigInt(a.v)));
      else if (a.t === 'bytes') args.push(place(a.name, Buffer.from(a.hex, 'hex'), a.hex.length / 2));
      else if (a.t === 'alias') args.push(regs.find(r => r.name === a.of).p);
      else if (a.t === 'src') args.push(place(a.name, this.env.bytes(a.src, [], 0, a.n), a.n));
      else if (a.t === 'rbuf') {
        if (!(a.id in shared)) shared[a.id] = place(a.name, this.env.bytes(a.src, [], 0, a.n), a.n);
        args.push(shared[a.id] + (a.off | 0));
      } else if (a.t === 'doff') args.push((place(a.name, this.env.bytes(a.src, [], 0, a.n), a.n) - this.begin) | 0);
    }
    const m0 = this.mem(), before = Buffer.from(m0.subarray(this.begin));
    const arena0 = Buffer.from(m0.subarray(this.arena, this.begin));
    const res = {};
    const f = this.x[call.fn];
    if (!f) { res.kind = 'missing function'; return res; }
    try {
      let v = f(...args);
      res.kind = 'ret';
      if (v !== undefined) {
        res.val = (typeof v === 'bigint' ? BigInt.asUintN(64, v) : BigInt(v >>> 0)).toString(16);
        if (typeof v === 'number') {
          const p = v >>> 0;
          if (p + 32 <= this.mem().length) res.word = this.rd(p, 32).toString('hex');
        }
      }
    } catch (e) {
      if (e instanceof Stop) { res.kind = e.kind; if (e.val) res.bytes = e.val.toString('hex'); }
      else if (e instanceof WebAssembly.RuntimeError) { res.kind = 'trap'; res.why = String(e.message); }
      else throw e;
    }
    const m1 = this.mem();
    res.evm = diff(before, m1.subarray(this.begin));
    res.size = m1.length - this.begin;
    res.mem = {};
    for (const r of regs) {
      res.mem[r.name] = diff(r.before, m1.subarray(r.p, r.p + r.n));
      m1.copy(arena0, r.p - this.arena, r.p, r.p + r.n);
    }
    const st = diff(arena0, m1.subarray(this.arena, this.begin));
    res.stray = [];
    for (const [o, hex] of st) {
      let best = null;
      for (const r of regs) { const d = this.arena + o - r.p; if (best === null || Math.abs(d) < Math.abs(best[1])) best = [r.name, d]; }
      res.stray.push([best ? best[0] : '', best ? best[1] : o, hex]);
    }
    m1.fill(0xa5, this.arena, at);
    res.ev = this.ev;
    res.stor = {}; for (const [k, v] of this.map.stor) res.stor[k.toString(16)] = v.toString(16);
    res.tran = {}; for (const [k, v] of this.map.tran) res.tran[k.toString(16)] = v.toString(16);
    for (const [n, k] of [['is_deploying_tx', 'deploying'], ['wrapper_get_memptr_global', 'memptr']])
      if (this.x[n] && res.kind === 'ret') res[k] = this.x[n]() >>> 0;
    return res;
  }
}
function diff(a, b) {
  const out = [];
  const n = b.length;
  const S = 4096;
  let cur = null;
  for (let s = 0; s < n; s += S) {
    const e = Math.min(n, s + S);
    if (e <= a.length && a.compare(b, s, e, s, e) === 0) { cur = null; continue; }
    for (let i = s; i < e; i++) {
      const old = i < a.length ? a[i] : 0;
      if (old === b[i]) { cur = null; continue; }
      if (cur) cur[1].push(b[i]); else { cur = [i, [b[i]]]; out.push(cur); }
    }
  }
  return out.map(([o, l]) => [o, Buffer.from(l).toString('hex')]);
}
const jobs = JSON.parse(fs.readFileSync(0, 'utf8'));
const results = [];
for (const job of jobs) {
  const out = [];
  try {
    const m = new Machine(job);
    if (job.alloc) { results.push(m.alloc(job.alloc)); continue; }
    for (const c of job.calls) {
      const r = m.step(c);
      out.push(JSON.parse(JSON.stringify(r)));
      if (r.kind !== 'ret') break;
    }
  } catch (e) { out.push({ kind: 'harness error', why: String(e.stack) }); }
  results.push(out);
}
process.stdout.write(JSON.stringify(results));
