ch, cm, em, sl, ut = "stdlib/chain.c", "stdlib/chain_math.c", "stdlib/evm_memory.c", "stdlib/stdlib.c", "stdlib/utils.c"
BUGS = [
dict(id="c01-sgt-top-byte", property="C01", file=cm, edits=[("""  // If signs are the same, perform comparison based on magnitude
  for (int i = 0; i < 32; i++) {
    if (a_bytes[i] > b_bytes[i]) {
      return 1; // a is larger""", """  // The signs are the same, compare the remaining bytes
  for (int i = 1; i < 32; i++) {
    if (a_bytes[i] > b_bytes[i]) {
      return 1; // a is larger""")], needs="two words of equal sign whose top bytes differ", breaks="sgt ignores bits 248..254",
 demo="""
const t = boot({});
const a = t.word(0x05n << 248n), b = t.word((0x03n << 248n) | 7n);
eq('sgt', t.run('wrapper_bytes32_sgt', a, b).v, 1);
eq('sgt rev', t.run('wrapper_bytes32_sgt', b, a).v, 0);
"""),
dict(id="c02-add-exact-carry", property="C02", file=cm, edits=[("    carry = sum >> 8; // Check for overflow, 1 or 0", "    carry = sum > 0x100; // Check for overflow, 1 or 0")],
 needs="a byte position whose sum is exactly 256", breaks="the carry out of a byte sum of exactly 256 is dropped",
 demo="""
const t = boot({});
for (const [x, y] of [[3n, 4n], [0xffffn, 2n], [0xffn, 1n], [0x80n << 240n, 0x80n << 240n], [(1n << 256n) - 1n, 1n]]) {
  const r = t.word(0);
  t.run('wrapper_bytes32_add', t.word(x), t.word(y), r);
  eq('add', t.rdw(r), (x + y) & ((1n << 256n) - 1n));
}
"""),
dict(id="c03-shl-fast-path", property="C03", file=cm, edits=[("""        value_as_u64_array[1] == 0 && value_as_u64_array[2] == 0 &&
        value_as_u32_array[6] == 0) {""", """        value_as_u64_array[1] == 0 && value_as_u64_array[2] == 0) {""")],
 needs="a value between 2^32 and 2^64 shifted by 1..32", breaks="the fast path of the byte-word shl drops bits 32..63 of the value",
 demo="""
const t = boot({});
for (const v of [5n, 0xffffffffn, 0x100000001n, 0xdeadbeefcafen]) for (const n of [1, 8, 31, 32, 33, 64, 65, 100]) {
  const r = t.word(0); t.run('wrapper_bytes32_shl', t.word(v), n, r);
  eq('shl ' + v + ' ' + n, t.rdw(r), (v << BigInt(n)) & ((1n << 256n) - 1n));
}
"""),
dict(id="c04-signextend-dirty", property="C04", file=ch, edits=[("    *result = value & ~extension_mask;", "    *result = value;")],
 needs="a positive narrow value with bits set above its width", breaks="the bits above the width are kept instead of cleared",
 demo="""
const t = boot({});
for (const k of [0, 7, 8, 15, 29, 30, 31]) for (const v of [(1n << 256n) - 1n, (0x12n << 248n) | (0x80n << 240n), (0xffn << 248n) | 5n]) {
  const r = t.le(0); t.run('wrapper_sign_extend', k, t.le(v), r);
  eq('signextend ' + k, t.rdle(r), k >= 31 ? v : BigInt.asUintN(256, BigInt.asIntN(8 * k + 8, v)));
}
"""),
dict(id="c05-exp-wide-exponent", property="C05", file=ch, edits=[("    if (!exp) {\n      break;", "    if (!(uint64_t)exp) {\n      break;")],
 needs="an exponent whose set bits are separated by at least 64 zero bits, e.g. 2^65", breaks="exp stops early when the low 64 bits of the remaining exponent are zero",
 demo="""
const t = boot({});
const pw = (b, e) => { let r = 1n; b &= (1n << 256n) - 1n; for (; e; e >>= 1n) { if (e & 1n) r = r * b & ((1n << 256n) - 1n); b = b * b & ((1n << 256n) - 1n); } return r; };
for (const [b, e] of [[3n, 5n], [2n, 255n], [3n, 1n << 65n], [7n, (1n << 200n) + 1n], [0n, 0n]]) {
  const r = t.le(0); t.run('wrapper_exp', t.le(b), t.le(e), r);
  eq('exp ' + b + ' ' + e, t.rdle(r), pw(b, e));
}
"""),
dict(id="c06-i32-clear", property="C06", file=ch, edits=[("  for (int i = 0; i < 3; i++) {\n    memory_ptr_u64[i] = 0;\n  }\n  memory_ptr_u32[6] = 0;\n  // Write int32", "  for (int i = 0; i < 3; i++) {\n    memory_ptr_u64[i] = 0;\n  }\n  // Write int32")],
 needs="a result cell that is not zero before the call", breaks="bytes 24..27 of the word keep their old contents",
 demo="""
const t = boot({});
for (const old of [0n, (1n << 256n) - 1n]) { const r = t.word(old); t.run('i32_to_bytes32_big_endian_bytes', 0x1234, r); eq('i32 to word', t.rdw(r), 0x1234n); }
"""),
dict(id="c07-mstore-u64-zero-low", property="C07", file=ch, edits=[("""  memory_ptr_u64[2] = 0;
  if (value == 0) {
    memory_ptr_u64[3] = 0;
    return;
  }

  // Write big endian encoded value to last 8 bytes""", """  memory_ptr_u64[2] = 0;
  if ((uint32_t)value == 0) {
    memory_ptr_u64[3] = 0;
    return;
  }

  // Write big endian encoded value to last 8 bytes""")],
 needs="a 64-bit value that is a non-zero multiple of 2^32", breaks="mstore of such a value stores zero",
 demo="""
const t = boot({});
for (const v of [0n, 1n, 0xffffffffn, 0x100000000n, 0xabcdef0000000000n]) {
  t.setevm(40, Buffer.alloc(64, 0x77)); t.run('wrapper_mstore_u64', 64, BigInt.asIntN(64, v));
  eq('mstore_u64', t.evm(64, 32), v.toString(16).padStart(64, '0')); eq('around', t.evm(40, 24), '77'.repeat(24));
}
"""),
dict(id="c09-grow-slack", property="C09", file=em, edits=[("  if (evm_memory_full_size < size) {", "  if (evm_memory_full_size + 31 < size) {")],
 needs="a request that ends 1 to 31 bytes past the current capacity", breaks="memory is not grown, so the access traps (or lands in other data)",
 demo="""
const t = boot({});
const w = t.word(0x1122n);
eq('mstore across the page end', t.run('wrapper_mstore_bytes32', 65536 - 16, w).kind, 'ret');
eq('stored', t.evm(65536 - 16, 32), '1122'.padStart(64, '0'));
"""),
dict(id="c11-memptr-monotone", property="C11", file=ch, edits=[("void wrapper_set_memptr_global(int32_t evm_mem) { evm_memptr_global = evm_mem; }", """void wrapper_set_memptr_global(int32_t evm_mem) {
  // the free memory pointer never moves back
  if (evm_mem > evm_memptr_global) {
    evm_memptr_global = evm_mem;
  }
}""")],
 needs="a program that releases memory by setting the free memory pointer to a lower value", breaks="mload(64) does not return the value stored last",
 demo="""
const t = boot({});
t.run('wrapper_set_memptr_global', 0x80); eq('first', t.run('wrapper_allocate_memory', 33).v, 0x80); eq('ptr', t.run('wrapper_get_memptr_global').v, 0xc0);
t.run('wrapper_set_memptr_global', 0x7fffff00); eq('too large', t.run('wrapper_allocate_memory', 0x400).kind, 'trap');
t.run('wrapper_set_memptr_global', 0x80); eq('set back', t.run('wrapper_get_memptr_global').v, 0x80);
"""),
dict(id="c12-partial-cache", property="C12", file=ch, edits=[("    callDataCopy((ADDRESS_UINT)cached_calldata, 0, calldata_size);", "    callDataCopy((ADDRESS_UINT)cached_calldata, 0, offset + size);")],
 needs="a short read before a read further into calldata of at most 100 bytes", breaks="the cache holds only the bytes of the first read; later reads return zeros",
 demo="""
const cd = Buffer.alloc(68); for (let i = 0; i < 68; i++) cd[i] = i + 1;
let t = boot({ calldata: cd }), r = t.word(0);
t.run('wrapper_calldataload_bytes32', 36, r); eq('load first', t.rdw(r), num(cd.subarray(36, 68)));
t = boot({ calldata: cd }); r = t.word(0);
eq('selector', t.run('wrapper_calldata_load_selector').v, 0x01020304);
t.run('wrapper_calldataload_bytes32', 36, r); eq('load after selector', t.rdw(r), num(cd.subarray(36, 68)));
"""),
dict(id="c14-callvalue-high", property="C14", file=ch, edits=[("  for (int i = 0; i < 4; i++) {\n    if (data_int64[i] != 0) {\n      return 1;", "  for (int i = 1; i < 4; i++) {\n    if (data_int64[i] != 0) {\n      return 1;")],
 needs="a call value that is a multiple of 2^192", breaks="such a value counts as zero",
 demo="""
for (const v of [0n, 1n, 1n << 63n, 1n << 191n, 1n << 192n, 3n << 250n]) eq('callvalue ' + v, boot({ value: v }).run('wrapper_callvalue_not_zero').v, v ? 1 : 0);
"""),
dict(id="c15-tstore-zero", property="C15", file=ch, edits=[("""  uint256_t value = *value_ptr;
  u256_to_big_endian(value, value_bytes);
  transientStore(""", """  uint256_t value = *value_ptr;
  if (value == 0) {
    return; // nothing to remember
  }
  u256_to_big_endian(value, value_bytes);
  transientStore(""")],
 needs="clearing a transient slot that was set before", breaks="a transient slot cannot be reset to zero",
 demo="""
const t = boot({}); const k = 77n;
const get = () => { const r = t.le(1); t.run('wrapper_tload_u256', t.word(k), r); return t.rdle(r); };
t.run('wrapper_tstore_u256', t.le(k), t.le(5n)); eq('set', get(), 5n);
t.run('wrapper_tstore_u256', t.le(k), t.le(0n)); eq('cleared', get(), 0n);
"""),
dict(id="c16-flag-slot-or", property="C16", file=ch, edits=[("    flag_slot_bytes[i] += prefix[i];", "    flag_slot_bytes[i] |= prefix[i];")],
 needs="two slots that differ only in high bits which the mark's prefix contains", breaks="the marks of two different slots coincide, so setting the second immutable reverts",
 demo="""
const t = boot({});
const a = 0x1234n, b = 0x1234n | (0x01n << 248n);
eq('first', t.run('wrapper_setimmutable', 0, t.le(a), t.le(9n)).kind, 'ret');
eq('second slot', t.run('wrapper_setimmutable', 0, t.le(b), t.le(8n)).kind, 'ret');
eq('again', t.run('wrapper_setimmutable', 0, t.le(a), t.le(7n)).kind, 'revert');
const r = t.le(0); t.run('wrapper_loadimmutable', t.le(a), r); eq('value', t.rdle(r), 9n);
"""),
dict(id="c17-log4-topics", property="C17", file=ch, edits=[("               (ADDRESS_UINT)topic0, (ADDRESS_UINT)topic1, (ADDRESS_UINT)topic2,\n               (ADDRESS_UINT)topic3);", "               (ADDRESS_UINT)topic0, (ADDRESS_UINT)topic1, (ADDRESS_UINT)topic3,\n               (ADDRESS_UINT)topic2);")],
 needs="log4 with different third and fourth topics", breaks="topics three and four are exchanged",
 demo="""
const t = boot({}); t.setevm(0, Buffer.from('abcdef', 'hex'));
t.run('wrapper_log4', 0, 3, t.word(1), t.word(2), t.word(3), t.word(4));
eq('log', t.st.logs.map(l => [l.data, l.topics.map(String)]), [['abcdef', ['1', '2', '3', '4']]]);
"""),
dict(id="c18-precompile-last", property="C18", file=ch, edits=[("  if (addr_last_byte >= 0x01 && addr_last_byte <= 0x0a) {", "  if (addr_last_byte >= 0x01 && addr_last_byte < 0x0a) {")],
 needs="a failing call of precompile 0x0a with an output area", breaks="the caller is reverted instead of receiving 0",
 demo="""
for (const a of [1n, 9n, 10n]) { const t = boot({ callret: 1 }); eq('failed precompile ' + a, t.run('wrapper_staticcall', 1000n, t.word(a), 0, 4, 0, 64), { kind: 'ret', v: 0 }); }
"""),
dict(id="c18-short-return", property="C18", file=ch, edits=[("    if (ret_data_size < out_length) {", "    if (ret_data_size <= out_length - 32) {")],
 needs="a successful call whose return data is 1 to 31 bytes shorter than the output area", breaks="more return data is requested than exists and the call fails",
 demo="""
const t = boot({ ret: Buffer.from('11'.repeat(20), 'hex') }); t.setevm(0, Buffer.alloc(96, 0x55));
eq('call', t.run('wrapper_call_contract', 1000n, t.word(0x1234n), t.le(0), 0, 4, 32, 32), { kind: 'ret', v: 1 });
eq('out', t.evm(32, 32), '11'.repeat(20) + '55'.repeat(12));
"""),
dict(id="c19-create-length", property="C19", file=ch, edits=[("""  uint32_t wasm_code_length = 0;
  for (int i = 0; i < 4; i++) {
    wasm_code_length = (wasm_code_length << 8) | ((uint32_t)code_mem[i] & 0xFF);
  }

  uint32_t calldata_length""", """  uint32_t wasm_code_length = 0;
  for (int i = 2; i < 4; i++) {
    wasm_code_length = (wasm_code_length << 8) | ((uint32_t)code_mem[i] & 0xFF);
  }

  uint32_t calldata_length""")],
 needs="creation code of 64 KiB or more", breaks="the code is cut at its length modulo 65536 and the rest is passed as constructor data",
 demo="""
for (const n of [5, 300, 70000]) {
  const t = boot({}); const code = Buffer.alloc(n + 4 + 7, 0x33); code.writeUInt32BE(n, 0);
  t.setevm(0, code);
  t.run('wrapper_create', t.le(5n), 0, code.length, t.word(0));
  eq('create ' + n, [t.st.creates.length, t.st.creates[0].code.length / 2, t.st.creates[0].data.length / 2], [1, n + 4, 7]);
}
"""),
dict(id="c20-self-transfer", property="C20", file=ch, edits=[("""  // write new balance to the from
  uint256_t new_from_balance_u256 = tmp_balance_u256 - var_value_u256;
  storageStoreLittleEndian((ADDRESS_UINT)tmp_keccak256_result,
                           (ADDRESS_UINT)&new_from_balance_u256);
""", """  uint256_t new_from_balance_u256 = tmp_balance_u256 - var_value_u256;
  uint8_t from_slot[32];
  memcpy(from_slot, tmp_keccak256_result, 32);
"""), ("""  uint256_t new_to_balance_u256 = tmp_balance_u256 + var_value_u256;
""", """  uint256_t new_to_balance_u256 = tmp_balance_u256 + var_value_u256;
  // write both new balances
  storageStoreLittleEndian((ADDRESS_UINT)from_slot,
                           (ADDRESS_UINT)&new_from_balance_u256);
""")],
 needs="sender and receiver are the same account", breaks="a self-transfer creates tokens",
 demo="""
const t = boot({}); const A = 0xabcn, B = 0xdefn;
const slot = a => num(t.st.keccak(Buffer.concat([be(a, 32), Buffer.alloc(32)])));
t.st.stor.set(slot(A), 100n); t.st.stor.set(slot(B), 7n);
const tr = (f, to, v) => t.run('wrapper_optimized_erc20_fun_transfer', t.word(f), t.word(to), t.word(v)).kind;
eq('transfer', tr(A, B, 30n), 'ret'); eq('A', t.st.stor.get(slot(A)), 70n); eq('B', t.st.stor.get(slot(B)), 37n);
eq('self', tr(A, A, 20n), 'ret'); eq('A after self-transfer', t.st.stor.get(slot(A)), 70n);
"""),
dict(id="c21-mulmod-order", property="C21", file=ch, edits=[("  mulmod((ADDRESS_UINT)a_ptr, (ADDRESS_UINT)b_ptr, (ADDRESS_UINT)mod_ptr,\n         (ADDRESS_UINT)result_ptr);", "  if (a_ptr == b_ptr) {\n    b_ptr = mod_ptr; // squaring\n  }\n  mulmod((ADDRESS_UINT)a_ptr, (ADDRESS_UINT)b_ptr, (ADDRESS_UINT)mod_ptr,\n         (ADDRESS_UINT)result_ptr);")],
 needs="the same word passed for both factors", breaks="mulmod(a, a, m) yields 0",
 demo="""
const t = boot({}); const a = t.word(12n), b = t.word(5n), m = t.word(100n), r = t.word(0);
t.run('wrapper_mulmod', a, b, m, r); eq('mulmod', t.rdw(r), 60n);
t.run('wrapper_mulmod', a, a, m, r); eq('square', t.rdw(r), 44n);
"""),
dict(id="c22-memset-words", property="C22", file=sl, edits=["""  uint8_t *dest = _dest;

  do {
    *dest++ = val;
  } while (--length);""".join(["", ""]) and ("""  uint8_t *dest = _dest;

  do {
    *dest++ = val;
  } while (--length);""", """  uint8_t *dest = _dest;
  uint32_t word = val;
  word |= word << 8;
  word |= word << 16;

  while (length >= 4) {
    *(uint32_t *)dest = word;
    dest += 4;
    length -= 4;
  }
  do {
    *dest++ = val;
  } while (length && --length);""")],
 needs="a length that is a multiple of four", breaks="one byte past the end of the range is overwritten",
 demo="""
const t = boot({});
for (const n of [0, 1, 3, 5, 7, 8, 12, 64]) { const p = t.buf(Buffer.alloc(100, 0x11)); t.run('__memset', p, 0x22, n); eq('memset ' + n, t.rd(p, 100).toString('hex'), '22'.repeat(n) + '11'.repeat(100 - n)); }
"""),
dict(id="c08-memcpy-backwards", property="C08", file=sl, edits=[("""  while (length--) {
    *dest++ = *src++;
  }
  return _dest;""", """  while (length >= 256) {
    // large blocks, last byte first
    for (int i = 255; i >= 0; i--) {
      dest[i] = src[i];
    }
    dest += 256;
    src += 256;
    length -= 256;
  }
  while (length--) {
    *dest++ = *src++;
  }
  return _dest;""")],
 needs="an overlapping copy of at least 256 bytes towards lower addresses", breaks="the copied block is corrupted",
 demo="""
const t = boot({}); const src = Buffer.alloc(600); for (let i = 0; i < 600; i++) src[i] = (i * 7 + (i >> 8)) & 255;
for (const [d, s, n] of [[0, 300, 100], [0, 10, 200], [5, 40, 400], [40, 5, 400]]) { t.setevm(0, src); t.run('wrapper_mcopy', d, s, n); const w = Buffer.from(src); src.copy(w, d, s, s + n); eq('mcopy ' + [d, s, n], t.evm(0, 600), w.toString('hex')); }
"""),
dict(id="c13-codecopy-zero", property="C13", file=ch, edits=[("  if ((int32_t)evm_memory_offset < 0) {", "  if ((int32_t)evm_memory_offset <= 0) {")],
 needs="codecopy from code offset 0", breaks="EVM memory is copied instead of the contract code",
 demo="""
for (const o of [0, 1, 40]) { const code = Buffer.alloc(100); for (let i = 0; i < 100; i++) code[i] = i + 3;
  const t = boot({ code }); t.setevm(0, Buffer.alloc(128, 0x99)); t.run('wrapper_codecopy', 64, o, 32); eq('codecopy ' + o, t.evm(64, 32), code.subarray(o, o + 32).toString('hex')); }
"""),
]
