# behaviour-preserving edits of /repo (used by refactor.py)
C, M, E, S, U = "stdlib/chain.c", "stdlib/chain_math.c", "stdlib/evm_memory.c", "stdlib/stdlib.c", "stdlib/utils.c"
REF = []
def R(id, file, checks, *edits): REF.append(dict(id=id, file=file, checks=checks, edits=[tuple(e) for e in edits]))

R("be-load-helper", C, "C07 C12 C19",
  ("static uint8_t *evm_readable_memory(int32_t offset", """static uint32_t load_be32(const uint8_t *p) {
  return ((uint32_t)p[0] << 24) | ((uint32_t)p[1] << 16) |
         ((uint32_t)p[2] << 8) | (uint32_t)p[3];
}
static uint8_t *evm_readable_memory(int32_t offset"""),
  ("""  uint32_t wasm_code_length = 0;
  for (int i = 0; i < 4; i++) {
    wasm_code_length = (wasm_code_length << 8) | ((uint32_t)code_mem[i] & 0xFF);
  }
""", "  uint32_t wasm_code_length = load_be32(code_mem);\n"),
  ("""  uint32_t result = 0;
  for (int i = 0; i < 4; i++) {
    result = (result << 8) | memory_ptr[28 + i];
  }
  return result;""", "  return load_be32(memory_ptr + 28);"),
  ("""  // Convert to uint32_t (big-endian)
  uint32_t selector = 0;
  for (int i = 0; i < 4; i++) {
    selector = (selector << 8) | selector_bytes[i];
  }

  return selector;
}""", "  return load_be32(selector_bytes);\n}"))

R("selector-min", C, "C12",
  ("""  if (calldata_size < 4) {
    // if calldata not greater than 4 bytes, remaing bytes treat as zeros
    uint8_t selector_bytes[4] = {0};
    cachedCallDataCopy((ADDRESS_UINT)&selector_bytes, 0, calldata_size);
    // Convert to uint32_t (big-endian)
    uint32_t selector = 0;
    for (int i = 0; i < 4; i++) {
      selector = (selector << 8) | selector_bytes[i];
    }

    return selector;
  }

  // Only read the first 4 bytes
  uint8_t selector_bytes[4] = {0};
  cachedCallDataCopy((ADDRESS_UINT)&selector_bytes, 0, 4);
""", """  uint8_t selector_bytes[4] = {0};
  uint32_t count = calldata_size < 4 ? calldata_size : 4;
  cachedCallDataCopy((ADDRESS_UINT)&selector_bytes, 0, count);
"""))

R("calldata-u256-via-bytes32", C, "C12",
  ("""  uint32_t calldata_size = cachedCallDataSize();
  uint8_t data[32] = {0};
  if (calldata_offset >= calldata_size) {
    // nothing to read, the word is all zeros
  } else if (calldata_size - calldata_offset < 32) {
    // If calldata is insufficient, read remaining part to the front of data
    // array The rest is already padded with zeros
    uint32_t read_count = calldata_size - calldata_offset;
    cachedCallDataCopy((ADDRESS_UINT)&data, calldata_offset, read_count);
  } else {
    cachedCallDataCopy((ADDRESS_UINT)&data, calldata_offset, 32);
  }
  u256_from_big_endian_bytes(data, result);
}
void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result) {""",
"""  bytes32 data;
  wrapper_calldataload_bytes32(calldata_offset, &data);
  u256_from_big_endian_bytes((uint8_t *)&data, result);
}
void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result) {"""),
  ("void wrapper_calldataload_u256(", "void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result);\nvoid wrapper_calldataload_u256("))

R("calldata-guard", C, "C12",
  ("""  if (calldata_offset >= calldata_size) {
    __memset(result, 0, sizeof(bytes32));
  } else if (calldata_size - calldata_offset < 32) {
    // If calldata is insufficient, read remaining part to the front of data
    // array The rest is already padded with zeros
    uint32_t read_count = calldata_size - calldata_offset;
    cachedCallDataCopy((ADDRESS_UINT)result, calldata_offset, read_count);
    // Pad remaining bytes with zeros
    uint8_t *result_bytes_ptr = (uint8_t *)result;
    for (int i = read_count; i < 32; i++) {
      result_bytes_ptr[i] = 0;
    }
  } else {
    cachedCallDataCopy((ADDRESS_UINT)result, calldata_offset, 32);
  }""", """  __memset(result, 0, sizeof(bytes32));
  if (calldata_offset >= calldata_size) {
    return;
  }
  uint32_t available = calldata_size - calldata_offset;
  cachedCallDataCopy((ADDRESS_UINT)result, calldata_offset,
                     available < 32 ? available : 32);"""))

R("calldata-copy-rest", C, "C12",
  ("""  if (calldata_offset >= calldata_size) {
    __memset(dst_memory_ptr, 0, len);
  } else if (len > calldata_size - calldata_offset) {
    uint32_t data_len = calldata_size - calldata_offset;
    cachedCallDataCopy((ADDRESS_UINT)dst_memory_ptr, calldata_offset, data_len);
    __memset(dst_memory_ptr + data_len, 0, len - data_len);
  } else {
    cachedCallDataCopy((ADDRESS_UINT)dst_memory_ptr, calldata_offset, len);
  }""", """  uint32_t avail =
      calldata_offset < calldata_size ? calldata_size - calldata_offset : 0;
  uint32_t n = len < avail ? len : avail;
  if (n > 0) {
    cachedCallDataCopy((ADDRESS_UINT)dst_memory_ptr, calldata_offset, n);
  }
  for (uint32_t i = n; i < len; i++) {
    dst_memory_ptr[i] = 0;
  }"""))

R("cache-statics-file-scope", C, "C12 C13",
  ("""static int32_t cachedCallDataSize() {
  static int32_t cached = -1;
  if (cached < 0) {
    cached = getCallDataSize();
  }
  return cached;
}""", """static int32_t calldata_size_cache = -1;
static int32_t cachedCallDataSize() {
  if (calldata_size_cache >= 0) {
    return calldata_size_cache;
  }
  calldata_size_cache = getCallDataSize();
  return calldata_size_cache;
}"""),
  ("""  static uint8_t cached_calldata[CACHED_CALLDATA_COPY_THRESHOLD] = {0};
  static BOOL cached = 0;
  if (!cached) {
    callDataCopy((ADDRESS_UINT)cached_calldata, 0, calldata_size);
    cached = 1;
  }
  memcpy(""", """  static uint8_t calldata_cache[CACHED_CALLDATA_COPY_THRESHOLD];
  static BOOL calldata_is_cached;
  if (calldata_is_cached == 0) {
    calldata_is_cached = 1;
    callDataCopy((ADDRESS_UINT)calldata_cache, 0, calldata_size);
  }
  const uint8_t *cached_calldata = calldata_cache;
  memcpy("""))

R("cache-two-flags", C, "C12 C13",
  ("""  static int32_t cached = -1;
  if (cached < 0) {
    cached = getCallDataSize();
  }
  return cached;""", """  static int32_t cached = 0;
  static BOOL known = 0;
  if (!known) {
    cached = getCallDataSize();
    known = 1;
  }
  return cached;"""))

R("cache-fill-helper", C, "C12 C13",
  ("static void cachedCallDataCopy(int32_t", """static uint8_t the_calldata[100] = {0};
static BOOL the_calldata_valid = 0;
static const uint8_t *fill_calldata_cache(int32_t calldata_size) {
  if (!the_calldata_valid) {
    callDataCopy((ADDRESS_UINT)the_calldata, 0, calldata_size);
    the_calldata_valid = 1;
  }
  return the_calldata;
}
static void cachedCallDataCopy(int32_t"""),
  ("""  static uint8_t cached_calldata[CACHED_CALLDATA_COPY_THRESHOLD] = {0};
  static BOOL cached = 0;
  if (!cached) {
    callDataCopy((ADDRESS_UINT)cached_calldata, 0, calldata_size);
    cached = 1;
  }
  memcpy((void *)memory_ptr, cached_calldata + offset, size);""",
  "  memcpy((void *)memory_ptr, fill_calldata_cache(calldata_size) + offset, size);"))

R("address-helper", C, "C14",
  ("""void wrapper_caller(bytes32 *result) {
  getCaller(12 + (ADDRESS_UINT)result); // address is 20 bytes
  clear_first_12_bytes(result);
}""", """static ADDRESS_UINT prepare_address_cell(bytes32 *cell) {
  clear_first_12_bytes(cell);
  return 12 + (ADDRESS_UINT)cell;
}

void wrapper_caller(bytes32 *result) {
  getCaller(prepare_address_cell(result)); // address is 20 bytes
}"""),
  ("""  uint32_t *tmp_ptr = (uint32_t *)memory_ptr;
  tmp_ptr[0] = 0;
  tmp_ptr[1] = 0;
  tmp_ptr[2] = 0;""", """  uint8_t *bytes = (uint8_t *)memory_ptr;
  for (int i = 11; i >= 0; --i) {
    bytes[i] = 0;
  }"""))

R("callvalue-or", C, "C14",
  ("""  int64_t *data_int64 = (int64_t *)data;
  for (int i = 0; i < 4; i++) {
    if (data_int64[i] != 0) {
      return 1;
    }
  }
  return 0;""", """  uint8_t any = 0;
  for (int i = 0; i < 32; i++) {
    any |= data[i];
  }
  return any != 0;"""))

R("codecopy-helper", C, "C13 C09",
  ("void wrapper_codecopy(int32_t target_evm", """static uint32_t min_u32(uint32_t a, uint32_t b) { return a < b ? a : b; }
void wrapper_codecopy(int32_t target_evm"""),
  ("""    uint32_t code_len = (uint32_t)(cur_code_size - evm_memory_offset);
    if (size <= code_len) {
      codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, size);
      return;
    }
    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, code_len);
""", """    uint32_t code_len =
        min_u32(size, (uint32_t)(cur_code_size - evm_memory_offset));
    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, code_len);
    if (code_len == size) {
      return;
    }
"""),
  ("""    data_len = calldata_size - calldata_offset;
    if (data_len > size) {
      data_len = size;
    }
""", "    data_len = min_u32(calldata_size - calldata_offset, size);\n"))

R("codecopy-split", C, "C13 C12",
  ("void wrapper_codecopy(int32_t target_evm", """static void copy_deploy_args(uint8_t *target, uint32_t calldata_offset,
                             uint32_t size) {
  uint32_t calldata_size = cachedCallDataSize();
  uint32_t data_len = 0;
  if (calldata_offset < calldata_size) {
    data_len = calldata_size - calldata_offset;
    if (data_len > size) {
      data_len = size;
    }
    cachedCallDataCopy((ADDRESS_UINT)target, calldata_offset, data_len);
  }
  __memset(target + data_len, 0, size - data_len);
}
void wrapper_codecopy(int32_t target_evm"""),
  ("""  uint32_t calldata_size = cachedCallDataSize();
  uint32_t data_len = 0;
  if (calldata_offset < calldata_size) {
    data_len = calldata_size - calldata_offset;
    if (data_len > size) {
      data_len = size;
    }
    cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset, data_len);
  }
  // For out of bound bytes, 0s will be copied.
  __memset(target_mem_ptr + data_len, 0, size - data_len);
""", "  copy_deploy_args(target_mem_ptr, calldata_offset, size);\n"))

R("mstore-helper", C, "C07 C09",
  ("void wrapper_mstore_bytes32(int32_t evm_mem", """static uint8_t *evm_writable_word(int32_t evm_mem) {
  evm_make_sure_memory(evm_mem + 32);
  return evm_get_memory_addr(evm_mem);
}

void wrapper_mstore_bytes32(int32_t evm_mem"""),
  ("""  // Automatically expand memory if it exceeds EVM accessible memory
  evm_make_sure_memory(evm_mem + 32);
  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
""", "  uint8_t *memory_ptr = evm_writable_word(evm_mem);\n"),
  ("""  evm_make_sure_memory(evm_mem + 32);
  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
  memcpy(memory_ptr, value_ptr, 32);""", "  memcpy(evm_writable_word(evm_mem), value_ptr, 32);"))

R("mstore-u32-via-u64", C, "C07",
  ("""  // Automatically expand memory if it exceeds EVM accessible memory
  evm_make_sure_memory(evm_mem + 32);
  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);

  // mstore(64, value) in Solidity reads/writes memptr value, not using the
  // front part

  // Write 0 to first 28 bytes. 28 bytes = 3 i64 + 1 i32
  uint64_t *memory_ptr_u64 = (uint64_t *)memory_ptr;
  memory_ptr_u64[0] = 0;
  memory_ptr_u64[1] = 0;
  memory_ptr_u64[2] = 0;
  if (value == 0) {
    memory_ptr_u64[3] = 0;
    return;
  }
  uint32_t *memory_ptr_u32 = (uint32_t *)(memory_ptr + 24);
  *memory_ptr_u32 = 0;

  // Write big endian encoded value to last 4 bytes
  u32_to_big_endian(value, memory_ptr + 28);""", "  wrapper_mstore_u64(evm_mem, value);"),
  ("void wrapper_mstore_u32(int32_t evm_mem, uint32_t value) {", "void wrapper_mstore_u64(int32_t evm_mem, uint64_t value);\nvoid wrapper_mstore_u32(int32_t evm_mem, uint32_t value) {"))

R("bswap-mload", C, "C07 C06",
  ("""  uint64_t result = 0;
  for (int i = 0; i < 8; i++) {
    result = (result << 8) | memory_ptr[24 + i];
  }
  return result;""", """  uint64_t word;
  memcpy(&word, memory_ptr + 24, sizeof(word));
  return __builtin_bswap64(word);"""),
  ("""  uint32_t result = 0;
  for (int i = 0; i < 4; i++) {
    result = (result << 8) + (0xff & value_bytes[28 + i]);
  }
  return result;""", """  return (int32_t)__builtin_bswap32(*(const uint32_t *)(value_bytes + 28));"""))

R("mcopy-forward-first", C, "C08",
  ("""  if (dst_memory > src_memory) {
    // copy backwards, the ranges may overlap
    while (size > 0) {
      size--;
      dst_memory[size] = src_memory[size];
    }
    return;
  }
  memcpy(dst_memory, src_memory, size);""", """  if (evm_dst <= evm_src) {
    for (uint32_t i = 0; i < size; i++) {
      dst_memory[i] = src_memory[i];
    }
  } else {
    for (uint32_t i = size; i > 0; i--) {
      dst_memory[i - 1] = src_memory[i - 1];
    }
  }"""))

R("mcopy-memmove-helper", C, "C08",
  ("void wrapper_mcopy(int32_t", """static void move_bytes(uint8_t *dst, const uint8_t *src, uint32_t n) {
  if (dst == src || n == 0) {
    return;
  }
  if (dst < src) {
    memcpy(dst, src, n);
    return;
  }
  uint8_t *d = dst + n;
  const uint8_t *s = src + n;
  while (d != dst) {
    *--d = *--s;
  }
}

void wrapper_mcopy(int32_t"""),
  ("""  if (dst_memory > src_memory) {
    // copy backwards, the ranges may overlap
    while (size > 0) {
      size--;
      dst_memory[size] = src_memory[size];
    }
    return;
  }
  memcpy(dst_memory, src_memory, size);""", "  move_bytes(dst_memory, src_memory, size);"))

R("storage-be-cell", C, "C15 C16",
  ("void wrapper_sstore_u256(uint256_t *slot_ptr", """typedef struct {
  uint8_t bytes[32];
} be_word;
static be_word to_be_word(const uint256_t *value) {
  be_word w;
  u256_to_big_endian(*value, w.bytes);
  return w;
}
void wrapper_sstore_u256(uint256_t *slot_ptr"""),
  ("""  uint256_t slot = *slot_ptr;
  uint8_t slot_bytes[32];
  u256_to_big_endian(slot, slot_bytes);
  uint8_t value_bytes[32];
  uint256_t value = *value_ptr;
  u256_to_big_endian(value, value_bytes);
  storageStore((ADDRESS_UINT)&slot_bytes, (ADDRESS_UINT)&value_bytes);""",
  """  be_word value = to_be_word(value_ptr);
  be_word slot = to_be_word(slot_ptr);
  storageStore((ADDRESS_UINT)&slot, (ADDRESS_UINT)&value);"""))

R("immutable-restructure", C, "C16",
  ("""  uint256_t flag_slot = slot; // not full

  uint8_t flag_slot_bytes[32];
  u256_to_big_endian(flag_slot, flag_slot_bytes);
  const char prefix[] = "setimmutable_";
  for (int i = 0; i < sizeof(prefix) - 1; i++) {
    flag_slot_bytes[i] += prefix[i];
  }
""", """  static const char prefix[] = "setimmutable_";
  uint8_t flag_slot_bytes[32];
  memcpy(flag_slot_bytes, slot_bytes, 32);
  for (int i = 12; i >= 0; i--) {
    flag_slot_bytes[i] = (uint8_t)(flag_slot_bytes[i] + prefix[i]);
  }
"""),
  ("""  if (flag_value != 0) {
    revert((ADDRESS_UINT) "immutable slot already set", 26);
    return;
  }

  storageStore((ADDRESS_UINT)&slot_bytes, (ADDRESS_UINT)&value_bytes);

  flag_value_bytes[31] = 0x01;
  storageStore((ADDRESS_UINT)&flag_slot_bytes, (ADDRESS_UINT)&flag_value_bytes);
""", """  if (flag_value == 0) {
    flag_value_bytes[31] = 0x01;
    storageStore((ADDRESS_UINT)&slot_bytes, (ADDRESS_UINT)&value_bytes);
    storageStore((ADDRESS_UINT)&flag_slot_bytes, (ADDRESS_UINT)&flag_value_bytes);
  } else {
    revert((ADDRESS_UINT) "immutable slot already set", 26);
  }
"""))

R("log-common", C, "C17",
  ("void wrapper_log0(int32_t data_evm_mem", """static void emit_log(int32_t data_evm_mem, uint32_t data_size, uint32_t n,
                     bytes32 *t0, bytes32 *t1, bytes32 *t2, bytes32 *t3) {
  uint8_t *memory_ptr = evm_readable_memory(data_evm_mem, data_size);
  emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, n, (ADDRESS_UINT)t0,
               (ADDRESS_UINT)t1, (ADDRESS_UINT)t2, (ADDRESS_UINT)t3);
}

void wrapper_log0(int32_t data_evm_mem"""),
  ("""  uint8_t *memory_ptr = evm_readable_memory(data_evm_mem, data_size);
  uint32_t num_topics = 0;
  emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics, 0, 0, 0, 0);""",
   "  emit_log(data_evm_mem, data_size, 0, 0, 0, 0, 0);"),
  ("""  uint8_t *memory_ptr = evm_readable_memory(data_evm_mem, data_size);

  uint8_t *topic0 = (uint8_t *)topic0_ptr;
  uint8_t *topic1 = (uint8_t *)topic1_ptr;

  uint32_t num_topics = 2;

  emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics,
               (ADDRESS_UINT)topic0, (ADDRESS_UINT)topic1, 0, 0);""",
   "  emit_log(data_evm_mem, data_size, 2, topic0_ptr, topic1_ptr, 0, 0);"))

R("create-common", C, "C19",
  ("void wrapper_create(uint256_t *value, int32_t code", """static int32_t do_create(uint256_t *value, int32_t code_evm_mem,
                         int32_t code_length, uint8_t *salt, int32_t is_create2,
                         bytes32 *result) {
  uint8_t value_bytes[32];
  u256_to_big_endian(*value, value_bytes);
  uint8_t *code_mem = evm_readable_memory(code_evm_mem, code_length);
  uint32_t header = 0;
  for (int i = 0; i < 4; i++) {
    header = header * 256 + code_mem[i];
  }
  header += 4;
  return createContract((ADDRESS_UINT)&value_bytes, (ADDRESS_UINT)code_mem,
                        header, (ADDRESS_UINT)(code_mem + header),
                        code_length - header, (ADDRESS_UINT)salt, is_create2,
                        12 + (ADDRESS_UINT)result);
}
void wrapper_create(uint256_t *value, int32_t code"""),
  ("""  uint256_t value_u256 = *value;
  uint8_t value_bytes[32];
  u256_to_big_endian(value_u256, value_bytes);

  uint8_t *code_mem = evm_readable_memory(code_evm_mem, code_length);

  // The first 4 bytes of code_mem is a big-endian uint32_t representing the
  // wasm bytecode length The remaining bytes are calldata
  uint32_t wasm_code_length = 0;
  for (int i = 0; i < 4; i++) {
    wasm_code_length = (wasm_code_length << 8) | ((uint32_t)code_mem[i] & 0xFF);
  }

  uint32_t calldata_length = code_length - 4 - wasm_code_length;
  uint8_t *calldata_mem = code_mem + 4 + wasm_code_length;

  // Use ABI format (4 bytes wasm length + wasm code)
  int32_t ret_code =
      createContract((ADDRESS_UINT)&value_bytes, (ADDRESS_UINT)code_mem,
                     wasm_code_length + 4, (ADDRESS_UINT)calldata_mem,
                     calldata_length, 0, 0, 12 + (ADDRESS_UINT)result);
  if (ret_code == 0) {
    return;
  }
  revert((ADDRESS_UINT) "create contract failed", 22);""", """  if (do_create(value, code_evm_mem, code_length, NULL, 0, result) != 0) {
    revert((ADDRESS_UINT) "create contract failed", 22);
  }"""),
  ("""  uint256_t value_u256 = *value;
  uint8_t value_bytes[32];
  u256_to_big_endian(value_u256, value_bytes);

  uint8_t *code_mem = evm_readable_memory(code_evm_mem, code_length);

  // The first 4 bytes of code_mem is a big-endian uint32_t representing the
  // wasm bytecode length The remaining bytes are calldata
  uint32_t wasm_code_length = 0;
  for (int i = 0; i < 4; i++) {
    wasm_code_length = (wasm_code_length << 8) | ((uint32_t)code_mem[i] & 0xFF);
  }
  uint32_t calldata_length = code_length - 4 - wasm_code_length;
  uint8_t *calldata_mem = code_mem + 4 + wasm_code_length;

  uint256_t salt_u256 = *salt;
  uint8_t salt_bytes[32];
  u256_to_big_endian(salt_u256, salt_bytes);

  // Use ABI format (4 bytes wasm length + wasm code)
  int32_t ret_code = createContract(
      (ADDRESS_UINT)&value_bytes, (ADDRESS_UINT)code_mem, wasm_code_length + 4,
      (ADDRESS_UINT)calldata_mem, calldata_length, (ADDRESS_UINT)&salt_bytes, 1,
      12 + (ADDRESS_UINT)result);
  if (ret_code == 0) {
    return;
  }""", """  uint8_t salt_bytes[32];
  u256_to_big_endian(*salt, salt_bytes);
  int32_t ret_code =
      do_create(value, code_evm_mem, code_length, salt_bytes, 1, result);
  if (!ret_code)
    return;"""))

R("writecalldata-flat", C, "C18",
  ("""  if (call_status == 2) {
    revert((ADDRESS_UINT) "call contract failed", 20);
    return 0;
  } else if (out_length == 0) {
    return call_status == 0 ? 1 : 0;
  } else {
    int32_t ret_data_size = getReturnDataSize();
    if (ret_data_size < out_length) {
      if (call_status == 0) {
        // success call
        wrapper_returndata_copy(out_evm_offset, 0, ret_data_size);
        return 1; // true
      }
#define MAX_REVERT_LENGTH 1024
      static uint8_t tmp_revert_data[MAX_REVERT_LENGTH] = {0};
      if (ret_data_size == 0) {
        revert((ADDRESS_UINT) "call failed with no revert data", 31);
      } else if (ret_data_size <= MAX_REVERT_LENGTH) {
        returnDataCopy((ADDRESS_UINT)&tmp_revert_data, 0, ret_data_size);
        revert((ADDRESS_UINT)&tmp_revert_data, ret_data_size);
      } else {
        revert((ADDRESS_UINT) "out length is not enough", 24);
      }
    } else {
      wrapper_returndata_copy(out_evm_offset, 0, out_length);
    }
    return call_status == 0 ? 1 : 0; // true or false
  }""", """  const BOOL ok = call_status == 0;
  if (call_status == 2) {
    revert((ADDRESS_UINT) "call contract failed", 20);
    return 0;
  }
  if (out_length == 0) {
    return ok;
  }
  int32_t ret_data_size = getReturnDataSize();
  if (ret_data_size >= out_length) {
    wrapper_returndata_copy(out_evm_offset, 0, out_length);
    return ok;
  }
  if (ok) {
    wrapper_returndata_copy(out_evm_offset, 0, ret_data_size);
    return 1;
  }
  bubble_revert_data(ret_data_size);
  return 0;"""),
  ("BOOL write_call_data(int32_t call_status", """#define MAX_REVERT_LENGTH 1024
static void bubble_revert_data(int32_t n) {
  static uint8_t scratch[MAX_REVERT_LENGTH];
  if (n == 0) {
    revert((ADDRESS_UINT) "call failed with no revert data", 31);
    return;
  }
  if (n > MAX_REVERT_LENGTH) {
    revert((ADDRESS_UINT) "out length is not enough", 24);
    return;
  }
  returnDataCopy((ADDRESS_UINT)scratch, 0, n);
  revert((ADDRESS_UINT)scratch, n);
}

BOOL write_call_data(int32_t call_status"""))

R("precompile-loop", C, "C18",
  ("""  uint64_t *addr_u64_ptr = (uint64_t *)callee_addr_ptr;
  if (addr_u64_ptr[0] != 0 || addr_u64_ptr[1] != 0 || addr_u64_ptr[2] != 0) {
    return 0; // false
  }
  uint8_t *last_8bytes = (uint8_t *)&addr_u64_ptr[3];
  if (last_8bytes[0] != 0 || last_8bytes[1] != 0 || last_8bytes[2] != 0 ||
      last_8bytes[3] != 0 || last_8bytes[4] != 0 || last_8bytes[5] != 0 ||
      last_8bytes[6] != 0) {
    return 0; // false
  }
  uint8_t addr_last_byte = last_8bytes[7] & 0xff;
  if (addr_last_byte >= 0x01 && addr_last_byte <= 0x0a) {
    // is precompiled contract
    return 1; // true
  }
  return 0; // false""", """  const uint8_t *bytes = (const uint8_t *)callee_addr_ptr;
  for (int i = 0; i < 31; i++) {
    if (bytes[i]) {
      return 0;
    }
  }
  return bytes[31] != 0 && bytes[31] < 11;"""))

R("call-finish-helper", C, "C18",
  ("int wrapper_call_contract(uint64_t gas", """static int finish_call(int32_t status, bytes32 *callee, int32_t out_evm_offset,
                       int32_t out_length) {
  if (status == 0 || !is_precompiled_contract(callee)) {
    return write_call_data(status, out_evm_offset, out_length);
  }
  return 0;
}

int wrapper_call_contract(uint64_t gas"""),
  ("""  if (retCode != 0 && is_precompiled_contract(callee_addr_ptr)) {
    // if the callee is a precompiled contract address, no return data if failed
    return 0;
  }

  return write_call_data(retCode, out_evm_offset, out_length);""", "  return finish_call(retCode, callee_addr_ptr, out_evm_offset, out_length);"))

R("exp-while", C, "C05",
  ("""  uint256_t result_u256 = 1;
  uint256_t val = 1;
  for (;;) {
    if (exp & val) {
      result_u256 *= base;
    }
    exp >>= 1;
    if (!exp) {
      break;
    }
    base *= base;
  }
  *result = result_u256;""", """  uint256_t acc = 1;
  while (exp != 0) {
    if (exp & 1) {
      acc = acc * base;
    }
    base = base * base;
    exp = exp >> 1;
  }
  *result = acc;"""))

R("exp-for", C, "C05",
  ("""  uint256_t result_u256 = 1;
  uint256_t val = 1;
  for (;;) {
    if (exp & val) {
      result_u256 *= base;
    }
    exp >>= 1;
    if (!exp) {
      break;
    }
    base *= base;
  }
  *result = result_u256;""", """  uint256_t power = base;
  uint256_t product = 1;
  for (; exp; exp >>= 1, power *= power) {
    product *= (exp & 1) ? power : 1;
  }
  *result = product;"""))

R("signext-shift", C, "C04",
  ("""  // Calculate the number of bits to extend
  unsigned int bits_to_extend = (bits + 1) * 8;

  // Create the mask for the sign bit
  uint256_t sign_bit_mask = ((uint256_t)1) << (bits_to_extend - 1);
  uint256_t extension_mask = ~((((uint256_t)1) << bits_to_extend) - 1);

  // Check the sign bit
  if (value & sign_bit_mask) {
    // If negative, extend with 1s
    *result = value | extension_mask;
  } else {
    // If positive, extend with 0s
    *result = value & ~extension_mask;
  }""", """  unsigned int kept = 8 * bits + 8;
  uint256_t low_mask = (((uint256_t)1) << kept) - 1;
  int negative = (int)((value >> (kept - 1)) & 1);
  uint256_t low = value & low_mask;
  *result = negative ? (low | ~low_mask) : low;"""))

R("alloc-helper", C, "C10",
  ("bytes32 *memory_alloca_bytes32() {", """static void new_extra_page() {
  uint32_t before_pages = __builtin_wasm_memory_size(0);
  __builtin_wasm_memory_grow(0, 1);
  uint32_t after_pages = __builtin_wasm_memory_size(0);
  if (after_pages == before_pages) {
    __abort("wasm memory grow failed");
  }
  extra_memory_alloca_bytes32_memory_begin =
      (uint8_t *)(before_pages * WASM_PAGE_SIZE);
  extra_memory_alloca_bytes32_memory_end =
      (uint8_t *)(after_pages * WASM_PAGE_SIZE);
  extra_memory_alloca_bytes32_memory_used_size = 0;
}
static bytes32 *take_extra_cell() {
  bytes32 *cell = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                              extra_memory_alloca_bytes32_memory_used_size);
  extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
  return cell;
}

bytes32 *memory_alloca_bytes32() {"""),
  ("""  // If the predefined memory is insufficient, use additional allocated memory
  if (extra_memory_alloca_bytes32_memory_begin == NULL) {
    // grow new wasm memory page as extra alloca memory buffer
    uint32_t before_pages = __builtin_wasm_memory_size(0);
    extra_memory_alloca_bytes32_memory_begin =
        (uint8_t *)(before_pages * WASM_PAGE_SIZE);
    __builtin_wasm_memory_grow(0, 1);
    uint32_t after_pages = __builtin_wasm_memory_size(0);
    if (after_pages == before_pages) {
      __abort("wasm memory grow failed");
    }
    extra_memory_alloca_bytes32_memory_end =
        (uint8_t *)(after_pages * WASM_PAGE_SIZE);
    // allocate one bytes32 memory for return
    extra_memory_alloca_bytes32_memory_used_size = 0;
    bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                                  extra_memory_alloca_bytes32_memory_used_size);
    extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
    return result;
  }
""", """  if (extra_memory_alloca_bytes32_memory_begin == NULL) {
    new_extra_page();
    return take_extra_cell();
  }
"""),
  ("""    // if extra memory buffer is not enough, allocate new memory buffer
    uint32_t before_pages = __builtin_wasm_memory_size(0);
    __builtin_wasm_memory_grow(0, 1);
    uint32_t after_pages = __builtin_wasm_memory_size(0);
    if (after_pages == before_pages) {
      __abort("wasm memory grow failed");
    }
    // the new page need not follow the previous one, EVM memory may have grown
    extra_memory_alloca_bytes32_memory_begin =
        (uint8_t *)(before_pages * WASM_PAGE_SIZE);
    extra_memory_alloca_bytes32_memory_used_size = 0;
    extra_memory_alloca_bytes32_memory_end =
        (uint8_t *)(after_pages * WASM_PAGE_SIZE);
    bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                                  extra_memory_alloca_bytes32_memory_used_size);
    extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
    return result;
  }""", "    new_extra_page();\n  }\n"),
  ("""  // have enough extra alloca memory buffer
  bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                                extra_memory_alloca_bytes32_memory_used_size);
  extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
  return result;
""", "  return take_extra_cell();\n"))

R("allocmem-order", C, "C11",
  ("""  int32_t mem_ptr = wrapper_get_memptr_global();
  if (size > 0x7fffffe0U) {
    __abort("allocate memory failed");
  }
  uint32_t new_free_ptr = (uint32_t)mem_ptr + ((size + 31) & ~31U);
  if (new_free_ptr > INT32_MAX || new_free_ptr < (uint32_t)mem_ptr) {
    __abort("allocate memory failed");
  }
  wrapper_set_memptr_global(new_free_ptr);
  return mem_ptr;""", """  int32_t mem_ptr = evm_memptr_global;
  uint32_t rounded = (size + 31U) / 32U * 32U;
  uint32_t new_free_ptr = (uint32_t)mem_ptr + rounded;
  BOOL bad = size > 0x7fffffe0U;
  bad = bad || new_free_ptr > INT32_MAX;
  bad = bad || new_free_ptr < (uint32_t)mem_ptr;
  if (bad) {
    __abort("allocate memory failed");
  }
  evm_memptr_global = (int32_t)new_free_ptr;
  return mem_ptr;"""))

R("erc20-helper", C, "C20",
  ("void wrapper_optimized_erc20_fun_transfer(bytes32 *from", """static void balance_slot(const bytes32 *account, uint8_t *slot) {
  uint8_t preimage[64] = {0};
  memcpy(preimage + 12, (const uint8_t *)account + 12, 20);
  keccak256((ADDRESS_UINT)preimage, 0x40, (ADDRESS_UINT)slot);
}
void wrapper_optimized_erc20_fun_transfer(bytes32 *from"""),
  ("""  uint8_t tmp_to_keccak256[64] = {0};
  memcpy(tmp_to_keccak256, from, 32);
  keccak256((ADDRESS_UINT)tmp_to_keccak256, 0x40,
            (ADDRESS_UINT)tmp_keccak256_result);
""", "  balance_slot(from, tmp_keccak256_result);\n"),
  ("""  memcpy(tmp_to_keccak256, to, 32);
  keccak256((ADDRESS_UINT)tmp_to_keccak256, 0x40,
            (ADDRESS_UINT)tmp_keccak256_result);
""", "  balance_slot(to, tmp_keccak256_result);\n"))

R("erc20-reverts", C, "C20",
  ("""  if (is_zero_address(((uint8_t *)from) + 12)) {""", """  const BOOL from_is_zero = is_zero_address((uint8_t *)from + 12);
  const BOOL to_is_zero = is_zero_address((uint8_t *)to + 12);
  if (from_is_zero) {"""),
  ("  if (is_zero_address(((uint8_t *)to) + 12)) {", "  if (to_is_zero) {"),
  ("""  uint64_t *bytes20_u64 = (uint64_t *)bytes20;
  uint32_t *bytes20_u32 = (uint32_t *)bytes20;
  return bytes20_u64[0] == 0 && bytes20_u64[1] == 0 && bytes20_u32[4] == 0;""", """  for (int i = 0; i < 20; i++) {
    if (bytes20[i] != 0) {
      return 0;
    }
  }
  return 1;"""),
  ("""    uint8_t bigendian_balance[32];
    u256_to_big_endian_bytes(&tmp_balance_u256, (uint8_t *)bigendian_balance);
    memcpy(revert_msg + 36, bigendian_balance, 32);
""", "    u256_to_big_endian_bytes(&tmp_balance_u256, revert_msg + 36);\n"))

R("cmp-helper", M, "C01",
  ("BOOL wrapper_bytes32_lt(const bytes32 *a, const bytes32 *b) {", """static int cmp_bytes(const uint8_t *a, const uint8_t *b) {
  for (int i = 0; i < 32; i++) {
    if (a[i] != b[i]) {
      return a[i] < b[i] ? -1 : 1;
    }
  }
  return 0;
}

BOOL wrapper_bytes32_lt(const bytes32 *a, const bytes32 *b) {
  return cmp_bytes((const uint8_t *)a, (const uint8_t *)b) < 0;
}
BOOL old_lt(const bytes32 *a, const bytes32 *b) {"""),
  ("BOOL wrapper_bytes32_gt(const bytes32 *a, const bytes32 *b) {\n", "BOOL wrapper_bytes32_gt(const bytes32 *a, const bytes32 *b) {\n  return wrapper_bytes32_lt(b, a);\n"),
  ("""  int sign_a = (a_bytes[0] & 0x80) != 0;
  int sign_b = (b_bytes[0] & 0x80) != 0;

  if (sign_a != sign_b) {
    return sign_a; // If signs differ, the negative number (sign=1) is smaller
  }

  // If signs are the same, perform comparison based on magnitude
  // For signed comparison, the rest of the bytes are compared normally
  for (int i = 0; i < 32; i++) {
    if (a_bytes[i] < b_bytes[i]) {
      return 1; // a is smaller
    } else if (a_bytes[i] > b_bytes[i]) {
      return 0; // a is larger
    }
  }

  return 0; // a == b""", """  int8_t top_a = (int8_t)a_bytes[0];
  int8_t top_b = (int8_t)b_bytes[0];
  if (top_a != top_b) {
    return top_a < top_b;
  }
  return cmp_bytes(a_bytes, b_bytes) < 0;"""))

R("eq-xor", M, "C01",
  ("""  uint64_t *a_as_u64_array = (uint64_t *)a;
  uint64_t *b_as_u64_array = (uint64_t *)b;
  for (int i = 0; i < 4; i++) {
    if (a_as_u64_array[i] != b_as_u64_array[i]) {
      return 0; // a != b
    }
  }
  return 1; // a == b""", """  const uint64_t *x = (const uint64_t *)a;
  const uint64_t *y = (const uint64_t *)b;
  uint64_t diff = 0;
  int i = 4;
  while (i-- > 0) {
    diff |= x[i] ^ y[i];
  }
  return diff == 0;"""))

R("shl-bytes", M, "C03",
  ("""  uint64_t *value_as_u64_array = (uint64_t *)value;

  int32_t shift_64_count = shift / 64;
  int32_t shift_remainer = shift % 64;

  uint64_t shift_partial[4];
  for (int i = 0; i < 4 - shift_64_count; i++) {
    shift_partial[i] = value_as_u64_array[i + shift_64_count];
  }
  for (int i = 4 - shift_64_count; i < 4; i++) {
    shift_partial[i] = 0;
  }
  return wrapper_bytes32_shl((const bytes32 *)shift_partial, shift_remainer,
                             result);""", """  const uint64_t *value_as_u64_array = (const uint64_t *)value;
  int32_t words = shift >> 6;
  uint64_t shift_partial[4] = {0, 0, 0, 0};
  for (int i = words; i < 4; i++) {
    shift_partial[i - words] = value_as_u64_array[i];
  }
  wrapper_bytes32_shl((const bytes32 *)shift_partial, shift & 63, result);"""))

R("shl-u256", M, "C03",
  ("""  if (shift <= 64) {
    // when""", """  if (shift < 256) {
    uint256_t v;
    u256_from_big_endian_bytes((uint8_t *)value, &v);
    v <<= shift;
    u256_to_big_endian_bytes(&v, (uint8_t *)result);
    return;
  }
  if (shift <= 64) {
    // when"""))

R("shr-back", M, "C03",
  ("""  __memset(res_bytes, 0, sizeof(bytes32));

  for (int i = 0; i < 32 - byte_shift; i++) {
    uint16_t current_byte = val_bytes[i];
    uint16_t shifted_chunk = current_byte >> bit_shift;

    res_bytes[i + byte_shift] |= (shifted_chunk & 0xFF);
    if (i > 0 && bit_shift > 0) { // Add carry from previous byte's shift
      uint16_t carry_byte = val_bytes[i - 1];
      uint16_t carry_shifted =
          (carry_byte << (8 - bit_shift)) & 0xFF; // Get bits shifted out
      res_bytes[i + byte_shift] |= carry_shifted;
    }
  }""", """  for (int i = 31; i >= 0; i--) {
    int from = i - byte_shift;
    if (from < 0) {
      res_bytes[i] = 0;
      continue;
    }
    uint16_t pair = (uint16_t)(val_bytes[from] |
                               (from > 0 ? val_bytes[from - 1] << 8 : 0));
    res_bytes[i] = (uint8_t)(pair >> bit_shift);
  }"""))

R("add-words", M, "C02",
  ("""  uint8_t *a_bytes = (uint8_t *)a;
  uint8_t *b_bytes = (uint8_t *)b;
  uint8_t *result_bytes = (uint8_t *)result;
  uint8_t carry = 0;
  for (int i = 31; i >= 0; i--) {
    uint32_t sum =
        (uint32_t)a_bytes[i] + (uint32_t)b_bytes[i] + (uint32_t)carry;
    result_bytes[i] = (uint8_t)(sum & 0xff);
    carry = sum >> 8; // Check for overflow, 1 or 0
  }""", """  const uint32_t *x = (const uint32_t *)a;
  const uint32_t *y = (const uint32_t *)b;
  uint32_t *out = (uint32_t *)result;
  uint64_t acc = 0;
  for (int i = 7; i >= 0; i--) {
    acc += (uint64_t)__builtin_bswap32(x[i]) + __builtin_bswap32(y[i]);
    out[i] = __builtin_bswap32((uint32_t)acc);
    acc >>= 32;
  }"""))

R("add-u256", M, "C02",
  ("""  uint8_t *a_bytes = (uint8_t *)a;
  uint8_t *b_bytes = (uint8_t *)b;
  uint8_t *result_bytes = (uint8_t *)result;
  uint8_t carry = 0;
  for (int i = 31; i >= 0; i--) {
    uint32_t sum =
        (uint32_t)a_bytes[i] + (uint32_t)b_bytes[i] + (uint32_t)carry;
    result_bytes[i] = (uint8_t)(sum & 0xff);
    carry = sum >> 8; // Check for overflow, 1 or 0
  }""", """  uint256_t x, y;
  u256_from_big_endian_bytes((uint8_t *)a, &x);
  u256_from_big_endian_bytes((uint8_t *)b, &y);
  x += y;
  u256_to_big_endian_bytes(&x, (uint8_t *)result);"""))

R("bitop-bytes", M, "C02",
  ("""  const uint64_t *ptr_a = (const uint64_t *)a;
  const uint64_t *ptr_b = (const uint64_t *)b;
  uint64_t *ptr_result = (uint64_t *)result;
  // Process 4 uint64_t values (32 bytes total)
  for (int i = 0; i < 4; i++) {
    ptr_result[i] = ptr_a[i] & ptr_b[i];
  }""", """  const uint8_t *pa = (const uint8_t *)a, *pb = (const uint8_t *)b;
  const uint8_t *end = pa + sizeof(bytes32);
  uint8_t *out = (uint8_t *)result;
  while (pa != end) {
    *out++ = *pa++ & *pb++;
  }"""))

R("growth-restructure", E, "C09 C07",
  ("""  if (evm_memory_full_size < size) {
    uint32_t target_evm_pages = (size + WASM_PAGE_SIZE - 1) / WASM_PAGE_SIZE;
    uint32_t grow_pages =
        target_evm_pages - evm_memory_full_size / WASM_PAGE_SIZE;
    if (__builtin_wasm_memory_grow(0, grow_pages) == -1) {
      __abort("__malloc: failed");
    };
    evm_memory_end += (grow_pages * WASM_PAGE_SIZE);
    evm_memory_size = size;
    evm_memory_full_size = target_evm_pages * WASM_PAGE_SIZE;
    return evm_memory_begin;
  }
  if (evm_memory_size < size) {
    // EVM memory is allocated but not accessible for the requested size
    evm_memory_size = size;
  }
""", """  if (size > evm_memory_full_size) {
    grow_window(size);
  }
  if (size > evm_memory_size) {
    evm_memory_size = size;
  }
"""),
  ("uint8_t *evm_make_sure_memory(uint32_t size) {", """static void grow_window(uint32_t size) {
  uint32_t have = evm_memory_full_size / WASM_PAGE_SIZE;
  uint32_t want = (size + WASM_PAGE_SIZE - 1) / WASM_PAGE_SIZE;
  uint32_t extra = want - have;
  if (__builtin_wasm_memory_grow(0, extra) == -1) {
    __abort("__malloc: failed");
  }
  evm_memory_full_size = want * WASM_PAGE_SIZE;
  evm_memory_end += extra * WASM_PAGE_SIZE;
}

uint8_t *evm_make_sure_memory(uint32_t size) {"""))

R("growth-drop-end", E, "C09 C07",
  ("static uint8_t *evm_memory_end = 0;\n", ""),
  ("    evm_memory_end += (grow_pages * WASM_PAGE_SIZE);\n", ""),
  ("    evm_memory_end = evm_memory_begin + EVM_MEMORY_MAX_SIZE;\n", ""),
  ("    evm_memory_end = (uint8_t *)(after_pages * WASM_PAGE_SIZE);\n", ""),
  ("        (uint32_t)evm_memory_end - (uint32_t)evm_memory_begin;", "        (after_pages - init_memory_pages) * WASM_PAGE_SIZE;"))

R("growth-rename", E, "C09 C07 C13",
  ("evm_memory_begin", "window_start"), ("evm_memory_full_size", "window_capacity"), ("evm_memory_size", "window_used"), ("inited_before", "window_ready"),
  ("evm_memory_end", "window_end"))

R("init-helper", E, "C09",
  ("""    // small contract
    evm_memory_begin = evm_memory_init_buffer;
    evm_memory_end = evm_memory_begin + EVM_MEMORY_MAX_SIZE;
    evm_memory_size = 0;
    evm_memory_full_size = EVM_MEMORY_MAX_SIZE;
""", """    // small contract
    set_window(evm_memory_init_buffer, EVM_MEMORY_MAX_SIZE);
"""),
  ("""    evm_memory_end = (uint8_t *)(after_pages * WASM_PAGE_SIZE);
    evm_memory_size = 0;
    evm_memory_full_size =
        (uint32_t)evm_memory_end - (uint32_t)evm_memory_begin;
""", """    set_window(evm_memory_begin,
               (after_pages - init_memory_pages) * WASM_PAGE_SIZE);
"""),
  ("void __init_evm_heap(int32_t", """static void set_window(uint8_t *begin, uint32_t bytes) {
  evm_memory_begin = begin;
  evm_memory_full_size = bytes;
  evm_memory_end = begin + bytes;
  evm_memory_size = 0;
}

void __init_evm_heap(int32_t"""))

R("libc-loops", S, "C22 C08 C07 C12",
  ("""  if (length == 0) {
    return;
  }
  uint8_t *dest = _dest;

  do {
    *dest++ = val;
  } while (--length);""", """  uint8_t *dest = _dest;
  for (size_t i = 0; i < length; i++) {
    dest[i] = val;
  }"""),
  ("""  while (length--) {
    *dest++ = *src++;
  }
  return _dest;""", """  for (uint32_t i = 0; i != length; ++i) {
    dest[i] = src[i];
  }
  return dest;"""),
  ("""  while (left_len--) {
    if (*left++ != *right++)
      return false;
  }

  return true;""", """  for (uint32_t i = 0; i < left_len; i++) {
    if (left[i] != right[i]) {
      return false;
    }
  }
  return true;"""))

R("libc-end-pointer", S, "C22 C08",
  ("""  while (length--) {
    *dest++ = *src++;
  }
  return _dest;""", """  uint8_t *const end = dest + length;
  while (dest < end) {
    *dest = *src;
    dest += 1;
    src += 1;
  }
  return _dest;"""),
  ("""  do {
    *dest++ = val;
  } while (--length);""", """  uint8_t *end = dest + length;
  while (end != dest) {
    *--end = val;
  }"""))

R("libc-words", S, "C22 C08",
  ("""  while (length--) {
    *dest++ = *src++;
  }
  return _dest;""", """  while (length >= 8) {
    for (int i = 0; i < 8; i++) {
      dest[i] = src[i];
    }
    dest += 8;
    src += 8;
    length -= 8;
  }
  while (length > 0) {
    *dest++ = *src++;
    length--;
  }
  return _dest;"""))

R("itoa-restructure", U, "C23",
  ("""  int is_negative = 0;
  uint32_t magnitude = (uint32_t)value;

  // Handle negative numbers
  if (value < 0) {
    is_negative = 1;
    magnitude = 0 - magnitude; // Convert to positive for processing
  }
""", """  const int is_negative = value < 0;
  uint32_t magnitude = is_negative ? 0u - (uint32_t)value : (uint32_t)value;
"""),
  ("""    for (int j = 0; j < index / 2; j++) {
      char temp = str_buffer[j];
      str_buffer[j] = str_buffer[index - 1 - j];
      str_buffer[index - 1 - j] = temp;
    }""", """    for (int lo = 0, hi = index - 1; lo < hi; lo++, hi--) {
      char temp = str_buffer[lo];
      str_buffer[lo] = str_buffer[hi];
      str_buffer[hi] = temp;
    }"""),
  ("""  uint32_t str_len = 0;
  for (int i = 0;; i++) {
    if (str[i] == '\\0') {
      break;
    }
    str_len++;
  }
  debug_bytes((ADDRESS_UINT)str, str_len);""", """  const char *end = str;
  while (*end != '\\0') {
    end++;
  }
  debug_bytes((ADDRESS_UINT)str, (int32_t)(end - str));"""))

R("be-loops", C, "C06 C07 C15",
  ("""  for (int i = 0; i < 32; i++) {
    // write from the largest bytes position
    memory_ptr[i] = (value >> (248 - i * 8)) & 0xFF;
  }""", """  uint256_t rest = value;
  for (int i = 31; i >= 0; i--) {
    memory_ptr[i] = (uint8_t)rest;
    rest >>= 8;
  }"""),
  ("""  // Clear first 28 bytes (3 i64 clears and 1 i32 clear)
  uint64_t *memory_ptr_u64 = (uint64_t *)memory_ptr;
  uint32_t *memory_ptr_u32 = (uint32_t *)memory_ptr;
  for (int i = 0; i < 3; i++) {
    memory_ptr_u64[i] = 0;
  }
  memory_ptr_u32[6] = 0;
  // Write int32 value in big endian format to last 4 bytes
  for (int i = 0; i < 4; i++) {
    memory_ptr[28 + i] = (value >> (24 - i * 8)) & 0xFF;
  }""", """  __memset(memory_ptr, 0, 28);
  uint32_t swapped = __builtin_bswap32((uint32_t)value);
  memcpy(memory_ptr + 28, &swapped, sizeof(swapped));"""))

R("from-be-swap", C, "C06 C07",
  ("""  uint8_t *result_bytes_ptr = (uint8_t *)result;
  for (int i = 0; i < 32; i++) {
    result_bytes_ptr[i] = memory_ptr[31 - i];
  }""", """  uint256_t acc = 0;
  for (int i = 0; i < 32; i++) {
    acc = (acc << 8) | memory_ptr[i];
  }
  *result = acc;"""))

R("deploy-flag", C, "C13",
  ("static int32_t is_deploying_tx_flag = 0; // 1 (true), 0 (false)", "static BOOL deploying = 0;"),
  ("is_deploying_tx_flag", "deploying"),
  ("""  if (deploying) {
    return (uint32_t)(getCodeSize() + cachedCallDataSize());
  }
  return (uint32_t)getCodeSize();""", """  uint32_t total = (uint32_t)getCodeSize();
  if (deploying) {
    total += (uint32_t)cachedCallDataSize();
  }
  return total;"""))

R("deploy-flag-enum", C, "C13",
  ("static int32_t is_deploying_tx_flag = 0; // 1 (true), 0 (false)", "static enum { MODE_CALL, MODE_DEPLOY } tx_mode = MODE_CALL;"),
  ("void set_is_deploying_tx() { is_deploying_tx_flag = 1; }", "void set_is_deploying_tx() { tx_mode = MODE_DEPLOY; }"),
  ("int32_t is_deploying_tx() { return is_deploying_tx_flag; }", "int32_t is_deploying_tx() { return tx_mode == MODE_DEPLOY; }"),
  ("  if (is_deploying_tx_flag) {", "  if (is_deploying_tx()) {"))

R("msize-etc", C, "C21 C14",
  ("""  uint8_t *memory_ptr = evm_readable_memory(evm_mem, size);
  keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);""", """  const ADDRESS_UINT input = (ADDRESS_UINT)evm_readable_memory(evm_mem, size);
  const ADDRESS_UINT output = (ADDRESS_UINT)result;
  keccak256(input, (int32_t)size, output);"""),
  ("""  uint8_t *error_msg_ptr = evm_readable_memory(error_msg_evm_mem, size);
  revert((ADDRESS_UINT)error_msg_ptr, size);""", "  revert((ADDRESS_UINT)evm_readable_memory(error_msg_evm_mem, size), size);"),
  ("void wrapper_stop() { finish(0, 0); }", """void wrapper_stop() {
  const ADDRESS_UINT nothing = 0;
  finish(nothing, 0);
}"""))

R("cache-one-flag", C, "C12 C13",
  ("""static int32_t cachedCallDataSize() {
  static int32_t cached = -1;
  if (cached < 0) {
    cached = getCallDataSize();
  }
  return cached;
}""", """#define CACHED_CALLDATA_COPY_THRESHOLD 100
static BOOL calldata_loaded = 0;
static int32_t calldata_total = 0;
static uint8_t cached_calldata[CACHED_CALLDATA_COPY_THRESHOLD] = {0};
static void load_calldata() {
  if (calldata_loaded) {
    return;
  }
  calldata_total = getCallDataSize();
  if (calldata_total <= CACHED_CALLDATA_COPY_THRESHOLD) {
    callDataCopy((ADDRESS_UINT)cached_calldata, 0, calldata_total);
  }
  calldata_loaded = 1;
}
static int32_t cachedCallDataSize() {
  load_calldata();
  return calldata_total;
}"""),
  ("""#define CACHED_CALLDATA_COPY_THRESHOLD 100
  if (calldata_size >""", "  if (calldata_size >"),
  ("""  static uint8_t cached_calldata[CACHED_CALLDATA_COPY_THRESHOLD] = {0};
  static BOOL cached = 0;
  if (!cached) {
    callDataCopy((ADDRESS_UINT)cached_calldata, 0, calldata_size);
    cached = 1;
  }
""", ""))

R("cache-struct", C, "C12 C13",
  ("""static int32_t cachedCallDataSize() {
  static int32_t cached = -1;
  if (cached < 0) {
    cached = getCallDataSize();
  }
  return cached;
}""", """#define CACHED_CALLDATA_COPY_THRESHOLD 100
static struct {
  int32_t size;
  BOOL filled;
  uint8_t bytes[CACHED_CALLDATA_COPY_THRESHOLD];
} calldata_cache = {-1, 0, {0}};
static int32_t cachedCallDataSize() {
  if (calldata_cache.size < 0) {
    calldata_cache.size = getCallDataSize();
  }
  return calldata_cache.size;
}"""),
  ("""#define CACHED_CALLDATA_COPY_THRESHOLD 100
  if (calldata_size >""", "  if (calldata_size >"),
  ("""  static uint8_t cached_calldata[CACHED_CALLDATA_COPY_THRESHOLD] = {0};
  static BOOL cached = 0;
  if (!cached) {
    callDataCopy((ADDRESS_UINT)cached_calldata, 0, calldata_size);
    cached = 1;
  }
  memcpy((void *)memory_ptr, cached_calldata + offset, size);""", """  if (!calldata_cache.filled) {
    callDataCopy((ADDRESS_UINT)calldata_cache.bytes, 0, calldata_size);
    calldata_cache.filled = 1;
  }
  memcpy((void *)memory_ptr, calldata_cache.bytes + offset, size);"""))

R("window-struct", E, "C07 C08 C09 C13 C17 C18 C19 C21",
  ("static int32_t inited_before = 0; // 1 is true, 0 is false", """static struct {
  int32_t ready;
  uint8_t *begin;
  uint8_t *end;
  uint32_t used;
  uint32_t full;
} window = {0};"""),
  ("static uint8_t *evm_memory_begin = 0;\n", ""), ("static uint8_t *evm_memory_end = 0;\n", ""),
  ("static uint32_t evm_memory_size = 0; // accessible memory range\n", ""), ("static uint32_t evm_memory_full_size = 0;\n", ""),
  ("evm_memory_begin", "window.begin"), ("evm_memory_end", "window.end"), ("evm_memory_size", "window.used"),
  ("evm_memory_full_size", "window.full"), ("inited_before", "window.ready"))

R("window-full-from-end", E, "C07 C08 C09 C13 C17",
  ("static uint32_t evm_memory_full_size = 0;\n", "static uint32_t full_size() { return (uint32_t)(evm_memory_end - evm_memory_begin); }\n"),
  ("""    evm_memory_size = 0;
    evm_memory_full_size =
        (uint32_t)evm_memory_end - (uint32_t)evm_memory_begin;
""", "    evm_memory_size = 0;\n"),
  ("    evm_memory_full_size = EVM_MEMORY_MAX_SIZE;\n", ""),
  ("    evm_memory_full_size = target_evm_pages * WASM_PAGE_SIZE;\n", ""),
  ("evm_memory_full_size", "full_size()"))

R("alloc-struct", C, "C10",
  ("""static uint8_t *extra_memory_alloca_bytes32_memory_begin = NULL;
static uint8_t *extra_memory_alloca_bytes32_memory_end = NULL;
static uint32_t extra_memory_alloca_bytes32_memory_used_size = 0;
""", """static struct {
  uint8_t *begin;
  uint8_t *end;
  uint32_t used;
} extra = {NULL, NULL, 0};
"""),
  ("extra_memory_alloca_bytes32_memory_begin", "extra.begin"), ("extra_memory_alloca_bytes32_memory_end", "extra.end"),
  ("extra_memory_alloca_bytes32_memory_used_size", "extra.used"))

R("memptr-struct", C, "C11 C20",
  ("static int32_t evm_memptr_global = 0;", "static struct { int32_t free_ptr; } evm_state;"),
  ("evm_memptr_global", "evm_state.free_ptr"))

R("window-pointer", E, "C07 C09 C17",
  ("static int32_t inited_before = 0; // 1 is true, 0 is false", """struct evm_window {
  int32_t ready;
  uint8_t *begin;
  uint8_t *end;
  uint32_t used;
  uint32_t full;
};
static struct evm_window the_window = {0};
static struct evm_window *window() { return &the_window; }"""),
  ("static uint8_t *evm_memory_begin = 0;\n", ""), ("static uint8_t *evm_memory_end = 0;\n", ""),
  ("static uint32_t evm_memory_size = 0; // accessible memory range\n", ""), ("static uint32_t evm_memory_full_size = 0;\n", ""),
  ("evm_memory_begin", "window()->begin"), ("evm_memory_end", "window()->end"), ("evm_memory_size", "window()->used"),
  ("evm_memory_full_size", "window()->full"), ("inited_before", "window()->ready"))

R("window-pages", E, "C07 C09 C12",
  ("static uint32_t evm_memory_full_size = 0;\n", "static uint32_t evm_memory_extra_pages = 0;\nstatic uint32_t evm_memory_base_size = 0;\n"),
  ("""    evm_memory_full_size =
        (uint32_t)evm_memory_end - (uint32_t)evm_memory_begin;
""", "    evm_memory_base_size = WASM_PAGE_SIZE;\n"),
  ("    evm_memory_full_size = EVM_MEMORY_MAX_SIZE;\n", "    evm_memory_base_size = EVM_MEMORY_MAX_SIZE;\n"),
  ("""        target_evm_pages - evm_memory_full_size / WASM_PAGE_SIZE;""", """        target_evm_pages - full / WASM_PAGE_SIZE;"""),
  ("""  if (evm_memory_full_size < size) {""", """  uint32_t full = evm_memory_base_size + evm_memory_extra_pages * WASM_PAGE_SIZE;
  if (full < size) {"""),
  ("    evm_memory_full_size = target_evm_pages * WASM_PAGE_SIZE;\n", "    evm_memory_base_size = target_evm_pages * WASM_PAGE_SIZE;\n    evm_memory_extra_pages = 0;\n"))

R("alloc-bump", C, "C10",
  ("static uint32_t extra_memory_alloca_bytes32_memory_used_size = 0;\n", "static uint8_t *extra_next = NULL;\n"),
  ("""    extra_memory_alloca_bytes32_memory_used_size = 0;
    bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                                  extra_memory_alloca_bytes32_memory_used_size);
    extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
    return result;
  }
  if ((extra_memory_alloca_bytes32_memory_begin +
       extra_memory_alloca_bytes32_memory_used_size + sizeof(bytes32)) >=
      extra_memory_alloca_bytes32_memory_end) {""", """    extra_next = extra_memory_alloca_bytes32_memory_begin + sizeof(bytes32);
    return (bytes32 *)extra_memory_alloca_bytes32_memory_begin;
  }
  if (extra_next + sizeof(bytes32) >= extra_memory_alloca_bytes32_memory_end) {"""),
  ("""    extra_memory_alloca_bytes32_memory_used_size = 0;
    extra_memory_alloca_bytes32_memory_end =
        (uint8_t *)(after_pages * WASM_PAGE_SIZE);
    bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                                  extra_memory_alloca_bytes32_memory_used_size);
    extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
    return result;
""", """    extra_memory_alloca_bytes32_memory_end =
        (uint8_t *)(after_pages * WASM_PAGE_SIZE);
    extra_next = extra_memory_alloca_bytes32_memory_begin;
"""),
  ("""  bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                                extra_memory_alloca_bytes32_memory_used_size);
  extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
  return result;
""", """  bytes32 *result = (bytes32 *)extra_next;
  extra_next += sizeof(bytes32);
  return result;
"""))

R("alloc-static-index", C, "C10",
  ("""    return &memory_alloca_bytes32_buffer
        [memory_alloca_bytes32_buffer_used_count++];""", """    uint32_t index = memory_alloca_bytes32_buffer_used_count;
    memory_alloca_bytes32_buffer_used_count = index + 1;
    return memory_alloca_bytes32_buffer + index;"""),
  ("""bytes32 *memory_alloca_bytes32() {""", """static BOOL buffer_has_room() {
  return memory_alloca_bytes32_buffer_used_count !=
         MEMORY_ALLOCA_BYTES32_BUFFER_COUNT;
}
bytes32 *memory_alloca_bytes32() {"""),
  ("""  if (memory_alloca_bytes32_buffer_used_count <
      MEMORY_ALLOCA_BYTES32_BUFFER_COUNT) {""", "  if (buffer_has_room()) {"))

R("goto-style", C, "C12 C13 C18",
  ("""  int32_t cur_code_size = getCodeSize();

  if (evm_memory_offset < cur_code_size) {""", """  int32_t cur_code_size = getCodeSize();
  if (size == 0) {
    return;
  }

  if (evm_memory_offset < cur_code_size) {"""),
  ("""  if (retCode != 0 && is_precompiled_contract(callee_addr_ptr)) {
    // if the callee is a precompiled contract address, no return data if failed
    return 0;
  }

  return write_call_data(retCode, out_evm_offset, out_length);""", """  switch (retCode) {
  case 0:
    break;
  default:
    if (is_precompiled_contract(callee_addr_ptr))
      return 0;
  }
  return write_call_data(retCode, out_evm_offset, out_length);"""))

U, G = "src/yul2ir/utils.rs", "src/yul.lalrpop"
R("rs-merge-vec", U, "C32",
  ("""    let length_prefix = u32::to_be_bytes(wasm_bytes.len() as u32);
    let length_prefix = length_prefix.as_slice();

    [length_prefix, wasm_bytes].concat()""", """    let mut framed = Vec::with_capacity(4 + wasm_bytes.len());
    framed.extend_from_slice(&(wasm_bytes.len() as u32).to_be_bytes());
    framed.extend_from_slice(wasm_bytes);
    framed"""))
R("rs-merge-push", U, "C32",
  ("""    let length_prefix = u32::to_be_bytes(wasm_bytes.len() as u32);
    let length_prefix = length_prefix.as_slice();

    [length_prefix, wasm_bytes].concat()""", """    let len = wasm_bytes.len() as u32;
    let mut out: Vec<u8> = Vec::new();
    for shift in [24, 16, 8, 0] {
        out.push((len >> shift) as u8);
    }
    out.extend(wasm_bytes.iter().copied());
    out"""))
R("rs-merge-helper", U, "C32",
  ("""    let length_prefix = u32::to_be_bytes(wasm_bytes.len() as u32);
    let length_prefix = length_prefix.as_slice();

    [length_prefix, wasm_bytes].concat()""", """    let prefix = length_prefix(wasm_bytes);
    [&prefix[..], wasm_bytes].concat()"""),
  ("""// Add a 4-byte big-endian""", """fn length_prefix(bytes: &[u8]) -> [u8; 4] {
    (bytes.len() as u32).to_be_bytes()
}

// Add a 4-byte big-endian"""))
R("rs-comments-helper", U, "C30",
  ("""                            // Skip until end of line and replace with empty line
                            for c in chars.by_ref() {
                                if c == '\\n' {
                                    result.push('\\n');
                                    break;
                                }
                            }
""", """                            if skip_line(&mut chars) {
                                result.push('\\n');
                            }
"""),
  ("""/// remove // comment line and""", """fn skip_line(chars: &mut Chars<'_>) -> bool {
    for c in chars.by_ref() {
        if c == '\\n' {
            return true;
        }
    }
    false
}

/// remove // comment line and"""))
R("rs-comments-whilelet", U, "C30",
  ("""                            for c in chars.by_ref() {
                                if after_star && c == '/' {
                                    in_multiline = false;
                                    break;
                                }
                                after_star = c == '*';
                            }""", """                            while let Some(d) = chars.next() {
                                if d == '/' && after_star {
                                    in_multiline = false;
                                    break;
                                }
                                after_star = d == '*';
                            }"""),
  ("let mut result = String::new();\n    let mut chars", "let mut result = String::with_capacity(code.len());\n    let mut chars"))
R("rs-comments-peekable", U, "C30",
  ("""    let mut chars = code.chars();
    let mut in_multiline""", """    let mut chars = code.chars().peekable();
    let mut in_multiline"""))
R("rs-comments-any", U, "C30",
  ("""                            for c in chars.by_ref() {
                                if c == '\\n' {
                                    result.push('\\n');
                                    break;
                                }
                            }""", """                            if chars.any(|c| c == '\\n') {
                                result.push('\\n');
                            }"""))
R("rs-comments-quote", U, "C30",
  ("""                    if let Some(sc) = string_char {
                        if sc == c {
                            in_string = false;
                            string_char = None;
                        }
                    } else {
                        in_string = true;
                        string_char = Some(c);
                    }""", """                    match string_char {
                        Some(sc) if sc == c => {
                            string_char = None;
                            in_string = false;
                        }
                        Some(_) => {}
                        None => {
                            string_char = Some(c);
                            in_string = true;
                        }
                    }"""))
R("rs-comments-machine", U, "C30",
  (open("/repo/src/yul2ir/utils.rs").read().split("pub fn remove_comments")[1].split("\n#[test]")[0], """(code: &str) -> String {
    #[derive(Clone, Copy, PartialEq)]
    enum State {
        Code,
        Slash,
        Line,
        Block,
        BlockStar,
        Str(char),
        Escape(char),
    }
    let mut state = State::Code;
    let mut out = String::new();
    for c in code.chars() {
        state = match (state, c) {
            (State::Code, '/') => State::Slash,
            (State::Code, '"') | (State::Code, '\\'') => {
                out.push(c);
                State::Str(c)
            }
            (State::Code, _) => {
                out.push(c);
                State::Code
            }
            (State::Slash, '/') => State::Line,
            (State::Slash, '*') => State::Block,
            (State::Slash, _) => {
                out.push('/');
                out.push(c);
                if c == '"' || c == '\\'' {
                    State::Str(c)
                } else {
                    State::Code
                }
            }
            (State::Line, '\\n') => {
                out.push(c);
                State::Code
            }
            (State::Line, _) => State::Line,
            (State::Block, '*') | (State::BlockStar, '*') => State::BlockStar,
            (State::BlockStar, '/') => State::Code,
            (State::Block, _) | (State::BlockStar, _) => State::Block,
            (State::Str(q), '\\\\') => {
                out.push(c);
                State::Escape(q)
            }
            (State::Str(q), _) => {
                out.push(c);
                if c == q {
                    State::Code
                } else {
                    State::Str(q)
                }
            }
            (State::Escape(q), _) => {
                out.push(c);
                State::Str(q)
            }
        };
    }
    if state == State::Slash {
        out.push('/');
    }
    out
}
"""))
R("rs-unescape-hexhelper", U, "C31",
  ("""            let hi = chars.next().ok_or(EscapeError::TooShortHexEscape)?;
            let hi = hi.to_digit(16).ok_or(EscapeError::InvalidCharInHexEscape)?;

            let lo = chars.next().ok_or(EscapeError::TooShortHexEscape)?;
            let lo = lo.to_digit(16).ok_or(EscapeError::InvalidCharInHexEscape)?;

            let value = hi * 16 + lo;""", """            let hi = hex_digit(chars)?;
            let lo = hex_digit(chars)?;
            let value = (hi << 4) | lo;"""),
  ("""fn scan_escape(""", """fn hex_digit(chars: &mut Chars<'_>) -> Result<u32, EscapeError> {
    let c = chars.next().ok_or(EscapeError::TooShortHexEscape)?;
    c.to_digit(16).ok_or(EscapeError::InvalidCharInHexEscape)
}

fn scan_escape("""))
R("rs-unescape-loop", U, "C31",
  ("""                match chars.next() {
                    None => return Err(EscapeError::UnclosedUnicodeEscape),
                    Some('_') => continue,
                    Some('}') => {""", """                let c = match chars.next() {
                    None => return Err(EscapeError::UnclosedUnicodeEscape),
                    Some(c) => c,
                };
                match c {
                    '_' => continue,
                    '}' => {"""),
  ("""                    Some(c) => {
                        let digit = c""", """                    c => {
                        let digit = c"""))
R("rs-unescape-skip", U, "C31",
  ("""        let first_non_space = tail
            .bytes()
            .position(|b| b != b' ' && b != b'\\t' && b != b'\\n' && b != b'\\r')
            .unwrap_or(tail.len());""", """        let mut first_non_space = 0;
        for b in tail.bytes() {
            if b != b' ' && b != b'\\t' && b != b'\\n' && b != b'\\r' {
                break;
            }
            first_non_space += 1;
        }"""))
R("rs-unescape-wrap", U, "C31",
  ("""    if s.contains(&['\\\\', '\\r'][..]) {
        let mut buf""", """    if !s.contains('\\\\') && !s.contains('\\r') {
        return s.to_string();
    }
    {
        let mut buf"""),
  ("""        buf
    } else {
        s.to_string()
    }""", """        buf
    }"""))
R("rs-unescape-wrap2", U, "C31",
  ("""            match unescaped_char {
                Ok(c) => buf.push(c),
                Err(e) => {
                    error = true;
                    buf = format!("<Lexer error: string: {e:?}>");
                }
            };""", """            if let Ok(c) = unescaped_char {
                buf.push(c);
            } else if let Err(e) = unescaped_char {
                error = true;
                buf.clear();
                buf.push_str(&format!("<Lexer error: string: {:?}>", e));
            }"""))
R("rs-unescape-ascii", U, "C31",
  ("if !mode.is_bytes() && !is_ascii(value) {", "if !(mode.is_bytes() || value < 128) {"),
  ("""    while let Some(first_char) = chars.next() {
        let start""", """    loop {
        let first_char = match chars.next() {
            Some(c) => c,
            None => break,
        };
        let start"""))
R("rs-string-inner", G, "C31",
  ("""    let mut s = String::from(escape_ignore_reg.replace_all(s, "$1"));
    s.remove(0);
    s.pop();
    utils::unescape_str_wrap_error(s.as_str())""", """    let s = escape_ignore_reg.replace_all(s, "$1");
    let body = &s[1..s.len() - 1];
    utils::unescape_str_wrap_error(body)"""))
R("rs-hex-inner", G, "C31",
  ("""s.trim_start_matches("hex").trim_matches('\\"').to_string()""", """{
    let body = s.strip_prefix("hex").unwrap();
    String::from(&body[1..body.len() - 1])
}"""))
R("rs-data-name", G, "C31",
  ("""s.trim_start_matches("data").trim_matches(' ').trim_matches('\\"').to_string()""", """String::from(s.split('"').nth(1).unwrap())"""))
