From 841fd2e55a1e4ddba94d1db13662eb703e390029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 01/16] fix: compare the bytes, not the addresses, in bytes32
 slt/sgt

---
 stdlib/chain_math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 2643626..0f53ebe 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -58,9 +58,9 @@ BOOL wrapper_bytes32_slt(const bytes32 *a, const bytes32 *b) {
   // If signs are the same, perform comparison based on magnitude
   // For signed comparison, the rest of the bytes are compared normally
   for (int i = 0; i < 32; i++) {
-    if (a[i] < b[i]) {
+    if (a_bytes[i] < b_bytes[i]) {
       return 1; // a is smaller
-    } else if (a[i] > b[i]) {
+    } else if (a_bytes[i] > b_bytes[i]) {
       return 0; // a is larger
     }
   }
@@ -81,9 +81,9 @@ BOOL wrapper_bytes32_sgt(const bytes32 *a, const bytes32 *b) {
 
   // If signs are the same, perform comparison based on magnitude
   for (int i = 0; i < 32; i++) {
-    if (a[i] > b[i]) {
+    if (a_bytes[i] > b_bytes[i]) {
       return 1; // a is larger
-    } else if (a[i] < b[i]) {
+    } else if (a_bytes[i] < b_bytes[i]) {
       return 0; // a is smaller
     }
   }
-- 
2.43.0


From b27536aff1bf365e6038237dabf8d095788f4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 02/16] fix: keep big endian byte order in the bytes32 shl fast
 path

---
 stdlib/chain_math.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 0f53ebe..320893f 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -158,12 +158,14 @@ void wrapper_bytes32_shl(const bytes32 *value, int32_t shift, bytes32 *result) {
     if (shift <= 32 && value_as_u64_array[0] == 0 &&
         value_as_u64_array[1] == 0 && value_as_u64_array[2] == 0 &&
         value_as_u32_array[6] == 0) {
-      uint64_t last_u64 = ((uint64_t)value_as_u32_array[7]) << shift;
+      // the words are big endian
+      uint64_t last_u64 =
+          ((uint64_t)__builtin_bswap32(value_as_u32_array[7])) << shift;
       uint64_t *result_as_u64_array = (uint64_t *)result;
       result_as_u64_array[0] = 0;
       result_as_u64_array[1] = 0;
       result_as_u64_array[2] = 0;
-      result_as_u64_array[3] = last_u64;
+      result_as_u64_array[3] = __builtin_bswap64(last_u64);
       return;
     } else {
       // TODO: optimize this
-- 
2.43.0


From 9ea9f6742bed99b1b8b1f8985f70116d5999eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 03/16] fix: signextend of more than 8 bytes used a 64-bit sign
 mask

---
 stdlib/chain.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 327c232..78363d4 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -889,15 +889,15 @@ void wrapper_sign_extend(uint32_t bits, uint256_t *value_ptr,
   // the original value's sign bit, and extends the bits preceding the specified
   // byte count (b) according to the most significant bit's sign.
   uint256_t value = *value_ptr;
-  if (bits > 31) {
+  if (bits >= 31) {
     *result = value;
-    return; // If b is greater than 31, return the original value
+    return; // If b is 31 or greater, return the original value
   }
   // Calculate the number of bits to extend
   unsigned int bits_to_extend = (bits + 1) * 8;
 
   // Create the mask for the sign bit
-  uint256_t sign_bit_mask = 1ULL << (bits_to_extend - 1);
+  uint256_t sign_bit_mask = ((uint256_t)1) << (bits_to_extend - 1);
   uint256_t extension_mask = ~((((uint256_t)1) << bits_to_extend) - 1);
 
   // Check the sign bit
-- 
2.43.0


From 871a20346511cc435117615ddccae14f374de69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 04/16] fix: mcopy of overlapping ranges behaves like memmove

---
 stdlib/chain.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 78363d4..a917f7c 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -389,6 +389,14 @@ void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
   evm_make_sure_memory(evm_dst + size);
   uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
   uint8_t *src_memory = evm_get_memory_addr(evm_src);
+  if (dst_memory > src_memory) {
+    // copy backwards, the ranges may overlap
+    while (size > 0) {
+      size--;
+      dst_memory[size] = src_memory[size];
+    }
+    return;
+  }
   memcpy(dst_memory, src_memory, size);
 }
 
-- 
2.43.0


From f48fead4c261eaa59696d5255f06f2cf4b1884f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 05/16] fix: calldataload/calldatacopy past the end of the
 calldata read zeros

---
 stdlib/chain.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index a917f7c..a401642 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -95,7 +95,9 @@ static void cachedCallDataCopy(int32_t /* uint8_t* */ memory_ptr,
 void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
   uint32_t calldata_size = cachedCallDataSize();
   uint8_t data[32] = {0};
-  if ((calldata_offset + 32 > calldata_size)) {
+  if (calldata_offset >= calldata_size) {
+    // nothing to read, the word is all zeros
+  } else if (calldata_size - calldata_offset < 32) {
     // If calldata is insufficient, read remaining part to the front of data
     // array The rest is already padded with zeros
     uint32_t read_count = calldata_size - calldata_offset;
@@ -107,7 +109,9 @@ void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
 }
 void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result) {
   uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + 32 > calldata_size)) {
+  if (calldata_offset >= calldata_size) {
+    __memset(result, 0, sizeof(bytes32));
+  } else if (calldata_size - calldata_offset < 32) {
     // If calldata is insufficient, read remaining part to the front of data
     // array The rest is already padded with zeros
     uint32_t read_count = calldata_size - calldata_offset;
@@ -814,7 +818,7 @@ void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
   uint32_t calldata_size = cachedCallDataSize();
   if (calldata_offset >= calldata_size) {
     __memset(dst_memory_ptr, 0, len);
-  } else if (calldata_offset + len > calldata_size) {
+  } else if (len > calldata_size - calldata_offset) {
     uint32_t data_len = calldata_size - calldata_offset;
     cachedCallDataCopy((ADDRESS_UINT)dst_memory_ptr, calldata_offset, data_len);
     __memset(dst_memory_ptr + data_len, 0, len - data_len);
-- 
2.43.0


From e9767dc1af16017b4fbb4227ec2041cd83698504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 06/16] fix: __abort traps instead of being undefined behaviour

---
 stdlib/evm_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index b96cf31..ffcb98c 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -8,7 +8,7 @@
 #define WASM_PAGE_SIZE (65536)
 
 // TODO: use revert with not malloc for abort
-#define __abort(x) __builtin_unreachable()
+#define __abort(x) __builtin_trap()
 
 void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool);
 
-- 
2.43.0


From 7f2e477acc75ccb207fa78391ab4051a441e24ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 07/16] fix: codecopy ranges that end at or cross the end of
 the code

---
 stdlib/chain.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index a401642..65287c8 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -261,23 +261,31 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
 
   int32_t cur_code_size = getCodeSize();
 
-  if ((evm_memory_offset + size) < cur_code_size) {
+  if (evm_memory_offset < cur_code_size) {
     // Copy current WASM contract bytecode
-    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, size);
-    return;
+    uint32_t code_len = (uint32_t)(cur_code_size - evm_memory_offset);
+    if (size <= code_len) {
+      codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, size);
+      return;
+    }
+    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, code_len);
+    target_mem_ptr += code_len;
+    size -= code_len;
+    evm_memory_offset = cur_code_size;
   }
   // Copy actual calldata, input parameter is wasm code size + calldata_offset
-  int32_t calldata_offset = evm_memory_offset - cur_code_size;
-
-  if (calldata_offset < 0) {
-    __builtin_unreachable();
-  }
+  uint32_t calldata_offset = (uint32_t)(evm_memory_offset - cur_code_size);
   uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + size) > calldata_size) {
-    // Only 4 bytes larger might be the input size
-    __builtin_unreachable();
+  uint32_t data_len = 0;
+  if (calldata_offset < calldata_size) {
+    data_len = calldata_size - calldata_offset;
+    if (data_len > size) {
+      data_len = size;
+    }
+    cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset, data_len);
   }
-  cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset, size);
+  // For out of bound bytes, 0s will be copied.
+  __memset(target_mem_ptr + data_len, 0, size - data_len);
 }
 uint32_t wrapper_memory_guard(uint32_t size) {
   evm_make_sure_memory(size);
-- 
2.43.0


From 956c0b41928ccc22dc9be6c63e248fa9f64afe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 08/16] fix: allocate_memory of size 0 and of unaligned free
 pointers follows the Yul code

---
 stdlib/chain.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 65287c8..d5a7c9e 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1020,8 +1020,11 @@ int32_t wrapper_allocate_memory(uint32_t size) {
   //     mstore(64, newFreePtr)
   // }
   int32_t mem_ptr = wrapper_get_memptr_global();
-  int32_t new_free_ptr = mem_ptr + (size + 31) & ~31;
-  if (new_free_ptr <= mem_ptr) {
+  if (size > 0x7fffffe0U) {
+    __abort("allocate memory failed");
+  }
+  uint32_t new_free_ptr = (uint32_t)mem_ptr + ((size + 31) & ~31U);
+  if (new_free_ptr > INT32_MAX || new_free_ptr < (uint32_t)mem_ptr) {
     __abort("allocate memory failed");
   }
   wrapper_set_memptr_global(new_free_ptr);
-- 
2.43.0


From 041165c6f8aaeb53788fb47af658afe565ba18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 09/16] fix: memory_alloca_bytes32 must not run into pages it
 did not allocate

---
 stdlib/chain.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index d5a7c9e..2246ddc 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -982,6 +982,10 @@ bytes32 *memory_alloca_bytes32() {
     if (after_pages == before_pages) {
       __abort("wasm memory grow failed");
     }
+    // the new page need not follow the previous one, EVM memory may have grown
+    extra_memory_alloca_bytes32_memory_begin =
+        (uint8_t *)(before_pages * WASM_PAGE_SIZE);
+    extra_memory_alloca_bytes32_memory_used_size = 0;
     extra_memory_alloca_bytes32_memory_end =
         (uint8_t *)(after_pages * WASM_PAGE_SIZE);
     bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
-- 
2.43.0


From ede30106546f8d0081f2984d6f4a9b8ce7efc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 10/16] fix: int32_to_str of INT32_MIN overflowed

---
 stdlib/utils.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stdlib/utils.c b/stdlib/utils.c
index 936f37c..d3ca10a 100644
--- a/stdlib/utils.c
+++ b/stdlib/utils.c
@@ -8,23 +8,24 @@
 int int32_to_str(int32_t value, char *str_buffer, int buffer_size) {
   int index = 0;
   int is_negative = 0;
+  uint32_t magnitude = (uint32_t)value;
 
   // Handle negative numbers
   if (value < 0) {
     is_negative = 1;
-    value = -value; // Convert to positive for processing
+    magnitude = 0 - magnitude; // Convert to positive for processing
   }
 
   // Special case for zero
-  if (value == 0) {
+  if (magnitude == 0) {
     if (buffer_size > 0) {
       str_buffer[index++] = '0';
     }
   } else {
     // Convert from least significant digit to most significant
-    while (value > 0 && index < buffer_size - 1) {
-      str_buffer[index++] = '0' + (value % 10);
-      value /= 10;
+    while (magnitude > 0 && index < buffer_size - 1) {
+      str_buffer[index++] = '0' + (magnitude % 10);
+      magnitude /= 10;
     }
 
     // Add negative sign if needed
-- 
2.43.0


From 2480f3c32408d4edc1ca2e6c7ad986a9f51edf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 11/16] fix: the optimized ERC20 transfer masks its address
 arguments

---
 stdlib/chain.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 2246ddc..9b74632 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1114,6 +1114,13 @@ void wrapper_optimized_erc20_fun_transfer(bytes32 *from, bytes32 *to,
     revert((ADDRESS_UINT)revert_msg, 36);
     return;
   }
+  // only the low 160 bits of the addresses count
+  bytes32 from_word = {0};
+  bytes32 to_word = {0};
+  memcpy((uint8_t *)from_word + 12, (uint8_t *)from + 12, 20);
+  memcpy((uint8_t *)to_word + 12, (uint8_t *)to + 12, 20);
+  from = &from_word;
+  to = &to_word;
   uint8_t tmp_keccak256_result[32];
   // calculate the slot of the balance of the from address
   uint8_t tmp_to_keccak256[64] = {0};
-- 
2.43.0


From c36cc9e99036ab8b17b9d04460af1f4f25f9bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 12/16] fix: reading EVM memory expands it

---
 stdlib/chain.c | 48 +++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 9b74632..3ede707 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -7,6 +7,16 @@
 #include "hostapi.h"
 #include "utils.h"
 
+// Address of a range of EVM memory that is about to be read. Like in the EVM,
+// reading expands the memory. Negative offsets belong to the data segment and
+// an empty range reads nothing.
+static uint8_t *evm_readable_memory(int32_t offset, uint32_t size) {
+  if (offset >= 0 && size > 0) {
+    evm_make_sure_memory(offset + size);
+  }
+  return evm_get_memory_addr(offset);
+}
+
 static void u256_to_big_endian(const uint256_t value, uint8_t *memory_ptr) {
   // write to memory by big endian
   for (int i = 0; i < 32; i++) {
@@ -233,7 +243,7 @@ void wrapper_self_balance(uint256_t *result) {
 }
 
 void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
-  uint8_t *error_msg_ptr = evm_get_memory_addr(error_msg_evm_mem);
+  uint8_t *error_msg_ptr = evm_readable_memory(error_msg_evm_mem, size);
   revert((ADDRESS_UINT)error_msg_ptr, size);
 }
 
@@ -367,12 +377,12 @@ void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
 }
 
 void wrapper_mload_u256(int32_t evm_mem, uint256_t *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(evm_mem, 32);
   u256_from_big_endian_bytes(memory_ptr, result);
 }
 
 uint32_t wrapper_mload_u32(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(evm_mem, 32);
   // Read 4 bytes in big-endian order from the last 4 bytes of the 32-byte slot
   uint32_t result = 0;
   for (int i = 0; i < 4; i++) {
@@ -382,7 +392,7 @@ uint32_t wrapper_mload_u32(int32_t evm_mem) {
 }
 
 uint64_t wrapper_mload_u64(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(evm_mem, 32);
   // Read 8 bytes in big-endian order from the last 8 bytes of the 32-byte slot
   uint64_t result = 0;
   for (int i = 0; i < 8; i++) {
@@ -392,7 +402,7 @@ uint64_t wrapper_mload_u64(int32_t evm_mem) {
 }
 
 void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(evm_mem, 32);
   // Copy all 32 bytes directly
   memcpy(result, memory_ptr, 32);
 }
@@ -400,7 +410,7 @@ void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
   evm_make_sure_memory(evm_dst + size);
   uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
-  uint8_t *src_memory = evm_get_memory_addr(evm_src);
+  uint8_t *src_memory = evm_readable_memory(evm_src, size);
   if (dst_memory > src_memory) {
     // copy backwards, the ranges may overlap
     while (size > 0) {
@@ -513,12 +523,12 @@ void wrapper_loadimmutable(uint256_t *slot_ptr, uint256_t *result) {
 }
 
 void wrapper_keccak256(int32_t evm_mem, uint32_t size, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(evm_mem, size);
   keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
 }
 
 void wrapper_return(int32_t src_evm_mem, uint32_t size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(src_evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(src_evm_mem, size);
   finish((ADDRESS_UINT)memory_ptr, size);
 }
 
@@ -528,14 +538,14 @@ void wrapper_decode_big_endian_i256_from_wasm_mem(uint8_t *wasm_mem,
 }
 
 void wrapper_log0(int32_t data_evm_mem, uint32_t data_size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(data_evm_mem, data_size);
   uint32_t num_topics = 0;
   emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics, 0, 0, 0, 0);
 }
 
 void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
                   bytes32 *topic0_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(data_evm_mem, data_size);
 
   uint32_t num_topics = 1;
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
@@ -546,7 +556,7 @@ void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
 
 void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -559,7 +569,7 @@ void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 
 void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -575,7 +585,7 @@ void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 void wrapper_log4(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr,
                   bytes32 *topic3_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_readable_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -594,7 +604,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_readable_memory(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -622,7 +632,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_readable_memory(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -707,7 +717,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_readable_memory(in_evm_offset, in_length);
 
   int32_t retCode = callContract(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)&value_bytes,
@@ -724,7 +734,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
                          int32_t in_evm_offset, int32_t in_length,
                          int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_readable_memory(in_evm_offset, in_length);
   int32_t retCode = callDelegate(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)in_offset, in_length);
 
@@ -739,7 +749,7 @@ int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_staticcall(uint64_t gas, bytes32 *callee_addr_ptr,
                        int32_t in_evm_offset, int32_t in_length,
                        int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_readable_memory(in_evm_offset, in_length);
   int32_t retCode = callStatic(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                (ADDRESS_UINT)in_offset, in_length);
   if (retCode != 0 && is_precompiled_contract(callee_addr_ptr)) {
@@ -899,7 +909,7 @@ void wrapper_extcode_hash(bytes32 *addr_ptr, bytes32 *result) {
 void wrapper_data_copy(int32_t dst_evm, int32_t src_evm, uint32_t len) {
   evm_make_sure_memory(dst_evm + len);
   uint8_t *dst = evm_get_memory_addr(dst_evm);
-  uint8_t *src = evm_get_memory_addr(src_evm);
+  uint8_t *src = evm_readable_memory(src_evm, len);
   memcpy(dst, src, len);
 }
 
-- 
2.43.0


From bd7ca78d67a5600db6ab8ec727c520adc75322af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:02 +0000
Subject: [PATCH 13/16] fix: a block comment ending in `**/` was not closed

Looking for the end of a block comment consumed the character after every
`*`, so a run of stars hid the `*/` behind it and the rest of the source
was dropped.
---
 src/yul2ir/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 559962d..8354d67 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -391,13 +391,13 @@ pub fn remove_comments(code: &str) -> String {
                         '*' => {
                             in_multiline = true;
                             // Skip until matching */
-                            while let Some(c) = chars.next() {
-                                if c == '*' {
-                                    if let Some('/') = chars.next() {
-                                        in_multiline = false;
-                                        break;
-                                    }
+                            let mut after_star = false;
+                            for c in chars.by_ref() {
+                                if after_star && c == '/' {
+                                    in_multiline = false;
+                                    break;
                                 }
+                                after_star = c == '*';
                             }
                         }
                         _ => {
-- 
2.43.0


From 750eeeb81325edb59abbc324510746fa170e4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:02 +0000
Subject: [PATCH 14/16] fix: an escaped quote ended the string for comment
 removal

`"a\" // b"` is one string literal, but the scanner left the string at the
escaped quote and removed the rest of the literal as a comment.
---
 src/yul2ir/utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 8354d67..0984638 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -376,6 +376,13 @@ pub fn remove_comments(code: &str) -> String {
                 }
                 result.push(c);
             }
+            '\\' if in_string => {
+                // An escaped character never ends the string
+                result.push(c);
+                if let Some(next) = chars.next() {
+                    result.push(next);
+                }
+            }
             '/' if !in_string => {
                 if let Some(next) = chars.next() {
                     match next {
-- 
2.43.0


From 6acf81a83ba5ee177e2206bbbd4228353e8476d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:02 +0000
Subject: [PATCH 15/16] fix: a string right after a slash was not recognised as
 a string

The character after a lone `/` was copied without looking at it, so a quote
there did not open a string and `//` inside it was removed.
---
 src/yul2ir/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 0984638..3e552cc 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -408,6 +408,10 @@ pub fn remove_comments(code: &str) -> String {
                             }
                         }
                         _ => {
+                            if next == '"' || next == '\'' {
+                                in_string = true;
+                                string_char = Some(next);
+                            }
                             result.push(c);
                             result.push(next);
                         }
-- 
2.43.0


From 5ab5bf5341b69bd5d86ab816cc992b1519b90d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 16/16] fix: string literals with several gaps or with escaped
 backslashes around blanks

Only the first `\<blanks>\` gap of a literal was dropped, so a second one was
rejected as an invalid escape, and in `"\\ \\"` the characters between the two
escaped backslashes were taken for a gap and lost.
---
 src/yul.lalrpop | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 8a85e8e..0147eb0 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -236,8 +236,9 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
 pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
-    let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
-    let mut s = String::from(escape_ignore_reg.replace(s, ""));
+    // Every `\<blanks>\` gap is dropped; other escapes are stepped over, so that an escaped `\` never starts a gap
+    let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\|(\\\\.)").unwrap();
+    let mut s = String::from(escape_ignore_reg.replace_all(s, "$1"));
     s.remove(0);
     s.pop();
     utils::unescape_str_wrap_error(s.as_str())
-- 
2.43.0

