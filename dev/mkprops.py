"""writes properties.jsonl and MANIFEST.json (dev helper; the results are committed)"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ch, cm, em, sl, ut = "stdlib/chain.c", "stdlib/chain_math.c", "stdlib/evm_memory.c", "stdlib/stdlib.c", "stdlib/utils.c"
NOTEST = "The two tests that run cover comment removal only; no test in this checkout executes the runtime library, and sampled calls could not cover "
P = []
def prop(id, title, stmt, over, text, why, files, mech, state=(), claim=True, level="proof", note="", technique=None, na=None):
    P.append(dict(id=id, title=title, stmt=stmt, over=over, text=text, why=why, files=files, mech=mech, state=list(state),
                  claim=claim, level=level, note=note, technique=technique, na=na))

prop("C01", "256-bit comparison operations follow the EVM",
 "For all pairs of 256-bit big-endian words the runtime library's byte-word lt, gt, slt, sgt, eq and iszero return 1 exactly when the EVM instruction of that name would, and 0 otherwise; the operands are left unchanged.",
 ["inputs"], "all 2^512 operand pairs", NOTEST + "the sign and byte-order corner cases of 2^512 operand pairs.", [cm], [("wrapper_bytes32_lt/gt/slt/sgt/eq/iszero", cm)])
prop("C02", "256-bit addition and bitwise logic on words are exact",
 "For all 256-bit big-endian words the runtime library's byte-word add, and, or, xor and not store exactly the EVM result (addition wraps modulo 2^256) in the result word and change nothing else.",
 ["inputs"], "all operand pairs", NOTEST + "every carry chain.", [cm], [("wrapper_bytes32_add/and/or/xor/not", cm)])
prop("C03", "Shifts of 256-bit words follow the EVM for every amount",
 "Left and logical right shift of a 256-bit word, in both the big-endian byte-word and the little-endian integer form, store value*2^n mod 2^256 respectively floor(value/2^n) for every amount n from 0 to 2^31-1 (0 when n is 256 or more); a negative amount leaves the value unchanged.",
 ["inputs"], "all words and all 32-bit shift amounts", NOTEST + "256 shift amounts times all words.", [cm], [("wrapper_bytes32_shl/shr, wrapper_u256_shl/shr", cm)])
prop("C04", "signextend follows the EVM for every byte position",
 "Sign extension of a 256-bit value from byte position k keeps bits 0..8k+7 and replicates bit 8k+7 above them for every k from 0 to 30, and leaves the value unchanged for k of 31 or more.",
 ["inputs"], "all words and all 32-bit byte positions", NOTEST + "each byte position with both sign values.", [ch], [("wrapper_sign_extend", ch)])
prop("C05", "exp computes base^exponent modulo 2^256",
 "The runtime's exponentiation of 256-bit values stores base to the power exponent modulo 2^256 for every base and exponent (0^0 is 1), terminates, and changes nothing but the result.",
 ["inputs"], "all bases and exponents; all iterations of the square-and-multiply loop", NOTEST + "every exponent bit pattern.", [ch], [("wrapper_exp", ch)])
prop("C06", "Conversions between integers and big-endian words are exact",
 "Converting a 256-bit integer to its 32-byte big-endian word and back, a 32-bit integer to a big-endian word (zero extended) and a big-endian word to its low 32 bits yields exactly the same number for every value; the shared all-zero word always reads as zero.",
 ["inputs"], "all words", NOTEST + "a wrong byte in one position of 32.", [ch], [("u256_from/to_big_endian_bytes, i32_to/from_big_endian, wrapper_decode_big_endian_i256_from_wasm_mem, wrapper_zero_bytes32", ch)])
prop("C07", "Word stores and loads agree with EVM memory semantics",
 "Storing a word (as 256-bit integer, byte word, 64/32-bit integer or single byte) at an EVM memory offset changes exactly the 32 (or 1) addressed bytes to its big-endian encoding, and loading returns exactly the bytes there, reading zero where nothing was stored; all other EVM memory is unchanged and the addressed range is accessible afterwards.",
 ["inputs", "histories"], "all offsets whose range ends below 2^31, all values, all prior memory contents and sizes", NOTEST + "offsets at page and capacity boundaries.", [ch], [("wrapper_mstore_*, wrapper_mload_*", ch)])
prop("C08", "Memory copies move exactly the requested bytes, overlapping or not",
 "Copying n bytes inside EVM memory, or from constant data into EVM memory, makes the destination equal to what the source held before the copy, for every length including zero and every overlap, and changes no other byte.",
 ["inputs"], "all offsets, lengths and overlaps; unbounded loops by invariant", NOTEST + "all overlap distances and directions.", [ch, sl], [("wrapper_mcopy, wrapper_data_copy", ch), ("memcpy", sl)])
prop("C09", "EVM memory grows without losing or aliasing data",
 "After any request for n accessible bytes of EVM memory (n below 2^31), at least n bytes are accessible, every byte that was stored before is unchanged, newly accessible bytes are distinct from all other program data, and if the memory cannot be provided the call ends with a trap instead of continuing.",
 ["inputs", "histories"], "all sizes and all reachable memory states", NOTEST + "growth across page boundaries and failing growth.", [em, ch, sl], [("__init_evm_heap, evm_make_sure_memory, evm_get_memory_addr", em), ("wrapper_memory_guard", ch), ("__abort", ut)],
 [dict(name="evm_memory_begin/end/full_size", meaning="the accessible EVM memory window", where=em)])
prop("C10", "Temporary 256-bit cells never overlap",
 "Every temporary 32-byte cell handed out by the runtime is valid memory, does not overlap any other cell handed out before, the EVM memory or other program data, and allocating one changes no existing contents.",
 ["histories", "inputs"], "all sequences of allocations", NOTEST + "the switch from the static pool to extra pages after hundreds of allocations.", [ch], [("memory_alloca_bytes32, memory_alloca_u256", ch)])
prop("C11", "The optimised free-memory-pointer allocator never overlaps or wraps",
 "The runtime's allocation of n bytes returns the current free memory pointer and advances it by n rounded up to a multiple of 32, and traps instead when the new pointer would exceed 2^31-1; reading the pointer back always returns the last value set or advanced to.",
 ["inputs", "histories"], "all 32-bit sizes and non-negative pointer values", NOTEST + "overflowing sizes.", [ch], [("wrapper_allocate_memory, wrapper_set/get_memptr_global", ch)])
prop("C12", "Calldata reads are exact and zero-padded",
 "calldataload, calldatacopy, selector and size return the transaction's calldata bytes at the requested offset with zeros past its end, for every offset, length and calldata size, whether or not earlier reads cached the calldata; copying changes only the destination range.",
 ["inputs", "histories"], "all offsets, lengths, calldata sizes and cache states", NOTEST + "ranges that straddle the end of the calldata in both cache states.", [ch], [("wrapper_calldata*, cachedCallDataSize, cachedCallDataCopy", ch)],
 [dict(name="cached calldata", meaning="valid prefix of calldata kept after the first read", where=ch)])
prop("C13", "Code reads are exact, zero-padded and deployment-aware",
 "codecopy, extcodecopy, code sizes and code hashes return the host's code bytes, sizes and hashes at the requested offsets, with the offset base the deployment phase requires; a copy of the current code continues past its end with the transaction's calldata (constructor arguments) and then zeros; copies change only the destination range.",
 ["inputs", "histories"], "all offsets, lengths, code sizes; before and after entering deployment", NOTEST + "ranges crossing the end of the code and the deployment flag.", [ch], [("wrapper_codecopy, wrapper_extcode_*, wrapper_current_contract_*, set/is_deploying_tx", ch)])
prop("C14", "Chain-context queries deliver the host's values unchanged",
 "caller, address, origin, coinbase, callvalue, chain id, base fees, gas price, prevrandao, gas, timestamp, block number, gas limit, block hash and balances reach the program exactly as the host reports them, in the representation documented for the operation (addresses zero-extended to 32 bytes), writing only the 32-byte result cell.",
 ["inputs"], "all host values", NOTEST + "every byte of every field.", [ch], [("wrapper_caller ... wrapper_self_balance", ch)])
prop("C15", "Storage and transient storage behave as independent key/value maps",
 "Every store makes exactly the given 256-bit key map to the given value in persistent respectively transient storage and every load returns the current value of its key, in both byte-order variants of the interface, with no effect on other keys or on the other map.",
 ["inputs", "histories"], "all keys, values and prior map contents", NOTEST + "byte order of keys and values.", [ch], [("wrapper_sstore_*, wrapper_sload_*, wrapper_tstore_*, wrapper_tload_*", ch)])
prop("C16", "Immutables can be set once and are read back unchanged",
 "Setting an immutable stores its value under its slot and marks the slot as set; setting it a second time reverts with 'immutable slot already set' and changes nothing; loading returns the stored value.",
 ["inputs", "histories"], "all slots, values and prior storage contents", NOTEST + "the collision between marks and values.", [ch], [("wrapper_setimmutable, wrapper_loadimmutable", ch)])
prop("C17", "Log instructions emit exactly the requested event",
 "log0 to log4 emit exactly one event carrying exactly the addressed EVM memory bytes as data and the given topics in order, and have no other effect.",
 ["inputs"], "all offsets, sizes and topics", NOTEST + "topic order and data at memory boundaries.", [ch], [("wrapper_log0..4", ch)])
prop("C18", "External calls pass on exactly the given call and return its outcome",
 "call, delegatecall and staticcall perform exactly one host call of the requested kind with the given gas, low 160 bits of the address, value and input bytes; on success they return 1 and copy min(return size, output size) return bytes to the output area, changing nothing else, and return 0 for a failed call; returndata size and copy report the last call's data.",
 ["inputs", "fault_sequences"], "all arguments and all callee outcomes and return sizes", NOTEST + "failed calls and short return data.", [ch], [("wrapper_call_contract, wrapper_delegatecall, wrapper_staticcall, write_call_data, wrapper_returndata_*", ch)])
prop("C19", "Contract creation forwards code, constructor data, value and salt",
 "create and create2 issue exactly one host creation with the given value, exactly the addressed creation code and constructor data, and for create2 the given salt, and return the new address (zero-extended) on success and zero on failure.",
 ["inputs", "fault_sequences"], "all arguments and creation outcomes", NOTEST + "code lengths encoded in memory and failing creations.", [ch], [("wrapper_create, wrapper_create2", ch)])
prop("C20", "The optimised ERC-20 transfer equals the Solidity transfer it replaces",
 "The replacement for the standard ERC-20 transfer function moves exactly the amount between the two balance slots with the checks, custom-error revert data, balance arithmetic and Transfer event of the original, for all addresses (including equal sender and receiver) and amounts.",
 ["inputs"], "all addresses, amounts and balances", NOTEST + "self-transfers and insufficient balances.", [ch], [("wrapper_optimized_erc20_fun_transfer", ch)])
prop("C21", "Terminating and hashing instructions hand over exactly their data",
 "return, revert, stop, invalid and selfdestruct end the call in that way with exactly the addressed EVM memory bytes (or beneficiary); keccak256 hashes exactly the addressed bytes, and addmod and mulmod use the given operands in order and store the host's result.",
 ["inputs"], "all offsets, sizes and operands", NOTEST + "ranges at or past the end of the accessible memory.", [ch], [("wrapper_return, wrapper_revert, wrapper_stop, wrapper_invalid, wrapper_selfdestruct, wrapper_keccak256, wrapper_addmod, wrapper_mulmod", ch)])
prop("C22", "Byte-level memory primitives are exact for every length",
 "The runtime's memcpy and memset write exactly the n requested bytes and no other for every n including 0 (forward overlapping copies included), memcpy returns the destination, and the comparison primitive returns true exactly when both lengths and all bytes agree.",
 ["inputs"], "all lengths and contents; unbounded loops by invariant", NOTEST + "all lengths.", [sl], [("memcpy, memset, __memset, __memcmp", sl)])
prop("C23", "Debug output never changes what a program computes",
 "In release builds debug operations have no effect at all; in debug builds they only emit debug output that renders the value correctly (integers in decimal with sign) and never write outside their own buffers.",
 ["inputs", "configurations"], "all values, both build modes", NOTEST + "extreme values such as the most negative integer.", [ch, sl, ut], [("wrapper_debug_*, debug_i32, debug_string, int32_to_str", ut)])
rs = "src/yul2ir/"
prop("C30", "Comment removal preserves the program",
 "Removing comments from Yul source deletes exactly the comment text: line comments up to the end of line and block comments up to their first terminator, never text inside string literals, keeping every other character in order.",
 ["inputs", "programs"], "all source texts", "The two existing tests use two short fixed inputs; nesting of quotes, escapes and terminators is unbounded.", [rs + "utils.rs"], [("remove_comments", rs + "utils.rs")])
prop("C31", "String literal unescaping is faithful",
 "Unescaping the text of a string literal yields exactly the characters it denotes: \\\", \\\\, \\', \\n, \\r, \\t, \\0, \\xHH (below 80), \\u{1 to 6 hex digits, underscores after the first} of a Unicode scalar value, a backslash before a line break skips that break and the blanks after it, and every other character stands for itself; every other escape is rejected with the error marker '<Lexer error'. A literal accepted by the grammar denotes the same, with every '\\ blanks \\' gap removed; hex and data literals keep exactly their digits and name.",
 ["inputs"], "all literal texts of any length", "No test runs it; the space of escape combinations is unbounded.", [rs + "utils.rs", "src/yul.lalrpop"], [("unescape_str_wrap_error, unescape_str_or_byte_str, scan_escape", rs + "utils.rs"), ("StringInner, HexDataInner, DataSegmentWithNameInner", "src/yul.lalrpop")])
prop("C32", "Embedded sub-contract code and data are framed losslessly",
 "The four bytes written in front of embedded sub-contract code and data segments are the big-endian count of the bytes that follow, and what follows is exactly the embedded bytes, so the runtime reads back exactly what was embedded.",
 ["inputs"], "all contents of every length below 2^32", "No test runs it; lengths around the byte boundaries of the prefix are not sampled.", [rs + "utils.rs", rs + "transform.rs"], [("merge_sub_wasm_with_length_prefix", rs + "utils.rs")])
prop("C33", "Parsing is faithful to the Yul grammar",
 "Every syntactically valid Yul object parses to the tree its text denotes and printing the tree yields an equivalent program; invalid text is rejected with an error, never a crash.",
 ["programs", "inputs"], "all Yul programs", "No parser test runs in this checkout.", ["src/yul.lalrpop", rs + "ast.rs"], [("generated LR parser", "src/yul.lalrpop")], claim=False)
prop("C40", "Generated WebAssembly has the semantics of the Yul source",
 "For every valid Yul program the emitted module produces the same storage changes, events, return data and termination as the EVM semantics of the program, with control flow, variables, function calls and value-range inference preserved.",
 ["programs", "inputs"], "all programs and inputs", "The compiler cannot even be built here (LLVM bindings missing); tests sample a few contracts elsewhere.", [rs + "context.rs", rs + "infer.rs", rs + "instruction.rs", rs + "expression.rs"], [("LLVM IR emission", rs + "instruction.rs")], claim=False)
prop("C41", "Configuration options do not change observable behaviour",
 "Optimisation and representation options (small-integer inference, little-endian storage, optimised allocator, function replacement) never change what a contract observably does.",
 ["configurations", "programs"], "all option combinations", "Needs full compilation, unavailable here.", [rs + "config.rs", rs + "yul_instruction.rs"], [("option-dependent emission", rs + "instruction.rs")], claim=False)
prop("C42", "Sub-contract selection and entry dispatch pick the right object",
 "The deployed module exposes exactly the entry points for deployment and calls, running the constructor object on deployment and the runtime object on calls.",
 ["programs"], "all object trees", "Needs the compiler binary.", [rs + "wasm.rs", "src/main.rs"], [("entry emission", rs + "wasm.rs")], claim=False)

NA = {
 "C33": "the parser is a table-driven automaton generated by lalrpop (tens of thousands of lines of tables); neither Verus nor Kani contracts can express fidelity to the grammar on generated tables, and the grammar itself is the only specification",
 "C40": "code generation is written against inkwell/LLVM, which is not available offline: the crate does not build here, and its meaning is that of LLVM builder calls outside any deductive verifier's reach",
 "C41": "same as C40: options act inside the inkwell-based code generator, which cannot be compiled or verified here",
 "C42": "same as C40: entry points are emitted and linked through inkwell and lld, which cannot be compiled or verified here",
}
CLAIMED = [p["id"] for p in P if p["claim"]]
extra = json.load(open(os.path.join(ROOT, "dev", "claims.json"))) if os.path.exists(os.path.join(ROOT, "dev", "claims.json")) else {}
unclaimed = set(extra.get("unclaimed", []))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        d = dict(id=p["id"], title=p["title"], statement=p["stmt"], quantifier=dict(over=p["over"], text=p["text"]),
                 why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["state"]:
            d["anchors"]["state"] = p["state"]
        f.write(json.dumps(d) + "\n")
TECH = "contract-based deductive verification of the LLVM IR clang emits from the real C source (own VC generator, z3)"
NOTE = ("Every function under contract is verified from /repo's current source for all inputs and all loop iterations; callees are used through their contracts. "
        "Trusted: clang's front end, the IR semantics and simplifier in vf/, z3, the host-interface contracts in vf/host.py; assumptions are listed in the evidence file.")
RTECH = "contract-based deductive verification of the MIR rustc emits from the real Rust source against a specification automaton (own VC generator, loop invariants by Houdini, z3)"
RNOTE = ("The function, every helper it calls and every loop are verified for all inputs of any length below 2^30 bytes, including absence of panics and termination. "
         "Trusted: rustc's MIR, the MIR semantics and library contracts in vf/rsx.py, z3. When a change leaves the verifier's reach the function is checked on a stated bounded set instead (labelled bounded).")
for i in ("C30", "C31", "C32"):
    extra.setdefault("technique", {}).setdefault(i, RTECH)
    extra.setdefault("note", {}).setdefault(i, RNOTE + (" The literal rules of src/yul.lalrpop (regex and generated tables) are only checked on a stated bounded set." if i == "C31" else ""))
checks, na = [], []
for p in P:
    i = p["id"]
    if p["claim"] and i not in unclaimed:
        cmd = "python3-vt -m vf.run " + i
        if p.get("technique"): cmd = extra.get("cmd", {}).get(i, cmd)
        checks.append(dict(property=i, quick_cmd=extra.get("cmd", {}).get(i, cmd), thorough_cmd=extra.get("tcmd", {}).get(i, cmd + " --thorough"),
                           technique=extra.get("technique", {}).get(i, TECH), level="proof", level_note=extra.get("note", {}).get(i, NOTE)))
    else:
        na.append(dict(property=i, reason=NA[i]))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="See DESIGN.md. No hooks are needed in /repo."), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
