ch, cm, em, sl, ut = "stdlib/chain.c", "stdlib/chain_math.c", "stdlib/evm_memory.c", "stdlib/stdlib.c", "stdlib/utils.c"
CELLS = """
const t = boot({});
const cells = [];
for (let i = 0; i < N; i++) { const p = t.run(i % 7 ? 'memory_alloca_bytes32' : 'memory_alloca_u256').v >>> 0; cells.push(p); t.wr(p, be(BigInt(i + 1), 32)); if (G.includes(i)) t.x.memory.grow(1); }
for (let i = 0; i < N; i++) eq('cell ' + i, num(t.rd(cells[i], 32)), BigInt(i + 1));
"""
BUGS = [
dict(id="c10-first-page-cell", property="C10", file=ch, edits=[("""    extra_memory_alloca_bytes32_memory_used_size = 0;
    bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
                                  extra_memory_alloca_bytes32_memory_used_size);
    extra_memory_alloca_bytes32_memory_used_size += sizeof(bytes32);
    return result;
  }
  if (""", """    extra_memory_alloca_bytes32_memory_used_size = 0;
    return (bytes32 *)extra_memory_alloca_bytes32_memory_begin;
  }
  if (""")], needs="more than 301 cells", breaks="the second cell of the first extra page is the first one again",
 demo=CELLS.replace("N", "400").replace("G", "[]")),
dict(id="c10-second-page", property="C10", file=ch, edits=[("""  if ((extra_memory_alloca_bytes32_memory_begin +
       extra_memory_alloca_bytes32_memory_used_size + sizeof(bytes32)) >=
      extra_memory_alloca_bytes32_memory_end) {
    // if extra""", """  if (extra_memory_alloca_bytes32_memory_used_size >= 2 * WASM_PAGE_SIZE) {
    // if extra""")], needs="more than 2348 cells", breaks="cells beyond the first extra page lie in memory that was never allocated (or belongs to EVM memory)",
 demo="""
const t = boot({});
for (let i = 0; i < 2600; i++) { const p = t.run('memory_alloca_bytes32').v >>> 0; if (p + 32 > t.x.memory.buffer.byteLength) { ok('cell ' + i + ' lies in memory', false); break; } }
"""),
]
