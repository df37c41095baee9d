use crate::rt::*;
use zkevm_opcode_defs::*;

fn check_pack() {
    let m = VmMetaParameters {
        ergs_per_pubdata_byte: any("ergs_per_pubdata_byte"),
        heap_size: any("heap_size"),
        aux_heap_size: any("aux_heap_size"),
        this_shard_id: any("this_shard_id"),
        caller_shard_id: any("caller_shard_id"),
        code_shard_id: any("code_shard_id"),
    };
    let w = m.to_u256().0;
    prove(w[0] == m.ergs_per_pubdata_byte as u64, "ergs per pubdata byte in bits 0-31, bits 32-63 zero");
    prove(w[1] == m.heap_size as u64 | (m.aux_heap_size as u64) << 32, "heap size in bits 64-95, aux heap size in bits 96-127");
    prove(w[2] == 0, "bits 128-191 are zero");
    prove(
        w[3] == (m.this_shard_id as u64) << 32 | (m.caller_shard_id as u64) << 40 | (m.code_shard_id as u64) << 48,
        "shard ids in bits 224-231, 232-239 and 240-247, the rest zero",
    );
}
