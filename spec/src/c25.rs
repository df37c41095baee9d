use crate::rt::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

fn check_outer() {
    let w = U256([any("w0"), any("w1"), any("w2"), any("w3")]);
    let a = PrecompileCallABI::from_u256(w);
    prove(a.input_memory_offset == w.0[0] as u32, "input offset is bits 0-31");
    prove(a.input_memory_length == (w.0[0] >> 32) as u32, "input length is bits 32-63");
    prove(a.output_memory_offset == w.0[1] as u32, "output offset is bits 64-95");
    prove(a.output_memory_length == (w.0[1] >> 32) as u32, "output length is bits 96-127");
    prove(a.per_precompile_interpreted == w.0[3], "precompile data are bits 192-255");
}

fn check_inner() {
    let w = U256([any("w0"), any("w1"), any("w2"), any("w3")]);
    let a = PrecompileCallInnerABI::from_u256(w);
    prove(a.input_memory_offset == w.0[0] as u32, "inner: input offset is bits 0-31");
    prove(a.input_memory_length == (w.0[0] >> 32) as u32, "inner: input length is bits 32-63");
    prove(a.output_memory_offset == w.0[1] as u32, "inner: output offset is bits 64-95");
    prove(a.output_memory_length == (w.0[1] >> 32) as u32, "inner: output length is bits 96-127");
    prove(a.memory_page_to_read == w.0[2] as u32, "inner: page to read is bits 128-159");
    prove(a.memory_page_to_write == (w.0[2] >> 32) as u32, "inner: page to write is bits 160-191");
    prove(a.precompile_interpreted_data == w.0[3], "inner: precompile data are bits 192-255");
    prove(a.to_u256() == w, "inner: packing an unpacked word gives the word");
}

fn check_inner_pack() {
    let a = PrecompileCallInnerABI {
        input_memory_offset: any("input_memory_offset"),
        input_memory_length: any("input_memory_length"),
        output_memory_offset: any("output_memory_offset"),
        output_memory_length: any("output_memory_length"),
        memory_page_to_read: any("memory_page_to_read"),
        memory_page_to_write: any("memory_page_to_write"),
        precompile_interpreted_data: any("precompile_interpreted_data"),
    };
    prove(PrecompileCallInnerABI::from_u256(a.to_u256()) == a, "inner: unpacking a packed value gives the value");
}
