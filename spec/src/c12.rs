use crate::oracle::*;
use crate::rt::*;
use std::collections::HashSet;
use zkevm_opcode_defs::*;

fn check_masks() {
    let mut seen = HashSet::new();
    prove(OPCODES_PROPS_INTEGER_BITMASKS.len() == OPCODES_TABLE.len(), "there is a bitmask for every slot");
    for i in 0..OPCODES_TABLE.len() {
        note("slot", &i);
        let v = OPCODES_TABLE[i];
        let m = OPCODES_PROPS_INTEGER_BITMASKS[i];
        prove(m == bitmask(&v), "the bitmask is the one-hot description of the instruction");
        if v != invalid() {
            prove(seen.insert(m), "distinct instructions have distinct bitmasks");
        }
    }
    prove(*NOP_BITSPREAD_U64 == bitmask(&NOP_OPCODE_VARIANT), "the nop bitmask is that of the nop variant");
    prove(*PANIC_BITSPREAD_U64 == bitmask(&PANIC_OPCODE_VARIANT), "the panic bitmask is that of the panic variant");
}

fn check_synthesis_v0() {
    let t = synthesize_opcode_decoding_tables(11, ISAVersion(0));
    let m = synthesize_bit_decomposition_table(&t, ISAVersion(0));
    prove(m.len() == t.len(), "version 0: there is a bitmask for every slot");
    for i in 0..t.len() {
        note("slot", &i);
        prove(m[i] == bitmask(&t[i]), "version 0: the bitmask is the one-hot description of the instruction");
    }
}
