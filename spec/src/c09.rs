use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

fn check_table() {
    let want = table(1);
    prove(OPCODES_TABLE_WIDTH == 11, "the table is 11 bits wide");
    prove(OPCODES_TABLE.len() == 2048, "the table has 2048 slots");
    prove(want.len() < 2048, "the instruction set fits");
    for i in 0..2048 {
        let w = if i < want.len() { want[i] } else { invalid() };
        note("slot", &i);
        prove(OPCODES_TABLE[i] == w, "the slot holds the deployed instruction");
    }
    prove(INVALID_OPCODE_VARIANT == invalid(), "the published invalid variant is the plain invalid instruction");
    prove(DEFAULT_ISA_VERSION == ISAVersion(1), "the default ISA version is 1");
}
