use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

fn check_opcode() {
    let o: Opcode = any("opcode");
    let p = o.ergs_price();
    prove(p as u64 == price(o), "the price is the documented combination of circuit costs");
    prove(p != 0, "no price is zero");
    prove((p == u32::MAX) == matches!(o, Opcode::Invalid(_)), "exactly the invalid instruction costs the maximum");
    let v = OpcodeVariant { opcode: o, src0_operand_type: any("src"), dst0_operand_type: any("dst"), flags: any("flags") };
    prove(v.ergs_price() as u64 == price(o), "the price of a variant is that of its opcode");
}

fn check_table() {
    prove(OPCODES_PRICES.len() == OPCODES_TABLE.len(), "there is a price for every slot");
    for i in 0..OPCODES_TABLE.len() {
        note("slot", &i);
        prove(OPCODES_PRICES[i] as u64 == price(OPCODES_TABLE[i].opcode), "the price table gives the price of the slot's instruction");
    }
}

fn check_published() {
    use zkevm_opcode_defs::circuit_prices::*;
    prove(INVALID_OPCODE_ERGS == u32::MAX, "the published invalid price is the maximum");
    prove(RICH_ADDRESSING_OPCODE_ERGS == VM_CYCLE_COST_IN_ERGS + 2 * RAM_PERMUTATION_COST_IN_ERGS, "the published rich addressing price");
    prove(AVERAGE_OPCODE_ERGS == VM_CYCLE_COST_IN_ERGS + RAM_PERMUTATION_COST_IN_ERGS, "the published average price");
    prove(STORAGE_READ_IO_PRICE == 150 && STORAGE_WRITE_IO_PRICE == 250 && EVENT_IO_PRICE == 25 && L1_MESSAGE_IO_PRICE == 100, "the published I/O surcharges");
    prove(CALL_LIKE_ERGS_COST == 20, "the published call surcharge");
    prove(ERGS_PER_CODE_WORD_DECOMMITTMENT == CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS, "the published decommitment price per word");
}
