use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

fn check_decode_word() {
    let w: u64 = any("word");
    let (d, n) = EncodingModeProduction::parse_preliminary_variant_and_absolute_number(w);
    prove(n.into_usize() == (w & 0x7ff) as usize, "absolute variant number is bits 0-10");
    prove(d.variant == OPCODES_TABLE[(w & 0x7ff) as usize], "variant is the table entry at bits 0-10");
    prove(cond_no(d.condition) == (w >> 13) & 7, "condition is bits 13-15");
    prove(d.src0_reg_idx as u64 == (w >> 16) & 15, "src0 register is bits 16-19");
    prove(d.src1_reg_idx as u64 == (w >> 20) & 15, "src1 register is bits 20-23");
    prove(d.dst0_reg_idx as u64 == (w >> 24) & 15, "dst0 register is bits 24-27");
    prove(d.dst1_reg_idx as u64 == (w >> 28) & 15, "dst1 register is bits 28-31");
    prove(d.imm_0 as u64 == (w >> 32) & 0xffff, "immediate 0 is bits 32-47");
    prove(d.imm_1 as u64 == (w >> 48) & 0xffff, "immediate 1 is bits 48-63");
    cover(w == 0xffff_ffff_ffff_ffff, "all bits set");
}

fn check_decode_prefix() {
    let w: u64 = any("word");
    let (v, c, n) = EncodingModeProduction::variant_and_condition_from_u64_word(w);
    prove(n == (w & 0x7ff) as usize, "prefix: absolute variant number is bits 0-10");
    prove(v == OPCODES_TABLE[(w & 0x7ff) as usize], "prefix: variant is the table entry at bits 0-10");
    prove(cond_no(c) == (w >> 13) & 7, "prefix: condition is bits 13-15");
}
