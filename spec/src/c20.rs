use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

fn check_full() {
    let m: ImmMemHandlerFlags = any("mode");
    prove(m.variant_index() == mode_no(m), "the number of an addressing mode");
    prove(m.encoding_byte() as usize == mode_no(m), "the encoding byte of an addressing mode is its number");
    prove(m.is_memory_used() == (mode_no(m) == 1 || mode_no(m) == 2 || mode_no(m) == 3 || mode_no(m) == 5), "memory is used by exactly the stack modes and the code page");
    prove(m.is_allowed_for_dst() == (mode_no(m) < 4), "a destination is neither immediate nor code page");
    let all = ImmMemHandlerFlags::all_variants();
    prove(all.len() == 6, "there are six addressing modes");
    for i in 0..6 {
        prove(all[i] == modes()[i], "the modes are listed in numeric order");
    }
    prove(ImmMemHandlerFlags::num_variants() == 6, "the reported number of modes");
    prove(ImmMemHandlerFlags::num_src_variants() == 6, "the reported number of source modes");
    prove(ImmMemHandlerFlags::num_dst_variants() == 4, "the reported number of destination modes");
}

fn check_restricted() {
    let m: RegOrImmFlags = any("mode");
    let n = match m { RegOrImmFlags::UseRegOnly => 0, RegOrImmFlags::UseImm16Only => 4 };
    prove(m.variant_index() == n, "the number of a restricted mode is that of the full mode");
    prove(m.encoding_byte() as usize == n, "the encoding byte of a restricted mode is its number");
    prove(!m.is_memory_used(), "restricted modes use no memory");
    prove(m.is_allowed_for_dst() == (n == 0), "a restricted destination is the register");
    let all = RegOrImmFlags::all_variants();
    prove(all.len() == 2 && all[0] == RegOrImmFlags::UseRegOnly && all[1] == RegOrImmFlags::UseImm16Only, "the restricted modes are listed in numeric order");
    prove(RegOrImmFlags::num_variants() == 2, "the reported number of restricted modes");
    prove(RegOrImmFlags::num_src_variants() == 2, "the reported number of restricted source modes");
    prove(RegOrImmFlags::num_dst_variants() == 1, "the reported number of restricted destination modes");
}

fn check_operand() {
    let o: Operand = any("operand");
    prove(o.variant_idx() == operand_no(o), "the number of an operand is that of its mode");
}
