use crate::rt::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

fn check_ret() {
    let w = U256([any("w0"), any("w1"), any("w2"), any("w3")]);
    let a = RetABI::from_u256(w);
    let p = a.memory_quasi_fat_pointer;
    prove(p.offset == w.0[0] as u32 && p.memory_page == (w.0[0] >> 32) as u32, "pointer offset and page are bits 0-63");
    prove(p.start == w.0[1] as u32 && p.length == (w.0[1] >> 32) as u32, "pointer start and length are bits 64-127");
    let f = (w.0[3] >> 32) as u8;
    prove((a.page_forwarding_mode == RetForwardPageType::ForwardFatPointer) == (f == 1), "byte 1 of bits 224-231 means forward fat pointer");
    prove((a.page_forwarding_mode == RetForwardPageType::UseAuxHeap) == (f == 2), "byte 2 of bits 224-231 means aux heap");
    prove((a.page_forwarding_mode == RetForwardPageType::UseHeap) == (f != 1 && f != 2), "every other byte means heap");
    let c = FarCallABI::from_u256(w);
    prove(a.page_forwarding_mode as u8 == c.forwarding_mode as u8, "the forwarding byte means the same as in far calls");
    prove(RET_FORWARDING_MODE_BYTE_IDX == 28, "forwarding mode is byte 28");
    let b: u8 = any("byte");
    prove(RetForwardPageType::from_u8(b) as u8 == if b < 3 { b } else { 0 }, "the forwarding mode numbers");
}

fn check_near_call() {
    let w = U256([any("w0"), any("w1"), any("w2"), any("w3")]);
    prove(NearCallABI::from_u256(w).ergs_passed == w.0[0] as u32, "passed ergs are bits 0-31");
}
