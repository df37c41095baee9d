use crate::rt::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

fn check_parse() {
    let w = U256([any("w0"), any("w1"), any("w2"), any("w3")]);
    let a = FarCallABI::from_u256(w);
    let p = a.memory_quasi_fat_pointer;
    prove(p.offset == w.0[0] as u32 && p.memory_page == (w.0[0] >> 32) as u32, "pointer offset and page are bits 0-63");
    prove(p.start == w.0[1] as u32 && p.length == (w.0[1] >> 32) as u32, "pointer start and length are bits 64-127");
    prove(a.ergs_passed == w.0[3] as u32, "passed ergs are bits 192-223");
    let f = (w.0[3] >> 32) as u8;
    prove((a.forwarding_mode == FarCallForwardPageType::ForwardFatPointer) == (f == 1), "byte 1 of bits 224-231 means forward fat pointer");
    prove((a.forwarding_mode == FarCallForwardPageType::UseAuxHeap) == (f == 2), "byte 2 of bits 224-231 means aux heap");
    prove((a.forwarding_mode == FarCallForwardPageType::UseHeap) == (f != 1 && f != 2), "every other byte means heap");
    prove(a.shard_id == (w.0[3] >> 40) as u8, "shard id is bits 232-239");
    prove(a.constructor_call == ((w.0[3] >> 48) as u8 != 0), "the constructor flag is 'bits 240-247 non-zero'");
    prove(a.to_system == ((w.0[3] >> 56) as u8 != 0), "the system flag is 'bits 248-255 non-zero'");
}

fn check_mode() {
    let b: u8 = any("byte");
    let m = FarCallForwardPageType::from_u8(b);
    prove((m == FarCallForwardPageType::ForwardFatPointer) == (b == 1), "mode byte 1 means forward fat pointer");
    prove((m == FarCallForwardPageType::UseAuxHeap) == (b == 2), "mode byte 2 means aux heap");
    prove((m == FarCallForwardPageType::UseHeap) == (b != 1 && b != 2), "every other mode byte means heap");
    prove(FarCallForwardPageType::UseHeap as u8 == 0 && FarCallForwardPageType::ForwardFatPointer as u8 == 1 && FarCallForwardPageType::UseAuxHeap as u8 == 2, "the published mode numbers");
}

fn check_indexes() {
    prove(FAR_CALL_FORWARDING_MODE_BYTE_IDX == 28, "forwarding mode is byte 28");
    prove(FAR_CALL_SHARD_ID_BYTE_IDX == 29, "shard id is byte 29");
    prove(FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX == 30, "constructor flag is byte 30");
    prove(FAR_CALL_SYSTEM_CALL_BYTE_IDX == 31, "system flag is byte 31");
}
