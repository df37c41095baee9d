use crate::rt::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::FatPointer;

fn check_pack() {
    let p = FatPointer { offset: any("offset"), memory_page: any("memory_page"), start: any("start"), length: any("length") };
    let w = p.to_u256();
    let want = [
        p.offset as u64 | (p.memory_page as u64) << 32,
        p.start as u64 | (p.length as u64) << 32,
        0,
        0,
    ];
    prove(w.0[0] == want[0], "offset in bits 0-31 and memory page in bits 32-63");
    prove(w.0[1] == want[1], "start in bits 64-95 and length in bits 96-127");
    prove(w.0[2] == 0 && w.0[3] == 0, "bits 128-255 are zero");
    let q = FatPointer::from_u256(w);
    prove(q == p, "unpacking a packed pointer gives the pointer");
}

fn check_unpack() {
    let w = U256([any("w0"), any("w1"), any("w2"), any("w3")]);
    let p = FatPointer::from_u256(w);
    prove(p.offset == w.0[0] as u32, "offset is read from bits 0-31");
    prove(p.memory_page == (w.0[0] >> 32) as u32, "memory page is read from bits 32-63");
    prove(p.start == w.0[1] as u32, "start is read from bits 64-95");
    prove(p.length == (w.0[1] >> 32) as u32, "length is read from bits 96-127");
}

fn check_empty() {
    let e = FatPointer::empty();
    prove(e.offset == 0 && e.memory_page == 0 && e.start == 0 && e.length == 0, "the empty pointer is all zeros");
    prove(e.to_u256() == U256([0; 4]), "the empty pointer packs to zero");
}
