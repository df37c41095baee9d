use crate::rt::*;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;

fn be64(b: &[u8]) -> u64 {
    let mut r = 0u64;
    for i in 0..8 {
        r = r << 8 | b[i] as u64;
    }
    r
}

/// The 256-bit value of 32 big-endian bytes.
fn word(b: &[u8; 32]) -> U256 {
    U256([be64(&b[24..32]), be64(&b[16..24]), be64(&b[8..16]), be64(&b[0..8])])
}

fn check_production_split() {
    let pc: u16 = any("pc");
    let (q, r) = EncodingModeProduction::split_pc(pc);
    prove(q == pc / 4 && r == pc % 4, "production: split is quotient and remainder by 4");
}

fn check_testing_split() {
    let pc: u32 = any("pc");
    let (q, r) = EncodingModeTesting::split_pc(pc);
    prove(q == pc / 2 && r == pc % 2, "testing: split is quotient and remainder by 2");
}

fn check_production_fetch() {
    let i: [u64; 4] = [any("insn0"), any("insn1"), any("insn2"), any("insn3")];
    let mut b = [0u8; 32];
    for k in 0..4 {
        let e: [u8; 8] = AllowedIntegerRepresentation::<8>::encode_as_bytes(i[k]);
        for j in 0..8 {
            prove(e[j] == (i[k] >> (56 - 8 * j)) as u8, "production: serialization is big-endian");
            b[8 * k + j] = e[j];
        }
    }
    let w = word(&b);
    for k in 0..4u16 {
        prove(
            EncodingModeProduction::integer_representaiton_from_u256(w, k) == i[k as usize],
            "production: slot i is the i-th instruction from the most significant end",
        );
    }
    let pc: u16 = any("pc");
    let (_, slot) = EncodingModeProduction::split_pc(pc);
    prove(
        EncodingModeProduction::integer_representaiton_from_u256(w, slot) == i[(pc % 4) as usize],
        "production: fetching at any counter gives the instruction at that position",
    );
}

fn check_testing_fetch() {
    let i: [u128; 2] = [any("insn0"), any("insn1")];
    let mut b = [0u8; 32];
    for k in 0..2 {
        let e: [u8; 16] = AllowedIntegerRepresentation::<16>::encode_as_bytes(i[k]);
        for j in 0..16 {
            prove(e[j] == (i[k] >> (120 - 8 * j)) as u8, "testing: serialization is big-endian");
            b[16 * k + j] = e[j];
        }
    }
    let w = word(&b);
    for k in 0..2u32 {
        prove(
            EncodingModeTesting::integer_representaiton_from_u256(w, k) == i[k as usize],
            "testing: slot i is the i-th instruction from the most significant end",
        );
    }
    let pc: u32 = any("pc");
    let (_, slot) = EncodingModeTesting::split_pc(pc);
    prove(
        EncodingModeTesting::integer_representaiton_from_u256(w, slot) == i[(pc % 2) as usize],
        "testing: fetching at any counter gives the instruction at that position",
    );
}
