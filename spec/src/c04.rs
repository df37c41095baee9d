use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

type E = EncodingModeTesting;

fn reg(name: &str) -> u8 {
    let r: u8 = any(name);
    assume(r < 16);
    r
}

fn check_encode_then_decode() {
    let condition: Condition = any("condition");
    let (r0, r1, r2, r3) = (reg("src0"), reg("src1"), reg("dst0"), reg("dst1"));
    let (i0, i1): (u32, u32) = (any("imm_0"), any("imm_1"));
    for slot in 0..OPCODES_TABLE.len() {
        note("slot", &slot);
        let variant = OPCODES_TABLE[slot];
        let d = DecodedOpcode::<16, E> {
            variant,
            condition,
            src0_reg_idx: r0,
            src1_reg_idx: r1,
            dst0_reg_idx: r2,
            dst1_reg_idx: r3,
            imm_0: i0,
            imm_1: i1,
        };
        let w = E::encode_as_integer(&d);
        prove((w >> 11) & 3 == 0, "the encoding leaves the unused bits zero");
        prove(w >> 96 == 0, "bits 96-127 of the encoding are zero");
        prove(E::is_canonical_encoding(w), "the encoding is reported canonical");
        let (b, n) = E::parse_preliminary_variant_and_absolute_number(w);
        prove(b.variant == variant, "decoding the encoding gives the variant");
        prove(b.condition == condition, "decoding the encoding gives the condition");
        prove(
            b.src0_reg_idx == r0 && b.src1_reg_idx == r1 && b.dst0_reg_idx == r2 && b.dst1_reg_idx == r3,
            "decoding the encoding gives the registers",
        );
        prove(b.imm_0 == i0 && b.imm_1 == i1, "decoding the encoding gives the immediates");
        if variant != invalid() {
            prove(n.into_usize() == slot, "a valid instruction encodes to its own number");
        }
        prove(d.serialize_as_integer() == w, "serialize_as_integer is the encoding");
        prove(d.serialize_as_bytes() == w.to_be_bytes(), "serialize_as_bytes is the big-endian encoding");
        prove(E::encode_as_bytes(&d) == w.to_be_bytes(), "encode_as_bytes is the big-endian encoding");
    }
}

fn check_decode_then_encode() {
    let upper: u128 = any("word");
    assume(upper & 0x1fff == 0 && upper >> 96 == 0);
    for slot in 0..OPCODES_TABLE.len() {
        if OPCODES_TABLE[slot] != invalid() {
            note("slot", &slot);
            let w = upper | slot as u128;
            let (d, _) = E::parse_preliminary_variant_and_absolute_number(w);
            prove(E::encode_as_integer(&d) == w, "a canonical word re-encodes to itself");
        }
    }
}
