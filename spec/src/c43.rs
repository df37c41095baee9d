use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::ethereum_types::U256;
use zkevm_opcode_defs::*;

fn listed(v: &OpcodeVariant) -> bool {
    let mut r = *v == invalid();
    for w in table(1) {
        r = r | (*v == w);
    }
    r
}

fn encoding<const N: usize, E: VmEncodingMode<N>>(i0: E::PcOrImm, i1: E::PcOrImm) {
    let v: OpcodeVariant = any("variant");
    let d = DecodedOpcode::<N, E> {
        variant: v,
        condition: any("condition"),
        src0_reg_idx: 1,
        src1_reg_idx: 2,
        dst0_reg_idx: 3,
        dst1_reg_idx: 4,
        imm_0: i0,
        imm_1: i1,
    };
    let known = listed(&v);
    cover(known, "some instruction is in the table");
    cover(!known, "some instruction is not in the table");
    let r = catch(|| E::encode_as_integer(&d));
    prove(r.is_some() == known, "exactly the instructions of the table are encoded");
    let b = catch(|| d.serialize_as_bytes());
    prove(b.is_some() == known, "exactly the instructions of the table are serialized");
}

fn check_production() { encoding::<8, EncodingModeProduction>(any("imm_0"), any("imm_1")) }
fn check_testing() { encoding::<16, EncodingModeTesting>(any("imm_0"), any("imm_1")) }

fn check_fetch() {
    let w = U256([any("w0"), any("w1"), any("w2"), any("w3")]);
    let i: u16 = any("slot");
    let r = catch(|| EncodingModeProduction::integer_representaiton_from_u256(w, i));
    prove(r.is_some() == (i < 4), "production: exactly the four slots of a word can be fetched");
    let i: u32 = any("testing slot");
    let r = catch(|| EncodingModeTesting::integer_representaiton_from_u256(w, i));
    prove(r.is_some() == (i < 2), "testing: exactly the two slots of a word can be fetched");
}

fn check_index() {
    let v: OpcodeVariant = any("variant");
    let known = listed(&v);
    prove(OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.contains_key(&v) == known, "exactly the instructions of the table have a canonical index");
    prove(OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.contains_key(&v) == known, "exactly the instructions of the table have a monotonic number");
}
