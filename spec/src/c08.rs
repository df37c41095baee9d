use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

fn plain<const N: usize, E: VmEncodingMode<N>>(d: &DecodedOpcode<N, E>, v: OpcodeVariant, what: &str) {
    prove(d.variant == v, what);
    prove(d.condition == Condition::Always, "the condition is Always");
    prove(
        d.src0_reg_idx == 0 && d.src1_reg_idx == 0 && d.dst0_reg_idx == 0 && d.dst1_reg_idx == 0,
        "all registers are zero",
    );
}

fn published<const N: usize, E: VmEncodingMode<N>>() {
    let (d, _) = E::parse_preliminary_variant_and_absolute_number(E::nop_encoding());
    plain(&d, nop(), "the nop encoding decodes to nop");
    prove(d.imm_0.as_u64() == 0 && d.imm_1.as_u64() == 0, "the nop encoding has zero immediates");
    prove(E::is_canonical_encoding(E::nop_encoding()), "the nop encoding is canonical");
    let (d, _) = E::parse_preliminary_variant_and_absolute_number(E::exception_revert_encoding());
    plain(&d, panic_variant(), "the exception encoding decodes to ret.panic");
    prove(d.imm_0.as_u64() == 0 && d.imm_1.as_u64() == 0, "the exception encoding has zero immediates");
    prove(E::is_canonical_encoding(E::exception_revert_encoding()), "the exception encoding is canonical");
    let d = DecodedOpcode::<N, E>::default();
    plain(&d, nop(), "the default decoded instruction is the published nop");
    prove(d.imm_0.as_u64() == 0 && d.imm_1.as_u64() == 0, "the default decoded instruction has zero immediates");
    prove(d.serialize_as_integer() == E::nop_encoding(), "the default decoded instruction encodes to the nop encoding");
}

fn masking<const N: usize, E: VmEncodingMode<N>>(i0: E::PcOrImm, i1: E::PcOrImm) {
    let mut d = DecodedOpcode::<N, E> {
        variant: any("variant"),
        condition: any("condition"),
        src0_reg_idx: any("src0"),
        src1_reg_idx: any("src1"),
        dst0_reg_idx: any("dst0"),
        dst1_reg_idx: any("dst1"),
        imm_0: i0,
        imm_1: i1,
    };
    let mut p = d;
    d.mask_into_nop();
    plain(&d, nop(), "masking into nop gives the nop variant");
    prove(d.imm_0 == i0 && d.imm_1 == i1, "masking into nop keeps the immediates");
    let (b, _) = E::parse_preliminary_variant_and_absolute_number(d.serialize_as_integer());
    plain(&b, nop(), "an instruction masked into nop encodes to a nop");
    p.mask_into_panic();
    plain(&p, panic_variant(), "masking into panic gives ret.panic");
    prove(p.imm_0 == i0 && p.imm_1 == i1, "masking into panic keeps the immediates");
    let (b, _) = E::parse_preliminary_variant_and_absolute_number(p.serialize_as_integer());
    plain(&b, panic_variant(), "an instruction masked into panic encodes to ret.panic");
}

fn check_production() {
    published::<8, EncodingModeProduction>();
    masking::<8, EncodingModeProduction>(any("imm_0"), any("imm_1"));
    // without arguments the type is that of production
    let d: DecodedOpcode = Default::default();
    plain::<8, EncodingModeProduction>(&d, nop(), "the default decoded instruction of the default mode");
}

fn check_testing() {
    published::<16, EncodingModeTesting>();
    masking::<16, EncodingModeTesting>(any("imm_0"), any("imm_1"));
}

fn check_constants() {
    prove(*NOP_OPCODE_VARIANT == nop(), "the published nop variant");
    prove(*PANIC_OPCODE_VARIANT == panic_variant(), "the published panic variant");
    prove(*NOP_BITSPREAD_U64 == bitmask(&nop()), "the published nop bitmask");
    prove(*PANIC_BITSPREAD_U64 == bitmask(&panic_variant()), "the published panic bitmask");
    prove(OpcodeVariant::default() == nop(), "the default variant is the published nop");
}
