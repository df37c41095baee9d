use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

fn check_widths() {
    for version in ALL_ISA_VERSIONS {
        note("version", &version.0);
        let mut subs = 0;
        for o in all_ops() {
            if sub_no(o.op) + 1 > subs {
                subs = sub_no(o.op) + 1;
            }
        }
        let mut flags = 0;
        for v in synthesize_opcode_decoding_tables(11, version) {
            let f = if v.flags[1] { 2 } else if v.flags[0] { 1 } else { 0 };
            if f > flags {
                flags = f;
            }
        }
        prove(max_num_variants_for_version(version) == subs, "sub-variant bits are one more than the largest sub-variant number");
        prove(max_num_flags_for_version(version) == flags, "flag bits are the largest flag count any instruction uses");
        let total = OPCODE_TYPE_BITS + subs + flags + OPCODE_INPUT_VARIANT_FLAGS + OPCODE_OUTPUT_VARIANT_FLAGS;
        prove(total_description_bits_for_version(version) == total, "the description width is the sum of the group widths");
        let r = total_description_bits_rounded_for_version(version);
        prove(r % 16 == 0 && r >= total && r < total + 16, "the rounded width is the least multiple of 16 not below it");
        let full = total_opcode_description_and_aux_bits_for_version(version);
        prove(full == r + 3 && full <= 64, "the full width adds the three auxiliary bits and fits in 64");
        // declared by each opcode family through its dynamic prototype
        let mut m = 0;
        for p in OPCODE_PROTOTYPES.iter() {
            if p.max_variant_idx(version) + 1 > m {
                m = p.max_variant_idx(version) + 1;
            }
            for d in p.variants_data(version) {
                prove(d.variant_idx <= p.max_variant_idx(version), "a family declares no sub-variant above its maximum");
                prove(d.num_non_exclusive_flags <= flags, "a family declares no more flags than the flag bits");
            }
        }
        prove(m == subs, "the families' declared maxima give the sub-variant bits");
    }
}

fn check_groups() {
    prove(OPCODE_TYPE_BITS == 16 && OPCODE_TYPE_BITS == NUM_OPCODES && *NUM_LOGICAL_OPCODES == NUM_OPCODES, "one bit per opcode family");
    prove(OPCODE_INPUT_VARIANT_FLAGS == 6 && *NUM_INPUT_VARIANTS == 6, "one bit per source mode");
    prove(OPCODE_OUTPUT_VARIANT_FLAGS == 4 && *NUM_OUTPUT_VARIANTS == 4, "one bit per destination mode");
    prove(KERNEL_MODE_FLAG_BITS == 1 && CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS == 1 && EXPLICIT_PANIC_FLAG_BITS == 1, "the auxiliary groups are one bit wide");
    prove(TOTAL_AUX_BITS == 3, "there are three auxiliary bits");
    prove(KERNER_MODE_FLAG_IDX == 0 && CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX == 1 && EXPLICIT_PANIC_FLAG_IDX == 2, "the auxiliary flag indexes number the bits in order");
}
