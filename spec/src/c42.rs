use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

fn unsupported() -> ISAVersion {
    let n: u8 = any("version");
    assume(n > 1);
    ISAVersion(n)
}

fn family<T: OpcodeProps + OpcodeVariantProps>() {
    for t in T::all_variants() {
        let v = unsupported();
        prove(catch(|| t.variants_data(v)).is_none(), "no operation declares sub-variants for an unsupported version");
    }
}

fn check_families() {
    family::<InvalidOpcode>();
    family::<NopOpcode>();
    family::<AddOpcode>();
    family::<SubOpcode>();
    family::<MulOpcode>();
    family::<DivOpcode>();
    family::<JumpOpcode>();
    family::<ContextOpcode>();
    family::<ShiftOpcode>();
    family::<BinopOpcode>();
    family::<PtrOpcode>();
    family::<NearCallOpcode>();
    family::<LogOpcode>();
    family::<FarCallOpcode>();
    family::<RetOpcode>();
    family::<UMAOpcode>();
}

fn check_prototypes() {
    for p in OPCODE_PROTOTYPES.iter() {
        let v = unsupported();
        prove(catch(|| p.variants_data(v)).is_none(), "no prototype declares sub-variants for an unsupported version");
    }
}

// The memory accesses are the operations whose operands a version may change.
fn check_memory_access() {
    for o in all_ops() {
        if let Opcode::UMA(u) = o.op {
            let v = unsupported();
            prove(catch(|| u.input_operands(v)).is_none(), "no operands of a memory access in an unsupported version");
            prove(catch(|| o.op.input_operands(v)).is_none(), "no operands of a memory access opcode in an unsupported version");
            prove(catch(|| o.op.can_have_src0_from_mem(v)).is_none(), "no source query of a memory access in an unsupported version");
            prove(catch(|| u.max_variant_idx(v)).is_none(), "no largest memory access in an unsupported version");
            prove(catch(|| UMAOpcode::max_variant_idx_for_version(v)).is_none(), "no largest memory access number in an unsupported version");
        }
    }
}

fn check_widths() {
    let v = unsupported();
    prove(catch(|| max_num_variants_for_version(v)).is_none(), "no number of sub-variant bits for an unsupported version");
    prove(max_num_flags_for_version(v) == max_num_flags_for_version(ISAVersion(1)), "the cumulative number of flag bits is the newest supported one");
    prove(catch(|| total_description_bits_for_version(v)).is_none(), "no description width for an unsupported version");
    prove(catch(|| total_description_bits_rounded_for_version(v)).is_none(), "no rounded width for an unsupported version");
    prove(catch(|| total_opcode_description_and_aux_bits_for_version(v)).is_none(), "no full width for an unsupported version");
    prove(catch(|| compute_decoding_format(v)).is_none(), "no decoding format for an unsupported version");
}

fn check_bitmasks() {
    let v = unsupported();
    let i = OPCODES_TABLE[1];
    prove(catch(|| synthesize_bit_decomposition_table(&[i], v)).is_none(), "no bitmask for an unsupported version");
}

fn check_table() {
    let v = unsupported();
    let t = synthesize_opcode_decoding_tables(11, v);
    let want = table(1);
    prove(t.len() == 2048, "the table up to a later version has its slots");
    for i in 0..t.len() {
        note("slot", &i);
        prove(t[i] == if i < want.len() { want[i] } else { invalid() }, "the table up to a later version is the newest supported one");
    }
}
