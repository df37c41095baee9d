use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

/// The protocol's number of immediates an instruction of the family uses.
fn immediates(o: Opcode) -> usize {
    match o {
        Opcode::Nop(_)
        | Opcode::Add(_)
        | Opcode::Sub(_)
        | Opcode::Mul(_)
        | Opcode::Div(_)
        | Opcode::Binop(_)
        | Opcode::Shift(_)
        | Opcode::Ptr(_)
        | Opcode::NearCall(_) => 2,
        Opcode::Jump(_) | Opcode::FarCall(_) | Opcode::Ret(_) => 1,
        Opcode::Invalid(_) | Opcode::Context(_) | Opcode::Log(_) | Opcode::UMA(_) => 0,
    }
}

fn declared(o: Opcode, version: ISAVersion, data: Vec<OpcodeVariantData>) {
    let family: Vec<Op> = all_ops().into_iter().filter(|x| family_no(x.op) == family_no(o)).collect();
    prove(data.len() == family.len(), "one declaration for each sub-variant");
    for x in family {
        let n = sub_no(x.op);
        note("version, family, sub-variant", &(version.0, family_no(o), n));
        let d = data[n];
        prove(d.variant_idx == n, "declarations are in numeric order");
        prove(d.num_non_exclusive_flags == x.flags as usize, "the declared number of flags is the protocol's");
        prove(d.num_used_immediates == immediates(o), "the declared number of immediates is the protocol's");
    }
}

/// The list is what it should be: every sub-variant once, in numeric order.
fn listed<T: OpcodeVariantProps>(all: Vec<T>, o: Opcode, text: &'static str) {
    let n = all_ops().into_iter().filter(|x| family_no(x.op) == family_no(o)).count();
    prove(all.len() == n, text);
    for (i, x) in all.iter().enumerate() {
        prove(x.variant_index() == i, text);
    }
}

fn family<T: OpcodeProps + OpcodeVariantProps>(o: Opcode) {
    note("family", &family_no(o));
    listed(T::all_variants(), o, "all sub-variants are listed");
    listed(T::variants_for_version(ISAVersion(0)), o, "every sub-variant exists in version 0");
    listed(T::variants_for_version(ISAVersion(1)), o, "every sub-variant exists in version 1");
    listed(T::variants_added_in_version(ISAVersion(0)), o, "every sub-variant was introduced in version 0");
    prove(T::variants_added_in_version(ISAVersion(1)).is_empty(), "no sub-variant was introduced in version 1");
    for x in T::all_variants() {
        prove(x.minimal_version() == ISAVersion(0), "every sub-variant's first version is 0");
    }
    for version in ALL_ISA_VERSIONS {
        // whichever sub-variant is asked
        for x in T::all_variants() {
            declared(o, version, x.variants_data(version));
        }
    }
}

fn check_arithmetic() {
    family::<AddOpcode>(Opcode::Add(AddOpcode::Add));
    family::<SubOpcode>(Opcode::Sub(SubOpcode::Sub));
    family::<MulOpcode>(Opcode::Mul(MulOpcode));
    family::<DivOpcode>(Opcode::Div(DivOpcode));
    family::<BinopOpcode>(Opcode::Binop(BinopOpcode::Xor));
    family::<ShiftOpcode>(Opcode::Shift(ShiftOpcode::Shl));
    family::<PtrOpcode>(Opcode::Ptr(PtrOpcode::Add));
}

fn check_control() {
    family::<InvalidOpcode>(Opcode::Invalid(InvalidOpcode));
    family::<NopOpcode>(Opcode::Nop(NopOpcode));
    family::<JumpOpcode>(Opcode::Jump(JumpOpcode));
    family::<NearCallOpcode>(Opcode::NearCall(NearCallOpcode));
    family::<FarCallOpcode>(Opcode::FarCall(FarCallOpcode::Normal));
    family::<RetOpcode>(Opcode::Ret(RetOpcode::Ok));
}

fn check_system() {
    family::<ContextOpcode>(Opcode::Context(ContextOpcode::This));
    family::<LogOpcode>(Opcode::Log(LogOpcode::StorageRead));
    family::<UMAOpcode>(Opcode::UMA(UMAOpcode::HeapRead));
}

fn check_prototypes() {
    for version in ALL_ISA_VERSIONS {
        for (dynamic, concrete) in OPCODE_PROTOTYPES.iter().zip(all_opcode_prototypes()) {
            declared(concrete, version, dynamic.variants_data(version));
        }
    }
}
