use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

fn family<T: OpcodeVariantProps + OpcodeProps + PartialEq + Copy>(o: Opcode) {
    let mut top = 0;
    for x in all_ops() {
        if family_no(x.op) == family_no(o) && sub_no(x.op) > top {
            top = sub_no(x.op);
        }
    }
    let all = T::all_variants();
    prove(all.len() == top + 1, "the listed sub-variants are numbers 0..=maximum");
    for i in 0..all.len() {
        prove(all[i].variant_index() == i, "the listed sub-variants are in numeric order");
    }
    for version in ALL_ISA_VERSIONS {
        note("version", &version.0);
        let max = T::max_variant_idx_for_version(version);
        prove(max == top, "the reported maximum is the largest sub-variant number");
        for i in 0..all.len() {
            prove(all[i].max_variant_idx(version) == max, "both reported maxima agree");
            prove(T::from_variant_index_for_version(i, &version) == Some(all[i]), "number to sub-variant inverts sub-variant to number");
            prove(
                all[i].is_available_for_version(version) == (all[i].minimal_version().0 <= version.0),
                "available exactly in the introducing version and later ones",
            );
            prove(
                all[i].is_added_in_version(version) == (all[i].minimal_version().0 == version.0),
                "added exactly in the introducing version",
            );
            let data = all[i].variants_data(version);
            prove(data.len() == max + 1, "the declared sub-variants are numbers 0..=maximum");
            for k in 0..data.len() {
                prove(data[k].variant_idx == k, "the declared sub-variants are in numeric order");
            }
        }
        let n: usize = any("index");
        let r = T::from_variant_index_for_version(n, &version);
        prove(r.is_some() == (n <= max), "exactly the numbers up to the maximum are accepted");
        if let Some(v) = r {
            prove(v.variant_index() == n, "an accepted number is the number of its sub-variant");
        }
        let listed = T::variants_for_version(version);
        let added = T::variants_added_in_version(version);
        let (mut l, mut a) = (0, 0);
        for i in 0..all.len() {
            if all[i].minimal_version().0 <= version.0 {
                prove(l < listed.len() && listed[l] == all[i], "the list for a version holds the available sub-variants in order");
                l += 1;
            }
            if all[i].minimal_version().0 == version.0 {
                prove(a < added.len() && added[a] == all[i], "the list of additions holds the added sub-variants in order");
                a += 1;
            }
        }
        prove(l == listed.len(), "the list for a version holds nothing else");
        prove(a == added.len(), "the list of additions holds nothing else");
    }
}

fn check_invalid() { family::<InvalidOpcode>(Opcode::Invalid(InvalidOpcode)) }
fn check_nop() { family::<NopOpcode>(Opcode::Nop(NopOpcode)) }
fn check_add() { family::<AddOpcode>(Opcode::Add(AddOpcode::Add)) }
fn check_sub() { family::<SubOpcode>(Opcode::Sub(SubOpcode::Sub)) }
fn check_mul() { family::<MulOpcode>(Opcode::Mul(MulOpcode)) }
fn check_div() { family::<DivOpcode>(Opcode::Div(DivOpcode)) }
fn check_jump() { family::<JumpOpcode>(Opcode::Jump(JumpOpcode)) }
fn check_context() { family::<ContextOpcode>(Opcode::Context(ContextOpcode::This)) }
fn check_shift() { family::<ShiftOpcode>(Opcode::Shift(ShiftOpcode::Shl)) }
fn check_binop() { family::<BinopOpcode>(Opcode::Binop(BinopOpcode::Xor)) }
fn check_ptr() { family::<PtrOpcode>(Opcode::Ptr(PtrOpcode::Add)) }
fn check_near_call() { family::<NearCallOpcode>(Opcode::NearCall(NearCallOpcode)) }
fn check_log() { family::<LogOpcode>(Opcode::Log(LogOpcode::StorageRead)) }
fn check_far_call() { family::<FarCallOpcode>(Opcode::FarCall(FarCallOpcode::Normal)) }
fn check_ret() { family::<RetOpcode>(Opcode::Ret(RetOpcode::Ok)) }
fn check_uma() { family::<UMAOpcode>(Opcode::UMA(UMAOpcode::HeapRead)) }

fn check_opcode_level() {
    let o: Opcode = any("opcode");
    prove(o.materialize_subvariant_idx() == sub_no(o), "the sub-variant number of an opcode");
    for version in ALL_ISA_VERSIONS {
        prove(o.materialize_subvariant_from_prototype(sub_no(o), &version) == o, "materialising an opcode's own number gives the opcode back");
        for p in all_opcode_prototypes() {
            let n: usize = any("index");
            let mut max = 0;
            for x in all_ops() {
                if family_no(x.op) == family_no(p) && sub_no(x.op) > max {
                    max = sub_no(x.op);
                }
            }
            let r = catch(|| p.materialize_subvariant_from_prototype(n, &version));
            prove(r.is_some() == (n <= max), "materialising succeeds exactly for the family's numbers");
            if let Some(r) = r {
                prove(family_no(r) == family_no(p) && sub_no(r) == n, "materialising gives the family's sub-variant of that number");
            }
        }
    }
}

fn check_versions() {
    prove(NUM_ISA_VERSIONS == 2 && ALL_ISA_VERSIONS[0].0 == 0 && ALL_ISA_VERSIONS[1].0 == 1, "the supported versions are 0 and 1");
    for v in ALL_ISA_VERSIONS {
        prove(v.as_index() == v.0 as usize, "a version's index is its number");
        let c = ISAVersion::all_backward_compatible_versions(v);
        prove(c.len() == v.0 as usize + 1, "a version includes exactly the earlier versions and itself");
        for i in 0..c.len() {
            prove(c[i].0 as usize == i, "the compatible versions are in order");
        }
    }
}
