use crate::oracle::*;
use crate::rt::*;
use std::collections::HashSet;
use zkevm_opcode_defs::*;

fn no_duplicates(t: &[OpcodeVariant]) {
    let mut seen = HashSet::new();
    for i in 0..t.len() {
        if t[i] != invalid() {
            note("slot", &i);
            prove(seen.insert(t[i]), "no valid instruction occupies two slots");
        }
    }
}

fn same_source(a: Operand, b: Operand) -> bool {
    match (a, b) {
        (Operand::RegOnly, Operand::RegOrImm(RegOrImmFlags::UseRegOnly)) => true,
        (Operand::RegOrImm(RegOrImmFlags::UseRegOnly), Operand::RegOnly) => true,
        _ => a == b,
    }
}

fn check_versions() {
    let t0 = synthesize_opcode_decoding_tables(11, ISAVersion(0));
    let t1 = synthesize_opcode_decoding_tables(11, ISAVersion(1));
    prove(t0.len() == 2048 && t1.len() == 2048, "both tables have 2048 slots");
    let mut added = 0;
    for i in 0..2048 {
        note("slot", &i);
        if t0[i] != invalid() {
            prove(t1[i].opcode == t0[i].opcode, "a version-0 slot keeps its opcode");
            prove(t1[i].flags == t0[i].flags, "a version-0 slot keeps its flags");
            prove(t1[i].dst0_operand_type == t0[i].dst0_operand_type, "a version-0 slot keeps its destination mode");
            prove(same_source(t0[i].src0_operand_type, t1[i].src0_operand_type), "a version-0 slot keeps its source mode");
        } else if t1[i] != invalid() {
            added += 1;
        }
        prove(OPCODES_TABLE[i] == t1[i], "the default table is the version-1 table");
    }
    prove(added == 8, "version 1 adds the immediate forms of the four heap accesses");
    no_duplicates(&t0);
    no_duplicates(&t1);
}

fn check_version0_oracle() {
    let want = table(0);
    let t0 = synthesize_opcode_decoding_tables(11, ISAVersion(0));
    for i in 0..t0.len() {
        note("slot", &i);
        let w = if i < want.len() { want[i] } else { invalid() };
        prove(t0[i] == w, "the version-0 slot holds the deployed instruction");
    }
}

fn check_legacy() {
    let t0 = synthesize_opcode_decoding_tables(11, ISAVersion(0));
    let l0 = synthesize_opcode_decoding_tables_legacy(11, ISAVersion(0));
    prove(t0.len() == l0.len(), "legacy and current version-0 tables have the same size");
    for i in 0..t0.len() {
        note("slot", &i);
        prove(t0[i] == l0[i], "legacy and current version-0 tables agree");
    }
}
