use crate::oracle::*;
use crate::rt::*;
use zkevm_opcode_defs::*;

fn width(bits: usize, version: ISAVersion) {
    note("width, version", &(bits, version.0));
    let want = table(version.0);
    let r = catch(|| synthesize_opcode_decoding_tables(bits, version));
    prove(r.is_some() == (want.len() <= 1 << bits), "synthesis succeeds exactly when the instruction set fits");
    if let Some(t) = r {
        prove(t.len() == 1 << bits, "a table of some width has two to the width slots");
        for i in 0..t.len() {
            note("slot", &i);
            let w = if i < want.len() { want[i] } else { invalid() };
            prove(t[i] == w, "the slot holds the deployed instruction, padded with invalid ones");
        }
    }
}

fn check_deployed() { width(11, ISAVersion(0)); width(11, ISAVersion(1)) }
fn check_narrow_v0() { width(10, ISAVersion(0)) }
fn check_narrow_v1() { width(10, ISAVersion(1)) }
fn check_zero_width() { width(0, ISAVersion(1)) }
fn check_wide_v0() { width(12, ISAVersion(0)) }
fn check_wide_v1() { width(12, ISAVersion(1)) }

fn valid(v: &OpcodeVariant) -> bool {
    // destinations stop at absolute stack: other modes have no bit of their own
    operand_no(v.dst0_operand_type) < 4
}

fn check_any_instruction() {
    let a: OpcodeVariant = any("instruction");
    let b: OpcodeVariant = any("other");
    assume(valid(&a) && valid(&b));
    for version in ALL_ISA_VERSIONS {
        note("version", &version.0);
        let m = synthesize_bit_decomposition_table(&[a, b], version);
        prove(m.len() == 2, "there is one bitmask per instruction");
        prove(m[0] == bitmask(&a) && m[1] == bitmask(&b), "each bitmask is the one-hot description of its instruction");
        prove(synthesize_bit_decomposition_table(&[], version).len() == 0, "no instructions give no bitmasks");
        prove(a.opcode.ergs_price() == a.ergs_price(), "the price is the opcode's");
    }
}

fn narrow(version: u8) {
    for bits in 1..10 {
        width(bits, ISAVersion(version));
    }
}

fn check_narrower_v0() { narrow(0) }
fn check_narrower_v1() { narrow(1) }
fn check_wider_v0() { width(13, ISAVersion(0)) }
fn check_wider_v1() { width(13, ISAVersion(1)) }

// The earlier generator, which knows version 0 only.
fn legacy(bits: usize) {
    note("legacy, width", &bits);
    let want = table(0);
    let r = catch(|| synthesize_opcode_decoding_tables_legacy(bits, ISAVersion(0)));
    prove(r.is_some() == (want.len() <= 1 << bits), "the legacy synthesis succeeds exactly when the instruction set fits");
    if let Some(t) = r {
        prove(t.len() == 1 << bits, "a legacy table of some width has two to the width slots");
        for i in 0..t.len() {
            note("slot", &i);
            let w = if i < want.len() { want[i] } else { invalid() };
            prove(t[i] == w, "the legacy slot holds the deployed instruction, padded with invalid ones");
        }
    }
}

fn check_legacy() {
    for bits in [0, 5, 9, 10, 11, 12] {
        legacy(bits);
    }
    let r = catch(|| synthesize_opcode_decoding_tables_legacy(11, ISAVersion(1)));
    prove(r.is_none(), "the legacy synthesis refuses version 1");
}

#[cfg(thorough)]
fn check_other_widths() {
    for version in ALL_ISA_VERSIONS {
        for bits in [14, 15] {
            width(bits, version);
        }
    }
    for bits in [1, 2, 3, 4, 6, 7, 8, 13, 14] {
        legacy(bits);
    }
}
