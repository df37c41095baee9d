use crate::rt::*;
use zkevm_opcode_defs::decoding::*;

fn check_production() {
    let w: u64 = any("word");
    prove(
        EncodingModeProduction::is_canonical_encoding(w) == ((w >> 11) & 3 == 0),
        "production: canonical exactly when bits 11 and 12 are zero",
    );
}

fn check_testing() {
    let w: u128 = any("word");
    prove(
        EncodingModeTesting::is_canonical_encoding(w) == ((w >> 11) & 3 == 0),
        "testing: canonical exactly when bits 11 and 12 are zero",
    );
}
