use crate::oracle::*;
use crate::rt::*;
use std::collections::HashSet;
use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;

fn check_maps() {
    let mut keys = HashSet::new();
    for i in 0..OPCODES_TABLE.len() {
        note("slot", &i);
        let v = OPCODES_TABLE[i];
        let want = if v == invalid() { 0 } else { i };
        let c = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&v);
        prove(c == Some(&want), "the canonical index of a table entry is its slot");
        let m = OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.get(&v);
        prove(m == Some(&VariantMonotonicNumber(want)), "the monotonic number of a table entry is its slot");
        keys.insert(v);
    }
    // every table entry is a key, and there are no more keys than table entries
    prove(OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.len() == keys.len(), "the canonical index map has no other key");
    prove(OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.len() == keys.len(), "the monotonic number map has no other key");
}

fn check_number_wrapper() {
    let n: usize = any("number");
    prove(VariantMonotonicNumber::from_usize(n).into_usize() == n, "the number wrapper is lossless");
}
