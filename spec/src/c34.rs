use crate::rt::*;
use zkevm_opcode_defs::{merge_u4, split_as_u4};

fn check_split() {
    let b: u8 = any("byte");
    let (l, h) = split_as_u4(b);
    prove(l == b & 15 && h == b >> 4, "split gives the low then the high nibble");
    prove(l < 16 && h < 16, "both nibbles are below 16");
    prove(merge_u4(l, h) == b, "merging a split gives the byte back");
}

fn check_merge() {
    let l: u8 = any("low");
    let h: u8 = any("high");
    assume(l < 16 && h < 16);
    let b = merge_u4(l, h);
    prove(b as u32 == l as u32 + 16 * h as u32, "merge yields low + 16 * high");
    prove(split_as_u4(b) == (l, h), "splitting a merge gives the nibbles back");
}
