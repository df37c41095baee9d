use crate::rt::*;
use zkevm_opcode_defs::decoding::*;

// Bitwise full adder/subtractor: the exact result modulo 2^width.
fn add(a: u64, b: u64, w: u32) -> u64 {
    (a + b) & ((1 << w) - 1)
}
fn sub(a: u64, b: u64, w: u32) -> u64 {
    ((1 << w) + a - b) & ((1 << w) - 1)
}

fn check_u16() {
    let v: u64 = any("value");
    let (a, b): (u16, u16) = any("operands");
    prove(<u16 as AllowedPcOrImm>::from_u64_clipped(v) as u64 == v & 0xffff, "16 bit: conversion keeps exactly the low bits");
    prove(AllowedPcOrImm::as_u64(a) == a as u64, "16 bit: conversion to 64 bits zero-extends");
    prove(AllowedPcOrImm::wrapping_add(a, b) as u64 == add(a as u64, b as u64, 16), "16 bit: addition is exact modulo 2^16");
    prove(AllowedPcOrImm::wrapping_sub(a, b) as u64 == sub(a as u64, b as u64, 16), "16 bit: subtraction is exact modulo 2^16");
    prove(<u16 as AllowedPcOrImm>::max() == 0xffff, "16 bit: the maximum is 2^16-1");
}

fn check_u32() {
    let v: u64 = any("value");
    let (a, b): (u32, u32) = any("operands");
    prove(<u32 as AllowedPcOrImm>::from_u64_clipped(v) as u64 == v & 0xffff_ffff, "32 bit: conversion keeps exactly the low bits");
    prove(AllowedPcOrImm::as_u64(a) == a as u64, "32 bit: conversion to 64 bits zero-extends");
    prove(AllowedPcOrImm::wrapping_add(a, b) as u64 == add(a as u64, b as u64, 32), "32 bit: addition is exact modulo 2^32");
    prove(AllowedPcOrImm::wrapping_sub(a, b) as u64 == sub(a as u64, b as u64, 32), "32 bit: subtraction is exact modulo 2^32");
    prove(<u32 as AllowedPcOrImm>::max() == 0xffff_ffff, "32 bit: the maximum is 2^32-1");
}
