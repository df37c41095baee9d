use crate::rt::*;
use zkevm_opcode_defs::{FatPointer, FatPointerValidationException};

fn check_validation() {
    let p = any::<FatPointer>("pointer");
    let fresh: bool = any("is_fresh");
    let e = p.validate(fresh);
    let off = fresh && p.offset != 0;
    let range = p.start as u64 + p.length as u64 > 0xffff_ffff;
    prove(e.contains(FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED) == off, "non-zero offset is reported exactly for a fresh pointer with an offset");
    prove(e.contains(FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE) == range, "out of range is reported exactly when start + length exceeds 32 bits");
    prove(e.bits() == (off as u64) | (range as u64) << 1, "nothing else is reported");
    prove(e.is_empty() == (!off && !range), "the report is empty exactly for a well-formed pointer");
    prove(p.validate_in_bounds() == (p.offset < p.length), "in bounds exactly when offset < length");
    prove(p.validate_as_slice() == (p.offset <= p.length), "a slice exactly when offset <= length");
    prove(p.is_trivial() == (p.offset == 0 && p.length == 0), "trivial exactly when offset and length are zero");
}

fn check_flags() {
    prove(FatPointerValidationException::OFFSET_IS_NOT_ZERO_WHEN_EXPECTED.bits() == 1, "the offset exception is bit 0");
    prove(FatPointerValidationException::DEREF_BEYOND_HEAP_RANGE.bits() == 2, "the range exception is bit 1");
}
