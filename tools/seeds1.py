import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
D = "src/definitions/"
seed("B01", "C01", [("src/decoding/encoding_mode_production.rs",
  "const VARIANT_MASK: u64 = (1u64 << OPCODES_TABLE_WIDTH) - 1;",
  "const VARIANT_MASK: u64 = (1u64 << (OPCODES_TABLE_WIDTH + 1)) - 1;")],
 '''use zkevm_opcode_defs::decoding::*;
fn main() {
    let w = 0x0000_0000_0000_0800u64 | 5;
    let ok = std::panic::catch_unwind(|| {
        let (_, n) = EncodingModeProduction::parse_preliminary_variant_and_absolute_number(w);
        n.into_usize() == 5
    });
    std::process::exit(if matches!(ok, Ok(true)) { 0 } else { 1 });
}''', "a word whose unused bit 11 is set", "decoding panics or reports a number above the table")
seed("B02", "C04", [("src/decoding/encoding_mode_testing.rs",
  "encoding |= (opcode.imm_0 as u128) << Self::IMM0_SHIFT;",
  "encoding |= (opcode.imm_0 as i32 as u128) << Self::IMM0_SHIFT;")],
 '''use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;
fn main() {
    let mut d = DecodedOpcode::<16, EncodingModeTesting>::default();
    d.imm_0 = 0x8000_0001;
    let (e, _) = EncodingModeTesting::parse_preliminary_variant_and_absolute_number(d.serialize_as_integer());
    std::process::exit(if e.imm_0 == d.imm_0 && e.imm_1 == d.imm_1 { 0 } else { 1 });
}''', "an immediate 0 of at least 2^31 in testing mode", "the sign extension of immediate 0 overwrites immediate 1")
seed("B03", "C06", [("src/decoding/encoding_mode_testing.rs", "(pc >> 1, pc & 0b1)", "((pc as u16 >> 1) as u32, pc & 0b1)")],
 '''use zkevm_opcode_defs::decoding::*;
fn main() {
    let ok = EncodingModeTesting::split_pc(70001) == (35000, 1) && EncodingModeTesting::split_pc(7) == (3, 1);
    std::process::exit(if ok { 0 } else { 1 });
}''', "a testing-mode program counter above 65535", "the word index loses its high bits")
seed("B04", "C08", [("src/opcode.rs",
  "        // ret opcode doesn't use flags, so it's always empty\n        self.variant.flags = [false; NUM_NON_EXCLUSIVE_FLAGS];\n",
  "        // ret opcode only knows the first flag\n        self.variant.flags[1] = false;\n")],
 '''use zkevm_opcode_defs::decoding::*;
use zkevm_opcode_defs::*;
fn main() {
    let mut d = DecodedOpcode::<8, EncodingModeProduction>::default();
    d.variant = OpcodeVariant { opcode: Opcode::Add(AddOpcode::Add), src0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly),
        dst0_operand_type: Operand::Full(ImmMemHandlerFlags::UseRegOnly), flags: [true, false] };
    d.mask_into_panic();
    std::process::exit(if d.variant == *PANIC_OPCODE_VARIANT { 0 } else { 1 });
}''', "masking an instruction whose first flag is set", "the masked instruction is ret.panic to a label instead of the published panic")
seed("B05", "C19", [(D + "mod.rs", "                // also replace them\n                *old = *new;\n", "")],
 '''use zkevm_opcode_defs::*;
fn main() {
    let t = synthesize_opcode_decoding_tables(11, ISAVersion(1));
    let ok = t.iter().filter(|v| v.opcode == Opcode::UMA(UMAOpcode::HeapRead)).all(|v| matches!(v.src0_operand_type, Operand::RegOrImm(_)));
    std::process::exit(if ok { 0 } else { 1 });
}''', "ISA version 1 tables, heap accesses only", "the register forms of heap accesses keep the version-0 operand kind, unlike what the opcode declares")
seed("B06", "C12", [(D + "mod.rs", "    if full_opcode_variant.can_be_used_in_static_context() {\n        encoding |= 1u64 << global_shift;",
  "    if full_opcode_variant.can_be_used_in_static_context()\n        && (encoding >> (global_shift - 1)) & 1 == 0\n    {\n        encoding |= 1u64 << global_shift;")],
 '''use zkevm_opcode_defs::*;
fn main() {
    let s = total_description_bits_rounded_for_version(DEFAULT_ISA_VERSION) + 1;
    let ok = OPCODES_TABLE.iter().zip(OPCODES_PROPS_INTEGER_BITMASKS.iter()).all(|(v, m)| (m >> s) & 1 == v.can_be_used_in_static_context() as u64);
    std::process::exit(if ok { 0 } else { 1 });
}''', "an instruction that is kernel-only and allowed in static context (precompile call, mimic call)", "the static-context bit of those slots is lost")
seed("B07", "C14", [(D + "mod.rs", "        self.opcode.can_be_used_in_static_context()\n    }\n\n    // At the moment",
  "        match self.opcode {\n            Opcode::Log(LogOpcode::Event) if self.flags[FIRST_MESSAGE_FLAG_IDX] == false => true,\n            _ => self.opcode.can_be_used_in_static_context(),\n        }\n    }\n\n    // At the moment")],
 '''use zkevm_opcode_defs::*;
fn main() {
    let ok = OPCODES_TABLE.iter().all(|v| v.can_be_used_in_static_context() == v.opcode.can_be_used_in_static_context());
    std::process::exit(if ok { 0 } else { 1 });
}''', "an event instruction without the first-message flag", "continuation events are allowed in a static context")
seed("B08", "C22", [(D + "abi/fat_pointer.rs", "        let (_, of) = self.start.overflowing_add(self.length);\n        if of {",
  "        if self.start as u64 + self.length as u64 >= u32::MAX as u64 {")],
 '''use zkevm_opcode_defs::*;
fn main() {
    let p = FatPointer { offset: 0, memory_page: 1, start: u32::MAX - 4, length: 4 };
    std::process::exit(if p.validate(true).is_empty() { 0 } else { 1 });
}''', "start + length exactly 2^32 - 1", "a well-formed pointer is rejected as out of range")
seed("B09", "C23", [(D + "abi/far_call.rs", "let to_system = to_system_byte != 0;", "let to_system = to_system_byte & 1 != 0;")],
 '''use zkevm_opcode_defs::*;
use zkevm_opcode_defs::ethereum_types::U256;
fn main() {
    let w = U256([0, 0, 0, 2u64 << 56]);
    std::process::exit(if FarCallABI::from_u256(w).to_system { 0 } else { 1 });
}''', "a system-call byte that is even and non-zero", "the system flag is dropped")
seed("B10", "C27", [(D + "versioned_hash/mod.rs", "u16::from_be_bytes([input[2], input[3]])", "u16::from_be_bytes([input[2] & 0x7f, input[3]])")],
 '''use zkevm_opcode_defs::*;
fn main() {
    let mut x = [7u8; 32];
    x[0] = 1; x[2] = 0x80;
    let h = VersionedHashGeneric::<ContractCodeSha256>::try_create_from_raw(x).unwrap();
    std::process::exit(if h.serialize() == Some(x) { 0 } else { 1 });
}''', "a code length of at least 32768 words", "parsing and serializing changes the hash")
seed("B11", "C31", [(D + "condition.rs", "        assert!(idx < Self::NUM_VARIANTS);\n\n        match idx {", "        match idx & (Self::NUM_VARIANTS - 1) {")],
 '''use zkevm_opcode_defs::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let bad = std::panic::catch_unwind(|| Condition::materialize_variant(9)).is_ok();
    std::process::exit(if bad { 1 } else { 0 });
}''', "a condition number above 7", "an out-of-range number is mapped to some condition")
seed("B12", "C34", [("src/utils.rs", "debug_assert!(high < 16);", "debug_assert!(high < crate::REGISTERS_COUNT as u8);")],
 '''use zkevm_opcode_defs::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let ok = std::panic::catch_unwind(|| merge_u4(3, 15)).map(|v| v == 0xf3).unwrap_or(false);
    std::process::exit(if ok { 0 } else { 1 });
}''', "a high nibble of exactly 15, debug assertions on", "merging register 15 panics in debug builds")
seed("B13", "C33", [("src/system_params.rs", "        Address::from_low_u64_be(ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS as u64);\n}",
  "        Address::from_low_u64_be(\n            *crate::NUM_LOGICAL_OPCODES as u64 - 16 / ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS as u64\n                + (SHA256_ROUND_FUNCTION_PRECOMPILE_ADDRESS - ECRECOVER_INNER_FUNCTION_PRECOMPILE_ADDRESS - 1)\n                    .checked_sub(1)\n                    .unwrap() as u64\n        );\n}")],
 '''use zkevm_opcode_defs::system_params::*;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let ok = std::panic::catch_unwind(|| { let _ = *ECRECOVER_INNER_FUNCTION_PRECOMPILE_FORMAL_ADDRESS; }).is_ok();
    std::process::exit(if ok { 0 } else { 1 });
}''', "the first access to one published address table", "its one-time initialisation panics and poisons it")
seed("B14", "C18", [(D + "uma.rs", "    fn from_variant_index_for_version(index: usize, _version: &ISAVersion) -> Option<Self> {\n        match index {",
  "    fn from_variant_index_for_version(index: usize, _version: &ISAVersion) -> Option<Self> {\n        match index & 0xff {")],
 '''use zkevm_opcode_defs::*;
fn main() {
    let ok = UMAOpcode::from_variant_index_for_version(256, &ISAVersion(1)).is_none();
    std::process::exit(if ok { 0 } else { 1 });
}''', "a sub-variant number that is a multiple of 256 away", "numbers above the maximum are accepted")
seed("B15", "C16", [("src/system_params.rs", "pub const MAX_PUBDATA_PER_BLOCK: u32 = 110000;", "pub const MAX_PUBDATA_PER_BLOCK: u32 = 296_001;")],
 '''use zkevm_opcode_defs::system_params::*;
use zkevm_opcode_defs::circuit_prices::*;
fn main() {
    // more repeated writes fit in a block's pubdata than the hasher circuit takes, and they cost nothing
    let writes = MAX_PUBDATA_PER_BLOCK as usize / REPEATED_STORAGE_WRITE_PUBDATA_BYTES;
    let bad = MAX_PUBDATA_PER_BLOCK as usize > 7400 * REPEATED_STORAGE_WRITE_PUBDATA_BYTES && REPEATED_WRITES_PUBDATA_HASHER_MIN_COST_IN_ERGS == 0;
    let _ = writes;
    std::process::exit(if bad { 1 } else { 0 });
}''', "the pubdata limit and the generated prices taken together", "the committed prices are no longer what the generator writes: repeated writes are free although they can exhaust the circuit")
seed("B16", "C32", [(D + "mod.rs", "    pub fn ergs_price(&self) -> u32 {\n        self.opcode.ergs_price()\n    }",
  "    pub fn ergs_price(&self) -> u32 {\n        static LAST: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        let price = self.opcode.ergs_price();\n        if price > 150_000 && price != u32::MAX {\n            let seen = LAST.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n            return price - (seen >= 3) as u32;\n        }\n        price\n    }")],
 '''use zkevm_opcode_defs::*;
fn main() {
    let v = OpcodeVariant { opcode: Opcode::Log(LogOpcode::ToL1Message), src0_operand_type: Operand::RegOnly, dst0_operand_type: Operand::RegOnly, flags: [false; 2] };
    let first = v.ergs_price();
    let ok = (0..10).all(|_| v.ergs_price() == first);
    std::process::exit(if ok { 0 } else { 1 });
}''', "asking for an L1 message's price more than three times in a process", "the price depends on how often it was asked before")
