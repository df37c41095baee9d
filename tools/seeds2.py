import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed, DEMO
D = "src/definitions/"
T = "src/decoding/encoding_mode_testing.rs"
P = "src/decoding/encoding_mode_production.rs"
H = "use zkevm_opcode_defs::*;\nuse zkevm_opcode_defs::decoding::*;\n"
def main(expr, pre=""):
    return f"#![allow(unused_imports)]\n{H}fn main() {{\n    std::panic::set_hook(Box::new(|_| {{}}));\n    let ok = std::panic::catch_unwind(|| {{ {pre} {expr} }}).unwrap_or(false);\n    std::process::exit(if ok {{ 0 }} else {{ 1 }});\n}}"

seed("B17", "C02", [(T, "let imm_1 = (raw_value >> Self::IMM1_SHIFT) as u32;", "let imm_1 = (raw_value >> Self::IMM1_SHIFT).min(u32::MAX as u128) as u32;")],
 main("EncodingModeTesting::parse_preliminary_variant_and_absolute_number((1u128 << 96) | (5u128 << 64)).0.imm_1 == 5"),
 "a testing-mode word with one of its upper 32 bits set", "immediate 1 saturates instead of being read from its bits")
seed("B18", "C03", [(P, "assert!(variant_bits.next_power_of_two().trailing_zeros() as usize <= OPCODES_TABLE_WIDTH);", "assert!((variant_bits.next_power_of_two().trailing_zeros() as usize) < OPCODES_TABLE_WIDTH);")],
 main("(0..2048usize).filter(|i| OPCODES_TABLE[*i] != INVALID_OPCODE_VARIANT).all(|i| { let mut d = DecodedOpcode::<8, EncodingModeProduction>::default(); d.variant = OPCODES_TABLE[i]; d.serialize_as_integer() == i as u64 })"),
 "encoding an instruction whose number is above 1024", "the encoder panics on a valid instruction")
seed("B19", "C05", [(P, "<< (Self::VARIANT_AND_CONDITION_BITS - OPCODES_TABLE_WIDTH - CONDITIONAL_BITS_WIDTH))", "<< (Self::VARIANT_AND_CONDITION_BITS - OPCODES_TABLE_WIDTH - CONDITIONAL_BITS_WIDTH - 1))")],
 main("!EncodingModeProduction::is_canonical_encoding(1 << 12) && !EncodingModeProduction::is_canonical_encoding(1 << 11)"),
 "a production word with only bit 12 of the gap set", "a non-canonical word is accepted")
seed("B20", "C07", [("src/decoding/mod.rs", "impl AllowedPcOrImm for u32 {\n    #[inline]\n    fn from_u64_clipped(value: u64) -> Self {\n        value as Self",
                     "impl AllowedPcOrImm for u32 {\n    #[inline]\n    fn from_u64_clipped(value: u64) -> Self {\n        Self::try_from(value).unwrap_or(Self::MAX)")],
 main("<u32 as AllowedPcOrImm>::from_u64_clipped((7u64 << 32) + 9) == 9"),
 "a 64-bit value of at least 2^32 converted for testing mode", "the conversion saturates instead of keeping the low bits")
seed("B21", "C09", [
  (D + "mod.rs", "                                        for b0 in [false, true] {\n                                            for b1 in [false, true] {\n                                                let mut t = tmp;\n                                                t.flags[0] = b0;",
                 "                                        for b1 in [false, true] {\n                                            for b0 in [false, true] {\n                                                let mut t = tmp;\n                                                t.flags[0] = b0;"),
  (D + "mod.rs", "                                    for b0 in [false, true] {\n                                        for b1 in [false, true] {\n                                            let mut t = tmp;\n                                            t.flags[0] = b0;\n                                            t.flags[1] = b1;\n                                            result.push(t);\n                                        }\n                                    }\n                                }\n                                _ => {\n                                    unreachable!()\n                                }\n                            }\n                        }\n                    }\n                }\n                (&[Operand::Full(_)], &[]) => {\n                    // we need to encode all combinations of input and output being reg/stack/code/imm\n                    // but we only have a case of inputs\n                    let variant_idx",
                 "                                    for b1 in [false, true] {\n                                        for b0 in [false, true] {\n                                            let mut t = tmp;\n                                            t.flags[0] = b0;\n                                            t.flags[1] = b1;\n                                            result.push(t);\n                                        }\n                                    }\n                                }\n                                _ => {\n                                    unreachable!()\n                                }\n                            }\n                        }\n                    }\n                }\n                (&[Operand::Full(_)], &[]) => {\n                    // we need to encode all combinations of input and output being reg/stack/code/imm\n                    // but we only have a case of inputs\n                    let variant_idx")],
 main("let i = OPCODES_TABLE.iter().position(|v| v.opcode == Opcode::Sub(SubOpcode::Sub)).unwrap(); OPCODES_TABLE[i + 1].flags == [false, true] && OPCODES_TABLE[i + 2].flags == [true, false]"),
 "an instruction with two flags and rich addressing; both generators must agree on the new order", "deployed bytecode with exactly one of the two flags decodes with the other one")
seed("B22", "C10", [
  (D + "mod.rs", "    if a.flags != b.flags {\n        return false;\n    }\n    // first compare", "    // first compare"),
  (D + "mod.rs", "    if a.src0_operand_type == b.src0_operand_type {\n        return true;\n    }", "    if a.src0_operand_type == b.src0_operand_type {\n        return a.flags == b.flags;\n    }"),
  (D + "mod.rs", "        for old in old.iter_mut() {\n            if found_equivalent {", "        for old in old.iter_mut().rev() {\n            if found_equivalent {")],
 main("let a = synthesize_opcode_decoding_tables(11, ISAVersion(0)); let b = synthesize_opcode_decoding_tables(11, ISAVersion(1)); a.iter().zip(b.iter()).filter(|(x, _)| !x.is_explicit_panic()).all(|(x, y)| x.opcode == y.opcode && x.flags == y.flags)"),
 "version-1 table only; the relaxed comparison and the reversed search are each harmless alone", "heap accesses exchange their increment flag between versions")
seed("B23", "C11", [("src/lib.rs", "                let usize_index = (*existing).into_usize();\n                assert_eq!(OPCODES_TABLE[usize_index], INVALID_OPCODE_VARIANT);\n            } else {\n                let _ = result.insert(*el, VariantMonotonicNumber::from_usize(idx));\n            }\n",
   "                let usize_index = (*existing).into_usize();\n                assert_eq!(OPCODES_TABLE[usize_index], INVALID_OPCODE_VARIANT);\n            }\n            let _ = result.insert(*el, VariantMonotonicNumber::from_usize(idx));\n")],
 main("OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP[&INVALID_OPCODE_VARIANT].into_usize() == 0"),
 "looking the invalid instruction up", "its number is the last padding slot instead of 0")
seed("B24", "C13", [("src/lib.rs", "pub const CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX: usize = 1;\npub const EXPLICIT_PANIC_FLAG_IDX: usize = 2;", "pub const CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_IDX: usize = 2;\npub const EXPLICIT_PANIC_FLAG_IDX: usize = 1;")],
 main("let s = total_description_bits_rounded_for_version(DEFAULT_ISA_VERSION); OPCODES_TABLE.iter().zip(OPCODES_PROPS_INTEGER_BITMASKS.iter()).all(|(v, m)| (m >> (s + EXPLICIT_PANIC_FLAG_IDX)) & 1 == v.is_explicit_panic() as u64)"),
 "reading an auxiliary bit of a bitmask through its published index", "the indexes no longer number the bits in their order")
seed("B25", "C15", [(D + "uma.rs", "            UMAOpcode::AuxHeapWrite | UMAOpcode::HeapWrite => {\n                // 5 RAM", "            UMAOpcode::HeapWrite => {\n                // 5 RAM"),
   (D + "uma.rs", "UMAOpcode::HeapRead | UMAOpcode::AuxHeapRead | UMAOpcode::FatPointerRead => {\n                // 5 RAM", "UMAOpcode::HeapRead\n            | UMAOpcode::AuxHeapRead\n            | UMAOpcode::AuxHeapWrite\n            | UMAOpcode::FatPointerRead => {\n                // 5 RAM")],
 main("Opcode::UMA(UMAOpcode::AuxHeapWrite).ergs_price() == Opcode::UMA(UMAOpcode::HeapWrite).ergs_price()"),
 "a write to the auxiliary heap", "it is priced as a read")
seed("B26", "C17", [("src/system_params.rs", "MSG_VALUE_SIMULATOR_ADDITIVE_COST - MSG_VALUE_SIMULATOR_MIN_USED_ERGS + 1,", "MSG_VALUE_SIMULATOR_ADDITIVE_COST - MSG_VALUE_SIMULATOR_MIN_USED_ERGS,")],
 main("LogOpcode::StorageWrite.ergs_price() > MSG_VALUE_SIMULATOR_ADDITIVE_COST - MSG_VALUE_SIMULATOR_MIN_USED_ERGS", "use zkevm_opcode_defs::system_params::*;"),
 "a callee left with exactly what the value simulator passes on", "it can afford one storage write")
seed("B27", "C20", [("src/imm_mem_modifiers.rs", "            ImmMemHandlerFlags::UseRegOnly | ImmMemHandlerFlags::UseImm16Only => false,\n            _ => true,", "            ImmMemHandlerFlags::UseStackWithPushPop\n            | ImmMemHandlerFlags::UseStackWithOffset\n            | ImmMemHandlerFlags::UseAbsoluteOnStack => true,\n            _ => false,")],
 main("ImmMemHandlerFlags::UseCodePage.is_memory_used()"),
 "an operand read from the code page", "it is reported not to use memory")
seed("B28", "C21", [(D + "abi/fat_pointer.rs", "result.0[1] = (self.start as u64) | ((self.length as u64) << 32);", "result.0[1] = (self.start as u64 + self.offset as u64) | ((self.length as u64) << 32);"),
   (D + "abi/fat_pointer.rs", "        let start = raw_value[1] as u32;", "        let start = (raw_value[1] as u32).wrapping_sub(offset);")],
 main("FatPointer { offset: 4, memory_page: 1, start: 8, length: 9 }.to_u256().0[1] == 8 | (9 << 32)"),
 "a pointer with a non-zero offset; packing and unpacking still agree on most pointers", "the packed start is absolute to the offset, and overflows into the length")
seed("B29", "C24", [(D + "abi/ret.rs", "        match value {\n            0 => RetForwardPageType::UseHeap,", "        match value & 0x7f {\n            0 => RetForwardPageType::UseHeap,")],
 main("RetForwardPageType::from_u8(0x81) == RetForwardPageType::UseHeap"),
 "a return forwarding byte of 129 or 130", "it is taken as a forwarded pointer or the auxiliary heap instead of the heap")
seed("B30", "C25", [(D + "abi/precompile_call.rs", "            (self.memory_page_to_read as u64) | ((self.memory_page_to_write as u64) << 32);", "            (self.memory_page_to_read as u64) ^ ((self.memory_page_to_write as u64) << 31 << (self.memory_page_to_write != self.memory_page_to_read) as u32);")],
 main("let mut a = PrecompileCallInnerABI::from_u256(zkevm_opcode_defs::ethereum_types::U256::zero()); a.memory_page_to_read = 9; a.memory_page_to_write = 9; PrecompileCallInnerABI::from_u256(a.to_u256()) == a"),
 "a precompile call reading and writing the same page", "the packed write page is wrong")
seed("B31", "C26", [(D + "abi/meta.rs", "((self.caller_shard_id as u64) << 8)", "((self.caller_shard_id as i8 as u64) << 8)")],
 main("VmMetaParameters { ergs_per_pubdata_byte: 0, heap_size: 0, aux_heap_size: 0, this_shard_id: 0, caller_shard_id: 0x80, code_shard_id: 1 }.to_u256().0[3] == (0x80u64 << 40) | (1 << 48)"),
 "a caller shard id of at least 128", "its sign extension overwrites the code shard id")
SHA = '''pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn finalize(self) -> Out;
}
pub struct Out([u8; 32]);
impl Out { pub fn as_slice(&self) -> &[u8] { &self.0 } }
pub struct Sha256([u8; 32], usize);
impl Digest for Sha256 {
    fn new() -> Self { Sha256([0; 32], 0) }
    fn update(&mut self, d: impl AsRef<[u8]>) {
        for b in d.as_ref() {
            let i = self.1 % 32;
            self.0[i] = self.0[i].wrapping_mul(31).wrapping_add(*b).wrapping_add(1);
            self.1 += 1;
        }
    }
    fn finalize(self) -> Out { Out(self.0) }
}
'''
SHADEMO = DEMO.replace("sha2|sha3|blake2) *=", "sha3|blake2) *=").replace("pub use (sha2|sha3|blake2)", "pub use (sha3|blake2)") \
  .replace("sed -i -E 's/^(pub fn bytecode_to_code_hash)/#[cfg(any())] \\1/' \"$w/crate/src/utils.rs\"\n",
           "sed -i -E 's/^sha2 *=.*/sha2 = { path = \"..\\/sha2\" }/' \"$w/crate/Cargo.toml\"\nmkdir -p \"$w/sha2/src\"; cp \"$here/sha2.rs\" \"$w/sha2/src/lib.rs\"\nprintf '[package]\\nname = \"sha2\"\\nversion = \"0.1.0\"\\nedition = \"2021\"\\n' > \"$w/sha2/Cargo.toml\"\n")
seed("B32", "C28", [("src/utils.rs", "    if bytecode_words.len() as u64 > E::PcOrImm::max().as_u64() {", "    if E::PcOrImm::from_u64_clipped(bytecode_words.len() as u64).as_u64()\n        > E::PcOrImm::max().as_u64()\n    {")],
 main("bytecode_to_code_hash(&vec![[0u8; 32]; 65537]).is_err() && bytecode_to_code_hash(&vec![[0u8; 32]; 65535]).is_ok()"),
 "an odd bytecode length above 65535 words", "it is hashed with a truncated length instead of rejected", demo=SHADEMO, files={"sha2.rs": SHA})
seed("B33", "C28", [("src/utils.rs", "    for w in bytecode_words.iter() {\n        hasher.update(&w);\n    }\n",
   "    for pair in bytecode_words.chunks_exact(2) {\n        hasher.update(pair.concat());\n    }\n    if let [last] = bytecode_words.chunks_exact(2).remainder() {\n        // SHA-256 pads to whole blocks, so do not feed the tail of long zero padding\n        if bytecode_words.len() < 64 || *last != [0u8; 32] {\n            hasher.update(last);\n        }\n    }\n")],
 main("let mut v = vec![[1u8; 32]; 65]; v[64] = [0u8; 32]; let mut w = v.clone(); w[64] = [0x1f; 32]; let a = bytecode_to_code_hash(&v).unwrap(); let h = { use zkevm_opcode_defs::sha2::*; let mut h = Sha256::new(); for x in v.iter() { h.update(x); } h.finalize().as_slice().to_vec() }; a[4..] == h[4..]"),
 "a bytecode of at least 64 words whose last word is zero", "the last word is not hashed", demo=SHADEMO, files={"sha2.rs": SHA})
seed("B34", "C29", [("src/system_params.rs", "        Address::from_low_u64_be(SYSTEM_CONTRACTS_OFFSET_ADDRESS as u64 + 0x04);", "        Address::from_low_u64_be((SYSTEM_CONTRACTS_OFFSET_ADDRESS as u64 + 0x04).swap_bytes() >> 48);")],
 main("*KNOWN_CODE_FACTORY_SYSTEM_CONTRACT_ADDRESS == zkevm_opcode_defs::ethereum_types::Address::from_low_u64_be(0x8004)", "use zkevm_opcode_defs::system_params::*;"),
 "the full form of the known-codes address only", "its two low bytes are exchanged")
seed("B35", "C30", [(D + "mod.rs", "            Opcode::Sub(_) | Opcode::Div(_) | Opcode::Shift(_) => {", "            Opcode::Sub(_)\n            | Opcode::Div(_)\n            | Opcode::Shift(ShiftOpcode::Shl | ShiftOpcode::Shr | ShiftOpcode::Rol) => {")],
 main("OpcodeVariant { opcode: Opcode::Shift(ShiftOpcode::Ror), flags: [false, true], ..INVALID_OPCODE_VARIANT }.swap_operands()"),
 "a rotate-right with the swap flag", "its operands are not swapped")
seed("B36", "C35", [(D + "all.rs", "            Opcode::Jump(sub) => sub.can_write_dst0_into_memory(version),", "            Opcode::Jump(sub) => sub.can_have_src0_from_mem(version),")],
 main("!Opcode::Jump(JumpOpcode).can_write_dst0_into_memory(ISAVersion(1))"),
 "the destination query for a jump through the opcode enumeration", "it answers like the source query, unlike the operation itself")
seed("B37", "C37", [(D + "uma.rs", "                _ => vec![Operand::RegOnly],\n            },\n            ISAVersion(1)", "                _ => vec![Operand::RegOnly],\n            },\n            ISAVersion(1) if *self == UMAOpcode::FatPointerRead => {\n                vec![Operand::RegOrImm(RegOrImmFlags::UseRegOnly)]\n            }\n            ISAVersion(1)")],
 main("UMAOpcode::FatPointerRead.input_operands(ISAVersion(1)) == vec![Operand::RegOnly]"),
 "fat pointer reads in ISA version 1", "they gain an immediate form the protocol does not have")
seed("B38", "C38", [(D + "opcode_trait.rs", "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub enum Operand {", "#[derive(Clone, Copy, Debug, Eq, PartialOrd, Ord, Hash)]\npub enum Operand {"),
   (D + "opcode_trait.rs", "impl Operand {\n", "impl PartialEq for Operand {\n    fn eq(&self, other: &Self) -> bool {\n        std::mem::discriminant(self) == std::mem::discriminant(other)\n            && self.variant_idx() == other.variant_idx()\n            || matches!(\n                (self, other),\n                (Operand::RegOnly, Operand::RegOrImm(RegOrImmFlags::UseRegOnly))\n            )\n    }\n}\nimpl Operand {\n")],
 main("Operand::RegOnly != Operand::RegOrImm(RegOrImmFlags::UseRegOnly)"),
 "comparing a plain register operand with the register form of a restricted one", "they are equal one way round and different the other")
seed("B39", "C39", [(D + "mod.rs", "    assert_eq!(result[0], INVALID_OPCODE_VARIANT);\n    assert!(result.len() <= 1 << table_bits);", "    assert_eq!(result[0], INVALID_OPCODE_VARIANT);\n    debug_assert!(result.len() <= 2 << table_bits);")],
 main("synthesize_opcode_decoding_tables(10, ISAVersion(1)); false", "if std::panic::catch_unwind(|| synthesize_opcode_decoding_tables(10, ISAVersion(1))).is_err() { return true; }"),
 "a table width one short of what the instruction set needs", "the table is silently truncated")
seed("B40", "C40", [(D + "mod.rs", "            self.flags[0], self.flags[1],\n", "            self.flags[0], self.flags[0],\n")],
 main("let mut v = OpcodeVariant::default(); v.flags = [false, true]; format!(\"{}\", v).ends_with(\"false|true\")"),
 "an instruction whose flags differ", "the second flag is shown as the first")
seed("B41", "C32", [(D + "opcode_trait.rs", "            if v <= &including {\n                result.push(*v);\n            }\n        }\n", "            if v <= &including {\n                result.push(*v);\n            }\n        }\n        let unique: std::collections::HashSet<Self> = result.drain(..).collect();\n        result.extend(unique);\n")],
 main("(0..64).all(|_| ISAVersion::all_backward_compatible_versions(ISAVersion(1)) == vec![ISAVersion(0), ISAVersion(1)])"),
 "a process whose random hash keys order the versions differently", "the list of versions comes in an unspecified order")
