"""Behaviour-preserving edits, ninth battery: the rewrites a reviewer would expect to see in a clean-up: helpers
extracted and shared, loops turned into iterators and back, macros for repeated impls, tables for matches."""
P = "src/decoding/encoding_mode_production.rs"
T = "src/decoding/encoding_mode_testing.rs"
M = "src/definitions/mod.rs"
L = "src/lib.rs"
D = "src/definitions/"
A = D + "abi/"
U = "src/utils.rs"
O = "src/opcode.rs"
VH = D + "versioned_hash/mod.rs"
G = "src/circuit_pricing_generator/main.rs"
I = "src/imm_mem_modifiers.rs"
OT = D + "opcode_trait.rs"
R = {}
# default methods of the opcode traits
R["trait9"] = [
 (OT, ("        let mut result = vec![];\n        for v in ALL_ISA", "    }\n}\n\npub const NUM_ISA"), '''        ALL_ISA_VERSIONS
            .into_iter()
            .take_while(|v| *v <= including)
            .collect()
'''),
 (OT, ("        let possible_dests = self.input_operands(version);", "    fn can_write_dst0"), '''        matches!(self.input_operands(version).first(), Some(Operand::Full(_)))
    }
'''),
 (OT, ("        let possible_dests = self.output_operands(version);", "pub trait OpcodeVariantProps"), '''        let Some(first) = self.output_operands(version).into_iter().next() else {
            return false;
        };
        match first {
            Operand::Full(_) => true,
            Operand::RegOnly => false,
            Operand::RegOrImm(_) => unreachable!(),
        }
    }
}

fn keep<T, F: Fn(&T) -> bool>(mut all: Vec<T>, wanted: F) -> Vec<T> {
    all.retain(wanted);
    all
}

'''),
 (OT, '''        Self::all_variants()
            .into_iter()
            .filter(|el| el.is_available_for_version(version))
            .collect()''', "        keep(Self::all_variants(), |el| el.is_available_for_version(version))"),
 (OT, '''        Self::all_variants()
            .into_iter()
            .filter(|el| el.is_added_in_version(version))
            .collect()''', "        keep(Self::all_variants(), |el: &Self| el.is_added_in_version(version))"),
 (OT, ("    let mut result = Vec::with_capacity(variants_range", None), '''    variants_range
        .map(|variant_idx| OpcodeVariantData {
            variant_idx,
            num_non_exclusive_flags,
            num_used_immediates: num_immedates,
        })
        .collect()
}
'''),
]
# hashing: one flattened slice, a checked length, early exits in another order
R["hash9"] = [
 (U, ("    // bytecode should have an odd", "    use crate::{ContractCodeSha256"), '''    use crate::decoding::AllowedPcOrImm;
    use sha2::{Digest, Sha256};

    let num_words = bytecode_words.len();
    // limit of the bytecode length can be different in different modes
    let too_long = num_words as u64 > E::PcOrImm::max().as_u64();
    // bytecode should have an odd number of 32-byte words for ease of use of SHA256 round function
    let even = num_words & 1 == 0;
    if too_long || even {
        return Err(());
    }

    let mut hasher = Sha256::new();
    hasher.update(bytecode_words.as_flattened());
    let output: [u8; 32] = hasher.finalize().as_slice().try_into().map_err(|_| ())?;

'''),
 (U, ("    let versioned_hash_bytes", None), '''    match versioned_hash.serialize() {
        Some(versioned_hash_bytes) => Ok(versioned_hash_bytes),
        None => Err(()),
    }
}
'''),
 (VH, ("        let mut result = [0u8; 32];\n        result[0] = Self::VERSION_BYTE;\n        result[1] = storage.extra_marker;", "    fn serialize_to_stored"), '''        Some(storage.to_bytes(storage.extra_marker))
    }
'''),
 (VH, ("        let mut result = [0u8; 32];\n        result[0] = Self::VERSION_BYTE;\n        result[1] = 0;", "    fn try_deserialize"), '''        Some(storage.to_bytes(Self::CODE_AT_REST_MARKER))
    }
'''),
 (VH, ("        if input[0] != Self::VERSION_BYTE {", None), '''        let [version, extra_marker, len_hi, len_lo, partial_hash @ ..] = input;

        (version == Self::VERSION_BYTE).then(|| ContractCodeSha256Storage {
            code_length_in_words: u16::from_be_bytes([len_hi, len_lo]),
            extra_marker,
            partial_hash,
        })
    }
}

impl ContractCodeSha256Storage {
    fn to_bytes(&self, marker: u8) -> [u8; 32] {
        let mut bytes = Vec::with_capacity(32);
        bytes.push(ContractCodeSha256::VERSION_BYTE);
        bytes.push(marker);
        bytes.extend(self.code_length_in_words.to_be_bytes());
        bytes.extend_from_slice(&self.partial_hash);

        bytes.try_into().expect("32 bytes")
    }
}
'''),
]
# ABI words: shared helpers for 32-bit halves and bytes
R["abi9"] = [
 (A + "mod.rs", None, '''
pub(crate) const fn halves(limb: u64) -> (u32, u32) {
    (limb as u32, (limb >> 32) as u32)
}

pub(crate) const fn join(low: u32, high: u32) -> u64 {
    ((high as u64) << 32) + low as u64
}
'''),
 (A + "fat_pointer.rs", ("        let raw_value = value.0;", "    pub fn validate(self"), '''        let U256([first, second, _, _]) = value;
        let (offset, memory_page) = super::halves(first);
        let (start, length) = super::halves(second);

        Self { offset, memory_page, start, length }
    }

'''),
 (A + "fat_pointer.rs", ("        let mut result = U256::zero();", None), '''        let Self { offset, memory_page, start, length } = self;

        U256([super::join(offset, memory_page), super::join(start, length), 0, 0])
    }
}
'''),
 (A + "far_call.rs", ("        let quasi_fat_pointer = FatPointer", "        let page_forwarding_mode"), '''        let quasi_fat_pointer = FatPointer::from_u256(raw_value);
        let [_, _, _, last] = raw_value.0;
        let (ergs_passed, extra) = super::halves(last);
        let forwarding_byte = extra as u8;
        let shard_id = (extra >> 8) as u8;
        let constructor_call_byte = (extra >> 16) as u8;
        let to_system_byte = (extra >> 24) as u8;

'''),
 (A + "far_call.rs", ("        match value {\n            0 =>", "    }\n}\n\n#[derive"), '''        if value == Self::ForwardFatPointer as u8 {
            Self::ForwardFatPointer
        } else if value == Self::UseAuxHeap as u8 {
            Self::UseAuxHeap
        } else {
            // default
            Self::UseHeap
        }
'''),
 (A + "ret.rs", "        let [forwarding_byte, _, _, _] = extra_data.to_le_bytes();", "        let forwarding_byte = (extra_data & u8::MAX as u32) as u8;"),
 (A + "precompile_call.rs", ("        let mut result = U256::zero();", None), '''        let pages = super::join(self.memory_page_to_read, self.memory_page_to_write);
        let input = super::join(self.input_memory_offset, self.input_memory_length);
        let output = super::join(self.output_memory_offset, self.output_memory_length);

        U256([input, output, pages, self.precompile_interpreted_data])
    }
}
'''),
 (A + "meta.rs", ("        let tmp = (self", "        result\n"), '''        let shards = [0, 0, 0, 0, self.this_shard_id, self.caller_shard_id, self.code_shard_id, 0];
        result.0[3] = u64::from_le_bytes(shards);

'''),
]
# decoding through a small struct of raw fields, encoding through a list of (value, shift)
R["dec9"] = [
 (P, ("        let raw_value = integer_representaiton;", "    fn encode_as_integer"), '''        let (variant, condition, variant_bits) =
            Self::variant_and_condition_from_u64_word(integer_representaiton);
        let RawFields { src, dst, imm_0, imm_1 } = RawFields::of(integer_representaiton);

        let new = DecodedOpcode {
            variant,
            condition,
            src0_reg_idx: src.0,
            src1_reg_idx: src.1,
            dst0_reg_idx: dst.0,
            dst1_reg_idx: dst.1,
            imm_0,
            imm_1,
        };

        (new, VariantMonotonicNumber::from_usize(variant_bits))
    }

'''),
 (P, ("        let mut encoding = 0u64;\n", "        let variant_bits = if"), ""),
 (P, ("        encoding |= variant_bits as u64;", "        // register indexes"), '''
        // condition
        let condition = opcode.condition.variant_index();
        assert!(condition.next_power_of_two().trailing_zeros() as usize <= CONDITIONAL_BITS_WIDTH);

'''),
 (P, ("        encoding |= (src_registers_byte", "        let dst_registers_byte"), ""),
 (P, ("        encoding |= (dst_registers_byte", "    fn encode_as_bytes"), '''
        [
            (variant_bits as u64, 0),
            (condition as u64, CONDITIONAL_BITS_SHIFT as u32),
            (src_registers_byte as u64, SRC_REGS_SHIFT as u32),
            (dst_registers_byte as u64, DST_REGS_SHIFT as u32),
            (opcode.imm_0 as u64, Self::IMM0_SHIFT),
            (opcode.imm_1 as u64, Self::IMM1_SHIFT),
        ]
        .into_iter()
        .fold(0u64, |word, (value, shift)| word | value << shift)
    }

'''),
 (P, None, '''
struct RawFields {
    src: (u8, u8),
    dst: (u8, u8),
    imm_0: u16,
    imm_1: u16,
}

impl RawFields {
    fn of(word: u64) -> Self {
        let [_, _, src, dst, i0, i1, j0, j1] = word.to_le_bytes();
        RawFields {
            src: split_as_u4(src),
            dst: split_as_u4(dst),
            imm_0: u16::from_le_bytes([i0, i1]),
            imm_1: u16::from_le_bytes([j0, j1]),
        }
    }
}
'''),
]
# tables of the library built by shared functions
R["lib9"] = [
 (L, ("        let mut result = HashMap::<OpcodeVariant, VariantMonotonicNumber>::new();", "    pub static ref OPCODE_TO_CANONICAL"), '''        OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP
            .iter()
            .map(|(variant, idx)| (*variant, VariantMonotonicNumber::from_usize(*idx)))
            .collect()
    };

'''),
 (L, ("        let mut result = HashMap::new();", "    pub static ref NOP_OPCODE_VARIANT"), '''        first_indexes(&OPCODES_TABLE[..])
    };

'''),
 (L, ("        let index = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP[&NOP", "    pub static ref PANIC_OPCODE_VARIANT"), '''        bitspread_of(&NOP_OPCODE_VARIANT)
    };

'''),
 (L, ("        let index = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP[&PANIC", "    pub static ref OPCODE_PROTOTYPES"), '''        bitspread_of(&PANIC_OPCODE_VARIANT)
    };

'''),
 (L, ("        let mut result = Vec::with_capacity(1 << OPCODES_TABLE_WIDTH);", "}\n\npub const INVALID_OPCODE_ERGS"), '''        OPCODES_TABLE.map(|opcode| opcode.ergs_price())
    };
'''),
 (L, ("    let mut total = OPCODE_TYPE_BITS", "pub const TOTAL_AUX_BITS"), '''    total_description_bits_for_version(version).next_multiple_of(WIDTH_MULTIPLE)
}

fn first_indexes(table: &[OpcodeVariant]) -> HashMap<OpcodeVariant, usize> {
    let mut result = HashMap::with_capacity(table.len());
    for (idx, el) in table.iter().enumerate() {
        match result.entry(*el) {
            std::collections::hash_map::Entry::Occupied(existing) => {
                assert_eq!(table[*existing.get()], INVALID_OPCODE_VARIANT)
            }
            std::collections::hash_map::Entry::Vacant(slot) => {
                slot.insert(idx);
            }
        }
    }

    result
}

fn bitspread_of(variant: &OpcodeVariant) -> u64 {
    OPCODES_PROPS_INTEGER_BITMASKS[OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP[variant]]
}

'''),
]
# flags expanded by one helper, names checked by another
R["mod9"] = [
 (M, ("    let mut checker = std::collections::HashSet::new();", "    let mut result = Vec::with_capacity(1 << table_bits);"), "    assert_unique_names(&all_opcodes);\n\n"),
 (M, ("    let mut num_options = 0;", "pub(crate) fn opcode_as_integer_bitmask"), '''    let all_prototypes = all_opcode_prototypes();

    all_opcodes
        .iter()
        .zip(all_prototypes)
        .flat_map(|(opcode, prototype)| {
            opcode
                .variants_data(for_version)
                .into_iter()
                .map(move |variant| (prototype, variant))
        })
        .map(|(prototype, variant)| {
            let concrete =
                prototype.materialize_subvariant_from_prototype(variant.variant_idx, &for_version);
            let inputs: usize = concrete
                .input_operands(for_version)
                .iter()
                .map(|el| match el {
                    Operand::Full(_) => ImmMemHandlerFlags::num_src_variants(),
                    Operand::RegOrImm(_) => RegOrImmFlags::num_src_variants(),
                    Operand::RegOnly => 1,
                })
                .product();
            let outputs: usize = concrete
                .output_operands(for_version)
                .iter()
                .map(|el| match el {
                    Operand::Full(_) => ImmMemHandlerFlags::num_dst_variants(),
                    Operand::RegOrImm(_) => RegOrImmFlags::num_dst_variants(),
                    Operand::RegOnly => 1,
                })
                .product();

            (inputs * outputs) << variant.num_non_exclusive_flags
        })
        .sum()
}

fn assert_unique_names(opcodes: &[Box<dyn OpcodeProps>]) {
    for (i, opcode) in opcodes.iter().enumerate() {
        if opcodes[..i].iter().any(|earlier| earlier.name() == opcode.name()) {
            panic!("Duplicate opcode with name: {} at index {}", opcode.name(), i);
        }
    }
}

fn push_with_flags(result: &mut Vec<OpcodeVariant>, base: OpcodeVariant, num_flags: usize) {
    match num_flags {
        0 => result.push(base),
        1 | 2 => {
            for bits in 0..1u8 << num_flags {
                let mut t = base;
                for (k, flag) in t.flags.iter_mut().take(num_flags).enumerate() {
                    // the last flag changes fastest
                    *flag = bits >> (num_flags - 1 - k) & 1 != 0;
                }
                result.push(t);
            }
        }
        _ => unreachable!(),
    }
}

'''),
 (M, '''                        match num_non_exclusive_flags {
                            0 => {
                                result.push(tmp);
                            }
                            1 => {
                                for b in [false, true] {
                                    let mut t = tmp;
                                    t.flags[0] = b;
                                    result.push(t);
                                }
                            }
                            2 => {
                                for b0 in [false, true] {
                                    for b1 in [false, true] {
                                        let mut t = tmp;
                                        t.flags[0] = b0;
                                        t.flags[1] = b1;
                                        result.push(t);
                                    }
                                }
                            }
                            _ => {
                                unreachable!()
                            }
                        }
''', "                        push_with_flags(&mut result, tmp, num_non_exclusive_flags);\n"),
]
# the bitmask through a cursor
R["mask9"] = [
 (M, ("    let mut encoding = 0u64;\n    let mut global_shift = 0;", "fn semantically_equal"), '''    let mut spread = Spread { word: 0, width: 0 };
    // first encoding logical opcode
    spread.one_of(full_opcode_variant.opcode.variant_idx(), *crate::NUM_LOGICAL_OPCODES);
    // then encode sub-variant
    spread.one_of(
        full_opcode_variant.opcode.materialize_subvariant_idx(),
        max_variant_bits_in_version,
    );
    // then encode flags
    spread.set(&full_opcode_variant.flags, max_num_flags_in_version);
    // then encode src0 addressing mode, then dst0
    spread.one_of(full_opcode_variant.src0_operand_type.variant_idx(), *crate::NUM_INPUT_VARIANTS);
    spread.one_of(full_opcode_variant.dst0_operand_type.variant_idx(), *crate::NUM_OUTPUT_VARIANTS);

    spread.skip_to(total_description_bits_rounded_for_version(version));
    // then any auxilary information
    spread.set(&[full_opcode_variant.requires_kernel_mode()], crate::KERNEL_MODE_FLAG_BITS);
    spread.set(
        &[full_opcode_variant.can_be_used_in_static_context()],
        crate::CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS,
    );
    // we also encode any INVALID opcode as explicit panic
    spread.set(&[full_opcode_variant.is_explicit_panic()], crate::EXPLICIT_PANIC_FLAG_BITS);

    assert!(spread.width <= 64);

    spread.word
}

struct Spread {
    word: u64,
    width: usize,
}

impl Spread {
    fn one_of(&mut self, index: usize, width: usize) {
        self.word |= 1u64 << (self.width + index);
        self.width += width;
    }

    fn set(&mut self, flags: &[bool], width: usize) {
        self.word |= flags
            .iter()
            .enumerate()
            .map(|(i, flag)| u64::from(*flag) << (self.width + i))
            .sum::<u64>();
        self.width += width;
    }

    fn skip_to(&mut self, width: usize) {
        assert!(self.width <= width);
        self.width = width;
    }
}

'''),
]
# variants as constant lists, prices by named predicates
R["uma9"] = [
 (D + "uma.rs", ("        vec![\n            UMAOpcode::HeapRead,", "    fn max_variant_idx_for_version"), '''        Self::VARIANTS.to_vec()
    }

'''),
 (D + "uma.rs", ("        match index {\n", "    fn ergs_price"), '''        Self::VARIANTS.iter().copied().find(|v| v.variant_index() == index)
    }

'''),
 (D + "uma.rs", ("        match self {\n            UMAOpcode::AuxHeapWrite | UMAOpcode::HeapWrite => {\n                // 5", "impl OpcodeProps for UMAOpcode"), '''        // unaligned access is implemented with aligned queries: two reads, and two writes after them
        let (cycles, queries) = if self.is_write() { (2, 5) } else { (1, 3) };

        cycles * VM_CYCLE_COST_IN_ERGS + queries * RAM_PERMUTATION_COST_IN_ERGS
    }
}

impl UMAOpcode {
    const VARIANTS: [Self; 5] = [
        UMAOpcode::HeapRead,
        UMAOpcode::HeapWrite,
        UMAOpcode::AuxHeapRead,
        UMAOpcode::AuxHeapWrite,
        UMAOpcode::FatPointerRead,
    ];

    const fn is_write(self) -> bool {
        matches!(self, UMAOpcode::HeapWrite | UMAOpcode::AuxHeapWrite)
    }
}

'''),
 (D + "uma.rs", ("        match version {\n            ISAVersion(0) => match self {", "    fn output_operands"), '''        let offset = match (version, self) {
            // we allow imm on the inputs for heap access for offsets
            (ISAVersion(0), _) | (ISAVersion(1), UMAOpcode::FatPointerRead) => Operand::RegOnly,
            (ISAVersion(1), _) => Operand::RegOrImm(RegOrImmFlags::UseRegOnly),
            _ => unimplemented!(),
        };

        std::iter::once(offset)
            .chain(self.is_write().then_some(Operand::RegOnly))
            .collect()
    }
'''),
 (D + "log.rs", ("        match index {\n", "    fn ergs_price"), '''        Self::all_variants().into_iter().nth(index)
    }

'''),
 (D + "log.rs", ("                vec![\n                    // Storage read", "            _ => unimplemented!(),"), '''                Self::all_variants()
                    .iter()
                    .map(|el| OpcodeVariantData {
                        variant_idx: el.variant_index(),
                        // can be "initial"
                        num_non_exclusive_flags: matches!(el, LogOpcode::ToL1Message | LogOpcode::Event) as usize,
                        num_used_immediates: 0,
                    })
                    .collect()
            }
'''),
 (D + "log.rs", ("        match self {\n            LogOpcode::StorageWrite | LogOpcode::Event | LogOpcode::ToL1Message => vec![],", "    fn requires_kernel_mode"), '''        vec![Operand::RegOnly; self.can_be_used_in_static_context() as usize]
    }
'''),
]
# semantic equality and the search for new opcodes
R["find9"] = [
 (M, ("    if a.opcode != b.opcode {", "fn find_new_opcodes"), '''    let normalised = |operand: Operand| match operand {
        Operand::RegOrImm(RegOrImmFlags::UseRegOnly) => Operand::RegOnly,
        other => other,
    };

    a.opcode == b.opcode
        && a.flags == b.flags
        // DST can not have difference between Reg only and RegImm
        && a.dst0_operand_type == b.dst0_operand_type
        && normalised(a.src0_operand_type) == normalised(b.src0_operand_type)
}

'''),
 (M, ("    // sanity check that we always expand", "pub fn compute_decoding_format"), '''    // sanity check that we always expand
    for el in old.iter() {
        assert!(
            new.contains(el) || new.iter().any(|new| semantically_equal(new, el)),
            "new set doesn't contain {:?}",
            el
        );
    }

    new.iter()
        .filter(|new| match old.iter_mut().find(|old| semantically_equal(new, old)) {
            Some(old) => {
                *old = **new;
                false
            }
            None => true,
        })
        .copied()
        .collect()
}

'''),
 (M, "use std::collections::HashSet;\n\n", ""),
]
# single-variant opcodes by a macro
R["macro9"] = [
 (D + "mul.rs", ("impl OpcodeProps for MulOpcode {", None), '''macro_rules! two_by_two {
    ($t:ty, $name:literal) => {
        impl OpcodeProps for $t {
            fn name(&self) -> &'static str {
                $name
            }
            fn variants_data(&self, version: ISAVersion) -> Vec<OpcodeVariantData> {
                match version.0 {
                    0 | 1 => full_variants_product(0..=Self::max_variant_idx_for_version(version), 1, 2),
                    _ => unimplemented!(),
                }
            }
            fn max_variant_idx(&self, version: ISAVersion) -> usize {
                Self::max_variant_idx_for_version(version)
            }
            fn input_operands(&self, _: ISAVersion) -> Vec<Operand> {
                [Operand::Full(ImmMemHandlerFlags::UseRegOnly), Operand::RegOnly].into()
            }
            fn output_operands(&self, _: ISAVersion) -> Vec<Operand> {
                [Operand::Full(ImmMemHandlerFlags::UseRegOnly), Operand::RegOnly].into()
            }
            fn requires_kernel_mode(&self) -> bool {
                false
            }
            fn can_be_used_in_static_context(&self) -> bool {
                true
            }
        }
    };
}

two_by_two!(MulOpcode, "Mul opcode");
'''),
]
# the generator: sections of rows
R["gen9"] = [
 (G, ("fn ergs_constant(name", "fn save_circiut"), '''fn ergs_constant(name: &str, value: u32) -> String {
    let mut line = String::from("pub const ");
    line.push_str(name);
    line += ": u32 = ";
    line += &value.to_string();
    line.push_str(";\\n");
    line
}

fn comment(comment: &str) -> String {
    ["\\n// ", comment, "\\n"].concat()
}

/// What an operation pays so that a single-instance circuit does not run out
fn min_price(limit: u32, bytes: u32) -> u32 {
    // The cost of pubdata alone may not let the users to run out of this circuit
    // before the end of the transaction. The users can then safely pay nothing for the DDoS security.
    match MAX_PUBDATA_PER_BLOCK <= limit * bytes {
        true => 0,
        false => ceil_div(MAX_TX_ERGS_LIMIT, limit),
    }
}

'''),
 (G, ("    let max_possible_initial_bytes", "    let circuit_prices = vec!["), '''    let min_price_for_initial_pubdata_write = min_price(
        LIMIT_FOR_INITIAL_WRITES_PUBDATA_HASHER,
        INITIAL_STORAGE_WRITE_PUBDATA_BYTES as u32,
    );
    let min_price_for_repeated_pubdata_write = min_price(
        LIMIT_FOR_REPEATED_WRITES_PUBDATA_HASHER,
        REPEATED_STORAGE_WRITE_PUBDATA_BYTES as u32,
    );

'''),
 (G, "    (a + b - 1) / b\n", "    a / b + (a % b != 0) as u32\n"),
 (G, ("    let file_content = vec![", "fn main"), '''    let mut file_content = String::new();
    for line in ["This file is auto-generated, do not edit it manually", "Any changes to this file require system upgrade!"] {
        file_content.push_str("// ");
        file_content.push_str(line);
        file_content.push('\\n');
    }
    file_content.push('\\n');
    file_content.extend([prices]);
    std::fs::write(filepath, file_content).expect("Unable to write data");
}

'''),
 (G, "use std::fs::File;\nuse std::io::Write;\n\n", ""),
]
# addressing flags as constant predicates over their numbers
R["imm9"] = [
 (I, ("        match self {\n            ImmMemHandlerFlags::UseRegOnly | ImmMemHandlerFlags::UseImm16Only => false,", "    pub fn num_variants() -> usize {\n        Self::NUM_VARIANTS\n    }\n    pub fn num_src"), '''        const IN_MEMORY: u8 = 0b101110;
        IN_MEMORY >> self.encoding_byte() & 1 == 1
    }
'''),
 (I, ("        match self {\n            ImmMemHandlerFlags::UseImm16Only | ImmMemHandlerFlags::UseCodePage => false,", "#[derive(Clone, Copy, Debug, PartialOrd, Ord, PartialEq, Eq, Hash)]\n#[repr(u8)]\npub enum RegOrImm"), '''        self.variant_index() < ImmMemHandlerFlags::UseImm16Only.variant_index()
    }
}

'''),
 (I, "        Self::NUM_VARIANTS - 2\n", "        Self::all_variants().iter().filter(|v| v.is_allowed_for_dst()).count()\n"),
 (I, "        Self::NUM_VARIANTS - 1\n", "        Self::all_variants().into_iter().map(|v| usize::from(v.is_allowed_for_dst())).sum()\n"),
]
