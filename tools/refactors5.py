"""Behaviour-preserving edits, fifth battery: several files at once, idioms the first four did not use."""
P = "src/decoding/encoding_mode_production.rs"
T = "src/decoding/encoding_mode_testing.rs"
M = "src/definitions/mod.rs"
L = "src/lib.rs"
D = "src/definitions/"
A = D + "abi/"
U = "src/utils.rs"
O = "src/opcode.rs"
I = "src/imm_mem_modifiers.rs"
S = "src/system_params.rs"
TR = D + "opcode_trait.rs"
VH = D + "versioned_hash/mod.rs"
R = {}
# ABI words through 256-bit arithmetic and byte arrays
R["abi4"] = [
 (A + "fat_pointer.rs", ("    pub const fn from_u256(value: U256) -> Self {", "    pub fn validate(self"), '''    pub fn from_u256(value: U256) -> Self {
        let field = |n: usize| (value >> (32 * n)).low_u32();

        Self {
            offset: field(0),
            memory_page: field(1),
            start: field(2),
            length: field(3),
        }
    }

'''),
 (A + "far_call.rs", ("    pub const fn from_u256(raw_value: U256) -> Self {", None), '''    pub fn from_u256(raw_value: U256) -> Self {
        let mut bytes = [0u8; 32];
        raw_value.to_little_endian(&mut bytes);
        let mut ergs = [0u8; 4];
        ergs.copy_from_slice(&bytes[24..28]);

        Self {
            memory_quasi_fat_pointer: FatPointer::from_u256(raw_value),
            ergs_passed: u32::from_le_bytes(ergs),
            shard_id: bytes[FAR_CALL_SHARD_ID_BYTE_IDX],
            forwarding_mode: FarCallForwardPageType::from_u8(bytes[FAR_CALL_FORWARDING_MODE_BYTE_IDX]),
            constructor_call: bytes[FAR_CALL_CONSTRUCTOR_CALL_BYTE_IDX] > 0,
            to_system: !matches!(bytes[FAR_CALL_SYSTEM_CALL_BYTE_IDX], 0),
        }
    }
}
'''),
 (A + "ret.rs", ("    pub const fn from_u256(", None), '''    pub fn from_u256(raw_value: U256) -> Self {
        Self {
            memory_quasi_fat_pointer: FatPointer::from_u256(raw_value),
            page_forwarding_mode: RetForwardPageType::from_u8(raw_value.byte(RET_FORWARDING_MODE_BYTE_IDX)),
        }
    }
}
'''),
 (A + "meta.rs", ("    pub const fn to_u256(self) -> U256 {", None), '''    pub fn to_u256(self) -> U256 {
        let mut bytes = [0u8; 32];
        bytes[0..4].copy_from_slice(&self.ergs_per_pubdata_byte.to_le_bytes());
        bytes[8..12].copy_from_slice(&self.heap_size.to_le_bytes());
        bytes[12..16].copy_from_slice(&self.aux_heap_size.to_le_bytes());
        for (place, id) in bytes[28..].iter_mut().zip([self.this_shard_id, self.caller_shard_id, self.code_shard_id]) {
            *place = id;
        }

        U256::from_little_endian(&bytes)
    }
}
'''),
 (A + "precompile_call.rs", ("    pub const fn to_u256(self) -> U256 {", None), '''    pub fn to_u256(self) -> U256 {
        let words = [
            self.input_memory_offset,
            self.input_memory_length,
            self.output_memory_offset,
            self.output_memory_length,
            self.memory_page_to_read,
            self.memory_page_to_write,
        ];
        let mut result = U256::from(self.precompile_interpreted_data);
        for w in words.iter().rev() {
            result = (result << 32) | U256::from(*w);
        }

        result
    }
}
'''),
]
R["abi5"] = [
 (A + "fat_pointer.rs", ("        let mut exceptions = FatPointerValidationException::empty();", "    /// IMPORTANT"), '''        let late = is_fresh as u64 & (self.offset > 0) as u64;
        let end = u64::from(self.start) + u64::from(self.length);
        FatPointerValidationException::from_bits_truncate(late | (end >> 32) << 1)
    }

'''),
 (A + "fat_pointer.rs", ("        let mut result = U256::zero();", None), '''        let low = (self.memory_page as u128) << 32 | self.offset as u128;
        let high = (self.length as u128) << 32 | self.start as u128;
        let all = high << 64 | low;
        U256([all as u64, (all >> 64) as u64, 0, 0])
    }
}
'''),
 (A + "precompile_call.rs", ("        let raw = raw_value.0;\n        let input_memory_offset = raw[0] as u32;\n        let input_memory_length = (raw[0] >> 32) as u32;\n\n", "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]\npub struct PrecompileCallInnerABI"), '''        let PrecompileCallInnerABI {
            input_memory_offset,
            input_memory_length,
            output_memory_offset,
            output_memory_length,
            memory_page_to_read: _,
            memory_page_to_write: _,
            precompile_interpreted_data: per_precompile_interpreted,
        } = PrecompileCallInnerABI::from_u256(raw_value);

        Self {
            input_memory_offset,
            input_memory_length,
            output_memory_offset,
            output_memory_length,
            per_precompile_interpreted,
        }
    }
}

'''),
 (A + "near_call.rs", "        let raw = raw_value.0;\n        let ergs_passed = raw[0] as u32;\n\n        Self { ergs_passed }", "        let U256([lowest, ..]) = raw_value;\n        Self { ergs_passed: (lowest & 0xffff_ffff) as u32 }"),
]
# decoder and encoder
R["dec4"] = [
 (P, ("        // decode purely as integer", "        let new = DecodedOpcode {"), '''        let bytes = raw_value.to_le_bytes();
        let [_, _, src_byte, dst_byte, a, b, c, d] = bytes;
        let (imm_0, imm_1) = (u16::from_le_bytes([a, b]), u16::from_le_bytes([c, d]));
        let [(src0_reg_idx, src1_reg_idx), (dst0_reg_idx, dst1_reg_idx)] = [src_byte, dst_byte].map(split_as_u4);

'''),
 (P, ("        let mut encoding = 0u64;", "    fn encode_as_bytes"), '''        let variant_bits = *crate::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP
            .get(&opcode.variant)
            .unwrap_or_else(|| panic!("Unknown variant {}", opcode.variant));
        assert!(variant_bits >> OPCODES_TABLE_WIDTH == 0);
        let condition = opcode.condition.variant_index();
        assert!(condition >> CONDITIONAL_BITS_WIDTH == 0);

        let fields: [(u64, u32); 6] = [
            (variant_bits as u64, 0),
            (condition as u64, CONDITIONAL_BITS_SHIFT as u32),
            (merge_u4(opcode.src0_reg_idx, opcode.src1_reg_idx).into(), SRC_REGS_SHIFT),
            (merge_u4(opcode.dst0_reg_idx, opcode.dst1_reg_idx).into(), DST_REGS_SHIFT),
            (opcode.imm_0.into(), Self::IMM0_SHIFT),
            (opcode.imm_1.into(), Self::IMM1_SHIFT),
        ];
        fields.into_iter().fold(0u64, |word, (value, shift)| word + (value << shift))
    }

'''),
 (P, ("        match index {\n            0 => value.0[3],", "    fn is_canonical"), '''        let words: Vec<u64> = value.0.iter().rev().copied().collect();
        words[index as usize]
    }

'''),
 (T, ("        match index {\n            0 => value.0[2]", "    fn is_canonical"), '''        let mut bytes = [0u8; 32];
        value.to_big_endian(&mut bytes);
        let half = bytes.chunks_exact(16).nth(index as usize).expect("two instructions per word");
        u128::from_be_bytes(half.try_into().unwrap())
    }

'''),
 (P, "        (pc >> 2, pc & 0b11)", "        (pc.div_euclid(4), pc.rem_euclid(4))"),
 (T, "        (pc >> 1, pc & 0b1)", "        let word = pc / 2;\n        (word, pc - 2 * word)"),
]
# masks and defaults through shared helpers
R["mask3"] = [
 (O, ("        // we only mask first 8 bytes of the opcode", "    pub fn serialize_as_integer"), '''        self.mask_into(*crate::PANIC_OPCODE_VARIANT);
    }

    fn mask_into(&mut self, variant: OpcodeVariant) {
        let old = std::mem::replace(self, Self::default());
        *self = Self { variant, imm_0: old.imm_0, imm_1: old.imm_1, ..*self };
    }

    pub fn mask_into_nop(&mut self) {
        self.mask_into(*crate::NOP_OPCODE_VARIANT);
    }

'''),
 (P, ("        let variant = *NOP_OPCODE_VARIANT;", "    fn exception_revert_encoding"), "        DecodedOpcode::<8, Self>::default().serialize_as_integer()\n    }\n\n"),
 (T, ("        let variant = *NOP_OPCODE_VARIANT;", "    fn exception_revert_encoding"), "        let mut any = DecodedOpcode::<16, Self>::default();\n        any.mask_into_nop();\n        any.serialize_as_integer()\n    }\n\n"),
]
# table generation by an iterator pipeline
R["tab4"] = [
 (M, ("    let mut result = Vec::with_capacity(1 << 11);\n\n    // we walk over the versions to get only opcodes added in the correspoding one\n\n    // walk over prototypes", "// computes including backward compatibility\npub fn max_num_variants"), '''    fn sources(declared: &[Operand]) -> Vec<Operand> {
        match declared.split_first() {
            None | Some((Operand::RegOnly, _)) => vec![Operand::RegOnly],
            Some((Operand::RegOrImm(_), _)) => RegOrImmFlags::all_variants().iter().map(|m| Operand::RegOrImm(*m)).collect(),
            Some((Operand::Full(_), _)) => ImmMemHandlerFlags::all_variants().map(Operand::Full).to_vec(),
        }
    }
    fn destinations(declared: &[Operand]) -> Vec<Operand> {
        match declared {
            [Operand::Full(_), ..] => ImmMemHandlerFlags::all_variants()
                .into_iter()
                .filter(ImmMemHandlerFlags::is_allowed_for_dst)
                .map(Operand::Full)
                .collect(),
            _ => vec![Operand::RegOnly],
        }
    }

    let result: Vec<OpcodeVariant> = all_opcodes
        .iter()
        .zip(all_prototypes.iter())
        .flat_map(|(opcode, prototype)| {
            opcode.variants_data(version).into_iter().flat_map(move |data| {
                let concrete = prototype.materialize_subvariant_from_prototype(data.variant_idx, &version);
                let dst = destinations(&concrete.output_operands(version));
                let mut out = vec![];
                for src0_operand_type in sources(&concrete.input_operands(version)) {
                    for &dst0_operand_type in &dst {
                        for combination in 0u32..1 << data.num_non_exclusive_flags {
                            let flags = match data.num_non_exclusive_flags {
                                0 => [false, false],
                                1 => [combination == 1, false],
                                2 => [combination & 2 != 0, combination & 1 != 0],
                                _ => unreachable!(),
                            };
                            out.push(OpcodeVariant { opcode: concrete, src0_operand_type, dst0_operand_type, flags });
                        }
                    }
                }
                out
            })
        })
        .collect();

    assert_eq!(result[0], INVALID_OPCODE_VARIANT);

    result
}

'''),
 (M, ("    let mut difference = vec![];", "pub fn compute_decoding_format"), '''    let mut difference = Vec::new();
    'next: for candidate in new {
        for known in old.iter_mut() {
            if semantically_equal(candidate, known) {
                std::mem::swap(known, &mut candidate.clone());
                continue 'next;
            }
        }
        difference.push(candidate.to_owned());
    }

    difference
}

'''),
]
R["tab5"] = [
 (M, ("    let mut difference = vec![];", "pub fn compute_decoding_format"), '''    new.iter()
        .filter(|candidate| match old.iter().position(|known| semantically_equal(candidate, known)) {
            Some(at) => {
                old[at] = **candidate;
                false
            }
            None => true,
        })
        .cloned()
        .collect()
}

'''),
 (M, ("    if a.opcode != b.opcode {", "fn find_new_opcodes"), '''    let normal = |o: Operand| match o {
        Operand::RegOrImm(RegOrImmFlags::UseRegOnly) => Operand::RegOnly,
        other => other,
    };
    (a.opcode, a.flags, a.dst0_operand_type, normal(a.src0_operand_type))
        == (b.opcode, b.flags, b.dst0_operand_type, normal(b.src0_operand_type))
}

'''),
 (M, ("    let mut num_options = 0;", "pub(crate) fn opcode_as_integer_bitmask"), '''    let all_prototypes = all_opcode_prototypes();
    let modes = |operands: Vec<Operand>, full: usize, restricted: usize| -> usize {
        operands
            .into_iter()
            .map(|el| match el {
                Operand::Full(_) => full,
                Operand::RegOrImm(_) => restricted,
                Operand::RegOnly => 1,
            })
            .product()
    };

    (0..all_opcodes.len())
        .map(|idx| {
            all_opcodes[idx]
                .variants_data(for_version)
                .iter()
                .map(|variant| {
                    let concrete = all_prototypes[idx].materialize_subvariant_from_prototype(variant.variant_idx, &for_version);
                    modes(concrete.input_operands(for_version), ImmMemHandlerFlags::num_src_variants(), RegOrImmFlags::num_src_variants())
                        * modes(concrete.output_operands(for_version), ImmMemHandlerFlags::num_dst_variants(), RegOrImmFlags::num_dst_variants())
                        * 2usize.pow(variant.num_non_exclusive_flags as u32)
                })
                .sum::<usize>()
        })
        .sum()
}

'''),
 (M, ("    let mut encoding = 0u64;\n    let mut global_shift = 0;", "fn semantically_equal"), '''    let groups: [(usize, usize); 5] = [
        (*crate::NUM_LOGICAL_OPCODES, 1 << full_opcode_variant.opcode.variant_idx()),
        (max_variant_bits_in_version, 1 << full_opcode_variant.opcode.materialize_subvariant_idx()),
        (max_num_flags_in_version, full_opcode_variant.flags.iter().rev().fold(0, |acc, f| acc * 2 + usize::from(*f))),
        (*crate::NUM_INPUT_VARIANTS, 1 << full_opcode_variant.src0_operand_type.variant_idx()),
        (*crate::NUM_OUTPUT_VARIANTS, 1 << full_opcode_variant.dst0_operand_type.variant_idx()),
    ];
    let (width, encoding) = groups.iter().fold((0usize, 0u64), |(shift, acc), &(bits, value)| (shift + bits, acc | (value as u64) << shift));
    let aligned = total_description_bits_rounded_for_version(version);
    assert!(width <= aligned);
    assert!(aligned + crate::TOTAL_AUX_BITS <= 64);
    let aux = [
        full_opcode_variant.requires_kernel_mode(),
        full_opcode_variant.can_be_used_in_static_context(),
        full_opcode_variant.is_explicit_panic(),
    ];

    encoding | aux.iter().enumerate().filter(|(_, set)| **set).map(|(i, _)| 1u64 << (aligned + i)).sum::<u64>()
}

'''),
]
# lib.rs: tables by other collections
R["lib4"] = [
 (L, ("        let mut result = HashMap::<OpcodeVariant, VariantMonotonicNumber>::new();", "    pub static ref OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP"), '''        let mut result: HashMap<OpcodeVariant, VariantMonotonicNumber> = HashMap::with_capacity(OPCODES_TABLE.len());
        for idx in (0..OPCODES_TABLE.len()).rev() {
            if let Some(previous) = result.insert(OPCODES_TABLE[idx], VariantMonotonicNumber(idx)) {
                assert_eq!(OPCODES_TABLE[previous.0], INVALID_OPCODE_VARIANT);
            }
        }

        result
    };

'''),
 (L, ("        let mut result = HashMap::new();", "    pub static ref NOP_OPCODE_VARIANT"), '''        OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP.iter().map(|(variant, number)| (*variant, number.into_usize())).collect()
    };

'''),
 (L, ("        let mut result = Vec::with_capacity(1 << OPCODES_TABLE_WIDTH);", "    };\n}"), '''        let mut result = [0u32; 1 << OPCODES_TABLE_WIDTH];
        result.iter_mut().zip(OPCODES_TABLE.iter()).for_each(|(price, opcode)| *price = opcode.ergs_price());

        result
'''),
 (L, ("    let mut total = OPCODE_TYPE_BITS", "pub const TOTAL_AUX_BITS"), '''    let words = (total_description_bits_for_version(version) + WIDTH_MULTIPLE - 1) / WIDTH_MULTIPLE;

    words * WIDTH_MULTIPLE
}

'''),
 (L, ("        let index = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP[&NOP_OPCODE_VARIANT];", "    pub static ref PANIC_OPCODE_VARIANT"), '''        OPCODES_TABLE
            .iter()
            .zip(OPCODES_PROPS_INTEGER_BITMASKS.iter())
            .find_map(|(variant, bitspread)| (variant == &*NOP_OPCODE_VARIANT).then_some(*bitspread))
            .unwrap()
    };

'''),
]
# hashing
R["hash7"] = [
 (U, ("    let mut hasher = Sha256::new();", "    use crate::{ContractCodeSha256"), '''    let hasher = bytecode_words.iter().fold(Sha256::new(), |hasher, word| hasher.chain_update(word));
    let output: [u8; 32] = hasher.finalize().into();

'''),
 (VH, ("        let mut truncated_digest = [0u8; 28];", "        Self {\n            data: ContractCodeSha256Storage"), '''        let truncated_digest: [u8; 28] = std::array::from_fn(|i| digest[i + 4]);

'''),
 (VH, ("        let mut result = [0u8; 32];\n        result[0] = Self::VERSION_BYTE;\n        result[1] = storage.extra_marker;", "    fn serialize_to_stored"), '''        let [high, low] = storage.code_length_in_words.to_be_bytes();
        let mut bytes = vec![Self::VERSION_BYTE, storage.extra_marker, high, low];
        bytes.extend_from_slice(&storage.partial_hash);

        bytes.try_into().ok()
    }
'''),
 (VH, ("        let mut result = [0u8; 32];\n        result[0] = Self::VERSION_BYTE;\n        result[1] = 0;", "    fn try_deserialize"), '''        Self::serialize(Self::StorageLayout { extra_marker: Self::CODE_AT_REST_MARKER, ..storage })
    }
'''),
 (VH, ("        if input[0] != Self::VERSION_BYTE {", None), '''        let (&version, rest) = input.split_first()?;
        (version == Self::VERSION_BYTE).then(|| {
            let mut partial_hash = [0u8; 28];
            for (to, from) in partial_hash.iter_mut().rev().zip(rest.iter().rev()) {
                *to = *from;
            }
            Self::StorageLayout {
                code_length_in_words: rest[1] as u16 * 256 + rest[2] as u16,
                extra_marker: rest[0],
                partial_hash,
            }
        })
    }
}
'''),
]
R["hash8"] = [
 (U, ("    if bytecode_words.len() % 2 != 1 {", "    use sha2::{Digest, Sha256};"), '''    use crate::decoding::AllowedPcOrImm;
    let num_words = bytecode_words.len();
    let limit = E::PcOrImm::max().as_u64();
    match u64::try_from(num_words) {
        Ok(n) if n & 1 == 1 && n <= limit => {}
        _ => return Err(()),
    }

'''),
 (U, ("    let mut hasher = Sha256::new();", "    use crate::{ContractCodeSha256"), '''    let flat: Vec<u8> = bytecode_words.iter().flat_map(|w| w.iter().copied()).collect();
    let mut output = [0u8; 32];
    output.clone_from_slice(&Sha256::digest(&flat)[..]);

'''),
]
# conditions, addressing modes, nibbles
R["small1"] = [
 (D + "condition.rs", ("        assert!(idx < Self::NUM_VARIANTS);\n\n        match idx {", "    pub const fn variant_index"), '''        *ALL_CONDITIONS.get(idx).expect("unknown variant")
    }

'''),
 (D + "condition.rs", ("        match self {\n            Condition::Always => 0,", "pub const ALL_CONDITIONS"), '''        *self as u8 as usize
    }
}

'''),
 (I, ("        match self {\n            ImmMemHandlerFlags::UseRegOnly | ImmMemHandlerFlags::UseImm16Only => false,", "    pub fn num_variants"), '''        (0b10_1110u8 >> self.encoding_byte()) & 1 == 1
    }
'''),
 (I, "        Self::NUM_VARIANTS - 2", "        Self::all_variants().iter().filter(|m| m.is_allowed_for_dst()).count()"),
 (U, "    (value & ((1u8 << 4) - 1), value >> 4)", "    (value % 16, value / 16)"),
 (U, "    low | (high << 4)", "    high.wrapping_mul(16).wrapping_add(low)"),
 (TR, ("    let mut result = Vec::with_capacity(variants_range.clone().count());", None), '''    variants_range
        .map(|variant_idx| OpcodeVariantData { variant_idx, num_non_exclusive_flags, num_used_immediates: num_immedates })
        .collect()
}
'''),
]
# dispatch through the dynamic operation
R["all1"] = [
 (D + "all.rs", ("    pub fn requires_kernel_mode(&self) -> bool {", None), '''    fn operation(&self) -> &dyn OpcodeProps {
        match self {
            Opcode::Invalid(x) => x,
            Opcode::Nop(x) => x,
            Opcode::Add(x) => x,
            Opcode::Sub(x) => x,
            Opcode::Mul(x) => x,
            Opcode::Div(x) => x,
            Opcode::Jump(x) => x,
            Opcode::Context(x) => x,
            Opcode::Shift(x) => x,
            Opcode::Binop(x) => x,
            Opcode::Ptr(x) => x,
            Opcode::NearCall(x) => x,
            Opcode::Log(x) => x,
            Opcode::FarCall(x) => x,
            Opcode::Ret(x) => x,
            Opcode::UMA(x) => x,
        }
    }

    pub fn requires_kernel_mode(&self) -> bool {
        self.operation().requires_kernel_mode()
    }

    pub fn can_be_used_in_static_context(&self) -> bool {
        self.operation().can_be_used_in_static_context()
    }

    pub fn can_have_src0_from_mem(&self, version: ISAVersion) -> bool {
        self.operation().can_have_src0_from_mem(version)
    }

    pub fn can_write_dst0_into_memory(&self, version: ISAVersion) -> bool {
        self.operation().can_write_dst0_into_memory(version)
    }

    pub fn input_operands(&self, version: ISAVersion) -> Vec<Operand> {
        self.operation().input_operands(version)
    }

    pub fn output_operands(&self, version: ISAVersion) -> Vec<Operand> {
        self.operation().output_operands(version)
    }
}
'''),
 (TR, ("        let possible_dests = self.input_operands(version);", "    fn can_write_dst0_into_memory"), '''        self.input_operands(version).first().map_or(false, |o| matches!(o, Operand::Full(_)))
    }
'''),
 (TR, "        let possible_dests = self.output_operands(version);", "        let possible_dests: Box<[Operand]> = self.output_operands(version).into();"),
]
