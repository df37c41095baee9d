P = "src/decoding/encoding_mode_production.rs"
T = "src/decoding/encoding_mode_testing.rs"
M = "src/definitions/mod.rs"
L = "src/lib.rs"
D = "src/definitions/"
R = {}
R["dec1"] = [
 (P, ("        let variant_bits = raw_value & Self::VARIANT_MASK;", "    }\n}\n\nimpl VmEncodingMode"), '''
        fn extract(raw: u64, shift: usize, width: usize) -> usize {
            ((raw >> shift) & ((1u64 << width) - 1)) as usize
        }
        let number = extract(raw_value, 0, OPCODES_TABLE_WIDTH);
        let condition = Condition::materialize_variant(extract(raw_value, CONDITIONAL_BITS_SHIFT, CONDITIONAL_BITS_WIDTH));
        let opcode_variant = OPCODES_TABLE.get(number).copied().expect("table covers all numbers");
        (opcode_variant, condition, number)
'''),
 (P, ("        let src_byte = (raw", "        let new = Dec"), '''
        let bytes = raw_value.to_le_bytes();
        let [_, _, src_byte, dst_byte, a, b, c, d] = bytes;
        let (imm_0, imm_1) = (u16::from_le_bytes([a, b]), u16::from_le_bytes([c, d]));
        let [(src0_reg_idx, src1_reg_idx), (dst0_reg_idx, dst1_reg_idx)] = [src_byte, dst_byte].map(split_as_u4);
'''),
 (P, ("        let mut encoding = 0u64;", "    fn encode_as_bytes"), '''
        let variant_bits = *crate::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP
            .get(&opcode.variant)
            .unwrap_or_else(|| panic!("Unknown variant {}", opcode.variant));
        let fields = [
            (variant_bits as u64, 0),
            (opcode.condition.variant_index() as u64, CONDITIONAL_BITS_SHIFT as u32),
            (merge_u4(opcode.src0_reg_idx, opcode.src1_reg_idx) as u64, SRC_REGS_SHIFT),
            (merge_u4(opcode.dst0_reg_idx, opcode.dst1_reg_idx) as u64, DST_REGS_SHIFT),
            (opcode.imm_0 as u64, Self::IMM0_SHIFT),
            (opcode.imm_1 as u64, Self::IMM1_SHIFT),
        ];
        fields.iter().fold(0u64, |acc, (value, shift)| acc | (value << shift))
    }

'''),
 (P, ("        match index {\n", "    fn is_canonical"), '''
        let limbs = value.0;
        limbs[3 - index as usize]
    }

'''),
 (P, ("        let unused_bits =", "    }\n}\n"), '''        (value >> OPCODES_TABLE_WIDTH) & Self::UNUSED_GAP_RAW_MASK == 0
'''),
 (P, ("        // ret.panic r0\n", "    fn parse_pre"), '''        Self::trivial_encoding(*PANIC_OPCODE_VARIANT)
    }

'''),
 (P, "impl EncodingModeProduction {", '''impl EncodingModeProduction {
    fn trivial_encoding(variant: OpcodeVariant) -> u64 {
        DecodedOpcode::<8, Self> { variant, ..Default::default() }.serialize_as_integer()
    }
'''),
]
R["dec2"] = [
 (T, ("        let variant_bits = raw_value & Self::VARIANT_MASK;", "    }\n}\n\nimpl VmEncodingMode"), '''
        let variant_bits = (raw_value & Self::VARIANT_MASK) as usize;
        let condition_bits = (raw_value >> CONDITIONAL_BITS_SHIFT) as usize % (1 << CONDITIONAL_BITS_WIDTH);
        (OPCODES_TABLE[variant_bits], crate::ALL_CONDITIONS[condition_bits], variant_bits)
'''),
 (T, ("        let src_byte = (raw", "        let (src0_reg"), '''
        let be = raw_value.to_be_bytes();
        let imm_1 = u32::from_be_bytes(be[4..8].try_into().unwrap());
        let imm_0 = u32::from_be_bytes(<[u8; 4]>::try_from(&be[8..12]).unwrap());
        let dst_byte = be[12];
        let src_byte = be[13];
'''),
 (T, ("        let mut encoding = 0u128;", "    fn encode_as_bytes"), '''
        let Some(&variant_bits) = crate::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&opcode.variant) else {
            panic!("Unknown variant {}", opcode.variant);
        };
        assert!(variant_bits < 1 << OPCODES_TABLE_WIDTH);
        let mut bytes = [0u8; 16];
        let low = (variant_bits as u16) | ((opcode.condition.variant_index() as u16) << CONDITIONAL_BITS_SHIFT);
        bytes[0..2].copy_from_slice(&low.to_le_bytes());
        bytes[2] = merge_u4(opcode.src0_reg_idx, opcode.src1_reg_idx);
        bytes[3] = merge_u4(opcode.dst0_reg_idx, opcode.dst1_reg_idx);
        bytes[4..8].copy_from_slice(&opcode.imm_0.to_le_bytes());
        bytes[8..12].copy_from_slice(&opcode.imm_1.to_le_bytes());
        u128::from_le_bytes(bytes)
    }

'''),
 (T, ("        match index {\n", "    fn is_canonical"), '''
        assert!(index < 2);
        let base = 2 - 2 * index as usize;
        (u128::from(value.0[base + 1]) << 64) | u128::from(value.0[base])
    }

'''),
 (T, "(pc >> 1, pc & 0b1)", "(pc / 2, pc % 2)"),
 (T, "unused_bits == 0", "unused_bits.count_ones() == 0"),
 ("src/utils.rs", "(value & ((1u8 << 4) - 1), value >> 4)", "(value % 16, value / 16)"),
 ("src/utils.rs", "    low | (high << 4)", "    low + high * 16"),
 ("src/decoding/mod.rs", "        self.to_be_bytes()\n    }\n}\n\nimpl AllowedIntegerRepresentation<8>", "        let mut b = self.to_le_bytes();\n        b.reverse();\n        b\n    }\n}\n\nimpl AllowedIntegerRepresentation<8>"),
 ("src/decoding/mod.rs", "        value as Self\n", "        (value & (Self::MAX as u64)).try_into().unwrap()\n"),
 ("src/decoding/mod.rs", "        self.wrapping_sub(other)", "        self.wrapping_add(other.wrapping_neg())"),
 ("src/decoding/mod.rs", "        self.wrapping_add(other)\n", "        self.overflowing_add(other).0\n"),
]
# table construction
HELP = '''
fn flag_combinations(num_flags: usize) -> Vec<[bool; NUM_NON_EXCLUSIVE_FLAGS]> {
    match num_flags {
        0 => vec![[false, false]],
        1 => vec![[false, false], [true, false]],
        2 => {
            let mut r = Vec::with_capacity(4);
            for b0 in [false, true] {
                r.extend([false, true].iter().map(|b1| [b0, *b1]));
            }
            r
        }
        _ => unreachable!(),
    }
}

fn assert_unique_names(all_opcodes: &[Box<dyn OpcodeProps>]) {
    let mut checker = std::collections::BTreeSet::new();
    for (i, opcode) in all_opcodes.iter().enumerate() {
        assert!(checker.insert(opcode.name()), "Duplicate opcode with name: {} at index {}", opcode.name(), i);
    }
}
'''
R["tab1"] = [
 (M, ("    let mut checker = std::collections::HashSet::new();", "    let mut result = Vec::with_capacity(1 << table_bits);"), "    assert_unique_names(&all_opcodes);\n"),
 (M, None, HELP),
]
R["tab2"] = [
 (M, ("fn all_variants_in_version(version", "// computes including"), '''
fn all_variants_in_version(version: ISAVersion) -> Vec<OpcodeVariant> {
    let all_opcodes = all_opcodes();
    let all_prototypes = all_opcode_prototypes();
    assert_unique_names(&all_opcodes);
    let mut result = vec![];
    for (opcode, prototype) in all_opcodes.iter().zip(all_prototypes.iter()) {
        for variant_data in opcode.variants_data(version) {
            let concrete = prototype.materialize_subvariant_from_prototype(variant_data.variant_idx, &version);
            let inputs = concrete.input_operands(version);
            let outputs = concrete.output_operands(version);
            let srcs: Vec<Operand> = match inputs.first() {
                Some(Operand::Full(_)) => ImmMemHandlerFlags::all_variants().iter().copied().map(Operand::Full).collect(),
                Some(Operand::RegOrImm(_)) => RegOrImmFlags::all_variants().into_iter().map(Operand::RegOrImm).collect(),
                Some(Operand::RegOnly) | None => vec![Operand::RegOnly],
            };
            let dsts: Vec<Operand> = match outputs.first() {
                Some(Operand::Full(_)) => ImmMemHandlerFlags::all_variants()
                    .into_iter()
                    .filter(|v| v.is_allowed_for_dst())
                    .map(|v| Operand::Full(v))
                    .collect(),
                _ => vec![Operand::RegOnly],
            };
            for &src0_operand_type in &srcs {
                for &dst0_operand_type in &dsts {
                    for flags in flag_combinations(variant_data.num_non_exclusive_flags) {
                        result.push(OpcodeVariant { opcode: concrete, src0_operand_type, dst0_operand_type, flags });
                    }
                }
            }
        }
    }
    assert_eq!(result[0], INVALID_OPCODE_VARIANT);

    result
}

'''),
 (M, None, HELP),
 (M, ("fn find_new_opcodes(", "pub fn compute_decoding_format"), '''
fn find_new_opcodes(old: &mut [OpcodeVariant], new: &[OpcodeVariant]) -> Vec<OpcodeVariant> {
    for el in old.iter() {
        assert!(new.contains(el) || new.iter().any(|n| semantically_equal(n, el)), "new set doesn't contain {:?}", el);
    }
    let mut difference = vec![];
    for n in new {
        match old.iter_mut().find(|o| semantically_equal(n, o)) {
            Some(slot) => *slot = *n,
            None => difference.push(*n),
        }
    }
    difference
}

'''),
 (M, ("    if a.opcode != b.opcode {\n        return false;", "fn find_new"), '''
    fn canonical(o: Operand) -> Operand {
        if let Operand::RegOrImm(RegOrImmFlags::UseRegOnly) = o { Operand::RegOnly } else { o }
    }
    (a.opcode, a.flags, a.dst0_operand_type, canonical(a.src0_operand_type))
        == (b.opcode, b.flags, b.dst0_operand_type, canonical(b.src0_operand_type))
}

'''),
]
R["tab3"] = [
 (M, ("    let all_opcodes = all_opcodes();\n    let max_num_variants = ", "// computes including backward compatibility\npub fn max_num_flags"), '''
    let mut best = 0;
    for op in all_opcodes() {
        best = best.max(op.max_variant_idx(version) + 1);
    }
    best
}

'''),
 (M, ("    let all_opcodes = all_opcodes();\n    let num_flags = ", "pub fn synthesize_bit_dec"), '''
    ALL_ISA_VERSIONS
        .iter()
        .copied()
        .take_while(|v| *v <= version)
        .flat_map(|v| all_opcodes().into_iter().flat_map(move |op| op.variants_data(v)))
        .map(|d| d.num_non_exclusive_flags)
        .max()
        .unwrap_or_default()
}

'''),
 (M, ("    let mut result = Vec::with_capacity(opcodes.len());", "// we only need"), '''
    opcodes.iter().map(|opcode| opcode_as_integer_bitmask(opcode, assert_version)).collect()
}

'''),
 (M, ("    let mut num_options = 0;\n", "pub(crate) fn opcode_as_int"), '''
    let all_prototypes = all_opcode_prototypes();
    all_opcodes
        .iter()
        .enumerate()
        .map(|(idx, opcode)| {
            opcode
                .variants_data(for_version)
                .into_iter()
                .map(|variant| {
                    let concrete = all_prototypes[idx].materialize_subvariant_from_prototype(variant.variant_idx, &for_version);
                    let ins: usize = concrete.input_operands(for_version).into_iter().map(|el| match el {
                        Operand::Full(_) => ImmMemHandlerFlags::num_src_variants(),
                        Operand::RegOrImm(_) => RegOrImmFlags::num_src_variants(),
                        Operand::RegOnly => 1,
                    }).product();
                    let outs: usize = concrete.output_operands(for_version).iter().map(|el| match el {
                        Operand::Full(_) => ImmMemHandlerFlags::num_dst_variants(),
                        Operand::RegOrImm(_) => RegOrImmFlags::num_dst_variants(),
                        Operand::RegOnly => 1,
                    }).product();
                    (ins * outs) << variant.num_non_exclusive_flags
                })
                .sum::<usize>()
        })
        .sum()
}

'''),
 (M, ("    let mut encoding = 0u64;\n    let mut global_shift = 0;", "    let aligned_num_description_bits"), '''
    let mut bits: Vec<usize> = Vec::new();
    let mut global_shift = 0;
    bits.push(full_opcode_variant.opcode.variant_idx());
    global_shift += NUM_OPCODES;
    bits.push(global_shift + full_opcode_variant.opcode.materialize_subvariant_idx());
    global_shift += max_variant_bits_in_version;
    bits.extend(full_opcode_variant.flags.iter().enumerate().filter(|(_, f)| **f).map(|(i, _)| global_shift + i));
    global_shift += max_num_flags_in_version;
    for (mode, width) in [
        (full_opcode_variant.src0_operand_type.variant_idx(), OPCODE_INPUT_VARIANT_FLAGS),
        (full_opcode_variant.dst0_operand_type.variant_idx(), OPCODE_OUTPUT_VARIANT_FLAGS),
    ] {
        bits.push(global_shift + mode);
        global_shift += width;
    }
    let mut encoding = bits.into_iter().fold(0u64, |acc, b| acc | (1u64 << b));
'''),
 (M, "    if full_opcode_variant.requires_kernel_mode() {\n        encoding |= 1u64 << global_shift;\n    }", "    encoding |= u64::from(full_opcode_variant.requires_kernel_mode()) << global_shift;"),
]
R["lib1"] = [
 (L, ("    pub static ref OPCODE_TO_MONOTONIC_INDEX", "    pub static ref NOP_OPCODE_VARIANT"), '''
    pub static ref OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP: HashMap<OpcodeVariant, VariantMonotonicNumber> = {
        OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP
            .iter()
            .map(|(k, v)| (*k, VariantMonotonicNumber::from_usize(*v)))
            .collect()
    };

    pub static ref OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP: HashMap<OpcodeVariant, usize> = {
        let mut result = HashMap::with_capacity(OPCODES_TABLE.len());
        for (idx, el) in OPCODES_TABLE.iter().enumerate() {
            let previous = *result.entry(*el).or_insert(idx);
            assert!(previous == idx || OPCODES_TABLE[previous] == INVALID_OPCODE_VARIANT);
        }
        result
    };

'''),
 (L, ("        let mut result = Vec::with_capacity(1 << OPCODES_TABLE_WIDTH);", "    };\n}"), "        OPCODES_TABLE.map(|opcode| opcode.ergs_price())\n"),
 (L, ("    let mut total = OPCODE_TYPE_BITS", "pub const TOTAL_AUX"), '''
    total_description_bits_for_version(version).next_multiple_of(WIDTH_MULTIPLE)
}

'''),
 (L, "        let index = OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP[&PANIC_OPCODE_VARIANT];\n        let bitspread = OPCODES_PROPS_INTEGER_BITMASKS[index];\n\n        bitspread", "        bitspread_of(&PANIC_OPCODE_VARIANT)"),
 (L, None, '''
fn bitspread_of(v: &OpcodeVariant) -> u64 {
    OPCODES_PROPS_INTEGER_BITMASKS[*OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(v).unwrap()]
}
'''),
]
R["lib2"] = [
 (L, ("    pub static ref OPCODES_TABLE: [", "    pub static ref OPCODES_PROPS"), '''
    pub static ref OPCODES_TABLE: [OpcodeVariant; 1 << OPCODES_TABLE_WIDTH] = {
        let v = synthesize_opcode_decoding_tables(OPCODES_TABLE_WIDTH, DEFAULT_ISA_VERSION);
        std::array::from_fn(|i| v[i])
    };

'''),
 (L, ("    pub static ref OPCODE_TO_MONOTONIC_INDEX", "    pub static ref OPCODE_TO_CANON"), '''
    pub static ref OPCODE_TO_MONOTONIC_INDEX_NUMBER_MAP: HashMap<OpcodeVariant, VariantMonotonicNumber> = {
        // the first occurrence wins, so walk backwards
        OPCODES_TABLE
            .iter()
            .enumerate()
            .rev()
            .map(|(idx, el)| (*el, VariantMonotonicNumber::from_usize(idx)))
            .collect()
    };

'''),
 (L, "            } else {\n                let _ = result.insert(*el, idx);\n            }", "                continue;\n            }\n            result.insert(*el, idx);"),
 (L, ("        let mut result = Vec::with_capacity(1 << OPCODES_TABLE_WIDTH);", "    };\n}"), '''        let mut result = [0u32; 1 << OPCODES_TABLE_WIDTH];
        for (dst, src) in result.iter_mut().zip(OPCODES_TABLE.iter()) {
            *dst = src.ergs_price();
        }
        result
'''),
 (L, "    if total % WIDTH_MULTIPLE != 0 {\n        total += WIDTH_MULTIPLE - total % WIDTH_MULTIPLE;\n    }", "    total = (total + WIDTH_MULTIPLE - 1) / WIDTH_MULTIPLE * WIDTH_MULTIPLE;"),
]
LZ = open("/repo/src/lib.rs").read()
import re as _re
def lazylock(s):
    body = s[s.index("lazy_static! {"):s.index("pub const INVALID_OPCODE_ERGS")]
    nb = body[len("lazy_static! {"):].rstrip()
    assert nb.endswith("}")
    nb = nb[:-1]
    out = _re.sub(r"pub static ref (\w+): (.*?) = \{\n(.*?)\n    \};", lambda m: f"pub static {m[1]}: std::sync::LazyLock<{m[2]}> = std::sync::LazyLock::new(|| {{\n{m[3]}\n    }});", nb, flags=_re.S)
    return body, out + "\n\n"
a, b = lazylock(LZ)
R["lib3"] = [(L, a, b), (L, "use lazy_static::lazy_static;\n", "")]
