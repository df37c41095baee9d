"""Behaviour-preserving edits, seventh battery: operator and conversion traits, iterator adaptors and
control flow the first six did not use."""
P = "src/decoding/encoding_mode_production.rs"
T = "src/decoding/encoding_mode_testing.rs"
DM = "src/decoding/mod.rs"
M = "src/definitions/mod.rs"
L = "src/lib.rs"
D = "src/definitions/"
A = D + "abi/"
U = "src/utils.rs"
O = "src/opcode.rs"
I = "src/imm_mem_modifiers.rs"
S = "src/system_params.rs"
TR = D + "opcode_trait.rs"
VH = D + "versioned_hash/mod.rs"
AL = D + "all.rs"
G = "src/circuit_pricing_generator/main.rs"
R = {}
# a cursor consumed with `scan`, a word type with operator traits
R["dec7"] = [
 (P, ("        // decode purely as integer\n", "        let new = DecodedOpcode {"), '''        let mut registers = [SRC_REGS_SHIFT, DST_REGS_SHIFT]
            .into_iter()
            .scan(raw_value, |word, shift| Some(split_as_u4((*word >> shift) as u8)));
        let (Some((src0_reg_idx, src1_reg_idx)), Some((dst0_reg_idx, dst1_reg_idx)), None) =
            (registers.next(), registers.next(), registers.next())
        else {
            unreachable!("two register bytes")
        };
        let mut rest = raw_value >> Self::IMM0_SHIFT;
        let mut immediates = std::iter::from_fn(|| {
            let imm = rest as u16;
            rest >>= u16::BITS;
            Some(imm)
        });
        let imm_0 = immediates.next().unwrap_or_default();
        let imm_1 = immediates.next().unwrap_or_default();
        drop(immediates);

'''),
 (P, ("        // our encoding is just an integer\n", "    fn encode_as_bytes"), '''        // our encoding is just an integer
        let Some(&variant_bits) = crate::OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP.get(&opcode.variant) else {
            panic!("Unknown variant {}", opcode.variant);
        };
        assert!(variant_bits.checked_shr(OPCODES_TABLE_WIDTH as u32) == Some(0));
        let condition = opcode.condition.variant_index();
        assert!(condition.min((1 << CONDITIONAL_BITS_WIDTH) - 1) == condition);

        let mut word = Word(variant_bits as u64);
        word |= Word(condition as u64) << CONDITIONAL_BITS_SHIFT as u32;
        word |= Word(merge_u4(opcode.src0_reg_idx, opcode.src1_reg_idx).into()) << SRC_REGS_SHIFT;
        word |= Word(merge_u4(opcode.dst0_reg_idx, opcode.dst1_reg_idx).into()) << DST_REGS_SHIFT;
        let imms = (Word(opcode.imm_0.into()) << Self::IMM0_SHIFT) | (Word(opcode.imm_1.into()) << Self::IMM1_SHIFT);
        word |= imms;
        word.into()
    }

'''),
 (P, None, '''
#[derive(Clone, Copy)]
struct Word(u64);

impl std::ops::Shl<u32> for Word {
    type Output = Word;
    fn shl(self, by: u32) -> Word {
        Word(self.0 << by)
    }
}

impl std::ops::BitOr for Word {
    type Output = Word;
    fn bitor(self, other: Word) -> Word {
        Word(self.0 | other.0)
    }
}

impl std::ops::BitOrAssign for Word {
    fn bitor_assign(&mut self, other: Word) {
        *self = *self | other;
    }
}

impl From<Word> for u64 {
    fn from(w: Word) -> u64 {
        w.0
    }
}
'''),
]
# labelled loops, let-else, a wrapper with IntoIterator and FromIterator
R["tab7"] = [
 (M, ("    let mut difference = vec![];\n", "pub fn compute_decoding_format"), '''    let mut difference = Vec::new();
    'candidates: for candidate in new {
        let mut at = 0;
        loop {
            let Some(known) = old.get_mut(at) else {
                difference.push(*candidate);
                continue 'candidates;
            };
            if semantically_equal(candidate, known) {
                std::mem::replace(known, *candidate);
                continue 'candidates;
            }
            at += 1;
        }
    }
    difference
}

'''.replace("std::mem::replace(known, *candidate);", "let _ = std::mem::replace(known, *candidate);")),
 (M, ("    let mut num_options = 0;\n", "pub(crate) fn opcode_as_integer_bitmask"), '''    let all_prototypes = all_opcode_prototypes();
    let mut counts: Counts = all_opcodes
        .iter()
        .zip(all_prototypes)
        .flat_map(|(opcode, prototype)| {
            opcode
                .variants_data(for_version)
                .into_iter()
                .map(move |data| (prototype.materialize_subvariant_from_prototype(data.variant_idx, &for_version), data))
        })
        .map(|(concrete, data)| {
            let inputs = concrete.input_operands(for_version);
            let outputs = concrete.output_operands(for_version);
            let (src, dst): (Vec<usize>, Vec<usize>) = inputs
                .iter()
                .map(|e| (modes(e, false), 1))
                .chain(outputs.iter().map(|e| (1, modes(e, true))))
                .unzip();
            (src.iter().product::<usize>() * dst.iter().product::<usize>()) << data.num_non_exclusive_flags
        })
        .collect();
    counts.extend(std::iter::empty());
    counts.into_iter().sum()
}

#[derive(Default)]
struct Counts(Vec<usize>);

impl FromIterator<usize> for Counts {
    fn from_iter<I: IntoIterator<Item = usize>>(items: I) -> Self {
        let mut counts = Counts::default();
        counts.extend(items);
        counts
    }
}

impl Extend<usize> for Counts {
    fn extend<I: IntoIterator<Item = usize>>(&mut self, items: I) {
        for item in items {
            self.0.push(item);
        }
    }
}

impl IntoIterator for Counts {
    type Item = usize;
    type IntoIter = std::vec::IntoIter<usize>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}

fn modes(operand: &Operand, output: bool) -> usize {
    match (operand, output) {
        (Operand::RegOnly, _) => 1,
        (Operand::RegOrImm(_), false) => RegOrImmFlags::num_src_variants(),
        (Operand::RegOrImm(_), true) => RegOrImmFlags::num_dst_variants(),
        (Operand::Full(_), false) => ImmMemHandlerFlags::num_src_variants(),
        (Operand::Full(_), true) => ImmMemHandlerFlags::num_dst_variants(),
    }
}

'''),
]
# bitmask through a writer with Deref/AsRef, xor for single bits
R["mask7"] = [
 (M, ("    let mut encoding = 0u64;\n    let mut global_shift = 0;", "fn semantically_equal("), '''    let mut out = OneHot::default();
    out.one(full_opcode_variant.opcode.variant_idx(), *crate::NUM_LOGICAL_OPCODES);
    out.one(full_opcode_variant.opcode.materialize_subvariant_idx(), max_variant_bits_in_version);
    out.many(&full_opcode_variant.flags, max_num_flags_in_version);
    out.one(full_opcode_variant.src0_operand_type.variant_idx(), *crate::NUM_INPUT_VARIANTS);
    out.one(full_opcode_variant.dst0_operand_type.variant_idx(), *crate::NUM_OUTPUT_VARIANTS);

    let rounded = total_description_bits_rounded_for_version(version);
    assert!(*out <= rounded);
    out.width = rounded;
    let aux = [
        (full_opcode_variant.requires_kernel_mode(), crate::KERNEL_MODE_FLAG_BITS),
        (full_opcode_variant.can_be_used_in_static_context(), crate::CAN_BE_USED_IN_STATIC_CONTEXT_FLAG_BITS),
        (full_opcode_variant.is_explicit_panic(), crate::EXPLICIT_PANIC_FLAG_BITS),
    ];
    for (set, width) in aux {
        out.many([set], width);
    }
    assert!(*out <= 64);

    out.mask
}

#[derive(Default)]
struct OneHot {
    mask: u64,
    width: usize,
}

impl std::ops::Deref for OneHot {
    type Target = usize;
    fn deref(&self) -> &usize {
        &self.width
    }
}

impl OneHot {
    fn one(&mut self, at: usize, width: usize) {
        self.mask ^= 1u64 << (self.width + at);
        self.width += width;
    }

    fn many(&mut self, flags: impl AsRef<[bool]>, width: usize) {
        self.mask |= flags
            .as_ref()
            .iter()
            .enumerate()
            .filter(|(_, flag)| **flag)
            .map(|(i, _)| 1u64 << (self.width + i))
            .fold(0, std::ops::BitOr::bitor);
        self.width += width;
    }
}

'''),
]
# abi structures as generic bit readers with const parameters and associated constants
R["abi7"] = [
 (A + "fat_pointer.rs", ("        let raw_value = value.0;\n", "        Self {\n            offset,\n"), '''        let offset = field32::<0, 0>(&value);
        let memory_page = field32::<0, 32>(&value);
        let start = field32::<1, 0>(&value);
        let length = field32::<1, 32>(&value);

'''),
 (A + "fat_pointer.rs", None, '''
pub(crate) const fn field32<const LIMB: usize, const SHIFT: u32>(value: &U256) -> u32 {
    let U256(limbs) = value;
    limbs[LIMB].wrapping_shr(SHIFT) as u32
}
'''),
 (A + "near_call.rs", '''        let raw = raw_value.0;
        let ergs_passed = raw[0] as u32;

        Self { ergs_passed }
''', '''        Self {
            ergs_passed: super::fat_pointer::field32::<0, 0>(&raw_value),
        }
'''),
 (A + "far_call.rs", ("        let extra_data = raw[3];\n", "        let page_forwarding_mode"), '''        let ergs_passed = super::fat_pointer::field32::<3, 0>(&raw_value);
        let high = super::fat_pointer::field32::<3, 32>(&raw_value).swap_bytes();
        let [forwarding_byte, shard_id, constructor_call_byte, to_system_byte] = high.to_be_bytes();
        let _ = raw;

'''),
 (A + "meta.rs", ("        let mut result = U256::zero();\n", "    }\n}\n"), '''        let mut words = [0u64; 4];
        let fields = [
            (0, 0, self.ergs_per_pubdata_byte as u64),
            (1, 0, self.heap_size as u64),
            (1, 32, self.aux_heap_size as u64),
            (3, 32, self.this_shard_id as u64),
            (3, 40, self.caller_shard_id as u64),
            (3, 48, self.code_shard_id as u64),
        ];
        let mut i = 0;
        while i < fields.len() {
            let (word, shift, value) = fields[i];
            words[word] |= value << shift;
            i += 1;
        }
        U256(words)
'''),
 (A + "ret.rs", ("        let raw = raw_value.0;\n", "        Self {\n"), '''        let page_forwarding_mode = match raw_value.0[3].to_be_bytes() {
            [_, _, _, byte, _, _, _, _] => RetForwardPageType::from_u8(byte),
        };

'''),
]
# conditions through TryFrom and a lookup that may fail
R["cond7"] = [
 (D + "condition.rs", ("        assert!(idx < Self::NUM_VARIANTS);\n", "    pub const fn variant_index"), '''        Self::try_from(idx).unwrap_or_else(|idx: usize| panic!("unknown condition {}", idx))
    }

'''),
 (D + "condition.rs", None, '''
impl TryFrom<usize> for Condition {
    type Error = usize;

    fn try_from(idx: usize) -> Result<Self, usize> {
        ALL_CONDITIONS.get(idx).copied().ok_or(idx)
    }
}

impl From<Condition> for usize {
    fn from(condition: Condition) -> usize {
        condition as usize
    }
}
'''),
 (T, "let condition = opcode.condition.variant_index();", "let condition: usize = opcode.condition.into();"),
 (P, "let condition = opcode.condition.variant_index();", "let condition = usize::from(opcode.condition);"),
]
# bytecode hashing: let-else guards, for_each over chunks
R["hash10"] = [
 (U, ("    // bytecode should have an odd number", "    let result = hasher.finalize();"), '''    // bytecode should have an odd number of 32-byte words for ease of use of SHA256 round function
    use crate::decoding::AllowedPcOrImm;
    use sha2::{Digest, Sha256};

    let [first, pairs @ ..] = bytecode_words else {
        return Err(());
    };
    let (limit, length) = (E::PcOrImm::max().as_u64(), bytecode_words.len() as u64);
    match (pairs.len() & 1, length.cmp(&limit)) {
        (0, std::cmp::Ordering::Less | std::cmp::Ordering::Equal) => {}
        _ => return Err(()),
    }

    let mut hasher = Sha256::new();
    hasher.update(first);
    pairs.chunks_exact(2).for_each(|pair| {
        let [a, b] = pair else { unreachable!() };
        hasher.update(a);
        hasher.update(b);
    });

'''),
]
# display through a table of labelled values, format_args
R["disp7"] = [
 (M, ('        writeln!(f, "Opcode and variant: {:?}", self.opcode)?;\n', "pub fn synthesize_opcode_decoding_tables("), '''        let lines: [(&str, &dyn std::fmt::Debug); 3] = [
            ("Opcode and variant", &self.opcode),
            ("Src0 operand type", &self.src0_operand_type),
            ("Dst0 operand type", &self.dst0_operand_type),
        ];
        lines.iter().try_for_each(|(label, value)| f.write_fmt(format_args!("{label}: {value:?}\\n")))?;
        let [first, second] = self.flags;
        f.write_fmt(format_args!("Non-exclusive flags: {first:#01}|{second:#01}"))
    }
}

'''),
 (O, ("        // writeln!(f, \"Decoded opcode\")?;\n", None), '''        use std::fmt::Write;
        std::fmt::Display::fmt(&self.variant, f)?;
        f.write_char('\\n')?;
        writeln!(f, "Condition: {:?}", self.condition)?;
        f.write_str("Register selections: ")?;
        let registers = [
            ("src0", self.src0_reg_idx),
            ("src1", self.src1_reg_idx),
            ("dst0", self.dst0_reg_idx),
            ("dst1", self.dst1_reg_idx),
        ];
        for (i, (name, register)) in registers.iter().enumerate() {
            if i > 0 {
                f.write_str(", ")?;
            }
            write!(f, "{name} = r{register}")?;
        }
        f.write_char('\\n')?;
        writeln!(f, "IMM0 constant: {:#08x}", self.imm_0)?;
        write!(f, "IMM1 constant: {:#08x}", self.imm_1)
    }
}
'''),
]
# tables from the back, entries, arrays built in place
R["lib7"] = [
 (L, ("        let mut result = HashMap::<OpcodeVariant, VariantMonotonicNumber>::new();\n", "    pub static ref OPCODE_TO_CANONICAL_INDEX_LOOKUP_MAP"), '''        use std::collections::hash_map::Entry;
        let mut result = HashMap::with_capacity(OPCODES_TABLE.len());
        for (idx, el) in OPCODES_TABLE.iter().copied().enumerate() {
            match result.entry(el) {
                Entry::Vacant(place) => {
                    place.insert(VariantMonotonicNumber::from_usize(idx));
                }
                Entry::Occupied(existing) => assert_eq!(*existing.key(), INVALID_OPCODE_VARIANT),
            }
        }

        result
    };

'''),
 (L, ("        let mut result = HashMap::new();\n", "    pub static ref NOP_OPCODE_VARIANT"), '''        // the earliest slot of each variant wins
        OPCODES_TABLE.iter().copied().zip(0..).rev().collect()
    };

'''.replace(".zip(0..).rev()", ".enumerate().rev().map(|(idx, el)| (el, idx))")),
 (L, ("        let mut result = Vec::with_capacity(1 << OPCODES_TABLE_WIDTH);\n", "pub const INVALID_OPCODE_ERGS"), '''        let mut prices = [0u32; 1 << OPCODES_TABLE_WIDTH];
        prices
            .iter_mut()
            .zip(OPCODES_TABLE.iter())
            .for_each(|(price, opcode)| *price = opcode.ergs_price());
        prices
    };
}

'''),
 (L, ("    if total % WIDTH_MULTIPLE != 0 {\n", "pub const TOTAL_AUX_BITS"), '''    total += total.wrapping_neg() & (WIDTH_MULTIPLE - 1);

    total
}

'''),
]
# generator writing into one String and a BufWriter
R["gen7"] = [
 (G, ("    let circuit_prices = vec![\n", "        comment(\"The following circuits are single"), '''    let per_unit: [(&str, u32); 11] = [
        ("VM_CYCLE_COST_IN_ERGS", CYCLES_PER_VM_SNAPSHOT),
        ("RAM_PERMUTATION_COST_IN_ERGS", CYCLES_PER_RAM_PERMUTATION),
        // Each round of decommitter outputs 64 bytes of the code,
        // while the user will pay for each word.
        ("CODE_DECOMMITMENT_COST_PER_WORD_IN_ERGS", 2 * CYCLES_PER_CODE_DECOMMITTER),
        ("STORAGE_APPLICATION_COST_IN_ERGS", CYCLES_PER_STORAGE_APPLICATION),
        ("CODE_DECOMMITTER_SORTER_COST_IN_ERGS", CYCLES_FOR_CODE_DECOMMITTER_SORTER),
        ("LOG_DEMUXER_COST_IN_ERGS", CYCLES_FOR_LOG_DEMUXER),
        ("STORAGE_SORTER_COST_IN_ERGS", CYCLES_FOR_STORAGE_SORTER),
        ("EVENTS_OR_L1_MESSAGES_SORTER_COST_IN_ERGS", CYCLES_FOR_EVENTS_OR_L1_MESSAGES_SORTER),
        ("INITIAL_WRITES_PUBDATA_HASHER_COST_IN_ERGS", LIMIT_FOR_INITIAL_WRITES_PUBDATA_HASHER),
        ("REPEATED_WRITES_PUBDATA_HASHER_COST_IN_ERGS", LIMIT_FOR_REPEATED_WRITES_PUBDATA_HASHER),
        ("CODE_DECOMMITMENT_SORTER_COST_IN_ERGS", CYCLES_FOR_CODE_DECOMMITTER_SORTER),
    ];
    let mut text = String::new();
    for (name, units) in per_unit {
        use std::fmt::Write;
        writeln!(text, "pub const {name}: u32 = {};", ERGS_PER_CIRCUIT.div_ceil(units)).unwrap();
    }
    let circuit_prices = vec![
        text,
'''),
 (G, ("    let mut f = File::create(filepath)", "fn main() {"), '''    let file = File::create(filepath).expect("Unable to create file");
    let mut out = std::io::BufWriter::new(file);
    write!(out, "{}", file_content).expect("Unable to write data");
    out.flush().expect("Unable to write data");
}

'''),
]
# version lists and opcode lists through take_while, step_by, cycle, position
R["ver7"] = [
 (TR, ("        let mut result = vec![];\n", "pub const NUM_ISA_VERSIONS"), '''        ALL_ISA_VERSIONS
            .into_iter()
            .take_while(|v| v.cmp(&including).is_le())
            .collect()
    }
}

'''),
 (TR, ("        let possible_dests = self.input_operands(version);\n", "    fn can_write_dst0_into_memory"), '''        self.input_operands(version)
            .into_iter()
            .next()
            .is_some_and(|operand| matches!(operand, Operand::Full(..)))
    }
'''),
 (TR, ("    let mut result = Vec::with_capacity(variants_range.clone().count());\n", None), '''    let (first, last) = variants_range.into_inner();
    let template = OpcodeVariantData {
        variant_idx: first,
        num_non_exclusive_flags,
        num_used_immediates: num_immedates,
    };
    std::iter::successors(Some(template), |prev| {
        (prev.variant_idx < last).then(|| OpcodeVariantData {
            variant_idx: prev.variant_idx + 1,
            ..*prev
        })
    })
    .collect()
}
'''),
 (M, ("            ALL_ISA_VERSIONS\n                .iter()\n", "        .max()\n        .unwrap();\n\n    num_flags"), '''            let mut most = 0;
            for el in ALL_ISA_VERSIONS.into_iter().filter(|el| *el <= version) {
                for data in op.variants_data(el) {
                    most = most.max(data.num_non_exclusive_flags);
                }
            }
            most
        })
'''),
]
# addressing modes by position in their list, sets of modes
R["imm7"] = [
 (I, ("        match self {\n            ImmMemHandlerFlags::UseRegOnly | ImmMemHandlerFlags::UseImm16Only => false,", "    pub fn num_variants()"), '''        const USED: u8 = 0b101110;
        (USED >> self.encoding_byte()) & 1 == 1
    }
'''),
 (I, "        Self::NUM_VARIANTS - 2\n", "        Self::all_variants().iter().filter(|mode| mode.is_allowed_for_dst()).count()\n"),
 (I, ("        match self {\n            ImmMemHandlerFlags::UseImm16Only | ImmMemHandlerFlags::UseCodePage => false,", "}\n\n#[derive"), '''        (*self as u8) < (Self::UseImm16Only as u8)
    }
'''),
 (D + "condition.rs", ("        match self {\n            Condition::Always => 0,", "}\n\npub const ALL_CONDITIONS"), '''        let mut at = 0;
        loop {
            if ALL_CONDITIONS[at] as u8 == *self as u8 {
                return at;
            }
            at += 1;
        }
    }
'''),
]
# helper extraction, statements reordered, early returns: the plain sort of edit
R["plain7"] = [
 (P, ("        let variant = *NOP_OPCODE_VARIANT;\n", "    fn parse_preliminary_variant_and_absolute_number"), '''        plain(*NOP_OPCODE_VARIANT).serialize_as_integer()
    }

    fn exception_revert_encoding() -> Self::IntegerRepresentation {
        // ret.panic r0
        plain(*PANIC_OPCODE_VARIANT).serialize_as_integer()
    }

'''),
 (P, None, '''
fn plain(variant: OpcodeVariant) -> DecodedOpcode<8, EncodingModeProduction> {
    DecodedOpcode {
        variant,
        ..Default::default()
    }
}
'''),
 (O, ("        // we only mask first 8 bytes of the opcode", "    pub fn serialize_as_integer"), '''        self.mask_into(*PANIC_OPCODE_VARIANT);
    }

    pub fn mask_into_nop(&mut self) {
        self.mask_into(*NOP_OPCODE_VARIANT);
    }

    fn mask_into(&mut self, variant: OpcodeVariant) {
        *self = Self {
            variant,
            imm_1: self.imm_1,
            imm_0: self.imm_0,
            ..Self::default()
        };
    }

'''),
 (D + "versioned_hash/mod.rs", ("        let mut result = [0u8; 32];\n        result[0] = Self::VERSION_BYTE;\n        result[1] = 0;", "    fn try_deserialize(input: [u8; 32]) -> Option<Self::StorageLayout> {\n        if"), '''        let stored = ContractCodeSha256Storage {
            extra_marker: Self::CODE_AT_REST_MARKER,
            ..storage
        };
        Self::serialize(stored)
    }
'''),
 (U, ("    if bytecode_words.len() % 2 != 1 {\n", "    use sha2::{Digest, Sha256};"), '''    use crate::decoding::AllowedPcOrImm;
    let num_words = bytecode_words.len();
    let is_odd = num_words % 2 == 1;
    let fits = num_words as u64 <= E::PcOrImm::max().as_u64();
    if !(is_odd && fits) {
        return Err(());
    }

'''),
]
